"""signatures of functions of the (pure Python) packages the code builds on, read from their installed source"""

import ast
import functools
import os

SITE = "/opt/venv/lib/python3.12/site-packages"
PACKAGES = {"emcwrap", "grgrlib", "econsieve", "emcee"}


@functools.lru_cache(None)
def tree(mod):
    base = os.path.join(SITE, *mod.split("."))
    for p in (base + ".py", os.path.join(base, "__init__.py")):
        try:
            with open(p) as f:
                return ast.parse(f.read()), p.endswith("__init__.py")
        except (OSError, SyntaxError, ValueError):
            pass
    return None, False


@functools.lru_cache(None)
def find(mod, name, depth=0):
    t, pkg = tree(mod)
    if t is None or depth > 4:
        return None
    out = None
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and n.name == name:
            out = n
        elif isinstance(n, ast.ImportFrom):
            src = n.module or ""
            if n.level:
                up = mod.split(".")
                up = up[:len(up) - n.level + (1 if pkg else 0)]
                src = ".".join(up + ([src] if src else []))
            if src.split(".")[0] not in PACKAGES:
                continue
            for a in n.names:
                if a.name == "*" or (a.asname or a.name) == name:
                    out = find(src, name if a.name == "*" else a.name, depth + 1) or out
    return out


@functools.lru_cache(None)
def signature(qual):
    """(required names, {optional name: default node}, order) or None"""
    if not qual or qual.split(".")[0] not in PACKAGES or "." not in qual:
        return None
    mod, name = qual.rsplit(".", 1)
    fn = find(mod, name)
    if fn is None or fn.decorator_list:
        return None
    a = fn.args
    if a.vararg or a.posonlyargs:
        return None
    pos = [p.arg for p in a.args]
    req = len(pos) - len(a.defaults)
    opt = dict(zip(pos[req:], a.defaults))
    return pos, req, opt
