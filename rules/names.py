"""C32: every name, import, model attribute and call signature the package relies on exists"""

import ast
import builtins
import os
import symtable
import sys

SITE = "/opt/venv/lib/python3.12/site-packages"
MODEL_SELF = {"self", "model", "mod", "dsge", "pelf"}


def functions(tree):
    """(node, enclosing class name or None) of every function"""
    out = []

    def walk(n, cls):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((ch, cls))
                walk(ch, None if not isinstance(n, ast.ClassDef) else cls)
            elif isinstance(ch, ast.ClassDef):
                walk(ch, ch.name)
            else:
                walk(ch, cls)
    walk(tree, None)
    return out


def parents(tree):
    p = {}
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            p[ch] = n
    return p


def catches(h, names):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(ast.unparse(t).split(".")[-1] in names for t in ts)


def protected(n, par, names):
    """inside the body of a try statement that handles such a failure"""
    c = n
    while c in par:
        q = par[c]
        if isinstance(q, ast.Try) and c in q.body and any(catches(h, names) for h in q.handlers):
            return True
        c = q
    return False


# ------------------------------------------------------------------ names
def globals_of(c, m, seen=None):
    """names bound at module level; None when a star import cannot be followed"""
    seen = seen or set()
    if m.name in seen:
        return set()
    seen.add(m.name)
    tab = symtable.symtable(m.src, m.path, "exec")
    out = {s.get_name() for s in tab.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    todo = [tab]
    while todo:                                     # `global x` inside functions
        t = todo.pop()
        todo += t.get_children()
        if t.get_type() == "function":
            out |= {s.get_name() for s in t.get_symbols() if s.is_declared_global() and s.is_assigned()}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
            t = c.prog.resolve_rel(m, n)
            if t in c.prog.modules:
                g = globals_of(c, c.prog.modules[t], seen)
                if g is None:
                    return None
                out |= {x for x in g if not x.startswith("_")}
            else:
                return None
    return out | set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__"}


def undefined(c, m):
    g = globals_of(c, m)
    if g is None:
        c.undecided("every name is defined", m.path, "a star import from outside the package")
        return
    par = parents(m.tree)
    bad = {}

    def scan(t):
        for s in t.get_symbols():
            if s.is_referenced() and s.is_global() and s.get_name() not in g:
                bad.setdefault(s.get_name(), set()).add((t.get_name(), t.get_lineno()))
        for ch in t.get_children():
            scan(ch)
    top = symtable.symtable(m.src, m.path, "exec")
    for s in top.get_symbols():
        if s.is_referenced() and s.get_name() not in g:
            bad.setdefault(s.get_name(), set()).add((m.name, 0))
    for ch in top.get_children():
        scan(ch)
    nref = 0
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            nref += 1
            if n.id in bad and not protected(n, par, {"NameError", "Exception", "BaseException"}):
                scope = n
                while scope in par and not isinstance(scope, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    scope = par[scope]
                names = {x[0] for x in bad[n.id]}
                chain, q = set(), n
                while q in par:
                    q = par[q]
                    chain.add(getattr(q, "name", "lambda" if isinstance(q, ast.Lambda) else None))
                if m.name in names or names & chain or any(x.endswith("comp") or x == "genexpr" for x in names):
                    c.violate("every name is defined", f"{m.path}:{n.lineno}", f"the name `{n.id}` is defined nowhere")
    c.require("every name is defined", True, f"{m.path} ({nref} references)")


# ------------------------------------------------------------------ imports
def exists(top):
    if top in sys.stdlib_module_names:
        return True
    if not os.path.isdir(SITE):
        return None
    for x in (top, top + ".py"):
        if os.path.exists(os.path.join(SITE, x)):
            return True
    return any(f.startswith(top + ".") and f.endswith(".so") for f in os.listdir(SITE))


def imports(c, m):
    par = parents(m.tree)
    k = 0
    for n in ast.walk(m.tree):
        if not isinstance(n, (ast.Import, ast.ImportFrom)):
            continue
        k += 1
        if protected(n, par, {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}):
            continue
        w = f"{m.path}:{n.lineno}"
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] != "pydsge" and exists(a.name.split(".")[0]) is False:
                    c.violate("every import can be satisfied", w, f"module `{a.name}` is not part of the installed dependencies")
            continue
        t = c.prog.resolve_rel(m, n)
        if n.level or t.split(".")[0] == "pydsge":
            tm = c.prog.modules.get(t)
            if tm is None:
                c.violate("every import can be satisfied", w, f"module `{t}` does not exist")
                continue
            g = globals_of(c, tm)
            for a in n.names:
                if a.name != "*" and g is not None and a.name not in g and f"{t}.{a.name}" not in c.prog.modules:
                    c.violate("every import can be satisfied", w, f"`{a.name}` does not exist in `{t}`")
        elif exists(t.split(".")[0]) is False:
            c.violate("every import can be satisfied", w, f"module `{t}` is not part of the installed dependencies")
    c.require("every import can be satisfied", True, f"{m.path} ({k} imports)")


# ------------------------------------------------------------------ calls
def accepts(a, npos, kws, bound, star, dstar):
    """None if the signature `a` accepts the call, else what is wrong"""
    pos = [p.arg for p in a.posonlyargs + a.args]
    if bound:
        pos = pos[1:]
    ponly = {p.arg for p in a.posonlyargs}
    kwo = [p.arg for p in a.kwonlyargs]
    if npos > len(pos) and a.vararg is None:
        return f"takes at most {len(pos)} positional arguments, {npos} given"
    taken = set(pos[:npos])
    for k in kws:
        if k in taken:
            return f"got argument `{k}` twice"
        if k not in pos and k not in kwo and a.kwarg is None:
            return f"has no argument `{k}`"
    if star or dstar:
        return None
    need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    miss = [p for p in need if p not in taken and p not in kws and p not in ponly]
    miss += [p for p, d in zip(kwo, a.kw_defaults) if d is None and p not in kws]
    return f"is called without `{miss[0]}`" if miss else None


def plain(fn):
    """a signature that no decorator changes"""
    ok = {"njit", "jit", "property", "cached_property", "staticmethod", "classmethod", "lru_cache", "cache", "wraps"}
    return all(ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1] in ok for d in fn.decorator_list)


def isprop(fn):
    return any(ast.unparse(d).split(".")[-1] in ("property", "cached_property") for d in fn.decorator_list)


def isstatic(fn):
    return any(ast.unparse(d).split(".")[-1] in ("staticmethod",) for d in fn.decorator_list)


def locals_of(fn):
    out = {p.arg for p in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    for x in (fn.args.vararg, fn.args.kwarg):
        if x:
            out.add(x.arg)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
    return out


def signatures(c, m):
    dsge = c.prog.klass("DSGE")
    k = 0
    par = parents(m.tree)
    for fn, cls in functions(m.tree):
        loc = locals_of(fn)
        imported = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.ImportFrom):
                t = c.prog.resolve_rel(m, n)
                for a in n.names:
                    if t in c.prog.modules:
                        imported[a.asname or a.name] = c.prog.lookup(c.prog.modules[t], a.name)
        first = (fn.args.posonlyargs + fn.args.args)[:1]
        model = first and first[0].arg == "self" and (cls in (None, "DSGE", "Model")) or not first
        for n in ast.walk(fn):
            if not isinstance(n, ast.Call):
                continue
            b, bound = None, False
            if isinstance(n.func, ast.Name):
                if n.func.id in imported:
                    b = imported[n.func.id]
                elif n.func.id not in loc and not shadowed(n.func, par, n.func.id):
                    b = c.prog.lookup(m, n.func.id)
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and model:
                b, bound = c.prog.method(dsge, n.func.attr), True
                if any(isinstance(x, ast.Attribute) and x.attr == n.func.attr and isinstance(x.ctx, ast.Store)
                       for mm in c.prog.modules.values() for x in ast.walk(mm.tree)):
                    b = None            # may be replaced on the instance
            if not b or b[0] != "func" or not isinstance(b[1].node, ast.FunctionDef) or not plain(b[1].node) or isprop(b[1].node):
                continue
            if bound and isstatic(b[1].node):
                bound = False
            k += 1
            star = any(isinstance(a, ast.Starred) for a in n.args)
            npos = sum(not isinstance(a, ast.Starred) for a in n.args)
            kws = [x.arg for x in n.keywords if x.arg]
            why = accepts(b[1].node.args, npos, kws, bound, star, any(x.arg is None for x in n.keywords))
            if why and not protected(n, par, {"TypeError", "Exception", "BaseException"}):
                c.violate("every call matches the signature it calls", f"{m.path}:{n.lineno}", f"`{b[1].qual}` {why}")
    c.require("every call matches the signature it calls", True, f"{m.path} ({k} calls)")


def shadowed(n, par, name):
    while n in par:
        n = par[n]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and name in locals_of(n):
            return True
        if isinstance(n, ast.Lambda) and name in {p.arg for p in n.args.args}:
            return True
    return False


# ------------------------------------------------------------------ attributes of the model
def attributes(c):
    known = set(dir(dict))
    dynamic = False
    for m in c.prog.modules.values():
        par = parents(m.tree)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                known.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
                if isinstance(n.args[1], ast.Constant):
                    known.add(n.args[1].value)
                else:
                    dynamic = True
            elif isinstance(n, ast.Attribute) and n.attr == "__dict__":
                q = par.get(n)
                if not (isinstance(q, ast.Attribute) and q.attr in ("pop", "get", "keys", "items", "values", "copy")) \
                        and not (isinstance(q, ast.Subscript) and isinstance(q.ctx, (ast.Load, ast.Del))) and not isinstance(q, ast.Compare):
                    dynamic = True
            elif isinstance(n, ast.FunctionDef) and n.name in ("__getattr__", "__getattribute__"):
                dynamic = True
    for cl in ("DSGE", "Model"):
        for k in c.prog.mro(c.prog.klass(cl)):
            known |= set(k.members)
    if dynamic:
        c.undecided("every model attribute that is read exists", "pydsge", "attributes are created dynamically")
        return
    for m in c.prog.modules.values():
        par = parents(m.tree)
        k = 0
        for fn, cls in functions(m.tree):
            first = (fn.args.posonlyargs + fn.args.args)[:1]
            if not first or first[0].arg != "self" or cls not in (None, "DSGE", "Model"):
                continue
            asked = {x.args[1].value for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)
                     and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    k += 1
                    if n.attr in known or n.attr in asked or n.attr.startswith("__"):
                        continue
                    if not protected(n, par, {"AttributeError", "Exception", "BaseException"}):
                        c.violate("every model attribute that is read exists", f"{m.path}:{n.lineno}", f"`self.{n.attr}` is set nowhere")
        c.require("every model attribute that is read exists", True, f"{m.path} ({k} reads)")


# ------------------------------------------------------------------ entries of the model and of its metadata
def isfdict(n):
    return isinstance(n, ast.Attribute) and n.attr == "fdict" or isinstance(n, ast.Name) and n.id == "fdict"


def entries(c):
    known = set()
    for m in c.prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant):
                known.add(n.slice.value)
            elif isinstance(n, ast.Dict):
                known |= {k.value for k in n.keys if isinstance(k, ast.Constant)}
            elif isinstance(n, ast.Call):
                known |= {k.arg for k in n.keywords if k.arg}
                if isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and n.args and isinstance(n.args[0], ast.Constant):
                    known.add(n.args[0].value)
            elif isinstance(n, (ast.Tuple, ast.List, ast.Set)):     # loops over entry names
                known |= {x.value for x in n.elts if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    for m in c.prog.modules.values():
        par = parents(m.tree)
        k = 0
        for fn, cls in functions(m.tree):
            first = (fn.args.posonlyargs + fn.args.args)[:1]
            if not first or first[0].arg != "self" or cls not in (None, "DSGE", "Model"):
                continue
            asked = {x.left.value for x in ast.walk(fn) if isinstance(x, ast.Compare) and isinstance(x.left, ast.Constant)}
            for n in ast.walk(fn):
                if not (isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)):
                    continue
                if not (isfdict(n.value) or isinstance(n.value, ast.Name) and n.value.id == "self"):
                    continue
                q = n
                while q in par and not isinstance(q, ast.ExceptHandler):
                    q = par[q]
                if isinstance(q, ast.ExceptHandler):        # fallback for models that do not stem from this package
                    continue
                k += 1
                v = n.slice.value
                if v not in known and v not in asked and not protected(n, par, {"KeyError", "LookupError", "Exception", "BaseException"}):
                    c.violate("every entry that is read is stored somewhere", f"{m.path}:{n.lineno}", f"entry `{v}` is stored nowhere")
        c.require("every entry that is read is stored somewhere", True, f"{m.path} ({k} reads)")


# ------------------------------------------------------------------ numpy
def numpy_names():
    p = os.path.join(SITE, "numpy", "__init__.pyi")
    if not os.path.exists(p):
        return None
    out = set(dir(builtins)) - set(dir(builtins))
    for n in ast.walk(ast.parse(open(p, encoding="utf-8").read())):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name for a in n.names}
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            out.add(n.target.id)
        elif isinstance(n, ast.Assign):
            out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    return out


def library(c):
    known = numpy_names()
    if known is None:
        c.undecided("every numpy name exists", "numpy", "its interface description is not installed")
        return
    for m in c.prog.modules.values():
        al = {a.asname or a.name for n in ast.walk(m.tree) if isinstance(n, ast.Import) for a in n.names if a.name == "numpy"}
        par = parents(m.tree)
        k = 0
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in al:
                k += 1
                if n.attr not in known and not protected(n, par, {"AttributeError", "Exception", "BaseException"}):
                    c.violate("every numpy name exists", f"{m.path}:{n.lineno}", f"`numpy.{n.attr}` does not exist in the installed version")
        c.require("every numpy name exists", True, f"{m.path} ({k} uses)")


def c32(c):
    entries(c)
    library(c)
    for m in c.prog.modules.values():
        undefined(c, m)
        imports(c, m)
        signatures(c, m)
    attributes(c)
