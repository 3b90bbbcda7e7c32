"""Parses the package under /repo and resolves names, imports, classes and method tables (no code is run)."""

import ast
import builtins
import hashlib
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "pydsge"


class AnalysisBroken(Exception):
    """an anchor of the analysis vanished"""


class Func:
    def __init__(self, module, node, qual, cls=None, parent=None):
        self.module, self.node, self.qual, self.cls, self.parent = module, node, qual, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        decs = getattr(node, "decorator_list", [])
        self.decorators = [ast.unparse(d) for d in decs]
        self.is_property = any(d == "property" for d in self.decorators)
        self.is_classmethod = "classmethod" in self.decorators
        self.is_static = "staticmethod" in self.decorators
        self.is_ctx = any(d.split(".")[-1] == "contextmanager" for d in self.decorators)

    @property
    def memoised(self):
        return [d for d in self.decorators if "cache" in d.split("(")[0].lower()]

    def where(self, node=None):
        n = node if node is not None else self.node
        return f"{self.module.path}:{getattr(n, 'lineno', '?')} ({self.qual})"

    def __repr__(self):
        return f"<{self.qual}>"


class Class:
    def __init__(self, module, node, name):
        self.module, self.node, self.name = module, node, name
        self.members = {}   # name -> ('func', Func) | ('expr', ast, module)
        self.bases = [ast.unparse(b) for b in node.bases]


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.names = {}     # name -> binding tuple


class Program:
    """bindings: ('func',Func) ('class',Class) ('ext',dotted) ('mod',Module) ('expr',ast,Module)"""

    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.funcs = {}
        base = os.path.join(self.root, PKG)
        files = []
        for dp, dn, fn in os.walk(base):
            dn[:] = [d for d in dn if d not in ("tests", "examples", "__pycache__")]
            for f in sorted(fn):
                if f.endswith(".py"):
                    files.append(os.path.join(dp, f))
        if not files:
            raise AnalysisBroken(f"no python sources under {base}")
        h = hashlib.sha256()
        for f in sorted(files):
            rel = os.path.relpath(f, self.root)
            src = open(f, encoding="utf-8").read()
            h.update(rel.encode() + b"\0" + src.encode() + b"\0")
            modname = rel[:-3].replace(os.sep, ".")
            if modname.endswith(".__init__"):
                modname = modname[:-9]
            try:
                tree = ast.parse(src, rel)
            except SyntaxError as e:
                raise AnalysisBroken(f"{rel} does not parse: {e}")
            self.modules[modname] = Module(modname, rel, tree, src)
        self.digest = h.hexdigest()
        for m in self.modules.values():
            self._bind_module(m)
        # methods attached from outside: Model.x = f
        for m in self.modules.values():
            for st in m.tree.body:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute) \
                        and isinstance(st.targets[0].value, ast.Name):
                    b = self.lookup(m, st.targets[0].value.id)
                    if b and b[0] == "class":
                        b[1].members[st.targets[0].attr] = ("expr", st.value, m)
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) \
                        and st.value.func.id == "setattr" and len(st.value.args) == 3 \
                        and isinstance(st.value.args[0], ast.Name) and isinstance(st.value.args[1], ast.Constant):
                    b = self.lookup(m, st.value.args[0].id)
                    if b and b[0] == "class":
                        b[1].members[st.value.args[1].value] = ("expr", st.value.args[2], m)
                # for name, f in {...}.items(): setattr(Model, name, f)
                if isinstance(st, ast.For):
                    self._bulk_methods(m, st)

    def _bulk_methods(self, m, st):
        it = st.iter
        pairs = None
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items":
            d = it.func.value
            if isinstance(d, ast.Name):
                b = m.names.get(d.id)
                d = b[1] if b and b[0] == "expr" else d
            if isinstance(d, ast.Dict):
                pairs = [(k.value, v) for k, v in zip(d.keys, d.values) if isinstance(k, ast.Constant)]
        elif isinstance(it, (ast.Tuple, ast.List)):
            pairs = [(e.elts[0].value, e.elts[1]) for e in it.elts
                     if isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == 2 and isinstance(e.elts[0], ast.Constant)]
            if not pairs and all(isinstance(e, ast.Name) for e in it.elts):
                pairs = [(e.id, e) for e in it.elts]
        if not pairs:
            return
        for sub in ast.walk(st):
            if isinstance(sub, ast.Call) and isinstance(sub.func, ast.Name) and sub.func.id == "setattr" and sub.args \
                    and isinstance(sub.args[0], ast.Name):
                b = self.lookup(m, sub.args[0].id)
                if b and b[0] == "class":
                    for k, v in pairs:
                        b[1].members[k] = ("expr", v, m)

    # ------------------------------------------------------------------
    def _bind_module(self, m):
        for st in m.tree.body:
            self._bind_stmt(m, st)

    def _bind_stmt(self, m, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(m, st, f"{m.name}.{st.name}")
            m.names[st.name] = ("func", f)
            self.funcs[f.qual] = f
        elif isinstance(st, ast.ClassDef):
            c = Class(m, st, st.name)
            m.names[st.name] = ("class", c)
            for s in st.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m, s, f"{m.name}.{st.name}.{s.name}", cls=c)
                    c.members[s.name] = ("func", f)
                    self.funcs[f.qual] = f
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.members[t.id] = ("expr", s.value, m)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for name, b in self.import_bindings(m, st):
                m.names[name] = b
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    m.names[t.id] = ("expr", st.value, m)
                elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(t.elts) == len(st.value.elts):
                    for a, b in zip(t.elts, st.value.elts):
                        if isinstance(a, ast.Name):
                            m.names[a.id] = ("expr", b, m)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            m.names[st.target.id] = ("expr", st.value, m)
        elif isinstance(st, (ast.If, ast.Try)):
            for sub in list(getattr(st, "body", [])) + list(getattr(st, "orelse", [])):
                self._bind_stmt(m, sub)
            for h in getattr(st, "handlers", []):
                for sub in h.body:
                    self._bind_stmt(m, sub)

    def resolve_rel(self, m, node):
        """dotted module of an ImportFrom"""
        if node.level:
            parts = m.name.split(".")
            is_pkg = m.path.endswith("__init__.py")
            up = node.level - (1 if is_pkg else 0)
            parts = parts[:len(parts) - up] if up else parts
            return ".".join(parts + ([node.module] if node.module else []))
        return node.module

    def import_bindings(self, m, st):
        out = []
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    out.append((a.asname, ("ext", a.name)))
                else:
                    top = a.name.split(".")[0]
                    out.append((top, ("ext", top)))
        else:
            mod = self.resolve_rel(m, st)
            for a in st.names:
                if a.name == "*":
                    out.append(("*" + mod, ("star", mod)))
                elif mod in self.modules or mod.split(".")[0] == PKG:
                    if mod + "." + a.name in self.modules:
                        out.append((a.asname or a.name, ("mod", mod + "." + a.name)))
                    else:
                        out.append((a.asname or a.name, ("from", mod, a.name)))
                else:
                    out.append((a.asname or a.name, ("ext", mod + "." + a.name)))
        return out

    def lookup(self, m, name, _seen=None):
        """resolve a module level name to a binding (or None)"""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        b = m.names.get(name)
        if b is None:
            for k, sb in m.names.items():
                if sb[0] == "star":
                    if sb[1] in self.modules and not name.startswith("_"):
                        r = self.lookup(self.modules[sb[1]], name, _seen)
                        if r:
                            return r
            return None
        if b[0] == "from":
            if b[1] not in self.modules:
                return ("missing", b[1], b[2])
            r = self.lookup(self.modules[b[1]], b[2], _seen)
            return r or ("missing", b[1], b[2])
        if b[0] == "expr" and isinstance(b[1], ast.Name) and b[1].id != name:
            r = self.lookup(b[2], b[1].id, _seen)
            if r:
                return r
        return b

    # ------------------------------------------------------------------
    def klass(self, name):
        for m in self.modules.values():
            b = m.names.get(name)
            if b and b[0] == "class":
                return b[1]
        raise AnalysisBroken(f"class {name} not found")

    def mro(self, cls):
        out = [cls]
        for b in cls.bases:
            r = self.lookup(cls.module, b) if b.isidentifier() else None
            if r and r[0] == "class":
                out += self.mro(r[1])
        return out

    def method(self, cls, name):
        """('func',Func) / ('expr',ast,Module) binding of attribute `name` in a class"""
        for c in self.mro(cls):
            b = c.members.get(name)
            if b:
                for _ in range(5):
                    if b[0] == "expr" and isinstance(b[1], ast.Name):
                        r = self.lookup(b[2], b[1].id)
                        if r is None:
                            break
                        b = r
                    else:
                        break
                return b
        return None

    def held(self):
        """attribute name -> signature, for local functions stored on an object under that one name"""
        if not hasattr(self, "_held"):
            out, bad = {}, set()
            for m in self.modules.values():
                for f in ast.walk(m.tree):
                    if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        continue
                    defs = {d.name: d for d in f.body if isinstance(d, ast.FunctionDef)}
                    for x in ast.walk(f):
                        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in defs:
                            for t in x.targets:
                                if isinstance(t, ast.Attribute):
                                    if t.attr in out and out[t.attr] is not defs[x.value.id].args:
                                        bad.add(t.attr)
                                    out[t.attr] = defs[x.value.id].args
            for b in bad:
                out.pop(b)
            self._held = out
        return self._held

    def model_method(self, name):
        """Func behind the public method DSGE.<name>"""
        b = self.method(self.klass("DSGE"), name)
        if b and b[0] == "func":
            return b[1]
        if b and b[0] == "expr" and isinstance(b[1], ast.Call) and ast.unparse(b[1].func) == "property" and b[1].args:
            r = self.lookup(b[2], ast.unparse(b[1].args[0]))
            if r and r[0] == "func":
                r[1].is_property = True
                return r[1]
        raise AnalysisBroken(f"public method `{name}` of the model class not found")

    def func(self, modname, name):
        m = self.modules.get(f"{PKG}.{modname}") if modname else self.modules[PKG]
        if m is None:
            # function may have moved to another module
            for mm in self.modules.values():
                b = mm.names.get(name)
                if b and b[0] == "func":
                    return b[1]
            raise AnalysisBroken(f"module {modname} not found")
        b = self.lookup(m, name)
        if b and b[0] == "func":
            return b[1]
        if b and b[0] == "expr" and isinstance(b[1], ast.Call) and b[1].args and isinstance(b[1].args[0], ast.Name):
            r = self.lookup(b[2], b[1].args[0].id)
            if r and r[0] == "func":
                return r[1]
        for mm in self.modules.values():
            b = mm.names.get(name)
            if b and b[0] == "func":
                return b[1]
        raise AnalysisBroken(f"function `{name}` not found in {modname}")


BUILTINS = set(dir(builtins))
