"""Value-flow interpreter: propagates Herbrand terms through the AST of the analysed program.

Nothing is executed.  Every statement is a transfer function on an abstract state that maps locals and heap
cells to value terms; control-flow joins gate the values (gated SSA).  Repo functions are analysed
context-sensitively at their call sites.
"""

import ast
import builtins

from . import terms as T
from .terms import (TRUE, FALSE, NONE, ONE, ZERO, raw, const, sym, ite, b_and, b_or, b_not, truth, is_const, cval,
                    is_bool, is_num)
from .loader import Func, Class, AnalysisBroken

# functions with a documented contract of their own: kept as named operations when they are not the analysed entry
API = {"get_par", "set_par", "get_chain", "get_sample", "get_log_prob", "get_tune", "gen_sys_from_yaml", "gen_sys",
       "gen_sys_from_dict", "preprocess", "preprocess_tmats", "create_filter", "run_filter", "extract", "prep_estim",
       "get_cov", "box_check", "prior_sampler", "posterior_sampler", "mcmc", "load_data", "create_pool",
       "t_func", "o_func", "irfs", "simulate", "nhd", "mdd", "traj", "k_map", "t_func_jit", "find_lk", "bruite_wrapper",
       "save_meta", "mcmc_summary", "create_obs_cov", "get_p_init_lyapunov", "get_eps_lin", "vix", "oix", "get_ll",
       "preprocess_jittable", "preprocess_tmats_jit", "read", "load", "parse", "get_matrices",
       "crawl_cached_models", "shock2state", "mask", "post_mean", "sort_nhd", "write_yaml", "p0"}

# attributes of a model that name an entry of the model (C28 decides that they do)
PROPKEY = {"parameters": "par_ordering", "variables": "var_ordering", "const_var": "const_var", "const_eq": "const_eq",
           "equations": "equations", "mod_name": "mod_name"}
KEYPROP = {v: k for k, v in PROPKEY.items()}

EXT = lambda d: sym("ext", d)
BI = lambda d: sym("builtin", d)
UNBOUND = sym("unbound")

# name lists of a model: every entry occurs once
DISTINCT = ("shocks", "vv", "observables", "par_names", "prior_names")
MUTATORS = {"append", "extend", "insert", "pop", "remove", "update", "sort", "reverse", "clear", "fill", "setdefault",
            "popitem", "add", "discard", "resize", "put", "itemset"}

IDENT_ARR = {"numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.copy", "numpy.asanyarray",
             "numpy.asfortranarray", "numpy.require"}
ALLOC = {"numpy.zeros", "numpy.empty", "numpy.ones", "numpy.eye", "numpy.zeros_like", "numpy.empty_like",
         "numpy.ones_like", "numpy.full", "numpy.pad", "numpy.tile", "numpy.identity", "sympy.zeros",
         "sympy.matrices.zeros", "sympy.Matrix", "collections.OrderedDict"}
IMPURE = ("numpy.random.", "random.", "time.", "datetime.")


def strip(t):
    """value of a term without allocation identities"""
    r = t.cache.get("strip") if t.cache else None
    if r is not None:
        return r
    r = T.rebuild(t, lambda u: u.args[1] if u.op == "new" else u, _strip_memo)
    if t.cache is None:
        t.cache = {}
    t.cache["strip"] = r
    return r


_strip_memo = {}


def top(t):
    """strip allocation identity at the root only"""
    while t.op == "new":
        t = t.args[1]
    if t.op == "phi" and (T.contains(t.args[1], _isnew) or T.contains(t.args[2], _isnew)):
        return ite(t.args[0], top(t.args[1]), top(t.args[2]))
    return t


def _isnew(u):
    return u.op == "new"


class Event:
    __slots__ = ("kind", "guard", "may", "func", "args", "kwargs", "target", "name", "value", "where", "loops", "tries",
                 "seq", "stack", "rawargs", "fresh", "inlined", "node", "bound")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def __repr__(self):
        b = f"{self.kind}"
        if self.kind == "call":
            b += f" {T.show(self.func, 6)}({', '.join([T.show(a, 6) for a in self.args] + [f'{k}={T.show(v, 6)}' for k, v in self.kwargs])})"
        elif self.kind in ("setattr", "setitem", "mutate"):
            b += f" {T.show(self.target, 6)} .{self.name if isinstance(self.name, str) else T.show(self.name, 6)} := {T.show(self.value, 6) if self.value is not None else ''}"
        elif self.value is not None:
            b += " " + T.show(self.value, 6)
        return f"[{self.seq}] {b}  if {T.show(self.guard, 6)} @ {self.where}" + (f" loops={len(self.loops)}" if self.loops else "")


class St:
    __slots__ = ("vals", "live")

    def __init__(self, vals=None, live=TRUE):
        self.vals = vals if vals is not None else {}
        self.live = live

    def copy(self):
        return St(dict(self.vals), self.live)


class Frame:
    n = 0

    def __init__(self, func, module, scope, base, interp):
        Frame.n += 1
        self.id = Frame.n
        self.func, self.module, self.scope, self.base = func, module, scope, base
        self.ret = None            # gated return value
        self.retguard = FALSE
        self.retstate = None
        self.raises = []           # (guard, exc term, where, state)
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.excs = []             # active implicit exception atoms (enclosing try bodies)
        self.loopctl = []          # stack of dicts for break/continue
        self.on_yield = None
        self.selfcls = None
        self.site = None           # the call that created the frame


class Result:
    def __init__(self, ret, st, events, raises, frame):
        self.ret, self.st, self.events, self.raises, self.frame = ret, st, events, raises, frame


class Budget(Exception):
    pass


def assigned_names(body):
    """names bound in a function body (not in nested scopes), plus global/nonlocal declarations"""
    out, gl, nl = set(), set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    tgt(sub.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    return out - gl - nl, gl, nl


class Core:
    def __init__(self, prog, opaque=None, inline_props=(), max_depth=14, max_events=60000, kwsym=False, unroll=12, noinline=None):
        self.prog = prog
        self.opaque = set(API) if opaque is None else set(opaque)
        self.inline_props = set(inline_props) | {"get_tune"}
        self.max_depth = max_depth
        self.max_events = max_events
        self.events = []
        self.split = {}
        self.muted = 0
        self.stack = []            # frames
        self.loops = []            # (iter term, id)
        self.closures = {}
        self.types = {}
        self.counter = 0
        self.excids = {}
        self.impure = {}
        self.inst = {}             # object term -> Class
        self.copies = {}           # object term -> (source, snapshot, deep)
        self.shallow = set()       # identities of shallow copies
        self.mu_init = {}          # loop-carried reference -> reference at loop entry
        self.modset_memo = {}
        self.dyn_classes = {}
        self.unroll = unroll
        self.noinline = noinline
        self.unresolved = []
        self.kwsym = kwsym
        self.callees = set()
        self.origin = {}
        self.origin_ids = set()

    # ------------------------------------------------------------ helpers
    def uid(self, tag="n"):
        self.counter += 1
        return (tag, self.counter)

    def new(self, val, tag="n"):
        return raw("new", self.uid(tag), top(val) if val.op == "new" else val)

    def fr(self):
        return self.stack[-1]

    def where(self, node):
        f = self.fr()
        return f"{f.module.path}:{getattr(node, 'lineno', '?')} ({f.func.qual.split('.', 1)[-1] if f.func else '<module>'})"

    def guard(self, st):
        """(must guard, may guard) of the current point"""
        may = TRUE
        must = TRUE
        f = self.fr()
        may = b_and(f.base, st.live)
        must = may
        for fr in self.stack:
            for e in fr.excs:
                must = b_and(must, b_not(e))
        return must, may

    def emit(self, kind, st, node, **k):
        if self.muted:
            return None
        if len(self.events) > self.max_events:
            raise Budget("too many events")
        must, may = self.guard(st)
        e = Event(kind=kind, guard=must, may=may, where=self.where(node), loops=tuple(self.loops), node=node,
                  seq=len(self.events), stack=tuple(f.func.qual if f.func else "?" for f in self.stack),
                  tries=tuple(x for f in self.stack for x in f.excs), **k)
        self.events.append(e)
        return e

    def typeof(self, t):
        t0 = t
        c = self.types.get(t)
        if c is not None:
            return c
        if t.op == "new":
            if t in self.copies:
                return self.typeof(self.copies[t][0])
            return self.typeof(t.args[1])
        if t.op == "call" and t.args[0].op == "class":
            return self.klass_of(t.args[0])
        if t.op == "phi":
            a, b = self.typeof(t.args[1]), self.typeof(t.args[2])
            if a is b:
                return a
            # one side may be None (e.g. "not found")
            if t.args[1] is NONE:
                return b
            if t.args[2] is NONE:
                return a
        return None

    def klass_of(self, t):
        name = t.args[0]
        if name in self.dyn_classes:
            return self.dyn_classes[name]
        for m in self.prog.modules.values():
            for b in m.names.values():
                if b[0] == "class" and f"{m.name}.{b[1].name}" == name:
                    return b[1]
        return None

    def is_model(self, cls):
        return cls is not None and any(c.name in ("Model", "DSGE") for c in self.prog.mro(cls))

    # ------------------------------------------------------------ heap
    def get_attr(self, st, base, name, node=None):
        if base.op == "phi":
            return ite(base.args[0], self.get_attr(st, base.args[1], name, node), self.get_attr(st, base.args[2], name, node))
        v = st.vals.get((base, name))
        if v is not None:
            return v
        if base.op == "sym" and base.args[0] == "ext":
            return EXT(base.args[1] + "." + name)
        if base.op == "module":
            m = self.prog.modules.get(base.args[0])
            if m:
                b = self.prog.lookup(m, name)
                if b is None and m.name + "." + name in self.prog.modules:
                    return raw("module", m.name + "." + name)
                return self.binding(b, m, name, st)
        if base.op == "class":
            cls = self.klass_of(base)
            if cls:
                b = self.prog.method(cls, name)
                if b and b[0] == "func":
                    if b[1].is_classmethod:
                        return raw("bound", raw("func", b[1].qual), base)
                    return raw("func", b[1].qual)
        cls = self.typeof(base)
        if cls is not None:
            m = self.prog.method(cls, name)
            if m is not None:
                if m[0] == "func":
                    f = m[1]
                    self.register(f)
                    if f.is_property:
                        if name in self.inline_props:
                            return self.call_func(f, [base], [], st, node)
                    elif f.is_static:
                        return raw("func", f.qual)
                    elif f.is_classmethod:
                        return raw("bound", raw("func", f.qual), raw("class", f"{cls.module.name}.{cls.name}"))
                    else:
                        return raw("bound", raw("func", f.qual), base)
                elif m[0] == "expr" and isinstance(m[1], ast.Call) and ast.unparse(m[1].func) == "property" and m[1].args:
                    r = self.prog.lookup(m[2], ast.unparse(m[1].args[0]))
                    if r and r[0] == "func" and name in self.inline_props:
                        return self.call_func(r[1], [base], [], st, node)
                elif m[0] == "expr" and isinstance(m[1], ast.Lambda):
                    f = Func(m[2], m[1], f"{m[2].name}.<lambda {name}>")
                    return raw("bound", self.register(f), base)
        if base in self.copies:
            src, snap, deep = self.copies[base]
            v = snap.get(name)
            if v is None:
                v = self.get_attr(St({}), src, name) if src.op == "phi" else raw("attr", top(src), name)
            if deep and v.op not in ("func", "closure", "bound", "const"):
                v = raw("new", ("cp", base.args[0], name), top(v))
            return v
        b = top(base)
        if name == "T":
            return T.transpose(b)
        if name in PROPKEY and self.is_model(cls):
            v = st.vals.get((base, ("item", const(PROPKEY[name]))))
            if v is not None:
                return v
        if name == "real" and False:
            pass
        if name == "dimeps":
            name = "neps"       # the number of shocks, under either name
            v = st.vals.get((base, name))
            if v is not None:
                return v
        if name == "columns" and cls is None:
            return raw("call", raw("attr", b, "keys"), (), ())      # of a data frame
        return raw("attr", b, name)

    def register(self, f):
        self.prog.funcs.setdefault(f.qual, f)
        return raw("func", f.qual)

    def has_attr(self, st, base, name):
        if base.op == "phi":
            return ite(base.args[0], self.has_attr(st, base.args[1], name), self.has_attr(st, base.args[2], name))
        v = st.vals.get((base, ("has", name)))
        if v is not None:
            return v
        if base in self.copies:
            src, snap, deep = self.copies[base]
            v = snap.get(("has", name))
            if v is not None:
                return v
            base = src
        cls = self.typeof(base)
        if cls is not None and self.prog.method(cls, name) is not None:
            return TRUE
        return raw("hasattr", top(base), name)

    def set_attr(self, st, base, name, val, node, kind="setattr"):
        self.emit(kind, st, node, target=base, name=name, value=val)
        self._set(st, base, name, val, TRUE)

    def _set(self, st, base, name, val, cond):
        if base.op == "phi":
            self._set(st, base.args[1], name, val, b_and(cond, base.args[0]))
            self._set(st, base.args[2], name, val, b_and(cond, b_not(base.args[0])))
            return
        if base is NONE:
            return
        if cond is TRUE:
            st.vals[(base, name)] = val
            st.vals[(base, ("has", name))] = TRUE
        else:
            old = self.get_attr(st, base, name) if not isinstance(name, tuple) else self.get_item(st, base, name[1])
            st.vals[(base, name)] = ite(cond, val, old)
            oldh = self.has_attr(st, base, name) if not isinstance(name, tuple) else self.has_item(st, base, name[1])
            st.vals[(base, ("has", name))] = ite(cond, TRUE, oldh)

    def get_item(self, st, base, idx):
        if base.op == "phi":
            return ite(base.args[0], self.get_item(st, base.args[1], idx), self.get_item(st, base.args[2], idx))
        if idx.op == "phi":
            return ite(idx.args[0], self.get_item(st, base, idx.args[1]), self.get_item(st, base, idx.args[2]))
        v = st.vals.get((base, ("item", idx)))
        if v is not None:
            return v
        b = top(base)
        i = strip(idx)
        if base in self.copies and is_const(i) and isinstance(cval(i), str):
            src, snap, deep = self.copies[base]
            v = snap.get(("item", i))
            if v is None:
                v = raw("sub", top(src), i)
            return raw("new", ("cp", base.args[0], i.args), top(v)) if deep else v
        if is_const(i) and cval(i) in KEYPROP and b.op == "sym" and self.is_model(self.typeof(base)):
            return raw("attr", b, KEYPROP[cval(i)])
        # keyword arguments of a constructed dict-like object
        return T.index(b, i) if not (is_const(idx) and isinstance(cval(idx), str) and b.op == "call" and b.args[0].op == "class") \
            else next((v for k, v in b.args[2] if k == cval(idx)), raw("sub", b, i))

    def has_item(self, st, base, idx):
        if base.op == "phi":
            return ite(base.args[0], self.has_item(st, base.args[1], idx), self.has_item(st, base.args[2], idx))
        v = st.vals.get((base, ("has", ("item", idx))))
        if v is not None:
            return v
        b, i = top(base), strip(idx)
        if b.op in ("tuple", "list") and not any(a.op == "star" for a in b.args):
            r = FALSE
            for a in b.args:
                r = b_or(r, T.eq(strip(a), i))
            return r
        if b.op == "dict" and is_const(i) and all(is_const(k) for k, _ in b.args):
            return const(any(k is i for k, _ in b.args))
        if b.op == "call" and b.args[0] is BI("globals"):
            return raw("hasattr", raw("module", self.fr().module.name), cval(i)) if is_const(i) else raw("in", i, b)
        if b.op == "const" and i.op == "const" and isinstance(cval(b), str) and isinstance(cval(i), str):
            return const(cval(i) in cval(b))
        return raw("in", i, b)

    def replace_obj(self, st, obj, newval):
        """an object was mutated in place: every cell holding this very reference sees the new content"""
        if obj.op == "phi":
            self.replace_obj(st, obj.args[1], ite(obj.args[0], newval, obj.args[1]))
            self.replace_obj(st, obj.args[2], ite(obj.args[0], obj.args[2], newval))
            return
        if obj.op == "const":
            return
        nv = raw("new", obj.args[0], top(newval)) if obj.op == "new" else newval
        if obj.op == "attr" and (obj.args[0], obj.args[1]) not in st.vals:
            st.vals[(obj.args[0], obj.args[1])] = nv
        if obj.op == "sub" and is_const(obj.args[1]) and (obj.args[0], ("item", obj.args[1])) not in st.vals:
            st.vals[(obj.args[0], ("item", obj.args[1]))] = nv
        for k, v in list(st.vals.items()):
            if v is obj:
                st.vals[k] = nv
            elif v.op == "phi" and _inphi(v, obj):
                st.vals[k] = _substphi(v, obj, nv)
        # cells keyed by the object (attributes / items)
        if nv is not obj:
            for k, v in list(st.vals.items()):
                if isinstance(k, tuple) and k[0] is obj and (nv, k[1]) not in st.vals:
                    st.vals[(nv, k[1])] = v
            if obj in self.copies:
                self.copies[nv] = self.copies[obj]
            if obj in self.types:
                self.types[nv] = self.types[obj]


def _inphi(v, obj):
    if v.op == "phi":
        return _inphi(v.args[1], obj) or _inphi(v.args[2], obj)
    return v is obj


def _substphi(v, obj, nv):
    if v.op == "phi":
        return ite(v.args[0], _substphi(v.args[1], obj, nv), _substphi(v.args[2], obj, nv))
    return nv if v is obj else v
