"""Calls: context-sensitive analysis of repo functions, models of library functions."""

import ast
import copy

from . import terms as T
from .terms import TRUE, FALSE, NONE, ONE, ZERO, raw, const, sym, ite, b_and, b_or, b_not, truth, is_const, cval, is_num
from .flow import (St, Frame, strip, top, UNBOUND, EXT, BI, assigned_names, MUTATORS, DISTINCT, IDENT_ARR, ALLOC, IMPURE, Budget)
from .loader import Func, Class
from .expr import as_seq, shiftcat, nary, invert
from .loops import subst

WRAPPERS = {"grgrlib.multiprocessing.serializer", "numba.njit", "numba.jit", "functools.wraps", "functools.lru_cache", "functools.cache"}
PROGRESS = {"tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.trange"}
DEEP = {"copy.deepcopy"}
DUMPS = {"dill.dumps", "cloudpickle.dumps", "pickle.dumps"}
LOADS = {"dill.loads", "cloudpickle.loads", "pickle.loads"}

# parameter names of library functions used by the package (to normalise keyword/positional spelling)
SIGS = {
    "numpy.random.choice": ["a", "size", "replace", "p"],
    "numpy.random.randint": ["low", "high", "size", "dtype"],
    "random.choices": ["population", "weights"],
    "emcwrap.run_mcmc": ["lprob", "nsteps", "p0"],
    "emcwrap.get_prior_sample": ["frozen_prior", "nsamples"],
    "emcwrap.get_prior": ["prior"],
    "grgrlib.klein": ["A", "B", "nstates"],
    "numpy.linalg.pinv": ["a", "rcond"],
    "pandas.DataFrame": ["data", "index", "columns"],
    "numpy.pad": ["array", "pad_width", "mode"],
    "numpy.round": ["a", "decimals"],
    "numpy.sum": ["a", "axis"],
    "numpy.mean": ["a", "axis"],
    "numpy.var": ["a", "axis"],
    "emcee.backends.HDFBackend": ["filename", "name"],
    "scipy.linalg.solve_discrete_lyapunov": ["a", "q"],
    "numpy.load": ["file", "mmap_mode", "allow_pickle"],
    "numpy.savez_compressed": ["file"],
    "numpy.diagonal": ["a", "offset", "axis1", "axis2"],
    "os.remove": ["path"],
    "numpy.tile": ["A", "reps"],
    "numpy.repeat": ["a", "repeats", "axis"],
    "emcwrap.mcmc_summary": ["chain", "lprobs", "priors"],
    "emcwrap.mdd_laplace": ["chain", "lprobs"],
    "emcwrap.mdd_harmonic_mean": ["chain", "lprobs"],
    "numpy.where": ["condition", "x", "y"],
    "emcwrap.traceplot": ["trace"],
}

CANON = {"numpy.absolute": "numpy.abs", "numpy.concatenate": "numpy.concatenate", "numpy.linalg.linalg.inv": "numpy.linalg.inv",
         "scipy.linalg.inv": "numpy.linalg.inv", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.identity": "numpy.eye",
         "sympy.matrices.zeros": "sympy.zeros", "numpy.around": "numpy.round", "tqdm.std.tqdm": "tqdm.tqdm",
         "econsieve.kalman.KalmanFilter": "econsieve.KalmanFilter", "econsieve.tenkf.TEnKF": "econsieve.TEnKF"}

# model state a named operation depends on besides its arguments (shown in its term when it changed since entry)
READS = {
    "get_ll": ("filter.Q", "filter.R", "precalc_mat", "hx", "data"),
    "run_filter": ("filter.Q", "filter.R", "precalc_mat", "hx", "data"),
    "get_par": ("par", "par_fix", "prior_arg"),
    "set_par": ("par_fix", "prior_arg"),
    "t_func": ("precalc_mat", "hx", "sys"),
    "o_func": ("hx",),
    "create_filter": ("data", "ppar", "dimx"),
}


# numbers of variables, shocks and observables are those of the model file; re-solving it assigns the same numbers again
STABLE = {"dimeps", "dimx", "neps", "nobs"}


def outcomes(t):
    if t.op == "phi":
        return outcomes(t.args[1]) | outcomes(t.args[2])
    return {t}


class CallMixin:
    # ------------------------------------------------------------ functions as values
    def make_closure(self, node, st):
        f = self.fr()
        name = getattr(node, "name", "<lambda>")
        args = node.args
        defaults = [self.ev(d, st) for d in args.defaults]
        kwdefs = [self.ev(d, st) if d is not None else None for d in args.kw_defaults]
        fn = Func(f.module, node, (f.func.qual if f.func else f.module.name) + "." + name, parent=f.func)
        key = ("clo", id(node), f.id)
        scope = [(f.id, f.locals)] + list(f.scope)
        # names assigned later in the enclosing function are still free variables here
        self.closures[key] = (fn, scope, defaults, kwdefs, f)
        t = raw("closure", *key)
        for d in getattr(node, "decorator_list", []):
            nm = ast.unparse(d).split("(")[0].split(".")[-1]
            if nm in ("njit", "jit", "wraps", "contextmanager", "lru_cache", "cache", "staticmethod"):
                continue
            dt = self.ev(d, st)
            t = self.apply(dt, [t], [], st, d)
        return t

    def as_func(self, t):
        """(Func, bound self) when the term denotes a repo function"""
        u = top(t)
        if u.op == "func":
            return self.prog.funcs.get(u.args[0]), None
        if u.op == "bound":
            f, _ = self.as_func(u.args[0])
            return f, u.args[1]
        if u.op == "closure":
            return self.closures[u.args][0], None
        return None, None

    def ev_args(self, call, st):
        args, kwargs, star = [], [], False
        for a in call.args:
            v = self.ev(a, st)
            if v.op == "star":
                u = top(v.args[0])
                if u.op in ("tuple", "list"):
                    args += list(u.args)
                else:
                    args.append(v)
                    star = True
            else:
                args.append(v)
        for k in call.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                u = top(v)
                if u.op == "dict" and all(is_const(x) for x, _ in u.args):
                    for x, y in u.args:
                        kwargs.append((cval(x), st.vals.get((v, ("item", x)), y)))
                    # items added after construction
                    seen = set(cval(x) for x, _ in u.args)
                    for key, val in list(st.vals.items()):
                        if key[0] is v and isinstance(key[1], tuple) and key[1][0] == "item" and is_const(key[1][1]) and cval(key[1][1]) not in seen:
                            kwargs.append((cval(key[1][1]), val))
                else:
                    over = []
                    for key, val in list(st.vals.items()):
                        if key[0] is v and isinstance(key[1], tuple) and key[1][0] == "item" and is_const(key[1][1]):
                            over.append((cval(key[1][1]), val))
                    kwargs += over
                    kwargs.append(("**", v))
            else:
                kwargs.append((k.arg, v))
        return args, kwargs, star

    def e_Call(self, n, st):
        # method calls on known containers
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id in ("exec",) and self.get_name(fn.id, st) is BI("exec"):
            return self.do_exec(n, st)
        if isinstance(fn, ast.Name) and fn.id == "super":
            return raw("super", self.fr().func.qual)
        if isinstance(fn, ast.Name) and fn.id == "globals":
            return raw("call", BI("globals"), (), ())
        if isinstance(fn, ast.Attribute):
            base = self.ev(fn.value, st)
            if base is BI("str") and n.args and not isinstance(n.args[0], ast.Starred) and fn.attr != "maketrans" and hasattr(str, fn.attr):
                m = ast.Call(ast.Attribute(n.args[0], fn.attr, ast.Load()), n.args[1:], n.keywords)      # str.f(x, ...) is x.f(...)
                ast.copy_location(m, n), ast.copy_location(m.func, n)
                return self.call_method(m, self.ev(n.args[0], st), fn.attr, st)
            return self.call_method(n, base, fn.attr, st)
        f = self.ev(fn, st)
        args, kwargs, star = self.ev_args(n, st)
        return self.apply(f, args, kwargs, st, n)

    def do_exec(self, n, st):
        v = strip(self.ev(n.args[0], st))
        if is_const(v) and isinstance(cval(v), str) and len(n.args) == 1:
            try:
                tree = ast.parse(cval(v))
            except SyntaxError:
                return NONE
            for s in tree.body:
                for x in ast.walk(s):
                    if hasattr(x, "lineno"):
                        x.lineno = n.lineno
                r = self.stmt(s, st)
                if r is not st:
                    st.vals, st.live = r.vals, r.live
            return NONE
        self.emit("call", st, n, func=BI("exec"), args=(v,), kwargs=())
        return NONE

    def call_method(self, n, base, name, st):
        if base.op == "phi" and not T.is_bool(base):
            # dispatch on the gated receiver only when it matters
            cls = [self.typeof(x) for _, x in T.leaves(base)]
            if any(c is not None for c in cls) or name in MUTATORS:
                c = base.args[0]
                c2 = self.cond(c, st)
                if c2 is TRUE:
                    return self.call_method(n, base.args[1], name, st)
                if c2 is FALSE:
                    return self.call_method(n, base.args[2], name, st)
                a, b = self.fork(st, c)
                x = self.call_method(n, base.args[1], name, a)
                y = self.call_method(n, base.args[2], name, b)
                self.absorb(c, a, b, st)
                return ite(c, x, y)
        if base.op == "super":
            args, kwargs, star = self.ev_args(n, st)
            self.emit("call", st, n, func=raw("attr", base, name), args=tuple(map(strip, args)), kwargs=tuple((k, strip(v)) for k, v in kwargs), rawargs=args)
            return NONE
        cls = self.typeof(base)
        if cls is None or (base, name) in st.vals or self.prog.method(cls, name) is None:
            r = self.builtin_method(n, base, name, st)
            if r is not None:
                return r
        args, kwargs, star = self.ev_args(n, st)
        f = self.get_attr(st, base, name, n)
        return self.apply(f, args, kwargs, st, n, recv=base)

    # ------------------------------------------------------------ containers
    def builtin_method(self, n, base, name, st):
        u = top(base)
        if base.op == "sym" and base.args[0] in ("ext", "builtin") or u.op in ("module", "class", "func"):
            return None
        if name in MUTATORS:
            args, kwargs, star = self.ev_args(n, st)
            sa = [strip(a) for a in args]
            if u.op == "attr" and u.args[1] == "__dict__" and name == "pop" and sa and is_const(sa[0]):
                o = u.args[0]
                self.emit("delattr", st, n, target=o, name=cval(sa[0]))
                old = ite(self.has_attr(st, o, cval(sa[0])), self.get_attr(st, o, cval(sa[0])), args[1] if len(args) > 1 else UNBOUND)
                st.vals[(o, cval(sa[0]))] = UNBOUND
                st.vals[(o, ("has", cval(sa[0])))] = FALSE
                return old
            self.emit("mutate", st, n, target=base, name=name, value=raw("tuple", *args))
            if name == "append" and len(args) == 1:
                newv = raw("list", *(u.args + (args[0],))) if u.op == "list" else T.joinseq(strip(u), raw("list", sa[0]))
                self.replace_obj(st, base, newv)
                return NONE
            if name == "extend" and len(args) == 1:
                b = as_seq(args[0])
                if b.op == "tuple":
                    b = raw("list", *b.args)
                newv = raw("list", *(u.args + b.args)) if u.op == "list" and b.op == "list" else T.joinseq(strip(u), strip(b))
                self.replace_obj(st, base, newv)
                return NONE
            if name == "update":
                d = None
                if len(args) == 1:
                    d = top(args[0])
                items = []
                if d is not None and d.op == "dict" and all(is_const(k) and isinstance(cval(k), str) for k, _ in d.args):
                    items += list(d.args)
                elif d is not None:
                    self.replace_obj(st, base, T.updated(strip(u), strip(d)))
                    return NONE
                for k, v in kwargs:
                    if k != "**":
                        items.append((const(k), v))
                for k, v in items:
                    self._set(st, base, ("item", k), v, TRUE)
                return NONE
            if name == "setdefault" and len(args) == 2:
                has = self.has_item(st, base, sa[0])
                old = self.get_item(st, base, sa[0])
                val = ite(has, old, args[1])
                self._set(st, base, ("item", sa[0]), val, TRUE)
                return val
            if name == "pop":
                r = raw("call", raw("attr", strip(u), "pop"), tuple(sa), ())
                if sa and is_const(sa[0]) and isinstance(cval(sa[0]), str):
                    r = self.get_item(st, base, sa[0])
                    if len(sa) > 1:
                        r = ite(self.has_item(st, base, sa[0]), r, args[1])
                    st.vals[(base, ("has", ("item", sa[0])))] = FALSE
                    st.vals[(base, ("item", sa[0]))] = UNBOUND
                else:
                    self.replace_obj(st, base, raw("mutated", strip(u), name, tuple(sa)))
                return r
            if name == "fill" and len(args) == 1:
                self.replace_obj(st, base, self.store(base, raw("slice", NONE, NONE, NONE), args[0]))
                return NONE
            self.replace_obj(st, base, raw("mutated", strip(u), name, tuple(sa)))
            return NONE
        if name == "get" and n.args and not n.keywords:
            args, kwargs, star = self.ev_args(n, st)
            dflt = args[1] if len(args) > 1 else NONE
            k = strip(args[0])
            if u.op == "dict" and not is_const(k) and 0 < len(u.args) <= 12 and all(is_const(x) for x, _ in u.args) and not any(y[0] is base for y in st.vals):
                r = dflt
                for x, v in reversed(u.args):
                    r = ite(T.eq(k, x), v, r)
                return r
            has = self.has_item(st, base, k)
            return ite(has, self.get_item(st, base, k), dflt)
        if name == "copy" and not n.args:
            return self.new(base, "copy")
        if name in ("tolist",) and not n.args:
            return self.new(base)
        if name == "astype" and n.args:
            return self.new(base)
        if name == "index" and len(n.args) == 1 and not n.keywords and u.op in ("hcat", "phi"):
            heads = {strip(x.args[0] if x.op == "hcat" else x) for _, x in T.leaves(strip(u))}
            if len(heads) == 1:
                x, b = strip(self.ev(n.args[0], st)), heads.pop()
                if T.contains(x, lambda v: v.op == "attr" and v.args[1] == "const_var") and b.op == "attr" and b.args[1] == "vv":
                    return raw("call", raw("attr", b, "index"), (x,), ())     # the constrained variable is one of the model's own
        if name == "index" and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.Name):
            x = strip(self.ev(n.args[0], st))
            b = strip(u)
            if x.op == "sub" and x.args[0] is b and b.op == "attr" and b.args[1] in DISTINCT:
                return x.args[1]
        if name == "keys" and not n.args:
            if u.op == "dict" or True:
                return raw("call", raw("attr", base, "keys"), (), ()) if base.op != "new" or u.op == "dict" and not any(k[0] is base for k in st.vals) else raw("call", raw("attr", base, "keys"), (), ())
        if name in ("items", "values") and not n.args:
            return raw("call", raw("attr", base if u.op != "dict" else self.dict_now(base, st), name), (), ())
        if name == "transpose" and not n.args:
            return T.transpose(strip(u))
        if name == "dot" and len(n.args) == 1:
            a = self.ev(n.args[0], st)
            return T.matmul(strip(u), strip(a))
        if name in ("flatten", "ravel", "squeeze") and not n.args and not n.keywords:
            return raw("call", raw("attr", strip(u), "flatten" if name == "ravel" else name), (), ())
        if name == "join" and is_const(u) and len(n.args) == 1:
            return raw("call", raw("attr", u, "join"), (strip(self.ev(n.args[0], st)),), ())
        if name in ("startswith", "endswith") and len(n.args) == 1 and not n.keywords:
            a = strip(self.ev(n.args[0], st))
            if is_const(a) and isinstance(cval(a), str) and cval(a):
                k = len(cval(a))
                sl = raw("slice", NONE, const(k), NONE) if name == "startswith" else raw("slice", const(-k), NONE, NONE)
                return T.eq(T.index(strip(u), sl), a)
        if name in ("removesuffix", "removeprefix") and len(n.args) == 1 and not n.keywords:
            a = strip(self.ev(n.args[0], st))
            if is_const(a) and isinstance(cval(a), str) and cval(a):
                k = len(cval(a))
                x = strip(u)
                if name == "removeprefix":
                    return T.ite(T.eq(T.index(x, raw("slice", NONE, const(k), NONE)), a), T.index(x, raw("slice", const(k), NONE, NONE)), x)
                return T.ite(T.eq(T.index(x, raw("slice", const(-k), NONE, NONE)), a), T.index(x, raw("slice", NONE, const(-k), NONE)), x)
        if name in ("ljust", "rjust", "center") and len(n.args) == 1 and not n.keywords:
            return raw("call", raw("attr", strip(u), name), (strip(self.ev(n.args[0], st)), const(" ")), ())
        if name == "format" and is_const(u):
            args, kwargs, star = self.ev_args(n, st)
            sa = [strip(a) for a in args]
            return not kwargs and isinstance(cval(u), str) and T.braces(u, sa) or raw("fmt", u, *sa, *[v for k, v in kwargs])
        if name == "with_traceback":
            self.ev_args(n, st)
            return base
        return None

    def dict_now(self, base, st):
        """current content of a locally built dict"""
        u = top(base)
        items = list(u.args)
        for key, val in st.vals.items():
            if key[0] is base and isinstance(key[1], tuple) and key[1][0] == "item":
                k = key[1][1]
                items = [(a, b) for a, b in items if a is not k] + [(k, val)]
        return raw("dict", *items)

    # ------------------------------------------------------------ application
    def apply(self, f, args, kwargs, st, n, recv=None):
        if f.op == "phi":
            c = self.cond(f.args[0], st)
            if c is TRUE:
                return self.apply(f.args[1], args, kwargs, st, n, recv)
            if c is FALSE:
                return self.apply(f.args[2], args, kwargs, st, n, recv)
            a, b = self.fork(st, c)
            x = self.apply(f.args[1], args, kwargs, a, n, recv)
            y = self.apply(f.args[2], args, kwargs, b, n, recv)
            self.absorb(c, a, b, st)
            return ite(c, x, y)
        u = top(f)
        if u.op in ("func", "bound", "closure"):
            fn, s = self.as_func(u)
            if fn is None:
                return self.ext_call(u, args, kwargs, st, n, recv)
            a = ([s] if s is not None else []) + list(args)
            return self.call_func(fn, a, kwargs, st, n, closure=u if u.op == "closure" else None)
        if u.op == "partialfn":
            return self.apply(u.args[0], list(u.args[1]) + list(args), list(u.args[2]) + list(kwargs), st, n, recv)
        if u.op == "class":
            cls = self.klass_of(u)
            sa = tuple(strip(a) for a in args)
            sk = tuple((k, strip(v)) for k, v in kwargs)
            self.emit("call", st, n, func=u, args=sa, kwargs=sk, rawargs=list(args))
            if self.is_model(cls):
                kw = []
                for k, v in kwargs:
                    kw.append((k, strip(v)))
                t = self.new(raw("call", u, sa, tuple(kw)), "obj")
                self.types[t] = cls
                for k, v in kwargs:
                    if k != "**":
                        st.vals[(t, ("item", const(k)))] = v
                return t
            return raw("call", u, sa, sk)
        if u.op == "call" and u.args[0].op == "class" and len(args) == 1 and not kwargs:
            r = self.shifted(u, strip(args[0]))
            if r is not None:
                return r
        return self.ext_call(u, args, kwargs, st, n, recv)

    def shifted(self, u, lead):
        """a dated symbol called with a lead is the symbol of that name and class with the lead added
        to its date (that TSymbol.__call__ says so is checked under C27)"""
        cls = self.klass_of(u.args[0])
        m = None if cls is None else self.prog.method(cls, "__call__")
        if not m or m[0] != "func" or not any(k.name == "TSymbol" for k in self.prog.mro(cls)) or len(u.args[1]) != 1:
            return None
        kw = dict(u.args[2])
        if set(kw) - {"date"} or not is_num(lead) and not is_const(lead):
            return None
        date = kw.get("date", ZERO)
        if not is_const(date):
            return None
        d = T.add(date, lead)
        return raw("call", u.args[0], u.args[1], (("date", d),) if d is not ZERO else ())

    def call_func(self, fn, args, kwargs, st, n, closure=None):
        self.callees.add(fn.qual)
        args = self.expand_star(fn, args, kwargs)
        sa = tuple(strip(a) for a in args)
        sk = tuple((k, strip(v)) for k, v in kwargs)
        op = fn.name in self.opaque or fn.qual in self.opaque
        same = sum(1 for f in self.stack if f.func is fn or (f.func is not None and f.func.node is fn.node))
        deep = len(self.stack) >= self.max_depth or same >= 3
        e = self.emit("call", st, n, func=raw("func", fn.qual), args=sa, kwargs=sk, rawargs=list(args), inlined=not (op or deep))
        if e is not None:
            ba = self.bound_args(fn, args, kwargs, st)
            e.bound = None if ba is None else raw("call", raw("func", fn.qual), (), ba)
        if op or deep:
            return self.opaque_call(fn, args, kwargs, st, n)
        return self.invoke(fn, args, kwargs, st, n, closure=closure)

    def expand_star(self, fn, args, kwargs):
        """f(a, *x, b): the length of x is determined when every parameter has to be given"""
        stars = [i for i, v in enumerate(args) if v.op == "star"]
        a = fn.node.args
        if len(stars) == 1:
            x, i = top(args[stars[0]].args[0]), stars[0]
            m = T.known_size(x)
            if m is not None:
                return list(args[:i]) + [T.index(x, const(j)) for j in range(m)] + list(args[i + 1:])
        if len(stars) != 1 or a.vararg or a.defaults or any(k == "**" for k, _ in kwargs):
            return args
        pos = [p.arg for p in a.posonlyargs + a.args]
        n = len(pos) - (len(args) - 1) - sum(1 for k, _ in kwargs if k in pos)
        if n < 0:
            return args
        i = stars[0]
        x = args[i].args[0]
        return list(args[:i]) + [T.index(top(x), const(j)) for j in range(n)] + list(args[i + 1:])

    def bound_args(self, fn, args, kwargs, st):
        """arguments of a call in signature order with the defaults filled in (None if a * argument hides them)"""
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        names = pos + [p.arg for p in a.kwonlyargs]
        if any(v.op == "star" for v in args) or any(k == "**" for k, _ in kwargs):
            return None
        vals, rest = {}, []
        for i, v in enumerate(args):
            if i < len(pos):
                vals[pos[i]] = v
            else:
                rest.append(v)
        kwrest = []
        for k, v in kwargs:
            if k in names:
                vals[k] = v
            else:
                kwrest.append((k, strip(v)))
        nd = len(a.defaults)
        for p, d in list(zip(pos[len(pos) - nd:], a.defaults)) + list(zip([x.arg for x in a.kwonlyargs], a.kw_defaults)):
            if p not in vals and d is not None:
                vals[p] = self.ev_default(d, fn, st)
        out = [(p, strip(vals[p])) for p in names if p in vals]
        if rest:
            out.append(("*", raw("tuple", *[strip(r) for r in rest])))
        return tuple(out) + tuple(sorted(kwrest, key=lambda kv: kv[0]))

    def opaque_call(self, fn, args, kwargs, st, n):
        ba = self.bound_args(fn, args, kwargs, st)
        if ba is not None:
            t = raw("call", raw("func", fn.qual), (), ba)
        else:
            sa = tuple(strip(a) for a in args)
            sk = tuple((k, strip(v)) for k, v in kwargs)
            t = raw("call", raw("func", fn.qual), sa, tuple(sorted(sk, key=lambda kv: kv[0])))
        reads = READS.get(fn.name)
        if reads and args:
            rd = []
            for path in reads:
                o = args[0]
                for x in path.split("."):
                    o = self.get_attr(st, o, x)
                o = strip(o)
                b = strip(args[0])
                for x in path.split("."):
                    b = raw("attr", b, x)
                if o is not b and o.op not in ("func", "bound"):
                    rd.append(("@" + path, o))
            if rd:
                t = raw("call", t.args[0], t.args[1], tuple(sorted(t.args[2] + tuple(rd), key=lambda kv: kv[0])))
        mods = self.modset(fn)
        if fn.name == "get_par" and ba is not None:
            # getters leave the model alone (decided as a property of its own), except for the sets that are tried out
            d = dict(ba).get("dummy", sym("?"))
            if all(x is NONE or (is_const(x) and cval(x) not in ("prior", "cov_mat")) for x in outcomes(d)):
                mods = ()
        if args:
            base = args[0]
            for a in sorted(mods):
                if a in STABLE:
                    continue
                old = self.get_attr(st, base, a) if base.op != "phi" else NONE
                v = raw("eff", t, a, strip(old))
                self._set(st, base, a, v, TRUE)
        return t

    def modset(self, fn, seen=None):
        """attributes of the first argument that a repo function may assign (transitively)"""
        if fn.qual in self.modset_memo:
            return self.modset_memo[fn.qual]
        seen = set() if seen is None else seen
        if fn.qual in seen:
            return set()
        seen.add(fn.qual)
        out = set()
        pars = [a.arg for a in fn.node.args.args]
        first = pars[0] if pars else None
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == first:
                out.add(x.attr)
            if isinstance(x, ast.Call):
                g = None
                if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == first:
                    try:
                        g = self.prog.model_method(x.func.attr)
                    except Exception:
                        g = None
                elif isinstance(x.func, ast.Name) and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == first:
                    b = self.prog.lookup(fn.module, x.func.id)
                    if b is None:
                        for y in ast.walk(fn.node):
                            if isinstance(y, ast.ImportFrom):
                                for nm, bb in self.prog.import_bindings(fn.module, y):
                                    if nm == x.func.id and bb[0] == "from" and bb[1] in self.prog.modules:
                                        b = self.prog.lookup(self.prog.modules[bb[1]], bb[2])
                    if b and b[0] == "func":
                        g = b[1]
                if g is not None and g is not fn:
                    out |= self.modset(g, seen)
        if len(seen) == 1:
            self.modset_memo[fn.qual] = out
        return out

    def invoke(self, fn, args, kwargs, st, n, closure=None, on_yield=None):
        scope, defaults, kwdefs = [], None, None
        if closure is not None:
            _, scope, defaults, kwdefs, _ = self.closures[closure.args]
        caller = self.fr() if self.stack else None
        base = b_and(caller.base, st.live) if caller is not None else TRUE
        f = Frame(fn, fn.module, scope, base, self)
        f.on_yield = on_yield
        f.site = n
        body = views(fn.node) if isinstance(fn.node.body, list) else [ast.copy_location(ast.Return(fn.node.body), fn.node)]
        loc, gl, nl = assigned_names(body)
        f.locals, f.globals, f.nonlocals = set(loc), set(gl), set(nl)
        live = st.live
        # parameters
        self.stack.append(f)
        try:
            self.bind_params(fn, f, args, kwargs, st, defaults, kwdefs, n)
            st.live = TRUE
            b = self.block(body, st.copy())
            rets = f.ret
            if b.live is not FALSE:
                if on_yield is None and rets is None:
                    rets = NONE
                    out = b
                elif rets is None:
                    rets = NONE
                    out = b
                else:
                    rets = ite(b.live, NONE, rets)
                    lv = b.live
                    out = self.join(lv, b, f.retstate)
            else:
                out = f.retstate if f.retstate is not None else b
        finally:
            self.stack.pop()
        # drop the frame's locals unless captured by a closure
        captured = any(self.closures[k][4] is f for k in self.closures)
        vals = out.vals
        if not captured:
            vals = {k: v for k, v in vals.items() if k[0] != f.id}
        st.vals = vals
        rg = FALSE
        for g, exc, w, xs in f.raises:
            if exc.op == "sym" and exc.args == ("implicit",):
                # implicit exception leaving the callee
                if caller is not None:
                    caller.raises.append([b_and(live, g), exc, w, St(dict(xs.vals), b_and(live, g))])
                rg = b_or(rg, g)
                continue
            rg = b_or(rg, g)
            if caller is not None:
                caller.raises.append([b_and(live, g), exc, w, St(dict(xs.vals), b_and(live, g))])
        if out.live is FALSE and rets is None:
            st.live = FALSE
            rets = sym("bottom")
        else:
            st.live = b_and(live, b_not(rg)) if rg is not FALSE else live
        self.last_frame = f
        return rets if rets is not None else NONE

    def bind_params(self, fn, f, args, kwargs, st, defaults, kwdefs, n):
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        names = pos + [p.arg for p in a.kwonlyargs]
        f.locals |= set(names)
        vals = {}
        extra = []
        star = None
        for i, v in enumerate(args):
            if v.op == "star":
                star = v.args[0]
                k = i
                # *x : fill the remaining positional parameters from x
                for j, p in enumerate(pos[i:]):
                    vals.setdefault(p, self.get_item(st, star, const(j)))
                rest = args[i + 1:]
                if rest:
                    # parameters after the star are taken from the end (number of expanded values unknown)
                    for q, w in zip(reversed(pos), reversed(rest)):
                        vals[q] = w
                break
            if i < len(pos):
                vals[pos[i]] = v
            else:
                extra.append(v)
        kwrest = []
        stars = []
        for k, v in kwargs:
            if k == "**":
                stars.append(v)
            elif k in names:
                vals[k] = v
            else:
                kwrest.append((k, v))
        # defaults
        if defaults is None:
            dn = list(a.defaults)
            nd = len(dn)
            dpairs = list(zip(pos[len(pos) - nd:], dn))
            dterm = {}
            for p, d in dpairs:
                dterm[p] = self.ev_default(d, fn, st)
            for p, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
                if d is not None:
                    dterm[p] = self.ev_default(d, fn, st)
        else:
            nd = len(defaults)
            dterm = dict(zip(pos[len(pos) - nd:], defaults))
            for p, d in zip([x.arg for x in a.kwonlyargs], kwdefs or []):
                if d is not None:
                    dterm[p] = d
        for p in names:
            if p not in vals:
                v = dterm.get(p, sym("noarg", p))
                for sd in stars:
                    h = self.has_item(st, sd, const(p))
                    if h is not FALSE:
                        v = ite(h, self.get_item(st, sd, const(p)), v)
                vals[p] = v
        for p, v in vals.items():
            st.vals[(f.id, p)] = v
        if a.vararg:
            f.locals.add(a.vararg.arg)
            if star is not None and not any(True for _ in []):
                st.vals[(f.id, a.vararg.arg)] = star if not pos or len(args) == 1 else raw("tuple", raw("star", star))
            else:
                st.vals[(f.id, a.vararg.arg)] = raw("tuple", *extra)
        if a.kwarg:
            f.locals.add(a.kwarg.arg)
            if stars and not kwrest:
                st.vals[(f.id, a.kwarg.arg)] = stars[0]
            else:
                items = [(const(k), v) for k, v in kwrest]
                for sd in stars:
                    items.append((raw("star2"), strip(sd)))
                st.vals[(f.id, a.kwarg.arg)] = self.new(raw("dict", *items), "dict")

    def ev_default(self, d, fn, st):
        if isinstance(d, ast.Constant):
            return const(d.value)
        fr = Frame(fn, fn.module, [], TRUE, self)
        self.stack.append(fr)
        try:
            return self.ev(d, st)
        finally:
            self.stack.pop()


def views(fn):
    """the body of a function; a name of a part of an array that is written to inside a loop is spelled out as that part"""
    if hasattr(fn, "_views"):
        return fn._views
    fn._views = fn.body
    nodes = [x for b in fn.body for x in ast.walk(b)]
    if any(isinstance(x, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ListComp, ast.GeneratorExp, ast.Global, ast.Nonlocal)) for x in nodes):
        return fn.body
    written = set()
    for lp in nodes:
        if isinstance(lp, (ast.For, ast.While)):
            for x in ast.walk(lp):
                for t in x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else []:
                    if isinstance(t, ast.Subscript) and not (isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str)):
                        while isinstance(t, ast.Subscript):
                            t = t.value
                        if isinstance(t, ast.Name):
                            written.add(t.id)
    stores = {}
    for x in nodes:
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            stores.setdefault(x.id, []).append(x)
    spell, dead = {}, set()
    params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    loopvars = {x.target.id for x in nodes if isinstance(x, ast.For) and isinstance(x.target, ast.Name)}
    for x in nodes:
        if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Subscript)):
            continue
        nm, base, idx = x.targets[0].id, x.value, []
        while isinstance(base, ast.Subscript):
            idx.append(base.slice)
            base = base.value
        used = {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}
        whole = all(isinstance(y, (ast.Constant, ast.Name, ast.Tuple, ast.Slice, ast.BinOp, ast.operator, ast.expr_context, ast.UnaryOp, ast.unaryop)) for i in idx for y in ast.walk(i))
        ints = {y.id for i in idx for y in ast.walk(i) if isinstance(y, ast.Name)}
        if nm in written and nm not in params and len(stores[nm]) == 1 and isinstance(base, ast.Name) and whole and nm not in used and ints <= loopvars \
                and not any(isinstance(y, ast.Constant) and isinstance(y.value, str) for i in idx for y in ast.walk(i)) \
                and not any(y.lineno >= x.lineno for u in used for y in stores.get(u, ())) \
                and any(isinstance(lp, ast.For) and lp.lineno > x.lineno for lp in nodes):
            spell[nm] = x.value
            dead.add(id(x))
    if not spell:
        return fn.body

    class Spell(ast.NodeTransformer):
        def visit_Assign(self, n):
            if any(n.lineno == x.lineno and n.col_offset == x.col_offset for x in nodes if id(x) in dead):
                return ast.copy_location(ast.Pass(), n)
            return self.generic_visit(n)

        def visit_Name(self, n):
            if n.id not in spell or not isinstance(n.ctx, ast.Load):
                return n
            r = self.visit(copy.deepcopy(spell[n.id]))
            for y in ast.walk(r):
                if "lineno" in y._attributes:
                    ast.copy_location(y, n)
            return r
    fn._views = [Spell().visit(copy.deepcopy(b)) for b in fn.body]
    return fn._views
