"""Models of the library functions the package calls (value semantics only)."""

import ast

from . import extsig
from . import terms as T
from .terms import TRUE, FALSE, NONE, ONE, ZERO, raw, const, sym, ite, b_and, b_or, b_not, truth, is_const, cval, is_num
from .flow import St, Frame, strip, top, UNBOUND, EXT, BI, IDENT_ARR, ALLOC, IMPURE, Core, Result, Budget
from .calls import CallMixin, WRAPPERS, PROGRESS, DEEP, DUMPS, LOADS, SIGS, CANON
from .expr import ExprMixin, as_seq, shiftcat, nary, invert
from .stmt import StmtMixin, exc_ancestors
from .loops import LoopMixin, subst


def extname(t):
    if t.op == "sym" and t.args[0] == "ext":
        return CANON.get(t.args[1], t.args[1])
    return None


def normargs(name, args, kwargs):
    full = extsig.signature(name)
    if full and not any(a.op == "star" for a in args) and len(args) <= len(full[0]):
        pos, req, opt = full
        kw = dict(kwargs)
        if not set(kw) & set(pos[:len(args)]):
            kw.update(zip(pos, args))
            for k, d in opt.items():
                if k not in kw and isinstance(d, ast.Constant):
                    kw[k] = const(d.value)
            head = []
            while len(head) < req and pos[len(head)] in kw:
                head.append(kw.pop(pos[len(head)]))
            return head, sorted(kw.items())
    sig = SIGS.get(name)
    if not sig:
        return args, kwargs
    args = list(args)
    kw = dict(kwargs)
    if any(a.op == "star" for a in args):
        return args, kwargs
    # move keywords to positions as far as contiguous, the rest stays
    out = list(args)
    while len(out) < len(sig) and sig[len(out)] in kw:
        out.append(kw.pop(sig[len(out)]))
    # positionals beyond required: name them
    return out, [(k, v) for k, v in kwargs if k in kw]


REDUCE = {"numpy." + x for x in "sum mean max min argmax argmin std var any all".split()}


def unflat(name, sa, sk):
    """a reduction over all elements does not need them in one row"""
    if name in REDUCE and len(sa) == 1 and not sk and sa[0].op == "call" and sa[0].args[0].op == "attr" and sa[0].args[0].args[1] == "flatten" and not sa[0].args[1]:
        return (sa[0].args[0].args[0],)
    return sa


class LibMixin:
    def contents(self, x, st):
        """a mapping together with the entries written to it so far"""
        if x.op == "phi":
            return ite(x.args[0], self.contents(x.args[1], st), self.contents(x.args[2], st))
        ch = sorted(((k[1][1], strip(v)) for k, v in st.vals.items() if k[0] is x and isinstance(k[1], tuple) and k[1][0] == "item"
                     and isinstance(k[1][1], T.T)), key=lambda kv: T.show(kv[0], 4))
        u = strip(x)
        if not ch:
            return u
        if u.op == "dict":
            d = {k: v for k, v in u.args}
            d.update(ch)
            return raw("dict", *sorted(((k, strip(v)) for k, v in d.items()), key=lambda kv: T.show(kv[0], 4)))
        return raw("updated", u, raw("dict", *ch))

    def held_sig(self, name, args, kwargs):
        """call of a local function that was stored as an attribute: optional arguments by name, constant defaults filled in"""
        a = self.prog.held().get(name)
        if a is None or a.vararg or any(x.op == "star" for x in args) or any(k == "**" for k, _ in kwargs):
            return args, kwargs
        pos = [p.arg for p in a.posonlyargs + a.args]
        req = len(pos) - len(a.defaults)
        if len(args) > len(pos):
            return args, kwargs
        kw = dict(kwargs)
        kw.update(zip(pos, args))
        for p, d in zip(pos[req:], a.defaults):
            if p not in kw and isinstance(d, ast.Constant):
                kw[p] = const(d.value)
        if any(p not in kw for p in pos[:req]):
            return args, kwargs
        return [kw.pop(p) for p in pos[:req]], sorted(kw.items())

    def signature(self, u):
        if u.op == "closure":
            return self.closures[u.args][0].node.args
        if u.op in ("attr", "eff"):
            return self.prog.held().get(u.args[1])
        if u.op == "phi":
            a, b = self.signature(u.args[1]), self.signature(u.args[2])
            return a if a is b else None
        return None

    def lam(self, t, st, n):
        """a local function handed to a library, as the term of what it computes at this point"""
        if t.op == "phi":
            return ite(t.args[0], self.lam(t.args[1], st, n), self.lam(t.args[2], st, n))
        u = t
        k = 0
        while u.op == "partialfn":
            k += len(u.args[1])
            u = u.args[0]
        a = self.signature(u)
        if a is None or u.op != "closure" and u is t:
            return t
        pos = a.posonlyargs + a.args
        m = len(pos) - len(a.defaults) - k
        if m < 0 or any(d is None for d in a.kw_defaults) or getattr(self, "in_lam", 0) > 2:
            return t
        fr = self.fr()
        keep = (len(self.events), list(fr.raises), fr.ret, fr.retguard, fr.retstate)
        self.in_lam = getattr(self, "in_lam", 0) + 1
        try:
            xs = [sym("lamarg", self.in_lam, i) for i in range(m)]
            if a.vararg:
                xs.append(raw("star", sym("lamarg", self.in_lam, "*")))
            body = self.apply(t, xs, [], st.copy(), n)
        finally:
            self.in_lam -= 1
            del self.events[keep[0]:]
            fr.raises, fr.ret, fr.retguard, fr.retstate = keep[1:]
        return raw("lam", const(m), strip(body))

    def ext_call(self, f, args, kwargs, st, n, recv=None):
        name = extname(f)
        if name:
            f = EXT(name)
        args, kwargs = normargs(name, args, kwargs)
        if f.op in ("attr", "eff"):
            args, kwargs = self.held_sig(f.args[1], args, kwargs)
        sa = tuple(strip(self.lam(a, st, n)) for a in args)
        sk = tuple(sorted(((k, strip(self.lam(v, st, n))) for k, v in kwargs), key=lambda kv: kv[0]))
        kw = dict(sk)
        bname = f.args[1] if f.op == "sym" and f.args[0] == "builtin" else None
        if name in ("numpy.floor", "math.floor") and len(sa) == 1 and not sk:
            return T.neg(raw("call", EXT("numpy.ceil"), (T.neg(sa[0]),), ()))
        if name == "numpy.random.choice" and sa:
            u = sa[0]
            if u.op == "call" and extname(u.args[0]) == "numpy.arange" and len(u.args[1]) == 1 and not u.args[2]:
                args, sa = (u.args[1][0],) + tuple(args[1:]), (u.args[1][0],) + sa[1:]
            elif u.op == "range" and len(u.args) == 2 and u.args[0] is ZERO:
                args, sa = (u.args[1],) + tuple(args[1:]), (u.args[1],) + sa[1:]

        # ---- transparent wrappers
        if name in WRAPPERS:
            if name.endswith("serializer"):
                return args[0] if len(args) == 1 else raw("tuple", *args)
            if args and self.as_func(args[0])[0] is not None:
                return args[0]
            return sym("decorator")
        if f.op == "sym" and f.args == ("decorator",):
            return args[0] if args else f
        if name in PROGRESS and args:
            return args[0]
        if name == "functools.partial" and args:
            return raw("partialfn", args[0], tuple(args[1:]), tuple(kwargs))
        if bname == "property" and args:
            return args[0]

        # ---- higher-order: the mapped function is applied to every element, in order
        hmap = (bname == "map") or (f.op == "attr" and f.args[1] in ("mapper",)) or \
            (f.op == "attr" and f.args[1] in ("imap", "map", "amap", "uimap") and len(args) >= 2)
        if hmap and len(args) >= 2 and (top(args[0]).op in ("closure", "func", "bound", "partialfn") or args[0].op == "phi"):
            self.emit("call", st, n, func=f, args=sa, kwargs=sk, rawargs=list(args))
            return self.map_call(args[0], args[1:], st, n, f)
        if bname == "filter" and len(args) == 2:
            return self.filter_call(args[0], args[1], st, n)

        # ---- copies / pickles
        if name in DEEP and args:
            return self.deepcopy(args[0], st, True)
        if name == "copy.copy" and args:
            return self.deepcopy(args[0], st, False)
        if name in LOADS and args:
            self.emit("call", st, n, func=f, args=sa, kwargs=sk, rawargs=list(args))
            a = top(args[0])
            if a.op == "call" and extname(a.args[0]) in DUMPS:
                src = self.pickled.get(args[0])
                if src is not None:
                    return self.deepcopy(src[0], St(dict(src[1])), True)
            return self.new(raw("call", f, sa, sk))
        if name in DUMPS and args:
            self.emit("call", st, n, func=f, args=sa, kwargs=sk, rawargs=list(args))
            ch = sorted(((k[1][1], strip(v)) for k, v in st.vals.items() if k[0] is args[0] and isinstance(k[1], tuple) and k[1][0] == "item"
                         and isinstance(k[1][1], T.T)), key=lambda kv: T.show(kv[0], 4))
            if ch and top(args[0]).op != "dict":
                sa = (raw("updated", sa[0], raw("dict", *ch)),) + tuple(sa[1:])
            t = self.new(raw("call", f, sa, sk), "pickle")
            self.pickled[t] = (args[0], dict(st.vals))
            return t

        # ---- attribute builtins
        if bname == "hasattr" and len(args) == 2 and is_const(sa[1]):
            return self.has_attr(st, args[0], cval(sa[1]))
        if bname == "getattr" and len(args) >= 2 and is_const(sa[1]):
            v = self.get_attr(st, args[0], cval(sa[1]), n)
            if len(args) == 3:
                return ite(self.has_attr(st, args[0], cval(sa[1])), v, args[2])
            return v
        if bname == "setattr" and len(args) == 3 and is_const(sa[1]):
            self.set_attr(st, args[0], cval(sa[1]), args[2], n)
            return NONE
        if bname == "delattr" and len(args) == 2 and is_const(sa[1]):
            self.emit("delattr", st, n, target=args[0], name=cval(sa[1]))
            st.vals[(args[0], cval(sa[1]))] = UNBOUND
            st.vals[(args[0], ("has", cval(sa[1])))] = FALSE
            return NONE
        if bname == "isinstance" and len(args) == 2:
            return self.isinst(args[0], sa[1])
        if bname == "slice" and 1 <= len(args) <= 3 and not kwargs:
            lo, hi, step = (NONE, sa[0], NONE) if len(sa) == 1 else (tuple(sa) + (NONE,))[:3]
            return raw("slice", NONE if lo is ZERO else lo, hi, NONE if step is ONE else step)
        if bname in ("eval", "exec") and len(args) > 1:
            # the names an expression sees: the contents of the mapping at this point
            sa = tuple(sa[:1]) + tuple(self.contents(x, st) for x in args[1:])
            self.emit("call", st, n, func=f, args=sa, kwargs=sk, rawargs=list(args))
            return self.new(raw("call", f, sa, tuple(sk)))
        if bname == "len" and len(args) == 1:
            return self.length(args[0])
        if bname == "bool" and len(args) == 1:
            return truth(sa[0])
        if bname in ("list", "tuple") and len(args) <= 1 and not kwargs:
            if not args:
                return self.new(raw("list")) if bname == "list" else raw("tuple")
            u = as_seq(args[0])
            if u.op in ("tuple", "list"):
                u = raw(bname, *u.args)
            if u.op == "call" and u.args[0] in (BI("range"), BI("zip"), BI("enumerate"), BI("reversed")):
                space, el, c = self.iter_space(u, st, n)
                iv = self.itv(space)
                u = raw("comp", space, strip(el(iv)), TRUE if c is None else c(iv), iv)
            if u.op == "call" and u.args[0].op == "attr" and u.args[0].args[1] in ("items", "values", "keys") and not u.args[1]:
                if u.args[0].args[1] == "keys":
                    u = strip(u.args[0].args[0])
                else:
                    space, el, c = self.iter_space(u, st, n)
                    iv = self.itv(space)
                    u = raw("comp", space, strip(el(iv)), TRUE, iv)
            return self.new(u, bname)
        if bname == "dict":
            if not args and not any(k == "**" for k, _ in kwargs):
                return self.new(raw("dict", *[(const(k), v) for k, v in kwargs]), "dict")
            if len(args) == 1 and not kwargs:
                u = top(args[0])
                if u.op == "call" and u.args[0] is BI("zip") and len(u.args[1]) == 2:
                    space, el, c = self.iter_space(u, st, n)
                    iv = self.itv(space)
                    e = el(iv)
                    return self.new(raw("dictcomp", space, strip(e.args[0]), strip(e.args[1]), TRUE, iv), "dict")
                if u.op == "dict":
                    return self.new(self.dict_now(args[0], st), "dict")
                if u.op in ("list", "comp", "tuple"):
                    return self.new(self.dict_of(u), "dict")
                return self.new(raw("call", f, sa, ()), "dict")
        if bname in ("any", "all") and len(args) == 1:
            u = as_seq(args[0])
            if u.op in ("list", "tuple"):
                return (b_or if bname == "any" else b_and)(*[truth(strip(x)) for x in u.args])
            if u.op == "comp":
                space, e, c, iv = u.args
                if bname == "any":
                    return raw("anyof", space, b_and(c, truth(e)), (), (), iv)
                return b_not(raw("anyof", space, b_and(c, b_not(truth(e))), (), (), iv))
        if bname == "sum" and len(args) == 1:
            u = as_seq(args[0])
            if u.op == "comp":
                space, e, c, iv = u.args
                return raw("loopsum", space, e if c is TRUE else ite(c, e, ZERO), iv)
            if u.op in ("list", "tuple"):
                r = ZERO
                for x in u.args:
                    r = T.add(r, strip(x))
                return r
            return raw("call", EXT("numpy.sum"), sa, ())
        if bname in ("max", "min") and len(args) >= 2 and not kwargs:
            xs = []
            for x in sa:
                xs += list(x.args[1]) if x.op == "call" and x.args[0] is f and len(x.args[1]) > 1 and not x.args[2] else [x]
            if len(set(xs)) == 1:
                return xs[0]
            if all(is_num(x) for x in xs):
                return const((max if bname == "max" else min)(cval(x) for x in xs))
            return raw("call", f, tuple(sorted(set(xs), key=lambda t: t.id)), ())
        if bname in ("int", "float") and len(args) == 1:
            if sa[0].op == "phi" and bname == "int":
                return ite(sa[0].args[0], *[T.to_int(a) for a in sa[0].args[1:]])
            if is_num(sa[0]):
                return const(int(cval(sa[0])) if bname == "int" else float(cval(sa[0])))
            if bname == "int" and (T.is_int(sa[0]) or T.is_bool(sa[0])):
                return T.to_int(sa[0])
            if bname == "float":
                return sa[0]
            if T.is_bool(sa[0]):
                return ite(sa[0], ONE, ZERO)
        if bname == "str" and len(args) == 1:
            if is_const(sa[0]):
                return const(str(cval(sa[0])))
            if T.is_text(sa[0]):
                return sa[0]
        if bname == "type" and len(args) == 1:
            c = self.typeof(args[0])
        if bname == "print":
            self.emit("call", st, n, func=f, args=sa, kwargs=sk, rawargs=list(args))
            return NONE
        if bname == "setattr" or bname == "exec":
            self.emit("call", st, n, func=f, args=sa, kwargs=sk, rawargs=list(args))
            return NONE

        # ---- numpy
        if name:
            sa = unflat(name, sa, sk)
        r = self.numpy_call(name, f, args, sa, kw, sk, st, n) if name else None
        if r is not None:
            return r
        if f.op == "attr":
            m, b = f.args[1], f.args[0]
            if m == "T":
                pass
            if m in ("sum", "mean", "max", "min", "argmax", "argmin", "reshape", "round", "std", "var", "repeat", "any", "all", "cumsum", "argsort", "dot") \
                    and (b.op != "sym" or m == "reshape" and b.args[0] == "param"):
                # method spelling of the numpy function
                f = EXT("numpy." + m)
                sa = (strip(b),) + sa
                name = "numpy." + m
                if m == "reshape" and len(sa) > 2:
                    sa = (sa[0], raw("tuple", *sa[1:]))
                sa2, kk = normargs(name, sa, list(sk))
                sa, sk = tuple(sa2), tuple(kk)
                sa = unflat(name, sa, sk)
                r = self.numpy_call(name, f, [b] + list(args), sa, dict(sk), sk, st, n)
                if r is not None:
                    return r
                return self.new(raw("call", f, sa, sk))
        pure = self.is_pure(f, name, bname)
        t = raw("call", f, sa, sk)
        if not pure and name and name.startswith(IMPURE):
            c = self.impure.get(name, 0)
            self.impure[name] = c + 1
            t = raw("call", f, sa, sk + (("#", const(c)),))
        if not (bname and pure):
            self.emit("call", st, n, func=f, args=sa, kwargs=sk, rawargs=list(args), value=t)
        return t

    pickled = None

    def is_pure(self, f, name, bname):
        if bname:
            return bname not in ("open", "print", "exec", "eval", "input", "setattr", "delattr", "next")
        if name:
            return not name.startswith(IMPURE)
        return False

    def isinst(self, x, cls):
        if x.op == "phi":
            return ite(x.args[0], self.isinst(x.args[1], cls), self.isinst(x.args[2], cls))
        u = strip(x)
        names = []
        cs = cls.args if cls.op == "tuple" else (cls,)
        for c in cs:
            names.append(c.args[-1].split(".")[-1] if c.op in ("sym", "class", "func") else "?")
        if u.op == "const":
            ty = type(cval(u))
            anc = [k.__name__ for k in ty.__mro__]
            return const(any(nm in anc for nm in names))
        if u.op == "list":
            return const("list" in names) if u.op == "list" and "?" not in names else raw("isinstance", u, cls)
        if u.op == "tuple":
            return const("tuple" in names)
        if u.op in ("fstr", "fmt"):
            return const("str" in names)
        if u.op == "caught" and u.args[0] is not None and "?" not in names:
            hn = u.args[1]
            if "BaseException" not in hn:
                names = [nm for nm in names if nm not in ("KeyboardInterrupt", "SystemExit", "GeneratorExit")]
            if not names:
                return FALSE
            if all(any(nm in exc_ancestors(h) for nm in names) for h in hn):
                return TRUE
            return raw("exctype", u.args[0], tuple(sorted(names)))
        if len(cs) > 1:
            return b_or(*[raw("isinstance", u, c) for c in cs])
        return raw("isinstance", u, cls)

    def deepcopy(self, src, st, deep):
        if src.op == "phi":
            return ite(src.args[0], self.deepcopy(src.args[1], st, deep), self.deepcopy(src.args[2], st, deep))
        if src is NONE:
            return NONE
        t = self.new(raw("call", EXT("copy.deepcopy" if deep else "copy.copy"), (strip(src),), ()), "copyobj")
        if self.typeof(src) is None and not any(k[0] is src for k in st.vals):
            t = self.new(src, "copyobj")
            if not deep:
                self.shallow.add(t.args[0])
            return t
        snap = {}
        for k, v in st.vals.items():
            if k[0] is src:
                snap[k[1]] = v
        self.copies[t] = (src, snap, deep)
        if not deep:
            self.shallow.add(t.args[0])
        c = self.typeof(src)
        if c is not None:
            self.types[t] = c
        return t

    def map_call(self, fn, its, st, n, how):
        if len(its) == 1:
            it = its[0]
        else:
            it = raw("call", BI("zip"), tuple(its), ())
        u = self.unrollable(it, st)
        f = self.fr()
        if u is not None and len(u) <= 3 and False:
            pass
        space, el, c = self.iter_space(it, st, n)
        iv = self.itv(space)
        e = el(iv)
        args = [e] if len(its) == 1 else list(e.args)
        s2 = st.copy()
        base = f.base
        f.base = b_and(f.base, st.live)
        s2.live = TRUE
        self.loops.append((space, ("map", 0)))
        nr = len(f.raises)
        try:
            v = self.apply(fn, args, [], s2, n)
        finally:
            self.loops.pop()
            f.base = base
        for r in f.raises[nr:]:
            r[0] = b_and(st.live, raw("anyof", space, r[0], (), (), iv))
        for k, w in s2.vals.items():
            if not isinstance(k[0], int) and st.vals.get(k) is not w:
                st.vals[k] = w
        return raw("comp", space, strip(v), TRUE if c is None else strip(c(iv)), iv)

    def filter_call(self, fn, it, st, n):
        space, el, c = self.iter_space(it, st, n)
        iv = self.itv(space)
        e = el(iv)
        if fn is NONE:
            g = truth(strip(e))
        else:
            self.loops.append((space, ("map", 0)))
            try:
                g = truth(strip(self.apply(fn, [e], [], st, n)))
            finally:
                self.loops.pop()
        if c is not None:
            g = b_and(c(iv), g)
        return raw("comp", space, strip(e), g, iv)

    # ------------------------------------------------------------ numpy
    def numpy_call(self, name, f, args, sa, kw, sk, st, n):
        if name == "numpy.where" and len(sa) == 3 and (sa[0].op == "inv" or sa[0].op == "phi" and sa[0].args[1:] == (FALSE, TRUE)):
            return self.new(raw("call", f, (sa[0].args[0], sa[2], sa[1]), sk), "arr")
        if name in IDENT_ARR and sa:
            u = sa[0]
            if u.op in ("tuple",):
                u = raw("list", *u.args)
            if T.is_listy(u) and u.op != "const":
                u = T.rowsof(u)
            elif name != "numpy.array" and name != "numpy.copy" and not kw and len(sa) == 1:
                return self.asarray(args[0])
            return self.new(u, "arr")
        if sa and not sk and (name == "numpy.ravel" and len(sa) == 1 or name == "numpy.reshape" and len(sa) == 2 and sa[1] in (const(-1), raw("tuple", const(-1)))):
            return raw("call", raw("attr", sa[0], "flatten"), (), ())
        if name == "numpy.reshape" and len(sa) == 2 and not sk and sa[1].op in ("tuple", "list") and len(sa[1].args) > 1 and not any(a.op == "star" for a in sa[1].args) \
                and const(-1) not in sa[1].args and T.varying(sa[1].args[0]):
            # the first length follows from the number of elements
            return raw("call", T.sym("ext", name), (sa[0], raw("tuple", const(-1), *sa[1].args[1:])), ())
        if name in ("numpy.random.shuffle", "numpy.fill_diagonal", "numpy.put", "numpy.place", "numpy.putmask", "numpy.copyto") and args:
            self.emit("call", st, n, func=f, args=sa, kwargs=sk, rawargs=list(args))
            self.replace_obj(st, args[0], raw("mutated", sa[0], name, tuple(sa[1:])))
            return NONE
        if name == "numpy.split" and len(sa) >= 2 and sa[1].op in ("list", "tuple") and len(sa[1].args) == 1:
            ax, k = kw.get("axis", sa[2] if len(sa) > 2 else ZERO), sa[1].args[0]
            if ax in (ZERO, ONE):
                full = raw("slice", NONE, NONE, NONE)
                two = [raw("slice", NONE, k, NONE), raw("slice", k, NONE, NONE)]
                return raw("tuple", *[T.index(sa[0], s if ax is ZERO else raw("tuple", full, s)) for s in two])
        if name == "numpy.random.seed" or (name or "").startswith("numpy.random."):
            return None
        if name in ("numpy.hstack", "numpy.vstack", "numpy.concatenate", "numpy.stack", "numpy.dstack", "numpy.column_stack"):
            if sa and as_seq(sa[0]).op in ("tuple", "list") and not any(a.op == "star" for a in as_seq(sa[0]).args):
                parts = list(as_seq(sa[0]).args)
                op = {"numpy.hstack": "hcat", "numpy.vstack": "vcat"}.get(name)
                if name == "numpy.concatenate":
                    ax = kw.get("axis", sa[1] if len(sa) > 1 else ZERO)
                    op = "vcat0" if ax is ZERO else ("hcat" if ax in (ONE, const(-1)) else None)
                if op:
                    return self.new(shiftcat(op, parts), "arr")
        if name == "numpy.append" and len(sa) == 2 and not kw:
            return self.new(shiftcat("hcat", [sa[0], sa[1]]), "arr")
        if name == "numpy.pad" and len(sa) == 2 and not kw and sa[1].op in ("tuple", "list") and len(sa[1].args) == 2 \
                and not any(strip(a).op in ("tuple", "list", "star") for a in sa[1].args):
            zeros = [[raw("call", EXT("numpy.zeros"), (strip(a),), ())] if strip(a) is not ZERO else [] for a in sa[1].args]
            if zeros[0] or zeros[1]:
                self.emit("call", st, n, func=f, args=sa, kwargs=sk, rawargs=list(args))
                return self.new(shiftcat("hcat", zeros[0] + [sa[0]] + zeros[1]), "arr")
        if name == "numpy.pad" and len(sa) == 2 and not kw and sa[1].op in ("tuple", "list") and len(sa[1].args) == 2 \
                and all(a.op in ("tuple", "list") and len(a.args) == 2 for a in sa[1].args):
            zero = [all(x is ZERO for x in a.args) for a in sa[1].args]
            if any(zero) and not all(zero):
                ax = 1 if zero[0] else 0
                size = T.index(raw("attr", sa[0], "shape"), const(1 - ax))
                w = [raw("call", EXT("numpy.zeros"), (raw("tuple", *((size, k) if ax else (k, size))),), ()) for k in sa[1].args[ax].args]
                parts = [p for p, k in ((w[0], sa[1].args[ax].args[0]), (sa[0], None), (w[1], sa[1].args[ax].args[1])) if k is not ZERO]
                return self.new(shiftcat("hcat" if ax else "vcat", parts), "arr")
        if name == "numpy.block" and sa:
            rows = as_seq(sa[0])
            if rows.op == "list":
                rr = []
                for r in rows.args:
                    r = as_seq(r)
                    if r.op == "list":
                        rr.append(shiftcat("hcat", list(r.args)))
                    else:
                        rr.append(r)
                return self.new(shiftcat("vcat", rr), "arr")
        if name in ("numpy.dot", "numpy.matmul") and len(sa) == 2:
            return T.matmul(*sa)
        if name in ("numpy.transpose",) and len(sa) == 1:
            return T.transpose(sa[0])
        if name in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide", "numpy.true_divide", "numpy.power") and len(sa) == 2 and not kw:
            return {"add": T.add, "subtract": T.sub_, "multiply": T.mul, "divide": T.div, "true_divide": T.div, "power": T.power}[name[6:]](*sa)
        if name == "numpy.negative" and len(sa) == 1:
            return T.neg(sa[0])
        if name in ("numpy.square",) and len(sa) == 1:
            return T.power(sa[0], const(2))
        if name in ("numpy.logical_not", "numpy.invert", "numpy.bitwise_not") and len(sa) == 1:
            return invert(sa[0])
        if name in ("numpy.logical_or", "numpy.bitwise_or") and len(sa) == 2:
            return nary("bitor", *sa)
        if name in ("numpy.logical_and", "numpy.bitwise_and") and len(sa) == 2:
            return nary("bitand", *sa)
        if name in ("numpy.greater", "numpy.less", "numpy.equal", "numpy.not_equal", "numpy.greater_equal", "numpy.less_equal") and len(sa) == 2:
            k = name[6:]
            x, y = sa
            return {"greater": lambda: T.gt(x, y), "less": lambda: T.gt(y, x), "equal": lambda: T.eq(x, y),
                    "not_equal": lambda: b_not(T.eq(x, y)), "greater_equal": lambda: T.ge(x, y), "less_equal": lambda: T.ge(y, x)}[k]()
        if name in ("numpy.maximum", "numpy.minimum") and len(sa) == 2 and not kw:
            return raw("call", BI(name[6:9]), tuple(sorted(set(sa), key=lambda t: t.id)), ())
        if name in ("numpy.max", "numpy.min") and len(sa) == 1 and not kw:
            u = as_seq(sa[0])
            return raw("call", BI(name[6:9]), (u,), ())
        if name in ("numpy.any", "numpy.all") and len(sa) == 1 and not kw:
            u = as_seq(sa[0])
            if T.is_bool(u):
                return u
            if u.op == "const":
                return truth(u)
            if u.op in ("list", "tuple"):
                return (b_or if name == "numpy.any" else b_and)(*[self.np_any(name, x) for x in u.args])
            if u.op == "comp":
                space, e, c, iv = u.args
                if name == "numpy.any":
                    return raw("anyof", space, b_and(c, truth(e)), (), (), iv)
                return b_not(raw("anyof", space, b_and(c, b_not(truth(e))), (), (), iv))
            if u.op == "inv":
                # all(~x) == not any(x)
                return b_not(self.np_any("numpy.all" if name == "numpy.any" else "numpy.any", u.args[0]))
            return self.np_any(name, u)
        if name in ("numpy.isinf", "numpy.isnan", "numpy.isfinite", "math.isinf", "math.isnan", "math.isfinite") and len(sa) == 1:
            return T.lift1(lambda x: self.isinf(name.split(".")[1], x), sa[0])
        if name == "numpy.ndim" and len(sa) == 1:
            return raw("call", f, sa, ())
        if name in ("numpy.eye", "numpy.identity") and len(sa) == 1:
            return self.new(raw("call", EXT("numpy.eye"), sa, ()), "arr")
        if name in ("numpy.full",) and len(sa) == 2 and sa[1] is ZERO:
            return self.new(raw("call", EXT("numpy.zeros"), (sa[0],), ()), "arr")
        if name in ALLOC:
            if name in ("numpy.zeros", "numpy.empty", "numpy.ones") and sa and sa[0].op == "tuple" and len(sa[0].args) == 1:
                sa = (sa[0].args[0],) + sa[1:]
            self.emit("call", st, n, func=f, args=sa, kwargs=sk, rawargs=list(args))
            return self.new(raw("call", f, sa, tuple((k, v) for k, v in sk if k != "dtype")), "arr")
        if name == "numpy.diagflat" or name == "numpy.diag":
            return self.new(raw("call", EXT("numpy.diag"), sa, sk))
        if name in ("numpy.float64", "numpy.int64", "numpy.float_", "numpy.intp") and len(sa) == 1:
            return sa[0]
        if name in ("numpy.log", "numpy.exp", "numpy.sqrt", "numpy.abs"):
            return raw("call", f, sa, sk)
        return None

    def asarray(self, x):
        """an array stays the same object, a list (like the current parameters) becomes a new one"""
        if x.op == "phi":
            return ite(x.args[0], self.asarray(x.args[1]), self.asarray(x.args[2]))
        u = strip(x)
        if T.is_listy(u) or u.op in ("attr", "eff") and u.args[1] in ("par", "shocks", "observables"):
            return self.new(u, "arr")
        return x

    def np_any(self, name, u):
        if u.op == "phi":
            return ite(u.args[0], self.np_any(name, u.args[1]), self.np_any(name, u.args[2]))
        if T.is_bool(u):
            return u
        if is_const(u):
            return truth(u)
        if u.op == "attr" and u.args[1] == "values":
            return self.np_any(name, u.args[0])
        if u.op == "call" and u.args[0].op == "attr" and u.args[0].args[1] == "to_numpy" and not u.args[1] and not u.args[2]:
            return self.np_any(name, u.args[0].args[0])
        return raw("batom", "any" if name == "numpy.any" else "all", u)

    def isinf(self, k, x):
        if is_num(x):
            return const({"isinf": x.args[1] in (float("inf"), float("-inf")), "isnan": x.args[1] != x.args[1],
                          "isfinite": x.args[1] == x.args[1] and x.args[1] not in (float("inf"), float("-inf"))}[k])
        if x is EXT("numpy.inf") or x is T.neg(EXT("numpy.inf")):
            return const(k == "isinf")
        if x is EXT("numpy.nan"):
            return const(k == "isnan")
        if k == "isfinite":
            return b_and(b_not(raw("batom", "isinf", x)), b_not(raw("batom", "isnan", x)))
        return raw("batom", k, x)


class Interp(StmtMixin, LoopMixin, ExprMixin, CallMixin, LibMixin, Core):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.pickled = {}

    loop_frame = LoopMixin.loop_frame

    def run(self, fn, args=None, kwargs=None, selfcls=None, symkw=False, state=None, vals=None):
        """analyse one function with symbolic parameters; `args`: {name: term} overrides"""
        args = dict(args or {})
        a = fn.node.args
        names = [p.arg for p in a.posonlyargs + a.args] + [p.arg for p in a.kwonlyargs]
        actual = []
        st = state or St({})
        if vals:
            st.vals.update(vals)
        kw = []
        for i, p in enumerate(names):
            v = args.get(p, args.get(i))
            if v is None:
                v = sym("param", p)
            kw.append((p, v))
        if selfcls is not None and names:
            self.types[dict(kw)[names[0]]] = selfcls
        stub = Func_stub(fn.module)
        fr = Frame(None, fn.module, [], TRUE, self)
        self.stack = [fr]
        if a.kwarg and symkw:
            kw.append(("**", sym("param", a.kwarg.arg)))
        pos = []
        if a.vararg and a.vararg.arg in args:
            pos = list(args[a.vararg.arg].args)
        ret = self.invoke(fn, pos, kw, st, fn.node)
        res = Result(ret, st, self.events, fr.raises, self.last_frame)
        res.interp = self
        return res


def Func_stub(m):
    return None
