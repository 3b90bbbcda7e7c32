"""Loops and comprehensions: element-wise, accumulating and general recurrences in a canonical form."""

import ast
import copy

from . import terms as T
from .terms import TRUE, FALSE, NONE, ONE, ZERO, raw, const, sym, ite, b_and, b_or, b_not, truth, is_const, cval, is_num
from .flow import St, strip, top, UNBOUND, EXT, BI, Budget


def subst(t, m):
    """replace terms by terms (keys: T)"""
    if not m:
        return t
    ks = set(m)
    if not T.contains(t, lambda u: u in ks):
        return t
    if any(T.contains(v, lambda u: u in ks) for v in m.values()):
        # in two steps, so that what is put in is not replaced again
        hold = {k: sym("held", str(k.id)) for k in ks}
        t = T.rebuild(t, lambda u: hold.get(u, u), {})
        m = {hold[k]: v for k, v in m.items()}
    memo = {}

    def f(u):
        return m.get(u, u)
    return T.rebuild(t, f, memo)


def numeric(t):
    return is_const(t) and type(cval(t)) is int or t.op in ("add", "mul") or t.op == "call" and t.args[0] is BI("len")


def exc_is_explicit(e):
    e = top(e)
    return not (e.op == "sym" and e.args == ("implicit",))


def nonneg(t):
    return is_num(t) and type(cval(t)) is int and cval(t) >= 0


class LoopMixin:
    # ------------------------------------------------------------ iteration spaces
    def rng(self, lo, hi):
        return raw("range", lo, hi)

    def itv(self, space):
        return raw("itervar", space, len(self.loops))

    def length(self, x):
        x = top(x)
        if x.op == "phi":
            return ite(x.args[0], self.length(x.args[1]), self.length(x.args[2]))
        if x.op in ("tuple", "list") and not any(a.op == "star" for a in x.args):
            return const(len(x.args))
        if x.op == "arr":
            return self.length(x.args[0])
        if x.op == "attr" and x.args[1] == "shocks":
            return raw("attr", x.args[0], "neps")
        if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "keys" and not x.args[1] \
                and x.args[0].args[0].op == "attr" and x.args[0].args[0].args[1] in ("prior", "fdict"):
            return self.length(x.args[0].args[0])
        if x.op == "sub" and is_const(x.args[1]) and x.args[0].op == "sym" and self.is_model(self.typeof(x.args[0])) \
                and cval(x.args[1]) in ("shk_ordering", "observables"):
            return raw("attr", x.args[0], "neps" if cval(x.args[1]) == "shk_ordering" else "nobs")
        if x.op == "const" and isinstance(cval(x), str):
            return const(len(cval(x)))
        if x.op == "comp" and x.args[2] is TRUE and x.args[0].op == "range":
            return T.sub_(x.args[0].args[1], x.args[0].args[0])
        if x.op == "flatcomp" and x.args[2] is TRUE and x.args[0].op == "range":
            n = self.length(x.args[1]) if x.args[1].op in ("comp", "flatcomp", "list", "tuple") else None
            if n is not None and not T.contains(n, lambda u: u is x.args[3] or u.op == "call" and u.args[0] is BI("len") and u.args[1] and u.args[1][0] is x.args[1]):
                return T.mul(T.sub_(x.args[0].args[1], x.args[0].args[0]), n)
        if x.op == "store":
            return self.length(x.args[0])
        if x.op == "call" and x.args[0].op == "sym" and x.args[0].args[0] == "ext" and x.args[0].args[1] in ("numpy.zeros", "numpy.empty", "numpy.ones") \
                and len(x.args[1]) >= 1:
            n = x.args[1][0]
            if n.op in ("tuple", "list"):
                return n.args[0] if n.args else raw("call", BI("len"), (strip(x),), ())
            if T.is_int(n) or n.op in ("sym", "attr"):
                return n
        if x.op == "call" and x.args[0].op == "sym" and x.args[0].args == ("ext", "numpy.tile") and len(x.args[1]) == 2 \
                and x.args[1][1].op == "tuple" and len(x.args[1][1].args) == 2 and x.args[1][0].op == "attr" and x.args[1][0].args[1] in ("par", "par_fix"):
            return x.args[1][1].args[0]      # rows of a vector
        return raw("call", BI("len"), (strip(x),), ())

    def iter_space(self, it, st, node):
        """(space, elem(itervar)->term, cond(itervar)->bool) of an iterable"""
        x = top(it)
        if x.op == "call" and x.args[0].op == "sym":
            fn = x.args[0].args
            a = x.args[1]
            if fn in (("builtin", "range"), ("ext", "numba.prange"), ("ext", "numpy.arange"), ("ext", "numba.np.ufunc.parallel.prange")):
                if len(a) == 1:
                    return self.rng(ZERO, a[0]), (lambda i: i), None
                if len(a) == 2 or (len(a) == 3 and a[2] is ONE):
                    return self.rng(ZERO, T.sub_(a[1], a[0])), (lambda i: T.add(i, a[0])), None
                if len(a) == 3 and is_num(a[2]) and cval(a[2]) == -1:
                    # hi, hi-1, ..., lo+1
                    n = T.sub_(a[0], a[1])
                    return self.rng(ZERO, n), (lambda i: T.sub_(a[0], i)), None
                return raw("range", *a), (lambda i: i), None
            if fn == ("builtin", "enumerate") and a:
                sp, el, c = self.iter_space(a[0], st, node)
                start = a[1] if len(a) > 1 else dict(x.args[2]).get("start", ZERO)
                if c is None:
                    lo = sp.args[0]
                    return sp, (lambda i: raw("tuple", T.add(T.sub_(i, lo), start), el(i))), None
                return self.rng(ZERO, self.length(a[0])), (lambda i: raw("tuple", T.add(i, start), self.get_item(st, a[0], i))), None
            if fn == ("builtin", "zip") and a:
                parts = [self.iter_space(y, st, node) for y in a]
                if all(p[2] is None for p in parts):
                    spaces = []
                    for p in parts:
                        if p[0] not in spaces:
                            spaces.append(p[0])
                    if len(spaces) == 1:
                        return spaces[0], (lambda i: raw("tuple", *[p[1](i) for p in parts])), None
                    los = [s.args[0] for s in spaces]
                    lens = sorted(set(T.sub_(s.args[1], s.args[0]) for s in spaces), key=lambda t: t.id)
                    hi = lens[0] if len(lens) == 1 else raw("minlen", *lens)
                    sp = self.rng(ZERO, hi)
                    return sp, (lambda i: raw("tuple", *[p[1](T.add(i, p[0].args[0])) for p in parts])), None
            if fn == ("builtin", "reversed") and len(a) == 1:
                sp, el, c = self.iter_space(a[0], st, node)
                if c is None and len(sp.args) == 2:
                    lo, hi = sp.args
                    return sp, (lambda i: el(T.sub_(T.sub_(T.add(hi, lo), ONE), i))), None
            if fn in (("builtin", "list"), ("builtin", "tuple"), ("builtin", "iter")) and len(a) == 1:
                return self.iter_space(a[0], st, node)
        if x.op == "call" and x.args[0].op == "attr":
            meth, obj = x.args[0].args[1], x.args[0].args[0]
            if not x.args[1] and meth == "keys":
                return self.iter_space(obj, st, node)
            if not x.args[1] and meth == "items":
                sp, el, c = self.iter_space(obj, st, node)
                return sp, (lambda i: raw("tuple", el(i), self.get_item(st, obj, el(i)))), c
            if not x.args[1] and meth == "values":
                sp, el, c = self.iter_space(obj, st, node)
                return sp, (lambda i: self.get_item(st, obj, el(i))), c
        if x.op == "comp":
            sp, e, c = x.args[:3]
            iv = x.args[3]
            f = lambda i: subst(e, {iv: i})
            return sp, f, (None if c is TRUE else (lambda i: subst(c, {iv: i})))
        if x.op == "dict" and all(is_const(k) for k, _ in x.args):
            x = raw("list", *[k for k, _ in x.args])
        if x.op == "sub" and x.args[1].op == "slice" and x.args[1].args[2] in (NONE, ONE):
            lo, hi = x.args[1].args[:2]
            if (lo is NONE or nonneg(lo)) and (hi is NONE or (is_num(hi) and type(cval(hi)) is int and cval(hi) < 0)):
                o = ZERO if lo is NONE else lo
                n = T.sub_(T.add(self.length(x.args[0]), ZERO if hi is NONE else hi), o)
                return self.rng(ZERO, n), (lambda i: self.get_item(st, x.args[0], T.add(i, o))), None
        n = self.length(x)
        b = it if it.op == "new" else x
        return self.rng(ZERO, n), (lambda i: self.get_item(st, b, i)), None

    def unrollable(self, it, st):
        x = top(it)
        if x.op in ("tuple", "list") and len(x.args) <= self.unroll and not any(a.op == "star" for a in x.args):
            return list(x.args)
        if x.op == "call" and x.args[0] is BI("enumerate") and len(x.args[1]) == 1:
            u = self.unrollable(x.args[1][0], st)
            if u is not None:
                return [raw("tuple", const(i), e) for i, e in enumerate(u)]
        if x.op == "call" and x.args[0] is BI("zip") and x.args[1]:
            us = [self.unrollable(a, st) for a in x.args[1]]
            if all(u is not None for u in us):
                return [raw("tuple", *e) for e in zip(*us)]
        if x.op == "dict" and len(x.args) <= self.unroll and all(is_const(k) for k, _ in x.args):
            return [k for k, _ in x.args]
        if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("items", "keys", "values") and not x.args[1]:
            d = x.args[0].args[0]
            if d.op == "dict" and len(d.args) <= self.unroll and all(is_const(k) for k, _ in d.args):
                m = x.args[0].args[1]
                return [raw("tuple", k, v) if m == "items" else (k if m == "keys" else v) for k, v in d.args]
        if x.op == "call" and x.args[0] is BI("range") and all(is_num(a) for a in x.args[1]):
            try:
                r = range(*[cval(a) for a in x.args[1]])
            except Exception:
                return None
            if len(r) <= 3:
                return [const(i) for i in r]
        return None

    # ------------------------------------------------------------ for
    def s_For(self, s, st):
        s = self.rows(s)
        it = self.ev(s.iter, st)
        u = self.unrollable(it, st)
        if u is not None:
            return self.unrolled(s, u, st)
        return self.symbolic_for(s, it, st)

    def rows(self, s):
        """for row in x: row[..] = ..  writes into x: name the rows x[0], x[1], .."""
        if hasattr(s, "_rows"):
            return s._rows
        s._rows = s
        hit, bound = set(), set()
        for x in (y for b in s.body for y in ast.walk(b)):
            for t in x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For)) else []:
                bound |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                if isinstance(t, ast.Subscript) and not (isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str)):
                    while isinstance(t, ast.Subscript):
                        t = t.value
                    if isinstance(t, ast.Name):
                        hit.add(t.id)
        m = {}

        def match(tgt, it):
            if isinstance(tgt, ast.Name) and isinstance(it, (ast.Name, ast.Attribute)):
                y = it
                while isinstance(y, ast.Attribute):
                    y = y.value
                if isinstance(y, ast.Name) and y.id not in bound and tgt.id in hit and tgt.id not in bound and y.id != tgt.id:
                    m[tgt.id] = it
            elif isinstance(tgt, (ast.Tuple, ast.List)) and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not it.keywords:
                if it.func.id == "zip" and len(tgt.elts) == len(it.args):
                    for a, b in zip(tgt.elts, it.args):
                        match(a, b)
                elif it.func.id == "enumerate" and len(tgt.elts) == 2 and len(it.args) == 1:
                    match(tgt.elts[1], it.args[0])
        match(s.target, s.iter)
        if not m:
            return s
        k = f"row{s.lineno}_{s.col_offset}"

        class Put(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id not in m:
                    return n
                return ast.copy_location(ast.Subscript(copy.deepcopy(m[n.id]), ast.copy_location(ast.Name(k, ast.Load()), n), n.ctx), n)
        t = ast.Tuple([ast.Name(k, ast.Store()), s.target], ast.Store())
        it = ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], [])
        r = ast.For(t, it, [Put().visit(copy.deepcopy(b)) for b in s.body], s.orelse)
        ast.copy_location(r, s)
        for x in ast.walk(r):
            if "lineno" in x._attributes and not hasattr(x, "lineno"):
                ast.copy_location(x, s)
        ast.fix_missing_locations(r)
        s._rows = r._rows = r
        return r

    def unrolled(self, s, elems, st):
        f = self.fr()
        broke = []
        for e in elems:
            if st.live is FALSE:
                break
            ctl = {"returns": None, "breaks": [], "conts": [], "unrolled": True}
            f_ctl = f.loopctl
            outer = f_ctl[-1] if f_ctl else None
            ctl["returns"] = outer["returns"] if outer else None
            f.loopctl = f_ctl + [ctl] if outer is not None else [ctl]
            self.assign(s.target, e, st, s)
            if outer is None:
                # plain return semantics inside an unrolled loop
                f.loopctl = [ctl]
                ctl["plain"] = True
            st = self.block(s.body, st)
            f.loopctl = f_ctl
            for g, cs in ctl["conts"]:
                cs.live = g
                st = self.join(g, cs, st)
            broke += ctl["breaks"]
        st = self.block(s.orelse, st)
        for g, bs in broke:
            bs.live = g
            st = self.join(g, bs, st)
        return st

    def loop_frame(self, f):
        return bool(f.loopctl) and f.loopctl[-1]["returns"] is not None

    def s_Break(self, s, st):
        f = self.fr()
        if f.loopctl:
            f.loopctl[-1]["breaks"].append((st.live, st.copy()))
        st.live = FALSE
        return st

    def s_Continue(self, s, st):
        f = self.fr()
        if f.loopctl:
            f.loopctl[-1]["conts"].append((st.live, st.copy()))
        st.live = FALSE
        return st

    def run_body(self, body, bind, st, mod, tag, space):
        """one symbolic iteration; returns (next state, ctl, mus)"""
        f = self.fr()
        mus, shared = {}, {}
        b = st.copy()
        for k in mod:
            mu = raw("mu", tag, len(mus))
            init = st.vals.get(k)
            # cells that hold the very same object hold the same one in every iteration, unless one of them is rebound
            if init is not None and init.op == "new" and init not in self.copies and k not in self.split.get(tag, ()):
                mu = shared.setdefault(init, mu)
            mus[k] = mu
            if init is not None:
                self.mu_init[mu] = init
            if init is not None and init.op == "new" and init not in self.copies:
                mu = raw("new", ("mu",) + tag + (mu.args[1],), mu)
            b.vals[k] = mu
        b.live = TRUE
        base = f.base
        f.base = b_and(f.base, st.live)
        ctl = {"returns": [], "breaks": [], "conts": []}
        f.loopctl.append(ctl)
        self.loops.append((space, tag))
        nr = len(f.raises)
        try:
            b = bind(b)
            b = self.block(body, b) if b.live is not FALSE else b
        finally:
            self.loops.pop()
            f.loopctl.pop()
            f.base = base
        ctl["raises"] = list(f.raises[nr:])
        for g, cs in ctl["conts"]:
            cs.live = g
            b = self.join(g, cs, b)
        return b, ctl, mus

    def changed(self, before, after):
        out = []
        for k, v in after.vals.items():
            if before.vals.get(k) is not v:
                if before.vals.get(k) is None and self.default_of(k) is v:
                    continue
                out.append(k)
        return out

    def loop_fix(self, body, bind, st, space):
        mod, tag = [], self.uid("loop")
        bad = None
        for _ in range(8):
            self.muted += 1
            f = self.fr()
            nr = len(f.raises)
            try:
                b, ctl, mus = self.run_body(body, bind, st, mod, tag, space)
            finally:
                self.muted -= 1
            del f.raises[nr:]
            base = st.copy()
            for k, m in mus.items():
                base.vals[k] = m
            chg = set(self.changed(base, b))
            for g, x in ctl["breaks"]:
                chg |= set(self.changed(base, x))
            for g, v, x in ctl["returns"]:
                chg |= set(self.changed(base, x))
            byinit = {}
            for k, m in mus.items():
                byinit.setdefault(m, []).append(k)
            apart = [k for m, ks in byinit.items() if len(ks) > 1 for k in ks
                     if any(len({x.vals.get(q) for q in ks}) > 1 for x in [b] + [x for g, x in ctl["breaks"]] + [x for g, v, x in ctl["returns"]])]
            if apart:
                self.split.setdefault(tag, set()).update(apart)
                continue
            newk = [k for k in chg if k not in mus and not (isinstance(k[0], int) and k[0] not in self.live_frames())]
            # strip identity-only differences of mus
            if not newk:
                break
            mod = mod + sorted(newk, key=str)
        b, ctl, mus = self.run_body(body, bind, st, mod, tag, space)
        return b, ctl, mus

    def live_frames(self):
        s = set(f.id for f in self.stack)
        for f in self.stack:
            for fid, _ in f.scope:
                s.add(fid)
        return s

    # ---- canonical closure over loop-carried values
    def close(self, exprs, mus, inits, nexts):
        """rename the loop-carried symbols that `exprs` (transitively) use to canonical ones"""
        depth = len(self.loops)
        rev = {m: k for k, m in mus.items()}
        order, seen = [], set()

        def blank(t):
            return T.show(T.rebuild(t, lambda u: sym("μ") if u in rev else u), 8)

        def visit(t):
            found = [u for u in T.subterms(t) if u in rev and u not in seen]
            # deterministic order: by position in the printed term
            if len(found) > 1:
                txt = {}
                for u in found:
                    txt[u] = blank(T.rebuild(t, lambda w, u=u: sym("MARK") if w is u else w))
                found.sort(key=lambda u: (txt[u].find("MARK"), txt[u]))
            for u in found:
                if u not in seen:
                    seen.add(u)
                    order.append(u)
                    visit(nexts.get(rev[u], u))
        for e in exprs:
            visit(e)
        m = {u: raw("mu", depth, j) for j, u in enumerate(order)}
        out = [subst(e, m) for e in exprs]
        ii = tuple(inits.get(rev[u], UNBOUND) for u in order)
        nn = tuple(subst(nexts.get(rev[u], u), m) for u in order)
        return out, ii, nn

    def exists(self, space, g, mus, inits, nexts):
        g = truth(strip(g))
        if g is FALSE:
            return FALSE
        if g is TRUE:
            return self.nonempty(space)
        iv = self.itv(space)
        loopdep = T.contains(g, lambda u: u is iv or (u.op == "mu"))
        if not loopdep:
            return b_and(self.nonempty(space), g)
        (g2,), ii, nn = self.close([g], mus, inits, nexts)
        return raw("anyof", space, g2, ii, nn, iv)

    def nonempty(self, space):
        if space.op == "range" and len(space.args) == 2:
            return T.gt(space.args[1], space.args[0])
        return raw("iter", space)

    def first(self, space, g, v, mus, inits, nexts):
        g = truth(strip(g))
        v = strip(v)
        iv = self.itv(space)
        if v.op in ("tuple",):
            return raw("tuple", *[self.first(space, g, a, mus, inits, nexts) for a in v.args])
        if is_const(v):
            return v
        if not T.contains(v, lambda u: u is iv or u.op == "mu"):
            return v
        if g is TRUE:
            v = subst(v, {iv: space.args[0]} if space.op == "range" else {})
            if not T.contains(v, lambda u: u.op == "mu"):
                return v
        (g2, v2), ii, nn = self.close([g, v], mus, inits, nexts)
        return raw("first", space, g2, v2, ii, nn, iv)

    def symbolic_for(self, s, it, st):
        space, el, cnd = self.iter_space(it, st, s)
        iv = self.itv(space)

        def bind(b):
            if cnd is not None:
                c = self.cond(cnd(iv), b)
                b2 = b.copy()
                b2.live = b_and(b.live, b_not(c))
                if b2.live is not FALSE:
                    self.fr().loopctl[-1]["conts"].append((b2.live, b2))
                b.live = b_and(b.live, c)
            self.assign(s.target, el(iv), b, s)
            return b
        f = self.fr()
        ne, nr = len(self.events), len(f.raises)
        b, ctl, mus = self.loop_fix(s.body, bind, st, space)
        # hand-made counters are functions of the iteration variable
        cnt = {}
        if space.op == "range" and len(space.args) == 2:
            for k, mu in mus.items():
                init = st.vals.get(k)
                if init is None or init is UNBOUND or not isinstance(k[0], int) or not numeric(strip(init)):
                    continue
                d = T.sub_(strip(b.vals.get(k, mu)), mu)
                if is_const(d) and type(cval(d)) is int and cval(d):
                    cnt[k] = strip(init), d
        if cnt:
            del self.events[ne:], f.raises[nr:]

            def bind2(x):
                for k, (init, d) in cnt.items():
                    x.vals[k] = T.add(init, T.mul(d, T.sub_(iv, space.args[0])))
                return bind(x)
            b, ctl, mus = self.loop_fix(s.body, bind2, st, space)
            fin = {k: T.add(init, T.mul(d, T.sub_(space.args[1], space.args[0]))) for k, (init, d) in cnt.items()}
            return self.finish(s, st, b, ctl, mus, space, final_override=fin)
        late = self.previous(space, st, b, ctl, mus, iv) if space.op == "range" and len(space.args) == 2 else {}
        if late:
            del self.events[ne:], f.raises[nr:]

            def bind3(x):
                x.vals.update(late)
                return bind(x)
            b, ctl, mus = self.loop_fix(s.body, bind3, st, space)
        return self.finish(s, st, b, ctl, mus, space)

    def previous(self, space, st, b, ctl, mus, iv):
        """local variables read before they are set anew in every iteration: the value of the iteration before"""
        out = {}
        all_mus = set(mus.values())
        nexts = {k: strip(b.vals.get(k, m)) for k, m in mus.items()}
        for k, mu in mus.items():
            init, nxt = st.vals.get(k), nexts[k]
            if init is None or init is UNBOUND or not isinstance(k[0], int) or nxt is mu or nxt.op != "call" or T.is_num(nxt):
                continue
            if T.contains(nxt, lambda u: u in all_mus or u.op in ("unknown", "partialval", "entered")):
                continue
            used = [v for q, v in nexts.items() if q != k]
            if any(T.contains(v, lambda u: u is mu) for v in used):
                out[k] = ite(T.eq(iv, space.args[0]), strip(init), subst(nxt, {iv: T.sub_(iv, ONE)}))
        return out

    def finish(self, s, st, b, ctl, mus, space, final_override=None):
        f = self.fr()
        inits = {k: self.whole(st.vals.get(k), st) if st.vals.get(k) is not None else strip(self.default_of(k)) for k in mus}
        nexts = {k: strip(b.vals.get(k, mus[k])) for k in mus}
        out = st.copy()
        iv = self.itv(space)
        for k in mus:
            out.vals[k] = self.reident(st.vals.get(k), self.closed_form(space, k, mus, inits, nexts, iv))
        if final_override:
            out.vals.update(final_override)
        # absolute guard of raises inside the loop
        for r in ctl["raises"]:
            A = self.exists(space, r[0], mus, inits, nexts)
            r[0] = b_and(st.live, A)
            if exc_is_explicit(r[1]):
                out.live = b_and(out.live, b_not(A))
        both = bool(ctl["returns"] and ctl["breaks"])
        if both:
            # which of the exits comes first
            rg = b_or(*[strip(g) for g, _, _ in ctl["returns"]])
            anyx = b_or(rg, *[strip(g) for g, _ in ctl["breaks"]])
            X = self.exists(space, anyx, mus, inits, nexts)
            R = truth(self.first(space, anyx, rg, mus, inits, nexts))
        if ctl["returns"]:
            allg = b_or(*[strip(g) for g, _, _ in ctl["returns"]]) if not both else anyx
            A = self.exists(space, allg, mus, inits, nexts) if not both else b_and(X, R)
            val = None
            rst = None
            for g, v, x in ctl["returns"]:
                val = strip(v) if val is None else ite(strip(g), strip(v), val)
            F = self.first(space, allg, val, mus, inits, nexts)
            rst = st.copy()
            for k in mus:
                vv = None
                for g, v, x in ctl["returns"]:
                    w = strip(x.vals.get(k, mus[k]))
                    vv = w if vv is None else ite(strip(g), w, vv)
                rst.vals[k] = self.reident(st.vals.get(k), self.first(space, allg, vv, mus, inits, nexts))
            g = b_and(st.live, A)
            rst.live = g
            if f.loopctl and f.loopctl[-1]["returns"] is not None:
                f.loopctl[-1]["returns"].append((g, F, rst))
            else:
                self.add_return(f, g, F, rst)
            out.live = b_and(out.live, b_not(A))
        if ctl["breaks"]:
            allg = b_or(*[strip(g) for g, _ in ctl["breaks"]]) if not both else anyx
            A = self.exists(space, allg, mus, inits, nexts) if not both else b_and(X, b_not(R))
            bst = st.copy()
            for k in mus:
                vv = None
                for g, x in ctl["breaks"]:
                    w = strip(x.vals.get(k, mus[k]))
                    vv = w if vv is None else ite(strip(g), w, vv)
                bst.vals[k] = self.reident(st.vals.get(k), self.first(space, allg, vv, mus, inits, nexts))
            lv = out.live
            out.live = b_and(lv, b_not(A))
            bst.live = b_and(lv, A)
            if s.orelse:
                out = self.block(s.orelse, out)
            return self.join(A, bst, out)
        if getattr(s, "orelse", None):
            out = self.block(s.orelse, out)
        return out

    def whole(self, v, st):
        """value at loop entry, with the entries written to a mapping before"""
        if v.op == "phi":
            return ite(v.args[0], self.whole(v.args[1], st), self.whole(v.args[2], st))
        return self.contents(v, st) if v.op == "new" and top(v).op in ("dict", "dictcomp", "updated", "call") else strip(v)

    def reident(self, old, val):
        if old is not None and old.op == "new" and val.op != "new" and not is_const(val):
            nv = raw("new", old.args[0], val)
            if old in self.copies:
                self.copies[nv] = self.copies[old]
            return nv
        return val

    def closed_form(self, space, k, mus, inits, nexts, iv):
        mu, init, nxt = mus[k], inits[k], nexts[k]
        if nxt is mu:
            return init
        anymu = lambda t: T.contains(t, lambda u: u.op == "mu")
        usesiv = lambda t: T.contains(t, lambda u: u is iv)
        if not anymu(nxt):
            if not usesiv(nxt):
                ne = self.nonempty(space)
                return ite(ne, nxt, init)
            # last element
            if space.op == "range" and len(space.args) == 2:
                return ite(self.nonempty(space), subst(nxt, {iv: T.sub_(space.args[1], ONE)}), init)
            return ite(self.nonempty(space), raw("last", space, nxt, iv), init)
        # guarded accumulation: nxt = cond ? upd(mu) : mu
        a = self.gated_acc(nxt, mu)
        if a is not None:
            kind, cnd, e = a
            if not anymu(cnd) and not anymu(e):
                if kind == "append":
                    comp = raw("comp", space, e, cnd, iv)
                    if init.op == "list" and not init.args:
                        return comp
                    return T.concat(init, comp)
                if kind == "store" and e.op == "tuple" and init.op in ("dict", "dictcomp", "updated"):
                    return T.updated(init, raw("dictcomp", space, e.args[0], e.args[1], cnd, iv))
                if kind == "extend":
                    comp = raw("flatcomp", space, e, cnd, iv)
                    return comp if init.op == "list" and not init.args else T.concat(init, comp)
                if kind == "appendt":
                    return T.concat(init, raw("comp", space, e, cnd, iv))
                if kind == "add":
                    e2 = ite(cnd, e, ZERO) if cnd is not TRUE else e
                    if not usesiv(e2) and space.op == "range" and len(space.args) == 2:
                        return T.add(init, T.mul(e2, T.sub_(space.args[1], space.args[0])))
                    return T.add(init, raw("loopsum", space, e2, iv))
                if kind == "or":
                    e2 = ite(cnd, e, FALSE) if cnd is not TRUE else e
                    return raw("loopor", space, e2, init, iv)
        (n2,), ii, nn = self.close([mu], mus, inits, nexts)
        return raw("loop", space, ii, nn, iv)

    def gated_acc(self, nxt, mu):
        """nxt == (cond ? acc(mu, e) : mu) where every non-mu leaf accumulates in the same way -> (kind, cond, e)"""
        if nxt.op == "phi" and nxt.args[0] is not raw("truth", mu):
            x, y = self.gated_acc(nxt.args[1], mu), self.gated_acc(nxt.args[2], mu)
            if x is None or y is None:
                return None
            kinds = {k for k, c, e in (x, y) if k is not None}
            if len(kinds) > 1:
                return None
            kind = kinds.pop() if kinds else None
            g = nxt.args[0]
            cnd = ite(g, x[1], y[1])
            if x[0] is None:
                e = y[2]
            elif y[0] is None:
                e = x[2]
            else:
                e = ite(g, x[2], y[2])
            return kind, cnd, e
        if nxt is mu:
            return None, FALSE, NONE
        a = self.accumulate(nxt, mu)
        return None if a is None else (a[0], TRUE, a[1])

    def accumulate(self, upd, mu):
        if upd.op == "concat" and upd.args[0] is mu:
            r = upd.args[1]
            if r.op == "list" and len(r.args) == 1:
                return "append", r.args[0]
            if r.op == "tuple" and len(r.args) == 1:
                return "appendt", r.args[0]
            if r.op in ("comp", "flatcomp", "concat") or (r.op == "list" and r.args):
                return "extend", r
        if upd.op == "store" and upd.args[0] is mu:
            return "store", raw("tuple", upd.args[1], upd.args[2])
        if upd.op == "sum":
            d = dict(upd.args)
            if d.get(mu) == 1:
                return "add", T.sub_(upd, mu)
        if upd.op == "bitor" and mu in upd.args:
            rest = [a for a in upd.args if a is not mu]
            return "or", rest[0] if len(rest) == 1 else raw("bitor", *rest)
        if upd.op == "phi" and upd.args[0] is raw("truth", mu) and upd.args[1] in (TRUE, mu):
            return "or", upd.args[2]
        return None

    # ------------------------------------------------------------ while
    def s_While(self, s, st):
        c0 = self.cond(self.ev(s.test, st.copy()), st)
        if c0 is FALSE:
            return self.block(s.orelse, st)
        wspace = raw("whilespace", len(self.loops))

        def bind(b):
            c = self.cond(self.ev(s.test, b), b)
            if c is not TRUE:
                x = b.copy()
                x.live = b_and(b.live, b_not(c))
                self.fr().loopctl[-1]["breaks"].append((x.live, x))
                b.live = b_and(b.live, c)
            return b
        nraise = len(self.fr().raises)
        b, ctl, mus = self.loop_fix(s.body, bind, st, wspace)
        # counting loop?
        inv = lambda t: not T.contains(t, lambda u: u.op == "mu" and u in set(mus.values()))
        if ctl["breaks"]:
            g0, x0 = ctl["breaks"][0]
            c = b_not(strip(g0))
            for k, mu in mus.items():
                nxt = strip(b.vals.get(k, mu))
                if nxt is not T.add(mu, ONE):
                    continue
                # c  ==  hi - mu > 0
                if c.op == "gt0":
                    p = c.args[0]
                    hi = T.add(p, mu)
                    if inv(hi) and isinstance(k[0], int):
                        init = strip(st.vals.get(k, UNBOUND))
                        if init is UNBOUND:
                            continue
                        space = self.rng(ZERO, T.sub_(hi, init))
                        iv = T.add(self.itv(space), init)

                        def bind2(b2, k=k, iv=iv):
                            b2.vals[k] = iv
                            return b2
                        del self.fr().raises[nraise:]
                        # the counter's own increment is replaced by the iteration variable
                        b2, ctl2, mus2 = self.loop_fix(s.body, bind2, st, space)
                        fin = ite(T.gt(hi, init), hi, init)
                        mus2.pop(k, None)
                        if T.contains(raw("tuple", *[strip(b2.vals.get(q, m)) for q, m in mus2.items()]), lambda u: u.op == "mu" and u not in set(mus2.values()) and u.args[0] == list(mus.values())[0].args[0]):
                            self.fr().raises[nraise:] = ctl["raises"]
                            break
                        return self.finish(s, st, b2, ctl2, mus2, space, final_override={k: fin})
        return self.finish(s, st, b, ctl, mus, wspace)

    # ------------------------------------------------------------ comprehensions
    def comprehension(self, gens, build, st, node):
        """build(st) evaluates the element(s) in the innermost scope -> term tuple"""
        f = self.fr()
        g = gens[0]
        it = self.ev(g.iter, st)
        u = self.unrollable(it, st)
        saved = {}
        names = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
        olds = {n: st.vals.get((f.id, n)) for n in names}
        oldl = {n: n in f.locals for n in names}
        try:
            if u is not None:
                outs = []
                for e in u:
                    self.assign_local(g.target, e, st, node)
                    c = TRUE
                    for t in g.ifs:
                        c = b_and(c, self.cond(self.ev(t, st), st))
                    if c is FALSE:
                        continue
                    r = self.comprehension(gens[1:], build, st, node) if len(gens) > 1 else [("elt", build(st))]
                    if c is not TRUE:
                        return None if False else [("cond", c, r)] + [("more",)] if False else self.comp_generic(g, gens, it, build, st, node)
                    outs += r
                return outs
            return self.comp_generic(g, gens, it, build, st, node)
        finally:
            for n in names:
                if olds[n] is None:
                    st.vals.pop((f.id, n), None)
                else:
                    st.vals[(f.id, n)] = olds[n]
                if not oldl[n]:
                    f.locals.discard(n)

    def assign_local(self, tgt, v, st, node):
        self.assign(tgt, v, st, node)

    def comp_generic(self, g, gens, it, build, st, node):
        space, el, cnd = self.iter_space(it, st, node)
        iv = self.itv(space)
        f = self.fr()
        s2 = st.copy()
        base = f.base
        f.base = b_and(f.base, st.live)
        s2.live = TRUE
        c = TRUE
        if cnd is not None:
            c = self.cond(cnd(iv), s2)
        self.assign_local(g.target, el(iv), s2, node)
        self.loops.append((space, ("comp", 0)))
        for t in g.ifs:
            c = b_and(c, self.cond(self.ev(t, s2), s2))
        s2.live = c
        r = self.comprehension(gens[1:], build, s2, node) if len(gens) > 1 else [("elt", build(s2))]
        self.loops.pop()
        f.base = base
        # heap effects of element evaluation: keep the last state (approximation)
        for k, v in s2.vals.items():
            if not isinstance(k[0], int) and st.vals.get(k) is not v:
                st.vals[k] = v
        return [("comp", space, strip(c), r, iv)]

    def comp_term(self, parts, kind="list"):
        """turn the nested description into a term"""
        if all(p[0] == "elt" for p in parts):
            return raw("list", *[p[1][0] for p in parts])
        if len(parts) == 1 and parts[0][0] == "comp":
            _, space, c, r, iv = parts[0]
            if len(r) == 1 and r[0][0] == "elt":
                return raw("comp", space, strip(r[0][1][0]), c, iv)
            inner = self.comp_term(r)
            return raw("flatcomp", space, strip(inner), c, iv)
        return raw("list", *[raw("star", self.comp_term([p])) if p[0] == "comp" else p[1][0] for p in parts])
