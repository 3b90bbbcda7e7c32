"""Transfer functions for statements (control flow, loops, exceptions)."""

import ast

from . import terms as T
from .terms import TRUE, FALSE, NONE, ONE, ZERO, raw, const, sym, ite, b_and, b_or, b_not, truth, is_const, cval, is_num
from .flow import St, Frame, strip, top, UNBOUND, assigned_names, EXT, BI, Budget
from .loader import Func, Class, AnalysisBroken

EXC_PARENTS = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "ValueError": "Exception",
               "TypeError": "Exception", "AttributeError": "Exception", "NameError": "Exception", "ImportError": "Exception",
               "ModuleNotFoundError": "ImportError", "SyntaxError": "Exception", "NotImplementedError": "RuntimeError",
               "RuntimeError": "Exception", "AssertionError": "Exception", "OSError": "Exception", "FileNotFoundError": "OSError",
               "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "Warning": "Exception",
               "StopIteration": "Exception", "Exception": "BaseException", "KeyboardInterrupt": "BaseException",
               "SystemExit": "BaseException", "UserWarning": "Warning", "RuntimeWarning": "Warning"}


def exc_ancestors(n):
    out = [n]
    while n in EXC_PARENTS:
        n = EXC_PARENTS[n]
        out.append(n)
    return out


class StmtMixin:
    # ------------------------------------------------------------ joins
    def default_of(self, key):
        a, b = key
        if isinstance(a, int):
            return UNBOUND
        if isinstance(b, tuple) and b[0] == "has":
            n = b[1]
            if isinstance(n, tuple):
                return self.has_item(St({}), a, n[1])
            return self.has_attr(St({}), a, n)
        if isinstance(b, tuple) and b[0] == "item":
            return self.get_item(St({}), a, b[1])
        m = self.muted
        self.muted += 1
        try:
            return self.get_attr(St({}), a, b)
        finally:
            self.muted = m

    def join(self, c, s1, s2):
        """state that is s1 where c holds, else s2 (live conditions are already specialised)"""
        live = b_or(s1.live, s2.live)
        if s1.live is FALSE:
            s2.live = live
            return s2
        if s2.live is FALSE:
            s1.live = live
            return s1
        vals = {}
        for k in s1.vals.keys() | s2.vals.keys():
            a, b = s1.vals.get(k), s2.vals.get(k)
            if a is b:
                vals[k] = a
                continue
            if a is None:
                a = self.default_of(k)
            if b is None:
                b = self.default_of(k)
            vals[k] = a if a is b else ite(c, a, b)
        return St(vals, live)

    def cond(self, c, st):
        """simplify condition under the live condition of the state"""
        c = truth(top(c))
        c = strip(c)
        if c is TRUE or c is FALSE:
            return c
        if st.live is not TRUE:
            if b_and(st.live, c) is FALSE:
                return FALSE
            if b_and(st.live, b_not(c)) is FALSE:
                return TRUE
            if T.satisfiable(b_and(st.live, c)) is None:
                return FALSE
            if T.satisfiable(b_and(st.live, b_not(c))) is None:
                return TRUE
        return c

    def fork(self, st, c):
        a, b = st.copy(), st.copy()
        a.live = b_and(st.live, c)
        b.live = b_and(st.live, b_not(c))
        return a, b

    # ------------------------------------------------------------ blocks
    def block(self, stmts, st):
        for s in stmts:
            if st.live is FALSE:
                break
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return st
        r = m(s, st)
        return st if r is None else r

    def s_Pass(self, s, st):
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            f = self.fr()
            if f.on_yield is not None:
                v = self.ev(s.value.value, st) if s.value.value is not None else NONE
                return f.on_yield(v, st)
            return st
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return st

    def s_Assign(self, s, st):
        if isinstance(s.value, (ast.Yield,)) and self.fr().on_yield is not None:
            v = self.ev(s.value.value, st) if s.value.value is not None else NONE
            return self.fr().on_yield(v, st)
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        load = ast.copy_location(self.as_load(s.target), s.target)
        old = self.ev(load, st)
        val = self.ev(s.value, st)
        new = self.binop(s.op, old, val, st, s)
        tgt = s.target
        o = top(old)
        if isinstance(tgt, (ast.Name, ast.Attribute)) and self.maybe_mutable(o):
            # `x += y` mutates arrays and lists in place
            self.emit("mutate", st, s, target=old, name="inplace", value=new)
            if o.op in ("attr", "sym", "sub") and isinstance(tgt, ast.Name) and self.alias_sensitive(old):
                self.replace_obj(st, old, new)
        self.assign(tgt, new, st, s, aug=True)
        return st

    def alias_sensitive(self, t):
        return False

    def maybe_mutable(self, t):
        if t.op in ("const", "fstr", "itervar") or T.is_bool(t) or T.is_int(t):
            return False
        return True

    def as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(t.id, ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(t.value, t.attr, ast.Load())
        if isinstance(t, ast.Subscript):
            return ast.Subscript(t.value, t.slice, ast.Load())
        return t

    def assign(self, t, v, st, node, aug=False):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = top(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if not star:
                for u in ([vv] if vv.op != "phi" else [vv.args[1], vv.args[2]]):
                    u = strip(u)
                    if u.op == "call" and ("split" in T.show(u.args[0], 2)):
                        self.emit("unpack", st, node, value=u, name=const(len(t.elts)))
            for i, e in enumerate(t.elts):
                if star and i == star[0]:
                    if vv.op in ("tuple", "list"):
                        hi = len(vv.args) - (len(t.elts) - i - 1)
                        self.assign(e.value, self.new(raw("list", *vv.args[i:hi])), st, node)
                    else:
                        self.assign(e.value, raw("sub", strip(vv), raw("slice", const(i), NONE, NONE)), st, node)
                elif star and i > star[0]:
                    self.assign(e, self.get_item(st, v, const(i - len(t.elts))), st, node)
                else:
                    self.assign(e, self.elem(v, const(i), st), st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.set_attr(st, base, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.ev_index(t.slice, st)
            self.set_sub(t.value, base, idx, v, st, node)

    def elem(self, v, i, st):
        """i-th component when unpacking"""
        if v.op == "phi":
            return ite(v.args[0], self.elem(v.args[1], i, st), self.elem(v.args[2], i, st))
        u = top(v)
        if u.op == "comp":
            # generator / list of per-element values over a constant-length iterable
            return raw("sub", u, i)
        return self.get_item(st, v, i)

    def set_name(self, name, v, st, node):
        f = self.fr()
        if name in f.globals:
            mod = raw("module", f.module.name)
            self.set_attr(st, mod, name, v, node)
            return
        if name in f.nonlocals:
            for fid, names in f.scope:
                if name in names:
                    st.vals[(fid, name)] = v
                    return
        f.locals.add(name)
        st.vals[(f.id, name)] = v

    def set_sub(self, base_node, base, idx, v, st, node):
        i = strip(idx)
        self.emit("setitem", st, node, target=base, name=i, value=v)
        if is_const(i) and isinstance(cval(i), str) or self.dictlike(base, i, st):
            self._set(st, base, ("item", i), v, TRUE)
            return
        # a view of an array: write through to the viewed array
        if isinstance(base_node, ast.Subscript) and top(base).op not in ("dict",):
            ib = self.ev_index(base_node.slice, st)
            if self.is_view_index(strip(ib)) or not self.is_maskish(strip(ib)):
                bb = self.ev(base_node.value, st)
                if self.joinable(strip(ib), i):
                    self._write_through(base_node.value, bb, self.joined(strip(ib), i), v, st, node)
                else:
                    self._write_through(base_node.value, bb, ib, self.store(base, i, v), st, node)
                return
        nv = self.store(base, i, v)
        self.replace_obj(st, base, nv)
        self.through(st, base, nv)

    def through(self, st, base, nv):
        """a row (or a stretch) of an array held under a name was written to: so was the array"""
        if base.op == "new":
            return              # a copy of its own
        t, nv = strip(base), strip(nv)
        while t.op == "sub" and self.is_view_index(t.args[1]):
            x = t.args[0]
            held = {}
            for k, v in st.vals.items():
                if v is not UNBOUND and not is_const(v) and v.op != "phi" and strip(v) is x:
                    held[v] = k
            if len(held) != 1:
                return
            nv = strip(self.store(x, t.args[1], nv))
            self.replace_obj(st, next(iter(held)), nv)
            t = x

    def _write_through(self, base_node, base, idx, v, st, node):
        i = strip(idx)
        if is_const(i) and isinstance(cval(i), str):
            self._set(st, base, ("item", i), v, TRUE)
            return
        if isinstance(base_node, ast.Subscript):
            ib = self.ev_index(base_node.slice, st)
            bb = self.ev(base_node.value, st)
            if self.joinable(ib, i):
                return self._write_through(base_node.value, bb, self.joined(strip(ib), i), v, st, node)
            self._write_through(base_node.value, bb, ib, self.store(base, i, v), st, node)
            return
        self.replace_obj(st, base, self.store(base, i, v))

    def store(self, base, i, v):
        b = top(base)
        if b.op == "phi":
            return ite(b.args[0], self.store(b.args[1], i, v), self.store(b.args[2], i, v))
        vs = strip(v)
        if not (is_const(i) and isinstance(cval(i), str)) and b.op not in ("list", "dict"):
            vs = T.filled(vs)
        if b.op == "store" and b.args[1] is i:
            b = b.args[0]
        if i.op == "slice" and all(a is NONE for a in i.args) and vs.op == "sum":
            x = strip(b)        # all entries of a vector, computed from the vector: of its shape
            if any(u is x or u.op == "mm" and u.args[-1] is x and u.args[0].op != "mu" for u, k in vs.args if k == 1):
                return vs
        if vs.op == "store" and vs.args[0].op == "sub" and vs.args[0].args[0] is strip(b) and vs.args[0].args[1] is i and self.joinable(i, vs.args[1]):
            j = vs.args[1]      # an entry of a row
            return self.store(base, self.joined(i, j), vs.args[2])
        if vs.op == "sub" and vs.args[0] is strip(b) and vs.args[1] is i and self.is_view_index(i):
            return base             # its own entry
        if vs.op == "phi" and self.is_view_index(i) and any(x.op == "sub" and x.args[0] is strip(b) and x.args[1] is i for x in vs.args[1:]):
            return ite(vs.args[0], self.store(base, i, vs.args[1]), self.store(base, i, vs.args[2]))
        # disjoint constant indices commute
        if b.op == "store" and is_const(b.args[1]) and is_const(i) and b.args[1] is not i and i.id < b.args[1].id:
            return raw("store", self.store(b.args[0], i, v), b.args[1], b.args[2])
        if b.op in ("list",) and is_const(i) and isinstance(cval(i), int) and -len(b.args) <= cval(i) < len(b.args):
            a = list(b.args)
            a[cval(i)] = v
            return raw("list", *a)
        if i.op == "slice" and i.args[1:] == (NONE, NONE)[:len(i.args) - 1] and vs.op == "store" and vs.args[0].op == "sub" \
                and vs.args[0].args[0] is strip(b) and vs.args[0].args[1] is i \
                and (T.is_int(vs.args[1]) or vs.args[1].op == "call" and vs.args[1].args[0].op == "attr" and vs.args[1].args[0].args[1] == "index"):
            # one entry of a stretch that starts at -n (counting from the end) or n
            return raw("store", strip(b), vs.args[1] if i.args[0] is NONE else T.add(i.args[0], vs.args[1]), vs.args[2])
        if i.op == "sum":
            n = self.length(b)
            if not is_num(n) and n.op != "call" and any(k is n and c == 1 for k, c in i.args):
                i = T.sub_(i, n)        # counted from the end
        return raw("store", strip(b), i, vs)

    def dictlike(self, base, i, st):
        b = top(base)
        if T.contains(i, lambda u: u.op in ("itervar", "mu")):
            return False
        return b.op == "dict" or (b.op == "call" and b.args[0] is BI("dict"))

    def joinable(self, i, j):
        """integers in front of further integers or slices"""
        at = lambda t: t.args if t.op == "tuple" else (t,)
        return all(T.is_int(a) for a in at(i)) and all(T.is_int(a) or a.op == "slice" for a in at(j))

    def joined(self, i, j):
        return T.trim(raw("tuple", *(i.args if i.op == "tuple" else (i,)), *(j.args if j.op == "tuple" else (j,))))

    def is_view_index(self, i):
        if i.op == "slice":
            return True
        if i.op == "tuple":
            return all(a.op == "slice" or a is const(Ellipsis) or T.is_int(a) for a in i.args)
        return T.is_int(i)

    def is_maskish(self, i):
        return i.op in ("list", "inv", "bitand", "bitor")

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.vals.pop((self.fr().id, t.id), None)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st)
                self.emit("delattr", st, s, target=base, name=t.attr)
                st.vals[(base, t.attr)] = UNBOUND
                st.vals[(base, ("has", t.attr))] = FALSE
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                idx = self.ev_index(t.slice, st)
                self.emit("delitem", st, s, target=base, name=strip(idx))
                st.vals[(base, ("item", strip(idx)))] = UNBOUND
                st.vals[(base, ("has", ("item", strip(idx))))] = FALSE
        return st

    def s_Global(self, s, st):
        self.fr().globals.update(s.names)

    def s_Nonlocal(self, s, st):
        self.fr().nonlocals.update(s.names)

    def s_Import(self, s, st):
        for name, b in self.prog.import_bindings(self.fr().module, s):
            self.bind_import(name, b, st, s)

    s_ImportFrom = s_Import

    def bind_import(self, name, b, st, s):
        if b[0] == "star":
            return
        if b[0] == "from":
            m = self.prog.modules.get(b[1])
            r = self.prog.lookup(m, b[2]) if m else None
            v = self.binding(r, m, b[2], st) if r else sym("missing", b[1], b[2])
            if r is None or r[0] == "missing":
                self.emit("missing", st, s, name=f"{b[1]}.{b[2]}")
        elif b[0] == "mod":
            v = raw("module", b[1])
        else:
            v = EXT(b[1])
        st.vals[(self.fr().id, name)] = v
        self.fr().locals.add(name)

    def s_FunctionDef(self, s, st):
        self.set_name(s.name, self.make_closure(s, st), st, s)

    def s_ClassDef(self, s, st):
        m = self.fr().module
        c = Class(m, s, s.name)
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                f = Func(m, b, f"{m.name}.{s.name}.{b.name}", cls=c)
                c.members[b.name] = ("func", f)
                self.register(f)
        name = f"{m.name}.{s.name}"
        self.dyn_classes[name] = c
        self.set_name(s.name, raw("class", name), st, s)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.do_return(v, st, s)
        return st

    def do_return(self, v, st, s):
        f = self.fr()
        self.emit("return", st, s, value=v, name=f.func.qual if f.func else "")
        if self.loop_frame(f):
            # return out of a loop: remembered on the innermost loop of this frame
            ctl = f.loopctl[-1]
            ctl["returns"].append((st.live, v, st.copy()))
            st.live = FALSE
            return
        self.add_return(f, st.live, v, st)
        st.live = FALSE

    def loop_frame(self, f):
        return bool(f.loopctl)

    def add_return(self, f, g, v, st):
        if f.ret is None:
            f.ret, f.retguard = v, g
            f.retstate = st.copy()
            f.retstate.live = g
        else:
            f.ret = ite(g, v, f.ret)
            s2 = st.copy()
            s2.live = g
            f.retstate = self.join(g, s2, f.retstate)
            f.retguard = b_or(f.retguard, g)

    def s_Raise(self, s, st):
        f = self.fr()
        exc = self.ev(s.exc, st) if s.exc is not None else sym("reraise")
        self.emit("raise", st, s, value=exc)
        f.raises.append([st.live, exc, self.where(s), st.copy()])
        st.live = FALSE
        return st

    def s_Assert(self, s, st):
        c = self.cond(self.ev(s.test, st), st)
        if c is TRUE:
            return st
        a, b = self.fork(st, c)
        self.emit("raise", b, s, value=raw("call", BI("AssertionError"), (), ()))
        self.fr().raises.append([b.live, raw("call", BI("AssertionError"), (), ()), self.where(s), b])
        return a

    # ------------------------------------------------------------ branches
    def s_If(self, s, st):
        c = self.cond(self.ev(s.test, st), st)
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        a, b = self.fork(st, c)
        a = self.block(s.body, a)
        b = self.block(s.orelse, b)
        return self.join(c, a, b)

    def s_Match(self, s, st):
        subj = self.ev(s.subject, st)
        rest = st
        outs = []
        for case in s.cases:
            c = self.pattern(case.pattern, subj, rest)
            if case.guard is not None:
                c = b_and(c, self.cond(self.ev(case.guard, rest), rest))
            c = self.cond(c, rest)
            if c is TRUE:
                outs.append((TRUE, self.block(case.body, rest)))
                rest = None
                break
            if c is FALSE:
                continue
            a, rest = self.fork(rest, c)
            outs.append((c, self.block(case.body, a)))
        cur = rest
        for c, o in reversed(outs):
            cur = o if cur is None else self.join(c, o, cur)
        return cur

    def pattern(self, p, subj, st):
        if isinstance(p, ast.MatchValue):
            return T.eq(strip(top(subj)), strip(self.ev(p.value, st)))
        if isinstance(p, ast.MatchSingleton):
            return T.eq(strip(subj), const(p.value))
        if isinstance(p, ast.MatchOr):
            return b_or(*[self.pattern(q, subj, st) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            if p.name:
                self.set_name(p.name, subj, st, p)
            return TRUE if p.pattern is None else self.pattern(p.pattern, subj, st)
        return raw("batom", "match", self.uid())

    # ------------------------------------------------------------ with
    def s_With(self, s, st):
        return self.with_items(s.items, s.body, st, s)

    def with_items(self, items, body, st, s):
        if not items:
            return self.block(body, st)
        it = items[0]
        fun = None
        if isinstance(it.context_expr, ast.Call):
            ft = self.ev(it.context_expr.func, st)
            f, selfarg = self.as_func(ft)
            if f is not None and f.is_ctx:
                return self.with_gen(f, selfarg, it, items, body, st, s)
        v = self.ev(it.context_expr, st)
        e = self.emit("with", st, s, value=v)
        if it.optional_vars is not None:
            u = top(v)
            self.assign(it.optional_vars, v if u.op != "call" else raw("entered", strip(u)), st, s)
        st = self.with_items(items[1:], body, st, s)
        self.emit("endwith", st, s, value=v)
        return st

    def with_gen(self, f, selfarg, it, items, body, st, s):
        call = it.context_expr
        args, kwargs, _ = self.ev_args(call, st)
        if selfarg is not None:
            args = [selfarg] + args
        outer = self.fr()
        nst = {}

        def on_yield(v, st2):
            # run the with body in the caller's frame
            inner = self.stack.pop()
            try:
                saved_live = st2.live
                outer_base = outer.base
                outer.excs_saved = None
                # live of generator is relative to its start; combine with the caller's
                g0 = nst["live"]
                st2.live = b_and(g0, saved_live)
                inner_excs = list(inner.excs)
                outer.excs.extend(inner_excs)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, st2, s)
                r0 = (outer.ret, outer.retguard, outer.retstate)
                nr = len(outer.raises)
                outer.ret, outer.retguard, outer.retstate = None, FALSE, None
                st2 = self.with_items(items[1:], body, st2, s)
                if inner_excs:
                    del outer.excs[-len(inner_excs):]
                nst["ret"] = (outer.ret, outer.retguard, outer.retstate)
                outer.ret, outer.retguard, outer.retstate = r0
                # explicit raises of the body surface at the yield
                new = outer.raises[nr:]
                del outer.raises[nr:]
                for r in new:
                    inner.raises.append([r[0], r[1], r[2], r[3]])
                nst["out"] = st2.live
                ctl = outer.loopctl[-1]["returns"] if outer.loopctl else None
                # paths that returned from the with body still run the generator's exit code
                st2.live = saved_live
                return st2
            finally:
                self.stack.append(inner)
        nst["live"] = st.live
        nst["out"] = st.live
        nst["ret"] = (None, FALSE, None)
        entry_live = st.live
        self.invoke(f, args, kwargs, st, s, on_yield=on_yield)
        # st now carries the heap after the generator's exit code
        ret, rg, rs = nst["ret"]
        if ret is not None and rg is not FALSE:
            f0 = self.fr()
            stx = st.copy()
            stx.live = rg
            if f0.loopctl:
                f0.loopctl[-1]["returns"].append((rg, ret, stx))
            else:
                self.add_return(f0, rg, ret, stx)
        st.live = b_and(nst["out"], st.live) if st.live is not entry_live else nst["out"]
        return st

    # ------------------------------------------------------------ try
    def can_raise(self, body):
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Import, ast.ImportFrom, ast.For, ast.With, ast.Compare)):
                    return True
        return False

    def handler_names(self, h):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split(".")[-1] for t in ts]

    def lookup_exc(self, s, st):
        """condition under which the single lookup of a try body fails (when that is all the body does)"""
        if len(s.body) != 1:
            return None
        b = s.body[0]
        v = getattr(b, "value", None)
        if not isinstance(b, (ast.Assign, ast.Return, ast.Expr)) or v is None:
            return None
        if isinstance(b, ast.Assign) and not all(isinstance(t, ast.Name) for t in b.targets):
            return None
        names = set(n for h in s.handlers for n in self.handler_names(h))
        # peel conversions str(d[k]), int(d[k])
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("str",) and len(v.args) == 1:
            v = v.args[0]
        if isinstance(b, ast.Expr) and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "append" \
                and isinstance(v.func.value, ast.Name) and len(v.args) == 1 and not v.keywords:
            v = v.args[0]
        simple = lambda n: not any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp)) for x in ast.walk(n))
        if isinstance(v, ast.Subscript) and simple(v.value) and simple(v.slice) and not isinstance(v.slice, ast.Slice) \
                and names & {"KeyError", "LookupError"}:
            base, idx = self.ev(v.value, st), self.ev_index(v.slice, st)
            return b_not(self.has_item(st, base, strip(idx)))
        if isinstance(v, ast.Attribute) and simple(v.value) and names & {"AttributeError"}:
            return b_not(self.has_attr(st, self.ev(v.value, st), v.attr))
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "index" and len(v.args) == 1 \
                and names & {"ValueError"}:
            seq = v.func.value
            if isinstance(seq, ast.Call) and isinstance(seq.func, ast.Name) and seq.func.id in ("list", "tuple") and len(seq.args) == 1 and not seq.keywords:
                seq = seq.args[0]
            if not simple(seq) or not simple(v.args[0]):
                return None
            base, idx = self.ev(seq, st), self.ev(v.args[0], st)
            return b_not(self.has_item(st, base, strip(idx)))
        return None

    def s_Try(self, s, st):
        if s.finalbody:
            return self.try_finally(s, st)
        return self.try_except(s, st)

    s_TryStar = s_Try

    def try_finally(self, s, st):
        f = self.fr()
        entry = st.copy()
        r0 = (f.ret, f.retguard, f.retstate)
        nr = len(f.raises)
        f.ret, f.retguard, f.retstate = None, FALSE, None
        nret = len(f.loopctl[-1]["returns"]) if f.loopctl else 0
        E = None
        catchall = any(self.catches_all(h) for h in s.handlers)
        if (self.can_raise(s.body) or s.handlers) and not catchall:
            E = raw("exc", "fin", self.excid(s), *self.iteration())
        if E is not None:
            f.excs.append(E)
        if s.handlers:
            st = self.try_except(s, st)
        else:
            st = self.block(s.body, st)
            st = self.block(s.orelse, st)
        if E is not None:
            f.excs.pop()
        post = st.copy()
        got = (f.ret, f.retguard, f.retstate)
        f.ret, f.retguard, f.retstate = r0
        raised = f.raises[nr:]
        del f.raises[nr:]
        # normal completion
        if st.live is not FALSE:
            st = self.block(s.finalbody, st)
        # returned
        if got[0] is not None and got[1] is not FALSE:
            rs = got[2]
            rs.live = got[1]
            rs = self.block(s.finalbody, rs)
            if rs.live is not FALSE:
                self.add_return(f, rs.live, got[0], rs)
        if f.loopctl:
            rets = f.loopctl[-1]["returns"]
            for j in range(nret, len(rets)):
                g, v, rs = rets[j]
                rs.live = g
                rs = self.block(s.finalbody, rs)
                rets[j] = (g, v, rs)
        # explicit raises
        for r in raised:
            rs = r[3]
            rs.live = r[0]
            rs = self.block(s.finalbody, rs)
            f.raises.append([r[0], r[1], r[2], rs])
        # implicit exceptions anywhere in the body
        if E is not None:
            xs = self.partial(entry, post, E)
            xs.live = b_and(entry.live, E)
            xs = self.block(s.finalbody, xs)
            f.raises.append([b_and(entry.live, E), sym("implicit"), self.where(s), xs])
        return st

    def catches_all(self, h):
        """ordinary failures of the body end in this handler (handlers themselves are taken not to fail implicitly)"""
        if h.type is None:
            return True
        return any(n in ("Exception", "BaseException") for n in self.handler_names(h))

    def partial(self, pre, post, E):
        vals = dict(pre.vals)
        for k, v in post.vals.items():
            if vals.get(k) is not v:
                pv = vals.get(k)
                if pv is None:
                    pv = self.default_of(k)
                if pv is not v:
                    vals[k] = raw("partialval", E, pv, v)
        return St(vals, pre.live)

    def try_except(self, s, st):
        f = self.fr()
        if not s.handlers:
            st = self.block(s.body, st)
            return self.block(s.orelse, st)
        entry = st.copy()
        look = self.lookup_exc(s, st)
        nr = len(f.raises)
        if look is not None:
            E = look
        elif self.can_raise(s.body):
            E = raw("exc", tuple(sorted(set(n for h in s.handlers for n in self.handler_names(h)))), self.excid(s), *self.iteration())
        else:
            E = None
        exact = look is not None
        if E is not None and not exact:
            f.excs.append(E)
            r0 = (f.ret, f.retguard, f.retstate)
            f.ret, f.retguard, f.retstate = None, FALSE, None
            rets = f.loopctl[-1]["returns"] if self.loop_frame(f) else None
            nret = len(rets) if rets is not None else 0
        if exact:
            # body runs only where the lookup succeeds
            c = self.cond(E, st)
            if c is TRUE:
                body = st.copy()
                body.live = FALSE
            else:
                body, _ = self.fork(st, b_not(c))
                body = self.block(s.body, body)
            E = c
        else:
            body = self.block(s.body, st)
        if E is not None and not exact:
            f.excs.pop()
        raised = f.raises[nr:]
        del f.raises[nr:]
        normal = body
        post = body.copy()
        # returns inside the body hold only where no exception occurred
        if E is not None and not exact:
            normal.live = b_and(normal.live, b_not(E))
            got = (f.ret, f.retguard, f.retstate)
            f.ret, f.retguard, f.retstate = r0
            if got[0] is not None and b_and(got[1], b_not(E)) is not FALSE:
                self.add_return(f, b_and(got[1], b_not(E)), got[0], got[2])
            for j in range(nret, len(rets) if rets is not None else 0):
                g, v, rs = rets[j]
                rets[j] = (b_and(g, b_not(E)), v, rs)
        normal = self.block(s.orelse, normal)
        outs = []
        rest = FALSE
        if E is not None and E is not FALSE:
            rest = b_and(entry.live, E)
        pend = []   # (guard, state, exc)
        if rest is not FALSE:
            hs = entry.copy() if exact or (len(s.body) == 1 and not isinstance(s.body[0], (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.Expr))
                                           and not self.heap_changed(entry, post)) else self.partial(entry, post, E)
            pend.append((rest, hs, None))
        for r in raised:
            pend.append((r[0], r[3], r[1], r[2]))
        result = normal
        for p in pend:
            g, hs, exc = p[0], p[1], p[2]
            remaining = g
            name = None
            if exc is not None:
                name = self.exc_name(exc)
            for h in s.handlers:
                hn = self.handler_names(h)
                if exc is not None and name:
                    anc = exc_ancestors(name)
                    m = TRUE if any(x in anc for x in hn) else FALSE
                elif "BaseException" in hn:
                    m = TRUE
                elif exact:
                    m = TRUE
                else:
                    m = raw("exctype", E if E is not None else sym("explicit"), tuple(sorted(hn)))
                hg = b_and(remaining, m)
                if hg is FALSE:
                    continue
                h_st = hs.copy()
                h_st.live = hg
                if h.name:
                    st_exc = exc if exc is not None else raw("caught", E, tuple(sorted(hn)))
                    h_st.vals[(f.id, h.name)] = st_exc
                    f.locals.add(h.name)
                h_st = self.block(h.body, h_st)
                result = self.join(hg, h_st, result)
                remaining = b_and(remaining, b_not(m))
                if remaining is FALSE:
                    break
            if remaining is not FALSE:
                xs = hs.copy()
                xs.live = remaining
                f.raises.append([remaining, exc if exc is not None else sym("implicit"), self.where(s), xs])
        return result

    def heap_changed(self, a, b):
        for k, v in b.vals.items():
            if not isinstance(k[0], int) and a.vals.get(k) is not v:
                return True
        return False

    def excid(self, s):
        """number of a try statement (in its calling context), in order of appearance"""
        key = (s,) + tuple(fr.site for fr in self.stack[1:])
        return self.excids.setdefault(key, len(self.excids) + 1)

    def iteration(self):
        """the enclosing loop iterations: a failure in one iteration is not a failure in another"""
        return tuple(raw("itervar", sp, i) for i, (sp, tag) in enumerate(self.loops))

    def exc_name(self, exc):
        e = top(exc)
        if e.op == "call":
            e = e.args[0]
        if e.op == "sym" and e.args[0] in ("builtin", "ext"):
            return e.args[1].split(".")[-1]
        return None
