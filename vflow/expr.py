"""Transfer functions for expressions."""

import ast

from . import terms as T
from .terms import TRUE, FALSE, NONE, ONE, ZERO, raw, const, sym, ite, b_and, b_or, b_not, truth, is_const, cval, is_num
from .flow import St, Frame, strip, top, UNBOUND, EXT, BI
from .loader import Func, Class, BUILTINS


nary = T.nary


def invert(x):
    if x.op == "phi":
        return ite(x.args[0], invert(x.args[1]), invert(x.args[2]))
    if T.is_bool(x):
        return b_not(x)
    if x.op == "inv":
        return x.args[0]
    if x.op == "bitand":
        return nary("bitor", *[invert(a) for a in x.args])
    if x.op == "bitor":
        return nary("bitand", *[invert(a) for a in x.args])
    return raw("inv", x)


def as_seq(x):
    x = top(x)
    if x.op == "arr":
        x = x.args[0]
    return x


def shiftcat(op, parts):
    """flatten nested concatenations; pull out a common sign"""
    out = []
    for p in parts:
        out += list(p.args) if p.op == op else [p]
    if len(out) == 1:
        return out[0]
    # sign normal form: -cat(a,b) == cat(-a,-b)
    return raw(op, *out)


class ExprMixin:
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return raw("unknown", type(n).__name__, self.uid())
        r = m(n, st)
        if r.id not in self.origin_ids:
            self.origin_ids.add(r.id)
            self.origin[strip(r) if r.op == "new" else r] = self.where(n)
        return r

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        return self.get_name(n.id, st, n)

    def get_name(self, name, st, node=None):
        f = self.fr()
        if name not in f.globals:
            v = st.vals.get((f.id, name))
            if v is not None and name not in f.nonlocals:
                return v
            for fid, names in f.scope:
                if name in names:
                    v = st.vals.get((fid, name))
                    return v if v is not None else UNBOUND
            if name in f.locals and name not in f.nonlocals:
                return UNBOUND
        mod = raw("module", f.module.name)
        v = st.vals.get((mod, name))
        if v is not None:
            return v
        b = self.prog.lookup(f.module, name)
        if b is not None:
            return self.binding(b, f.module, name, st)
        if name in BUILTINS:
            if name in ("True", "False", "None"):
                return const({"True": True, "False": False, "None": None}[name])
            return BI(name)
        if self.is_global_var(f.module, name):
            return raw("attr", mod, name)
        self.unresolved.append((name, self.where(node) if node is not None else "?"))
        return sym("unresolved", name)

    def is_global_var(self, m, name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global) and name in n.names:
                return True
        return False

    def binding(self, b, module, name, st):
        if b is None:
            return sym("missing", module.name if module else "?", name)
        if b[0] == "func":
            self.register(b[1])
            decs = [d for d in b[1].decorators if d.split("(")[0].split(".")[-1] not in
                    ("njit", "jit", "property", "classmethod", "staticmethod", "contextmanager", "wraps", "lru_cache", "cache", "vectorize")]
            if decs:
                return self.decorated(b[1], st)
            return raw("func", b[1].qual)
        if b[0] == "class":
            return raw("class", f"{b[1].module.name}.{b[1].name}")
        if b[0] == "ext":
            return EXT(b[1])
        if b[0] == "mod":
            return raw("module", b[1])
        if b[0] == "missing":
            return sym("missing", b[1], b[2])
        if b[0] == "expr":
            return self.module_expr(b[1], b[2], name)
        return sym("global", module.name, name)

    def decorated(self, f, st):
        t = raw("func", f.qual)
        for d in reversed(getattr(f.node, "decorator_list", [])):
            nm = ast.unparse(d).split("(")[0].split(".")[-1]
            if nm in ("njit", "jit", "property", "classmethod", "staticmethod", "contextmanager", "lru_cache", "cache"):
                continue
            fr = Frame(f, f.module, [], TRUE, self)
            self.stack.append(fr)
            try:
                dt = self.ev(d, st)
                g, _ = self.as_func(dt)
                if g is not None:
                    t = self.call_func(g, [t], [], st, d)
            finally:
                self.stack.pop()
        return t

    def module_expr(self, node, m, name):
        key = (m.name, name)
        memo = self.__dict__.setdefault("_modexpr", {})
        if key in memo:
            return memo[key]
        memo[key] = sym("global", m.name, name)
        ok = all(isinstance(x, (ast.Constant, ast.Name, ast.Attribute, ast.Tuple, ast.List, ast.Dict, ast.Load, ast.Call, ast.keyword,
                                ast.Lambda, ast.arguments, ast.arg, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context,
                                ast.Subscript, ast.Compare, ast.cmpop, ast.IfExp, ast.BoolOp, ast.boolop, ast.Set, ast.Slice, ast.Starred))
                 for x in ast.walk(node))
        if ok:
            f = Func(m, node, f"{m.name}.<module>")
            fr = Frame(f, m, [], TRUE, self)
            self.stack.append(fr)
            self.muted += 1
            try:
                v = self.ev(node, St({}))
                if v.op == "new":
                    v = v.args[1]
                memo[key] = v
            finally:
                self.muted -= 1
                self.stack.pop()
        return memo[key]

    def e_Attribute(self, n, st):
        base = self.ev(n.value, st)
        return self.get_attr(st, base, n.attr, n)

    def e_Subscript(self, n, st):
        base = self.ev(n.value, st)
        idx = self.ev_index(n.slice, st)
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "globals" and is_const(idx):
            return self.get_attr(st, raw("module", self.fr().module.name), cval(idx))
        return self.get_item(st, base, idx)

    def ev_index(self, n, st):
        if isinstance(n, ast.Slice):
            return self.e_Slice(n, st)
        if isinstance(n, ast.Tuple):
            xs = [self.ev_index(e, st) for e in n.elts]
            return T.trim(raw("tuple", *[strip(x) for x in xs]))
        return self.ev(n, st)

    def e_Slice(self, n, st):
        a = [strip(self.ev(x, st)) if x is not None else NONE for x in (n.lower, n.upper, n.step)]
        if a[0] is ZERO:
            a[0] = NONE
        if a[2] is ONE:
            a[2] = NONE
        return raw("slice", *a)

    def e_Starred(self, n, st):
        return raw("star", self.ev(n.value, st))

    def expand(self, elts, st):
        out = []
        for e in elts:
            v = self.ev(e, st)
            if v.op == "star":
                u = top(v.args[0])
                if u.op in ("tuple", "list"):
                    out += list(u.args)
                    continue
                k = self.known_length(strip(u), st.live)
                if k is not None and k <= 4:
                    out += [T.index(u, const(i)) for i in range(k)]
                    continue
            out.append(v)
        return out

    def known_length(self, x, live):
        """the number of elements of x, if the way to this point fixes it"""
        def size(u):
            return ite(u.args[0], size(u.args[1]), size(u.args[2])) if u.op == "phi" else raw("call", BI("len"), (u,), ())
        if any(u.op == "call" and u.args[0] is BI("len") for u in T.subterms(live)):
            for k in range(1, 5):
                if b_and(live, b_not(T.eq(size(x), const(k)))) is FALSE:
                    return k

    def e_Tuple(self, n, st):
        return raw("tuple", *self.expand(n.elts, st))

    def e_List(self, n, st):
        return self.new(raw("list", *self.expand(n.elts, st)), "list")

    def e_Set(self, n, st):
        return self.new(raw("set", *sorted((strip(x) for x in self.expand(n.elts, st)), key=lambda t: t.id)), "set")

    def e_Dict(self, n, st):
        items, acc = [], None

        def flush():
            d = raw("dict", *[(a, strip(b)) for a, b in items])
            return d if acc is None else T.updated(acc, d)
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(v, st)
                d = top(x)
                ch = [(q[1][1], w) for q, w in st.vals.items() if q[0] is x and isinstance(q[1], tuple) and q[1][0] == "item"]
                if d.op == "dict":
                    for a, b in list(d.args) + ch:
                        items = [(p, q) for p, q in items if p is not a]
                        items.append((a, b))
                else:
                    acc = T.updated(flush(), strip(d))
                    items = [(a, b) for a, b in ch]
            else:
                kk = strip(self.ev(k, st))
                vv = self.ev(v, st)
                items = [(a, b) for a, b in items if a is not kk]
                items.append((kk, vv))
        return self.new(raw("dict", *items) if acc is None else flush(), "dict")

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
                continue
            p = strip(self.ev(v.value, st))
            if v.conversion not in (-1, 115) or v.format_spec is not None:
                spec = strip(self.ev(v.format_spec, st)) if v.format_spec is not None else NONE
                p = raw("fmt", const("{!%s}" % chr(v.conversion) if v.conversion > 0 else "{}"), spec, p)
            parts.append(p)
        return T.text(parts)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Lambda(self, n, st):
        return self.make_closure(n, st)

    def e_IfExp(self, n, st):
        c = self.cond(self.ev(n.test, st), st)
        if c is TRUE:
            return self.ev(n.body, st)
        if c is FALSE:
            return self.ev(n.orelse, st)
        a, b = self.fork(st, c)
        x = self.ev(n.body, a)
        y = self.ev(n.orelse, b)
        self.absorb(c, a, b, st)
        return ite(c, x, y)

    def absorb(self, c, a, b, st):
        j = self.join(c, a, b)
        live = st.live
        st.vals = j.vals
        st.live = b_or(a.live, b.live)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], st)
        for e in n.values[1:]:
            c = self.cond(v, st)
            if c is TRUE:
                v = self.ev(e, st) if isand else v
                if not isand:
                    return v
                continue
            if c is FALSE:
                if isand:
                    return v
                v = self.ev(e, st)
                continue
            a, b = self.fork(st, c)
            if isand:
                w = self.ev(e, a)
                self.absorb(c, a, b, st)
                if T.is_bool(top(v)) or T.is_bool(strip(w)):
                    v = b_and(c, truth(strip(w)))
                else:
                    v = ite(c, w, v)
            else:
                w = self.ev(e, b)
                self.absorb(c, a, b, st)
                if T.is_bool(strip(v)):
                    v = ite(c, TRUE, w)
                else:
                    v = ite(c, v, w)
        return v

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return b_not(truth(strip(v)))
        v = strip(v)
        if isinstance(n.op, ast.USub):
            if is_const(v) and isinstance(cval(v), (int, float)):
                return const(-cval(v))
            return self.negate(v)
        if isinstance(n.op, ast.UAdd):
            return v
        return invert(v)

    def negate(self, v):
        if v.op in ("hcat", "vcat"):
            return raw(v.op, *[self.negate(a) for a in v.args])
        if v.op == "arr":
            u = v.args[0]
            if u.op == "list":
                return raw("arr", raw("list", *[self.negate(a) for a in u.args]))
        if v.op == "sub" and False:
            pass
        return T.neg(v)

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        return self.binop(n.op, a, b, st, n)

    def binop(self, op, a, b, st, n):
        seq = any(x.op == "new" and x.args[0][0] in ("list", "tuple") for x in (a, b))
        a, b = strip(a), strip(b)
        if isinstance(op, ast.Add):
            if seq and not T.is_listy(a) and not T.is_listy(b) and a.op != "phi" and b.op != "phi":
                return T.joinseq(a, b)
            return T.add(a, b)
        if isinstance(op, ast.Sub):
            return T.sub_(a, b)
        if isinstance(op, ast.Mult):
            return T.mul(a, b)
        if isinstance(op, ast.Div):
            return T.div(a, b)
        if isinstance(op, ast.Pow):
            return T.power(a, b)
        if isinstance(op, ast.MatMult):
            return T.matmul(a, b)
        if isinstance(op, ast.BitOr):
            if T.is_bool(a) and T.is_bool(b):
                return b_or(a, b)
            if b is FALSE:
                return raw("bitor", a) if not T.is_bool(a) else a
            return nary("bitor", a, b)
        if isinstance(op, ast.BitAnd):
            if T.is_bool(a) and T.is_bool(b):
                return b_and(a, b)
            if T.is_bool(a) or T.is_bool(b):
                return b_and(truth(a), truth(b))
            return nary("bitand", a, b)
        if isinstance(op, ast.Mod):
            if is_const(a) and isinstance(cval(a), str):
                args = list(b.args) if b.op == "tuple" else [b]
                return T.fmt(a, args) or raw("fmt", a, *args)
            if is_num(a) and is_num(b) and cval(b):
                return const(cval(a) % cval(b))
            return raw("modulo", a, b)
        if isinstance(op, ast.FloorDiv):
            if is_num(a) and is_num(b) and cval(b):
                return const(cval(a) // cval(b))
            return raw("floordiv", a, b)
        return raw(type(op).__name__.lower(), a, b)

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        res = TRUE
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, st)
            res = b_and(res, self.compare(op, left, right, st, c))
            left = right
        return res

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, b, a)
            return r if isinstance(op, ast.In) else b_not(r)
        x, y = strip(a), strip(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if y is NONE:
                r = self.is_none(a)
            elif x is NONE:
                r = self.is_none(b)
            elif y in (TRUE, FALSE) or x in (TRUE, FALSE):
                r = T.lift2(lambda p, q: TRUE if p is q else (FALSE if is_const(p) and is_const(q) else raw("same", *sorted((p, q), key=lambda t: t.id))), x, y)
            elif a is b:
                r = TRUE
            else:
                r = raw("same", *sorted((x, y), key=lambda t: t.id))
            return r if isinstance(op, ast.Is) else b_not(r)
        if isinstance(op, ast.Eq):
            return T.eq(x, y)
        if isinstance(op, ast.NotEq):
            return b_not(T.eq(x, y))
        if isinstance(op, ast.Gt):
            return T.gt(x, y)
        if isinstance(op, ast.Lt):
            return T.gt(y, x)
        if isinstance(op, ast.GtE):
            return T.ge(x, y)
        if isinstance(op, ast.LtE):
            return T.ge(y, x)
        return raw("batom", type(op).__name__, x, y)

    def is_none(self, a):
        if a.op == "phi":
            return ite(a.args[0], self.is_none(a.args[1]), self.is_none(a.args[2]))
        return T.isnone(a if a.op == "new" else strip(a))

    def contains(self, st, coll, x):
        if coll.op == "phi":
            return ite(coll.args[0], self.contains(st, coll.args[1], x), self.contains(st, coll.args[2], x))
        c = top(coll)
        i = strip(x)
        if c.op == "call" and c.args[0] is BI("globals") and is_const(i):
            return self.has_attr(st, raw("module", self.fr().module.name), cval(i))
        if c.op == "call" and c.args[0].op == "attr" and c.args[0].args[1] == "keys" and not c.args[1]:
            obj = c.args[0].args[0]
            return self.has_item(st, obj, i)
        if c.op == "keysof":
            return self.has_item(st, c.args[0], i)
        if c.op == "call" and c.args[0] in (BI("list"), BI("tuple"), BI("set")) and len(c.args[1]) == 1:
            return self.contains(st, c.args[1][0], x)
        if i.op == "phi":
            return ite(i.args[0], self.contains(st, coll, i.args[1]), self.contains(st, coll, i.args[2]))
        if c.op == "set":
            c = raw("tuple", *c.args)
            return self.has_item(st, c, i)
        return self.has_item(st, coll, i)

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, n, st):
        parts = self.comprehension(n.generators, lambda s: (self.ev(n.elt, s),), st, n)
        return self.new(self.comp_term(parts), "list")

    def e_GeneratorExp(self, n, st):
        parts = self.comprehension(n.generators, lambda s: (self.ev(n.elt, s),), st, n)
        return self.comp_term(parts)

    def e_SetComp(self, n, st):
        parts = self.comprehension(n.generators, lambda s: (self.ev(n.elt, s),), st, n)
        return raw("call", BI("set"), (strip(self.comp_term(parts)),), ())

    def e_DictComp(self, n, st):
        parts = self.comprehension(n.generators, lambda s: (raw("tuple", self.ev(n.key, s), self.ev(n.value, s)),), st, n)
        return self.new(self.dict_of(self.comp_term(parts)), "dict")

    def dict_of(self, seq):
        """dict built from a sequence of pairs"""
        s = top(seq)
        if s.op in ("list", "tuple"):
            items = []
            for e in s.args:
                u = top(e)
                if u.op in ("tuple", "list") and len(u.args) == 2:
                    k = strip(u.args[0])
                    items = [(a, b) for a, b in items if a is not k]
                    items.append((k, u.args[1]))
                else:
                    return raw("call", BI("dict"), (strip(s),), ())
            return raw("dict", *items)
        if s.op == "comp" and s.args[1].op == "tuple" and len(s.args[1].args) == 2:
            return raw("dictcomp", s.args[0], s.args[1].args[0], s.args[1].args[1], s.args[2], s.args[3])
        return raw("call", BI("dict"), (strip(s),), ())

    def e_Yield(self, n, st):
        return raw("unknown", "yield", self.uid())

    def e_Await(self, n, st):
        return self.ev(n.value, st)
