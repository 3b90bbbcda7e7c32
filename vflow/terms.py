"""Hash-consed value terms and their normal forms (the Herbrand domain of the value-flow analysis).

Terms stand for the values a program computes.  The smart constructors below keep
 * booleans / gated values as ordered decision diagrams (`phi` nodes; canonical for equal gating),
 * sums and elementwise products as (commutative) polynomials,
 * matrix products as flattened non-commutative products distributed over sums,
so that two computations that are equal by these laws are the same term.
"""

import re
import string
from fractions import Fraction

_tab = {}


class T:
    __slots__ = ("op", "args", "id", "cache")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id


def raw(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.id, t.cache = op, args, len(_tab) + 1, None
        _tab[key] = t
    return t


def const(v):
    return raw("const", type(v).__name__, v)


TRUE, FALSE, NONE, ONE, ZERO = const(True), const(False), const(None), const(1), const(0)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


def is_num(t):
    return t.op == "const" and t.args[0] in ("int", "float")


def sym(*name):
    return raw("sym", *name)


# ---------------------------------------------------------------- gated values

BOOL_ATOMS = {"gt0", "eq", "isnone", "in", "truth", "isinstance", "hasattr", "batom", "iter", "exc", "returned",
              "left", "partial", "exctype", "same", "anyof", "allof"}


def is_bool(t):
    if t.op in BOOL_ATOMS:
        return True
    if t.op == "const":
        return t.args[0] == "bool"
    if t.op == "phi":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


_ite = {}


def _top(t):
    return t.args[0].id if t.op == "phi" else (t.id if t.op in BOOL_ATOMS else None)


def _cof(t, a):
    """cofactors of t w.r.t. atom a"""
    if t.op == "phi" and t.args[0] is a:
        return t.args[1], t.args[2]
    if t is a:
        return TRUE, FALSE
    return t, t


def _mkphi(a, x, y):
    if x is y:
        return x
    if x is TRUE and y is FALSE:
        return a
    if a.op == "isnone" and x is a.args[0]:
        x = NONE
        if x is y:
            return x
    if a.op == "truth" and isabs(a.args[0]) is x and y.op == "call" and y.args[0] is JOIN and y.args[1] and y.args[1][-1] is x:
        return y                # joining an absolute path to a folder gives that path
    return raw("phi", a, x, y)


def varying(t):
    """not a constant in any case"""
    return varying(t.args[1]) and varying(t.args[2]) if t.op == "phi" else not is_const(t)


def isabs(t):
    """the path that t asks whether it is absolute"""
    return t.args[1][0] if t.op == "call" and t.args[0] is ISABS and len(t.args[1]) == 1 else None


TEXTFUNCS = {"os.path." + x for x in "join basename dirname abspath normpath realpath expanduser".split()}


def is_text(t):
    """a str for sure"""
    return t.op in ("fstr", "fmt") or t.op == "const" and t.args[0] == "str" or t.op == "call" and t.args[0].op == "sym" \
        and (t.args[0].args == ("builtin", "str") or t.args[0].args[0] == "ext" and t.args[0].args[1] in TEXTFUNCS)


def ite(c, x, y):
    """value `x` where condition c holds, else `y`"""
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.op != "phi" and c.op not in BOOL_ATOMS:
        c = truth(c)
        return ite(c, x, y)
    key = (c.id, x.id, y.id)
    r = _ite.get(key)
    if r is not None:
        return r
    cands = [t for t in (c, x, y) if t.op == "phi" or t.op in BOOL_ATOMS]
    # only split value operands on their gating when they are gated (phi) or boolean atoms
    best = None
    for t in cands:
        a = t.args[0] if t.op == "phi" else t
        if best is None or a.id < best.id:
            best = a
    c1, c0 = _cof(c, best)
    x1, x0 = _cof(x, best)
    y1, y0 = _cof(y, best)
    r = _mkphi(best, ite(c1, x1, y1), ite(c0, x0, y0))
    _ite[key] = r
    return r


def b_not(c):
    return ite(truth(c), FALSE, TRUE)


def b_and(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, truth(c), FALSE)
    return r


def b_or(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, truth(c))
    return r


def truth(t):
    """truthiness of a value as a boolean term"""
    if is_bool(t):
        return t
    if t.op == "const":
        return const(bool(t.args[1]))
    if t.op in ("tuple", "list"):
        if not any(a.op == "star" for a in t.args):
            return const(len(t.args) > 0)
    if t.op in ("closure", "func", "class", "module"):
        return TRUE
    if t.op == "phi":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == "call" and t.args[0] is sym("builtin", "bool") and len(t.args[1]) == 1:
        return truth(t.args[1][0])
    if t.op == "new":
        return truth(t.args[1])
    if nonneg_int(t):
        return gt(t, ZERO)
    if t.op == "comp" and t.args[0].op == "range" and len(t.args[0].args) == 2:
        return nonempty_comp(t)
    return raw("truth", t)


def nonempty_comp(t):
    """a filtered list is not empty iff some element passes"""
    space, _, cnd, iv = t.args
    if cnd is FALSE:
        return FALSE
    ne = gt(space.args[1], space.args[0])
    if not contains(cnd, lambda u: u is iv):
        return b_and(ne, cnd)
    return raw("anyof", space, cnd, (), (), iv)


def atoms_of(t, acc=None):
    acc = set() if acc is None else acc
    seen = set()

    def rec(u):
        if u.id in seen:
            return
        seen.add(u.id)
        if u.op == "phi":
            acc.add(u.args[0])
            rec(u.args[1])
            rec(u.args[2])
        elif u.op in BOOL_ATOMS:
            acc.add(u)
    rec(t)
    return acc


def leaves(t):
    """(list of (atom, polarity), leaf) for every path of a gated value"""
    out = []

    def rec(u, path):
        if u.op == "phi":
            rec(u.args[1], path + [(u.args[0], True)])
            rec(u.args[2], path + [(u.args[0], False)])
        elif u.op in BOOL_ATOMS:
            out.append((path + [(u, True)], TRUE))
            out.append((path + [(u, False)], FALSE))
        else:
            out.append((path, u))
        if len(out) > 20000:
            raise TooBig()
    rec(t, [])
    return out


class TooBig(Exception):
    pass


def unary(p):
    """p == a * x + c with a single whole number x -> (x, a, c)"""
    d = _terms(p)
    xs = [k for k in d if k is not ONE]
    if len(xs) == 1 and is_int(xs[0]) and abs(d[xs[0]]) == 1 and isinstance(d.get(ONE, 0), int):
        return xs[0], d[xs[0]], d.get(ONE, 0)
    return None


def integers(pos):
    """bounds on whole numbers given by the literals can be met"""
    lo, hi, ne = {}, {}, {}
    for a, v in pos.items():
        if a.op == "gt0":
            u = unary(a.args[0])
        elif a.op == "eq" and not any(is_listy(x) or x.op in ("const",) and not is_num(x) for x in a.args):
            u = unary(sub_(*a.args)) if all(is_int(x) for x in a.args) else None
        else:
            continue
        if u is None:
            continue
        x, s, c = u
        if a.op == "eq":
            k = -c * s
            if v:
                lo[x], hi[x] = max(lo.get(x, k), k), min(hi.get(x, k), k)
            else:
                ne.setdefault(x, set()).add(k)
        elif (s > 0) == v:
            # x > -c   or not(-x + c > 0), i.e. x >= c
            k = -c + 1 if v else c
            lo[x] = max(lo.get(x, k), k)
        else:
            k = -c if not v else c - 1
            hi[x] = min(hi.get(x, k), k)
    for x in set(lo) | set(hi) | set(ne):
        l, h = lo.get(x), hi.get(x)
        if nonneg_int(x):
            b = cval(x.args[0].args[0]) if x.op == "itervar" and x.args[0].op == "range" else 0
            l = b if l is None else max(l, b)
        no = ne.get(x, ())
        while l is not None and l in no:
            l += 1
        while h is not None and h in no:
            h -= 1
        if l is not None and h is not None and l > h:
            return False
    return True


def consistent(path):
    """cheap theory check: can this conjunction of literals hold?"""
    pos = {}
    for a, v in path:
        if pos.get(a, v) != v:
            return False
        pos[a] = v
    eqs = {}
    for a, v in pos.items():
        if not v:
            continue
        if a.op == "eq":
            x, y = a.args
            if is_const(y):
                x, y = y, x
            if is_const(x):
                if y in eqs and eqs[y] is not x:
                    return False
                eqs[y] = x
        if a.op == "isnone":
            x = a.args[0]
            if pos.get(raw("truth", x)) is True:
                return False
            if x in eqs and eqs[x] is not NONE:
                return False
            for b, w in pos.items():
                if w and b.op == "isinstance" and b.args[0] is x:
                    return False
    for x, c in eqs.items():
        tr = pos.get(raw("truth", x))
        if tr is not None and tr != bool(cval(c)):
            return False
        if pos.get(raw("isnone", x)) is True and cval(c) is not None:
            return False
        for a, v in pos.items():
            if a.op == "in" and a.args[0] is x and a.args[1].op in ("tuple", "list") and all(map(is_const, a.args[1].args)):
                if (c in a.args[1].args) != v:
                    return False
    # p == c decides p - c > 0
    for a, v in pos.items():
        if a.op == "gt0":
            for x, c in eqs.items():
                if is_num(c) and not isinstance(cval(c), bool):
                    for q in (sub_(a.args[0], x), add(a.args[0], x)):
                        if is_num(q) and isinstance(cval(q), (int, float)):
                            val = cval(q) + (cval(c) if q is sub_(a.args[0], x) else -cval(c))
                            if (val > 0) != v:
                                return False
    # dates are whole numbers: one of p > 0, p == 0, p < 0 holds
    for a, v in pos.items():
        if not v and a.op == "gt0":
            p = a.args[0]
            if (is_int(p) or p.op == "attr" and p.args[1] == "date") and pos.get(raw("gt0", neg(p))) is False \
                    and (pos.get(eq(p, ZERO)) is False or pos.get(raw("truth", p)) is False):
                return False
    if not integers(pos):
        return False
    # linear comparisons p>0 and -p+c>0
    gts = [(a.args[0], v) for a, v in pos.items() if a.op == "gt0"]
    for i, (p, v) in enumerate(gts):
        for q, w in gts[i + 1:]:
            if v and w:
                s = add(p, q)
                if is_num(s) and cval(s) <= (1 if (is_int(p) and is_int(q)) else 0):
                    return False
            elif v != w:
                # p>0 and q<=0:  p - q > 0 ;  if p-q is a constant <= 0 contradiction
                a_, b_ = (p, q) if v else (q, p)
                s = sub_(a_, b_)
                if is_num(s) and cval(s) <= 0:
                    return False
            else:
                s = add(p, q)
                if is_num(s) and cval(s) > 0:
                    return False
    return True


def satisfiable(c):
    """some consistent assignment makes the boolean term true; returns the path or None"""
    c = truth(c)
    if c is FALSE:
        return None
    if c is TRUE:
        return []

    def rec(u, path):
        if u is FALSE:
            return None
        if u.op == "phi":
            for v, w in ((True, u.args[1]), (False, u.args[2])):
                p = path + [(u.args[0], v)]
                if consistent(p):
                    r = rec(w, p)
                    if r is not None:
                        return r
            return None
        if u.op in BOOL_ATOMS:
            p = path + [(u, True)]
            return p if consistent(p) else None
        return path
    return rec(c, [])


def implies(a, b):
    return satisfiable(b_and(a, b_not(b))) is None


def restrict(t, assign):
    """simplify a gated value under atom assignment {atom: bool}"""
    memo = {}

    def rec(u):
        r = memo.get(u.id)
        if r is not None:
            return r
        if u.op == "phi":
            v = assign.get(u.args[0])
            if v is None:
                r = ite(u.args[0], rec(u.args[1]), rec(u.args[2]))
            else:
                r = rec(u.args[1] if v else u.args[2])
        elif u in assign:
            r = const(assign[u])
        else:
            r = u
        memo[u.id] = r
        return r
    return rec(t)


# ---------------------------------------------------------------- arithmetic

LISTY = {"list", "tuple", "comp", "concat", "fstr", "fmt"}


def is_listy(t):
    if t.op in LISTY or is_text(t):
        return True
    if t.op == "const":
        return t.args[0] in ("str", "bytes")
    if t.op == "new":
        return is_listy(t.args[1])
    if t.op == "mod":
        return is_listy(t.args[0])
    if t.op == "attr":
        return t.args[1] in ("parameters", "variables", "equations", "shocks", "par_names")
    if t.op == "sub":
        return t.args[1].op == "const" and t.args[1].args[-1] in ("other_para", "fvars", "fvars_lagged", "perturb_eq", "re_errors_eq", "shk_ordering",
                                                                  "re_errors", "par_ordering", "var_ordering")
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("ljust", "rjust", "format", "join", "strip", "replace"):
        return True
    if t.op == "call" and t.args[0].op == "sym" and t.args[0].args in (("builtin", "str"), ("builtin", "list"), ("builtin", "sorted"), ("builtin", "repr")):
        return True
    if t.op == "phi":
        return is_listy(t.args[1]) or is_listy(t.args[2])
    return False


def _terms(t):
    """t as {monomial: coef}"""
    if t.op == "sum":
        return dict(t.args)
    if is_num(t):
        return {ONE: t.args[1]} if t.args[1] != 0 else {}
    if t is TRUE or t is FALSE:
        return {ONE: 1} if t is TRUE else {}
    if t.op == "mul" and is_num(t.args[0][0]):
        pass
    return {t: 1}


def _mksum(d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (k, v), = d.items()
        if k is ONE:
            return const(v)
        if v == 1:
            return k
    return raw("sum", *sorted(((k, v) for k, v in d.items()), key=lambda kv: kv[0].id))


def _lift(t):
    """gated operand -> gating to push out of arithmetic?"""
    return t.op == "phi"


def lift1(f, x):
    if x.op == "phi":
        return ite(x.args[0], lift1(f, x.args[1]), lift1(f, x.args[2]))
    return f(x)


def lift2(f, x, y):
    if x.op == "phi" or y.op == "phi":
        if x.op == "phi" and (y.op != "phi" or x.args[0].id <= y.args[0].id):
            a = x.args[0]
        else:
            a = y.args[0]
        x1, x0 = _cof(x, a)
        y1, y0 = _cof(y, a)
        return ite(a, lift2(f, x1, y1), lift2(f, x0, y0))
    return f(x, y)


def add(x, y):
    if x.op == "phi" or y.op == "phi":
        return lift2(add, x, y)
    if x.op == "const" and y.op == "const" and type(cval(x)) == type(cval(y)) == str:
        return const(cval(x) + cval(y))
    if is_listy(x) or is_listy(y):
        return concat(x, y)
    d = dict(_terms(x))
    for k, v in _terms(y).items():
        d[k] = d.get(k, 0) + v
    return _mksum(d)


def concat(x, y):
    """x + y of sequences"""
    if x.op == "phi" or y.op == "phi":
        return lift2(concat, x, y)
    parts = []
    if any(p.op == "fstr" or p.op == "const" and type(cval(p)) is str for p in joined(x) + joined(y)):
        return text(joined(x) + joined(y))
    for p in joined(x) + joined(y):
        q = parts[-1] if parts else None
        if p.op in ("list", "tuple") and not p.args and (is_listy(x) and is_listy(y)):
            parts.append(p) if not parts else None
        elif q is not None and p.op == q.op and p.op in ("tuple", "list"):
            parts[-1] = raw(p.op, *(q.args + p.args))
        elif q is not None and q.op in ("list", "tuple") and not q.args and (is_listy(x) and is_listy(y)):
            parts[-1] = p
        else:
            parts.append(p)
    out = parts[-1]
    for p in parts[-2::-1]:
        out = raw("concat", p, out)
    return out


def joinseq(x, y):
    return raw("concat", x, y) if "phi" in (x.op, y.op) else concat(x, y)


STR = sym("builtin", "str")
JOIN, ISABS = sym("ext", "os.path.join"), sym("ext", "os.path.isabs")
LEN = sym("builtin", "len")
DIRECTIVE = re.compile(r"%(%|[-#0 +]*\d*(?:\.\d+)?[a-zA-Z]|\()")


def text(parts):
    """a text made of pieces: literal parts merged, everything else as str() shows it"""
    out = []
    for p in parts:
        for q in (p.args if p.op == "fstr" else (p,)):
            if q.op == "call" and q.args[0] is STR and len(q.args[1]) == 1 and not q.args[2]:
                q = q.args[1][0]
            if is_const(q):
                q = const(str(cval(q)))
                if not cval(q):
                    continue
                if out and is_const(out[-1]):
                    out[-1] = const(cval(out[-1]) + cval(q))
                    continue
            out.append(q)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0] if is_const(out[0]) else raw("call", STR, (out[0],), ())
    return raw("fstr", *out)


def fmt(t, args):
    """'...' % args"""
    s, parts, args = cval(t), [], list(args)
    pos = 0
    for m in DIRECTIVE.finditer(s):
        parts.append(const(s[pos:m.start()]))
        pos = m.end()
        if m.group(1) == "%":
            parts.append(const("%"))
            continue
        if m.group(1) == "(" or not args or args[0].op == "star":
            return None
        a = args.pop(0)
        parts.append(a if m.group(1) == "s" else raw("fmt", const(m.group()), a))
    return None if args or "*" in s else text(parts + [const(s[pos:])])


def braces(t, args):
    """'...'.format(*args) with plain fields"""
    s, parts, k = cval(t), [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        parts.append(const(lit))
        if field is None:
            continue
        i = k if field == "" else int(field) if field.isdigit() else -1
        k += 1
        if spec or conv or not 0 <= i < len(args) or any(a.op == "star" for a in args[:i + 1]):
            return None
        parts.append(args[i])
    return text(parts)




def joined(x):
    """the parts of a concatenation, in order"""
    return joined(x.args[0]) + joined(x.args[1]) if x.op == "concat" else [x]


def neg(x):
    if x.op == "phi":
        return lift1(neg, x)
    return _mksum({k: -v for k, v in _terms(x).items()})


def sub_(x, y):
    return add(x, neg(y))


def mul(x, y):
    if x.op == "phi" or y.op == "phi":
        return lift2(mul, x, y)
    if is_listy(x) or is_listy(y):
        return remake("repeat", (x, y))
    d = {}
    for k1, v1 in _terms(x).items():
        for k2, v2 in _terms(y).items():
            k = _mulmono(k1, k2)
            d[k] = d.get(k, 0) + v1 * v2
    return _mksum(d)


def _factors(k):
    if k is ONE:
        return {}
    if k.op == "mul":
        return dict(k.args)
    return {k: 1}


def _mulmono(k1, k2):
    f = dict(_factors(k1))
    for b, e in _factors(k2).items():
        f[b] = f.get(b, 0) + e
    f = {b: e for b, e in f.items() if e != 0}
    if not f:
        return ONE
    if len(f) == 1:
        (b, e), = f.items()
        if e == 1:
            return b
    return raw("mul", *sorted(f.items(), key=lambda be: be[0].id))


def power(x, e):
    if x.op == "phi" or e.op == "phi":
        return lift2(power, x, e)
    if is_num(x) and is_num(e):
        try:
            return const(cval(x) ** cval(e))
        except Exception:
            pass
    if is_num(e) and float(cval(e)).is_integer():
        n = int(cval(e))
        if n == 1:
            return x
        if n == 0:
            return ONE
        if x.op == "mul":
            return raw("mul", *[(b, k * n) for b, k in x.args])
        if x.op == "sum" and len(x.args) == 1:
            (k, v), = x.args
            return mul(power(k, e), const(v ** n))
        if 0 < n <= 3 and x.op == "sum":
            r = x
            for _ in range(n - 1):
                r = mul(r, x)
            return r
        return raw("mul", (x, n))
    return raw("pow", x, e)


def div(x, y):
    if x.op == "phi" or y.op == "phi":
        return lift2(div, x, y)
    if is_num(y) and cval(y) != 0:
        if is_num(x):
            return const(cval(x) / cval(y))
        return mul(x, const(1 / cval(y)))
    if is_num(y):
        return raw("div", x, y)
    return mul(x, power(y, const(-1)))


def matmul(x, y):
    if x.op == "phi" or y.op == "phi":
        return lift2(matmul, x, y)
    d = {}
    for k1, v1 in _terms(x).items():
        for k2, v2 in _terms(y).items():
            if k1 is ONE or k2 is ONE:
                k = raw("mm", k1, k2)
            else:
                a = k1.args if k1.op == "mm" else (k1,)
                b = k2.args if k2.op == "mm" else (k2,)
                k = raw("mm", *(a + b))
            d[k] = d.get(k, 0) + v1 * v2
    return _mksum(d)


def transpose(x):
    if x.op == "phi":
        return lift1(transpose, x)
    if x.op == "sum":
        return _mksum({transpose(k): v for k, v in x.args})
    if x.op == "mm":
        return raw("mm", *[transpose(a) for a in reversed(x.args)])
    if x.op == "tr":
        return x.args[0]
    if is_num(x):
        return x
    if x.op == "hcat":
        return raw("vcat", *[transpose(a) for a in x.args])
    if x.op == "vcat":
        return raw("hcat", *[transpose(a) for a in x.args])
    if x.op == "sub" and x.args[1].op == "tuple" and len(x.args[1].args) == 2 and all(a.op == "slice" for a in x.args[1].args):
        a, b = x.args[1].args
        return index(transpose(x.args[0]), raw("tuple", b, a))
    return raw("tr", x)


def is_int(t):
    if t.op == "const":
        return t.args[0] == "int"
    if t.op == "itervar":
        return t.args[0].op == "range" or t.args[0].op == "enumidx"
    if t.op == "call" and t.args[0] is sym("builtin", "len"):
        return True
    if t.op == "call" and t.args[0] is sym("builtin", "int"):
        return True
    if masksum(t):
        return True
    if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "shape":
        return True
    if t.op == "sum":
        return all(isinstance(v, int) and is_int(k) for k, v in t.args)
    if t.op == "mul":
        return all(is_int(b) and e > 0 for b, e in t.args)
    return False


def masksum(t):
    """number of true entries of a boolean array"""
    return t.op == "call" and t.args[0] is sym("ext", "numpy.sum") and len(t.args[1]) == 1 and not t.args[2] and t.args[1][0].op in ("bitand", "bitor", "inv")


def nonneg_int(t):
    if masksum(t):
        return True
    if t.op == "itervar":
        r = t.args[0]
        if r.op == "range":
            a = r.args[0]
            return is_num(a) and cval(a) >= 0
        return r.op == "enumidx"
    if t.op == "call" and t.args[0] is sym("builtin", "len"):
        return True
    if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "shape":
        return True
    return False


def gt(x, y):
    """x > y"""
    if x.op == "phi" or y.op == "phi":
        return lift2(gt, x, y)
    p = sub_(x, y) if not (is_listy(x) or is_listy(y)) else raw("cmp", x, y)
    if is_num(p):
        return const(cval(p) > 0)
    if p.op == "call" and p.args[0] is sym("builtin", "len") and len(p.args[1]) == 1 and p.args[1][0].op == "comp" and p.args[1][0].args[0].op == "range" \
            and len(p.args[1][0].args[0].args) == 2 and p.args[1][0].args[2] is not TRUE:
        return nonempty_comp(p.args[1][0])
    # positive scaling is immaterial
    if p.op == "sum":
        cs = [abs(v) for _, v in p.args]
        m = min(cs)
        if m != 1 and all((c / m) == int(c / m) for c in cs) and not is_int(p):
            p = _mksum({k: (int(v / m)) for k, v in p.args})
    # lower bound facts for index variables
    if is_int(p) and p.op in ("sum", "itervar", "call", "sub"):
        d = _terms(p)
        lo, ok = 0, True
        hi, okh = 0, True
        for k, v in d.items():
            if k is ONE:
                lo += v
                hi += v
            elif nonneg_int(k):
                base = 0
                if k.op == "itervar" and k.args[0].op == "range":
                    base = cval(k.args[0].args[0])
                if v > 0:
                    lo += v * base
                    okh = False
                else:
                    hi += v * base
                    ok = False
            else:
                ok = okh = False
        if ok and lo > 0:
            return TRUE
        if okh and hi <= 0:
            return FALSE
        if p.op == "sum" and all(v < 0 for k, v in d.items() if k is not ONE):
            return b_not(raw("gt0", sub_(ONE, p)))
    if masksum(p):
        return raw("batom", "any", p.args[1][0])
    return raw("gt0", p)


def ge(x, y):
    if x.op == "phi" or y.op == "phi":
        return lift2(ge, x, y)
    p = sub_(x, y) if not (is_listy(x) or is_listy(y)) else None
    if p is not None and is_int(p):
        return gt(add(p, ONE), ZERO)
    return b_not(gt(y, x))


def eq(x, y):
    if x.op == "phi" or y.op == "phi":
        return lift2(eq, x, y)
    if x is y:
        return TRUE
    if is_const(x) and is_const(y):
        try:
            return const(bool(cval(x) == cval(y)))
        except Exception:
            pass
    if x is NONE or y is NONE:
        return isnone(y if x is NONE else x)
    if x.op in LISTY and is_const(y) and y.args[0] != "str":
        return FALSE
    if x is TRUE or y is TRUE:
        o = y if x is TRUE else x
        if is_bool(o):
            return o
    if x is FALSE or y is FALSE:
        o = y if x is FALSE else x
        if is_bool(o):
            return b_not(o)
    # integers with known bounds
    if nonneg_int(x) and y is ZERO:
        return b_not(gt(x, ZERO))
    if nonneg_int(y) and x is ZERO:
        return b_not(gt(y, ZERO))
    # move everything arithmetic to one side for a canonical form
    if (x.op in ("sum", "itervar", "mul") or y.op in ("sum", "itervar", "mul")) and not is_listy(x) and not is_listy(y):
        p = sub_(x, y)
        if is_num(p):
            return const(cval(p) == 0)
        d = _terms(p)
        lead = min(d, key=lambda k: (k is ONE, k.id))
        if d[lead] < 0:
            p = neg(p)
        return raw("eq", p, ZERO)
    a, b = (x, y) if x.id <= y.id else (y, x)
    return raw("eq", a, b)


def isnone(x):
    if x.op == "phi":
        return lift1(isnone, x)
    if x is NONE:
        return TRUE
    if x.op in ("const", "tuple", "list", "dict", "closure", "func", "new", "sum", "mm", "mul", "store", "comp", "fstr", "concat", "itervar"):
        return FALSE
    if is_bool(x):
        return FALSE
    if x.op in ("attr", "eff") and x.args[1] in NEVERNONE:
        return FALSE
    return raw("isnone", x)


NEVERNONE = {"filter"}          # attributes that a model either lacks or holds something in


# ---------------------------------------------------------------- traversal / printing


def children(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _tupchildren(a)


def _tupchildren(tp):
    for a in tp:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _tupchildren(a)


def subterms(t):
    seen, stack = set(), [t]
    while stack:
        u = stack.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        yield u
        stack.extend(children(u))


def contains(t, pred):
    return any(pred(u) for u in subterms(t))


def rebuild(t, f, memo=None, stop=None):
    """bottom-up rewriting through the smart constructors; f(term)->term applied at every node (not below `stop`)"""
    memo = {} if memo is None else memo

    def rec(u):
        r = memo.get(u.id)
        if r is not None:
            return r
        if u.op in ("const", "sym", "closure", "func", "class", "module"):
            r = f(u)
        elif stop is not None and stop(u):
            r = u
        else:
            r = f(remake(u.op, [rt(a) for a in u.args]))
        memo[u.id] = r
        return r

    def rt(a):
        if isinstance(a, T):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(rt(b) for b in a)
        return a
    return rec(t)


def nary(op, *xs):
    out = []
    for x in xs:
        out += list(x.args) if x.op == op else [x]
    u = []
    for x in out:
        if x not in u:
            u.append(x)
    if len(u) == 1:
        return u[0]
    return raw(op, *sorted(u, key=lambda t: t.id))


INT = sym("builtin", "int")


def rowsof(comp):
    """array of the elements of a comprehension: scalars added to every element are added to the array"""
    if comp.op == "comp" and comp.args[1].op == "phi" and comp.args[2] is TRUE and not contains(comp.args[1].args[0], lambda u: u is comp.args[3]):
        return ite(comp.args[1].args[0], *[rowsof(raw("comp", comp.args[0], x, TRUE, comp.args[3])) for x in comp.args[1].args[1:]])
    if comp.op == "comp" and comp.args[1].op == "sum" and comp.args[2] is TRUE:
        own = [(k, v) for k, v in comp.args[1].args if not (k is ONE or k.op == "sub" and k.args[0].op == "attr" and k.args[0].args[1] == "sys" and k.args[1] is const(2))]
        rest = [x for x in comp.args[1].args if x not in own]
        if own and rest and not (len(own) == 1 and own[0][0].op == "itervar"):
            return remake("sum", [(raw("arr", raw("comp", comp.args[0], remake("sum", own), TRUE, comp.args[3])), 1)] + rest)
    return raw("arr", comp)


def remake(op, args):
    if op in ("bitand", "bitor"):
        return nary(op, *args)
    if op == "phi":
        return ite(*args)
    if op == "sum":
        r = ZERO
        for k, v in args:
            r = add(r, mul(k, const(v)) if v != 1 else k)
        return r
    if op == "mul":
        r = ONE
        for b, e in args:
            r = mul(r, power(b, const(e)))
        return r
    if op == "mm":
        r = args[0]
        for b in args[1:]:
            r = matmul(r, b)
        return r
    if op == "tr":
        return transpose(args[0])
    if op == "gt0":
        return gt(args[0], ZERO)
    if op == "eq":
        return eq(*args)
    if op == "isnone":
        return isnone(args[0])
    if op == "truth":
        return truth(args[0])
    if op == "sub":
        return index(*args)
    if op == "concat":
        return concat(*args)
    if op == "fstr":
        return text(args)
    if op == "arr":
        return rowsof(args[0])
    if op == "comp" and args[0].op == "range" and len(args[0].args) == 2 and args[0].args[0] is args[0].args[1]:
        return raw("list")
    if op == "comp" and args[2] is TRUE and args[0].op == "range" and len(args[0].args) == 2 and all(is_num(a) for a in args[0].args) \
            and 0 < cval(args[0].args[1]) - cval(args[0].args[0]) <= 4 and args[3].op == "itervar":
        lo, iv = cval(args[0].args[0]), args[3]
        if not contains(args[1], lambda u: u.op in ("comp", "loop", "anyof", "first", "loopsum") and u.args[-1] is iv):
            return raw("list", *[rebuild(args[1], lambda u: const(lo + k) if u is iv else u) for k in range(cval(args[0].args[1]) - lo)])
    if op == "repeat" and args[0].op in ("list", "tuple") and is_num(args[1]) and isinstance(cval(args[1]), int) and 0 <= cval(args[1]) <= 4:
        return raw(args[0].op, *args[0].args * cval(args[1]))
    if op in ("anyof", "loopor") and args[1] is FALSE:
        return FALSE if op == "anyof" else args[2]
    if op == "loopsum" and args[1] is ZERO:
        return ZERO
    if op == "call" and args[0] is LEN and len(args[1]) == 1 and not args[2] and args[1][0].op in ("list", "tuple") \
            and not any(a.op == "star" for a in args[1][0].args):
        return const(len(args[1][0].args))
    if op == "call" and args[0] is STR and len(args[1]) == 1 and not args[2] and is_text(args[1][0]):
        return args[1][0]
    if op == "call" and args[0] is INT and len(args[1]) == 1 and not args[2]:
        return to_int(args[1][0])
    if op == "call" and len(args) == 3 and not args[2]:
        return raw(op, args[0], symmetric(args[0], args[1]), args[2])
    return raw(op, *args)


FILLED = {"numpy.zeros": ZERO, "numpy.zeros_like": ZERO, "numpy.ones": ONE, "numpy.ones_like": ONE}


def filled(v):
    """an array of one repeated value, assigned to a part of an array of its shape, is that value"""
    if v.op == "call" and v.args[0].op == "sym" and v.args[0].args[0] == "ext" and not v.args[2]:
        n = v.args[0].args[1]
        if n in FILLED and len(v.args[1]) == 1:
            return FILLED[n]
        if n in ("numpy.full", "numpy.full_like") and len(v.args[1]) == 2:
            return v.args[1][1]
    return v


SYMMETRIC = ("numpy.array_equal", "numpy.array_equiv", "numpy.maximum", "numpy.minimum", "numpy.add", "numpy.multiply", "numpy.isclose")


def symmetric(f, a):
    """arguments of a two-argument function that does not depend on their order"""
    if f.op == "sym" and f.args[0] == "ext" and f.args[1] in SYMMETRIC and len(a) == 2:
        return tuple(sorted(a, key=lambda x: x.id))
    return a


def is_rounded(x):
    return x.op == "call" and x.args[0].op == "sym" and x.args[0].args in (("ext", "numpy.ceil"), ("ext", "math.ceil")) or is_int(x)


def to_int(x):
    if x.op == "phi":
        return ite(x.args[0], to_int(x.args[1]), to_int(x.args[2]))
    if is_num(x):
        return const(int(cval(x)))
    if is_bool(x):
        return const(int(cval(x))) if is_const(x) else ite(x, ONE, ZERO)
    if x.op == "sum" and all(k is ONE or is_rounded(k) for k, v in x.args) and all(v == int(v) for k, v in x.args):
        out = ZERO
        for k, v in x.args:
            out = add(out, mul(const(v), k if k is ONE else to_int(k)))
        return out
    return x if is_int(x) else raw("call", sym("builtin", "int"), (x,), ())


def trim(i):
    """trailing full slices of an index select nothing"""
    if i.op == "tuple" and len(i.args) > 1 and i.args[-1].op == "slice" and all(a is NONE for a in i.args[-1].args):
        k = i.args
        while len(k) > 1 and k[-1].op == "slice" and all(a is NONE for a in k[-1].args):
            k = k[:-1]
        return k[0] if len(k) == 1 else raw("tuple", *k)
    return i


ALL = raw("slice", NONE, NONE, NONE)
SIZES = {"sys": 3, "hx": 3, "ff": 3, "precalc_mat": 6, "precalc_tmat": 2, "lks": 2}


def known_size(x):
    """number of elements of containers of fixed size: the solution's tuples, the shape of the sampler's chain"""
    if x.op == "attr":
        if x.args[1] == "shape":
            return dims(x.args[0])
        if x.args[1] in SIZES and x.args[0].op in ("sym", "eff", "attr", "call"):
            return SIZES[x.args[1]]


ARGX = (sym("ext", "numpy.argmax"), sym("ext", "numpy.argmin"))


def dims(x):
    """number of dimensions, if evident"""
    if x.op == "call" and x.args[0].op == "func" and x.args[0].args[0].endswith(("clsmethods.get_chain", "clsmethods.get_log_prob")):
        kw = dict(x.args[2])
        if "**" not in kw and kw.get("flat", NONE) is NONE and kw.get("get_acceptance_fraction", FALSE) is FALSE:
            if x.args[0].args[0].endswith("get_log_prob"):
                return 2
            return {FALSE: 3, TRUE: 2}.get(kw.get("get_log_prob", FALSE))
    if x.op == "call" and x.args[0].op == "attr" and not x.args[2]:
        return {"get_chain": 3, "get_log_prob": 2}.get(x.args[0].args[1])
    if x.op == "call" and x.args[0] is sym("ext", "numpy.reshape") and len(x.args[1]) == 2 and x.args[1][1].op in ("tuple", "list"):
        return len(x.args[1][1].args)
    if x.op == "sub" and x.args[1].op == "slice":
        return dims(x.args[0])
    if x.op == "sub" and (is_int(x.args[1]) or x.args[1].op == "call" and x.args[1].args[0] in ARGX and len(x.args[1].args[1]) == 1 and not x.args[1].args[2]):
        n = dims(x.args[0])
        return n - 1 if n else None


def index(x, i):
    """x[i]"""
    if x.op == "phi" or i.op == "phi":
        return lift2(index, x, i)
    if x.op == "new" and x.args[1].op in ("list", "dict", "tuple"):
        return index(x.args[1], i)
    if i is ZERO and x.op == "attr" and x.args[1] == "shape":
        return raw("call", LEN, (x.args[0],), ())
    if is_const(i):
        v = cval(i)
        if x.op in ("tuple", "list") and isinstance(v, int) and not any(a.op == "star" for a in x.args):
            try:
                return x.args[v]
            except IndexError:
                pass
        if isinstance(v, int) and not isinstance(v, bool) and v < 0:
            n = known_size(x)
            if n is not None and n + v >= 0:
                return index(x, const(n + v))
        if x.op == "const" and isinstance(cval(x), (str,)) and isinstance(v, int):
            try:
                return const(cval(x)[v])
            except IndexError:
                pass
        if x.op == "dict":
            for k, w in x.args:
                if k is i:
                    return w
        if x.op == "loop" and type(v) is int and v >= 0 and x.args[0].op == "range" and len(x.args[0].args) == 2 and x.args[0].args[0] is ZERO:
            n = x.args[2][0]
            if n.op == "store" and n.args[0].op == "mu" and n.args[0].args[1] == 0 and n.args[1].op == "sum" and (x.args[3], 1) in n.args[1].args \
                    and len(n.args[1].args) == 2 and any(k is ONE and c > v for k, c in n.args[1].args):
                return index(x.args[1][0], i)      # written at later positions only
        if x.op == "comp" and x.args[2] is TRUE and x.args[0].op == "range" and len(x.args[0].args) == 2 and x.args[0].args[0] is ZERO \
                and isinstance(v, int) and not isinstance(v, bool) and x.args[3].op == "itervar":
            at = i if v >= 0 else add(x.args[0].args[1], i)
            iv = x.args[3]
            if not contains(x.args[1], lambda u: u.op in ("comp", "loop", "anyof", "first", "loopsum") and u.args[-1] is iv):
                return rebuild(x.args[1], lambda u: at if u is iv else u)
    if (i is const(-1) or is_num(i) and cval(i) >= 1) and x.op == "attr" and x.args[1] == "shape" and x.args[0].op == "sub" and x.args[0].args[1].op == "slice" \
            and (dims(x.args[0].args[0]) or 0) > 1:
        return index(raw("attr", x.args[0].args[0], "shape"), i)
    j = trim(i)
    if j is not i:
        return index(x, j)
    sl = i.args[0] if i.op == "tuple" and i.args else i
    if sl.op == "slice" and sl.args[1] is NONE and sl.args[2] is NONE and sl.args[0].op == "sum":
        for whole in (index(raw("attr", x, "shape"), ZERO), raw("call", sym("builtin", "len"), (x,), ())):
            if (whole, 1) in sl.args[0].args:       # counted from the end (of a part that is not empty)
                lo = add(sl.args[0], mul(const(-1), whole))
                if lo.op == "sum" and all(k < 0 for m, k in lo.args):
                    new = raw("slice", lo, NONE, NONE)
                    return index(x, raw("tuple", new, *i.args[1:]) if i.op == "tuple" else new)
    if i.op == "call" and i.args[0] is sym("ext", "numpy.unravel_index") and len(i.args[1]) == 2 and not i.args[2] and i.args[1][1].op == "attr" and i.args[1][1].args[1] == "shape":
        y, n = i.args[1][1].args[0], dims(x)
        if y is x:
            return index(raw("call", raw("attr", x, "flatten"), (), ()), i.args[1][0])
        if n and dims(y) == n - 1 and n > 1:
            return index(raw("call", sym("ext", "numpy.reshape"), (x, raw("tuple", const(-1), index(raw("attr", x, "shape"), const(-1)))), ()), i.args[1][0])
    if x.op == "attr" and x.args[1] == "flat":
        x = raw("call", raw("attr", x.args[0], "flatten"), (), ())
    if i.op == "call" and x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "flatten" and not x.args[1] and not x.args[2] \
            and i.args[0].op == "sym" and i.args[0].args in (("ext", "numpy.argmax"), ("ext", "numpy.argmin")) and not i.args[2] \
            and i.args[1] in ((x.args[0].args[0],), (x,)):
        return raw("call", sym("builtin", "max" if i.args[0].args[1] == "numpy.argmax" else "min"), (x.args[0].args[0],), ())
    if x.op == "sub" and x.args[1].op == "slice" and is_num(i) and isinstance(cval(i), int) and cval(i) >= 0:
        lo, hi, step = x.args[1].args
        a = 0 if lo is NONE else cval(lo) if is_num(lo) else None
        if step is NONE and isinstance(a, int) and a >= 0 and (hi is NONE or (is_num(hi) and isinstance(cval(hi), int) and cval(hi) > a + cval(i))):
            return index(x.args[0], const(a + cval(i)))
    if i.op == "itervar" and x.op == "sub" and x.args[1].op == "slice" and x.args[1].args[0] is NONE and x.args[1].args[2] is NONE \
            and i.args[0].op == "range" and i.args[0].args[0] is ZERO and contains(i.args[0].args[1], lambda u: u.op == "call" and u.args[0] is LEN and u.args[1] == (x,)):
        return index(x.args[0], i)      # within the part
    if i.op in ("slice", "tuple") and x.op == "sub" and x.args[1].op in ("slice", "tuple"):
        a = x.args[1].args if x.args[1].op == "tuple" else (x.args[1],)
        b = i.args if i.op == "tuple" else (i,)
        if all(s.op == "slice" for s in a + b):
            n = max(len(a), len(b))
            a, b = a + (ALL,) * (n - len(a)), b + (ALL,) * (n - len(b))
            if all(p is ALL or q is ALL for p, q in zip(a, b)):     # cuts along different axes
                m = [q if p is ALL else p for p, q in zip(a, b)]
                return index(x.args[0], m[0] if n == 1 else raw("tuple", *m))
    if x.op == "vcat" and i.op == "tuple" and len(i.args) == 2 and i.args[0] is ALL and i.args[1].op == "slice":
        return raw("vcat", *[index(p, i) for p in x.args])
    if x.op == "store":
        base, j, v = x.args
        if j is i:
            return v
        if is_const(i) and is_const(j):
            return index(base, i)
    if x.op == "sum" and len(x.args) == 1 and x.args[0][0] is not ONE and (is_num(i) or i.op in ("slice", "tuple")):
        k, v = x.args[0]                # an elementwise multiple
        return mul(const(v), index(k, i))
    return raw("sub", x, i)


_short = {}


def show(t, depth=12):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    op, a = t.op, t.args
    s = lambda x: show(x, d)
    if op == "const":
        return repr(a[1])
    if op == "sym":
        return ".".join(map(str, a[1:])) if a[0] in ("param", "builtin", "ext") else ":".join(map(str, a))
    if op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if op == "sub":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "slice":
        return ":".join("" if x is NONE else s(x) for x in (a if a[2] is not NONE else a[:2]))
    if op == "call":
        return f"{s(a[0])}({', '.join([s(x) for x in a[1]] + [f'{k}={s(v)}' for k, v in a[2]])})"
    if op in ("tuple", "list"):
        return ("(%s)" if op == "tuple" else "[%s]") % ", ".join(map(s, a))
    if op == "dict":
        return "{%s}" % ", ".join(f"{s(k)}: {s(v)}" for k, v in a)
    if op == "sum":
        return "(" + " + ".join((f"{v}*" if v != 1 else "") + (s(k) if k is not ONE else "1") for k, v in a) + ")"
    if op == "mul":
        return "*".join(s(b) + (f"^{e}" if e != 1 else "") for b, e in a)
    if op == "mm":
        return "(" + " @ ".join(map(s, a)) + ")"
    if op == "tr":
        return s(a[0]) + ".T"
    if op == "phi":
        return f"⟨{s(a[0])} ? {s(a[1])} : {s(a[2])}⟩"
    if op == "gt0":
        return f"({s(a[0])} > 0)"
    if op == "eq":
        return f"({s(a[0])} == {s(a[1])})"
    if op == "isnone":
        return f"({s(a[0])} is None)"
    if op == "new":
        return f"{s(a[1])}"
    if op == "store":
        return f"{s(a[0])}{{{s(a[1])}:={s(a[2])}}}"
    if op == "itervar":
        return f"#{a[1]}∈{s(a[0])}"
    if op == "mu":
        return f"μ{a[0]}.{a[1]}"
    return f"{op}({', '.join(show(x, d) if isinstance(x, T) else str(x) for x in a)})"


def updated(d, u):
    """the mapping d after d.update(u)"""
    if d.op == "dict" and not d.args:
        return u
    if u.op == "dict" and not u.args:
        return d
    return raw("updated", d, u)
