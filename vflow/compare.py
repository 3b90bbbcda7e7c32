"""Three-valued comparison of value terms.

Equal normal forms hold.  Otherwise the two terms are split on their gating conditions (theory-consistent paths only)
and descended in parallel to the minimal differing subterms; a difference is definite only if the code's side is built
from vocabulary whose meaning the rule knows.  Everything else is `undecided` and never reported.
"""

import itertools

from . import terms as T
from .terms import TRUE, FALSE, NONE, raw, const, is_const, is_num, cval, BOOL_ATOMS

BINDERS = {"comp", "loop", "loopsum", "loopor", "first", "anyof", "allof", "dictcomp", "flatcomp", "last"}

# operations whose meaning the normal form captures completely
BASE_OPS = {"const", "sym", "attr", "sub", "slice", "sum", "mul", "mm", "tr", "tuple", "list", "dict", "phi", "gt0", "eq",
            "isnone", "truth", "in", "isinstance", "hasattr", "batom", "store", "range", "itervar", "comp", "func",
            "bound", "class", "module", "arr", "hcat", "vcat", "div", "pow", "concat", "eff", "call", "inv", "lam",
            "loopsum", "anyof", "allof", "dictcomp", "minlen", "first", "bitor", "repeat", "fmt", "fstr", "flatcomp", "updated",
            "loopor", "cmp", "set", "modulo"}

KNOWN_EXT = {"numpy." + x for x in (
    "zeros empty ones eye inf nan abs exp log sqrt sum mean std var max min maximum minimum any all isnan isinf isfinite "
    "round diag array hstack vstack concatenate stack append zeros_like empty_like ones_like full tile outer dot where "
    "argmax argmin median cov linalg.inv linalg.pinv linalg.norm linalg.solve linalg.matrix_rank linalg.LinAlgError "
    "random.seed random.get_state random.set_state random.rand random.randn random.choice random.randint load savez savez_compressed "
    "allclose isclose array_equal newaxis pi unique roll flip swapaxes moveaxis cumsum cumprod diff prod arange argsort sort sign square trace expand_dims").split()}
KNOWN_EXT |= {"scipy.stats.norm." + x for x in "ppf isf cdf sf pdf logpdf".split()}
KNOWN_EXT |= {"os.path." + x for x in "basename dirname join isabs exists isfile".split()} | {"os.remove", "os.unlink"}
KNOWN_BI = set("len int float str bool list tuple dict set sum max min any all abs range enumerate zip map filter sorted reversed round "
               "print isinstance hasattr getattr setattr type super iter next open callable repr id format bin globals "
               "ValueError TypeError KeyError IndexError AttributeError RuntimeError NameError SyntaxError Exception "
               "KeyboardInterrupt NotImplementedError ImportError FileNotFoundError Warning UserWarning ZeroDivisionError "
               "BaseException StopIteration OSError ArithmeticError LookupError FloatingPointError ModuleNotFoundError AssertionError".split())
KNOWN_METH = set("copy index keys values items append get update pop extend lower upper strip replace split join startswith endswith "
                 "astype flatten reshape mean std sum max min any all dot tolist to_numpy format ljust close clear rstrip lstrip".split())


def shape(a):
    """non-term skeleton of an argument tuple, with the term children listed"""
    kids = []

    def rec(x):
        if isinstance(x, T.T):
            kids.append(x)
            return "·"
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x
    return rec(a), kids


_gates = {}


def gates(t):
    """atoms that gate some nested value of t and do not depend on a variable bound inside t"""
    r = _gates.get(t.id)
    if r is not None:
        return r
    if t.op in ("const", "sym", "mu"):
        r = frozenset()
    else:
        r = frozenset().union(*[gates(c) for c in T.children(t)])
        if t.op == "phi":
            r = r | {t.args[0]}
        elif t.op in BINDERS and r:
            iv = t.args[-1]
            r = frozenset(x for x in r if not T.contains(x, lambda u: u is iv or u.op == "mu"))
    _gates[t.id] = r
    return r


def nested_phi(t):
    """an atom gating some nested value of t, innermost first"""
    r = gates(t)
    return min(r, key=lambda x: x.id) if r else None


def free_iters(t):
    """loop counters in t that are not bound inside t"""
    r = _free.get(t.id)
    if r is None:
        if t.op == "itervar":
            r = frozenset([t])
        elif t.op in ("const", "sym", "mu"):
            r = frozenset()
        else:
            r = frozenset().union(*[free_iters(c) for c in T.children(t)])
            if t.op in BINDERS:
                r = r - {t.args[-1]}
        _free[t.id] = r
    return r


_free = {}


def assume(t, atom, val, memo):
    """t under the assumption atom == val"""
    repl = {atom: const(val)}
    whole = None
    if val:
        if atom.op == "isnone":
            repl[atom.args[0]] = NONE
            repl[raw("truth", atom.args[0])] = FALSE
        if atom.op == "eq":
            x, y = atom.args
            if is_const(y):
                x, y = y, x
            if is_const(x) and not is_const(y) and y.op not in ("sum", "mul"):
                repl[y] = x
                if y.op == "call" and y.args[0] is T.sym("builtin", "len") and len(y.args[1]) == 1 and is_num(x) and 0 < cval(x) <= 2 \
                        and y.args[1][0].op in ("call", "attr", "sub"):
                    seq = y.args[1][0]
                    repl[seq] = raw("list", *[raw("sub", seq, const(k)) for k in range(int(cval(x)))])
        if atom.op == "truth":
            repl[raw("isnone", atom.args[0])] = FALSE
            whole = T.isabs(atom.args[0])
        if atom.op == "isinstance":
            repl[raw("isnone", atom.args[0])] = FALSE
    free = free_iters(atom)
    stop = (lambda u: u.op in BINDERS and u.args[-1] in free) if free else None
    if whole is not None:
        return T.rebuild(t, lambda u: whole if u.op == "call" and u.args[0] is T.JOIN and len(u.args[1]) > 1 and u.args[1][-1] is whole else repl.get(u, u), memo, stop)
    return T.rebuild(t, lambda u: repl.get(u, u), memo, stop)


EXTREME = {T.sym("builtin", "max"): True, T.sym("builtin", "min"): False}


def extreme(u):
    x, y = u.args[1]
    if is_const(x):
        x, y = y, x
    return T.ite(T.ge(x, y), x, y) if EXTREME[u.args[0]] else T.ite(T.ge(x, y), y, x)


def opened(t):
    """max and min of two numbers as case distinctions"""
    def f(u):
        if u.op == "call" and u.args[0] in EXTREME and len(u.args[1]) == 2 and not u.args[2]:
            return extreme(u)
        return u
    return T.rebuild(t, f, _opened)


_opened = {}


def length(x):
    if x.op == "phi":
        return T.ite(x.args[0], length(x.args[1]), length(x.args[2]))
    if x.op in ("store", "arr"):
        return length(x.args[0])
    if x.op == "comp" and x.args[2] is TRUE and x.args[0].op == "range" and len(x.args[0].args) == 2:
        return T.sub_(x.args[0].args[1], x.args[0].args[0])
    if x.op in ("tuple", "list") and not any(a.op == "star" for a in x.args):
        return const(len(x.args))
    return raw("call", T.sym("builtin", "len"), (x,), ())


_canon = {}


def canon(t):
    """final normalisations that are only sound once no further operation is applied to the term"""
    def f(u):
        # [x for x in xs]  ->  xs
        if u.op == "comp" and u.args[2] is TRUE and u.args[0].op == "range" and len(u.args[0].args) == 2 and u.args[0].args[0] is T.ZERO:
            e, iv = u.args[1], u.args[3]
            if e.op == "sub" and e.args[1] is iv and not T.contains(e.args[0], lambda z: z is iv) and length(e.args[0]) is u.args[0].args[1]:
                return e.args[0]
        if u.op == "dict" and len(u.args) > 1 and all(is_const(k) for k, _ in u.args):
            return raw("dict", *sorted(u.args, key=lambda a: repr(a[0].args)))
        if u.op == "sub" and u.args[0].op == "sub" and positional(u.args[1]):
            a = u.args[0].args[1]
            a = a.args if a.op == "tuple" else (a,)
            if all(T.is_int(x) for x in a):
                b = u.args[1]
                return raw("sub", u.args[0].args[0], raw("tuple", *a, *(b.args if b.op == "tuple" else (b,))))
        if u.op == "call" and u.args[0].op == "attr" and u.args[0].args[1] == "flatten" and not u.args[1] and T.dims(u.args[0].args[0]) == 1:
            return u.args[0].args[0]
        if u.op == "phi" and not T.is_bool(u):
            a, x, y = u.args
            x2, y2 = (assume(v, a, w, {}) if T.contains(v, lambda z: z is a) else v for v, w in ((x, True), (y, False)))
            if x2 is not x or y2 is not y:
                return T.ite(a, x2, y2)
        if u.op == "call" and u.args[0] in EXTREME and len(u.args[1]) == 2 and not u.args[2]:
            x, y = u.args[1]
            if any(is_const(a) for a in (x, y)) and any(counted(a) for a in (x, y)):
                return extreme(u)
        return u
    return T.rebuild(t, f, _canon)


def positional(i):
    """an index made of integers and slices"""
    return all(x.op == "slice" or T.is_int(x) for x in (i.args if i.op == "tuple" else (i,)))


def counted(x):
    """a loop counter, shifted by a constant"""
    return x.op == "itervar" or x.op == "sum" and len(x.args) == 2 and all(k is T.ONE or k.op == "itervar" for k, v in x.args)


class Diff:
    """a minimal difference; `mates` are the ones next to it that could make up for it"""
    __slots__ = ("code", "spec", "path", "loop", "sure", "mates")

    def __init__(self, c, s, p, loop=False, sure=False):
        self.code, self.spec, self.path, self.loop, self.sure = c, s, p, loop, sure
        self.mates = []


_lp = {}


def holds(t, pred):
    """some part of t satisfies pred; what an iteration variable ranges over is not part of its value"""
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if pred(u):
            return True
        if u.op != "itervar":
            todo.extend(T.children(u))
    return False


def loopish(t):
    """depends on the progress of an iteration that has no closed form"""
    if t.id not in _lp:
        _lp[t.id] = holds(t, lambda u: u.op in ("mu", "whilespace", "loop", "last") or u.args == ("unbound",))
    return _lp[t.id]


_oe = {}


def open_ended(t):
    """contains an iteration of its own that has no closed form"""
    if t.id not in _oe:
        _oe[t.id] = holds(t, lambda u: u.op in ("whilespace", "loop", "last") or u.op in ("anyof", "first") and loopish(u) or u.args == ("unbound",))
    return _oe[t.id]


class TooMany(Exception):
    pass


def linear(t):
    """{part: coefficient}, constant"""
    co, c = {}, 0
    for a, k in (t.args if t.op == "sum" else ((t, 1),)):
        if T.is_num(a):
            c += k * T.cval(a)
        else:
            co[a] = co.get(a, 0) + k
    return co, c


def whole(x):
    return T.is_int(x) or x.op == "mu" or x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "lks" or extreme_of(x) is not None and all(map(whole_sum, x.args[1]))


def whole_sum(t):
    co, c = linear(t)
    return c == int(c) and all(k == int(k) and whole(x) for x, k in co.items())


def extreme_of(x):
    """"max" or "min" of at least two numbers"""
    if x.op == "call" and x.args[0].op == "sym" and x.args[0].args[1] in ("max", "min") and len(x.args[1]) > 1 and not x.args[2]:
        return x.args[0].args[1]
    return None


def bounds(path):
    """what the comparisons of numbers on the path say: list of (coefficients, constant, strict), each form >= 0 (> 0)"""
    out, ivs = [], set()

    def put(co, c, sg, strict=False):
        out.append(({x: sg * k for x, k in co.items()}, sg * c - (1 if strict == "int" else 0), strict is True))
    nums = set()
    for a, v in path:
        if a.op == "gt0":
            co, c = linear(a.args[0])
            nums |= set(co)
            if v:
                put(co, c, 1, "int" if T.is_int(a.args[0]) or c == int(c) and all(k == int(k) and whole(x) for x, k in co.items()) else True)
            else:
                put(co, c, -1)
    for a, v in path:
        if a.op == "eq" and v and (all(T.is_int(x) or T.is_num(x) for x in a.args) or any(x in nums for x in a.args) and any(T.is_num(x) for x in a.args)):
            co, c = linear(T.sub_(*a.args))
        elif a.op == "truth" and not v and a.args[0] in nums:
            co, c = {a.args[0]: 1}, 0
        else:
            continue
        put(co, c, 1)
        put(co, c, -1)
    if len(out) < 2 or len(out) > 14:
        return None
    todo = [x for f in out for x in f[0]]
    while todo:
        x = todo.pop()
        if x in ivs or x.op != "itervar" or x.args[0].op != "range" or len(x.args[0].args) != 2:
            continue
        ivs.add(x)
        for b, sg in ((x.args[0].args[0], 1), (x.args[0].args[1], -1)):
            if not T.is_int(b) and not T.is_num(b):
                continue
            co, c = linear(b)
            f = {y: -sg * k for y, k in co.items()}
            f[x] = f.get(x, 0) + sg
            out.append((f, -sg * c - (0 if sg == 1 else 1), False))
            todo.extend(co)
    return out if len({x for f in out for x in f[0]}) <= 8 else None


def feasible(forms, depth=3):
    """Fourier-Motzkin elimination; one case for each term that may be the largest or smallest"""
    for m in {x for f in forms for x, k in f[0].items() if k and extreme_of(x)} if depth else ():
        sg = 1 if extreme_of(m) == "max" else -1
        for j, e in enumerate(m.args[1]):
            co, c = linear(e)
            fs = []
            for g, d, strict in forms:
                k = g.get(m, 0)
                h = {x: v for x, v in g.items() if x is not m}
                for x, v in co.items():
                    h[x] = h.get(x, 0) + k * v
                fs.append((h, d + k * c, strict))
            for i, o in enumerate(m.args[1]):
                if i != j:
                    co2, c2 = linear(T.sub_(e, o))
                    fs.append(({x: sg * v for x, v in co2.items()}, sg * c2, False))
            if feasible(fs, depth - 1):
                return True
        return False
    fs = [({x: k for x, k in f[0].items() if k}, f[1], f[2]) for f in forms]
    while True:
        if any(not co and (c < 0 or c == 0 and strict) for co, c, strict in fs):
            return False
        fs = [f for f in fs if f[0]]
        vs = {x for f in fs for x in f[0]}
        if not vs:
            return True
        x = min(vs, key=lambda x: (sum(1 for f in fs if f[0].get(x, 0) > 0) * sum(1 for f in fs if f[0].get(x, 0) < 0), x.id))
        up, dn, fs = [f for f in fs if f[0].get(x, 0) > 0], [f for f in fs if f[0].get(x, 0) < 0], [f for f in fs if not f[0].get(x)]
        for p, b, i in up:
            for q, d, j in dn:
                m, n = -q[x], p[x]
                co = {y: m * p.get(y, 0) + n * q.get(y, 0) for y in set(p) | set(q) if y is not x}
                fs.append(({y: k for y, k in co.items() if k}, m * b + n * d, i or j))
        if len(fs) > 300:
            return True


def equalities(path, forms):
    """loop counters that the path ties to an expression"""
    for a, v in path:
        if a.op != "gt0" or not T.is_int(a.args[0]):
            continue
        co, c = linear(a.args[0])
        if not v:
            co, c = {x: -k for x, k in co.items()}, -c + 1      # co + c >= 1
        if feasible(forms + [(co, c - 2, False)]):
            continue
        for x, k in co.items():         # co + c == 1
            if x.op == "itervar" and k in (1, -1):
                e = T.const(1 - c)
                for y, m in co.items():
                    if y is not x:
                        e = T.add(e, T.mul(T.const(-m), y))
                yield x, (e if k == 1 else T.neg(e))


def outer_loops(t):
    out, seen, todo = [], set(), [t]
    while todo:
        u = todo.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op in LOOPVARS:
            out.append(u)
        elif u.op != "itervar":
            todo.extend(T.children(u))
    return out


_equal = {}


def equal_loops(v, u):
    """the iterations compute the same (found without looking at the path)"""
    key = v.id, u.id
    if key not in _equal:
        _equal[key] = False
        k = Comparer(1, 1500)
        try:
            k.run(v, u)
            _equal[key] = not k.out
        except (TooMany, RecursionError, T.TooBig):
            pass
    return _equal[key]


class Comparer:
    def __init__(self, limit=6, budget=6000):
        self.limit, self.budget = limit, budget
        self.memos = {}
        self.out = []
        self.seen = set()
        self.pruned = 0
        self.ctx = []
        self.foreign = set()

    def restrict(self, t, atom, val):
        m = self.memos.setdefault((atom.id, val), {})
        return assume(t, atom, val, m)

    def run(self, c, s, path=()):
        if c is s or len(self.out) >= self.limit:
            return
        key = (c.id, s.id)
        if key in self.seen:
            return
        self.budget -= 1
        if self.budget <= 0:
            raise TooMany()
        n = self.pruned
        self.step(c, s, path)
        if self.pruned == n:        # the verdict did not depend on how we got here
            self.seen.add(key)

    def step(self, c, s, path):
        if c.op == "phi" and s.op == "phi" and c.args[0] is s.args[0]:
            for v in (True, False):
                p = path + ((c.args[0], v),)
                if not T.consistent(list(p)):
                    self.pruned += 1
                else:
                    c2, s2 = c.args[1 if v else 2], s.args[1 if v else 2]
                    if v and c.args[0].op in ("isnone", "eq"):
                        c2, s2 = self.restrict(c2, c.args[0], v), self.restrict(s2, c.args[0], v)
                    self.run(c2, s2, p)
            return
        if c.op == "phi" or s.op == "phi" or ((c.op in BOOL_ATOMS) != (s.op in BOOL_ATOMS) and (c in (TRUE, FALSE) or s in (TRUE, FALSE))):
            atom = None
            for t in (c, s):
                if t.op == "phi":
                    a = nested_phi(t.args[0]) or t.args[0]
                elif t.op in BOOL_ATOMS:
                    a = nested_phi(t) or t
                else:
                    continue
                if atom is None or a.id < atom.id:
                    atom = a
            self.split(c, s, path, atom)
            return
        if c.op == s.op and c.op in LOOPVARS:
            whole = c, s
            c, s = alive(c), alive(s)
            i = LOOPVARS[c.op][0]
            if len(c.args[i]) != len(s.args[i]) and sorted(x.id for x in whole[0].args[i]) == sorted(x.id for x in whole[1].args[i]):
                c, s = whole
        if c.op == s.op == "concat" and sorted(x.id for x in T.joined(c)) == sorted(x.id for x in T.joined(s)):
            self.out.append(Diff(c, s, path, self.strange(path), not self.strange(path)))
            return
        if c.op == s.op and c.op in ("bitand", "bitor"):
            x, y = [a for a in c.args if a not in s.args], [a for a in s.args if a not in c.args]
            if len(x) == len(y) == 1:
                self.run(x[0], y[0], path)
                return
        if {c.op, s.op} == {"concat", "sum"}:
            x, y = (c, s) if c.op == "concat" else (s, c)
            if sorted(u.id for u in T.joined(x)) == sorted(m.id for m, k in y.args if k == 1) and len(y.args) == len(T.joined(x)):
                return          # texts: which the sum was not known to join
        s = permuted(c, s)
        if c is s:
            return
        if c.op == s.op == "sub" and c.args[0] is s.args[0] and T.is_num(c.args[1]) and T.is_num(s.args[1]):
            self.out.append(Diff(c, s, path, self.strange(path)))
            return
        sc, kc = shape(c.args)
        ss, ks = shape(s.args)
        if c.op == s.op and sc == ss and len(kc) == len(ks) and c.op not in ("sum", "mul", "mm", "const", "sym", "gt0", "eq"):
            pairs = [(a, b) for a, b in zip(kc, ks) if a is not b]
            if pairs:
                bind = c.op in BINDERS
                if bind:
                    self.ctx.append(c.args[0].op == "whilespace" or s.args[0].op == "whilespace")
                n = len(self.out)
                for j, (a, b) in enumerate(pairs):
                    self.run(a, b, path)
                    if j == 0:
                        first = len(self.out)
                if len(pairs) > 1 and (c.op == "sub" or bind and pairs[0][0] is c.args[0]):
                    for d in self.out[n:]:
                        d.mates = d.mates + [e for e in self.out[n:(None if c.op == "sub" else first)] if e is not d]
                if bind:
                    self.ctx.pop()
                return
        # different shape: gate on nested conditions, else a leaf difference
        for t in (c, s):
            a = nested_phi(t)
            if a is not None:
                self.split(c, s, path, a)
                return
        if c.op in BOOL_ATOMS and s.op in BOOL_ATOMS:
            for v in (True, False):
                p = path + ((c, v), (s, not v))
                k = bounds(p)
                if T.consistent(list(p)) and (k is None or feasible(k)):
                    self.out.append(Diff(c, s, p, self.strange(p)))
                    return
            self.pruned += 1
            return
        if same_modulo(c, s, path):
            self.pruned += 1
            return
        c2, s2 = opened(c), opened(s)
        if (c2 is not c or s2 is not s):
            self.run(c2, s2, path)
            return
        self.leaf(c, s, path)

    def leaf(self, c, s, path):
        """a difference, unless arithmetic rules the path out or makes both sides equal on it"""
        k = bounds(path)
        if k is not None:
            if not feasible(k):
                self.pruned += 1
                return
            for iv, e in equalities(path, k):
                d = iv.args[1]
                if inst(c, {iv: e}, d) is inst(s, {iv: e}, d):
                    self.pruned += 1
                    return
        if self.reconciled(c, s):
            self.pruned += 1
            return
        self.out.append(Diff(c, s, path, self.strange(path)))

    def reconciled(self, c, s):
        """equal once the iterations inside that compute the same are identified"""
        if c.op in LOOPVARS or s.op in LOOPVARS or c.op != s.op:
            return False
        a, b = outer_loops(c), outer_loops(s)
        a, b = [u for u in a if u not in b], [u for u in b if u not in a]
        if not a or len(a) != len(b) or len(a) > 4:
            return False
        ren = {}
        for u in b:
            for v in a:
                if v.op == u.op and v.args[0] is u.args[0] and len(v.args[LOOPVARS[v.op][0]]) == len(u.args[LOOPVARS[u.op][0]]) and equal_loops(v, u):
                    ren[u] = v
                    break
            else:
                return False
        return T.rebuild(s, lambda x: ren.get(x, x), {}) is c

    def strange(self, path):
        return any(a in self.foreign for a, v in path)

    def loopy(self, atom):
        return loopish(atom) if any(self.ctx) else open_ended(atom)

    def split(self, c, s, path, atom):
        if self.loopy(atom):
            mate = self.align(c, s, atom)
            if mate is not None:
                a, b = mate
                self.run(a, b, path)
                s = T.rebuild(s, lambda u: a if u is b else u, {})
                if c is s:
                    return
                atom = a
        for v in (True, False):
            p = path + ((atom, v),)
            if not T.consistent(list(p)):
                self.pruned += 1
                continue
            c2, s2 = self.restrict(c, atom, v), self.restrict(s, atom, v)
            self.run(c2, s2, p)


    def align(self, c, s, atom):
        """loop-dependent condition of one side paired with the one of the same form on the other side"""
        ca = [u for u in T.subterms(c) if u.op in BOOL_ATOMS and loopish(u)]
        sa = [u for u in T.subterms(s) if u.op in BOOL_ATOMS and loopish(u)]
        cs, ss = set(ca), set(sa)
        if atom in cs and atom in ss:
            return None
        mine, other = (cs, [u for u in sa if u not in cs]) if atom in cs else (ss, [u for u in ca if u not in ss])
        if not other and not any(u.op in ("anyof", "first", "whilespace") for x in (c, s) for u in T.subterms(x)):
            return None         # nothing on the other side asks about the progress of an iteration
        self.foreign.add(atom)
        sig = skeleton(atom)
        m = [u for u in other if skeleton(u) == sig]
        if not m:
            sig = coarse(atom)
            if sum(1 for u in mine if coarse(u) == sig and u not in set(other)) == 1:
                m = [u for u in other if coarse(u) == sig]
        if len(m) != 1:
            return None
        self.foreign.discard(atom)
        return (atom, m[0]) if atom in cs else (m[0], atom)


LOOPVARS = {"loop": (1, 2), "anyof": (2, 3), "first": (3, 4)}


def alive(t):
    """a recurrence without the carried values that its result does not use"""
    i, n = LOOPVARS[t.op]
    d = t.args[-1].args[1]
    init, nxt = t.args[i], t.args[n]
    if not init:
        return t
    mus = [raw("mu", d, j) for j in range(len(init))]
    used, todo = set(), []

    def note(x):
        for u in T.subterms(x):
            if u.op == "mu" and u.args[0] == d and isinstance(u.args[1], int) and u.args[1] < len(init) and u.args[1] not in used:
                used.add(u.args[1])
                todo.append(u.args[1])
    if t.op == "loop":
        used.add(0)
        todo.append(0)
    for x in t.args[1:i]:
        note(x)
    while todo:
        note(nxt[todo.pop()])
    if len(used) == len(init):
        return t
    keep = sorted(used)
    ren = {mus[j]: raw("mu", d, q) for q, j in enumerate(keep)}
    args = list(t.args)
    for x in range(1, i):
        args[x] = rename(args[x], ren, d)
    args[i] = tuple(init[j] for j in keep)
    args[n] = tuple(rename(nxt[j], ren, d) for j in keep)
    return raw(t.op, *args)


def permuted(c, s):
    """rename the loop-carried values of s so that they correspond to those of c with the same start value"""
    if c.op != s.op or c.op not in LOOPVARS:
        return s
    i, n = LOOPVARS[c.op]
    ci, si = c.args[i], s.args[i]
    if len(ci) != len(si) or len(si) < 2 or ci == si and (len(set(ci)) == len(ci) or c.args[n] == s.args[n]):
        return s
    fixed = 1 if c.op == "loop" else 0      # the first carried value of `loop` is the result
    d = c.args[-1].args[1]
    best = None
    for perm in matchings(ci, si, fixed):
        ren = {raw("mu", d, q): raw("mu", d, j) for j, q in perm.items()}
        cost = 0
        for j, q in perm.items():
            x, y = c.args[n][j], rename(s.args[n][q], ren, d)
            if x is not y:
                cost += 1 + len(set(T.subterms(x)) ^ set(T.subterms(y)))
        for x, y in zip(c.args[1:i], s.args[1:i]):
            y = rename(y, ren, d)
            if x is not y:
                cost += 1 + len(set(T.subterms(x)) ^ set(T.subterms(y)))
        if best is None or cost < best[0]:
            best = cost, perm, ren
        if cost == 0:
            break
    _, perm, ren = best
    back = [perm[j] for j in range(len(ci))]
    args = list(s.args)
    args[i] = tuple(si[q] for q in back)
    args[n] = tuple(rename(s.args[n][q], ren, d) for q in back)
    for x in range(1, i):
        args[x] = rename(args[x], ren, d)
    return raw(s.op, *args)


def matchings(ci, si, fixed, most=48):
    """one-to-one correspondences of the carried values, equal start values first"""
    groups = {}
    for q in range(fixed, len(si)):
        groups.setdefault(si[q], []).append(q)
    slots = {}
    for j in range(fixed, len(ci)):
        slots.setdefault(ci[j], []).append(j)
    base = {0: 0} if fixed else {}
    left_c, left_s, multi = [], [], []
    for v, js in slots.items():
        qs = groups.pop(v, [])
        k = min(len(js), len(qs))
        # identical positions first
        js = sorted(js, key=lambda j: j not in qs)
        qs = sorted(qs, key=lambda q: q not in js)
        multi.append((js[:k], qs[:k]))
        left_c += js[k:]
        left_s += qs[k:]
    for qs in groups.values():
        left_s += qs
    multi.append((left_c, left_s))
    opts = [[dict(zip(js, p)) for p in itertools.islice(itertools.permutations(qs), 24)] for js, qs in multi if js]
    for combo in itertools.islice(itertools.product(*opts), most):
        m = dict(base)
        for x in combo:
            m.update(x)
        yield m


def rename(t, ren, d):
    """capture-avoiding renaming of the loop-carried values of depth d"""
    memo = {}

    def rec(u):
        if u.id in memo:
            return memo[u.id]
        if u in ren:
            r = ren[u]
        elif u.op in LOOPVARS and u.args[-1].args[1] == d:
            r = u
        elif u.op in ("const", "sym", "closure", "func", "class", "module"):
            r = u
        else:
            r = T.remake(u.op, [rt(a) for a in u.args])
        memo[u.id] = r
        return r

    def rt(a):
        if isinstance(a, T.T):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(rt(b) for b in a)
        return a
    return rec(t)


UNROLLS = {"loop", "comp", "flatcomp", "loopsum", "loopor", "anyof", "first"}


def inst(t, env, d):
    """substitute the iteration variable and carried values of depth d"""
    memo = {}

    def rec(u):
        if u.id in memo:
            return memo[u.id]
        if u in env:
            r = env[u]
        elif u.op in BINDERS and u.args[-1].op == "itervar" and u.args[-1].args[1] == d:
            r = u
        elif u.op in ("const", "sym", "closure", "func", "class", "module"):
            r = u
        else:
            r = T.remake(u.op, [rt(a) for a in u.args])
        memo[u.id] = r
        if len(memo) > 40000:
            raise TooMany()
        return r

    def rt(a):
        if isinstance(a, T.T):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(rt(b) for b in a)
        return a
    return rec(t)


def unrolled(t, n):
    """the value of an iteration over exactly n elements"""
    iv = t.args[-1]
    d = iv.args[1]
    at = lambda x, k, cur=(): inst(x, {iv: T.const(k), **{raw("mu", d, j): v for j, v in enumerate(cur)}}, d)
    if t.op == "comp" or t.op == "flatcomp":
        out = raw("list")
        for k in range(n):
            e = at(t.args[1], k)
            e = raw("list", e) if t.op == "comp" else e
            out = T.ite(at(t.args[2], k), T.concat(out, e), out)
        return out
    if t.op == "loopsum":
        out = T.const(0)
        for k in range(n):
            out = T.add(out, at(t.args[1], k))
        return out
    if t.op == "loopor":
        out = t.args[2]
        for k in range(n):
            out = T.ite(T.truth(out), out, at(t.args[1], k))
        return out
    i, nx = LOOPVARS[t.op]
    cur = list(t.args[i])
    hits = []
    for k in range(n):
        if t.op != "loop":
            hits.append(tuple(at(x, k, cur) for x in t.args[1:i]))
        cur = [at(x, k, cur) for x in t.args[nx]]
    if t.op == "loop":
        return cur[0]
    if t.op == "anyof":
        return T.b_or(*[T.truth(h[0]) for h in hits])
    out = raw("unreached")
    for g, v in reversed(hits):
        out = T.ite(T.truth(g), v, out)
    return out


def tally(t):
    """the filtered list whose length a condition tests"""
    if t.op not in ("gt0", "eq"):
        return None
    us = {u.args[1][0] for u in T.subterms(t) if u.op == "call" and u.args[0] is T.LEN and u.args[1] and u.args[1][0].op == "comp" and not free_iters(u) - free_iters(t)}
    return us.pop() if len(us) == 1 else None


def counted_out(t, n):
    """a condition on the number of elements that pass, over exactly n elements"""
    u = tally(t)
    iv = u.args[-1]
    tot = T.const(0)
    for k in range(n):
        tot = T.add(tot, T.ite(T.truth(inst(u.args[2], {iv: T.const(k)}, iv.args[1])), T.const(1), T.const(0)))
    return T.rebuild(t, lambda x: tot if x.op == "call" and x.args[0] is T.LEN and x.args[1] == (u,) else x)


def entries(t, d):
    """carried values of inner iterations of which entries are used"""
    return {u.args[0] for u in T.subterms(t) if u.op == "sub" and u.args[0].op == "mu" and u.args[0].args[0] > d}


def iterates(t):
    return holds(t, lambda u: u.op in LOOPVARS)


def refute(d, n=3):
    """differences that show when iterations of different form run over exactly n elements"""
    c, s = d.code, d.spec
    skip = [x for x, y in ((c, s), (s, c)) if y.op == "loop" and y.args[1][0] is x]     # one side leaves the value as it was before the loop
    cl, sl = tally(c) or c, tally(s) or s
    if d.loop or not skip and (cl.op not in UNROLLS or sl.op not in UNROLLS or cl.args[0] is not sl.args[0] or cl.args[-1] is not sl.args[-1]):
        return []
    sp = (sl if skip and skip[0] is c else cl).args[0]
    if sp.op != "range" or len(sp.args) != 2 or sp.args[0] is not T.ZERO:
        return []
    H = sp.args[1]
    if T.is_const(H):
        return []
    fix = {H: T.const(n)}
    if H.op == "sum":
        ts = [(a, k) for a, k in H.args if not T.is_const(a)]
        if len(ts) != 1 or ts[0][1] != 1:
            return []
        rest = sum(k * (T.cval(a) if T.is_const(a) else 0) for a, k in H.args if T.is_const(a))
        fix = {ts[0][0]: T.const(n - rest)}
    put = lambda t: T.rebuild(t, lambda u: fix.get(u, u), memo)
    memo = {}
    try:
        c2, s2 = (put(x if x in skip else counted_out(x, n) if tally(x) else unrolled(x, n)) for x in (c, s))
        path = []
        for a, v in d.path:
            b = put(a)
            if b in (TRUE, FALSE):
                if (b is TRUE) != v:
                    return []
                continue
            path.append((b, v))
        if not T.consistent(path):
            return []
        k = Comparer(6, 1500)
        try:
            for a, v in path:
                c2, s2 = assume(c2, a, v, {}), assume(s2, a, v, {})
            k.run(c2, s2, tuple(path))
        except TooMany:
            pass
        for x in k.out:
            x.path = tuple(x.path) + ((raw("eq", H, T.const(n)), True),)
        other = cl.op == sl.op and cl.op in LOOPVARS and len(cl.args[LOOPVARS[cl.op][0]]) != len(sl.args[LOOPVARS[sl.op][0]])
        return [x for x in k.out if iterates(x.code) == iterates(x.spec) and not (other and entries(x.code, cl.args[-1].args[1]) != entries(x.spec, cl.args[-1].args[1]))]
    except (TooMany, T.TooBig, RecursionError):
        return []


def skeleton(t, d=2):
    if d == 0:
        return t.op
    return (t.op,) + tuple(skeleton(k, d - 1) for k in T.children(t))


def coarse(t):
    """the iteration a condition asks about, without what it asks"""
    if t.op in BINDERS:
        i = LOOPVARS.get(t.op, (None,))[0]
        return t.op, t.args[0], t.args[i] if i else ()
    bs = []

    def rec(u):
        if u.op in BINDERS:
            bs.append(coarse(u))
            return
        for k in T.children(u):
            rec(k)
    rec(t)
    return t.op, tuple(bs)


def same_modulo(c, s, path):
    """equal under the equalities on the path"""
    for a, v in path:
        if v and a.op == "eq":
            x, y = a.args
            if (x is c and y is s) or (x is s and y is c):
                return True
        if not v and a.op == "truth" and a.args[0].op == "mu" and {c, s} == {a.args[0], T.ZERO}:
            return True
    return False


def diffs(c, s, limit=6, budget=6000):
    k = Comparer(limit, budget)
    try:
        k.run(c, s)
    except TooMany:
        if not k.out:
            raise
    return k.out


def features(t, acc=None):
    """vocabulary used by a term"""
    acc = set() if acc is None else acc
    for u in T.subterms(t):
        o = u.op
        if o == "sym":
            if u.args[0] in ("ext", "builtin"):
                acc.add((u.args[0], u.args[1]))
            elif u.args[0] not in ("param",):
                acc.add(("sym",) + u.args)
        elif o == "attr":
            acc.add(("attr", u.args[1]))
        elif o == "func":
            acc.add(("func", u.args[0]))
        elif o == "exc":
            acc.add(("exc",) + u.args[:2])
        else:
            acc.add(("op", o))
    return acc


UNSURE = {"loop", "whilespace", "last", "partialval", "mutated", "unknown", "entered", "caught", "iter"}


def isstar(u):
    return u.op == "star"


def loops_of(t):
    """the open-ended iterations in a term"""
    return {u for u in T.subterms(t) if u.op in ("first", "anyof", "loop", "last", "allof") and u.args[0].op == "whilespace"}


def independent(d):
    """one side is an arbitrary argument on which the other does not depend"""
    for x, y in ((d.code, d.spec), (d.spec, d.code)):
        if x.op == "sym" and x.args[0] in ("lamarg", "param") and x.args[1] != "self" and not T.contains(y, lambda u: u is x or u.op in ("unknown", "partialval", "entered", "caught")) \
                and not any(T.contains(a, lambda u: u is x) for a, v in d.path):
            return True
    return False


def comparable(d):
    """is the minimal difference one the term language can judge (loop skeletons of different shape are not)"""
    if d.sure:
        return True
    if not d.loop and d.spec.op == "mutated" and d.spec.args[0] is d.code:
        return True         # a required change of the object does not happen
    if d.loop or d.code.op in UNSURE or d.spec.op in UNSURE:
        return False
    if {u for u in T.subterms(d.code) if isstar(u)} != {u for u in T.subterms(d.spec) if isstar(u)}:
        return False
    if loops_of(d.code) != loops_of(d.spec):
        return False
    if d.code.op == "call" and d.spec.op == "call" and d.code.args[0].op == "attr" and d.code.args[0] is d.spec.args[0] \
            and len(d.code.args[1]) != len(d.spec.args[1]) and len(d.code.args[1]) + len(d.code.args[2]) == len(d.spec.args[1]) + len(d.spec.args[2]):
        return False        # positional and keyword spelling of a method whose signature is not in the repository
    if d.code.op in BINDERS and d.spec.op in BINDERS and d.code.op != d.spec.op:
        return False
    return not alternative(d)


# ways to assemble an array or sequence: the same value can be written with several of them
ASSEMBLE = {"numpy." + x for x in "pad append concatenate hstack vstack stack dstack column_stack row_stack block zeros ones full eye identity "
            "diag diagflat tile repeat reshape expand_dims squeeze outer arange linspace roll insert delete kron array asarray atleast_1d "
            "atleast_2d atleast_3d swapaxes moveaxis broadcast_to meshgrid split array_split take flatten ravel transpose".split()} | {"scipy.linalg.block_diag"}
ASSEMBLE_OPS = {"hcat", "vcat", "vcat0", "list", "tuple", "concat", "comp", "arr", "repeat", "store", "flatcomp"}
APART = [{"numpy.tile", "numpy.repeat"}, {"hcat", "vcat"}, {"numpy.zeros", "numpy.ones", "numpy.eye"}, {"list", "tuple"}]


def assembly(t):
    if t.op in ASSEMBLE_OPS:
        return t.op
    if t.op == "call":
        f = t.args[0]
        if f.op == "sym" and f.args[0] == "ext" and f.args[1] in ASSEMBLE:
            return f.args[1]
        if f.op == "attr" and "numpy." + f.args[1] in ASSEMBLE:
            return "numpy." + f.args[1]
    return None


def extents(t):
    """lengths of assembled arrays that a number is computed from"""
    part = lambda x: assembly(x) or x.op in ("bitand", "bitor", "inv") or x.op == "call" and x.args[0].op == "func" or x.op == "sub" and x.args[1].op in ("slice", "tuple")
    out, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.op in ("sum", "mul", "gt0", "eq", "range", "minlen"):
            todo.extend(T.children(u))
        elif u.op == "call" and u.args[0] is T.LEN and u.args[1] and part(u.args[1][0]):
            out.add(u)
        elif u.op == "sub" and u.args[0].op == "attr" and u.args[0].args[1] == "shape" and part(u.args[0].args[0]):
            out.add(u)
        elif u.op == "call" and u.args[0].op == "sym" and u.args[0].args[1] in ("int", "numpy.ceil", "numpy.floor", "max", "min"):
            todo.extend(u.args[1])
    return out


def spaces(t):
    """the iteration spaces of the loops inside"""
    return {u for u in T.subterms(t) if u.op == "range"}


def data_of(t):
    """inputs a value is made of, without functions and constants"""
    return {u for u in T.subterms(t) if u.op == "sym" and u.args[0] not in ("ext", "builtin") or u.op == "attr" and not ("numpy." + str(u.args[1]) in ASSEMBLE)}


def alternative(d):
    """both sides assemble the same inputs with different means: may be two spellings of one value"""
    rc, rs = spaces(d.code), spaces(d.spec)
    if any(extents(x) - extents(y) for x, y in ((d.code, d.spec), (d.spec, d.code))) or rc - rs and rs - rc and any(map(extents, rc ^ rs)):
        return True             # lengths read off an assembled array, and lengths computed
    a, b = assembly(d.code), assembly(d.spec)
    for x, y in ((d.code, d.spec), (d.spec, d.code)):
        if x.op == "call" and x.args[0].op == "sym" and x.args[0].args[1] in ("numpy.swapaxes", "numpy.moveaxis", "numpy.roll", "numpy.flip") and x.args[1] and x.args[1][0] is y:
            return False
        if x.op == "sub" and y.op == "sub" and x.args[0] is y.args[0] and T.is_num(x.args[1]) and T.is_num(y.args[1]) and T.cval(x.args[1]) < 0 < T.cval(y.args[1]):
            return True     # counted from the other end
    if a is None or b is None or a == b or any(a in p and b in p for p in APART):
        return False
    for x, y in ((d.code, d.spec), (d.spec, d.code)):
        if x.op == "store" and x.args[0] is y:
            return False
    return data_of(d.code) == data_of(d.spec)


def known(f, attrs):
    if f[0] == "op":
        return f[1] in BASE_OPS
    if f[0] == "ext":
        return f[1] in KNOWN_EXT
    if f[0] == "builtin":
        return f[1] in KNOWN_BI
    if f[0] == "attr":
        return f[1] in attrs or f[1] in KNOWN_METH
    return False
