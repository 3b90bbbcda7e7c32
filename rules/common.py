"""building blocks shared by the rules"""

from vflow import terms as T
from vflow.terms import TRUE, FALSE, NONE, raw, const, sym, ite, b_and, b_or, b_not, is_const, cval
from vflow.flow import strip, top, EXT, BI
from vflow.loader import AnalysisBroken

SELF = sym("param", "self")
RAISED = sym("raised")


def exc_name(e):
    """type name of a raised exception term"""
    e = top(e)
    if e.op == "call":
        e = e.args[0]
    if e.op == "sym" and e.args[0] in ("builtin", "ext"):
        return e.args[1].split(".")[-1]
    if e.op == "sym" and e.args == ("implicit",):
        return None
    return "?"


def explicit_raises(r):
    out = {}
    for g, e, w, _ in r.raises:
        n = exc_name(e)
        if n is None:
            continue
        out[n] = b_or(out.get(n, FALSE), g)
    return out


def raise_guard(r):
    g = FALSE
    for v in explicit_raises(r).values():
        g = b_or(g, v)
    return g


def attr_at_exit(r, name, obj=SELF):
    v = r.st.vals.get((obj, name))
    return v if v is not None else raw("attr", obj, name)


def has_at_exit(r, name, obj=SELF):
    v = r.st.vals.get((obj, ("has", name)))
    return v if v is not None else raw("hasattr", obj, name)


def item_at_exit(r, base, key):
    """value of base[key] at exit (string key)"""
    v = r.st.vals.get((base, ("item", const(key))))
    return v if v is not None else raw("sub", top(base), const(key))


def fdict_at_exit(r, key, obj=SELF):
    return item_at_exit(r, attr_at_exit(r, "fdict", obj), key)


def calls(r, pred):
    """call events whose callee satisfies pred(func term)"""
    return [e for e in r.events if e.kind == "call" and pred(e.func)]


def callee(name):
    """predicate: external/builtin dotted name, or repo function with this last component"""
    def f(t):
        if t.op == "sym" and t.args[0] in ("ext", "builtin"):
            return t.args[1] == name
        if t.op == "func":
            return t.args[0].split(".")[-1] == name
        return False
    return f


def meth(name):
    return lambda t: t.op == "attr" and t.args[1] == name


def union_guard(es, may=False):
    g = FALSE
    for e in es:
        g = b_or(g, e.may if may else e.guard)
    return g


def where(fn):
    return fn.where()


def golden(c, fn, mod, src, aspects, args=None, tag=None, guard_ret=True, restrict=None, **k):
    """compare the listed aspects of a function with those of a reference function"""
    args = quiet(fn, args)
    r = c.run(fn, args, **dict(k))
    s = c.ref(mod, src, args, **dict(k))
    aspects_of(c, fn, r, s, aspects, tag, guard_ret, restrict)
    return r, s


def quiet(fn, args=None, names=("verbose", "debug")):
    """printing options fixed to False (C09 decides separately that they do not matter)"""
    args = dict(args or {})
    a = fn.node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        if p.arg in names:
            args.setdefault(p.arg, FALSE)
    return args


_ne = {}


def noexc(t):
    """the value when no library call fails (failure paths have rules of their own)"""
    return T.rebuild(strip(t), lambda u: FALSE if u.op == "exc" else u, _ne)


def gate(r, v, on=True):
    return ite(raise_guard(r), RAISED, v) if on else v


def aspects_of(c, fn, r, s, aspects, tag=None, guard_ret=True, restrict=None):
    t = tag or fn.qual.split(".", 1)[-1]
    w = fn.where()
    rs = noexc if restrict is None else restrict

    def same(lbl, a, b):
        c.same(f"{t}: {lbl}", rs(strip(a)), rs(strip(b)), w, r)
    for a in aspects:
        if a == "ret":
            same("returned value", gate(r, r.ret, guard_ret), gate(s, s.ret, guard_ret))
        elif a.startswith("ret["):
            i = int(a[4:-1])
            same(f"returned value {i}", gate(r, T.index(strip(r.ret), const(i)), guard_ret), gate(s, T.index(strip(s.ret), const(i)), guard_ret))
        elif a.startswith("attr:"):
            n = a[5:]
            same(f"model attribute `{n}` afterwards", gate(r, attr_at_exit(r, n)), gate(s, attr_at_exit(s, n)))
        elif a.startswith("fdict:"):
            n = a[6:]
            same(f"metadata entry `{n}` afterwards", gate(r, fdict_at_exit(r, n)), gate(s, fdict_at_exit(s, n)))
        elif a == "raises":
            ra, rb = explicit_raises(r), explicit_raises(s)
            same("condition under which an error is raised", raise_guard(r), raise_guard(s))
            for n in sorted(rb):
                if n in ra:
                    same(f"condition of {n}", ra[n], rb[n])
        elif a.startswith("calls:"):
            n = a[6:]
            pred = meth(n[1:]) if n.startswith(".") else callee(n)
            ea, eb = calls(r, pred), calls(s, pred)
            same(f"condition under which `{n}` is called", union_guard(ea), union_guard(eb))
            same(f"arguments of `{n}`", callarg(ea), callarg(eb))
        else:
            raise ValueError(a)


def callarg(es):
    """gated tuple of the argument terms of a group of calls (last matching call wins)"""
    v = NONE
    for e in es:
        a = e.bound or raw("call", e.func, tuple(strip(x) for x in e.args), tuple(sorted(((k, strip(x)) for k, x in e.kwargs), key=lambda kv: kv[0])))
        v = ite(e.guard, a, v)
    return v


# ------------------------------------------------------------------ in-place writes
def leaves(t, g=TRUE):
    if t.op == "phi":
        yield from leaves(t.args[1], b_and(g, t.args[0]))
        yield from leaves(t.args[2], b_and(g, b_not(t.args[0])))
    elif g is not FALSE:
        yield g, t


def owner(t):
    """the object whose storage a reference denotes: (root term, fresh?)"""
    while True:
        if t.op == "new":
            return t, True
        if t.op in ("store", "updated", "mutated"):
            t = t.args[0]
        elif t.op in ("sub", "tr"):            # element or view
            t = t.args[0]
        elif t.op == "slice":
            t = t.args[0]
        else:
            return t, False


def origins(t, r, g=TRUE, depth=0):
    """(guard, root, fresh?) of the objects a reference may denote; a loop-carried reference denotes its start value at first"""
    for g1, l in leaves(t, g):
        o, fresh = owner(l)
        if not fresh and o.op == "mu" and depth < 8 and o in r.interp.mu_init:
            yield from origins(r.interp.mu_init[o], r, g1, depth + 1)
        elif not fresh and o.op == "phi":
            yield from origins(o, r, g1, depth)
        else:
            yield g1, o, fresh


def inplace(r):
    """(event, guard, root) of every write into an object that existed before the call"""
    for e in r.events:
        if e.kind not in ("setitem", "mutate", "delitem", "augitem"):
            continue
        for g, o, fresh in origins(e.target, r, e.may):
            if not fresh:
                yield e, g, o


def is_input(o, names=None):
    return o.op == "sym" and o.args[0] == "param" and (names is None or o.args[1] in names)


def untouched(c, rule, r, fn, bad):
    """no in-place write to an object for which bad(root) holds"""
    hit = None
    for e, g, o in inplace(r):
        if g is not FALSE and bad(o):
            hit = (e, g, o)
            c.violate(rule, e.where, f"writes in place into {T.show(o, 6)}" + (f" when {T.show(g, 8)[:300]}" if g is not TRUE else ""))
    if hit is None:
        c.require(rule, True, fn.where())
