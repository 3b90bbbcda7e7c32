"""C07, C08: what an operation may leave behind on the model and on its inputs"""

from .common import *
from vflow.compare import loopish
from vflow.flow import API, Budget

SOLUTION = ("par", "ppar", "par_fix", "sys", "hx", "precalc_mat", "x_bar", "lks", "vv", "evv", "parameters", "prior_arg", "data", "filter",
            "fdict", "observables", "shocks", "QQ", "parafunc")
PARFIX = raw("attr", SELF, "par_fix")


def under(assume):
    """restriction to the given truth values of conditions"""
    memo = {}
    return lambda t: T.rebuild(strip(t), lambda u: const(assume[u]) if u in assume else u, memo)


def exits(r):
    """(guard, state, label) of the normal exit and of every explicit error"""
    yield TRUE, r.st, "on return"
    for g, e, w, st in r.raises:
        if exc_name(e) is not None and st is not None:
            yield g, st, f"when {exc_name(e)} is raised at {w}"


def unchanged(c, rule, fn, r, attrs, assume, label=""):
    """the listed attributes of the model hold at every exit what they held at entry"""
    rs = under(assume)
    bad = False
    for g0, st, lbl in exits(r):
        g0 = rs(g0)
        if g0 is FALSE:
            continue
        for a in attrs:
            v = st.vals.get((SELF, a))
            if v is None:
                continue
            for g, l in leaves(rs(v), g0):
                if l is raw("attr", SELF, a) or not feasible(g):
                    continue
                bad = True
                d = f"model attribute `{a}` is {T.show(l, 5)[:300]} {lbl}" + (f", if {T.show(g, 6)[:300]}" if g is not TRUE else "")
                if loopish(l) and not T.contains(l, lambda u: u.op == "eff"):
                    c.undecided(rule, fn.where(), d)
                else:
                    c.violate(rule, fn.where(), d)
                break
    if not bad:
        c.require(rule, True, fn.where())


def feasible(g):
    if g is TRUE:
        return True
    if g is FALSE:
        return False
    return any(True for _ in paths(g))


def paths(g, acc=()):
    if g is TRUE:
        if T.consistent(list(acc)):
            yield acc
    elif g is FALSE:
        return
    elif g.op == "phi":
        for v, b in ((True, g.args[1]), (False, g.args[2])):
            p = acc + ((g.args[0], v),)
            if T.consistent(list(p)):
                yield from paths(b, p)
    else:
        p = acc + ((g, True),)
        if T.consistent(list(p)):
            yield p


def views(t):
    """object whose storage a value shares, or None if it is fresh"""
    while True:
        if t.op == "new":
            return None
        if t.op in ("store", "updated", "mutated", "tr", "slice"):
            t = t.args[0]
        elif t.op == "sub":
            i = t.args[1]
            if i.op == "attr" and i.args[1] == "prior_arg" or i.op in ("list", "comp"):
                return None                     # selection by a list of positions copies
            t = t.args[0]
        else:
            return t


CALIB_FUNCS = [("get_par", "m"), ("set_par", "m"), ("box_check", "m"), ("get_cov", "m"), ("irfs", "m"), ("simulate", "m"), ("o_func", "m"),
               ("prep_estim", "m"), ("create_filter", "m"), ("run_filter", "m"), ("gensys.gen_sys_from_yaml", "f"), ("gensys.gen_sys", "f"),
               ("mpile.prior_sampler", "f"), ("mpile.posterior_sampler", "f"), ("stats.post_mean", "f"), ("get_sample", "m")]


def get(c, n, kind):
    return c.method(n) if kind == "m" else c.func(*n.split("."))


def writes_calibration(r):
    """in-place writes that may hit the calibrated vector, directly or through an alias held by the current parameters"""
    for e in r.events:
        if e.kind in ("setitem", "mutate", "delitem", "augitem"):
            for g, l in leaves(e.target, e.may):
                o = views(l)
                if o is None or g is FALSE:
                    continue
                for g2, l2 in leaves(o, g):
                    o2 = views(l2)
                    if o2 is PARFIX:
                        yield e, g2
        elif e.kind == "setattr" and e.args and False:
            pass


def c07(c):
    for n, kind in CALIB_FUNCS:
        fn = get(c, n, kind)
        try:
            r = c.run(fn, quiet(fn))
        except (Budget, T.TooBig, RecursionError):
            c.undecided(f"{n}: calibration not written in place", fn.where(), "analysis budget")
            continue
        hit = False
        for e, g in writes_calibration(r):
            if feasible(strip(g)):
                hit = True
                c.violate(f"{n}: calibration not written in place", e.where, "writes into the calibrated vector `par_fix`" + (f" when {T.show(strip(g), 6)[:300]}" if g is not TRUE else ""))
        if not hit:
            c.require(f"{n}: calibration not written in place", True, fn.where())
        # rebinding
        v = r.st.vals.get((SELF, "par_fix"))
        c.same(f"{n}: calibration kept", noexc(v) if v is not None else PARFIX, PARFIX, fn.where(), r)
    likelihood(c)
    getters(c)
    current(c)


def likelihood(c):
    """evaluating the posterior"""
    from . import estim
    r = c.ref("estimation", estim.CLIENT, {}, opaque=estim.OPEN)
    w = c.method("prep_estim").where()
    rule = "likelihood evaluation: calibration not written in place"
    hit = False
    for e, g in writes_calibration(r):
        if feasible(strip(g)):
            hit = True
            c.violate(rule, e.where, "writes into the calibrated vector `par_fix`")
    if not hit:
        c.require(rule, True, w)


def getters(c):
    fn = c.method("get_par")
    dummy = sym("param", "dummy")
    ass = {raw("hasattr", SELF, "par"): True}
    for nm in ("cov_mat", "prior"):
        ass[T.eq(dummy, const(nm))] = False
    ass[raw("hasattr", SELF, "bptrans")] = True
    r = c.run(fn, quiet(fn, {"npar": NONE}), opaque=API - {"posterior_sampler", "post_mean", "get_chain", "get_tune"})
    unchanged(c, "get_par: current parameters and solution kept", fn, r, SOLUTION[:10], ass)
    rs = under(ass)
    alias(c, "get_par: result is not the calibration", fn, r, rs)


def alias(c, rule, fn, r, rs=lambda t: t, root=PARFIX):
    hit = False
    for g, l in leaves(r.ret):
        if l.op in ("tuple",):
            els = l.args
        else:
            els = (l,)
        for x in els:
            o = views(x)
            if o is root and feasible(rs(strip(g))):
                hit = True
                c.violate(rule, fn.where(), f"returns {T.show(strip(x), 5)}, which shares storage with the calibrated vector")
                break
    if not hit:
        c.require(rule, True, fn.where())


def current(c):
    """the current parameter vector never shares storage with the calibration after solving"""
    fn = c.func("gensys", "gen_sys_from_yaml")
    r = c.run(fn, quiet(fn))
    rule = "gen_sys_from_yaml: current parameters are not the calibration itself"
    v = r.st.vals.get((SELF, "par"))
    hit = False
    if v is not None:
        for g, l in leaves(v):
            if views(l) is PARFIX and feasible(strip(g)):
                hit = True
    if hit:
        c.violate(rule, fn.where(), "`self.par` is bound to `self.par_fix`")
    else:
        c.require(rule, True, fn.where())


# ------------------------------------------------------------------ C08
def c08(c):
    ass = {raw("hasattr", SELF, "par"): True}
    for n, keep in (("irfs", SOLUTION), ("simulate", SOLUTION), ("mask", SOLUTION), ("o_func", SOLUTION), ("t_func", SOLUTION), ("shock2state", SOLUTION),
                    ("traj", SOLUTION), ("k_map", SOLUTION)):
        fn = c.method(n)
        r = c.run(fn, quiet(fn))
        unchanged(c, f"{n}: model kept", fn, r, keep, ass)
        names = {p.arg for p in fn.node.args.posonlyargs + fn.node.args.args + fn.node.args.kwonlyargs} - {"self"}
        rule = f"{n}: arguments not modified"
        hit = False
        for e, g, o in inplace(r):
            if is_input(o, names) and feasible(strip(g)):
                hit = True
                c.violate(rule, e.where, f"writes in place into the caller's `{o.args[1]}`")
        if not hit:
            c.require(rule, True, fn.where())
        rule = f"{n}: model arrays not written in place"
        hit = False
        for e, g, o in inplace(r):
            if o.op == "attr" and o.args[0] is SELF and o.args[1] in keep and feasible(strip(g)):
                hit = True
                c.violate(rule, e.where, f"writes in place into the model's `{o.args[1]}`")
        if not hit:
            c.require(rule, True, fn.where())
