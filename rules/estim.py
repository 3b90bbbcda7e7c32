"""C01-C03: the likelihood and posterior closures of an estimation"""

from .common import *
from vflow.flow import API

CLIENT = '''
def client(self, par, temp, N, linear, load_R, seed, dispatch, ncores, l_max, k_max, use_prior_transform):
    prep_estim(self, N=N, linear=linear, load_R=load_R, seed=seed, dispatch=dispatch, ncores=ncores, l_max=l_max, k_max=k_max,
               use_prior_transform=use_prior_transform, verbose=False)
    return self.lprob(par, temp=temp, verbose=False)
'''

REF = '''
def client(self, par, temp, N, linear, load_R, seed, dispatch, ncores, l_max, k_max, use_prior_transform):
    if linear is not None and linear and linear != 'IF':
        lm, km = 1, 0
    else:
        lm, km = l_max, k_max
    prep_estim(self, N=N, linear=linear, load_R=load_R, seed=seed, dispatch=dispatch, ncores=ncores, l_max=l_max, k_max=k_max,
               use_prior_transform=use_prior_transform, verbose=False)
    trans = self.bptrans
    if self.fdict["use_prior_transform"]:
        par = trans(par)
    lp = self.lprior(par)
    if np.isinf(lp):
        return lp
    if not temp:
        return lp
    full = self.par_fix.copy()
    full[self.prior_arg] = par
    self.gen_sys(par=list(full), l_max=lm, k_max=km, verbose=False)
    self.filter.Q = self.QQ(self.ppar) @ self.QQ(self.ppar)
    ll = get_ll(self, verbose=False, dispatch=dispatch) * temp
    if np.isinf(ll):
        return ll
    return ll + lp
'''

PREP = '''
def prep_estim(self, N=None, linear=None, load_R=False, seed=None, dispatch=False, ncores=None, l_max=3, k_max=16, dry_run=True,
               use_prior_transform=None, verbose=True, debug=False, **filterargs):
    if N is None:
        N = int(self.fdict["filter_n"]) if "filter_n" in self.fdict.keys() else 300
    if linear is None:
        linear = self.fdict["linear"] if "linear" in self.fdict.keys() else False
    elif linear and linear != 'IF':
        l_max, k_max = 1, 0
    if seed is None:
        seed = self.fdict["seed"] if "seed" in self.fdict.keys() else 0
    np.random.seed(seed)
    if not "reduced_form" in filterargs:
        filterargs["reduced_form"] = True
    if use_prior_transform is None:
        use_prior_transform = self.fdict["use_prior_transform"] if "use_prior_transform" in self.fdict.keys() else False
    self.fdict["filter_n"] = N
    self.fdict["linear"] = linear
    self.fdict["seed"] = seed
    self.fdict["use_prior_transform"] = use_prior_transform
    set_par(self, "prior_mean", verbose=False, l_max=l_max, k_max=k_max)
    if linear and linear != 'IF':
        self.create_filter(ftype="KalmanFilter", **filterargs)
    elif linear == 'IF':
        self.create_filter(ftype="IF", **filterargs)
    else:
        self.create_filter(N=N, ftype="EnKF", **filterargs)
    if "filter_R" in self.fdict.keys():
        self.filter.R = self.fdict["filter_R"]
    elif load_R:
        raise AttributeError("no R")
    if dry_run:
        if np.isinf(get_ll(self, verbose=False, dispatch=dispatch)):
            raise ValueError("zero likelihood")
    self.fdict["prior_names"] = [p for p in self.prior.keys()]
    self.ndim = len(self.prior.keys())
    pfrozen, lprior, bptrans, pinitv, bounds = get_prior(self.prior, verbose=False)
    self.fdict["frozen_prior"] = pfrozen
    self.fdict["prior_bounds"] = bounds
    self.fdict["init_value"] = pinitv
    self.lprior = lprior
    self.bptrans = bptrans if use_prior_transform else None
'''

OPEN = API - {"prep_estim"}


def client(c):
    r = c.ref("estimation", CLIENT, {}, opaque=OPEN)
    c.analysed |= r.interp.callees
    c.analysed.add("pydsge.estimation.prep_estim")
    c.events += len(r.events)
    return r


def rng(name):
    return callee("numpy.random." + name)


def handler_guards(r):
    return [e for e in r.events if e.kind == "call"]


def start(r):
    """sequence number of the call of the posterior closure"""
    es = [e for e in r.events if e.kind == "call" and e.func.op == "func" and ".lprob" in e.func.args[0]]
    if not es:
        raise AnalysisBroken("prep_estim leaves no posterior function `lprob` on the model")
    return es[0].seq


CONSUMERS = ("get_ll", "run_filter", "gen_sys_from_yaml", "gen_sys", "set_par", "create_filter")


def evaluation(r):
    """events of one likelihood evaluation"""
    s = start(r)
    return [e for e in r.events if e.seq > s]


def consuming(e):
    if e.kind != "call":
        return False
    f = e.func
    if f.op == "func":
        return f.args[0].split(".")[-1] in CONSUMERS
    if f.op == "sym" and f.args[0] == "ext":
        n = f.args[1]
        return n.startswith(("numpy.random.", "random.", "scipy.stats")) and n.split(".")[-1] not in ("get_state", "set_state", "seed")
    return False


def no_interrupt(g):
    """the guard when the failure (if any) is an ordinary exception"""
    def f(u):
        if u.op == "exctype":
            n = set(u.args[1])
            if n & {"Exception", "BaseException"}:
                return TRUE
            if n <= {"KeyboardInterrupt", "SystemExit", "GeneratorExit"}:
                return FALSE
        return u
    return T.rebuild(strip(g), f, {})


def interrupt(g):
    """the guard when the failure is a keyboard interrupt"""
    def f(u):
        if u.op == "exctype":
            return const(bool(set(u.args[1]) & {"KeyboardInterrupt", "BaseException"}))
        return TRUE if u.op == "exc" else u
    return T.rebuild(strip(g), f, {})


def c01(c):
    r = client(c)
    f = c.method("prep_estim")
    ev = evaluation(r)
    w = f.where()
    seeds = [e for e in ev if e.kind == "call" and rng("seed")(e.func)]
    cons = [e for e in ev if consuming(e)]
    gets = [e for e in ev if e.kind == "call" and rng("get_state")(e.func)]
    sets = [e for e in ev if e.kind == "call" and rng("set_state")(e.func)]
    if not cons:
        raise AnalysisBroken("the posterior function never evaluates the likelihood")
    seed = fdict_at_exit(r, "seed")
    # every random consumer is preceded by seeding with the configured seed
    for e in cons:
        pre = [s for s in seeds if s.seq < e.seq]
        g = union_guard(pre)
        miss = b_and(e.guard, b_not(g))
        nm = T.show(e.func, 4)
        if miss is not FALSE and T.implies(e.guard, g) is False:
            c.violate(f"llike: `{nm}` runs after seeding", e.where, "no call of np.random.seed precedes it on this path" if not pre else f"not seeded when {T.show(miss, 8)[:300]}")
        else:
            c.require(f"llike: `{nm}` runs after seeding", True, e.where)
    for e in seeds:
        c.same("llike: the configured seed is used", strip(e.args[0]) if e.args else NONE, strip(seed), e.where, r)
    # state saved before seeding, restored on every way out
    first = min([e.seq for e in cons + seeds])
    saved = [e for e in gets if e.seq < first]
    c.require("llike: the random state is saved before seeding", bool(saved), w, "np.random.get_state is not called before the generator is seeded")
    last_norm = max(e.seq for e in cons + seeds)
    entry = cons[-1].may
    any_eval = FALSE
    for e in cons + seeds:
        any_eval = b_or(any_eval, e.may)
    rest = FALSE
    for e in sets:
        ok = e.args and e.args[0].op == "call" and rng("get_state")(e.args[0].args[0]) and any(restored(e.args[0], s) for s in saved)
        if ok and e.seq > last_norm:
            rest = b_or(rest, e.guard)
        elif ok is False or not ok:
            c.violate("llike: the saved random state is the one restored", e.where, f"restores {T.show(e.args[0], 6) if e.args else 'nothing'}")
    # exits of the evaluation: ordinary ones must all be covered
    esc = FALSE
    for g, x, ww, _ in r.raises:
        if exc_name(x) is None or T.show(x, 3).startswith("reraise"):
            esc = b_or(esc, g)
    alive = evalguard(r)
    need = no_interrupt(b_and(alive, b_not(esc)))
    have = no_interrupt(rest)
    miss = b_and(need, b_not(have))
    if miss is FALSE:
        c.require("llike: the random state is restored on every return", True, w)
    elif T.contains(miss, lambda u: u.op in ("unknown", "whilespace")):
        c.undecided("llike: the random state is restored on every return", w, T.show(miss, 8)[:300])
    else:
        c.violate("llike: the random state is restored on every return", sets[-1].where if sets else w, f"not restored when {T.show(miss, 8)[:400]}")
    golden(c, f, "estimation", PREP, ["calls:numpy.random.seed", "fdict:seed"])


def restored(t, s):
    return s.value is None or strip(s.value) is t


def evalguard(r):
    """condition under which a likelihood evaluation takes place"""
    s = [e for e in evaluation(r) if e.kind == "call" and (rng("seed")(e.func) or consuming(e))]
    g = FALSE
    for e in s:
        for gg in (e.may,):
            g = b_or(g, gg)
    return g


def c02(c):
    r = client(c)
    f = c.method("prep_estim")
    w = f.where()
    ev = evaluation(r)
    # nothing but an interrupt leaves the evaluation
    cons = [e for e in ev if consuming(e)]
    if not cons:
        raise AnalysisBroken("the posterior function never evaluates the likelihood")
    for e in cons:
        nm = T.show(e.func, 4)
        ok = any(caught(t) for t in e.tries)
        c.require(f"llike: failures of `{nm}` are caught", ok, e.where, "this call is not protected by a handler for Exception")
    esc = FALSE
    for g, x, ww, _ in r.raises:
        n = T.show(x, 3)
        if ".prep_estim." in ww or "lprob" in ww or "llike" in ww:
            esc = b_or(esc, g)
    esc = no_interrupt(esc)
    if esc is FALSE:
        c.require("llike: no ordinary failure propagates", True, w)
    else:
        c.violate("llike: no ordinary failure propagates", w, f"an exception leaves the evaluation when {T.show(esc, 8)[:400]}")
    into, out = FALSE, FALSE
    for e in cons:
        into = b_or(into, e.may)
    for g, x, ww, _ in r.raises:
        out = b_or(out, g)
    miss = b_and(interrupt(into), b_not(interrupt(out)))
    if miss is not FALSE and T.contains(miss, lambda u: u.op in ("unknown", "whilespace")):
        c.undecided("llike: an interrupt propagates", w, T.show(miss, 8)[:300])
    else:
        c.require("llike: an interrupt propagates", miss is FALSE, w, f"a keyboard interrupt is swallowed when {T.show(miss, 8)[:300]}")
    # warnings are errors inside, and the warning filters are restored
    fw = [e for e in ev if e.kind == "call" and e.func.op == "sym" and e.func.args[1] in ("warnings.filterwarnings", "warnings.simplefilter")]
    good = [e for e in fw if e.args and e.args[0] is const("error") and len(e.args) == 1 and not e.kwargs and e.seq < cons[0].seq]
    c.require("llike: warnings count as failures", bool(good), w, "warnings are not turned into errors before the model is solved")
    # failing value
    val = no_interrupt(strip(gate(r, r.ret)))
    fail = T.rebuild(val, lambda u: TRUE if u.op == "exc" else u, {})
    ref = c.ref("estimation", FAILREF, {}, opaque=OPEN)
    c.same("lprob: value when solving or filtering fails", fail, strip(gate(ref, ref.ret)), w, r)
    # proposals outside the prior are not evaluated
    lp = c.ref("estimation", LPREF, {}, opaque=OPEN)
    inf = T.truth(strip(lp.ret))
    for e in cons:
        g = b_and(e.may, inf)
        c.require(f"lprob: `{T.show(e.func, 4)}` is not reached for proposals with infinite log-prior", g is FALSE, e.where,
                  f"reached when {T.show(g, 8)[:300]}")
    nan_guard(c)


FAILREF = REF.split("    full = ")[0] + '''    ll = -np.inf * temp
    if np.isinf(ll):
        return ll
    return ll + lp
'''
LPREF = REF.split("    if np.isinf(lp)")[0] + "    return np.isinf(lp)\n"


def caught(t):
    return t.op == "exc" and bool(set(t.args[0]) & {"Exception", "BaseException"}) if isinstance(t.args[0], tuple) else False


NAN = '''
def run_filter(self, smoother, get_ll, init_cov, dispatch, rcond, seed, verbose):
    res = self.filter.batch_filter(self.Z)
    if np.isnan(res):
        res = -np.inf
    self.ll = res
'''


def nan_guard(c):
    f = c.func("filtering", "run_filter")
    r = c.run(f, {"get_ll": TRUE, "smoother": FALSE, "verbose": FALSE}, opaque=set())
    v = strip(noexc(attr_at_exit(r, "ll")))
    w = f.where()
    bad = und = None
    n = 0
    for g, l in leaves(v):
        if l.op == "attr" or l.op == "eff":
            continue
        n += 1
        if is_neginf(l):
            continue
        a = raw("batom", "isnan", l)
        if b_and(g, a) is not FALSE:
            bad = (g, l)
    if n == 0:
        raise AnalysisBroken("run_filter does not record the likelihood")
    c.require("run_filter: a likelihood that is not a number is reported as minus infinity", bad is None, w,
              "" if bad is None else f"{T.show(bad[1], 6)[:300]} is returned even if it is not a number")
    rv = strip(noexc(r.ret))
    c.same("run_filter: the returned likelihood is the recorded one", gate(r, rv), gate(r, v), w, r)
    g = c.func("filtering", "get_ll")
    golden(c, g, "filtering", "def get_ll(self, **args):\n    return run_filter(self, smoother=False, get_ll=True, **args)\n", ["ret"])


def is_neginf(l):
    return T.show(l, 4) in ("(-1*numpy.inf)", "-1*numpy.inf")


def c03(c):
    f = c.method("prep_estim")
    r = client(c)
    s = c.ref("estimation", REF, {}, opaque=OPEN)
    w = f.where()
    c.same("lprob: value at a proposal", noexc(gate(r, r.ret)), noexc(gate(s, s.ret)), w, r)
    for n in ("get_ll", "gen_sys_from_yaml"):
        i, j = evaluation(r), s.events
        ea = [e for e in i if e.kind == "call" and callee(n)(e.func)]
        k = [e for e in j if e.kind == "call" and callee(n)(e.func) and "spec" in str(e.stack[-1]) or "client" in str(e.stack[-1]) and e.kind == "call" and callee(n)(e.func)]
        c.same(f"llike: condition under which `{n}` runs", noexc(union_guard(ea)), noexc(union_guard(k)), w, r)
        c.same(f"llike: arguments of `{n}`", noexc(callarg(ea)), noexc(callarg(k)), w, r)
    golden(c, f, "estimation", PREP, ["attr:lprior", "attr:bptrans", "fdict:use_prior_transform", "fdict:linear", "fdict:filter_n",
                                      "fdict:prior_names", "fdict:frozen_prior", "fdict:prior_bounds", "fdict:init_value", "attr:ndim",
                                      "calls:set_par", "calls:create_filter", "raises"])
