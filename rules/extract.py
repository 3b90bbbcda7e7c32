"""C29 (parallel mapping) and C31 (extraction of smoothed shocks)"""

from vflow import terms as T
from vflow.terms import FALSE, TRUE, NONE, raw, const, sym, b_not
from vflow.flow import strip, EXT
from .common import golden, quiet, union_guard, noexc, SELF
from .sim import IRFS, SIMULATE

EXTRACT = '''
def extract(self, sample=None, nsamples=1, init_cov=None, precalc=True, seed=0, nattemps=4, accept_failure=False, verbose=True, debug=False, l_max=None, k_max=None, **npasargs):
    from grgrlib import map2arr
    if sample is None:
        sample = None if type(self).__name__ == "DSGE_DUMMY" else self.par
    if np.ndim(sample) <= 1:
        sample = [sample]
    np.random.seed(seed)
    if getattr(self, "pool", None) is not None:
        from .estimation import create_pool
        create_pool(self)
    kalman = self.filter.name == "KalmanFilter"
    if self.filter.name == "ParticleFilter":
        raise NotImplementedError
    if kalman:
        nsamples = 1
        debug = not hasattr(self, "debug") or self.debug
        self.debug = True
    else:
        if self.filter.reduced_form:
            self.create_filter(R=self.filter.R, N=self.filter.N, reduced_form=False)
        npas = serializer(self.filter.npas)
    run_filter = serializer(self.run_filter)
    self.debug |= debug
    if sample[0] is not None:
        set_par = serializer(self.set_par)
    t_func = serializer(self.t_func)
    obs_func = serializer(self.obs)
    get_eps = serializer(self.get_eps_lin)
    dimeps = self.dimeps
    dimp = self.dimp
    seeds = np.random.randint(2 ** 31, size=nsamples)
    work = [(x, y) for x in sample for y in seeds]

    def runner(arg):
        par, draw = arg
        if par is not None:
            set_par(par, l_max=l_max, k_max=k_max)
        res = run_filter(verbose=verbose > 2, seed=draw, init_cov=init_cov)
        if kalman:
            means, covs = res
            res = means.copy()
            resid = np.empty((means.shape[0] - 1, dimeps))
            for t, x in enumerate(means[1:]):
                resid[t] = get_eps(x, res[t])
                res[t + 1] = t_func(res[t], resid[t], linear=True)[0]
            return par, res[0], resid, 0
        np.random.shuffle(res)
        target = np.dstack((obs_func(res), res[..., dimp:]))
        first = res[:, 0, :]

        def step(states, eps):
            (q, pobs), flag = t_func(states, eps, get_obs=True)
            return np.hstack((pobs, q)), flag

        for natt in range(nattemps):
            try:
                init, resid, flags = npas(func=step, X=target, init_states=first, verbose=max(len(target) == 1, verbose - 1), seed=draw + natt, nsamples=1, **npasargs)
                return par, init, resid[0], flags
            except Exception as e:
                problem = e
        if accept_failure:
            return None
        raise type(problem)(str(problem) + " (after %s unsuccessful attemps)." % (natt + 1))

    res = self.mapper(runner, work)
    pars, init, resid, flags = map2arr(res)
    if hasattr(self, "pool") and self.pool:
        self.pool.close()
    if kalman:
        self.debug = debug
    if resid.shape[0] == 1:
        resid[0] = pd.DataFrame(resid[0], index=self.data.index[:-1], columns=self.shocks)
    return {"pars": pars, "init": init, "resid": resid, "flags": flags}
'''

CREATE_POOL = '''
def create_pool(self, ncores=None, threadpool_limit=None):
    import pathos
    if getattr(self, "pool", None) is not None:
        ncores = ncores or self.pool.ncpus
        self.pool.close()
    else:
        ncores = ncores or pathos.multiprocessing.cpu_count()
    if threadpool_limit:
        self.threadpool_limit = threadpool_limit
    elif not hasattr(self, "threadpool_limit"):
        self.threadpool_limit = 1
    self.pool = pathos.pools.ProcessPool(ncores)
    self.pool.clear()
    return self.pool
'''

MAPPER = '''
def mapper(self):
    if getattr(self, "pool", None) is not None and not self.debug:
        return self.pool.imap
    return map
'''


EPS = '''
def get_eps_lin(self, x, xp, rcond=1e-14):
    pmat, qmat = self.precalc_mat[0], self.precalc_mat[1]
    if self.filter.name == "KalmanFilter":
        F = self.filter.F
        E = np.vstack((pmat[1, 0][:, -self.neps:], qmat[1, 0][:-self.neps, -self.neps:]))
    else:
        F = qmat[1, 0][:, :-self.neps]
        E = qmat[1, 0][:, -self.neps:]
    return np.linalg.pinv(E, rcond) @ (x - F @ xp)
'''


def c31(c):
    golden(c, c.method("get_eps_lin"), "filtering", EPS, ["ret"])
    golden(c, c.method("extract"), "filtering", EXTRACT, ["ret", "raises", "calls:.run_filter", "calls:.set_par", "calls:.create_filter"])
    golden(c, c.method("extract"), "filtering", EXTRACT, ["ret", "raises"], restrict=lambda t: t, tag="extract, attempts that fail included")


def c29(c):
    golden(c, c.method("create_pool"), "estimation", CREATE_POOL, ["attr:pool", "ret", "attr:threadpool_limit", "calls:.close", "calls:.clear"])
    golden(c, c.method("mapper"), "estimation", MAPPER, ["ret"])
    unordered(c)
    for name, mod, src in (("irfs", "tools", IRFS), ("simulate", "tools", SIMULATE), ("extract", "filtering", EXTRACT)):
        mapped(c, name, mod, src)


LOSES_ORDER = {"uimap", "imap_unordered", "amap", "map_async", "starmap_async", "apply_async", "as_completed"}


def unordered(c):
    """no operation of the package takes results in the order in which workers finish"""
    import ast
    for m in c.prog.modules.values():
        for n in ast.walk(m.tree):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if nm in LOSES_ORDER:
                c.violate("no results in order of completion", f"{m.path}:{n.lineno}", f"`{nm}` gives results in an order that depends on the schedule")
    c.require("no results in order of completion", True, "pydsge/*.py")


def mapped(c, name, mod, src):
    """what is distributed is the list of inputs, and what is collected is that mapping, item by item"""
    fn = c.method(name)
    args = quiet(fn)
    r, s = c.run(fn, args), c.ref(mod, src, args)
    MAP = raw("attr", SELF, "mapper")
    ea, eb = ([e for e in x.events if e.kind == "call" and e.func is MAP and len(e.args) == 2] for x in (r, s))
    rule = f"{name}: "
    if len(ea) != 1:
        c.undecided(rule + "items distributed", fn.where(), f"{len(ea)} distributed mappings")
        return
    c.same(rule + "condition under which work is distributed", noexc(union_guard(ea)), noexc(union_guard(eb)), fn.where(), r)
    c.same(rule + "items distributed", noexc(strip(ea[0].args[1])), noexc(strip(eb[0].args[1])), fn.where(), r)
    ga, gb = ([e for e in x.events if e.kind == "call" and e.func is EXT("grgrlib.map2arr")] for x in (r, s))
    if len(ga) != 1 or strip(ga[0].args[0]).op != "comp":
        c.undecided(rule + "items collected", fn.where(), "collected in another way")
        return
    ca, cb = strip(ga[0].args[0]), strip(gb[0].args[0])
    c.same(rule + "items collected", noexc(raw("tuple", ca.args[0], ca.args[2])), noexc(raw("tuple", cb.args[0], cb.args[2])), fn.where(), r)
