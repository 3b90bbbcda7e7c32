"""C33 (variance decomposition), C34 (names, positions and labels), C35 (prior draws)"""

from vflow import terms as T
from vflow.terms import FALSE, TRUE
from vflow.flow import strip
from . import data
from .common import golden, quiet, gate, noexc, RAISED

GFEVD = '''
def gfevd(self, eps_dict, horizon=1, nsamples=None, linear=False, seed=0, verbose=True, **args):
    np.random.seed(seed)
    states = eps_dict["means"]
    if np.ndim(states) == 2:
        states = np.expand_dims(states, 0)
    states = states[:, :-1, :]
    pars = eps_dict["pars"]
    resids = eps_dict["resid"]
    if np.ndim(resids) > 2:
        pars = pars.repeat(resids.shape[1], axis=0)
        resids = resids.reshape(-1, resids.shape[-1])
    if np.ndim(states) > 2:
        states = states.reshape(-1, states.shape[-1])
    n = nsamples or resids.shape[0]
    draw = np.random.choice(np.arange(resids.shape[0]), n, replace=False)
    gis = np.zeros((len(self.shocks), len(self.vv)))
    for eps, state, par in zip(resids[draw], states[draw], pars[draw]):
        if par is not None:
            self.set_par(par, **args)
        for i, e in enumerate(self.shocks):
            hit = self.irfs((e, eps[i], 0), T=horizon, state=state, linear=linear)[0].to_numpy()[-1]
            void = self.irfs((e, 0, 0), T=horizon, state=state, linear=linear)[0].to_numpy()[-1]
            gis[i] += (hit - void) ** 2
    gis /= np.sum(gis, axis=0)
    return pd.DataFrame(gis, index=self.shocks, columns=self.vv)
'''

VIX = '''
def vix(self, variables, dontfail=False):
    if isinstance(variables, str):
        variables = [variables]
    res = []
    for v in variables:
        try:
            res.append(list(self.vv).index(v))
        except ValueError:
            if not dontfail:
                raise
    return res
'''

OIX = '''
def oix(self, observables):
    if isinstance(observables, str):
        observables = [observables]
    return [list(self.observables).index(v) for v in observables]
'''

TRACE = '''
def traceplot_m(self, chain=None, prior_names=None, **args):
    if chain is None:
        chain = self.get_chain()
        args["tune"] = self.get_tune
    if prior_names is None:
        prior_names = self.fdict["prior_names"]
    return ew.traceplot(chain, varnames=prior_names, **args)
'''

POSTP = '''
def posteriorplot_m(self, **args):
    return ew.posteriorplot(self.get_chain(), varnames=self.fdict["prior_names"], tune=self.get_tune, **args)
'''

PRIOR = '''
def prior_sampler(self, nsamples, try_parameter=True, check_likelihood=False, verbose=True, debug=False, **kwargs):
    if check_likelihood and not hasattr(self, "ndim"):
        self.prep_estim(load_R=True, verbose=verbose > 2)
    frozen = self.fdict.get("frozen_prior")
    if not np.any(frozen):
        frozen = get_prior(self.prior, verbose=verbose)[0]
    self.debug |= debug
    if not debug and getattr(self, "pool", None) is not None:
        from .estimation import create_pool
        create_pool(self)
    check = False
    if check_likelihood:
        raw = serializer(self.lprob)
        def check(p):
            return raw(p, linear=None, verbose=verbose > 1, use_prior_transform=False)
    elif try_parameter:
        check = serializer(self.set_par)
    return get_prior_sample(frozen, nsamples, check_func=check, mapper=self.mapper, verbose=verbose, **kwargs)
'''


BOX = '''
def box_check(self, par=None):
    if par is None:
        par = np.array(self.par)[self.prior_arg]
    for i, name in enumerate(self.fdict["prior_names"]):
        lower, upper = self.fdict["prior_bounds"]
        if par[i] < lower[i]:
            print("[box_check:]".ljust(15, " ") + " Parameter %s of %s lower than lb of %s." % (name, par[i].round(5), lower[i]))
        if par[i] > upper[i]:
            print("[box_check:]".ljust(15, " ") + " Parameter %s of %s higher than ub of %s." % (name, par[i].round(5), upper[i]))
'''

INFO = '''
def info_m(self, verbose=True, **args):
    try:
        name = self.name
    except AttributeError:
        name = self.fdict["name"]
    try:
        description = self.description
    except AttributeError:
        description = self.fdict["description"]
    try:
        dtime = str(self.fdict["datetime"])
    except KeyError:
        dtime = ""
    res = "Title: %s\\n" % name
    if dtime:
        res += "Date: %s\\n" % dtime
    res += "Description: %s\\n" % description
    try:
        shape = self.get_chain().shape
        tune = self.get_tune
        res += "Parameters: %s\\n" % shape[2]
        res += "Chains: %s\\n" % shape[1]
        res += "Last %s of %s samples\\n" % (tune, shape[0])
    except (AttributeError, KeyError):
        pass
    return res
'''


def member(t, v):
    """the value when every requested name is (not) a name of the model"""
    def put(u):
        if u.op == "in" and u.args[1].op == "attr" and u.args[1].args[1] in ("vv", "observables"):
            return v
        return T.raw("list") if u.op == "comp" and u.args[2] is FALSE else u
    return T.rebuild(t, put, {})


def unknown(c, f, r):
    """names the model does not have end in an error: raised explicitly, or by the lookup of their position"""
    t = member(noexc(strip(gate(r, r.ret))), FALSE)
    for g, x in T.leaves(t):
        c.require(f"{f.qual.split('.', 1)[-1]}: a name the model does not have is an error", x is RAISED or
                  any(u.op == "attr" and u.args[1] == "index" or u.op in ("exc", "mutated") for u in T.subterms(x)), f.where(),
                  "returns " + T.show(x, 5) + " for names that are not in the model")


def priornames(t):
    """the names of the estimated parameters are kept both on the model and in the metadata"""
    def put(u):
        if u.op == "sub" and u.args[0].op == "attr" and u.args[0].args[1] == "fdict" and u.args[1] is T.const("prior_names"):
            return T.raw("attr", u.args[0].args[0], "prior_names")
        return u
    return T.rebuild(noexc(t), put, {})


def c33(c):
    f = c.method("gfevd")
    golden(c, f, "stats", GFEVD, ["ret", "calls:set_par", "calls:numpy.random.seed"], args=quiet(f), symkw=True)


def c34(c):
    f = c.method("vix")
    golden(c, f, "clsmethods", VIX, ["ret", "raises"], args={"dontfail": TRUE}, tag="clsmethods.vix, skipping unknown names")
    r, _ = golden(c, f, "clsmethods", VIX, ["ret"], args={"dontfail": FALSE}, restrict=lambda t: member(noexc(t), TRUE))
    unknown(c, f, r)
    f = c.method("oix")
    r, _ = golden(c, f, "clsmethods", OIX, ["ret"], restrict=lambda t: member(noexc(t), TRUE))
    unknown(c, f, r)
    golden(c, c.method("traceplot"), "clsmethods", TRACE, ["ret"], symkw=True, restrict=priornames)
    golden(c, c.method("posteriorplot"), "clsmethods", POSTP, ["ret"], symkw=True, restrict=priornames)


def c35(c):
    f = c.method("prior_sampler")
    golden(c, f, "mpile", PRIOR, ["ret", "calls:prep_estim", "calls:create_pool"], args=quiet(f), symkw=True)


def c36(c):
    m = c.method
    golden(c, m("get_tune"), "clsmethods", data.GET_TUNE, ["ret"])
    golden(c, m("get_log_prob"), "clsmethods", data.GET_LOG_PROB, ["ret"])
    golden(c, m("mcmc_summary"), "clsmethods", data.SUMMARY, ["ret", "raises"], symkw=True)
    golden(c, m("mdd"), "stats", data.MDD, ["ret", "raises"], symkw=True, restrict=data.poolkept)
    golden(c, m("posterior2csv"), "clsmethods", data.CSV, ["calls:.to_csv"])
    golden(c, c.func("stats", "post_mean"), "stats", data.POST_MEAN, ["ret"])


def c37(c):
    m = c.method
    golden(c, m("box_check"), "mpile", BOX, ["calls:print", "raises"])
    golden(c, m("info"), "clsmethods", INFO, ["ret"], restrict=strip)
