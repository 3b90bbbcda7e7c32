"""C16 stored results, C17/C18 sampler driver, C19 chains, C20 data"""

import ast

from .common import *
from .purity import under, unchanged, feasible, SOLUTION
from vflow.flow import API

# ------------------------------------------------------------------ C20
LOAD_DATA = '''
def load_data(self, df, start=None, end=None):
    import cloudpickle as cpickle
    if not isinstance(df, pd.DataFrame):
        raise TypeError("not a table")
    for o in self.observables:
        if str(o) not in df.keys():
            raise KeyError("observable missing")
    d = df[self.observables].loc[None if start is None else str(start):None if end is None else str(end)]
    if np.any(d.isna()):
        raise Exception("missing values")
    self.data = d
    self.fdict["data"] = cpickle.dumps(d, protocol=4)
    self.fdict["obs"] = self.observables
    return d
'''


def c20(c):
    fn = c.method("load_data")
    some = {raw("isnone", SELF): False}
    rs = lambda t: noexc(under(some)(t))
    golden(c, fn, "clsmethods", LOAD_DATA, ["ret", "raises", "attr:data", "fdict:data", "fdict:obs"], restrict=rs)


# ------------------------------------------------------------------ C16
SAVE_META = '''
def save_meta(self, filename=None, verbose=True):
    filename = filename or os.path.join(self.path, self.name + "_meta")
    if hasattr(self, "description"):
        self.fdict["description"] = self.description
    if hasattr(self, "backend_file"):
        self.fdict["backend_file"] = self.backend_file
    if hasattr(self, "tune"):
        self.fdict["tune"] = self.tune
    if hasattr(self, "name"):
        self.fdict["name"] = self.name
    if hasattr(self, "filter"):
        try:
            self.fdict["filter_R"] = self.filter.R
            self.fdict["filter_P"] = self.filter.P
        except:
            pass
    np.savez_compressed(filename, **self.fdict)
'''

SAVE_RDICT = '''
def save_rdict(self, rdict, path=None, suffix="", verbose=True):
    if not isinstance(path, str):
        path = self.name + "_res"
    if path[-4:] == ".npz":
        path = path[:-4]
    if not os.path.isabs(path):
        path = os.path.join(self.path, path)
    np.savez_compressed(path + suffix, **rdict)
'''

LOAD_RDICT = '''
def load_rdict(self, path=None, suffix=""):
    if not isinstance(path, str):
        path = self.name + "_res"
    if path[-4:] == ".npz":
        path = path[:-4]
    if not os.path.isabs(path):
        path = os.path.join(self.path, path)
    path = path + suffix
    if path[-4:] != ".npz":
        path = path + ".npz"
    return dict(np.load(path, allow_pickle=True))
'''


# what a caller sees of a model restored from its stored metadata
LOADED = '''
def client(npzfile, force_parse):
    m = DSGE.load(npzfile, force_parse)
    return m, m.name, m.path, m.data, m.debug, m.fdict["prior"], m.fdict["mode_x"]
'''

LOAD = '''
def client(npzfile, force_parse):
    import tempfile
    stored = dict(np.load(npzfile, allow_pickle=True))
    if sys.version_info.minor < 10 or force_parse:
        text = str(stored["yaml_raw"])
        hit = crawl_cached_models(text, str(stored.get("ffile_raw")))
        if hit is not None:
            m = deepcopy(hit)
        else:
            f = tempfile.NamedTemporaryFile("w", suffix=".py", delete=False)
            m = DSGE.parse(text, f.name, verbose=False, debug=False)
    else:
        m = cpickle.loads(stored["model_dump"])
    name, data = str(stored["name"]), cpickle.loads(stored["data"])
    m.fdict = stored
    m.name, m.path, m.data = name, os.path.dirname(npzfile), data
    stored["model_dump"] = cpickle.dumps(m, protocol=4)
    for key in stored:
        if str(stored[key]) == "None":
            stored[key] = None
    return m, name, os.path.dirname(npzfile), data, False, stored["prior"], stored["mode_x"]
'''


def restored(c):
    fn = c.method("load")
    r = c.ref("parser", LOADED, {}, opaque=API - {"load"})
    s = c.ref("parser", LOAD, {}, opaque=API - {"load"})
    c.analysed |= r.interp.callees
    for i, n in enumerate(("model", "name", "path", "data", "debug flag", "priors", "posterior mode")):
        c.same(f"load: {n}", noexc(T.index(strip(r.ret), const(i))), noexc(T.index(strip(s.ret), const(i))), fn.where(), r)


def c16(c):
    restored(c)
    fn = c.method("save")
    golden(c, fn, "clsmethods", SAVE_META, ["calls:numpy.savez_compressed"] + ["fdict:" + k for k in ("description", "backend_file", "tune", "name", "filter_R", "filter_P")])
    golden(c, c.method("save_rdict"), "clsmethods", SAVE_RDICT, ["calls:numpy.savez_compressed"])
    golden(c, c.method("load_rdict"), "clsmethods", LOAD_RDICT, ["ret"])


# ------------------------------------------------------------------ C17 / C18
MCMC = '''
def mcmc(self, p0=None, nsteps=3000, nwalks=None, tune=None, moves=None, temp=False, seed=None, backend=True, suffix=None, resume=False,
         append=False, verbose=True, **kwargs):
    if not hasattr(self, "ndim"):
        self.prep_estim(load_R=True)
    np.random.seed(self.fdict["seed"] if seed is None else seed)
    self.tune = int(nsteps / 5.0) if tune is None else tune
    if "description" in self.fdict.keys():
        self.description = self.fdict["description"]
    if hasattr(self, "debug") and self.debug:
        self.pool = None
    elif getattr(self, "pool", None) is not None:
        from .estimation import create_pool
        create_pool(self)
    lprob_global = serializer(self.lprob)
    if isinstance(temp, bool) and not temp:
        temp = 1
    linear = self.filter.name == "KalmanFilter"

    def lprob(par):
        return lprob_global(par, linear=linear, verbose=verbose > 1, temp=temp)

    if self.pool:
        self.pool.clear()
    if p0 is None and not resume:
        p0 = get_par(self, "prior_mean" if temp < 1 else "best", asdict=False, full=False, nsamples=nwalks or 1, verbose=verbose > 1)
    elif not resume:
        nwalks = p0.shape[0]
    store = None
    if backend:
        if isinstance(backend, str):
            self.fdict["backend_file"] = backend
        try:
            backend = self.fdict["backend_file"]
        except KeyError:
            backend = os.path.join(self.path, self.name + (str(suffix) if suffix else "_sampler.h5"))
            if os.path.exists(backend) and not (resume or append):
                os.remove(backend)
        store = emcee.backends.HDFBackend(backend)
        if not (resume or append):
            if not nwalks:
                raise TypeError("number of walkers unknown")
            try:
                store.reset(nwalks, self.ndim)
            except KeyError as e:
                raise KeyError("damaged file")
    sampler = ew.run_mcmc(lprob, nsteps, p0, moves=moves, priors=self.prior, backend=store, resume=resume, pool=self.pool,
                          description=self.description, prior_transform=self.bptrans, temp=temp, verbose=verbose, **kwargs)
    self.temp = temp
    self.sampler = sampler
    if temp == 1:
        log_probs = sampler.get_log_prob()[-self.tune:]
        chain = sampler.get_chain()[-self.tune:]
        chain = chain.reshape(-1, chain.shape[-1])
        best = log_probs.argmax()
        mode_x = chain[best].flatten()
        if self.bptrans:
            mode_x = self.bptrans(mode_x)
        self.fdict["mode_x"] = mode_x
        self.fdict["mode_f"] = log_probs.flat[best]
    self.fdict["datetime"] = str(datetime.now())
'''


def c17(c):
    golden(c, c.method("mcmc"), "mcmc", MCMC, ["calls:os.remove", "calls:.reset", "calls:emcwrap.run_mcmc", "calls:emcee.backends.HDFBackend", "fdict:backend_file", "raises"])


def c18(c):
    golden(c, c.method("mcmc"), "mcmc", MCMC, ["fdict:mode_x", "fdict:mode_f", "attr:tune", "attr:sampler", "attr:temp"])


# ------------------------------------------------------------------ C19
GET_CHAIN = '''
def get_chain(self, get_acceptance_fraction=False, get_log_prob=False, backend_file=None, flat=None, verbose=False):
    import emcee
    if backend_file:
        path = backend_file
    elif "backend_file" in self.fdict.keys():
        path = str(self.fdict["backend_file"])
    else:
        path = os.path.join(self.path, self.name + "_sampler.h5")
    if not backend_file and hasattr(self, "sampler"):
        reader = self.sampler
    else:
        if not os.path.exists(path):
            raise NameError("no backend")
        reader = emcee.backends.HDFBackend(path, read_only=True)
    if get_acceptance_fraction:
        try:
            return reader.acceptance_fraction
        except:
            return reader.accepted / reader.iteration
    if get_log_prob:
        return reader.get_log_prob(flat=flat)
    chain = reader.get_chain(flat=flat)
    if not hasattr(self, "bptrans"):
        self.load_estim(verbose=verbose)
    if self.bptrans:
        return self.bptrans(chain)
    return chain
'''

GET_TUNE = '''
def get_tune(self):
    return self.tune if hasattr(self, "tune") else self.fdict["tune"]
'''

GET_LOG_PROB = '''
def get_log_prob(self, **args):
    return get_chain(self, get_log_prob=True, **args)
'''

SUMMARY = '''
def mcmc_summary(self, chain=None, tune=None, **args):
    draws = self.get_chain() if chain is None else chain
    last = tune or self.get_tune
    dens = self.get_log_prob()
    return ew.mcmc_summary(draws[-last:], dens[-last:], priors=self.prior, acceptance_fraction=self.get_chain(get_acceptance_fraction=True), **args)
'''

SAMPLER = '''
def posterior_sampler(self, nsamples, seed=0, verbose=True):
    random.seed(seed)
    draws = self.get_chain()[-self.get_tune:]
    return random.choices(draws.reshape(-1, draws.shape[-1]), k=nsamples)
'''

POST_MEAN = '''
def post_mean(self, chain=None, tune=None):
    last = tune or self.get_tune
    draws = self.get_chain()[-last:] if chain is None else chain
    return draws.reshape(-1, draws.shape[-1]).mean(axis=0)
'''

CSV = '''
def posterior2csv(self, path=None, tune=None, **args):
    last = tune or self.get_tune
    draws = self.get_chain()
    flat = draws[-last:].reshape(-1, draws.shape[-1])
    pd.DataFrame(flat.T, index=self.prior_names).to_csv(path or os.path.join(self.path, self.name + "_posterior.csv"))
'''

SAMPLE = '''
def get_sample(self, size, chain=None):
    draws = self.get_chain() if chain is None else chain
    clen, nwalks, npar = draws.shape
    recent = int(np.ceil(size / nwalks))
    if recent > clen:
        raise Exception("too many")
    return draws[-recent:].reshape(-1, npar)[np.random.choice(np.arange(recent * nwalks), size, False)]
'''

MDD = '''
def mdd(self, method="laplace", chain=None, lprobs=None, tune=None, verbose=False, **args):
    last = tune or self.get_tune
    if chain is None:
        draws = self.get_chain()[-last:]
        chain = draws.reshape(-1, draws.shape[-1])
    if lprobs is None:
        lprobs = self.get_log_prob()[-last:].flatten()
    if method in ("laplace", "lp"):
        return ew.mdd_laplace(chain, lprobs, calc_hess=False, **args)
    if method == "hess":
        return ew.mdd_laplace(chain, lprobs, calc_hess=True, **args)
    if method == "mhm":
        return ew.mdd_harmonic_mean(chain, lprobs, pool=self.pool if hasattr(self, "pool") else None, verbose=verbose > 1, **args)
    raise NotImplementedError("method")
'''


def named(t):
    """file names are not empty"""
    def f(u):
        if u.op == "truth" and u.args[0].op == "call" and u.args[0].args[0].op == "sym" and u.args[0].args[0].args[1] in ("str", "os.path.join"):
            return TRUE
        return u
    return T.rebuild(noexc(t), f, {})


def poolkept(t):
    """reading the chain does not touch the worker pool"""
    return T.rebuild(noexc(t), lambda u: u.args[2] if u.op == "eff" and u.args[1] == "pool" else u, {})


def c19(c):
    m = c.method
    golden(c, m("get_chain"), "clsmethods", GET_CHAIN, ["ret", "raises", "calls:emcee.backends.HDFBackend"], restrict=named)
    golden(c, m("get_tune"), "clsmethods", GET_TUNE, ["ret"])
    golden(c, m("get_log_prob"), "clsmethods", GET_LOG_PROB, ["ret"])
    golden(c, m("mcmc_summary"), "clsmethods", SUMMARY, ["ret", "raises"])
    golden(c, c.func("mpile", "posterior_sampler"), "mpile", SAMPLER, ["ret", "calls:random.seed"])
    golden(c, c.func("stats", "post_mean"), "stats", POST_MEAN, ["ret"])
    golden(c, m("posterior2csv"), "clsmethods", CSV, ["calls:.to_csv"])
    golden(c, m("get_sample"), "clsmethods", SAMPLE, ["ret", "raises"])
    golden(c, m("mdd"), "stats", MDD, ["ret", "raises"], restrict=poolkept)
