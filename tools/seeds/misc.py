PRE = '''
import os
import numpy as np
import pandas as pd
from pydsge import DSGE, example
mod = DSGE.read(example[0], verbose=False)
'''
YAML = '''
import os
import numpy as np
from pydsge import DSGE, example
T = open(os.path.join(os.path.dirname(example[0]), "minimal_nk.yaml")).read()
def read(*rep):
    t = T
    for a, b in rep:
        assert a in t, a
        t = t.replace(a, b)
    p = os.path.join(os.environ["DEMO_TMP"], "toy.yaml")
    open(p, "w").write(t)
    return DSGE.read(p, verbose=False, nocache=True)
'''
SEEDS = [
 dict(id="d1-obs-order", property="C20", edits=[("clsmethods.py",
  "        d = df[self.observables]\n",
  "        d = df[[o for o in df.keys() if o in self.observables]]\n")],
  needs="data whose columns are in another order than the observables of the model",
  breaks="the data keep the order of the file instead of that of the model",
  demo=PRE + '''
d = pd.DataFrame(np.arange(12.).reshape(3, 4)[:, :len(mod.observables)], columns=mod.observables[::-1])
r = mod.load_data(d)
assert list(r.columns) == list(mod.observables), r.columns
'''),
 dict(id="d2-npz-strip", property="C16", edits=[("clsmethods.py",
  '''    if path[-4:] == ".npz":
        path = path[:-4]

    if not os.path.isabs(path):
        path = os.path.join(self.path, path)

    np.savez_compressed''',
  '''    path = path.rstrip(".npz")

    if not os.path.isabs(path):
        path = os.path.join(self.path, path)

    np.savez_compressed''')],
  needs="results stored under a name that ends with one of the letters of the file extension",
  breaks="the last letters of the name are dropped when saving, so loading does not find the file",
  demo=PRE + '''
W = os.environ["DEMO_TMP"]
p = os.path.join(W, "res_viz")
mod.save_rdict(dict(a=np.arange(3)), path=p, verbose=False)
assert os.path.exists(p + ".npz"), os.listdir(W)
assert np.array_equal(mod.load_rdict(p)["a"], np.arange(3))
'''),
 dict(id="d3-mdd-tune", property="C36", edits=[("stats.py",
  "    if lprobs is None:\n        tune = tune or self.get_tune\n",
  "    if lprobs is None:\n        tune = self.get_tune\n")],
  needs="mdd called with a tuning length that differs from the one of the model",
  breaks="densities of other iterations than the draws are used",
  demo=PRE + '''
import pydsge.stats as st
class S:
    def get_chain(self, flat=None): return np.arange(60.).reshape(10, 3, 2)
    def get_log_prob(self, flat=None): return np.arange(30.).reshape(10, 3)
mod.sampler = S(); mod.tune = 4; mod.bptrans = None
got = {}
def f(chain, lprobs, **a):
    got.update(n=len(chain), m=len(lprobs)); return np.float64(0)
st.ew.mdd_laplace = f
mod.mdd(tune=7)
assert got["n"] == got["m"] == 21, got
'''),
 dict(id="d4-lag4", property="C27", edits=[("parser.py",
  '''var_l_1 = Variable(v.name + "_LAG" + str(i - 2), date=-1)''',
  '''var_l_1 = Variable(v.name + "_LAG" + str(1), date=-1)''')],
  needs="a variable with a lag of four or more periods",
  breaks="the chain of auxiliary variables skips periods: lags of four and more are those of three",
  demo=YAML + '''
m = read(("rho_u * u(-1)", "rho_u * u(-4)"))
m.set_par("calib", l_max=1, k_max=0)
X, _, _ = m.irfs(("e_u", 1, 0), T=10, linear=True, verbose=False)
x = np.asarray(X["u"])
want = np.zeros(10); want[0] = 1; want[4] = .7; want[8] = .49
assert np.allclose(x / x[0], want), x
'''),
 dict(id="d5-pool-order", property="C29", edits=[("estimation.py",
  "        return self.pool.imap\n", "        return self.pool.uimap\n")],
  needs="inputs that take differently long, with a pool",
  breaks="results come back in the order in which they are finished",
  demo=PRE + '''
import time
def slow(x):
    time.sleep(1.5 if x == 0 else .01)
    return x
mod.create_pool(2)
r = list(mod.mapper(slow, range(6)))
mod.pool.close()
assert r == list(range(6)), r
'''),
 dict(id="d6-prior-sorted", property="C28", edits=[("parser.py",
  '''            model.prior_arg = [p_names.index(pp) for pp in model.prior.keys()]''',
  '''            model.prior_arg = [p_names.index(pp) for pp in sorted(model.prior.keys(), key=p_names.index)]''')],
  needs="priors declared in another order than the parameters",
  breaks="the positions of the estimated parameters do not belong to their names",
  demo='''
import os, shutil
from pydsge import DSGE, example
ls = open(example[0]).read().splitlines()
i = ls.index("  prior:")
j = i + 1
while j < len(ls) and (ls[j].startswith("    ") or not ls[j].strip()):
    j += 1
body = [l for l in ls[i + 1:j] if l.strip() and not l.strip().startswith("#")]
new = chr(10).join(ls[:i + 1] + body[::-1] + ls[j:]) + chr(10)
W = os.environ["DEMO_TMP"]
p = os.path.join(W, "m.yaml"); open(p, "w").write(new)
for f in os.listdir(os.path.dirname(example[0])):
    if f.endswith("_funcs.py"):
        shutil.copy(os.path.join(os.path.dirname(example[0]), f), os.path.join(W, "m_funcs.py"))
m = DSGE.read(p, verbose=False)
names = [q.name for q in m.parameters]
assert list(m.prior_names) == [names[i] for i in m.prior_arg], (m.prior_names, m.prior_arg)
'''),
 dict(id="d7-init-cov", property="C21", edits=[("filtering.py",
  '''        if self.filter.init_cov is None:
            p4 = sl.solve_discrete_lyapunov(''',
  '''        if init_cov is None:
            p4 = sl.solve_discrete_lyapunov(''')],
  needs="a Kalman filter whose initial covariance was set before, and a run without the argument",
  breaks="the stored initial covariance is ignored",
  demo=PRE + '''
mod.set_par("calib", l_max=1, k_max=0)
mod.data = pd.DataFrame(np.random.RandomState(0).normal(0, .1, (10, len(mod.observables))), columns=mod.observables)
mod.create_filter(ftype="KalmanFilter", R=np.eye(mod.nobs) * .1)
C = np.eye(mod.dimx) * 3.
mod.run_filter(init_cov=C)
got = {}
bf = mod.filter.batch_filter
def spy(Z):
    got["P"] = np.array(mod.filter.P); return bf(Z)
mod.filter.batch_filter = spy
mod.run_filter()
assert np.allclose(got["P"], C)
'''),
 dict(id="d8-append", property="C17", edits=[("mcmc.py",
  "            if os.path.exists(backend) and not (resume or append):",
  "            if os.path.exists(backend) and not resume:")],
  needs="sampling with append=True while stored results exist",
  breaks="the stored chain is deleted although the run should append to it",
  demo=PRE + '''
import pydsge.mcmc as mc
W = os.environ["DEMO_TMP"]
mod.path = W; mod.name = "m"; mod.description = ""
f = os.path.join(W, "m_sampler.h5"); open(f, "w").write("precious")
class Stop(Exception): pass
def stop(*a, **k): raise Stop
mod.ndim = 2; mod.pool = None; mod.bptrans = None
def lp(*a, **k): return 0.
mod.lprob = lp
class F: name = "KalmanFilter"
mod.filter = F()
mod.fdict["seed"] = 0
mc.ew.run_mcmc = stop
try:
    mod.mcmc(p0=np.zeros((4, 2)), append=True, verbose=False)
except Stop:
    pass
assert os.path.exists(f)
'''),
 dict(id="d9-extract-match", property="C31", edits=[("filtering.py",
  '''        np.random.shuffle(res)
        sample = np.dstack((obs_func(res), res[..., dimp:]))
        inits = res[:, 0, :]
''', '''        inits = res[:, 0, :].copy()
        np.random.shuffle(res)
        sample = np.dstack((obs_func(res), res[..., dimp:]))
''')], needs="an ensemble filter with more than one member",
  breaks="trajectories are matched starting from the initial states of other ensemble members",
  demo=PRE + '''
mod.set_par("calib", l_max=2, k_max=3)
mod.data = pd.DataFrame(np.zeros((5, len(mod.observables))), columns=mod.observables)
class F:
    name = "TEnKF"; reduced_form = False; R = None; N = 20
    def npas(self, func=None, X=None, init_states=None, **k):
        assert np.allclose(X[:, 0, mod.nobs:], init_states[:, mod.dimp:]), "mixed up"
        return init_states[0], np.zeros((1, 4, mod.neps)), 0
mod.filter = F()
def rf(**k): return np.random.RandomState(1).normal(0, 1e-3, (20, 5, mod.dimx))
mod.run_filter = rf
mod.extract(verbose=False)
'''),
 dict(id="d10-gfevd-pars", property="C33", edits=[("stats.py",
  "        pars = pars.repeat(resids.shape[1], axis=0)",
  "        pars = np.tile(pars, (resids.shape[1], 1))")],
  needs="results of several parameter vectors with several periods each",
  breaks="periods are paired with the parameters of other samples",
  demo=PRE + '''
mod.set_par("calib")
n = len(mod.par)
seen = []
class X: pass
def set_par(p, **a): seen.append(float(p[0]))
def irfs(shock, T=1, state=None, linear=False):
    seen.append((float(state[0]), seen[-1] if not isinstance(seen[-1], tuple) else seen[-1][1]))
    return [pd.DataFrame(np.ones((T, len(mod.vv))) * shock[1])]
mod.set_par = set_par; mod.irfs = irfs
P = np.arange(2.)[:, None] * np.ones((2, n))
S = np.arange(2.)[:, None, None] * np.ones((2, 4, len(mod.vv)))
R = np.ones((2, 3, len(mod.shocks)))
mod.gfevd(dict(means=S, pars=P, resid=R), verbose=False)
for s in seen:
    if isinstance(s, tuple):
        assert s[0] == s[1], seen
'''),
 dict(id="d11-kmap-verbose", property="C09", edits=[("tools.py",
  '''        l = l or l_endo

        if verbose:
            if flag == 0:''', '''        if verbose:
            l = l or l_endo
            if flag == 0:''')],
  needs="k_map called quietly in a state where the endogenous l is positive",
  breaks="with verbose=False the map is not located at the endogenous l",
  demo=PRE + '''
import pydsge.tools as t
mod.set_par("calib")
t.find_lk = lambda *a: (2, 1, 0)
state = np.zeros(mod.dimq); state[0] = .1
a = mod.k_map(state, verbose=True)
b = mod.k_map(state, verbose=False)
assert np.array_equal(a[1], b[1])
'''),
 dict(id="d12-sim-shared", property="C08", edits=[("tools.py",
  '''    def runner(arg):

        pelf = dill.loads(pickled_self)

        superflag = False''', '''    def runner(arg):

        pelf = dill.loads(pickled_self) if getattr(self, "pool", None) is not None else self

        superflag = False''')],
  needs="simulate without a worker pool",
  breaks="the model itself is left at the parameters of the last simulated sample",
  demo=PRE + '''
mod.set_par("calib")
p0 = np.array(mod.par)
par = p0.copy(); par[mod.prior_arg[0]] *= 1.01
mod.simulate(pars=[par], resid=np.zeros((1, 2, mod.neps)), init=np.zeros((1, mod.dimx)))
assert np.array_equal(np.array(mod.par), p0)
'''),
]
