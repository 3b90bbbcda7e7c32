PRE = '''
import os, warnings
import numpy as np
import pandas as pd
from pydsge import DSGE, example
mod = DSGE.read(example[0], verbose=False)
'''
EST = PRE + '''
import pydsge.estimation as es
mod.data = pd.DataFrame(np.random.RandomState(0).normal(0, .1, (8, len(mod.observables))), columns=mod.observables)
def prep(**k):
    a = dict(linear=True, ncores=0, dry_run=False, verbose=False)
    a.update(k)
    mod.prep_estim(**a)
'''
TOY = '''
import os
import numpy as np
from pydsge import DSGE, example
T = open(os.path.join(os.path.dirname(example[0]), "minimal_nk.yaml")).read()
def read(*rep):
    t = T
    for a, b in rep:
        assert a in t, a
        t = t.replace(a, b)
    p = os.path.join(os.environ["DEMO_TMP"], "toy.yaml")
    open(p, "w").write(t)
    return DSGE.read(p, verbose=False, nocache=True)
'''
SEEDS = [
 dict(id="e1-state-fail", property="C01", edits=[("estimation.py",
  '''                        self.box_check([*pardict.values()])

                np.random.set_state(random_state)
''', '''                        self.box_check([*pardict.values()])
                    np.random.set_state(random_state)

''')], needs="a failing evaluation without messages",
  breaks="the global random state is not restored when the evaluation fails",
  demo=EST + '''
prep()
def bad(**k): np.random.rand(3); raise ValueError
mod.gen_sys = bad
np.random.seed(77)
a = np.random.get_state()
x = np.array([mod.fdict["init_value"][i] if mod.fdict["init_value"][i] is not None else mod.par_fix[mod.prior_arg][i] for i in range(mod.ndim)], dtype=float)
assert mod.llike(x, mod.par_fix.copy(), True, False, 0) == -np.inf
b = np.random.get_state()
assert a[2] == b[2] and np.array_equal(a[1], b[1])
'''),
 dict(id="e2-seed-zero", property="C01", edits=[("estimation.py",
  '''    if seed is None:
        if "seed" in self.fdict.keys():''', '''    if not seed:
        if "seed" in self.fdict.keys():''')],
  needs="a stored seed and the explicit seed zero",
  breaks="an explicit seed of zero is replaced by the stored one",
  demo=EST + '''
prep(seed=5)
prep(seed=0)
assert mod.fdict["seed"] == 0, mod.fdict["seed"]
'''),
 dict(id="e3-barrier", property="C02", edits=[("estimation.py",
  '''            except Exception as err:
                if verbose:
                    print("[llike:]"''', '''            except (ArithmeticError, ValueError, LookupError, Warning, np.linalg.LinAlgError) as err:
                if verbose:
                    print("[llike:]"''')],
  needs="a failure of another type, such as a runtime, type or not-implemented error",
  breaks="such failures abort the sampling",
  demo=EST + '''
prep()
def bad(**k): raise RuntimeError("no solution")
mod.gen_sys = bad
assert mod.llike(np.array(mod.par_fix[mod.prior_arg], dtype=float), mod.par_fix.copy(), True, False, 0) == -np.inf
'''),
 dict(id="e4-warn", property="C02", edits=[("estimation.py",
  '''                warnings.filterwarnings("error")
''', '''                warnings.filterwarnings("error", category=RuntimeWarning)
''')], needs="a warning that is not a runtime warning (e.g. of an ill-conditioned matrix)",
  breaks="the warning does not count as failure",
  demo=EST + '''
prep()
def bad(**k): warnings.warn("ill-conditioned", UserWarning)
mod.gen_sys = bad
es.get_ll = lambda *a, **k: 1.0
mod.ppar = mod.pcompile(mod.par_fix)
prep_ll = mod.llike(np.array(mod.par_fix[mod.prior_arg], dtype=float), mod.par_fix.copy(), True, False, 0)
assert prep_ll == -np.inf, prep_ll
'''),
 dict(id="e5-prior-space", property="C03", edits=[("estimation.py",
  '''        if use_prior_transform:
            par = bptrans(par)

        lp = lprior(par)
''', '''        lp = lprior(par)

        if use_prior_transform:
            par = bptrans(par)
''')], needs="prior transformation",
  breaks="prior and likelihood are evaluated at different points",
  demo=EST + '''
prep(use_prior_transform=True)
x = np.zeros(mod.ndim)
assert np.isclose(mod.lprob(x, temp=0), mod.lprior(mod.bptrans(x)))
'''),
 dict(id="e6-temper", property="C03", edits=[("estimation.py",
  '''        ll += lp

        if verbose and verbose < 3:''', '''        ll += lp * temp

        if verbose and verbose < 3:''')], needs="a temperature other than one",
  breaks="the prior is tempered as well",
  demo=EST + '''
prep(use_prior_transform=True)
x = np.zeros(mod.ndim)
lp = mod.lprior(mod.bptrans(x))
assert lp and np.isclose(mod.lprob(x, temp=0), lp)
'''),
 dict(id="e7-calib-view", property="C07", edits=[("mpile.py",
  '''            par = np.array(pars)
            par[self.prior_arg] = par_cand
        if not asdict:''', '''            par = np.asarray(pars)
            par[self.prior_arg] = par_cand
        if not asdict:''')], needs="asking for a parameter set before relying on the calibration",
  breaks="the calibration is overwritten by the set that was asked for",
  demo=PRE + '''
mod.set_par("calib")
a = np.array(mod.par_fix, dtype=float)
mod.get_par("prior_mean")
assert np.array_equal(a, np.array(mod.par_fix, dtype=float))
'''),
 dict(id="e8-deep-l", property="C12", edits=[("engine.py",
  '''                l_last = max(l - 1, 0)
''', '''                l_last = min(max(l - 1, 0), 2)
''')], needs="more than three periods until the constraint binds (l_max > 2)",
  breaks="the recursion of the matrices starts from the wrong predecessor",
  demo='''
import numpy as np
from pydsge import engine as en
rs = np.random.RandomState(0)
p, q, L, K = 2, 3, 5, 2
n = p + q
ms = [rs.normal(0, .1, (n, n)) + np.eye(n) for _ in range(4)]
S, T, V, W = [np.ascontiguousarray(m) for m in ms]
h = rs.normal(size=n)
fq1, fp1, fq0 = rs.normal(size=q), rs.normal(size=p), rs.normal(size=q)
omg, lam = rs.normal(0, .1, (p, q)), rs.normal(0, .1, (q, q))
pm, qm, pt, qt, bm, bt = en.preprocess_jit(S, T, V, W, h, fq1, fp1, fq0, omg, lam, -1., L, K)
for l in range(1, L + 1):
    for k in range(K + 1):
        a, b = en.get_lam(pm[l - 1, k], pt[l - 1, k], S, T, V, W, h, l)
        assert np.allclose(a, qm[l, k]) and np.allclose(b, qt[l, k]), (l, k)
'''),
 dict(id="e9-const-lag", property="C14", edits=[("gensys.py",
  '''        fc0[-sum(inall):] = fc0[: -sum(inall)][inall]
        fc0[: -sum(inall)][inall] = 0
''', '''        fc0[-sum(inall):] = fc0[: -sum(inall)][inall]
''')], needs="a constraint with the lag of a variable that also has a lead",
  breaks="the lagged variable enters the constraint twice",
  demo=TOY + '''
m = read()
A = np.array([[.3, .2], [0., 0.]])
import pydsge.gensys as g
m.set_par("calib", l_max=1, k_max=0)
got = {}
orig = g.preprocess
def spy(self, PU, MU, PR, MR, gg, fq1, fp1, fq0, *a):
    got["f"] = np.array(fq0); return orig(self, PU, MU, PR, MR, gg, fq1, fp1, fq0, *a)
g.preprocess = spy
o = m.bb
c = np.array(m.bb(m.ppar)).astype(float).flatten()
AA = np.array(m.AA(m.ppar)).astype(float)
n = len(m.variables)
fwd = [i for i in range(n) if abs(AA[:, i]).max() > 0 and m.variables[i].name != str(m.const_var)][0]
c2 = c.copy(); c2[n + fwd] = .4
m.bb = lambda p: c2.reshape(1, -1)
m.gen_sys(par=list(m.par), l_max=1, k_max=0, verbose=False)
v = m.variables[fwd].name
assert sum(abs(got["f"]) > 1e-12) == sum(abs(np.delete(c2[n:], [])) > 0) + 0, (got, c2)
'''),
 dict(id="e10-cache-alias", property="C15", edits=[("parser.py",
  "            cached_models[len(cached_models)] = deepcopy(pmodel)",
  "            cached_models[len(cached_models)] = pmodel")],
  needs="changing a freshly parsed model in place and reading the same file again",
  breaks="the changes leak into every model read later",
  demo=TOY + '''
p = example[0]
m = DSGE.read(p, verbose=False)
a = float(m.par_fix[0])
m.par_fix[0] = a + 1
n = DSGE.read(p, verbose=False)
assert float(n.par_fix[0]) == a
'''),
 dict(id="e11-mode-tuned", property="C18", edits=[("mcmc.py",
  "        chain = sampler.get_chain()[-self.tune:]\n", "        chain = sampler.get_chain()[-(tune or nsteps):]\n")],
  needs="sampling without an explicit tuning length",
  breaks="the stored mode is another state than the one with the stored density",
  demo=PRE + '''
import pydsge.mcmc as mc
mod.path = os.environ["DEMO_TMP"]; mod.name = "m"; mod.description = ""
mod.ndim = 2; mod.pool = None; mod.bptrans = None
def lp(*a, **k): return 0.
mod.lprob = lp
class F: name = "KalmanFilter"
mod.filter = F()
mod.fdict["seed"] = 0
rs = np.random.RandomState(0)
C, L = rs.normal(size=(20, 4, 2)), rs.normal(size=(20, 4))
class S:
    def get_chain(self, **k): return C
    def get_log_prob(self, **k): return L
mc.ew.run_mcmc = lambda *a, **k: S()
mod.mcmc(p0=np.zeros((4, 2)), nsteps=20, backend=False, verbose=False)
w = np.argwhere(L == mod.fdict["mode_f"])[0]
assert np.array_equal(mod.fdict["mode_x"], C[w[0], w[1]])
'''),
 dict(id="e12-logprob-order", property="C19", edits=[("clsmethods.py",
  '''    sample = chain[-recent:].reshape(-1, npar)
    res = np.random.choice(np.arange(recent * nwalks), size, False)
''', '''    sample = chain[-recent:].reshape(-1, npar)
    res = np.random.choice(np.arange(size), size, False)
''')], needs="a sample size that is not a multiple of the number of walkers",
  breaks="the most recent walkers are never drawn",
  demo=PRE + '''
c = np.arange(3 * 4 * 2.).reshape(3, 4, 2)
seen = set()
for i in range(60):
    seen |= {tuple(r) for r in mod.get_sample(5, chain=c)}
assert len(seen) == 8, len(seen)
'''),
 dict(id="e13-nhd-wait", property="C24", edits=[("stats.py",
  "            if k and rcons.sum():\n", "            if k and not l and rcons.sum():\n")],
  needs="periods in which the constraint is expected to bind later (l > 0)",
  breaks="the constraint's part is missing in those periods, contributions do not add up",
  demo=PRE + '''
mod.set_par("calib", l_max=3, k_max=16)
rs = np.random.RandomState(3)
import pydsge
T = 6
par = np.array(mod.par)
best = None
for sc in (.5, 1, 2, 4, 8):
    for j in range(mod.neps):
        for sg in (1, -1):
            x = np.zeros(mod.dimx); res = np.zeros((T - 1, mod.neps)); res[0, j] = sg * sc
            st = x
            for t in range(T - 1):
                st, lk, fl = mod.t_func(st, res[t], return_k=True)
                if fl: break
                if lk[0] and lk[1]:
                    best = res; break
            if best is not None: break
        if best is not None: break
    if best is not None: break
assert best is not None
mod.data = pd.DataFrame(np.zeros((T, len(mod.observables))), columns=mod.observables)
hd, mn = mod.nhd(dict(init=np.zeros((1, mod.dimx)), pars=par[None], resid=best[None]), l_max=3, k_max=16)
assert np.allclose(sum(hd).values, mn.values, atol=1e-6), abs(sum(hd).values - mn.values).max()
'''),
 dict(id="e14-lhs-shock", property="C26", edits=[("parser.py",
  "            shocks = filter(lambda x: x, eq.atoms(Shock))\n",
  "            shocks = filter(lambda x: x, eq.rhs.atoms(Shock))\n")],
  needs="an equation with a shock on its left-hand side",
  breaks="the shock is dropped from the equation",
  demo=TOY + '''
m = read(("- u = rho_u * u(-1) + e_u", "- u - e_u = rho_u * u(-1)"))
x = np.array(m.PSI(m.pcompile(m.par_fix))).astype(float)
assert np.isclose(abs(x).max(), 1), x
'''),
 dict(id="e15-vix-dup", property="C34", edits=[("clsmethods.py",
  '''            res.append(list(self.vv).index(v))
        except ValueError:''', '''            res.append(list(np.char.lower(self.vv)).index(v.lower()))
        except ValueError:''')], needs="variables whose names differ in capitalisation only, as in many models",
  breaks="the position of the other variable is returned",
  demo=PRE + '''
mod.vv = np.array(["Y", "y", "C", "c"])
assert mod.vix(["y", "C", "c"]) == [1, 2, 3]
'''),
 dict(id="e16-prior-check", property="C35", edits=[("mpile.py",
  '''    if check_likelihood:
        lprob_raw = serializer(self.lprob)''', '''    if check_likelihood and not try_parameter:
        lprob_raw = serializer(self.lprob)''')], needs="check_likelihood=True with the default for try_parameter",
  breaks="the likelihood of draws is not checked",
  demo=PRE + '''
import pydsge.mpile as mp
got = {}
def fake(fp, n, check_func=None, mapper=None, verbose=None, **k): got["f"] = check_func; return None
mp.get_prior_sample = fake
mod.ndim = len(mod.prior_arg); mod.fdict["frozen_prior"] = [1]
class L:
    n = 0
def lprob(p, **k): L.n += 1; return 0.
mod.lprob = lprob
mod.set_par("calib", l_max=1, k_max=0)
mod.debug = True
mod.prior_sampler(2, check_likelihood=True, verbose=False)
got["f"](np.array(mod.par_fix)[mod.prior_arg])
assert L.n == 1
'''),
 dict(id="e17-box-zero", property="C37", edits=[("mpile.py",
  "        if par[i] < lb[i]:\n", "        if lb[i] and par[i] < lb[i]:\n")],
  needs="a parameter below a lower bound of zero",
  breaks="the violated bound is not reported",
  demo=PRE + '''
import io, contextlib
mod.fdict["prior_names"] = ["a", "b"]
mod.fdict["prior_bounds"] = [0., .1], [1., 1.]
o = io.StringIO()
with contextlib.redirect_stdout(o):
    mod.box_check(np.array([-1., .5]))
assert "a" in o.getvalue() and "lower" in o.getvalue(), o.getvalue()
'''),
]
