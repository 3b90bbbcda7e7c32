PRE = '''
import numpy as np
from pydsge import DSGE, example
mod = DSGE.read(example[0], verbose=False)
mod.set_par('calib')
'''
SEEDS = [
 dict(id="s1-setk-tail", property="C23", edits=[("tools.py",
  "                    set_k_eff = 0, max(set_k_eff + set_l_eff - t, 0)\n",
  "                    set_k_eff = 0, max(set_k_eff - t, 0)\n")],
  needs="irfs with set_k=(l, k), both positive: visible only once period l has passed",
  breaks="the enforced spell at the constraint ends l periods too early",
  demo=PRE + '''
X, LK, flag = mod.irfs(('e_u', 1, 0), T=8, set_k=(2, 3), verbose=False)
assert list(LK[0][:3]) == [2, 1, 0], LK
assert list(LK[1]) == [3, 3, 3, 2, 1, 0, 0, 0], LK
'''),
 dict(id="s2-mask-order", property="C22", edits=[("tools.py",
  "eps = np.where(np.isnan(mask), eps, operation(np.array(mask), eps))",
  "eps = np.where(np.isnan(mask), eps, operation(eps, np.array(mask)))")],
  needs="simulate with a mask and an operation that is not commutative",
  breaks="the operands of the mask operation are swapped",
  demo=PRE + '''
n = mod.neps
par = np.array(mod.par)
eps = np.full((1, 3, n), .01)
mask = np.full((3, n), np.nan); mask[1, 0] = 0.03
init = np.zeros((1, mod.dimx))
a = mod.simulate(pars=[par], resid=eps, init=init, mask=mask, operation=np.subtract)[0]
e2 = eps.copy(); e2[0, 1, 0] = 0.03 - .01
b = mod.simulate(pars=[par], resid=e2, init=init)[0]
assert np.allclose(a, b), abs(a - b).max()
'''),
 dict(id="s3-last-slack", property="C11", edits=[("engine.py",
  "            if l > 1 and check_cnst(bmat, bterm, 1, l, k, q) - x_bar < 0:",
  "            if l > 2 and check_cnst(bmat, bterm, 1, l, k, q) - x_bar < 0:")],
  needs="a candidate (l=2, k) that violates the constraint exactly in the last slack period",
  breaks="an equilibrium is accepted although the constraint binds before it is supposed to",
  demo='''
import numpy as np
from pydsge.engine import bruite_wrapper
f = bruite_wrapper.py_func
import pydsge.engine as e
b = np.zeros((5, 4, 3, 2)); t = np.zeros((5, 4, 3))
t[0] = 1.; t[1] = 1.; t[4] = 1.; t[2] = -1.; t[3] = -1.
t[0, 1] = -1.                      # l=1 fails in the first period
t[4, 0] = -1.                      # l=0 fails after the spell
t[1, 2] = -1.                      # l=2 fails in its last slack period
q = np.zeros(2)
r = bruite_wrapper(b, t, 0., q)
assert tuple(r) == (3, 1), r
'''),
 dict(id="s4-kmap-row", property="C30", edits=[("tools.py",
  "[tmat[l + i, l, i] @ state + tterm[l + i, l, i] for i in range(k_max)]",
  "[tmat[i, l, i] @ state + tterm[i, l, i] for i in range(k_max)]")],
  needs="k_map called with l > 0",
  breaks="the map over k shows the constraint before the start of the spell rather than after its end",
  demo=PRE + '''
import pydsge.tools as t
state = np.zeros(mod.dimq); state[0] = .1; state[-1] = .5
LS, KS = mod.k_map(state, l=2, k=1, verbose=False)
x = mod.sys[2]
for i in range(mod.lks[1]):
    want = mod.traj(state, l=2, k=i, verbose=False)[2 + i] - x
    assert np.allclose(KS[i], want), (i, KS[i], want)
for i in range(mod.lks[0]):
    want = mod.traj(state, l=i, k=1, verbose=False)[1 + i] - x
    assert np.allclose(LS[i], want)
'''),
 dict(id="s5-same-period", property="C23", edits=[("tools.py",
  "                if vec[2] == t:\n",
  "                if vec[2] == t and not shk_vec.any():\n")],
  needs="two different shocks that hit in the same period",
  breaks="only the first of several simultaneous shocks is applied",
  demo=PRE + '''
a, _, _ = mod.irfs([('e_u', .1, 1), ('e_z', .1, 1)], T=5, linear=True, verbose=False)
b, _, _ = mod.irfs([('e_u', .1, 1)], T=5, linear=True, verbose=False)
c, _, _ = mod.irfs([('e_z', .1, 1)], T=5, linear=True, verbose=False)
assert np.allclose(a, b + c)
'''),
 dict(id="s6-iv-obs", property="C10", edits=[("tools.py",
  "    std_obs = (np.hstack((self.hx[0], self.hx[1])) @ std.T).T\n    iv95_obs = np.stack((obs - 1.96 * std_obs, obs, obs + 1.96 * std_obs))",
  "    std_obs = (np.hstack((self.hx[0], self.hx[1])) @ std.T).T + self.hx[2]\n    iv95_obs = np.stack((obs - 1.96 * std_obs, obs, obs + 1.96 * std_obs))")],
  needs="o_func with covariances, for a model with constants in the observation equations",
  breaks="the band of the observables gets wider by the constants",
  demo=PRE + '''
S = np.zeros((3, mod.dimx)); C = np.zeros((3, mod.dimx, mod.dimx))
io, iv = mod.o_func(S, covs=C)
assert np.allclose(io[0], io[2]) and np.allclose(iv[0], iv[2])
'''),
 dict(id="s7-tfunc-bool", property="C10", edits=[("tools.py",
  "    elif set_k is None or isinstance(set_k, bool):\n",
  "    elif not set_k or isinstance(set_k, bool):\n")],
  needs="t_func with set_k=0: the caller asks for the regime that binds from now on for 0 periods",
  breaks="set_k=0 falls back to the endogenous search",
  demo=PRE + '''
s = np.zeros(mod.dimx)
e = np.zeros(mod.neps); e[list(mod.shocks).index('e_u')] = 5.
x, (l, k), flag = mod.t_func(s, e, return_k=True)
assert k > 0
x, (l, k), flag = mod.t_func(s, e, set_k=0, return_k=True)
assert (l, k) == (1, 0), (l, k)
'''),
]
