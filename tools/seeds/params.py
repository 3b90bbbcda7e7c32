PRE = '''
import numpy as np
from pydsge import DSGE, example
mod = DSGE.read(example[0], verbose=False)
'''
SEEDS = [
 dict(id="p1-stale-Q", property="C04", edits=[("mpile.py", '''    gen_sys(self, par=list(par), verbose=verbose, **args)

    if hasattr(self, "filter"):
        Q = self.QQ(self.ppar) @ self.QQ(self.ppar)
        self.filter.Q = Q
''', '''    if hasattr(self, "filter"):
        Q = self.QQ(self.ppar) @ self.QQ(self.ppar)
        self.filter.Q = Q

    gen_sys(self, par=list(par), verbose=verbose, **args)
''')], needs="a filter that exists before a shock standard deviation is changed by set_par",
  breaks="the filter keeps the shock covariance of the previously set parameters",
  demo=PRE + '''
mod.set_par('calib')
class F: pass
mod.filter = F()
mod.set_par('sig_u', 0.77)
Q = mod.QQ(mod.ppar)
assert np.allclose(mod.filter.Q, Q @ Q), "stale Q"
'''),
 dict(id="p2-npar-alias", property="C05", edits=[("mpile.py", "            npar = npar.copy()\n            if len(npar) == len(self.prior_arg):",
  "            if len(npar) == len(self.prior_arg):\n                npar = npar.copy()")],
  needs="set_par(name, value, npar=full vector), and the caller reusing the vector",
  breaks="the full vector passed by the caller is modified in place",
  demo=PRE + '''
mod.set_par('calib')
v = np.array(mod.par, dtype=float)
w = v.copy()
mod.set_par('phi_pi', 9., npar=v)
assert np.array_equal(v, w), "input modified"
x = v[mod.prior_arg].copy(); y = x.copy()
mod.set_par(mod.prior_names[1], 9., npar=x)
assert np.array_equal(x, y)
'''),
 dict(id="p3-adj-prior-mean", property="C06", edits=[("mpile.py", '''                    if self.prior[pp][3] == "inv_gamma_dynare":''', '''                    if "inv_gamma" in self.prior[pp][3]:''')],
  needs="a prior of type inv_gamma (not inv_gamma_dynare) and the set adj_prior_mean",
  breaks="ordinary inverse gamma means are scaled as well",
  demo=PRE + '''
mod.set_par('calib')
n = mod.prior_names[0]
p = list(mod.prior[n]); p[3] = "inv_gamma"
mod.prior = dict(mod.prior); mod.prior[n] = p
a = mod.get_par('adj_prior_mean', full=False)
assert a[0] == p[-2], (a[0], p)
'''),
]
