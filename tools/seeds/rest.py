PRE = '''
import os, warnings
import numpy as np
import pandas as pd
from pydsge import DSGE, example
mod = DSGE.read(example[0], verbose=False)
'''
TOY = '''
import os
import numpy as np
from pydsge import DSGE, example
T = open(os.path.join(os.path.dirname(example[0]), "minimal_nk.yaml")).read()
def read(*rep):
    t = T
    for a, b in rep:
        assert a in t, a
        t = t.replace(a, b)
    p = os.path.join(os.environ["DEMO_TMP"], "toy.yaml")
    open(p, "w").write(t)
    return DSGE.read(p, verbose=False, nocache=True)
'''
SEEDS = [
 dict(id="f1-prange-rec", property="C13", edits=[("engine.py",
  '''    for l in range(0, l_max):
        for k in range(0, k_max):

            if k or l:
''', '''    for l in range(0, l_max):
        for k in prange(0, k_max):

            if k or l:
''')], needs="parallel preprocessing with more than one thread",
  breaks="the recursion over k is run in parallel although every step reads what the previous one wrote",
  demo='''
import os
os.environ["NUMBA_NUM_THREADS"] = "4"
import numpy as np
from pydsge import DSGE, example
import pydsge.engine as E
got = []
orig = E.preprocess_jit_parallel
def keep(*a):
    got.append([np.array(x) if isinstance(x, np.ndarray) else x for x in a])
    return orig(*a)
E.preprocess_jit_parallel = keep
mod = DSGE.read(example[0], verbose=False)
mod.set_par("calib", verbose=False, l_max=3, k_max=40, parallel=True)
copy = lambda a: [np.array(x) if isinstance(x, np.ndarray) else x for x in a]
want = E.preprocess_jittable(*copy(got[-1]))
S = want[5].shape
ok = np.zeros(S, dtype=bool)
for s, l, k in np.ndindex(*S):
    ok[s, l, k] = s in (0, 2, 4) or s == 1 and l > 0 or s == 3 and l + k > 0
for i in range(20):
    junk = [np.full((4, 41, 8, 8), np.nan) for j in range(9)]
    del junk
    have = orig(*copy(got[-1]))
    for a, b in zip(want[:4], have[:4]):
        assert np.allclose(a, b)
    assert np.allclose(want[5][ok], have[5][ok])
'''),
 dict(id="f2-shared-xi", property="C13", edits=[("engine.py",
  '''        for k in prange(0, k_max):

            # initialize local lam, xi to iterate upon
            lam = np.eye(dimq)
            xi = np.zeros(dimq)

            for s in range(l + k + 1):
''', '''        cache = np.zeros((2, dimq))
        for k in prange(0, k_max):

            # initialize local lam, xi to iterate upon
            lam = np.eye(dimq)
            xi = cache[l % 2]
            xi[:] = 0

            for s in range(l + k + 1):
'''), ("engine.py", '''                    bterm[4, l, k] = cr + y2r @ xi

                lam = qmat[l_loc, k_loc] @ lam
                xi = qmat[l_loc, k_loc] @ xi + qterm[l_loc, k_loc]
''', '''                    bterm[4, l, k] = cr + y2r @ xi

                lam = qmat[l_loc, k_loc] @ lam
                xi[:] = qmat[l_loc, k_loc] @ xi + qterm[l_loc, k_loc]
''')], needs="parallel preprocessing with more than one thread",
  breaks="all iterations that run in parallel use one and the same vector",
  demo='''
import os
os.environ["NUMBA_NUM_THREADS"] = "4"
import numpy as np
from pydsge import DSGE, example
import pydsge.engine as E
got = []
orig = E.preprocess_jit_parallel
def keep(*a):
    got.append([np.array(x) if isinstance(x, np.ndarray) else x for x in a])
    return orig(*a)
E.preprocess_jit_parallel = keep
mod = DSGE.read(example[0], verbose=False)
mod.set_par("calib", verbose=False, l_max=3, k_max=40, parallel=True)
copy = lambda a: [np.array(x) if isinstance(x, np.ndarray) else x for x in a]
want = E.preprocess_jittable(*copy(got[-1]))
S = want[5].shape
ok = np.zeros(S, dtype=bool)
for s, l, k in np.ndindex(*S):
    ok[s, l, k] = s in (0, 2, 4) or s == 1 and l > 0 or s == 3 and l + k > 0
for i in range(20):
    junk = [np.full((4, 41, 8, 8), np.nan) for j in range(9)]
    del junk
    have = orig(*copy(got[-1]))
    for a, b in zip(want[:4], have[:4]):
        assert np.allclose(a, b)
    assert np.allclose(want[5][ok], have[5][ok])
'''),
 dict(id="f3-one-lag", property="C25", edits=[("parser.py",
  '''            if lagged_var:
''', '''            if len(lagged_var) > 1:
''')], needs="exactly one lagged variable in an equation of the observables",
  breaks="the lagged variable is dropped from the observable without an error",
  demo=TOY + '''
try:
    read(("Infl : Pi + pi_mean", "Infl : Pi - y(-1) + pi_mean"))
except Exception:
    pass
else:
    raise AssertionError("accepted")
'''),
 dict(id="f4-many-eqs", property="C25", edits=[("parser.py",
  "        if len(raw_equations) + 1 != len(var_ordering):\n", "        if len(raw_equations) + 1 < len(var_ordering):\n")],
  needs="a model with more equations than variables",
  breaks="an overdetermined model passes the parser",
  demo=TOY + '''
try:
    read(("    - rn = phi_pi*Pi \\n", "    - rn = phi_pi*Pi \\n    - rn = 2*phi_pi*Pi \\n"))
except SyntaxError:
    pass
else:
    raise AssertionError("accepted")
'''),
 dict(id="f5-stale-table", property="C30", edits=[("engine.py",
  '''    self.precalc_tmat = preprocess_tmats_jit(
        pmat, pterm, qmat, qterm, fq1, fp1, fq0, omg, l_max, k_max
    )
''', '''    self.precalc_tmat = self.ktables = preprocess_tmats_jit(
        pmat, pterm, qmat, qterm, fq1, fp1, fq0, omg, l_max, k_max
    )
'''), ("tools.py", '''    if not hasattr(self, "precalc_tmat"):

        fq1, fp1, fq0 = self.ff
        preprocess_tmats(self, fq1, fp1, fq0, verbose > 1)

    l_max, k_max = self.lks
    tmat, tterm = self.precalc_tmat
''', '''    if not hasattr(self, "ktables"):

        fq1, fp1, fq0 = self.ff
        preprocess_tmats(self, fq1, fp1, fq0, verbose > 1)

    l_max, k_max = self.lks
    tmat, tterm = self.ktables
''')], needs="a regime map, new parameters, and another regime map",
  breaks="the regime map after a change of the parameters is the one of the old parameters",
  demo=PRE + '''
mod.set_par("calib", verbose=False)
state = np.ones(mod.dimq)
mod.k_map(state, l=1, k=2, verbose=False)
p = mod.par_fix.copy()
mod.set_par([str(x) for x in mod.parameters][mod.prior_arg[0]], p[mod.prior_arg[0]] * 1.03, verbose=False)
b = mod.k_map(state, l=1, k=2, verbose=False)
mod.__dict__.pop("precalc_tmat", None)
mod.__dict__.pop("ktables", None)
c = mod.k_map(state, l=1, k=2, verbose=False)
assert all(np.array_equal(x, y) for x, y in zip(b, c))
'''),
 dict(id="f6-tune-name", property="C32", edits=[("clsmethods.py",
  '''    tune = self.get_tune

    return ew.posteriorplot(
''', '''    tune = self.fdict["tune_len"]

    return ew.posteriorplot(
''')], needs="a posterior plot",
  breaks="the plot asks for a metadata entry that nothing ever writes",
  demo=PRE + '''
import pydsge.clsmethods as cm
cm.ew = type("E", (), dict(posteriorplot=staticmethod(lambda c, varnames, tune, **a: (c, varnames, tune))))
mod.get_chain = lambda *a, **k: np.zeros((10, 2, 3))
mod.fdict["prior_names"] = ["a", "b", "c"]
mod.fdict["tune"] = 4
mod.tune = 4
assert mod.posteriorplot()[2] == 4
'''),
]
