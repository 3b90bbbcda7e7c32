"""C14 and the solver's part of C04: system assembly"""

from .common import *

FROM_YAML = '''
def gen_sys_from_yaml(self, par=None, l_max=None, k_max=None, get_hx_only=False, parallel=False, verbose=True, **args):
    self.par = self.p0() if par is None else list(par)
    self.ppar = self.pcompile(self.par)
    if not self.const_var:
        raise NotImplementedError("needs a constraint")
    names = [p.name for p in self.parameters]
    if "x_bar" in names:
        self.x_bar = self.par[names.index("x_bar")]
    elif "x_bar" in self.parafunc[0]:
        self.x_bar = self.parafunc[1](self.par)[self.parafunc[0].index("x_bar")]
    else:
        self.x_bar = -1
    if self.x_bar > 0:
        raise NotImplementedError("sign of the bound")
    self.vv = np.array([v.name for v in self.variables])
    fbc = self.bb(self.ppar).flatten().astype(float)
    return gen_sys(self, self.AA(self.ppar), self.BB(self.ppar), self.CC(self.ppar), -self.PSI(self.ppar).astype(float),
                   -fbc[:len(self.vv)], -fbc[len(self.vv):], -self.bb_PSI(self.ppar).flatten().astype(float),
                   self.ZZ0(self.ppar).astype(float), self.ZZ1(self.ppar).squeeze().astype(float),
                   l_max, k_max, "klein", get_hx_only, parallel, verbose, **args)
'''

GEN_SYS = '''
def gen_sys(self, AA0, BB0, CC0, DD0, fb0, fc0, fd0, ZZ0, ZZ1, l_max, k_max, solution, get_hx_only, parallel, verbose):
    if l_max is not None:
        if l_max < 2 and k_max > 0:
            l_max = 2
        l_max += 1
    elif hasattr(self, "lks"):
        l_max = self.lks[0]
    else:
        l_max = 3
    if k_max is None:
        k_max = self.lks[1] if hasattr(self, "lks") else 17
    self.lks = np.array([l_max, k_max])

    vv0 = self.vv
    ZZ0 = None if ZZ0 is None or not len(ZZ0) else ZZ0
    dimeps = len(self.shocks)

    # the constraint, normalised on the constrained variable
    c_arg = list(vv0).index(str(self.const_var))
    scale = fb0[c_arg]
    fc0 = -fc0 / scale
    if fd0 is not None:
        fd0 = -fd0 / scale
    fb0 = -fb0 / scale

    # auxiliary states for variables that are both forward looking and lagged (also if lagged only in the constraint)
    inall = ~fast0(AA0, 0) & (~fast0(CC0, 0) | ~fast0(fc0))
    n = sum(inall)
    if np.any(inall):
        vv0 = np.hstack((vv0, [v + "_lag" for v in vv0[inall]]))
        AA0 = np.pad(AA0, ((0, n), (0, n)))
        BB0 = np.pad(BB0, ((0, n), (0, n)))
        CC0 = np.pad(CC0, ((0, n), (0, n)))
        DD0 = np.pad(DD0, ((0, n), (0, 0)))
        fb0 = np.pad(fb0, (0, n))
        fc0 = np.pad(fc0, (0, n))
        if ZZ0 is not None:
            ZZ0 = np.pad(ZZ0, ((0, 0), (0, n)))
        BB0[-n:, -n:] = np.eye(n)
        BB0[-n:, :-n][:, inall] = -np.eye(n)
        CC0[:, -n:] = CC0[:, :-n][:, inall]
        CC0[:, :-n][:, inall] = 0
        fc0[-n:] = fc0[:-n][inall]
        fc0[:-n][inall] = 0

    # shocks become states
    AA0 = np.pad(AA0, ((0, dimeps), (0, dimeps)))
    BB0 = sl.block_diag(BB0, np.eye(dimeps))
    CC0 = np.block([[CC0, DD0], [np.zeros((dimeps, AA0.shape[1]))]])
    fb0 = np.pad(fb0, (0, dimeps))
    if fd0 is not None:
        fc0 = np.hstack((fc0, fd0))
    else:
        fc0 = np.pad(fc0, (0, dimeps))

    inq = ~fast0(CC0, 0) | ~fast0(fc0)
    inp = (~fast0(AA0, 0) | ~fast0(BB0, 0)) & ~inq
    dimq = sum(inq)
    dimp = sum(inp)

    if ZZ0 is None:
        zp, zq, zc = np.empty(dimp), np.empty(dimq), np.empty(1)
    else:
        zp, zq, zc = ZZ0[:, inp[:-dimeps]], ZZ0[:, inq[:-dimeps]], ZZ1

    AA = np.pad(AA0, ((0, 1), (0, 0)))
    BBU = np.vstack((BB0, fb0))
    CCU = np.vstack((CC0, fc0))
    BBR = np.pad(BB0, ((0, 1), (0, 0)))
    CCR = np.pad(CC0, ((0, 1), (0, 0)))
    BBR[-1, list(vv0).index(str(self.const_var))] = -1
    fb0[list(vv0).index(str(self.const_var))] = 0

    self.svv = vv0[inq[:-dimeps]]
    self.cvv = vv0[inp[:-dimeps]]
    self.vv = np.hstack((self.cvv, self.svv))
    self.dimx = len(self.vv)
    self.dimq = dimq
    self.dimp = dimp
    self.dimy = dimp + dimq
    self.dimeps = dimeps
    self.hx = zp, zq, zc
    if get_hx_only:
        return self

    PU = -np.hstack((BBU[:, inq], AA[:, inp]))
    MU = np.hstack((CCU[:, inq], BBU[:, inp]))
    PR = -np.hstack((BBR[:, inq], AA[:, inp]))
    MR = np.hstack((CCR[:, inq], BBR[:, inp]))
    gg = np.pad([float(self.x_bar)], (dimp + dimq - 1, 0))

    R, Q = sl.rq(MU.T)
    MU = R.T
    PU = Q @ aca(PU)
    R, Q = sl.rq(MR.T)
    MR = R.T
    PR = Q @ aca(PR)
    gg = Q @ gg

    if solution is None:
        solution = "klein"
    if isinstance(solution, str):
        if solution == "speed_kills":
            omg, lam = speed_kills(PU, MU, dimp, dimq, tol=1e-4)
        else:
            omg, lam = klein(PU, MU, nstates=dimq, verbose=verbose, force=False)
    else:
        omg, lam = solution

    self.sys = omg, lam, self.x_bar
    self.ff = fb0[inq], fb0[inp], fc0[inq]
    preprocess(self, PU, MU, PR, MR, gg, fb0[inq], fb0[inp], fc0[inq], parallel, verbose)
    return self
'''


def solver_state(c):
    f = c.method("gen_sys")
    golden(c, f, "gensys", FROM_YAML, ["attr:par", "attr:ppar", "attr:x_bar", "calls:gen_sys", "raises"])


def c14(c):
    golden(c, c.func("gensys", "gen_sys"), "gensys", GEN_SYS,
           ["attr:" + a for a in ("svv", "cvv", "vv", "dimx", "dimq", "dimp", "dimy", "dimeps", "hx", "sys", "ff", "lks")]
           + ["calls:preprocess"])
    golden(c, c.method("gen_sys"), "gensys", FROM_YAML, ["calls:gen_sys", "attr:x_bar"])
