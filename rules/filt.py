"""C21: filter set-up and filter run"""

from .common import *
from .quiet import unfold
from vflow.flow import API

CREATE = '''
def create_filter(self, R=None, N=None, ftype=None, seed=None, incl_obs=False, reduced_form=False, **fargs):
    self.Z = np.array(self.data)
    if ftype in ("KalmanFilter", "KF"):
        f = KalmanFilter(dim_x=self.dimx, dim_z=self.nobs, **fargs)
    else:
        size = N if N is not None else int((self.dimq - self.dimeps) ** 2 / 2) + 1
        f = TEnKF(N=size, dim_x=self.dimq - self.dimeps if reduced_form else self.dimx, dim_z=self.nobs, seed=seed, **fargs)
        f.reduced_form = reduced_form
    if R is not None:
        f.R = R
    f.init_cov = None
    f.Q = self.QQ(self.ppar) @ self.QQ(self.ppar)
    self.filter = f
    return f
'''

RUN = '''
def run_filter(self, smoother=True, get_ll=False, init_cov=None, dispatch=None, rcond=1e-14, seed=None, verbose=False):
    self.Z = np.array(self.data)
    if self.Z.shape[1] == 1:
        raise NotImplementedError("single series")
    if self.Z.shape[1] != self.neps:
        raise NotImplementedError("number of shocks")
    flt = self.filter
    if init_cov is not None:
        flt.init_cov = init_cov
    n, m = self.neps, self.dimp
    P, Q = self.precalc_mat[0][1, 0], self.precalc_mat[1][1, 0]
    if flt.name == "KalmanFilter":
        F = np.pad(np.vstack((P[:, :-n], Q[:-n, :-n])), ((0, 0), (m, 0)))
        flt.F = F
        flt.H = np.hstack((self.hx[0], self.hx[1])), self.hx[2]
        if flt.Q.shape[0] == n:
            E = np.vstack((P[:, -n:], Q[:-n, -n:]))
            flt.Q = E @ flt.Q @ E.T
        if flt.init_cov is None:
            inner = sl.solve_discrete_lyapunov(F[m:, m:], flt.Q[m:, m:])
            flt.P = F[:, m:] @ inner @ F.T[m:] + flt.Q
        else:
            flt.P = flt.init_cov
    elif flt.name == "InversionFilter":
        flt.t_func = self.t_func
        flt.pmat, flt.qmat = self.precalc_mat[0], self.precalc_mat[1]
        flt.hx = self.hx
    elif flt.reduced_form:
        flt.t_func = lambda *x: self.t_func(*x, get_obs=True)
        flt.o_func = None
        if flt.init_cov is None:
            E = Q[:-n, -n:]
            flt.P = sl.solve_discrete_lyapunov(Q[:-n, :-n], E @ flt.Q @ E.T)
        else:
            flt.P = flt.init_cov
    else:
        flt.t_func = self.t_func
        flt.o_func = self.o_func
        if flt.init_cov is None:
            flt.P = get_p_init_lyapunov(self, flt.Q)
        else:
            flt.P = flt.init_cov
    flt.get_eps = self.get_eps_lin
    if flt.name == "KalmanFilter":
        means, covs, ll = flt.batch_filter(self.Z)
        if smoother:
            means, covs, _, _ = flt.rts_smoother(means, covs, inv=lambda x: np.linalg.pinv(x, rcond=rcond))
        res = ll if get_ll else (means, covs)
    elif flt.name == "InversionFilter":
        if smoother:
            raise NotImplementedError()
        res = flt.get_lprob(self.Z) if get_ll else flt.run(self.Z)
    else:
        smoother &= not get_ll
        res = flt.batch_filter(self.Z, calc_ll=get_ll, store=smoother, seed=seed, verbose=False)
        if smoother:
            res = flt.rts_smoother(res, rcond=rcond)
    if get_ll:
        res = -np.inf if np.isnan(res) else res
        self.ll = res
    else:
        self.X = res
    return res
'''

GET_LL = '''
def get_ll(self, **args):
    return run_filter(self, smoother=False, get_ll=True, **args)
'''

LYAP = '''
def get_p_init_lyapunov(self, Q):
    n, m = self.neps, self.dimp
    P, A = self.precalc_mat[0][1, 0], self.precalc_mat[1][1, 0]
    F = np.vstack((P[:, :-n], A[:-n, :-n]))
    E = np.vstack((P[:, -n:], A[:-n, -n:]))
    S = E @ Q @ E.T
    return F @ sl.solve_discrete_lyapunov(F[m:, :], S[m:, m:]) @ F.T + S
'''

OBS_COV = '''
def create_obs_cov(self, scale_obs=0.1):
    self.Z = np.array(self.data)
    return np.diagflat(np.var(self.Z, axis=0) * scale_obs ** 2)
'''

EPS = '''
def get_eps_lin(self, x, xp, rcond=1e-14):
    n = self.neps
    P, A = self.precalc_mat[0][1, 0], self.precalc_mat[1][1, 0]
    if self.filter.name == "KalmanFilter":
        return np.linalg.pinv(np.vstack((P[:, -n:], A[:-n, -n:])), rcond) @ (x - self.filter.F @ xp)
    return np.linalg.pinv(A[:, -n:], rcond) @ (x - A[:, :-n] @ xp)
'''

SLOTS = ("F", "H", "Q", "P", "t_func", "o_func", "get_eps", "init_cov", "pmat", "qmat", "hx")


def slot(r, n):
    I = r.interp
    I.stack.append(r.frame)
    try:
        return I.get_attr(r.st, attr_at_exit(r, "filter"), n)
    finally:
        I.stack.pop()


def supported(t):
    """the filters whose implementation is part of the installed dependencies"""
    def f(u):
        if u.op == "eq":
            k = [x for x in u.args if is_const(x) and cval(x) in ("ParticleFilter", "PF", "APF", "AuxiliaryParticleFilter", "IF")]
            if k:
                return FALSE
            if any(is_const(x) and cval(x) == "InversionFilter" for x in u.args) and any(x is PARAM for x in u.args):
                return FALSE
        return u
    return T.rebuild(noexc(t), f, {})


PARAM = T.sym("param", "ftype")


def c21(c):
    fn = c.method("create_filter")
    r, s = golden(c, fn, "filtering", CREATE, ["ret", "attr:filter", "attr:Z"], restrict=supported)
    for n in ("R", "Q", "init_cov", "reduced_form"):
        c.same(f"create_filter: filter attribute `{n}`", supported(strip(slot(r, n))), supported(strip(slot(s, n))), fn.where(), r)
    fn = c.method("run_filter")
    r, s = golden(c, fn, "filtering", RUN, ["ret", "raises", "attr:ll", "attr:X", "attr:Z"], args={"dispatch": NONE}, restrict=supported)
    for n in SLOTS:
        c.same(f"run_filter: filter attribute `{n}`", supported(gate(r, strip(unfold(r, slot(r, n))))), supported(gate(s, strip(unfold(s, slot(s, n))))), fn.where(), r)
    golden(c, c.method("get_ll"), "filtering", GET_LL, ["ret"], opaque=API | {"run_filter"})
    golden(c, c.method("get_p_init_lyapunov"), "filtering", LYAP, ["ret"])
    golden(c, c.method("create_obs_cov"), "filtering", OBS_COV, ["ret"])
    golden(c, c.method("get_eps_lin"), "filtering", EPS, ["ret"])
