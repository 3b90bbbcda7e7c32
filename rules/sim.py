"""C08, C10 (public part), C22, C23, C30: transition, observation, impulse responses, simulation, trajectories"""

from .common import *
from vflow.flow import API

T_FUNC = '''
def t_func(self, state, shocks=None, set_k=None, return_flag=None, return_k=False, get_obs=False, linear=False, verbose=False):
    if shocks is None:
        shocks = np.zeros(self.neps)
    if linear:
        sl, sk = 0, 0
    elif set_k is None or isinstance(set_k, bool):
        sl, sk = -1, -1
    elif isinstance(set_k, tuple):
        sl, sk = (int(v) for v in set_k)
    else:
        sl, sk = int(not bool(set_k)), int(set_k)
    dimeps = self.neps
    dimq = self.sys[0].shape[1]
    pmat, qmat, pterm, qterm, bmat, bterm = self.precalc_mat
    pobs, q, l, k, flag = t_func_jit(pmat, pterm, qmat[:, :, :-dimeps], qterm[..., :-dimeps], bmat, bterm, self.sys[2], *self.hx,
                                     state[-dimq + dimeps:], shocks, sl, sk, get_obs)
    new = (q, pobs) if get_obs else np.hstack((pobs, q))
    if return_k:
        return new, (l, k), flag
    if return_flag is None or return_flag:
        return new, flag
    return new
'''

O_FUNC = '''
def o_func(self, state, covs=None, pars=None):
    if pars is not None:
        pelf = dill.loads(dill.dumps(self, recurse=True))
        obs = []
        for sti, par in zip(state, pars):
            pelf.set_par(par, get_hx_only=True)
            obs.append(sti[:, :pelf.dimp] @ pelf.hx[0].T + sti[:, pelf.dimp:] @ pelf.hx[1].T + pelf.hx[2])
        return np.array(obs)
    obs = state[..., :self.dimp] @ self.hx[0].T + state[..., self.dimp:] @ self.hx[1].T + self.hx[2]
    if np.ndim(state) <= 1:
        obs = pd.Series(obs, index=self.observables)
    if covs is None:
        return obs
    std = np.sqrt(np.diagonal(covs, axis1=1, axis2=2))
    iv95 = np.stack((state - 1.96 * std, state, state + 1.96 * std))
    std_obs = (np.hstack((self.hx[0], self.hx[1])) @ std.T).T
    return np.stack((obs - 1.96 * std_obs, obs, obs + 1.96 * std_obs)), iv95
'''

SHOCK2STATE = '''
def shock2state(self, shock):
    state = np.zeros(self.dimq)
    state[-self.dimeps:][list(self.shocks).index(shock[0])] = shock[1]
    return state
'''

MASK = '''
def mask(self, verbose=False):
    if not hasattr(self, "observables"):
        raise AttributeError("not initialised")
    msk = self.data.copy()
    msk[:] = np.nan
    return msk.rename(columns=dict(zip(self.observables, self.shocks)))[:-1]
'''

IRFS = '''
def irfs(self, shocklist, pars=None, state=None, T=30, linear=False, set_k=False, force_init_equil=None, verbose=True, debug=False, **args):
    from .gensys import gen_sys_from_yaml as gen_sys
    self.debug |= debug
    if force_init_equil is None:
        force_init_equil = not bool(np.any(set_k))
    if not isinstance(shocklist, list):
        shocklist = [shocklist]
    if not hasattr(self, "par"):
        gen_sys(self, verbose=verbose, **args)
    if getattr(self, "pool", None) is not None:
        from .estimation import create_pool
        create_pool(self)
    nstates = self.dimx
    l_max, k_max = self.lks
    shocks = []
    for vec in shocklist:
        if isinstance(vec, str):
            vec = (vec, 1, 0)
        elif len(vec) == 2:
            vec = (*vec, 0)
        shocks.append(vec)
    pickled = dill.dumps(self, recurse=True)

    def runner(par):
        pelf = dill.loads(pickled)
        X = np.empty((T, nstates))
        K = np.empty(T)
        L = np.empty(T)
        if np.any(par):
            try:
                pelf.set_par(par, **args)
            except ValueError:
                X[:] = np.nan
                K[:] = np.nan
                L[:] = np.nan
                return X, K, L, 4, 4
        st_vec = state if state is not None else np.zeros(nstates)
        err = False
        mult = False
        l, k = 0, 0
        for t in range(T):
            shk = np.zeros(len(pelf.shocks))
            for vec in shocks:
                if vec[2] == t:
                    shk[pelf.shocks.index(vec[0])] = vec[1]
            if force_init_equil and not np.any(shk) and np.any([s[2] for s in shocks]):
                eff = (l - 1, k) if l else (l, max(k - 1, 0))
                _, (le, ke), flag = pelf.t_func(st_vec[-(pelf.dimq - pelf.dimeps):], shk, set_k=None, linear=linear, return_k=True)
                mult |= le != eff[0] or ke != eff[1]
            elif set_k is None:
                eff = None
            elif isinstance(set_k, tuple):
                if set_k[0] - t >= 0:
                    eff = set_k[0] - t, set_k[1]
                else:
                    eff = 0, max(set_k[1] + set_k[0] - t, 0)
            elif set_k:
                eff = 0, max(set_k - t, 0)
            else:
                eff = set_k
            if eff:
                if eff[0] > l_max or eff[1] > k_max:
                    raise IndexError("set_k exceeds l_max")
            st_vec, (l, k), flag = pelf.t_func(st_vec[-(pelf.dimq - pelf.dimeps):], shk, set_k=eff, linear=linear, return_k=True)
            err |= flag
            X[t, :] = st_vec
            L[t] = l
            K[t] = k
        return X, L, K, err, mult

    if pars is not None and np.ndim(pars) > 1:
        X, L, K, flag, multflag = map2arr(self.mapper(runner, pars))
    else:
        X, L, K, flag, multflag = runner(pars)
        X = pd.DataFrame(X, columns=self.vv)
    return X, np.vstack((L, K)), flag
'''

SIMULATE = '''
def simulate(self, source=None, mask=None, pars=None, resid=None, init=None, operation=np.multiply, linear=False, debug=False, verbose=False, **args):
    pars = pars if pars is not None else source["pars"]
    resi = resid if resid is not None else source["resid"]
    init = init if init is not None else source["init"]
    self.debug |= debug
    if getattr(self, "pool", None) is not None:
        from .estimation import create_pool
        create_pool(self)
    pickled = dill.dumps(self, recurse=True)

    def runner(arg):
        pelf = dill.loads(pickled)
        flags = False
        par, eps, state = arg
        if mask is not None:
            eps = np.where(np.isnan(mask), eps, operation(np.array(mask), eps))
        if pelf.set_par is not None:
            old_vv = pelf.vv
            _, vv = pelf.set_par(par, return_vv=True, **args)
            if not np.array_equal(vv, old_vv):
                raise Exception("ordering changed")
        X = [state]
        L, K = [], []
        for eps_t in eps:
            state, (l, k), flag = pelf.t_func(state, eps_t, return_k=True, linear=linear)
            flags |= flag
            X.append(state)
            L.append(l)
            K.append(k)
        return np.array(X), np.array((L, K)), flags

    X, LK, flags = map2arr(self.mapper(runner, zip(pars, resi, init)))
    return X, (LK[..., 0, :], LK[..., 1, :]), flags
'''

TRAJ = '''
def traj(self, state, l=None, k=None, verbose=True):
    if k is None or l is None:
        pmat, qmat, pterm, qterm, bmat, bterm = self.precalc_mat
        l, k, flag = find_lk(bmat, bterm, self.sys[2], state)
    if not hasattr(self, "precalc_tmat"):
        preprocess_tmats(self, *self.ff, verbose > 1)
    tmat, tterm = self.precalc_tmat
    return tmat[:, l, k] @ state + tterm[:, l, k]
'''

K_MAP = '''
def k_map(self, state, l=None, k=None, verbose=True):
    x_bar = self.sys[2]
    if k is None:
        pmat, qmat, pterm, qterm, bmat, bterm = self.precalc_mat
        le, k, flag = find_lk(bmat, bterm, x_bar, state)
        l = l or le
    else:
        l = l or 0
    if not hasattr(self, "precalc_tmat"):
        preprocess_tmats(self, *self.ff, verbose > 1)
    l_max, k_max = self.lks
    tmat, tterm = self.precalc_tmat
    LS = np.array([tmat[i + k, i, k] @ state + tterm[i + k, i, k] for i in range(l_max)])
    KS = np.array([tmat[l + i, l, i] @ state + tterm[l + i, l, i] for i in range(k_max)])
    return LS - x_bar, KS - x_bar
'''


def c10(c):
    golden(c, c.method("t_func"), "tools", T_FUNC, ["ret"])
    golden(c, c.method("o_func"), "tools", O_FUNC, ["ret"])
    golden(c, c.method("shock2state"), "tools", SHOCK2STATE, ["ret"])


def c22(c):
    golden(c, c.method("simulate"), "tools", SIMULATE, ["ret", "raises"], symkw=True)
    golden(c, c.method("mask"), "tools", MASK, ["ret"])


def c23(c):
    golden(c, c.method("irfs"), "tools", IRFS, ["ret", "raises"], symkw=True)
    golden(c, c.method("shock2state"), "tools", SHOCK2STATE, ["ret"])


def c30(c):
    golden(c, c.method("traj"), "tools", TRAJ, ["ret"])
    golden(c, c.method("k_map"), "tools", K_MAP, ["ret"])
