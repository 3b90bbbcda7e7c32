"""C24: historical decompositions"""

from .common import *
from vflow.flow import API

NHD = '''
def nhd(self, eps_dict, linear=False, **args):
    starts, pars, resids = eps_dict["init"], eps_dict["pars"], eps_dict["resid"]
    nsamples = pars.shape[0]
    hd = np.empty((nsamples, self.dimeps, self.data.shape[0], self.dimx))
    means = np.empty((nsamples, self.data.shape[0], self.dimx))
    rcons = np.empty(self.dimeps)
    for i in range(nsamples):
        self.set_par(pars[i], **args)
        pmat, qmat, pterm, qterm, bmat, bterm = self.precalc_mat
        n = self.dimeps
        state = starts[i]
        means[i, 0, :] = state
        hd[i, :, 0, :] = state / self.dimeps
        for t, resid in enumerate(resids[i]):
            state, (l, k), _ = self.t_func(state, resid, return_k=True, linear=linear)
            means[i, t + 1, :] = state
            for s in range(self.dimeps):
                eps = np.zeros(self.dimeps)
                eps[s] = resid[s]
                v = np.hstack((hd[i, s, t, -self.dimq + self.dimeps:], eps))
                hd[i, s, t + 1, :] = np.hstack((pmat[l, k] @ v, qmat[:, :, :-n][l, k] @ v))
                if k:
                    rcons[s] = bmat[0, l, k] @ v
            if k and rcons.sum():
                for s in range(len(self.shocks)):
                    hd[i, s, t + 1, :] += rcons[s] / rcons.sum() * np.hstack((pterm[l, k], qterm[..., :-n][l, k]))
    parts = [pd.DataFrame(h, index=self.data.index, columns=self.vv) for h in hd.mean(axis=0)]
    return parts, pd.DataFrame(means.mean(axis=0), index=self.data.index, columns=self.vv)
'''

SORT = '''
def sort_nhd(hd):
    low = np.zeros_like(hd[0])
    high = np.zeros_like(hd[0])
    ups, downs = (), ()
    for h in hd:
        up = high + np.where(h > 0, h, 0)
        ups += (np.stack((high, up)),)
        down = low + np.where(h < 0, h, 0)
        downs += (np.stack((low, down)),)
        low, high = down, up
    return downs, ups
'''


def seqs(t):
    """contributions in a list or a tuple"""
    def put(u):
        if u.op == "list":
            return T.raw("tuple", *u.args)
        if u.op == "call" and u.args[0] in (T.sym("builtin", "tuple"), T.sym("builtin", "list")) and len(u.args[1]) == 1:
            return u.args[1][0]
        return u
    return T.rebuild(noexc(t), put, {})


def c24(c):
    golden(c, c.method("nhd"), "stats", NHD, ["ret", "calls:set_par"])
    golden(c, c.func("stats", "sort_nhd"), "stats", SORT, ["ret"], restrict=seqs)
