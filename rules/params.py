"""C04-C07: parameter setters and getters"""

from .common import *
from . import system

SET_PAR = '''
def set_par(self, dummy=None, setpar=None, npar=None, verbose=False, return_vv=False, roundto=5, **args):
    names = [str(p) for p in self.parameters]
    par = np.array(self.par) if hasattr(self, "par") else np.array(self.par_fix)
    if setpar is None:
        if dummy is None or isinstance(dummy, str):
            par = get_par(self, dummy=dummy, asdict=False, full=True, verbose=verbose, **args)
        elif len(dummy) == len(self.par_fix):
            par = dummy
        elif len(dummy) == len(self.prior_arg):
            par[self.prior_arg] = dummy
        else:
            par = get_par(self, dummy=dummy, asdict=False, full=True, verbose=verbose, **args)
    elif dummy in names:
        if npar is not None:
            npar = npar.copy()
            if len(npar) == len(self.prior_arg):
                npar[self.prior_names.index(dummy)] = setpar
            else:
                npar[names.index(dummy)] = setpar
            if return_vv:
                return npar, self.vv
            return npar
        par[names.index(dummy)] = setpar
    else:
        raise SyntaxError("not a parameter that can be set")
    from .gensys import gen_sys_from_yaml
    gen_sys_from_yaml(self, par=list(par), verbose=verbose, **args)
    if hasattr(self, "filter"):
        self.filter.Q = self.QQ(self.ppar) @ self.QQ(self.ppar)
    if return_vv:
        return get_par(self), self.vv
    return get_par(self)
'''

GET_PAR = '''
def get_par(self, dummy=None, npar=None, asdict=False, full=True, nsamples=1, verbose=False, roundto=5, debug=False, **args):
    from .gensys import gen_sys_from_yaml
    if not hasattr(self, "par"):
        gen_sys_from_yaml(self, verbose=verbose, **args)
    pfnames, pffunc = self.parafunc
    names = [str(p) for p in self.parameters]
    pars = np.array(self.par) if hasattr(self, "par") else np.array(self.par_fix)
    if npar is not None:
        if len(npar) != len(self.par_fix):
            pars[self.prior_arg] = npar
        else:
            pars = npar
    if dummy is None:
        try:
            cand = np.array(pars)[self.prior_arg]
        except:
            cand = get_par(self, "best", asdict=False, full=False, verbose=verbose, **args)
    elif not isinstance(dummy, str) and len(dummy) == len(self.par_fix):
        cand = dummy[self.prior_arg]
    elif not isinstance(dummy, str) and len(dummy) == len(self.prior_arg):
        cand = dummy
    else:
        if dummy in names:
            return pars[names.index(dummy)]
        if dummy in pfnames:
            return pffunc(pars)[pfnames.index(dummy)]
        if dummy == "cov_mat":
            gen_sys_from_yaml(self, pars, **args)
            return self.QQ(self.ppar)
        if dummy == "best":
            try:
                cand = get_par(self, "mode", asdict=False, full=False, verbose=verbose, **args)
            except:
                cand = get_par(self, "init", asdict=False, full=False, verbose=verbose, **args)
        else:
            old_par = self.par
            pars = self.par_fix
            if dummy == "prior":
                self.par = self.par_fix
                try:
                    cand = prior_sampler(self, nsamples=nsamples, verbose=verbose, debug=debug, **args)
                finally:
                    if self.par is self.par_fix:
                        self.par = old_par
            elif dummy in ("post", "posterior"):
                cand = posterior_sampler(self, nsamples=nsamples, verbose=verbose, **args)
            elif dummy in ("posterior_mean", "post_mean"):
                cand = post_mean(self)
            elif dummy in ("mode", "mcmc_mode", "mode_mcmc", "posterior_mode", "post_mode"):
                cand = self.fdict["mode_x"]
            elif dummy == "calib":
                cand = self.par_fix[self.prior_arg].copy()
            elif dummy == "prior_mean":
                cand = [0.5 * self.prior[p][-2] + 0.5 * self.prior[p][-1] if "uniform" in self.prior[p] else self.prior[p][-2]
                        for p in self.prior.keys()]
            elif dummy == "adj_prior_mean":
                cand = [self.prior[p][-2] * 10 if self.prior[p][3] == "inv_gamma_dynare" else
                        (0.5 * self.prior[p][-2] + 0.5 * self.prior[p][-1] if "uniform" in self.prior[p] else self.prior[p][-2])
                        for p in self.prior.keys()]
            elif dummy == "init":
                cand = self.fdict["init_value"]
                for i in range(self.ndim):
                    if cand[i] is None:
                        cand[i] = self.par_fix[self.prior_arg][i]
            else:
                raise KeyError("no such parameter set")
    if full:
        if isinstance(dummy, str) and dummy in ("prior", "post", "posterior"):
            par = np.tile(pars, (nsamples, 1))
            for i in range(nsamples):
                par[i][self.prior_arg] = cand[i]
        else:
            par = np.array(pars)
            par[self.prior_arg] = cand
        if not asdict:
            return par
        return dict(zip(names, np.round(par, roundto))), dict(zip(pfnames, np.round(pffunc(par), roundto)))
    if asdict:
        return dict(zip(np.array(names)[self.prior_arg], np.round(cand, roundto)))
    if nsamples > 1:
        if dummy not in ("prior", "post", "posterior"):
            cand = cand * (1 + 0.001 * np.random.randn(nsamples, len(cand)))
    return cand
'''


def c04(c):
    f = c.method("set_par")
    r, s = golden(c, f, "mpile", SET_PAR, ["attr:par", "attr:ppar", "calls:gen_sys_from_yaml", "ret"], symkw=True)
    c.same("set_par: shock covariance of the filter afterwards", noexc(gate(r, filt(r, "Q"))), noexc(gate(s, filt(s, "Q"))), f.where(), r)
    system.solver_state(c)
    golden(c, c.func("gensys", "gen_sys"), "gensys", system.GEN_SYS, ["attr:" + a for a in ("vv", "hx", "sys", "ff")] + ["calls:preprocess"])
    from . import filt as F
    fn = c.method("create_filter")
    r, s = c.run(fn, quiet(fn)), c.ref("filtering", F.CREATE, quiet(fn))
    c.same("create_filter: shock covariance of the filter", F.supported(strip(F.slot(r, "Q"))), F.supported(strip(F.slot(s, "Q"))), fn.where(), r)


def filt(r, name):
    """value of self.filter.<name> at exit"""
    f = attr_at_exit(r, "filter")
    def rec(t):
        if t.op == "phi":
            return ite(t.args[0], rec(t.args[1]), rec(t.args[2]))
        v = r.st.vals.get((t, name))
        return v if v is not None else raw("attr", top(t), name)
    return rec(f)


def c05(c):
    f = c.method("set_par")
    r, _ = golden(c, f, "mpile", SET_PAR, ["raises", "ret", "calls:gen_sys_from_yaml"])
    untouched(c, "set_par: arguments are not modified in place", r, f, is_input)
    f = c.method("get_par")
    r, _ = golden(c, f, "mpile", GET_PAR, ["raises"])
    untouched(c, "get_par: arguments are not modified in place", r, f, is_input)


def c06(c):
    f = c.method("get_par")
    golden(c, f, "mpile", GET_PAR, ["ret", "raises"])
    golden(c, f, "mpile", GET_PAR, ["ret"], tag="get_par, failing lookups included", restrict=strip)
