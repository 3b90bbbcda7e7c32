"""C10-C13, C30: the jitted engine"""

import ast

from .common import *
from . import sim

T_JIT = '''
def t_func_jit(pmat, pterm, qmat, qterm, bmat, bterm, x_bar, hxp, hxq, hxc, state, shocks, set_l, set_k, x_space):
    s = np.hstack((state, shocks))
    if set_k == -1:
        l, k, flag = find_lk(bmat, bterm, x_bar, s)
    else:
        l, k, flag = set_l, set_k, 0
    p = pmat[l, k] @ s + pterm[l, k]
    q = qmat[l, k] @ s + qterm[l, k]
    return (hxp @ p + hxq @ q + hxc if x_space else p), q, l, k, flag
'''

CNST = '''
def check_cnst(bmat, bterm, s, l, k, q0):
    return bmat[s, l, k] @ q0 + bterm[s, l, k]
'''

BRUTE = '''
def bruite_wrapper(bmat, bterm, x_bar, q):
    _, l_max, k_max = bterm.shape
    for l in range(l_max):
        for k in range(1, k_max):
            if l and bmat[0, l, k] @ q + bterm[0, l, k] - x_bar < 0:
                continue
            if l > 1 and bmat[1, l, k] @ q + bterm[1, l, k] - x_bar < 0:
                continue
            if bmat[4, l, k] @ q + bterm[4, l, k] - x_bar < 0:
                continue
            if bmat[2, l, k] @ q + bterm[2, l, k] - x_bar > 0:
                continue
            if k > 1 and bmat[3, l, k] @ q + bterm[3, l, k] - x_bar > 0:
                continue
            return l, k
    return 999, 999
'''

FIND = '''
def find_lk(bmat, bterm, x_bar, q):
    _, l_max, k_max = bterm.shape
    flag = 0
    l, k = 0, 0
    while bmat[2, l, 0] @ q + bterm[2, l, 0] - x_bar > 0:
        l += 1
        if l == l_max:
            break
    if l < l_max:
        l, k = bruite_wrapper(bmat, bterm, x_bar, q)
        if l == 999:
            flag = 1
            l, k = 0, 0
            below = False
            while True:
                k += 1
                if not below:
                    below = bmat[4, 0, k] @ q + bterm[4, 0, k] - x_bar < 0
                elif bmat[4, 0, k] @ q + bterm[4, 0, k] - x_bar > 0:
                    break
                if k == k_max - 1:
                    flag = 2
                    break
    else:
        l = 0
    return l, k, flag
'''

LAM = '''
def get_lam(omg, psi, S, T, V, W, h, l):
    dimp, dimq = omg.shape
    A = S if l else V
    B = T if l else W
    c = np.zeros(dimq) if l else h[:dimq]
    inv = nl.inv(A[:dimq, :dimq] + A[:dimq, dimq:] @ omg)
    return inv @ B[:dimq, :dimq], inv @ (c - A[:dimq, dimq:] @ psi)
'''

OMG = '''
def get_omg(omg, psi, lam, xi, S, T, V, W, h, l):
    dimp, dimq = omg.shape
    A = S if l else V
    B = T if l else W
    c = np.zeros(dimp) if l else h[dimq:]
    dum = A[dimq:, :dimq] + A[dimq:, dimq:] @ omg
    return dum @ lam - B[dimq:, :dimq], dum @ xi + A[dimq:, dimq:] @ psi - c
'''

PRE = '''
def preprocess_jittable(S, T, V, W, h, fq1, fp1, fq0, omg, lam, x_bar, l_max, k_max):
    dimp, dimq = omg.shape
    l_max += 1
    k_max += 1
    T22i = nl.inv(T[dimq:, dimq:])
    T[dimq:] = T22i @ T[dimq:]
    S[dimq:] = T22i @ S[dimq:]
    W22i = nl.inv(W[dimq:, dimq:])
    W[dimq:] = W22i @ W[dimq:]
    V[dimq:] = W22i @ V[dimq:]
    h[dimq:] = W22i @ h[dimq:]
    pmat = np.empty((l_max, k_max, dimp, dimq))
    qmat = np.empty((l_max, k_max, dimq, dimq))
    pterm = np.empty((l_max, k_max, dimp))
    qterm = np.empty((l_max, k_max, dimq))
    pmat[0, 0] = omg
    pterm[0, 0] = np.zeros(dimp)
    qmat[0, 0] = lam
    qterm[0, 0] = np.zeros(dimq)
    for l in range(0, l_max):
        for k in range(0, k_max):
            if k or l:
                l0 = max(l - 1, 0)
                k0 = k if l else max(k - 1, 0)
                qmat[l, k], qterm[l, k] = get_lam(pmat[l0, k0], pterm[l0, k0], S, T, V, W, h, l)
                pmat[l, k], pterm[l, k] = get_omg(pmat[l0, k0], pterm[l0, k0], qmat[l, k], qterm[l, k], S, T, V, W, h, l)
    bmat = np.empty((5, l_max, k_max, dimq))
    bterm = np.empty((5, l_max, k_max))
    for l in range(0, l_max):
        for k in range(0, k_max):
            lam = np.eye(dimq)
            xi = np.zeros(dimq)
            for s in range(l + k + 1):
                ll = max(l - s, 0)
                kk = max(min(k, k + l - s), 0)
                y = fp1 @ pmat[ll, kk] + fq1 @ qmat[ll, kk] + fq0
                c = fp1 @ pterm[ll, kk] + fq1 @ qterm[ll, kk]
                if s == 0:
                    bmat[0, l, k] = y @ lam
                    bterm[0, l, k] = c + y @ xi
                if s == l - 1:
                    bmat[1, l, k] = y @ lam
                    bterm[1, l, k] = c + y @ xi
                if s == l:
                    bmat[2, l, k] = y @ lam
                    bterm[2, l, k] = c + y @ xi
                if s == l + k - 1:
                    bmat[3, l, k] = y @ lam
                    bterm[3, l, k] = c + y @ xi
                if s == l + k:
                    bmat[4, l, k] = y @ lam
                    bterm[4, l, k] = c + y @ xi
                lam = qmat[ll, kk] @ lam
                xi = qmat[ll, kk] @ xi + qterm[ll, kk]
    return pmat, qmat, pterm, qterm, bmat, bterm
'''

TMAT = '''
def preprocess_tmats_jit(pmat, pterm, qmat, qterm, fq1, fp1, fq0, omg, l_max, k_max):
    dimp, dimq = omg.shape
    l_max += 1
    k_max += 1
    tmat = np.empty((l_max + k_max, l_max, k_max, dimq))
    tterm = np.empty((l_max + k_max, l_max, k_max))
    for l in range(0, l_max):
        for k in range(0, k_max):
            lam = np.eye(dimq)
            xi = np.zeros(dimq)
            for s in range(l_max + k_max):
                ll = max(l - s, 0)
                kk = max(min(k, k + l - s), 0)
                y = fp1 @ pmat[ll, kk] + fq1 @ qmat[ll, kk] + fq0
                c = fp1 @ pterm[ll, kk] + fq1 @ qterm[ll, kk]
                tmat[s, l, k] = y @ lam
                tterm[s, l, k] = c + y @ xi
                lam = qmat[ll, kk] @ lam
                xi = qmat[ll, kk] @ xi + qterm[ll, kk]
    return tmat, tterm
'''

PREPROCESS = '''
def preprocess(self, PU, MU, PR, MR, gg, fq1, fp1, fq0, parallel=False, verbose=False):
    l_max, k_max = self.lks
    omg, lam, x_bar = self.sys
    self.precalc_mat = preprocess_jittable(PU, MU, PR, MR, gg, fq1, fp1, fq0, omg, lam, x_bar, l_max, k_max)
'''

PRETM = '''
def preprocess_tmats(self, fq1, fp1, fq0, verbose):
    l_max, k_max = self.lks
    omg, lam, x_bar = self.sys
    pmat, qmat, pterm, qterm, bmat, bterm = self.precalc_mat
    self.precalc_tmat = preprocess_tmats_jit(pmat, pterm, qmat, qterm, fq1, fp1, fq0, omg, l_max, k_max)
'''


def c10(c):
    golden(c, c.func("engine", "t_func_jit"), "engine", T_JIT, ["ret"])
    sim.c10(c)


def c11(c):
    golden(c, c.func("engine", "check_cnst"), "engine", CNST, ["ret"])
    golden(c, c.func("engine", "bruite_wrapper"), "engine", BRUTE, ["ret"])
    golden(c, c.func("engine", "find_lk"), "engine", FIND, ["ret"])


def c12(c):
    golden(c, c.func("engine", "get_lam"), "engine", LAM, ["ret"])
    golden(c, c.func("engine", "get_omg"), "engine", OMG, ["ret"])
    golden(c, c.func("engine", "preprocess_jittable"), "engine", PRE, ["ret"])
    golden(c, c.func("engine", "preprocess"), "engine", PREPROCESS, ["attr:precalc_mat"])


def c30(c):
    golden(c, c.func("engine", "preprocess_tmats_jit"), "engine", TMAT, ["ret"])
    golden(c, c.func("engine", "preprocess_tmats"), "engine", PRETM, ["attr:precalc_tmat"])
    f = c.func("engine", "preprocess")
    r = c.run(f, quiet(f))
    p = c.func("engine", "preprocess_tmats")
    q = c.run(p, quiet(p))
    tables = {k[1] for k, v in q.st.vals.items() if k[0] is SELF and isinstance(k[1], str) and T.contains(v, lambda u: u.op == "call" and "preprocess_tmats_jit" in T.show(u.args[0], 3))}
    for nm in sorted(tables or {"precalc_tmat"}):
        h = has_at_exit(r, nm)
        v = attr_at_exit(r, nm)
        ok = noexc(h) is FALSE or noexc(v) is NONE or (v.op in ("call", "eff") and "preprocess_tmats" in T.show(v, 3))
        c.require(f"preprocess: tables of the previous solution are discarded (`{nm}`)", ok, f.where(),
                  f"the model still has `{nm}` of the previous solution after the solution changed")
    sim.c30(c)
