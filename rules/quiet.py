"""C09: verbosity does not matter"""

import ast

from .common import *
from vflow.flow import API

LEVELS = (True, 3)
_mv = {}


def mute(t):
    """operations are judged one by one, so the verbosity handed on to another operation is left out"""
    def f(u):
        if u.op == "call" and any(k == "verbose" for k, _ in u.args[2]):
            return raw("call", u.args[0], u.args[1], tuple((k, v) for k, v in u.args[2] if k != "verbose"))
        if u.op == "partialfn":
            return raw("partialfn", u.args[0], u.args[1], tuple((k, v) for k, v in u.args[2] if k != "verbose"))
        return u
    return T.rebuild(noexc(t), f, _mv)


def speakers(c):
    """every function of the package with a verbosity option"""
    out = []
    for q, fn in sorted(c.prog.funcs.items()):
        a = fn.node.args
        if any(p.arg == "verbose" for p in a.posonlyargs + a.args + a.kwonlyargs) and fn.parent is None:
            out.append(fn)
    return out


EFFECT = ("numpy.random.", "random.", "os.remove", "os.unlink", "os.rename", "os.replace", "os.makedirs", "os.mkdir", "os.chdir", "numpy.savez", "chaospy.", "shutil.", "pickle.dump", "cloudpickle.dump")


def c09(c):
    for fn in speakers(c):
        t = fn.qual.split(".", 1)[-1]
        base = c.run(fn, {"verbose": FALSE})
        for lv in LEVELS:
            r = c.run(fn, {"verbose": const(lv)})
            compare(c, fn, f"{t} at verbosity {lv}", r, base)


def compare(c, fn, t, r, s):
    w = fn.where()
    c.same(f"{t}: returned value", mute(gate(r, r.ret)), mute(gate(s, s.ret)), w, r)
    c.same(f"{t}: condition of errors", mute(raise_guard(r)), mute(raise_guard(s)), w, r)
    ea, eb = effects(r), effects(s)
    for n in sorted(set(ea) | set(eb)):
        c.same(f"{t}: condition of `{n}`", mute(union_guard(ea.get(n, []))), mute(union_guard(eb.get(n, []))), w, r)
        c.same(f"{t}: arguments of `{n}`", mute(callarg(ea.get(n, []))), mute(callarg(eb.get(n, []))), w, r)
    keys = [k for k in set(r.st.vals) | set(s.st.vals) if isinstance(k[0], T.T) and k[0].op in ("sym", "attr")]
    for k in sorted(keys, key=lambda k: (T.show(k[0], 3), str(k[1]))):
        a, b = r.st.vals.get(k), s.st.vals.get(k)
        n = k[1] if isinstance(k[1], str) else T.show(k[1][1], 3) if isinstance(k[1][1], T.T) else str(k[1])
        old = entry(k)
        a = old if a is None else a
        b = old if b is None else b
        if a is b or a is None or b is None:
            continue
        a, b = unfold(r, a), unfold(s, b)
        c.same(f"{t}: {T.show(k[0], 2)}[{n}] afterwards", mute(a), mute(b), w, r)


def effects(r):
    out = {}
    for e in r.events:
        if e.kind == "call" and e.func.op == "sym" and e.func.args[0] == "ext" and e.func.args[1].startswith(EFFECT):
            out.setdefault(e.func.args[1], []).append(e)
    return out


def unfold(r, v):
    """local functions kept on the model, as the terms of what they compute"""
    I = r.interp
    I.stack.append(r.frame)
    try:
        return I.lam(v, r.st, None)
    finally:
        I.stack.pop()


def entry(k):
    o, n = k
    if isinstance(n, str):
        return raw("attr", o, n)
    if n[0] == "item":
        return raw("sub", o, n[1])
    if n[0] == "has":
        if isinstance(n[1], str):
            return raw("hasattr", o, n[1])
        return None
    return None
