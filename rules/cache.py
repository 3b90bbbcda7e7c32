"""C15: model caches"""

from .common import *
from .purity import feasible, views
from vflow.flow import API

CRAWL = '''
def crawl_cached_models(mtxt, ftxt):
    global cached_models
    processed_raw_model = None
    if "cached_models" in globals():
        for i in cached_models:
            if cached_models[i].fdict["yaml_raw"] == mtxt and cached_models[i].fdict.get("ffile_raw") == ftxt:
                processed_raw_model = cached_models[i]
                break
    else:
        cached_models = {}
    return processed_raw_model
'''

# what a caller sees of the model that was read
LOOK = '''
def client(mfile, nocache):
    m = DSGE.read(mfile, nocache=nocache)
    return m, m.path, m.fdict, m.fdict["yaml_raw"], m.name, m.debug, m.description
'''

READ = '''
def client(mfile, nocache):
    global cached_models
    with open(mfile) as f:
        mtxt = f.read()
    func_file = mfile[:-5] + "_funcs.py"
    ftxt = None
    if os.path.exists(func_file):
        with open(func_file) as ff:
            ftxt = ff.read()
    hit = crawl_cached_models(mtxt, ftxt)
    if hit is not None and not nocache:
        m = deepcopy(hit)
        m.path = os.path.dirname(mfile)
    else:
        m = DSGE.parse(mtxt, func_file, verbose=False, debug=False)
        m.fdict = {}
        m.fdict["yaml_raw"] = mtxt
        if ftxt is not None:
            m.fdict["ffile_raw"] = ftxt
        m.fdict["model_dump"] = cpickle.dumps(m, protocol=4)
        m.name = m.mod_name
        m.description = m.mod_name
        m.path = os.path.dirname(mfile)
        m.debug = False
        cached_models[len(cached_models)] = deepcopy(m)
    return m, m.path, m.fdict, m.fdict["yaml_raw"], m.name, m.debug, m.description
'''

OPEN = API - {"read"}
NAMES = ("model", "path", "metadata", "stored model text", "name", "debug flag", "description")


def texts(t):
    """file contents do not depend on how the file was opened"""
    def f(u):
        if u.op == "isnone" and u.args[0].op == "call" and u.args[0].args[0].op == "attr" and u.args[0].args[0].args[1] == "read":
            return FALSE
        return u
    return T.rebuild(noexc(t), f, _tx)


_tx = {}


def c15(c):
    golden(c, c.func("parser", "crawl_cached_models"), "parser", CRAWL, ["ret"])
    r = c.ref("parser", LOOK, {}, opaque=OPEN)
    c.analysed |= r.interp.callees
    s = c.ref("parser", READ, {}, opaque=OPEN)
    fn = c.method("read")
    for i, n in enumerate(NAMES):
        c.same(f"read: {n}", texts(T.index(strip(r.ret), const(i))), texts(T.index(strip(s.ret), const(i))), fn.where(), r)
    mod = next(k[0] for k in s.st.vals if k[1] == "cached_models")
    key = (mod, "cached_models")
    if key in r.st.vals:
        c.same("read: cache content", texts(r.st.vals[key]), texts(s.st.vals[key]), fn.where(), r)
    else:
        c.undecided("read: cache content", fn.where(), "the cache is kept elsewhere")
    independent(c, fn, r, key)
    dicts(c)


def independent(c, fn, r, key):
    """no model object is shared between the cache and the caller"""
    rule = "read: returned model is not the cached object"
    crawl = [e for e in r.events if e.kind == "call" and callee("crawl_cached_models")(e.func)]
    model = T.index(top(r.ret), const(0)) if top(r.ret).op == "tuple" else None
    if model is None:
        return c.undecided(rule, fn.where(), "no single returned model")
    bad = None
    for g, l in leaves(model):
        if l.op == "call" and callee("crawl_cached_models")(l.args[0]) and feasible(strip(g)):
            bad = "returns the cached model itself"
        if l.op == "new" and l.args[0] in r.interp.shallow and feasible(strip(g)):
            bad = "returns a shallow copy of the cached model"
    got = [l for g, l in leaves(model)]
    for e in r.events:
        if e.kind == "setitem" and e.target is not None and "cached_models" in T.show(strip(e.target), 4):
            for g, v in leaves(e.value):
                if (v.op != "new" or v.args[0] in r.interp.shallow) and feasible(b_and(strip(g), strip(e.guard))):
                    bad = "stores the very object that is returned in the cache"
                    c.violate(rule, e.where, bad)
                    return
    if bad:
        c.violate(rule, fn.where(), bad)
    else:
        c.require(rule, True, fn.where())


DICT = '''
def gen_sys_from_dict(mdict, l_max=None, k_max=None, parallel=True, force_processing=False, verbose=True):
    global processed_mdicts
    mdict["l_max"] = l_max
    mdict["k_max"] = k_max
    if not force_processing and "processed_mdicts" in globals():
        key = cpickle.dumps(mdict)
        if key in processed_mdicts:
            return processed_mdicts[key]
    else:
        processed_mdicts = {}

    class DSGE_DUMMY(Model):
        pass

    self = DSGE_DUMMY()
    self.debug = True
    self.set_par = None
    self.fdict = mdict
    self.x_bar = mdict["x_bar"] if "x_bar" in mdict else -1
    self.vv = mdict["vars"]
    self.shocks = list(mdict["shocks"])
    self.neps = len(mdict["shocks"])
    self.const_var = mdict["const_var"]
    self.observables = mdict.get("observables")
    if self.observables:
        self.nobs = len(mdict.get("observables"))
    solution = mdict.get("gx"), mdict.get("hx")
    if solution[0] is None:
        solution = "klein"
    res = gen_sys(self, mdict["AA"], mdict["BB"], mdict["CC"], mdict["DD"], mdict["fb"], mdict["fc"], mdict.get("fd"),
                  mdict.get("ZZ0"), mdict.get("ZZ1"), l_max, k_max, solution, False, parallel, False)
    processed_mdicts[cpickle.dumps(mdict)] = res
    return res
'''


def cached(t):
    """what a cache holds is a processed model, never None"""
    def f(u):
        if u.op == "isnone" and u.args[0].op == "sub" and "processed_mdicts" in T.show(u.args[0].args[0], 3):
            return FALSE
        return u
    return T.rebuild(noexc(t), f, {})


def dicts(c):
    fn = c.func("gensys", "gen_sys_from_dict")
    r, s = golden(c, fn, "gensys", DICT, ["ret"], selfcls=None, restrict=cached)
    key = next((k for k in s.st.vals if k[1] == "processed_mdicts"), None)
    if key is not None and key in r.st.vals:
        c.same("gen_sys_from_dict: cache content", cached(r.st.vals[key]), cached(s.st.vals[key]), fn.where(), r)
