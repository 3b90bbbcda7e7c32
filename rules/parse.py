"""C25-C28: from the model file to the compiled system"""

import ast

from .common import *
from vflow.flow import API

MATRICES = '''
def get_matrices(self, matrix_format="numeric"):
    from sympy.utilities.lambdify import lambdify
    from sympy.matrices import zeros
    variables = []
    for v in self.variables:
        if v not in variables:
            variables.append(v)
    self["var_ordering"] = variables
    lagged = [v(-1) for v in variables]
    led = [v(1) for v in variables]
    steady = {}
    steady.update({v: 0 for v in variables})
    steady.update({v(1): 0 for v in variables})
    steady.update({v(-1): 0 for v in variables})
    n = len(variables)
    nobs = len(self["observables"])

    bb = zeros(1, 2 * n)
    bb_PSI = zeros(1, self.neps)
    m = n
    if self.const_var:
        m = n - 1
        ahead = [v for v in self.const_eq.atoms(Variable) if v.date > 0]
        if ahead:
            raise NotImplementedError("expectations in the constraint")
        for v in self.const_eq.atoms(Variable):
            if v.date <= 0:
                bb[(variables + lagged).index(v)] = -self.const_eq.set_eq_zero.diff(v).subs(steady)
        for s in self.const_eq.atoms(Shock):
            if s:
                bb_PSI[self["shk_ordering"].index(s)] = -self.const_eq.set_eq_zero.diff(s).subs(steady)

    AA, BB, CC, PSI = zeros(m, n), zeros(m, n), zeros(m, n), zeros(m, self.neps)
    for i, eq in enumerate(self["perturb_eq"]):
        for v in eq.atoms(Variable):
            if v.date > 0:
                AA[i, led.index(v)] = eq.set_eq_zero.diff(v).subs(steady)
        for v in eq.atoms(Variable):
            if v.date == 0:
                BB[i, variables.index(v)] = eq.set_eq_zero.diff(v).subs(steady)
        for v in eq.atoms(Variable):
            if v.date < 0:
                CC[i, lagged.index(v)] = eq.set_eq_zero.diff(v).subs(steady)
        for s in eq.atoms(Shock):
            if s:
                PSI[i, self["shk_ordering"].index(s)] = -eq.set_eq_zero.diff(s).subs(steady)

    ZZ0, ZZ1 = zeros(nobs, n), zeros(nobs, 1)
    for i, obs in enumerate(self["observables"]):
        eq = self["obs_equations"][str(obs)]
        ZZ1[i, 0] = eq.subs(steady)
        if [v for v in eq.atoms(Variable) if v.date < 0]:
            raise NotImplementedError("lags in observation equations")
        for v in eq.atoms(Variable):
            if v.date >= 0:
                ZZ0[i, (variables + self["fvars"]).index(v)] = eq.diff(v).subs(steady)

    symbols = self.parameters + self["other_para"]
    self.AA, self.BB, self.CC = lambdify([symbols], AA), lambdify([symbols], BB), lambdify([symbols], CC)
    self.bb, self.bb_PSI, self.PSI = lambdify([symbols], bb), lambdify([symbols], bb_PSI), lambdify([symbols], PSI)
    self.ZZ0, self.ZZ1 = lambdify([symbols], ZZ0), lambdify([symbols], ZZ1)
    self.QQ = lambdify([symbols], self["covariance"])
    self.HH = lambdify([symbols], self["measurement_errors"])
'''

def symbols_exist(t):
    """a symbol of an equation counts as true"""
    def atom(x):
        return x.op == "sub" and x.args[0].op == "call" and x.args[0].args[0].op == "attr" and x.args[0].args[0].args[1] == "atoms"
    return T.rebuild(noexc(t), lambda u: TRUE if u.op == "truth" and atom(u.args[0]) else u)


COMPILED = ("AA", "BB", "CC", "PSI", "bb", "bb_PSI", "ZZ0", "ZZ1", "QQ", "HH")


def c26(c):
    fn = c.method("get_matrices")
    golden(c, fn, "parser", MATRICES, ["attr:" + a for a in COMPILED], restrict=symbols_exist)
    parsed(c, ["shk_ordering", "par_ordering", "other_para", "covariance", "measurement_errors", "observables", "obs_equations", "const_eq", "const_var",
               "calibration", "para_func"])
    golden(c, classfn(c, "Equation", "set_eq_zero"), "symbols", "def set_eq_zero(self):\n    return self.lhs - self.rhs\n", ["ret"], selfcls="Equation")


PARSE = '''
def parse(cls, mtxt, ffile, verbose=False, debug=False):
    import itertools, re, yaml, sympy
    text = mtxt.replace("^", "**").replace(";", "")
    text = re.sub(r"@ ?\\n", " ", text)
    text = text.replace("\\n ~ ", "\\n - ").replace("\\n  ~ ", "\\n  - ").replace("   ~ ", "   - ")
    tree = yaml.safe_load(text)
    dec, cal, eqs = tree["declarations"], tree["calibration"], tree["equations"]

    if any([" " in v for v in dec["variables"]]):
        raise SyntaxError("space")
    variables = [Variable(v) for v in dec["variables"]]
    parameters = [Parameter(v) for v in cal["parameters"]]
    shocks = [Shock(v) for v in cal["covariances"]]
    others = [Parameter(v) for v in cal["parafunc"]] if "parafunc" in cal else []
    context = dict([(s.name, s) for s in variables + parameters + shocks + others])

    observables, obs_equations = [], dict()
    if "observables" in eqs:
        observables = [Variable(v) for v in eqs["observables"]]
        obs_equations = eqs["observables"]

    const_var, const_eq = [], dict()
    if "constraint" in eqs:
        if len(eqs["constraint"]) > 1:
            raise NotImplementedError("more than one constraint")
        line = eqs["constraint"][0]
        try:
            lhs, rhs = str.split(line, "=")
            assert " " not in lhs.strip()
        except:
            raise SyntaxError("form")
        const_var = Variable(lhs.strip())
        try:
            left = eval(lhs, context)
            right = eval(rhs, context)
        except Exception:
            raise SyntaxError("eval")
        const_eq = Equation(left, right)

    merrs = [Shock(v) for v in dec["measurement_errors"]] if "measurement_errors" in dec else None
    context["__builtins__"] = None
    lines = eqs["model"] if "model" in eqs else eqs
    if len(lines) + 1 != len(variables):
        raise SyntaxError("number of equations")
    equations = []
    for line in lines:
        if "=" in line:
            lhs, rhs = str.split(line, "=")
        else:
            lhs, rhs = line, "0"
        try:
            left = eval(lhs, context)
            if isinstance(left, (int, float)):
                left = sympy.sympify(left)
            right = eval(rhs, context)
            if isinstance(right, (int, float)):
                right = sympy.sympify(right)
        except Exception:
            raise SyntaxError("eval")
        equations.append(Equation(left, right))

    chain = itertools.chain.from_iterable
    # lagged shocks: one auxiliary variable that equals the shock
    latest, earliest = dict.fromkeys(shocks), dict.fromkeys(shocks)
    used = [list(eq.atoms(Shock)) for eq in equations]
    for s in shocks:
        try:
            latest[s] = max([x.date for x in chain(used) if x.name == s.name])
            earliest[s] = min([x.date for x in chain(used) if x.name == s.name])
        except Exception:
            raise SyntaxError("unused shock")
    for s in shocks:
        far = abs(earliest[s])
        if far > 0:
            aux = Variable(s.name + "_VAR")
            variables.append(aux)
            equations.append(Equation(aux, s))
            swap = dict(zip([s(-i) for i in np.arange(1, far + 1)], [aux(-i) for i in np.arange(1, far + 1)]))
            equations = [eq.subs(swap) for eq in equations]

    # longer lags and leads of variables
    used = [list(eq.atoms(Variable)) for eq in equations]
    latest, earliest = dict.fromkeys(variables), dict.fromkeys(variables)
    for v in variables:
        try:
            latest[v] = max([x.date for x in chain(used) if x.name == v.name])
            earliest[v] = min([x.date for x in chain(used) if x.name == v.name])
        except Exception:
            raise SyntaxError("unused variable")
    swap = {}
    for v in variables[:]:
        for i in np.arange(2, abs(earliest[v]) + 1):
            aux = Variable(v.name + "_LAG" + str(i - 1))
            before = v(-1) if i == 2 else Variable(v.name + "_LAG" + str(i - 2), date=-1)
            swap[Variable(v.name, date=-i)] = aux(-1)
            variables.append(aux)
            equations.append(Equation(aux, before))
        for i in np.arange(2, abs(latest[v]) + 1):
            aux = Variable(v.name + "_LEAD" + str(i - 1))
            before = v(1) if i <= 2 else Variable(v.name + "_LEAD" + str(i - 2), date=1)
            swap[Variable(v.name, date=i)] = aux(1)
            variables.append(aux)
            equations.append(Equation(aux, before))
    equations = [eq.subs(swap) for eq in equations]

    cov = sympy.zeros(len(shocks), len(shocks))
    for key, value in cal["covariances"].items():
        pair = key.split(",")
        if len(pair) == 1:
            pair.append(pair[0])
        if len(pair) == 2:
            i, j = shocks.index(Shock(pair[0].strip())), shocks.index(Shock(pair[1].strip()))
            cov[i, j] = eval(str(value), context)
            cov[j, i] = cov[i, j]

    hh = sympy.zeros(len(obs_equations), len(obs_equations))
    if merrs is not None:
        for key, value in cal["measurement_errors"].items():
            pair = key.split(",")
            if len(pair) == 1:
                pair.append(pair[0])
            if len(pair) == 2:
                i, j = merrs.index(Shock(pair[0].strip())), merrs.index(Shock(pair[1].strip()))
                hh[i, j] = eval(value, context)
                hh[j, i] = hh[i, j]

    context["sum"] = np.sum
    context["range"] = range
    for obs in obs_equations.items():
        obs_equations[obs[0]] = eval(obs[1], context)
    if "parafunc" not in cal:
        cal["parafunc"] = {}
    model = cls(var_ordering=variables, const_var=const_var, const_eq=const_eq, par_ordering=parameters, shk_ordering=shocks,
                other_para=others, para_func=cal["parafunc"], calibration=cal["parameters"], equations=equations, covariance=cov,
                measurement_errors=hh, observables=observables, obs_equations=obs_equations)
    model.func_file = ffile
    model.get_matrices()
    model.par_fix = np.array(model.p0())
    names = [p.name for p in model.parameters]
    try:
        model.prior = model["__data__"]["estimation"]["prior"]
        model.prior_arg = [names.index(p) for p in model.prior.keys()]
        model.prior_names = [str(p) for p in model.prior.keys()]
    except KeyError:
        model.prior = None
        model.prior_arg = None
        model.prior_names = None
    model.observables = [str(o) for o in observables]
    model.vo = np.array(model.observables)
    model.ve = np.array(model.shocks)
    return model
'''


def built(r):
    """keyword arguments of the model constructed by `parse`"""
    out = {}
    for e in r.events:
        if e.kind == "call" and e.func is sym("param", "cls"):
            for k, v in e.kwargs:
                out[k] = strip(v)
    return out


def parsed(c, keys):
    fn = c.method("parse")
    args = quiet(fn)
    r, s = c.run(fn, args), c.ref("parser", PARSE, args)
    a, b = built(r), built(s)
    for k in keys:
        if k not in a:
            c.undecided(f"parse: `{k}` of the model", "no model construction with this entry found")
            continue
        c.same(f"parse: `{k}` of the model", noexc(a[k]), noexc(b[k]), fn.where(), r)
    return r, s, fn


SHIFT = '''
def __call__(self, lead):
    return self.__class__(str(self.name), date=int(self.date) + int(lead))
'''


DATED = '''
def __init__(self, name, **args):
    date = args["date"] if "date" in args else 0
    exp_date = args["exp_date"] if "exp_date" in args else 0
    self._assumptions_orig["date"] = date
    self._assumptions_orig["exp_date"] = exp_date
    self._assumptions0 = self._assumptions0 + (("date", date),) + (("exp_date", exp_date),)
'''


def classfn(c, cls, name):
    b = c.prog.method(c.prog.klass(cls), name)
    if not b or b[0] != "func":
        raise AnalysisBroken(f"{cls}.{name} not found")
    return b[1]


def c27(c):
    parsed(c, ["var_ordering", "equations"])
    golden(c, classfn(c, "TSymbol", "__call__"), "symbols", SHIFT, ["ret"], selfcls="TSymbol")
    dated(c)


def dated(c):
    """the date given to a symbol is the one it keeps, and is part of its identity"""
    init = classfn(c, "TSymbol", "__init__")
    r, s = (f(selfcls="TSymbol", symkw=True) for f in (lambda **k: c.run(init, **k), lambda **k: c.ref("symbols", DATED, **k)))
    c.same("symbol: assumptions that hold its date", plain(attr_at_exit(r, "_assumptions0")), plain(attr_at_exit(s, "_assumptions0")), init.where(), r)
    for n in ("date", "exp_date"):
        at = raw("attr", SELF, "_assumptions_orig")
        c.same(f"symbol: {n} kept for copies", plain(item_at_exit(r, at, n)), plain(item_at_exit(s, at, n)), init.where(), r)
        golden(c, classfn(c, "TSymbol", n), "symbols", f"def {n}(self):\n    return self.assumptions0['{n}']\n", ["ret"], selfcls="TSymbol")
    h = classfn(c, "TSymbol", "_hashable_content")
    r = c.run(h, selfcls="TSymbol")
    for n in ("name", "date"):
        at = raw("attr", SELF, n)
        t = plain(r.ret)
        if t.op == "tuple":
            c.require(f"symbol identity depends on its {n}", T.contains(t, lambda u: u is at), h.where(), f"`{n}` is not part of the hashable content")
            lossy = lambda u: u.op == "call" and u.args[0].op == "sym" and u.args[0].args[1] in ("abs", "max", "min", "bool", "len", "numpy.abs", "numpy.sign") or u.op in ("phi", "gt0", "eq")
            for w in [x for x in t.args if T.contains(x, lambda u: u is at)]:
                if T.contains(w, lambda u: lossy(u) and T.contains(u, lambda v: v is at)) and not any(w2 is at or w2.op == "call" and w2.args[1] == (at,) and not lossy(w2) for w2 in t.args):
                    c.require(f"symbol identity tells every {n} apart", False, h.where(), f"`{T.show(w, 4)}` is the same for different values of `{n}`")
        else:
            c.undecided(f"symbol identity depends on its {n}", h.where(), "not a tuple")


DERIVED = '''
def get_matrices(self, matrix_format="numeric"):
    from sympy.utilities.lambdify import lambdify, implemented_function
    context = {p.name: p for p in self.parameters}
    seen = {}

    def once(f):
        def g(*x):
            try:
                return seen[f, x]
            except KeyError:
                seen[f, x] = f(*x)
                return seen[f, x]
        return g
    context["exp"] = implemented_function("exp", np.exp)
    context["log"] = implemented_function("log", np.log)
    context["sqrt"] = implemented_function("sqrt", np.sqrt)
    context["normpdf"] = implemented_function("normpdf", once(sst.norm.pdf))
    context["normcdf"] = implemented_function("normcdf", once(sst.norm.cdf))
    context["normppf"] = implemented_function("normppf", once(sst.norm.ppf))
    context["norminv"] = implemented_function("norminv", once(sst.norm.ppf))
    if self.func_file and os.path.exists(self.func_file):
        import importlib.util as iu
        import inspect
        spec = iu.spec_from_file_location("module", self.func_file)
        module = iu.module_from_spec(spec)
        spec.loader.exec_module(module)
        for func in [o for o in inspect.getmembers(module) if inspect.isroutine(o[1])]:
            context[func[0]] = implemented_function(func[0], once(func[1]))
    values = {}
    done = np.zeros_like(self["other_para"], dtype=bool)
    progress = True
    while ~done.all():
        stuck = not progress
        progress = False
        for i, p in enumerate(self["other_para"]):
            if not done[i]:
                try:
                    values[str(p)] = eval(str(self["para_func"][p.name]), context)
                    context[str(p)] = values[str(p)]
                    done[i] = True
                    progress = True
                except NameError as error:
                    if stuck:
                        raise type(error)("circular")
    psi = lambdify([self.parameters], [values[str(p)] for p in self["other_para"]])
    self.psi = psi
    self.parafunc = [p.name for p in self["other_para"]], psi
    self.pcompile = lambda px: list(px) + psi(list(px))
'''


USE = '''
def client(self, px):
    self.get_matrices()
    return self.pcompile(px)
'''

PROPS = {
    "equations": 'self["equations"]', "variables": 'self["var_ordering"]', "const_var": 'self["const_var"]', "const_eq": 'self["const_eq"]',
    "parameters": 'self["par_ordering"]', "par_names": '[p.name for p in self["par_ordering"]]',
    "shocks": '[str(s) for s in self["shk_ordering"]]', "mod_name": 'self["mod_name"]', "nobs": 'len(self["observables"])',
    "neps": 'len(self["shk_ordering"])', "neta": 'len(self["fvars"])', "npara": 'len(self.parameters)', "neq": 'len(self["perturb_eq"])',
}


def modelattr(r, name):
    """attribute of the model that `parse` returns, in terms of the model itself"""
    m = r.ret
    v = r.st.vals.get((m, name))
    return None if v is None else T.rebuild(strip(v), lambda u: sym("the model") if u is strip(m) else u)


def plain(v):
    return noexc(strip(v))


def c28(c):
    fn = c.method("get_matrices")
    r, s = c.run(fn), c.ref("parser", DERIVED)
    for a in ("psi", "parafunc"):
        c.same(f"get_matrices: model attribute `{a}` afterwards", plain(attr_at_exit(r, a)), plain(attr_at_exit(s, a)), fn.where(), r)
    src = DERIVED.replace("get_matrices(self, matrix_format=\"numeric\")", "client(self, px)") + "    return list(px) + psi(list(px))\n"
    u, s = c.ref("parser", USE, opaque=API - {"get_matrices"}), c.ref("parser", src)
    c.same("get_matrices: values for the compiled functions", plain(u.ret), plain(s.ret), fn.where(), u)
    for n, e in PROPS.items():
        golden(c, c.method(n), "parser", f"def {n}(self):\n    return {e}\n", ["ret"])
    golden(c, c.method("p0"), "parser", 'def p0(self):\n    return [self["calibration"][str(p)] for p in self.parameters]\n', ["ret"])
    r, s, fn = parsed(c, ["par_ordering", "other_para", "calibration"])
    for a in ("par_fix", "prior", "prior_arg", "prior_names", "observables", "vo", "ve", "func_file"):
        x, y = (modelattr(v, a) for v in (r, s))
        if x is None:
            c.undecided(f"parse: attribute `{a}` of the model", fn.where(), "not set where expected")
        else:
            c.same(f"parse: attribute `{a}` of the model", plain(x), plain(y), fn.where(), r)
    memo(c)


# ------------------------------------------------------------------ memoised evaluations
WHOLE = {"tuple", "id", "frozenset", "list"}


def kept(e):
    """names whose full value is part of a dictionary key"""
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, (ast.Tuple, ast.List)):
        return set().union(*map(kept, e.elts)) if e.elts else set()
    if isinstance(e, ast.Starred):
        return kept(e.value)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in WHOLE:
        return set().union(*map(kept, e.args)) if e.args else set()
    return set()


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def arguments(f):
    a = f.args
    return {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())


def memo(c):
    """a dictionary that outlives a call and answers it is keyed by everything the answer depends on"""
    n = 0
    for m in c.prog.modules.values():
        for outer in [x for y in ast.walk(m.tree) if isinstance(y, (ast.Module, ast.ClassDef)) for x in y.body if isinstance(x, ast.FunctionDef)]:
            for f, params in nested(outer, ()):
                if f is outer:
                    continue
                local = {}
                for x in ast.walk(f):
                    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                        local.setdefault(x.targets[0].id, []).append(x.value)
                reads = {x.value.id for x in ast.walk(f) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name)}
                for x in ast.walk(f):
                    if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Subscript)):
                        continue
                    d = x.targets[0].value
                    if not (isinstance(d, ast.Name) and d.id in reads and d.id not in local and d.id not in params):
                        continue
                    if not isdict(outer, f, d.id):
                        continue

                    def deps(e, seen=()):
                        out = set()
                        for v in names(e):
                            if v in local and v not in seen:
                                for w in local[v]:
                                    out |= deps(w, seen + (v,))
                            else:
                                out.add(v)
                        return out

                    def full(e, seen=()):
                        out = set()
                        for v in kept(e):
                            if v in local and v not in seen and len(local[v]) == 1:
                                out |= full(local[v][0], seen + (v,))
                            else:
                                out.add(v)
                        return out
                    # what varies between calls that share the dictionary
                    vary = inner_params(outer, f, d.id)
                    need = deps(x.value) & vary
                    have = full(x.targets[0].slice)
                    touched = deps(x.targets[0].slice)
                    rule = f"memo of {f.name}: the key determines the remembered value"
                    where = f"{m.name.replace('.', '/')}.py:{x.lineno} ({f.name})"
                    n += 1
                    lost = need - have
                    if not lost:
                        c.require(rule, True, where, "")
                    elif lost - touched or any(lossy(x.targets[0].slice, v, local) for v in lost):
                        c.violate(rule, where, f"remembered value depends on {sorted(lost)}, the key does not determine it")
                    else:
                        c.undecided(rule, where, f"key uses {sorted(lost)} in a way that is not understood")
    return n


LOSSY = {"len", "round", "int", "bool", "abs", "type", "min", "max", "sum", "any", "all", "sorted", "set"}


def lossy(e, v, local):
    """every use of v in the key drops information"""
    uses = []

    def walk(x, bad):
        if isinstance(x, ast.Name):
            if x.id == v:
                uses.append(bad)
            elif x.id in local and len(local[x.id]) == 1:
                walk(local[x.id][0], bad)
            return
        if isinstance(x, ast.Attribute):
            bad = True
        if isinstance(x, ast.Subscript):
            bad = True
        if isinstance(x, ast.Call):
            fn = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")
            b = bad or fn in LOSSY
            for y in list(x.args) + [k.value for k in x.keywords]:
                walk(y, b)
            if isinstance(x.func, ast.Attribute):
                walk(x.func.value, bad)
            return
        for y in ast.iter_child_nodes(x):
            walk(y, bad)
    walk(e, False)
    return bool(uses) and all(uses)


def nested(f, params):
    p = tuple(params) + tuple(arguments(f))
    yield f, p
    for x in own(f):
        if isinstance(x, ast.FunctionDef):
            yield from nested(x, p)


def own(f):
    """nodes of the function itself, inner functions as leaves"""
    todo = list(f.body)
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(x))


def chain_of(outer, f):
    if outer is f:
        return [f]
    for x in own(outer):
        if isinstance(x, ast.FunctionDef):
            r = chain_of(x, f)
            if r:
                return [outer] + r
    return None


def holder(outer, f, d):
    """index in the chain of the innermost function that creates the dictionary"""
    ch = chain_of(outer, f) or []
    for i in range(len(ch) - 1, -1, -1):
        if any(isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == d for t in y.targets) for y in own(ch[i])):
            return i
    return None


def isdict(outer, f, d):
    ch = chain_of(outer, f) or []
    i = holder(outer, f, d)
    if i is None or i == len(ch) - 1:
        return False
    for y in own(ch[i]):
        if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == d for t in y.targets):
            if isinstance(y.value, ast.Dict) or isinstance(y.value, ast.Call) and ast.unparse(y.value.func) in ("dict", "OrderedDict", "collections.OrderedDict"):
                return True
    return False


def inner_params(outer, f, d):
    ch = chain_of(outer, f)
    i = holder(outer, f, d)
    out = set()
    for q in ch[i + 1:]:
        out |= arguments(q)
    return out


# ------------------------------------------------------------------ C25
def refused(r, failing):
    """condition under which no model comes back, when no library call fails / when each guarded one does"""
    g = FALSE
    for x, e, w, _ in r.raises:
        g = b_or(g, strip(x))
    return T.rebuild(g, lambda u: failing if u.op == "exc" else u)


def everywhere(r):
    ts = [r.ret] + list(r.st.vals.values()) + [x for x, *_ in r.raises]
    return {u for t in ts for u in T.subterms(strip(t)) if u.op == "exc" and not isinstance(u.args[0], str) and set(u.args[0]) & {"Exception", "BaseException"}}


def caught_broadly(r):
    return len(everywhere(r))


def swallowed(r):
    """broad handlers that do not raise again"""
    g = FALSE
    for x, e, w, _ in r.raises:
        if T.show(e, 2) != "implicit":
            g = b_or(g, strip(x))
    base = T.rebuild(g, lambda u: FALSE if u.op == "exc" else u)
    return [E for E in everywhere(r) if T.rebuild(g, lambda u: (TRUE if u is E else FALSE) if u.op == "exc" else u) is base]


def handlers(r):
    return {u for x, e, w, _ in r.raises for u in T.subterms(strip(x)) if u.op == "exc"}


def sides(r):
    """texts cut at the equality signs, whose second part is used"""
    out = set()
    for v in list(r.st.vals.values()) + [r.ret]:
        for u in T.subterms(strip(v)):
            if u.op == "sub" and u.args[1] is T.const(1) and u.args[0].op == "call":
                f, a, k = u.args[0].args[:3]
                if f.op == "attr" and f.args[1] == "split" and len(a) == 1 and a[0] is T.const("=") and not k:
                    out.add(u.args[0])
    return sorted(out, key=lambda u: u.id)


def eval_args(e):
    f = strip(e.func) if e.func is not None else None
    return list(e.args or ()) if f is not None and f.op == "sym" and f.args[1] == "eval" else []


def c25(c):
    for n, src in (("parse", PARSE), ("get_matrices", MATRICES)):
        fn = c.method(n)
        args = quiet(fn)
        r, s = c.run(fn, args), c.ref("parser", src, args)
        c.same(f"{n}: models that are refused", refused(r, FALSE), refused(s, FALSE), fn.where(), r)
        if n == "parse":
            for u in sides(r):
                ok = any(e.kind == "unpack" and strip(e.value) is u for e in r.events) \
                    or any(T.contains(strip(x), lambda v: v.op == "call" and (v.args[0] is T.LEN and v.args[1][0] is u or v.args[0].op == "attr" and v.args[0].args[1] == "count"))
                           for x, *_ in r.raises)
                c.require("parse: an equation with more than two sides is refused", ok, fn.where(), f"`{T.show(u, 4)}`: further parts are ignored")
            for u in {u for e in r.events if e.kind == "call" for x in eval_args(e) for u in T.subterms(strip(x))
                      if u.op == "call" and u.args[0].op == "sym" and u.args[0].args[1] == "collections.defaultdict"}:
                c.require("parse: unknown symbols are refused", False, fn.where(), f"symbols are looked up in `{T.show(u, 3)}`, which invents what is missing")
            a, b = swallowed(r), swallowed(s)
            c.require("parse: a failed evaluation ends in an error", not (len(a) > len(b) and caught_broadly(r) - len(a) < caught_broadly(s) - len(b)), fn.where(),
                      "an exception caught while parsing no longer leads to an error; " + "; ".join(T.show(u, 3) for u in a))
            if len(handlers(r)) == len(handlers(s)):
                c.same(f"{n}: models with expressions that cannot be evaluated", refused(r, TRUE), refused(s, TRUE), fn.where(), r)
            else:
                c.undecided(f"{n}: models with expressions that cannot be evaluated", fn.where(), "other handlers than in the reference")
    parsed(c, ["const_var"])
