"""C13: loop-carried dependences of numba parallel loops (AST dependence test, helpers followed)"""

import ast

from .common import *
from . import engine

REDUCE = (ast.Add, ast.Sub, ast.Mult, ast.BitOr, ast.BitAnd)


def is_prange(prog, mod, call):
    if not isinstance(call, ast.Call):
        return False
    f = call.func
    if isinstance(f, ast.Attribute):
        return f.attr == "prange"
    if isinstance(f, ast.Name):
        if f.id == "prange":
            return True
        b = prog.lookup(mod, f.id)
        return bool(b) and b[0] in ("ext", "from") and str(b[-1]).endswith("prange")
    return False


class Access:
    def __init__(self, name, idx, write, node):
        self.name, self.idx, self.write, self.node = name, idx, write, node


def subst(node, env):
    """expression with parameters replaced by the caller's expressions and single-assignment aliases resolved"""
    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            return env[n.id] if n.id in env and isinstance(n.ctx, ast.Load) else n
    import copy
    return R().visit(copy.deepcopy(node))


def elts(sl):
    return list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]


class Body:
    """array accesses and scalar flow of a loop body"""

    def __init__(self, prog, mod, body, var, ints=(), env=None, depth=0):
        self.prog, self.mod = prog, mod
        self.acc = []
        self.assigned = {}      # name -> list of value expressions
        self.exposed = set()    # names read before (definitely) assigned in an iteration
        self.reduced = set()
        self.private = set()
        self.alias = {}         # local name -> the part of an array it is a view of
        self.ints = {n.target.id for s in body for n in ast.walk(s) if isinstance(n, ast.For) and isinstance(n.target, ast.Name)
                     and isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func).split(".")[-1] in ("range", "prange")} | set(ints) | {var}
        self.env = dict(env or {})
        self.depth = depth
        self.block(body, set())

    # definitely assigned names are threaded through
    def block(self, body, done):
        for s in body:
            done = self.stmt(s, done)
        return done

    def stmt(self, s, done):
        if isinstance(s, ast.Assign):
            if isinstance(s.value, ast.Name) and all(isinstance(t, ast.Name) for t in s.targets) and s.value.id not in self.ints:
                n = subst(s.value, self.env)        # another name of the same object
                if isinstance(n, ast.Name) and n.id not in done:
                    self.exposed.add(n.id)
            elif isinstance(s.value, ast.Subscript) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id not in self.assigned \
                    and all(self.basic(i) for i in self.parts(s.value)):
                for i in self.parts(s.value):       # a view: what is read of it counts where it is used
                    self.expr(i, done)
                base = s.value
                while isinstance(base, ast.Subscript):
                    base = base.value
                base = subst(base, self.env)
                if isinstance(base, ast.Name) and base.id not in done:
                    self.exposed.add(base.id)
            else:
                self.expr(s.value, done)
            for t in s.targets:
                done = self.target(t, done, s.value)
            return done
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            self.expr(s.value, done)
            return self.target(s.target, done, s.value)
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, done)
            if isinstance(s.target, ast.Name):
                if s.target.id not in done:
                    if isinstance(s.op, REDUCE):
                        self.reduced.add(s.target.id)
                    else:
                        self.exposed.add(s.target.id)
                elif isinstance(self.view(s.target.id), ast.Subscript):
                    self.access(ast.copy_location(ast.Subscript(s.target, ast.Slice(), ast.Store()), s), True, done)
                    return done         # changes the array behind the name
                self.assigned.setdefault(s.target.id, []).append(None)
                return done
            self.expr(s.target, done, load=True)
            return self.target(s.target, done, None)
        if isinstance(s, ast.If):
            self.expr(s.test, done)
            a = self.block(s.body, set(done))
            b = self.block(s.orelse, set(done))
            return a & b
        if isinstance(s, ast.For):
            self.expr(s.iter, done)
            d = self.target(s.target, set(done), None)
            self.block(s.body, set(d))
            self.block(s.orelse, set(done))
            return done
        if isinstance(s, ast.While):
            self.expr(s.test, done)
            self.block(s.body, set(done))
            return done
        if isinstance(s, (ast.Expr, ast.Return)):
            if s.value is not None:
                self.expr(s.value, done)
            return done
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, done)
        return done

    def target(self, t, done, val):
        if isinstance(t, ast.Name):
            self.assigned.setdefault(t.id, []).append(val)
            if isinstance(val, ast.Subscript) and all(self.basic(i) for i in self.parts(val)) or isinstance(val, ast.Name) and val.id not in self.ints:
                self.alias[t.id] = val
            return done | {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                done = self.target(e, done, None)
            return done
        if isinstance(t, ast.Subscript):
            self.access(t, True, done)
        return done

    def parts(self, n):
        """indices of a chain of subscripts, last one first"""
        out = []
        while isinstance(n, ast.Subscript):
            out += list(reversed(elts(n.slice)))
            n = n.value
        return out

    def basic(self, i):
        """is the index a slice or an integer: the result shares the memory of the array"""
        e = parsed(self.norm(subst(i, self.env)))
        return e is None or all(isinstance(x, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context, ast.Name)) for x in ast.walk(e)) \
            and all(x.id in self.ints for x in ast.walk(e) if isinstance(x, ast.Name))

    def view(self, nm):
        """what a local name assigned once is another name of"""
        return self.alias[nm] if nm in self.alias and len(self.assigned.get(nm, ())) == 1 else None

    def access(self, n, write, done):
        b, idx = n.value, elts(n.slice)
        for e in idx:
            self.expr(e, done)
        while isinstance(b, ast.Subscript):
            idx = elts(b.slice) + idx
            for e in elts(b.slice):
                self.expr(e, done)
            b = b.value
        for _ in range(4):
            v = self.view(b.id) if isinstance(b, ast.Name) else None
            if v is None:
                break
            idx = list(reversed(self.parts(v))) + idx
            b = v
            while isinstance(b, ast.Subscript):
                b = b.value
        b2 = subst(b, self.env)
        while isinstance(b2, ast.Subscript):
            idx = elts(b2.slice) + idx
            b2 = b2.value
        if isinstance(b2, ast.Name):
            self.acc.append(Access(b2.id, [self.norm(subst(i, self.env)) for i in idx], write, n))
            if b2.id not in done and not write and isinstance(b, ast.Name):
                self.exposed.add(b2.id)
        else:
            self.expr(b, done)

    def norm(self, i):
        # resolve aliases assigned once in the body
        for _ in range(4):
            if isinstance(i, ast.Name) and len(self.assigned.get(i.id, ())) == 1 and self.assigned[i.id][0] is not None:
                v = self.assigned[i.id][0]
                if isinstance(v, (ast.Name, ast.BinOp)):
                    i = subst(v, self.env)
                    continue
            break
        return ast.unparse(i)

    def expr(self, e, done, load=False):
        if isinstance(e, ast.Name):
            n = subst(e, self.env)
            if isinstance(n, ast.Name):
                if e.id not in done:
                    self.exposed.add(n.id)
                if self.view(n.id) is not None:
                    self.access(ast.copy_location(ast.Subscript(e, ast.Slice(), ast.Load()), e), False, done)
                self.acc.append(Access(n.id, None, False, e))
            return
        if isinstance(e, ast.Subscript):
            self.access(e, False, done)
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and self.depth < 3:
            b = self.prog.lookup(self.mod, e.func.id)
            if b and b[0] == "func" and b[1].name not in ("get_lam", "get_omg"):
                fn = b[1]
                ps = [p.arg for p in fn.node.args.args]
                env = {p: subst(a, self.env) for p, a in zip(ps, e.args)}
                env.update({k.arg: subst(k.value, self.env) for k in e.keywords if k.arg})
                sub = Body(self.prog, fn.module, fn.node.body, None, ints=self.ints, env=env, depth=self.depth + 1)
                loc = set(sub.assigned)
                for a in sub.acc:
                    if a.idx is not None and (a.name not in loc):
                        self.acc.append(a)
                for a in list(e.args) + [k.value for k in e.keywords]:
                    if not isinstance(a, ast.Name):
                        self.expr(a, done)
                    elif a.id not in done:
                        self.exposed.add(a.id)
                return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, done)
            elif isinstance(c, ast.keyword):
                self.expr(c.value, done)


def loops(fn):
    return [n for n in ast.walk(fn.node) if isinstance(n, ast.For)]


def reads_after(fn, loop):
    """names read after the loop (or at the head of an enclosing loop) without being assigned again: taken as any later read"""
    end = max(getattr(x, "end_lineno", 0) or 0 for x in ast.walk(loop))
    out = set()
    assigned = set()
    for n in sorted((x for x in ast.walk(fn.node) if isinstance(x, ast.Name) and x.lineno > end), key=lambda x: (x.lineno, x.col_offset)):
        if isinstance(n.ctx, ast.Store):
            assigned.add(n.id)
        elif n.id not in assigned:
            out.add(n.id)
    return out


def check_loop(c, fn, loop):
    w = f"{fn.module.path}:{loop.lineno} ({fn.qual.split('.', 1)[-1]})"
    if not isinstance(loop.target, ast.Name):
        c.undecided("parallel loop: index", w, "the loop target is not a name")
        return
    var = loop.target.id
    ints = {n.target.id for n in loops(fn) if isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func).split('.')[-1] in ('range', 'prange')}
    b = Body(c.prog, fn.module, loop.body, var, ints=ints)
    after = reads_after(fn, loop)
    # scalars carried between iterations
    scal = set(b.assigned) - {var}
    for n in sorted(scal):
        if n in b.exposed and n not in b.reduced:
            # read before written in the same iteration: the value comes from another iteration
            c.violate("parallel loop: no value is carried from one iteration to another", w, f"`{n}` is read before it is assigned in the iteration")
        elif n in after and n not in b.reduced:
            c.violate("parallel loop: no value is carried from one iteration to another", w, f"`{n}` is read after the loop; which iteration wrote it last is undefined")
    c.require("parallel loop: private variables", True, w)
    # arrays written
    arrays = sorted({a.name for a in b.acc if a.write})
    private = {n for n in b.assigned if n not in b.exposed}
    for A in arrays:
        if A in private:
            continue
        accs = [a for a in b.acc if a.name == A]
        whole = [a for a in accs if a.idx is None]
        idx = [a for a in accs if a.idx is not None]
        ok = not whole and disjoint(idx, var)
        if ok:
            c.require(f"parallel loop: iterations touch disjoint parts of `{A}`", True, w)
        else:
            bad = (whole + [a for a in idx if not any(involves(i, var) for i in a.idx)] + idx)[0]
            c.violate(f"parallel loop: iterations touch disjoint parts of `{A}`", w,
                      f"`{ast.unparse(bad.node)}` (line {bad.node.lineno}) is not confined to the part of iteration `{var}`, but `{A}` is written in the loop")


def involves(s, var):
    e = parsed(s)
    return e is not None and any(isinstance(n, ast.Name) and n.id == var for n in ast.walk(e))


def parsed(s):
    """index expression, or None for a slice"""
    try:
        return ast.parse(s, mode="eval").body
    except SyntaxError:
        return None


def injective(s, var):
    e = parsed(s)
    if isinstance(e, ast.Name):
        return e.id == var
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        l, r = involves(ast.unparse(e.left), var), involves(ast.unparse(e.right), var)
        return l != r and (injective(ast.unparse(e.left), var) if l else injective(ast.unparse(e.right), var))
    return False


def disjoint(idx, var):
    n = min(len(a.idx) for a in idx)
    for d in range(n):
        forms = {a.idx[d] for a in idx}
        if len(forms) == 1 and injective(next(iter(forms)), var):
            return True
    return False


def jit_options(prog, mod, call):
    return {k.arg: ast.unparse(k.value) for k in call.keywords} if isinstance(call, ast.Call) else {}


def c13(c):
    n = 0
    for mn, m in sorted(c.prog.modules.items()):
        for nm, b in sorted(m.names.items()):
            if b[0] != "func" or b[1].module is not m:
                continue
            fn = b[1]
            ls = [l for l in loops(fn) if is_prange(c.prog, m, l.iter)]
            if ls:
                c.analysed.add(fn.qual)
            for l in ls:
                n += 1
                check_loop(c, fn, l)
    c.require("the package has parallel loops to check", True, f"{n} loops")
    # same code serially and in parallel
    f = c.func("engine", "preprocess")
    r1 = c.run(f, quiet(f, {"parallel": TRUE}))
    r2 = c.run(f, quiet(f, {"parallel": FALSE}))
    c.same("preprocess: the parallel variant computes what the serial one computes", noexc(attr_at_exit(r1, "precalc_mat")),
           noexc(attr_at_exit(r2, "precalc_mat")), f.where(), r1)
    golden(c, f, "engine", engine.PREPROCESS, ["attr:precalc_mat"])
    # no unsafe floating point options on either variant
    for mn, m in sorted(c.prog.modules.items()):
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Call) and isinstance(node.func, (ast.Name, ast.Attribute)):
                nm = node.func.id if isinstance(node.func, ast.Name) else node.func.attr
                if nm in ("njit", "jit") and jit_options(c.prog, m, node).get("parallel") == "True":
                    o = jit_options(c.prog, m, node)
                    bad = o.get("fastmath", "False") not in ("False", "None")
                    c.require("parallel compilation keeps IEEE arithmetic", not bad, f"{m.path}:{node.lineno}", "fastmath reorders the arithmetic of the parallel variant")
