"""Property checks: obligations, verdicts, evidence and reports."""

import ast
import json
import os
import sys
import time
import traceback

from . import terms as T
from .terms import TRUE, FALSE, NONE, raw, const, sym, ite, b_and, b_or, b_not, is_const, cval
from .loader import Program, Func, AnalysisBroken, REPO
from .flow import strip, top, Budget
from .libmodel import Interp
from . import compare
from rules.about import ABOUT

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SELF = sym("param", "self")
OUT = os.environ.get("VERIF_OUT") or os.path.join(VERIF, "evidence")

# instance state of the model whose meaning the rules know
MODEL_ATTRS = set("par par_fix ppar prior_arg prior prior_names parameters parafunc observables shocks vv data fdict filter R_args QQ ZZ0 ZZ1 "
                  "x_bar sys lks hx precalc_mat precalc_tmat pool debug Q R P x_0 name path dimx dimq dimeps dimy evv evs Z eps seed "
                  "lprob llike lprior bptrans ndim tune sampler mode_x mode_f".split())


RAISED = T.sym("raised")


class Obligation:
    def __init__(self, rule, where, verdict, detail=""):
        self.rule, self.where, self.verdict, self.detail = rule, where, verdict, detail

    def js(self):
        d = {"rule": self.rule, "where": self.where, "verdict": self.verdict}
        if self.detail:
            d["detail"] = self.detail
        return d


class Check:
    def __init__(self, pid, title="", rule=""):
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.prog = Program()
        self.obl = []
        self.pending = []
        self.vocab = set()
        self.assumptions = []
        self.analysed = set()
        self.paths = 0
        self.events = 0
        self.minimum = 0
        self.deep = False       # the thorough tier: larger budgets, more unrolling
        self.known = load_known(pid)

    # ---------------------------------------------------------------- analysis
    def method(self, name):
        return self.prog.model_method(name)

    def func(self, mod, name):
        return self.prog.func(mod, name)

    def run(self, fn, args=None, selfcls="DSGE", **k):
        names = [p.arg for p in fn.node.args.posonlyargs + fn.node.args.args]
        cls = self.prog.klass(selfcls) if selfcls and names and names[0] in ("self", "cls", "model", "mod", "dsge") else None
        ik = {x: k.pop(x) for x in ("opaque", "inline_props", "unroll", "max_depth") if x in k}
        I = Interp(self.prog, **ik)
        r = I.run(fn, args=args, selfcls=cls, **k)
        r.fn = fn
        self.analysed.add(fn.qual)
        self.analysed |= I.callees
        self.events += len(r.events)
        return r

    def ref(self, mod, src, args=None, selfcls="DSGE", **k):
        """analyse a reference function written in the namespace of a module of the package"""
        tree = ast.parse(src)
        node = tree.body[-1]
        m = self.prog.modules["pydsge." + mod] if mod else self.prog.modules["pydsge"]
        fn = Func(m, node, f"spec.{node.name}")
        a0, e0 = set(self.analysed), self.events
        r = self.run(fn, args, selfcls, **k)
        self.analysed, self.events = a0, e0
        return r

    # ---------------------------------------------------------------- obligations
    def same(self, rule, code, spec, where, res=None):
        """the code's value must be the reference value"""
        code, spec = compare.canon(strip(code)), compare.canon(strip(spec))
        compare.features(spec, self.vocab)
        self.pending.append((rule, code, spec, where, res))

    def require(self, rule, ok, where, detail=""):
        self.obl.append(Obligation(rule, where, "holds" if ok else "VIOLATED", "" if ok else detail))

    def undecided(self, rule, where, detail=""):
        self.obl.append(Obligation(rule, where, "undecided", detail))

    def violate(self, rule, where, detail):
        self.obl.append(Obligation(rule, where, "VIOLATED", detail))

    def settle(self):
        for rule, c, s, where, res in self.pending:
            if c is s:
                self.obl.append(Obligation(rule, where, "holds"))
                continue
            try:
                ds = compare.diffs(c, s, *((40, 60000) if self.deep else ()))
            except (compare.TooMany, RecursionError, T.TooBig) as e:
                self.undecided(rule, where, f"comparison exceeded its budget ({type(e).__name__})")
                continue
            except Exception as e:
                self.undecided(rule, where, f"comparison failed: {type(e).__name__}: {e}")
                continue
            if not ds:
                self.obl.append(Obligation(rule, where, "holds", "equal on every consistent path"))
                continue
            best, unk = self.judge(ds)
            if best is not None:
                self.violate(rule, self.locate(best, res, where), describe(best))
            else:
                self.undecided(rule, where, "outside the vocabulary of the rule: " + ", ".join(unk[1][:6]))
        self.pending = []

    def judge(self, ds, depth=2):
        """(a difference that is certain, an uncertain one with the reason)"""
        unk = None
        for d in ds:
            if not d.loop and compare.independent(d):
                return d, None
            if not compare.comparable(d):
                unk = unk or (d, ["loop skeletons of different shape"])
                continue
            bad = self.unfamiliar(d) or [b for e in d.mates for b in self.unfamiliar(e)]
            if not bad and any(not compare.comparable(e) for e in d.mates):
                bad = ["element and position differ together"]
            if not bad:
                return d, None
            unk = unk or (d, bad)
        if depth:
            for d in ds:
                if not compare.comparable(d):
                    for n in (2, 3, 4) if self.deep else (3,):
                        best, _ = self.judge(compare.refute(d, n), depth - 1)
                        if best is not None:
                            return best, None
        return None, unk

    def unfamiliar(self, d):
        """what a difference mentions that the rules know nothing about"""
        fe = compare.features(d.code) if d.spec is not RAISED else set()
        for a, v in d.path:
            compare.features(a, fe)
        return sorted(str(f) for f in fe if f not in self.vocab and not compare.known(f, MODEL_ATTRS))

    def locate(self, d, res, where):
        if res is not None:
            o = getattr(res.interp, "origin", {}).get(d.code)
            if o and d.code.op not in ("const", "sym"):
                return o
        return where

    # ---------------------------------------------------------------- reporting
    def finish(self, tier="quick"):
        self.settle()
        viol = [o for o in self.obl if o.verdict == "VIOLATED"]
        und = [o for o in self.obl if o.verdict == "undecided"]
        held = [o for o in self.obl if o.verdict == "holds"]
        new, old = [], []
        for o in viol:
            k = next((f for f in self.known if f["rule"] == o.rule and f.get("match", "") in (o.where + " " + o.detail)), None)
            (old if k else new).append((o, k))
        ev = {
            "property": self.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": ABOUT.get(self.pid, ("", []))[0],
                "obligations_total": len(self.obl), "obligations_held": len(held), "obligations_undecided": len(und),
                "functions_analysed": sorted(self.analysed), "dataflow_events": self.events,
                "source_digest": self.prog.digest,
                "obligations": [o.js() for o in self.obl],
            },
            "wall_s": round(time.time() - self.t0, 3),
            "assumptions": ABOUT.get(self.pid, ("", []))[1] + self.assumptions,
            "violations": [o.js() for o, _ in new],
        }
        os.makedirs(OUT, exist_ok=True)
        with open(os.path.join(OUT, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for o, k in old:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        print(f"{self.pid}: {len(self.obl)} obligations, {len(held)} hold, {len(und)} undecided, {len(new)} violated, "
              f"{len(self.analysed)} functions analysed, {ev['wall_s']} s")
        for o in und:
            print(f"  undecided: {o.rule} @ {o.where}: {o.detail[:300]}")
        if new:
            rp = os.path.join(OUT, f"{self.pid}.report.txt")
            with open(rp, "w") as f:
                for o, _ in new:
                    f.write(f"rule: {o.rule}\nat: {o.where}\n{o.detail}\n\n")
            for o, _ in new:
                print(f"  violated: {o.rule}\n    at {o.where}\n    {o.detail}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if len(self.obl) < self.minimum:
            print(f"{self.pid}: only {len(self.obl)} obligations found, expected at least {self.minimum}: analysis lost its anchors")
            return 2
        return 0


def describe(d):
    p = "; ".join(("" if v else "not ") + T.show(a, 7) for a, v in d.path[-8:])
    return f"code computes  {T.show(d.code, 9)[:700]}\n    required       {T.show(d.spec, 9)[:700]}" + (f"\n    when           {p[:900]}" if p else "")


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == pid]


def main(pid, build, tier):
    """build(check): registers the obligations"""
    sys.setrecursionlimit(30000)
    c = Check(pid)
    c.deep = tier == "thorough"
    try:
        build(c)
    except AnalysisBroken as e:
        print(f"{pid}: analysis broken: {e}")
        return 2
    except Exception as e:      # a construct the analyser does not cover: what follows is not decided
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        c.undecided("analysis of the source", f"{os.path.basename(tb.filename)}:{tb.lineno}", f"{type(e).__name__}: {str(e)[:200]}")
        c.minimum = 0
    return c.finish(tier)
