"""mutation test of the checks: python3 tools/mut.py [-v] [name-substring ...]

tools/mutants/*.py define M = [(name, expected properties or "" for a behaviour-preserving edit, [(file, old, new), ...])].
A bug must be reported by one of the expected properties; an equivalent edit must leave every check quiet.
"""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from rules.table import RULES
SEEDS = [("seed:" + os.path.basename(d), json.load(open(d + "/meta.json"))["property"], d + "/patch.diff")
         for d in sorted(glob.glob(os.path.join(V, "seeded", "*")))]
verbose = "-v" in sys.argv
sel = [a for a in sys.argv[1:] if not a.startswith("-")]
ms = []
for p in sorted(glob.glob(os.path.join(V, "tools", "mutants", "*.py"))):
    ns = {}
    exec(open(p).read(), ns)
    ms += ns["M"]
if sel:
    ms = [m for m in ms if any(s in m[0] for s in sel)]

ms += [m for m in SEEDS if not sel or any(x in m[0] for x in sel)]


def run(m):
    name, props, edits = m
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/pydsge", d + "/pydsge", ignore=shutil.ignore_patterns("*.h5", "*.npz", "__pycache__"))
        shutil.copy("/repo/setup.py", d)
        if isinstance(edits, str):
            subprocess.run(["patch", "-s", "-p1", "-i", edits], cwd=d, check=True)
            edits = []
        for f, old, new in edits:
            p = os.path.join(d, "pydsge", f)
            t = open(p).read()
            if old is None:
                t += new
            else:
                if t.count(old) != 1:
                    return name, f"EDIT-FAILED {f} count={t.count(old)}", ""
                t = t.replace(old, new)
            open(p, "w").write(t)
        for f in {e[0] for e in edits}:
            try:
                compile(open(os.path.join(d, "pydsge", f)).read(), f, "exec")
            except SyntaxError as e:
                return name, f"EDIT-FAILED {f} {e}", ""
        env = dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + "/out")
        hit, odd, und, out = [], [], [], ""
        for q in (props.split(",") if props else sorted(RULES)):
            if q not in RULES:
                continue
            x = subprocess.run(["python3", os.path.join(V, "check.py"), q], env=env, capture_output=True, text=True)
            if x.returncode == 1:
                hit.append(q)
                out += x.stdout
            elif x.returncode:
                odd.append((q, x.returncode))
                out += x.stdout + x.stderr
            elif "undecided:" in x.stdout:
                und.append(q)
                out += x.stdout
        if props:
            ok = bool(hit)
            res = ("caught " if ok else "MISSED ") + ",".join(hit)
        else:
            res = "quiet" if not hit and not odd else "FALSE-ALARM " + ",".join(hit)
        return name, res + (f" odd={odd}" if odd else "") + (f" undecided={und}" if und else ""), out
    finally:
        shutil.rmtree(d)


bad = 0
with ThreadPoolExecutor(8) as ex:
    for name, res, out in ex.map(run, ms):
        print(f"{name:40s} {res}", flush=True)
        if not res.startswith(("caught", "quiet")):
            bad += 1
        if verbose or res.startswith("FALSE") or "odd=" in res:
            print("\n".join("      " + l[:600] for l in out.splitlines() if not l.startswith("VIOLATION")))
print("total", len(ms), "bad", bad)
