"""creates /verif/seeded/<id>/ from tools/seeds/*.py and verifies the planted bugs in a scratch copy

python3 tools/seedlib.py make            regenerate patches, demos and meta files
python3 tools/seedlib.py demo [id ...]   demo passes on HEAD, fails with the patch (scratch copy)
python3 tools/seedlib.py check [id ...]  which check catches which bug (VERIF_REPO on a scratch copy)
"""
import difflib, glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HEAD = '''#!/bin/bash
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
export MPLCONFIGDIR="$W/mpl" NUMBA_CACHE_DIR="$W/numba" DEMO_TMP="$W"
mkdir -p "$W/mpl" "$W/numba"
export PYTHONPATH="$PWD"
/opt/venv/bin/python "$HERE/demo.py"
'''


def load():
    out = []
    for p in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))):
        ns = {}
        exec(open(p).read(), ns)
        out += ns["SEEDS"]
    ids = [s["id"] for s in out]
    assert len(ids) == len(set(ids)), ids
    return out


def apply(s, root):
    for f, old, new in s["edits"]:
        p = os.path.join(root, "pydsge", f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))


def make():
    sd = os.path.join(V, "seeded")
    shutil.rmtree(sd, ignore_errors=True)
    for s in load():
        d = os.path.join(sd, s["id"])
        os.makedirs(d)
        files = {}
        for f, old, new in s["edits"]:
            p = os.path.join(REPO, "pydsge", f)
            t = files.get(f) or open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            files[f] = t.replace(old, new)
        diff = ""
        for f, t in files.items():
            a = open(os.path.join(REPO, "pydsge", f)).read()
            diff += f"diff --git a/pydsge/{f} b/pydsge/{f}\n" + "".join(
                difflib.unified_diff(a.splitlines(True), t.splitlines(True), f"a/pydsge/{f}", f"b/pydsge/{f}"))
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(HEAD)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def copy():
    d = tempfile.mkdtemp(prefix="seed")
    subprocess.run(["cp", "-a", REPO, d + "/repo"], check=True)
    return d


def demo(ids):
    d = copy()
    r = d + "/repo"
    bad = []
    for s in load():
        if ids and not any(s["id"].startswith(i) for i in ids):
            continue
        sh = os.path.join(V, "seeded", s["id"], "demo.sh")
        a = subprocess.run(["bash", sh], cwd=r, capture_output=True, text=True, timeout=400)
        subprocess.run(["git", "apply", os.path.join(V, "seeded", s["id"], "patch.diff")], cwd=r, check=True)
        b = subprocess.run(["bash", sh], cwd=r, capture_output=True, text=True, timeout=400)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r, check=True)
        ok = a.returncode == 0 and b.returncode != 0
        print(s["id"], "ok" if ok else "BAD", a.returncode, b.returncode, flush=True)
        if not ok:
            print(a.stdout[-1500:], a.stderr[-1500:], "----", b.stdout[-800:], b.stderr[-800:])
            bad.append(s["id"])
        elif b.stderr:
            print("   ", b.stderr.strip().splitlines()[-1][:160])
    shutil.rmtree(d)
    print("bad:", bad)


def check(ids):
    d = copy()
    r = d + "/repo"
    env = dict(os.environ, VERIF_REPO=r)
    claimed = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    for s in load():
        if ids and not any(s["id"].startswith(i) for i in ids):
            continue
        apply(s, r)
        hit, odd = [], []
        from concurrent.futures import ThreadPoolExecutor
        def one(p):
            x = subprocess.run(["python3", os.path.join(V, "check.py"), p], env=env, capture_output=True, text=True)
            return p, x.returncode
        with ThreadPoolExecutor(8) as ex:
            for p, rc in ex.map(one, claimed):
                if rc == 1:
                    hit.append(p)
                elif rc:
                    odd.append((p, rc))
        print(s["id"], s["property"], "CAUGHT" if s["property"] in hit else "missed", hit, odd or "", flush=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r, check=True)
    shutil.rmtree(d)


if __name__ == "__main__":
    {"make": lambda a: make(), "demo": demo, "check": check}[sys.argv[1]](sys.argv[2:])
