"""Makes /verif/seeded/<id> from a description and verifies it in a scratch copy of /repo.
usage: seedlib.py FILE...   (each FILE calls seed(...))     seedlib.py --run [ids...]   (re-verify existing ones)"""
import json, os, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
HELPER = '''import os, sys, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
if os.path.isdir(os.path.join(here, "stubs")): sys.path.insert(0, os.path.join(here, "stubs"))
sys.path.insert(0, os.getcwd())
from amaranth import *
from amaranth.sim import Simulator, Tick, Settle

def tick(n=1, d="sync"):
    for _ in range(n):
        yield Tick(d)
    yield Settle()

def run(dut, proc, clocks=None):
    sim = Simulator(dut)
    for name, period in (clocks or {"sync": 1e-6}).items():
        sim.add_clock(period, domain=name)
    done = []
    def p():
        yield Settle()
        yield from proc()
        done.append(1)
    sim.add_process(p)
    sim.run()
    assert done

def expect(got, want, what=""):
    if got != want:
        print("FAIL", what, "got", got, "expected", want)
        sys.exit(1)
'''
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, stubs=False):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, stubs=stubs))


def make(s):
    d = os.path.join(V, "seeded", s["id"])
    w = tempfile.mkdtemp(prefix="mk-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        for f, old, new in s["edits"]:
            p = os.path.join(w, "r", f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    finally:
        shutil.rmtree(w)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/meta.json", "w").write(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1))
    open(d + "/d.py", "w").write(HELPER)
    open(d + "/demo.py", "w").write("from d import *\n" + s["demo"].strip() + "\nprint('ok')\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 280 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    if s["stubs"]:
        shutil.rmtree(d + "/stubs", ignore_errors=True)
        shutil.copytree(V + "/stubs", d + "/stubs", ignore=shutil.ignore_patterns("__pycache__"))


def verify(id):
    d = os.path.join(V, "seeded", id)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed-")
    out = {}
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/repo"])
        r = w + "/repo"
        sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, cwd=r, **k)
        # blame: the changed lines must be original
        a = sh(f"bash {d}/demo.sh"); out["demo_clean"] = a.returncode
        if a.returncode: out["demo_out"] = (a.stdout + a.stderr)[-600:]
        p = sh(f"git apply {d}/patch.diff"); out["apply"] = p.returncode
        base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
        out["orig"] = original_lines(r, base)
        b = sh(f"bash {d}/demo.sh"); out["demo_bug"] = b.returncode
        if not b.returncode: out["demo_out"] = (b.stdout + b.stderr)[-600:]
        t = sh(f"PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH={r} {PY} -m pytest -q -p no:cacheprovider --timeout=300 -o python_files=*.py "
               f"--continue-on-collection-errors --ignore=amlib/soc --ignore=amlib/debug --ignore=amlib/stream/uart.py amlib test 2>&1 | tail -8")
        out["tests"] = "ok" if "2 failed, 85 passed" in t.stdout else t.stdout[-500:]
        v = w + "/verif"
        os.makedirs(v)
        for x in ("harness", "stubs"): shutil.copytree(os.path.join(V, x), v + "/" + x)
        for x in ("run_check.sh", "known_findings.json"): shutil.copy(os.path.join(V, x), v)
        res = []
        for c in meta["property"].split(","):
            k = subprocess.run([v + "/run_check.sh", c, "--tier", "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"))
            hit = k.returncode == 1 and f"VIOLATION property={c} " in k.stdout
            res.append(f"{c}: {'caught' if hit else 'MISSED rc=%d' % k.returncode}")
            out["check_out"] = [l for l in k.stdout.splitlines() if l.startswith(("  [", "ERROR", "C", "INCON"))][:3]
        out["check"] = "; ".join(res)
    finally:
        shutil.rmtree(w)
    good = out["demo_clean"] == 0 and out["demo_bug"] != 0 and out["tests"] == "ok" and out["orig"]
    return id, good, out


def original_lines(r, base):
    """every removed line of the patch also exists in the original file (not one of our fixes)"""
    import re
    diff = subprocess.check_output(["git", "-C", r, "diff", "-U0"], text=True)
    f = None; ok = False; orig = set()
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]; orig = set(subprocess.run(["git", "-C", r, "show", f"{base}:{f}"], capture_output=True, text=True).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
            if l[1:] not in orig: return False
            ok = True
    return ok


if __name__ == "__main__":
    sys.modules["seedlib"] = sys.modules["__main__"]
    ids = []
    if sys.argv[1] == "--run":
        ids = sys.argv[2:] or [os.path.basename(os.path.dirname(m)) for m in sorted(glob.glob(V + "/seeded/*/meta.json"))]
    else:
        for f in sys.argv[1:]:
            exec(compile(open(f).read(), f, "exec"), dict(seed=seed))
        for s in SEEDS:
            make(s); ids.append(s["id"])
    rp = V + "/tools/seed_results.json"
    with ThreadPoolExecutor(3) as ex:
        for id, good, out in ex.map(verify, ids):
            res = json.load(open(rp)) if os.path.exists(rp) else {}
            print(("GOOD " if good else "BAD  ") + id, out["check"], out["check_out"], "" if good else out, flush=True)
            if good:
                c = out["check"]; res[id] = c if "MISSED" in c else c.replace(": caught", "")
                json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
