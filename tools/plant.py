"""Development helper: python3 tools/plant.py SPEC.py  (SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]).

Writes /verif/seeded/<id>/ and verifies each bug in scratch clones of /repo (never in /repo):
patch applies, stable tests pass, the demo fails with the patch and passes without it, and
whether the property's quick check reports it.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, time
PY = "/opt/venv/bin/python"
ROOT = os.environ.get("PLANT_ROOT", "/verif/seeded")
DEMO = """#!/bin/bash
# exits 0 when the behaviour is right, 1 when it is broken (run with cwd /repo)
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src:$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def clone():
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    return d


def verify(bug_id, tests=True, check=True):
    d = f"{ROOT}/{bug_id}"
    meta = json.load(open(d + "/meta.json"))
    t = clone()
    r = t + "/repo"
    try:
        env = {"PYTHONPATH": f"{r}/src:{r}"}
        ok = sh(f"bash {d}/demo.sh", r, timeout=300)
        out = [f"demo-clean={ok.returncode}"]
        if ok.returncode:
            out.append(ok.stdout[-300:] + ok.stderr[-600:])
        a = sh(f"git apply {d}/patch.diff", r)
        if a.returncode:
            return f"{bug_id}: PATCH DOES NOT APPLY {a.stderr}"
        bad = sh(f"bash {d}/demo.sh", r, timeout=300)
        out.append(f"demo-bug={bad.returncode}")
        if tests:
            p = sh(f"{PY} -m pytest -q --no-cov -x -n 4 tests" if False else f"{PY} -m pytest -q --no-cov -x tests", r, env)
            out.append("tests=" + (p.stdout.strip().splitlines() or ["?"])[-1] + ("" if p.returncode == 0 else " FAILED " + p.stdout[-600:]))
        if check:
            t0 = time.time()
            c = sh(f"./run.sh {meta['property']}", "/verif", {"VERIF_REPO": r, "VERIF_SEED": "1"})
            out.append(f"check={c.returncode} ({time.time()-t0:.0f}s) " + ("CAUGHT" if c.returncode == 1 and f"VIOLATION property={meta['property']}" in c.stdout else "MISSED " + c.stdout[-300:]))
        return f"{bug_id} [{meta['property']}]: " + "; ".join(out)
    finally:
        shutil.rmtree(t)


def plant(b):
    d = f"{ROOT}/{b['id']}"
    os.makedirs(d, exist_ok=True)
    t = clone()
    r = t + "/repo"
    try:
        for f, old, new in b["edits"]:
            s = open(f"{r}/{f}").read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(f"{r}/{f}", "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git diff", r).stdout)
    finally:
        shutil.rmtree(t)
    open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)


if __name__ == "__main__":
    arg = sys.argv[1:]
    if arg and arg[0].endswith(".py"):
        bugs = runpy.run_path(arg[0])["BUGS"]
        for b in bugs:
            plant(b)
        ids = [b["id"] for b in bugs]
    else:
        ids = arg or sorted(os.listdir(ROOT))
    for i in ids:
        print(verify(i, tests="--no-tests" not in sys.argv), flush=True)
