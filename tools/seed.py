"""seed.py [ID ...]: write planted bugs to seeded/, confirm them in scratch copies, and run the check of their property.

Results go to /tmp/seed-results.json.  Options: --notests, --nocheck, --props=C01,C05 (checks to run instead of the bug's own).
"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bugs
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
opts = [a for a in sys.argv[1:] if a.startswith("--")]
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
props = next((o.split("=")[1].split(",") for o in opts if o.startswith("--props=")), None)
PAR = int(next((o.split("=")[1] for o in opts if o.startswith("--par=")), 2))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '#!/bin/bash\n# run with cwd /repo\nPYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, t=1500):
    try:
        p = subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def tests(c):
    out = os.path.join(c, "junit.xml")
    env = dict(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", PYTHONPATH="/opt/vp/plugin")
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "stable_ids", "--runslow", "-n", "4", "--ignore=tests/test_consistency.py",
        "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={out}"], c, env)
    res = os.path.join(c, "res.json")
    sh(["/usr/bin/python3", "/opt/vp/results.py", res, f"junit:{out}"], c)
    d = json.load(open(res))
    return sorted(stable - set(d["passed"]))


def one(b):
    r = {"id": b["id"], "property": b["property"]}
    out = os.path.join(ROOT, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO.replace(" NUMBA_DISABLE_JIT=1", "") if b.get("jit") else DEMO)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(b["demo"])
    json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    top = tempfile.mkdtemp(prefix="seed-")
    c = os.path.join(top, "repo")
    try:
        shutil.copytree("/repo", c, symlinks=True)
        r["clean"], msg = sh(["bash", os.path.join(out, "demo.sh")], c)
        if r["clean"]:
            r["msg"] = msg[-400:]
        for f, old, new in b["edits"]:
            p = os.path.join(c, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        _, diff = sh(["git", "diff"], c)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        r["patched"], msg = sh(["bash", os.path.join(out, "demo.sh")], c)
        r["said"] = msg[-150:]
        if "--notests" not in opts:
            r["failing_tests"] = tests(c)
        if "--nocheck" not in opts:
            r["checks"] = {}
            for pr in props or [b["property"]]:
                rc, o = sh([sys.executable, "check.py", pr, "quick"], ROOT, {"FLORY_REPO": c, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_EVID": top})
                r["checks"][pr] = [rc, [l for l in o.splitlines() if "VIOLATION" in l or "clause" in l][:3] or o[-200:]]
    except AssertionError as e:
        r["error"] = str(e)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    print(json.dumps(r), flush=True)
    return r


if __name__ == "__main__":
    todo = [b for b in bugs.BUGS if not ids or b["id"] in ids or b["property"] in ids]
    with cf.ThreadPoolExecutor(PAR) as ex:
        res = list(ex.map(one, todo))
    old = json.load(open("/tmp/seed-results.json")) if os.path.exists("/tmp/seed-results.json") else {}
    for r in res:
        old[r["id"]] = {**old.get(r["id"], {}), **r, "checks": {**old.get(r["id"], {}).get("checks", {}), **r.get("checks", {})}}
    json.dump(old, open("/tmp/seed-results.json", "w"), indent=1)
