"""Build planted bugs: python3 tools/mkseed.py SPEC.py [--tests] [id...]
SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
Makes a scratch copy of /repo, applies the edit, confirms the demo (and with --tests the stable test-suite)."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ns = {}
exec(open(sys.argv[1]).read(), ns)
tests = "--tests" in sys.argv
ids = [a for a in sys.argv[2:] if not a.startswith("-")]
base = json.load(open("/opt/vp/BASELINE.json"))
W = "/tmp/seedwork"


def demo(d, cwd):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd, capture_output=True, text=True, timeout=300)


for s in ns["SEEDS"]:
    if ids and s["id"] not in ids:
        continue
    d = os.path.join(ROOT, "seeded", s["id"])
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % W, shell=True, check=True)
    subprocess.run("git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", cwd=W, shell=True, check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(old) >= 1, (s["id"], f, "not found")
        k = s.get("nth", 0)
        if t.count(old) > 1:
            assert "nth" in s, (s["id"], "ambiguous", t.count(old))
            parts = t.split(old)
            t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        else:
            t = t.replace(old, new)
        open(p, "w").write(t)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
    assert diff.strip()
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\n" + s["demo"])
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    a, b = demo(d, "/repo"), demo(d, W)
    ok = a.returncode == 0 and b.returncode != 0
    print(s["id"], "demo clean", a.returncode, "bug", b.returncode, "OK" if ok else "BAD\n" + a.stderr[-600:] + b.stdout[-300:])
    if ok:
        print("   ", (b.stderr.strip().splitlines() or ["?"])[-1][:150])
    r = subprocess.run([ROOT + "/check", s["prop"]], env=dict(os.environ, PV_REPO=W), capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("    check", s["prop"], "rc", r.returncode, "violations", len(v), "without input", sum("no-failing" in l for l in v))
    if tests:
        env = dict(os.environ, PYTHONPATH="/opt/vp/plugin", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "vp_seed", "-p", "no:cacheprovider", "--timeout=600", "-n", "8", "--dist", "worksteal", "-o", "junit_family=xunit2",
                        "--ignore=tests/ope/test_offline_estimation_performance.py", "--ignore=tests/policy/test_offline_learner_performance.py",
                        "--ignore=tests/policy/test_offline_learner_continuous_performance.py", "--junitxml=/tmp/seed.xml", "tests"], cwd=W, env=env, capture_output=True)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", "/tmp/seed.json", "junit:/tmp/seed.xml"], capture_output=True)
        res = json.load(open("/tmp/seed.json"))
        passed = set(res.get("passed", []))
        stable = set(base.get("passed") or base.get("stable") or base.get("tests"))
        miss = stable - passed
        print("    tests: stable", len(stable), "not passing", len(miss), sorted(miss)[:3])
    shutil.rmtree(W, ignore_errors=True)
