#!/usr/bin/env python3
"""Confirms a planted change in a scratch copy of /repo (never in /repo).

plant.py ID [--edits FILE] [--no-tests] [--no-check] [--checks C01,C02]

FILE defines EDITS = [(path, old, new), ...]; the diff of the copy is then
written to seeded/ID/patch.diff.  Without it the existing patch.diff is used.
"""
import argparse, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ap = argparse.ArgumentParser()
ap.add_argument("id")
ap.add_argument("--edits")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--no-check", action="store_true")
ap.add_argument("--checks")
ap.add_argument("--tier", default="quick")
a = ap.parse_args()
d = os.path.join(HERE, "seeded", a.id)
os.makedirs(d, exist_ok=True)
c = f"/tmp/w/p/{a.id}"
shutil.rmtree(c, ignore_errors=True)
os.makedirs("/tmp/w/p", exist_ok=True)
subprocess.run(["cp", "-a", "/repo", c], check=True)
patch = os.path.join(d, "patch.diff")
if a.edits:
    ns = {}
    exec(open(a.edits).read(), ns)
    for f, old, new in ns["EDITS"]:
        p = os.path.join(c, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    out = subprocess.run(["git", "-C", c, "diff"], check=True, capture_output=True).stdout
    open(patch, "wb").write(out)
else:
    subprocess.run(["git", "-C", c, "apply", patch], check=True)
files = subprocess.run(["git", "-C", c, "diff", "--name-only"], check=True, capture_output=True, text=True).stdout.split()
ok = True
env = dict(os.environ)
for k in ("VERIF_SEED", "VERIF_TIER"):
    env.pop(k, None)
if any(f.endswith(".pyx") for f in files):
    r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace"], cwd=c, env=env, capture_output=True, text=True)
    print("build", r.returncode); ok &= r.returncode == 0
if not a.no_tests:
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300",
        "--continue-on-collection-errors", "--deselect", "tests/test_temporal_network.py::TestTempNetwork",
        "-o", "junit_family=xunit2", "--junitxml", c + "/junit.xml", "tests"],
        cwd=c, env=dict(env, PYTHONPATH=f"{c}/src:/opt/vp/plugins"), capture_output=True, text=True)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", c + "/out.json", "junit:" + c + "/junit.xml"], capture_output=True)
    res = json.load(open(c + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base
    passed = set(res.get("passed", []))
    bad = [t for t in stable if t not in passed]
    print("tests: stable", len(stable), "failing", bad[:5]); ok &= not bad
demo = os.path.join(d, "demo.sh")
for name, cwd in (("clean", "/repo"), ("patched", c)):
    t = time.time()
    r = subprocess.run(["bash", demo], cwd=cwd, env=env, capture_output=True, text=True, timeout=300)
    print(f"demo {name}: exit {r.returncode} in {time.time()-t:.0f} s", (r.stdout + r.stderr).strip().splitlines()[-1:])
    good = (r.returncode == 0) == (name == "clean"); ok &= good
    if not good:
        print(r.stdout[-2000:], r.stderr[-3000:])
if not a.no_check:
    meta = json.load(open(os.path.join(d, "meta.json")))
    for pid in (a.checks or meta["property"]).split(","):
        t = time.time()
        r = subprocess.run([sys.executable if False else PY, os.path.join(HERE, "check.py"), pid, "--tier", a.tier],
            cwd=HERE, env=dict(env, SIM_REPO=c, VERIF_SEED="1"), capture_output=True, text=True)
        print(f"check {pid}: exit {r.returncode} in {time.time()-t:.0f} s", (r.stdout + r.stderr).strip()[-900:])
print("CONFIRMED" if ok else "NOT CONFIRMED", a.id)
shutil.rmtree(c, ignore_errors=True)
