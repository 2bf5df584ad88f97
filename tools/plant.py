"""Plants one bug: makes a scratch copy of /repo, edits it, and confirms that the
stable tests still pass, that the demonstration separates the two trees, and
whether the property's check catches it.

    plant.py SPEC.py [--no-check] [--tests-only]
    plant.py --recheck ID [ID ...]     re-run the checks against planted bugs

A spec defines id, prop, edits [(file, old, new)], needs, breaks, demo (python source).
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SEED = os.path.join(ROOT, "seeded")
SCRATCH = "/tmp/mut"
ENV = dict(os.environ, HOME="/root", JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
DEMO = """#!/bin/bash
export HOME=/root JAX_PLATFORMS=cpu PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def scratch(name):
    d = os.path.join(SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
    return d


def tests(d):
    xml = d + ".xml"
    subprocess.run([PY, "-m", "pytest", "-q", "-n", "6", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300",
                    "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={xml}", "--ignore=tests/heap_test.py", "tests"],
                   cwd=d, env=dict(ENV, PYTHONPATH=f"{d}:/opt/vp/env"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.check_call(["/usr/bin/python3", "/opt/vp/results.py", d + ".json", "junit:" + xml], stdout=subprocess.DEVNULL)
    got = set(json.load(open(d + ".json"))["passed"])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(stable - got)


def demo(d, folder):
    r = subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=d, env=dict(os.environ), timeout=300, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def check(d, pid, extra=()):
    t = time.time()
    r = subprocess.run([os.path.join(ROOT, "run.sh"), pid, *extra], cwd=ROOT, env=dict(ENV, VERIF_REPO=d, VERIF_EVIDENCE=d + ".ev"), capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "violation" in l.lower()]
    shutil.rmtree(d + ".ev", ignore_errors=True)
    return r.returncode, time.time() - t, (v or r.stdout.splitlines()[-3:])[:2]


def clean(d):
    for p in (d, d + ".ev"):
        shutil.rmtree(p, ignore_errors=True)
    for p in (d + ".xml", d + ".json"):
        if os.path.exists(p):
            os.remove(p)


def plant(spec, do_check=True):
    ns = {}
    exec(open(spec).read(), ns)
    bid, prop = ns["id"], ns["prop"]
    d = scratch(bid)
    try:
        for f, old, new in ns["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(bid, "EDIT MATCHES", s.count(old), "TIMES:", f, repr(old[:60]))
                return
            open(p, "w").write(s.replace(old, new))
        folder = os.path.join(SCRATCH, bid + ".seed")
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(folder)
        diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
        open(os.path.join(folder, "patch.diff"), "w").write(diff)
        open(os.path.join(folder, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(folder, "demo.sh"), 0o755)
        open(os.path.join(folder, "demo.py"), "w").write(ns["demo"].lstrip())
        json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(folder, "meta.json"), "w"), indent=1)
        a, oa = demo("/repo", folder)
        b, ob = demo(d, folder)
        if a != 0 or b == 0:
            print(bid, "DEMO clean", a, "patched", b, "\n", oa if a else ob)
            return
        failed = tests(d)
        if failed:
            print(bid, "TESTS FAIL", len(failed), failed[:3])
            return
        shutil.rmtree(os.path.join(SEED, bid), ignore_errors=True)
        shutil.copytree(folder, os.path.join(SEED, bid))
        msg = f"{bid} kept ({prop})"
        if do_check:
            rc, t, v = check(d, prop)
            msg += f" check {'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc} {t:.0f}s {v}"
        print(msg, flush=True)
    finally:
        clean(d)
        shutil.rmtree(os.path.join(SCRATCH, bid + ".seed"), ignore_errors=True)


def recheck(bid):
    prop = json.load(open(os.path.join(SEED, bid, "meta.json")))["property"]
    d = scratch(bid)
    try:
        subprocess.check_call(["git", "-C", d, "apply", os.path.join(SEED, bid, "patch.diff")])
        rc, t, v = check(d, prop)
        print(f"{bid} ({prop}) {'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc} {t:.0f}s {v}", flush=True)
    finally:
        clean(d)


if __name__ == "__main__":
    if sys.argv[1] == "--recheck":
        for b in sys.argv[2:] or sorted(os.listdir(SEED)):
            recheck(b)
    else:
        for s in [a for a in sys.argv[1:] if not a.startswith("--")]:
            plant(s, "--no-check" not in sys.argv)
