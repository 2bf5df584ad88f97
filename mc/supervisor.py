"""Runs one property check: fans its jobs out to worker processes, merges what
they covered, writes the evidence file, and prints the verdict.

Every job explores one finite space (one configuration of one harness).  A job
runs in its own process because many of the code's settings are read once, when
the library is imported.  The supervisor itself never imports the library.
"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")

# A job that is still running after this long is reported as not terminating;
# the slowest job needs well under a quarter of it.
JOB_TIMEOUT = {"quick": 780.0, "thorough": 6 * 3600.0}


def known_findings(pid: str) -> dict[str, str]:
    """key -> description of the findings listed for this property."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith(f"finding: property={pid} "):
                rest = line.split(" ", 2)[2]
                key, _, desc = rest.partition(" ")
                if key.startswith("key="):
                    out[key[4:]] = desc
    return out


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None, help="run the jobs whose name contains this")
    ap.add_argument("--replay", default=None, help="replay one recorded violation")
    ap.add_argument("--fail-fast", action="store_true", help="stop at the first job that reports a violation")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args()
    pid = a.check.upper()
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1

    mod = importlib.import_module(f"checks.{pid.lower()}")
    replay = None
    if a.replay:
        replay = json.load(open(a.replay))
        jobs = [j for j in mod.jobs(replay.get("tier", tier)) if j["name"] == replay["job"]]
    else:
        jobs = mod.jobs(tier)
        if a.only:
            jobs = [j for j in jobs if a.only in j["name"]]
    names = [j["name"] for j in jobs]
    assert len(set(names)) == len(names), "job names must be unique"
    assert jobs, "no job"

    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    results: dict[str, dict] = {}
    try:
        results = run_jobs(pid, tier, seed, jobs, scratch, a.jobs, replay, a.fail_fast)
    finally:
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0

    known = known_findings(pid)
    reported_known: set[str] = set()
    violations = []
    errors = []
    cov: dict = {"jobs": {}}
    totals: dict[str, int] = {}
    samples = []
    assumptions: list[str] = list(getattr(mod, "ASSUMPTIONS", []))
    exhaustive = True
    for job in jobs:
        r = results[job["name"]]
        if r.get("error"):
            errors.append(f"{job['name']}: {r['error']}")
            continue
        exhaustive = exhaustive and r.get("exhaustive", True)
        for k, v in r.get("counts", {}).items():
            totals[k] = totals.get(k, 0) + int(v)
        cov["jobs"][job["name"]] = {
            **r.get("counts", {}),
            **r.get("info", {}),
            "wall_s": round(r.get("wall_s", 0.0), 2),
        }
        samples.extend(r.get("samples", [])[:2])
        for v in r.get("violations", []):
            if v.get("key") and v["key"] in known:
                reported_known.add(v["key"])
            else:
                violations.append({**v, "job": job["name"]})
    level = mod.LEVEL
    cov.update(totals)
    cov["samples"] = samples[:12] or ["(none)"]
    cov["exhaustive"] = bool(exhaustive)
    if level in ("exploration", "fault_enumeration"):
        cov.setdefault("evaluations", 0)
        cov.setdefault("distinct_nontrivial", 0)
        cov["rule"] = mod.RULE
    elif level == "model_checking":
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
        if hasattr(mod, "RULE"):
            cov["rule"] = mod.RULE
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if not a.replay and not a.only and not a.fail_fast:
        with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")

    for k in sorted(reported_known):
        print(f"KNOWN-FINDING: property={pid} {known[k]}")
    show = {k: v for k, v in totals.items()}
    print(f"{pid} {tier}: jobs={len(jobs)} {show} wall={wall:.1f}s")
    if violations:
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(violations[:5]):
            path = os.path.join(rdir, f"{pid}_{i}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, **v}, f, indent=1, default=str)
                f.write("\n")
            print(f"  [{v['job']}] {v['desc']}"[:1500])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for e in errors:
            print("ERROR", e)
        return 2
    return 0


def run_jobs(pid, tier, seed, jobs, scratch, par, replay, fail_fast=False):
    # Longest first, so the tail is short.
    pending = sorted(jobs, key=lambda j: -j.get("cost", 1))
    running = []
    results = {}
    timeout = JOB_TIMEOUT[tier]
    start_all = time.time()
    while pending or running:
        while pending and len(running) < par:
            job = pending.pop(0)
            out = os.path.join(scratch, f"{len(results) + len(running)}_{job['name'].replace('/', '_')}.json")
            spec = out + ".spec"
            work = out + ".work"
            os.makedirs(work)
            json.dump({"pid": pid, "tier": tier, "seed": seed, "job": job, "replay": replay,
                       "out": out, "work": work}, open(spec, "w"))
            env = dict(os.environ)
            for k in list(env):
                if k.startswith("XTRUCTURE_"):
                    del env[k]
            env.update(job.get("env", {}))
            log = open(out + ".log", "w")
            p = subprocess.Popen([sys.executable, "-m", "mc.worker", spec], env=env,
                                 stdout=log, stderr=subprocess.STDOUT, cwd=ROOT,
                                 start_new_session=True)
            running.append((job, p, out, time.time()))
        time.sleep(0.05)
        for item in list(running):
            job, p, out, t = item
            rc = p.poll()
            expired = rc is None and (time.time() - start_all) > timeout
            if rc is None and not expired:
                continue
            if expired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            running.remove(item)
            if os.path.exists(out):
                r = json.load(open(out))
            elif expired and time.time() - t < timeout / 4:
                r = {"error": "the check ran out of time before this job had a fair share of it"}
            elif expired:
                r = {"violations": [{"desc": f"an operation did not terminate ({timeout:.0f}s): "
                                             + progress(out), "replay": {}}], "exhaustive": False}
            elif rc in (-9, 137):
                r = {"error": "worker was killed (out of memory?)"}
            else:
                tail = open(out + ".log").read()[-1500:]
                r = {"violations": [{"desc": f"worker died with status {rc} while exercising the code: "
                                             f"{progress(out)}\n{tail}", "replay": {}}],
                     "exhaustive": False}
            r["wall_s"] = time.time() - t
            results[job["name"]] = r
            if fail_fast and r.get("violations"):
                for other, p, _, _ in running:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                for other in jobs:
                    results.setdefault(other["name"], {"error": "stopped"})
                return results
    return results


def progress(out):
    try:
        return open(out + ".progress").read()[-800:]
    except OSError:
        return ""


if __name__ == "__main__":
    sys.exit(main())
