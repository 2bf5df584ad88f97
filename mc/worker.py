"""Runs one job of one check in its own process and writes what it found."""
from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback


class Stop(Exception):
    """Raised when a job has collected enough violations to stop."""


class Job:
    """What a job reports: counters, samples of explored cases, violations."""

    def __init__(self, spec):
        self.tier = spec["tier"]
        self.seed = spec["seed"]
        self.name = spec["job"]["name"]
        self.args = spec["job"].get("args", {})
        self.out = spec["out"]
        self.work = spec["work"]
        self.replay = spec.get("replay")
        self.counts: dict[str, int] = {}
        self.info: dict = {}
        self.samples: list = []
        self.violations: list = []
        self.exhaustive = True
        self.distinct: set = set()
        self._last = 0.0
        self.max_violations = 3

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + int(n)

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    def outcome(self, key):
        """Records a distinct observed outcome (for the non-vacuity count)."""
        self.distinct.add(key)

    def progress(self, text):
        now = time.time()
        if now - self._last > 0.5:
            self._last = now
            with open(self.out + ".progress", "w") as f:
                f.write(str(text))

    def violation(self, desc, replay=None, key=None):
        self.violations.append({"desc": str(desc), "replay": replay, "key": key})
        if len([v for v in self.violations if not v["key"]]) >= self.max_violations:
            raise Stop()

    def expect(self, ok, desc, replay=None, key=None):
        if not ok:
            self.violation(desc() if callable(desc) else desc, replay, key)
        return ok

    def dump(self):
        if self.distinct:
            self.info["distinct_outcomes"] = len(self.distinct)
        with open(self.out + ".tmp", "w") as f:
            json.dump({"counts": self.counts, "info": self.info, "samples": self.samples,
                       "violations": self.violations, "exhaustive": self.exhaustive}, f, default=str)
        os.rename(self.out + ".tmp", self.out)


def main():
    spec = json.load(open(sys.argv[1]))
    job = Job(spec)
    try:
        mod = importlib.import_module(f"checks.{spec['pid'].lower()}")
        fn = getattr(mod, spec["job"]["fn"])
        fn(job, **job.args)
    except Stop:
        job.exhaustive = False
    except Exception as e:  # the code under test raised where the property says it must answer
        tb = traceback.format_exc()
        job.violations.append({
            "desc": f"unexpected {type(e).__name__}: {str(e)[:300]} (last: {progress_of(job)})",
            "replay": {"traceback": tb[-4000:]}, "key": None})
        job.exhaustive = False
    job.dump()


def progress_of(job):
    try:
        return open(job.out + ".progress").read()[-300:]
    except OSError:
        return ""


if __name__ == "__main__":
    main()
