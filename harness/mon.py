"""Monitor: collects oracle verdicts over observed executions of the real code.

A check feeds it observations (`ok`, `close`, `equal`), announces which
workload it is in (`case`) and which distinct situations were seen (`seen`).
The monitor decides: a failed observation is a violation, unless it was
declared through `finding` with a key listed in known_findings.txt.
"""
from __future__ import annotations
import contextlib
import json
import math
import os
import pathlib
import random
import shutil
import sys
import tempfile
import time
import traceback
import zlib

import numpy as np

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = os.path.realpath(os.environ.get("SKTV_REPO", "/repo"))
MAX_VIOLATIONS = 12


class Budget(Exception):
    pass


def jsonable(x, depth=0):
    if isinstance(x, (str, bool)) or x is None:
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, np.ndarray):
        if x.size <= 12:
            return jsonable(x.tolist())
        return {"shape": list(x.shape), "min": jsonable(np.min(x)) if x.dtype.kind in "fiu" else "?",
                "max": jsonable(np.max(x)) if x.dtype.kind in "fiu" else "?"}
    if isinstance(x, dict) and depth < 6:
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)) and depth < 6:
        return [jsonable(v, depth + 1) for v in list(x)[:40]]
    return str(x)[:200]


def load_known(prop):
    """Keys of the open findings of one property."""
    keys = {}
    path = ROOT / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("finding: "):
                f = line.split(None, 3)
                if f[1] == f"property={prop}" and f[2].startswith("key="):
                    keys[f[2][4:]] = f[3] if len(f) > 3 else ""
    return keys


class Monitor:
    def __init__(self, prop, tier, seed, shard=0, shards=1, only=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.shards, self.only = shard, shards, only
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.evals = {}
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.findings = {}
        self.known = load_known(prop)
        self.counters = {}
        self.maxima = {}
        self._case = None
        self._case_n = 0
        self._cases_run = 0
        self.notes = []
        self.assumptions = []
        self.rule = ""
        self.incomplete = None
        self.deadline = None
        self._dir = None

    # -- workload ---------------------------------------------------------
    def nth(self, i, k, key):
        """A residue of k for case i: every residue once in k cases, in an order
        of its own for every key (so that options do not move together)."""
        h = zlib.crc32(f"{self.seed}/{key}/{i // k}".encode())
        return (i + h) % k

    def rng(self, *key):
        """Generator that depends only on the run's seed and the key."""
        h = zlib.crc32(repr((self.prop,) + key).encode())
        return np.random.default_rng([self.seed & 0xFFFFFFFF, h])

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def mine(self, i):
        return i % self.shards == self.shard

    def out_of_time(self):
        return self.deadline is not None and time.time() > self.deadline

    def scratch(self, name="w"):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix=f"sktv-{self.prop}-")
        return tempfile.mkdtemp(prefix=f"{name}-", dir=self._dir)

    def drop(self, path):
        path = os.path.realpath(path)
        if self._dir and path.startswith(os.path.realpath(self._dir) + os.sep):
            shutil.rmtree(path, ignore_errors=True)

    def cleanup(self):
        if self._dir:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    @contextlib.contextmanager
    def case(self, label, **params):
        """One workload. An exception raised inside the code under test on a
        valid workload is a violation; one of the harness itself propagates."""
        full = {"label": label, **params}
        prev, self._case = self._case, full
        self._cases_run += 1
        try:
            yield
        except Budget:
            raise
        except Exception as e:  # noqa: BLE001
            if self._from_repo(e):
                self.count("workload-completes")
                self._violate("workload-completes", {
                    "exception": repr(e)[:500],
                    "trace": traceback.format_exc()[-1800:],
                })
            else:
                raise
        finally:
            self._case = prev

    @staticmethod
    def _from_repo(e):
        """True when the exception was raised at or below a frame of /repo."""
        tb = e.__traceback__
        files = []
        while tb is not None:
            files.append(os.path.realpath(tb.tb_frame.f_code.co_filename))
            tb = tb.tb_next
        return any(f.startswith(REPO + os.sep) for f in files)

    # -- observations -----------------------------------------------------
    def count(self, rule, n=1):
        self.evals[rule] = self.evals.get(rule, 0) + n

    def seen(self, *sig):
        """A distinct non-trivial situation the monitor judged."""
        self.sigs.add(json.dumps(jsonable(sig), sort_keys=True))

    def tally(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def track_max(self, name, value):
        value = float(value)
        if name not in self.maxima or value > self.maxima[name]:
            self.maxima[name] = value

    def sample(self, **kw):
        if len(self.samples) < 6:
            self.samples.append(jsonable({**(self._case or {}), **kw}))

    def _violate(self, rule, detail):
        self.violations.append(jsonable({
            "rule": rule, "case": self._case, "detail": detail,
            "seed": self.seed, "tier": self.tier,
        }))
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Budget("enough violations")

    def ok(self, cond, rule, **detail):
        self.count(rule)
        cond = bool(cond)
        if not cond:
            self._violate(rule, detail)
        return cond

    def equal(self, a, b, rule, **detail):
        a, b = np.asarray(a), np.asarray(b)
        same = a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
        if not same:
            detail = {**detail, "got": a, "want": b}
            if a.shape == b.shape and a.dtype.kind in "fiu":
                detail["max_diff"] = np.max(np.abs(a.astype(float) - b)) if a.size else 0
        return self.ok(same, rule, **detail)

    def close(self, a, b, rule, rtol=1e-9, atol=0.0, scale=None, **detail):
        """|a-b| <= atol + rtol*scale, scale = max|b| unless given."""
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return self.ok(False, rule, got_shape=a.shape, want_shape=b.shape, **detail)
        if a.size == 0:
            return self.ok(True, rule)
        s = np.max(np.abs(b)) if scale is None else scale
        diff = np.abs(a - b)
        err = np.max(diff) if np.all(np.isfinite(diff)) else np.inf
        tol = atol + rtol * s
        good = bool(err <= tol)
        if good:
            if tol > 0:
                self.track_max(f"{rule}: error/tolerance", err / tol)
        else:
            i = np.unravel_index(int(np.argmax(np.nan_to_num(diff, nan=np.inf))), diff.shape) if diff.shape else ()
            detail = {**detail, "err": err, "tol": tol, "at": list(i), "got_at": a[i], "want_at": b[i]}
        return self.ok(good, rule, **detail)

    def finding(self, cond, key, rule, **detail):
        """Like ok(), but a failure is a finding when its key is listed."""
        self.count(rule)
        if cond:
            return True
        if key in self.known:
            self.findings.setdefault(key, jsonable(detail))
        else:
            self._violate(rule, {"finding_key": key, **detail})
        return False

    # -- result -----------------------------------------------------------
    def dump(self):
        return {
            "evals": self.evals, "sigs": sorted(self.sigs), "samples": self.samples,
            "violations": self.violations, "findings": self.findings,
            "counters": self.counters, "maxima": self.maxima, "notes": self.notes,
            "assumptions": self.assumptions, "rule": self.rule,
            "cases": self._cases_run, "incomplete": self.incomplete,
        }

    def merge(self, d):
        for k, v in d["evals"].items():
            self.evals[k] = self.evals.get(k, 0) + v
        self.sigs |= set(d["sigs"])
        self.samples = (self.samples + d["samples"])[:8]
        self.violations += d["violations"]
        self.findings.update(d["findings"])
        for k, v in d["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in d["maxima"].items():
            self.maxima[k] = max(v, self.maxima.get(k, v))
        self.notes += [n for n in d["notes"] if n not in self.notes]
        self.assumptions += [n for n in d["assumptions"] if n not in self.assumptions]
        self.rule = self.rule or d["rule"]
        self._cases_run += d["cases"]
        self.incomplete = self.incomplete or d["incomplete"]
