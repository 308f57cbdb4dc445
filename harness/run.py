"""Runs one property's check: shards it over processes, merges, reports.

exit 0 held on everything explored, 1 violation, 3 inconclusive (a monitor
was not reached often enough), anything else: harness error.
"""
from __future__ import annotations
import argparse
import importlib
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = pathlib.Path(__file__).resolve().parent
ROOT = HERE.parent
REPO = os.path.realpath(os.environ.get("SKTV_REPO", "/repo"))
sys.path.insert(0, str(HERE))
sys.path.insert(0, os.path.join(REPO, "scikit-topt"))


def import_code_under_test():
    import contextlib
    import io
    import logging
    with contextlib.redirect_stdout(io.StringIO()):
        import sktopt
    path = os.path.realpath(sktopt.__file__)
    assert path.startswith(REPO + os.sep), f"wrong sktopt: {path}"
    logging.disable(logging.CRITICAL)


def run_shard(args):
    from mon import Monitor, Budget
    sys.setrecursionlimit(10000)
    mod = importlib.import_module(f"checks.{args.property.lower()}")
    m = Monitor(args.property, args.tier, args.seed, args.shard, args.shards, args.only)
    m.rule = mod.RULE
    m.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    limit = getattr(mod, "TIME", {"quick": 240, "thorough": 660})[args.tier]
    m.deadline = time.time() + limit
    real_out = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)   # the code under test prints a lot
    cwd = os.getcwd()
    try:
        import_code_under_test()
        os.chdir(m.scratch("cwd"))
        mod.run(m)
    except Budget:
        pass
    finally:
        os.chdir(cwd)
        os.dup2(real_out, 1)
        m.cleanup()
    pathlib.Path(args.out).write_text(json.dumps(m.dump()))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--shard", type=int)
    ap.add_argument("--shards", type=int)
    ap.add_argument("--out")
    ap.add_argument("--only", help="run only cases whose label contains this")
    ap.add_argument("--replay", help="re-run the tier and seed of a replay file")
    args = ap.parse_args()
    if args.replay:
        rep = json.loads(pathlib.Path(args.replay).read_text())
        args.tier, args.seed = rep["tier"], rep["seed"]
    if args.shard is not None:
        run_shard(args)
        return 0

    t0 = time.time()
    from mon import Monitor
    mod = importlib.import_module(f"checks.{args.property.lower()}")
    shards = args.shards or getattr(mod, "SHARDS", {"quick": 4, "thorough": 8})[args.tier]
    tmp = tempfile.mkdtemp(prefix=f"sktv-run-{args.property}-")
    m = Monitor(args.property, args.tier, args.seed)
    errors = []
    try:
        env = dict(os.environ, PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"), TMPDIR=tmp,
                   MPLCONFIGDIR=os.path.join(tmp, "mpl"), NUMBA_CACHE_DIR=os.path.join(tmp, "nb"))
        env["NUMBA_NUM_THREADS"] = str(getattr(mod, "NUMBA_THREADS", 1))
        if getattr(mod, "PRELOAD", None):
            lib = os.path.join(tmp, "preload.so")
            subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-w", "-o", lib, str(HERE / mod.PRELOAD), "-ldl"], check=True)
            env["LD_PRELOAD"] = lib
        procs = []
        for i in range(shards):
            out = os.path.join(tmp, f"s{i}.json")
            err = open(os.path.join(tmp, f"s{i}.err"), "wb")
            cmd = [sys.executable, "-W", "ignore", "-X", "faulthandler", str(HERE / "run.py"),
                   args.property, args.tier,
                   "--seed", str(args.seed), "--shard", str(i), "--shards", str(shards), "--out", out]
            if args.only:
                cmd += ["--only", args.only]
            procs.append((subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=err,
                                           start_new_session=True), out, err))
        hard = t0 + {"quick": 840, "thorough": 3000}[args.tier]
        for i, (p, out, err) in enumerate(procs):
            try:
                p.wait(timeout=max(1, hard - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                errors.append(f"shard {i}: time limit")
            err.close()
            if p.returncode == 0 and os.path.exists(out):
                m.merge(json.loads(pathlib.Path(out).read_text()))
            else:
                tail = pathlib.Path(tmp, f"s{i}.err").read_text(errors="replace")[-3000:]
                errors.append(f"shard {i}: rc={p.returncode}\n{tail}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # a monitor that was hardly ever reached decides nothing
    missing = []
    if not args.only:
        for rule, n in getattr(mod, "REQUIRE", {}).items():
            if m.evals.get(rule, 0) < n:
                missing.append(f"{rule}: {m.evals.get(rule, 0)} < {n}")
    wall = time.time() - t0
    evaluations = sum(m.evals.values())
    evidence = {
        "property": args.property, "tier": args.tier, "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(m.sigs),
            "rule": m.rule,
            "samples": m.samples or [{"situation": s} for s in sorted(m.sigs)[:5]],
            "cases": m._cases_run,
            "evaluations_by_rule": dict(sorted(m.evals.items())),
            "events": dict(sorted(m.counters.items())),
            "largest_error_over_tolerance": {k: round(v, 6) for k, v in sorted(m.maxima.items())},
            "processes": shards,
            "notes": m.notes,
            "not_reached": missing,
            "harness_errors": [e[:300] for e in errors],
        },
        "assumptions": m.assumptions,
        "wall_s": round(wall, 1),
        "violations": len(m.violations),
        "known_findings": m.findings,
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    if not args.only:
        (ROOT / "evidence" / f"{args.property}.json").write_text(json.dumps(evidence, indent=1))

    for key in sorted(m.findings):
        print(f"KNOWN-FINDING: property={args.property} key={key} {m.known.get(key, '')}")
    if m.violations:
        (ROOT / "replays").mkdir(exist_ok=True)
        rep = ROOT / "replays" / f"{args.property}-{args.tier}-{args.seed}.json"
        rep.write_text(json.dumps({"property": args.property, "tier": args.tier, "seed": args.seed,
                                   "violations": m.violations}, indent=1))
        for v in m.violations[:5]:
            print(f"  {v['rule']}: case={json.dumps(v['case'])[:300]} detail={json.dumps(v['detail'])[:700]}")
        print(f"VIOLATION property={args.property} replay={rep}")
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors))
        return 4
    if missing:
        print("INCONCLUSIVE " + "; ".join(missing))
        return 3
    print(f"HELD property={args.property} tier={args.tier} seed={args.seed} "
          f"evaluations={evaluations} distinct={len(m.sigs)} cases={m._cases_run} wall={wall:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
