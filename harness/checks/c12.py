"""C12: a fresh run in a directory with a past, against the same run in an
empty directory, and restarts after it."""
import os
import shutil
import numpy as np
import gen
import tracer
from checks.c10 import contents, same

RULE = "distinct (optimizer, physics, kinds of earlier content, foreign files, interruption) executions compared with an empty directory"
ASSUMPTIONS = ["pictures are not compared", "the folder mesh_rho belongs to the optimizer", "foreign files do not carry the names of the optimizer's own files"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"same-histories": 18, "same-files": 10, "no-file-of-the-earlier-run": 20, "foreign-file-untouched": 50,
           "resumes-from-own-snapshot": 12, "same-after-restart": 12}


class At:
    """Gives a Run a directory instead of a new scratch one."""
    def __init__(self, m, dst):
        self.m, self.dst = m, dst

    def scratch(self, name="w"):
        return self.dst

    def drop(self, path):
        self.m.drop(path)


def fresh(m, i, dst, **over):
    rng = m.rng("run", i)
    iters = gen.iterations(rng, 2, 7)
    kind = ["oc", "logmoc"][i % 2]
    kw = dict(kind=kind, **(gen.spice(rng, kind) if m.nth(i, 3, "spice") == 0 else {}), physics=["elastic", "heat", "elastic"][i % 3], iters=iters, max_elems=30,
              record_times=int(rng.choice([1, 2, iters])))
    kw.update(over)
    return gen.Run(At(m, dst), rng, **kw)


def earlier(m, i, k, dst, rng):
    """A different run leaves its results behind."""
    kind = str(rng.choice(["longer", "other", "partial", "same-problem", "crashed"]))
    q = m.rng("earlier", i, k)
    iters = int(q.integers(7, 12)) if kind != "other" else int(q.integers(2, 12))
    if kind == "same-problem":
        r = fresh(m, i, dst, vol_frac=gen.SC.constant(target_value=0.9))
    else:
        r = gen.Run(At(m, dst), q, iters=iters, max_elems=30, record_times=iters,
                    kind=str(q.choice(["oc", "logmoc"])), physics=str(q.choice(["elastic", "heat"])))
    if kind in ("partial", "crashed"):
        r.opt.optimize_steps(int(q.integers(1, 6)))
    else:
        r.opt.optimize()
    if kind == "crashed":
        its = tracer.snapshot_iters(dst)
        with open(f"{dst}/data/tmp-{its[-1] + 1:06d}-rho.npz", "wb") as f:
            f.write(b"PK\x03\x04 half a snapshot")
        with open(f"{dst}/tmp-histories.npz", "wb") as f:
            f.write(b"PK\x03\x04 half a history")
        if q.random() < 0.5:
            with open(f"{dst}/data/{its[-1] + 1:06d}-rho.npz", "wb") as f:
                f.write(b"")
    return kind


def foreign(rng, dst):
    out = {}
    names = ["notes.txt", "data/readme", "data/best-rho.npz", "data/000123-rho.npz.bak", "data/12-rho.npz",
             "data/x000099-rho.npz", "own/model.vtu", "histories-old.npz", "cfg.json.orig", "data/sub/000050-rho.npz",
             "result.vtu"]
    for n in rng.permutation(names)[:int(rng.integers(3, 9))]:
        p = os.path.join(dst, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        out[n] = rng.bytes(int(rng.integers(0, 200)))
        with open(p, "wb") as f:
            f.write(out[n])
    return out


def untouched(m, dst, keep):
    for n, b in keep.items():
        p = os.path.join(dst, n)
        good = os.path.isfile(p)
        if good:
            with open(p, "rb") as f:
                good = f.read() == b
        m.ok(good, "foreign-file-untouched", name=n, exists=os.path.exists(p))


def own(dst, keep):
    return {k: v for k, v in contents_but(dst, keep).items() if not os.path.basename(k).startswith("tmp-")}


def contents_but(dst, keep):
    hidden = {}
    aside = dst + ".aside"
    for n in keep:
        p = os.path.join(dst, n)
        if os.path.isfile(p):
            hidden[n] = os.path.join(aside, n)
            os.makedirs(os.path.dirname(hidden[n]), exist_ok=True)
            os.rename(p, hidden[n])
    try:
        return contents(dst)
    finally:
        for n, q in hidden.items():
            os.rename(q, os.path.join(dst, n))
        shutil.rmtree(aside, ignore_errors=True)


def one(m, i):
    rng = m.rng("drive", i)
    clean = m.scratch("clean")
    b = fresh(m, i, clean)
    with m.case(f"run-{i}", **b.info):
        b.opt.optimize()
        hist, files = tracer.history(b.opt), contents(clean)
        snaps = tracer.snapshot_iters(clean)

        used = m.scratch("used")
        past = [earlier(m, i, k, used, rng) for k in range(int(rng.integers(1, 3)))]
        keep = foreign(rng, used) if m.nth(i, 3, "a") else {}
        r = fresh(m, i, used)
        stale = tracer.snapshot_iters(used)
        m.ok(not stale, "no-file-of-the-earlier-run", snapshots=stale, when="before the first iteration")
        m.ok(not tracer.vtu_iters(used), "no-file-of-the-earlier-run", meshes=tracer.vtu_iters(used))
        r.opt.optimize()
        d = tracer.history_diff(hist, tracer.history(r.opt))
        m.ok(d is None, "same-histories", diff=d, past=past)
        m.ok(all(same(x.after, y.after) for x, y in zip(b.steps, r.steps)) and len(b.steps) == len(r.steps), "same-densities", past=past)
        now = own(used, keep)
        m.ok(now == files, "same-files", past=past, extra=sorted(set(now) - set(files)), missing=sorted(set(files) - set(now)),
             differ=[f for f in files if f in now and now[f] != files[f]])
        untouched(m, used, keep)
        from sktopt import tools
        back = tools.HistoryCollection(used)
        back.import_histories()
        d = tracer.history_diff(hist, {k: list(h.data) for k, h in back.histories.items()})
        m.ok(d is None, "same-histories", diff=d, past=past, where="file")
        m.seen(r.kind, r.physics, past, sorted(keep), "whole")
        m.sample(past=past, foreign=sorted(keep), snapshots=snaps)

        # the directory now has a past; a fresh run dies in it and is restarted
        if b.iters >= 2:
            past2 = past + [earlier(m, i, 7, used, rng)]
            keep2 = {**keep, **(foreign(rng, used) if m.nth(i, 3, "b") == 1 else {})}
            r = fresh(m, i, used)
            k = int(rng.integers(1, b.iters))
            r.opt.optimize_steps(k)
            mine = tracer.snapshot_iters(used)
            m.ok(set(mine) <= set(range(1, k + 1)) and mine, "no-file-of-the-earlier-run", snapshots=mine, iterations=k)
            r = fresh(m, i, used, restart=True)
            r.opt.optimize()
            first = r.steps[0].iter if r.steps else None
            m.ok(first == max(mine) + 1, "resumes-from-own-snapshot", first=first, snapshots=mine, past=past2)
            d = tracer.history_diff(hist, tracer.history(r.opt))
            m.ok(d is None, "same-after-restart", diff=d, past=past2)
            its = tracer.snapshot_iters(used)
            m.ok(set(snaps) <= set(its) and max(its) == max(snaps), "same-after-restart", got=its, want=snaps)
            for it in its:
                m.ok(same(tracer.snapshot(used, it), b.steps[it - 1].after), "same-after-restart", iter=it)
            untouched(m, used, keep2)
            m.seen(r.kind, r.physics, past2, sorted(keep2), "restart", k)
        m.drop(used)
    m.drop(clean)


def run(m):
    for i in range(m.pick(24, 800)):
        if m.mine(i) and not m.out_of_time():
            one(m, i)
