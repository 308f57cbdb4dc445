"""C11: the output directory is captured at every file-system event of a run
(also half way through each write); restarts from those states, killed again
or not, are compared with the uninterrupted run."""
import os
import shutil
import signal
import numpy as np
import fsevents
import gen
import tracer
from checks.c10 import contents, digest, same

PRELOAD = "fsevents.c"
RULE = "distinct (optimizer, physics, record interval, interrupted operation and file, snapshot resumed from, number of kills) restarts compared"
ASSUMPTIONS = [
    "a kill loses the process, not the page cache (no power failure)",
    "with no complete snapshot there is nothing to restart from",
    "a kill is taken half way through a write and between any two file operations",
]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"resumes-from-last-snapshot": 40, "same-histories": 40, "same-snapshots": 40, "killed": 4, "resumes-from-named-snapshot": 3}


def setting(m, i):
    """Everything that defines workload i, the same every time."""
    rng = m.rng("run", i)
    iters = gen.iterations(rng, 3, 8)
    over = {"record_times": [1, 2, iters, iters, iters + 5][int(rng.integers(5))]}
    if m.nth(i, 5, "1") == 1:
        over["percentile"] = gen.SC.constant(target_value=75.0)
    if m.nth(i, 5, "2") == 2:
        over["sensitivity_filter"] = True
    if m.nth(i, 5, "3") == 3:
        over["neumann_scale"] = gen.SC.step_to_one(num_steps=2)
    if m.nth(i, 4, "4") == 1:
        over["check_convergence"] = True
        over["tol_rho_change"] = 0.12
        over["tol_kkt_residual"] = 1e9
    physics = ["elastic", "elastic", "heat"][m.nth(i, 3, "7")]
    if m.nth(i, 6, "5") == 4 and physics == "elastic":   # (thermal problems are not scaled)
        over["scaling"] = True
        over["filter_radius"] = gen.SC.constant(target_value=0.3)     # unit lengths
    kind = ["oc", "logmoc"][m.nth(i, 2, "6")]
    if m.nth(i, 3, "spice") == 0:
        over = {**gen.spice(rng, kind), **over}
    return rng, dict(kind=kind, physics=physics,
                     iters=iters, max_elems=30, **over)


def start(m, i, dst=None, restart=False, restart_from=None):
    """A new process's view: new task, new configuration, new optimizer."""
    rng, kw = setting(m, i)
    if restart_from is not None:
        kw["restart_from"] = restart_from
    if dst is None:
        r = gen.Run(m, rng, **kw)
        return r
    # the same random numbers, but in the given directory
    class Here:
        def scratch(self, name="w"):
            return dst

        def drop(self, path):
            m.drop(path)
    return gen.Run(Here(), rng, restart=restart, **kw)


def interesting(dst):
    out = {}
    for base, _, names in os.walk(dst):
        for n in names:
            if not n.endswith((".jpg", ".png")):
                st = os.stat(os.path.join(base, n))
                out[os.path.join(base, n)] = (st.st_ino, st.st_size, st.st_mtime_ns)
    return out


class Captures:
    """Copies of the directory at a sample of the distinct events."""

    def __init__(self, m, dst, rng, often=3, rare=0.05):
        self.m, self.dst, self.rng, self.often, self.rare = m, dst, rng, often, rare
        self.store = m.scratch("states")
        self.states, self.last, self.events, self.distinct = [], None, 0, 0
        self.kinds = {}

    def __call__(self, phase, op, path):
        self.events += 1
        if phase == 0 or path.endswith((".jpg", ".png")):
            return
        now = interesting(self.dst)
        if now == self.last:
            return
        self.last = now
        self.distinct += 1
        if not tracer.snapshot_iters(self.dst):
            return
        rel = os.path.relpath(path, self.dst)
        kind = (f"{op}{'/half' if phase == 1 else ''}", "".join(c for c in rel if not c.isdigit()))
        n = self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if self.rng.random() > max(self.rare, self.often / (self.often + n)):
            return
        where = os.path.join(self.store, str(len(self.states)))
        shutil.copytree(self.dst, where)
        self.states.append((where,) + kind)


def complete_snapshots(dst, base):
    """Iterations whose snapshot equals the uninterrupted run's."""
    out = []
    for it in tracer.snapshot_iters(dst):
        try:
            x = tracer.snapshot(dst, it)
        except Exception:  # noqa: BLE001
            continue
        if it in base["after"] and same(x, base["after"][it]):
            out.append(it)
    return out


def judge_final(m, r, base, how):
    d = tracer.history_diff(base["hist"], tracer.history(r.opt))
    m.ok(d is None, "same-histories", diff=d, how=how)
    from sktopt import tools
    back = tools.HistoryCollection(str(r.dst))
    back.import_histories()
    d = tracer.history_diff(base["hist"], {k: list(h.data) for k, h in back.histories.items()})
    m.ok(d is None, "same-histories", diff=d, how=how, where="file")
    its = tracer.snapshot_iters(r.dst)
    m.ok(set(base["snapshots"]) <= set(its) <= set(base["after"]), "same-snapshots", got=its, want=base["snapshots"], how=how)
    for it in its:
        if it not in base["after"]:
            continue
        x = tracer.snapshot(r.dst, it)
        m.ok(same(x, base["after"][it]), "same-snapshots", iter=it, how=how,
             largest=np.max(np.abs(x - base["after"][it])))
    now = contents(r.dst)
    bad = [f for f in base["files"] if not os.path.basename(f).startswith("tmp-") and now.get(f) != base["files"][f]]
    m.ok(not bad, "same-files", differ=bad, how=how)


def resume(m, i, state, base, how, rng, kills, named=False):
    """Restart from a state; perhaps die again."""
    snaps = complete_snapshots(state, base)
    if not snaps:
        m.tally("states without a snapshot")
        return
    work = m.scratch("again")
    os.rmdir(work)
    shutil.copytree(state, work)
    again = kills > 0
    cap = None
    if rng.random() < 0.5:      # a directory that was copied or synchronised: file times mean nothing
        for n in os.listdir(f"{work}/data"):
            t = 1e9 + float(rng.uniform(0, 1e6))
            os.utime(f"{work}/data/{n}", (t, t))
        how = how + [("file times shuffled",)]
    frm = None
    if named:
        frm = snaps[-1]
        how = how + [("restart_from", frm)]
    elif not again and len(snaps) > 1 and rng.random() < 0.35:
        frm = int(rng.choice(snaps[:-1] if rng.random() < 0.6 else snaps[-1:]))
        how = how + [("restart_from", frm)]
    if again:
        cap = Captures(m, work, rng, often=0.3, rare=0.0)
        with fsevents.watch(work, cap):
            r = start(m, i, work, restart=True)
            r.opt.optimize()
    else:
        r = start(m, i, work, restart=True, restart_from=frm)
        if rng.random() < 0.3:
            r.opt.optimize_steps(1)
        r.opt.optimize()
    first = r.steps[0].iter if r.steps else max(base["after"]) + 1
    m.ok(first == (frm or max(snaps)) + 1, "resumes-from-last-snapshot" if frm is None else "resumes-from-named-snapshot",
         first_iteration=first, snapshots=snaps, asked=frm, how=how)
    judge_final(m, r, base, how)
    m.seen(r.kind, r.physics, base["record_times"], how[-1], frm or max(snaps), frm is None, len(how))
    if cap is not None:
        some = cap.states
        if some:
            s = some[int(rng.integers(len(some)))]
            resume(m, i, s[0], base, how + [s[1:]], rng, kills - 1)
        shutil.rmtree(cap.store)
    m.drop(work)


def really_kill(m, i, base, rng, n_events):
    """The same with a process that is in fact killed."""
    at = int(rng.integers(0, n_events))
    dst = m.scratch("killed")
    pid = os.fork()
    if pid == 0:
        try:
            seen = [0]

            def die(phase, op, path):
                if seen[0] == at:
                    os.kill(os.getpid(), signal.SIGKILL)
                seen[0] += 1
            with fsevents.watch(dst, die):
                r = start(m, i, dst)
                r.opt.optimize()
        finally:
            os._exit(7)
    _, status = os.waitpid(pid, 0)
    killed = os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL
    m.ok(killed, "killed", status=status, at=at, of=n_events)
    resume(m, i, dst, base, [("killed", at)], rng, int(rng.integers(0, 2)))
    m.drop(dst)


def one(m, i, budget):
    rng = m.rng("drive", i)
    b = start(m, i)
    with m.case(f"run-{i}", **b.info, record_times=b.cfg.record_times, converging=b.cfg.check_convergence):
        b.opt.optimize()
        base = {"hist": tracer.history(b.opt), "after": {s.iter: s.after for s in b.steps},
                "snapshots": tracer.snapshot_iters(b.dst), "files": contents(b.dst), "record_times": b.cfg.record_times}
        dst = m.scratch("victim")
        cap = Captures(m, dst, rng)
        with fsevents.watch(dst, cap):
            v = start(m, i, dst)
            v.opt.optimize()
        m.tally("file events", cap.events)
        m.tally("distinct directory states", cap.distinct)
        m.tally("captured states", len(cap.states))
        m.ok(cap.distinct > 5 * len(b.steps) / max(1, b.iters // min(b.iters, b.cfg.record_times)) / 2, "events-observed",
             events=cap.events, states=cap.distinct)
        usable = []
        for s in cap.states:
            if complete_snapshots(s[0], base):
                usable.append(s)
        pickn = min(budget, len(usable))
        # every kind of interrupted operation first
        kinds = {}
        for k in rng.permutation(len(usable)):
            kinds.setdefault(usable[k][1:], []).append(k)
        order = []
        while any(kinds.values()):
            for q in list(kinds):
                if kinds[q]:
                    order.append(kinds[q].pop())
        for n, k in enumerate(order[:pickn]):
            if m.out_of_time():
                break
            s = usable[k]
            kills = 0 if n % 3 else int(rng.integers(1, 3))
            resume(m, i, s[0], base, [s[1:]], rng, kills)
        really_kill(m, i, base, rng, cap.events)
        if m.nth(i, 2, "finished") == 0:        # a finished run stays finished, also when its last iteration is named
            resume(m, i, dst, base, [("finished",)], rng, 0, named=bool(rng.random() < 0.7))
        m.sample(events=cap.events, states=cap.distinct, restarted_from=[list(usable[k][1:]) for k in order[:pickn]][:6])
        shutil.rmtree(cap.store)
        m.drop(dst)
    b.close()


def run(m):
    for i in range(m.pick(16, 320)):
        if m.mine(i) and not m.out_of_time():
            one(m, i, m.pick(5, 30))
