"""C10: stepwise, repeated and interleaved runs against the run at once."""
import copy
import dataclasses
import hashlib
import os
import numpy as np
import gen
import ref
import tracer

RULE = "distinct (optimizer, physics, filter, partition / interleaving / interruption) executions compared with the run at once"
ASSUMPTIONS = ["the direct solver (iterative ones start from random vectors)", "pictures are not compared"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"same-densities": 20, "same-histories": 20, "same-files": 40, "finished-does-nothing": 30,
           "configuration-unchanged": 40, "problem-unchanged": 40, "environment-unchanged": 40}

PICTURES = (".jpg", ".png")


def digest(path):
    if path.endswith(".npz"):
        with np.load(path, allow_pickle=True) as d:
            h = hashlib.sha1()
            for k in sorted(d.files):
                x = np.asarray(d[k])
                h.update(k.encode() + str(x.shape).encode() + str(x.dtype).encode())
                h.update(np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x.tolist()).encode())
        return h.hexdigest()
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def contents(dst):
    return {f: digest(os.path.join(dst, f)) for f in tracer.files(dst)
            if not f.endswith(PICTURES) and f != "cfg.json"}


def config_state(cfg):
    """Settings and, for schedules, what they mean (their labels may be filled in)."""
    out = {}
    for f in dataclasses.fields(cfg):
        v = getattr(cfg, f.name)
        if isinstance(v, gen.SC):
            v = [ref.sched_value(v, it, cfg.max_iters) for it in range(1, cfg.max_iters + 1)]
        out[f.name] = copy.deepcopy(v)
    return out


def task_state(t):
    out = {"p": t.mesh.p.copy(), "t": t.mesh.t.copy()}
    for k, v in vars(t).items():
        if isinstance(v, np.ndarray):
            out[k] = v.copy()
        elif isinstance(v, (int, float, str, bool, type(None))):
            out[k] = v
        elif isinstance(v, (list, tuple)) and all(isinstance(x, (np.ndarray, int, float, str)) for x in v):
            out[k] = [copy.deepcopy(x) for x in v]
    return out


def same(a, b, tol=0.0):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, np.ndarray) or isinstance(a, float):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if tol and a.dtype.kind == "f":
            return bool(np.allclose(a, b, rtol=tol, atol=0))
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    return a == b


def diff(a, b, tol=0.0):
    return [k for k in sorted(set(a) | set(b)) if k not in a or k not in b or not same(a[k], b[k], tol)]


class Exec:
    """A fresh copy of workload i: same random numbers, own directory."""

    def __init__(self, m, i):
        rng = m.rng("run", i)
        iters = gen.iterations(rng, 3, 8)
        over = {"record_times": int(rng.choice([1, 2, iters]))}
        if m.nth(i, 6, "1") == 1:
            over["percentile"] = gen.SC.constant(target_value=75.0)
        if m.nth(i, 6, "2") == 2:
            over["sensitivity_filter"] = True
        if m.nth(i, 7, "3") == 3:
            over["check_convergence"] = True
            over["tol_rho_change"] = 0.2
            over["tol_kkt_residual"] = 1e6
        physics = ["elastic", "elastic", "heat"][m.nth(i, 3, "4")]
        kind = ["oc", "logmoc"][m.nth(i, 2, "5")]
        if m.nth(i, 3, "spice") == 0:
            over = {**gen.spice(rng, kind), **over}
        if m.nth(i, 8, "6") == 5 and physics == "elastic":
            over["scaling"] = True
        if m.nth(i, 9, "7") == 4:
            over["interpolation"] = "RAMP"
        if kind == "oc" and m.nth(i, 3, "8") == 0:
            over["eta"] = gen.SC.step(init_value=0.3, target_value=0.7, num_steps=2)
        loads = int(rng.choice([1, 1, 2, 3]))
        if physics == "elastic":
            task, info = gen.elastic_with_room(rng, 40, loads=loads)
        else:
            task, info = gen.heat_with_room(rng, 40, cases=loads)
        self.body0 = task_state(task)
        self.r = gen.Run(m, rng, kind=kind, physics=physics, iters=iters, loads=loads, task=task, **over)
        self.r.info.update(info)
        self.cfg0, self.task0, self.env0 = config_state(self.r.cfg), task_state(self.r.task), dict(os.environ)
        self.cwd0 = os.getcwd()

    @property
    def opt(self):
        return self.r.opt

    def outcome(self):
        self.steps = self.r.steps
        self.hist = tracer.history(self.opt)
        self.files = contents(self.r.dst)
        return self

    def judge_side_effects(self, m, what):
        c = diff(self.cfg0, config_state(self.r.cfg))
        m.ok(not c, "configuration-unchanged", fields=c, after=what)
        now = task_state(self.r.task)
        if self.r.cfg.scaling:
            # the whole run happens in other units: compare with the problem as it was given
            tol = 1e-12 if self.finished_run() else None
            t = diff(self.given(), self.given(now), tol) if tol else []
        else:
            t = diff(self.task0, now) + diff(self.given(), self.given(now))
        m.ok(not t, "problem-unchanged", fields=t, after=what)
        e = sorted(k for k in set(os.environ) | set(self.env0) if os.environ.get(k) != self.env0.get(k))
        m.ok(not e and os.getcwd() == self.cwd0, "environment-unchanged", variables=e, after=what)

    def given(self, state=None):
        """What a run may not touch even before it starts."""
        free = ("design", "fixed", "exclude")
        s = self.body0 if state is None else state
        return {k: v for k, v in s.items() if k in self.body0 and not any(w in k for w in free)}

    def finished_run(self):
        return bool(getattr(self.opt, "_completed", len(self.r.steps) >= self.r.iters))

    def finished(self, m, rng):
        before = contents(self.r.dst), tracer.history(self.opt), len(self.r.steps)
        for _ in range(int(rng.integers(1, 4))):
            [self.opt.optimize, lambda: self.opt.optimize_steps(int(rng.integers(1, 9)))][int(rng.integers(2))]()
        after = contents(self.r.dst), tracer.history(self.opt), len(self.r.steps)
        m.ok(before[0] == after[0] and before[2] == after[2] and tracer.history_diff(before[1], after[1]) is None,
             "finished-does-nothing", updates=after[2] - before[2],
             files=[f for f in after[0] if after[0].get(f) != before[0].get(f)])

    def close(self):
        self.r.close()


def compare(m, ref_, x, what):
    a, b = ref_.steps, x.steps
    m.ok([s.iter for s in a] == [s.iter for s in b], "same-iterations", got=[s.iter for s in b], want=[s.iter for s in a], how=what)
    bad = [s.iter for s, q in zip(a, b) if not (same(s.after, q.after) and same(s.before, q.before)
                                                 and same(s.projected, q.projected) and same(s.dC, q.dC))]
    m.ok(not bad, "same-densities", how=what, iterations=bad,
         largest=max([float(np.max(np.abs(s.after - q.after))) for s, q in zip(a, b)] or [0]))
    d = tracer.history_diff(ref_.hist, x.hist)
    m.ok(d is None, "same-histories", diff=d, how=what)
    # pieces save at their ends too, so they may hold more snapshots
    missing = [f for f in ref_.files if f not in x.files]
    other = [f for f in ref_.files if f in x.files and ref_.files[f] != x.files[f]]
    m.ok(not missing and not other, "same-files", missing=missing, differ=other, how=what)


def pieces(rng, opt, n, tr):
    """Drives the run in random pieces, with calls in between that must not matter."""
    log = []
    while len(tr.steps) < n and not getattr(opt, "_completed", False) and len(log) < 40:
        k = int(rng.integers(1, n + 2)) if rng.random() < 0.6 else 1
        if rng.random() < 0.25:
            opt.optimize_steps([0, -1, -7][int(rng.integers(3))])
            log.append("none")
        if rng.random() < 0.2:
            opt.optimize()
            log.append("rest")
            break
        before = len(tr.steps)
        opt.optimize_steps(k)
        log.append(k)
        if len(tr.steps) == before:
            break
    return log


def one(m, i):
    rng = m.rng("drive", i)
    base = Exec(m, i)
    with m.case(f"run-{i}", **base.r.info, scaling=base.r.cfg.scaling):
        base.opt.optimize()
        base.outcome()
        base.judge_side_effects(m, "optimize")
        n = len(base.steps)
        sig = (base.r.kind, base.r.physics, base.r.cfg.filter_type)

        again = Exec(m, i)
        again.opt.optimize()
        again.outcome()
        compare(m, base, again, "repeated")
        m.ok(base.files == again.files, "same-files", how="repeated", got=sorted(again.files), want=sorted(base.files))
        again.finished(m, rng)
        again.close()
        m.seen(*sig, "repeat")

        step = Exec(m, i)
        log = pieces(rng, step.opt, n, step.r.trace)
        step.outcome()
        compare(m, base, step, log)
        step.judge_side_effects(m, log)
        step.finished(m, rng)
        step.close()
        m.seen(*sig, log)
        m.sample(pieces=log, iterations=n)

        # interleaved with a different run in the same process
        if m.nth(i, 2, "9") == 0:
            x, y = Exec(m, i), Exec(m, i + 1)
            order = []
            while len(order) < 30 and (len(x.r.steps) < n):
                w = [x, y][int(rng.integers(2))]
                w.opt.optimize_steps(1 + int(rng.integers(2)))
                order.append("xy"[w is y])
            y.opt.optimize()
            if len(x.r.steps) < n:
                x.opt.optimize()
            x.outcome()
            compare(m, base, x, "interleaved " + "".join(order))
            x.judge_side_effects(m, "interleaved")
            y.judge_side_effects(m, "interleaved")
            x.close()
            y.close()
            m.seen(*sig, "interleaved", "".join(order))

        # a run that fails leaves the process as it was
        if m.nth(i, 3, "10") != 1:
            z = Exec(m, i)
            fail_at = int(rng.integers(1, n + 1))
            orig = z.opt.rho_update

            class Boom(Exception):
                pass

            def failing(*a, **k):
                if len(z.r.steps) + 1 >= fail_at:
                    raise Boom()
                return orig(*a, **k)
            z.opt.rho_update = failing
            try:
                z.opt.optimize()
                m.ok(False, "failure-is-passed-on")
            except Boom:
                m.count("failure-is-passed-on")
            e = sorted(k for k in set(os.environ) | set(z.env0) if os.environ.get(k) != z.env0.get(k))
            m.ok(not e, "environment-unchanged", variables=e, after="failure")
            z.close()
            m.seen(*sig, "failure", fail_at)
    base.close()


def run(m):
    for i in range(m.pick(24, 640)):
        if not m.mine(i) or m.out_of_time():
            continue
        if m.nth(i, 4, "11") == 3:      # a caller's own value must survive, too
            os.environ["SCITOPT_SENSITIVITY_MODE"] = "raw"
        try:
            one(m, i)
        finally:
            os.environ.pop("SCITOPT_SENSITIVITY_MODE", None)
