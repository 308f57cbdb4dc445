"""C27: the same run with convergence checking off, and on with tolerances
chosen from what the first one showed."""
import os
import numpy as np
import gen
import tracer
from checks.c10 import contents

RULE = "distinct (optimizer, physics, driving, kind of tolerances, stopping iteration) executions compared with the unchecked run"
ASSUMPTIONS = ["the direct solver, so that equal runs give equal bits"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"unchecked-runs-all": 20, "stops-there": 100, "stopped-early": 40, "not-stopped": 20, "saved": 100, "finished": 100,
           "does-nothing-more": 100, "identical-until-then": 100, "recorded-change": 15}

FINAL = ["cubic_top.vtu", "histories.npz", "condition.vtu"]


def settings(m, i):
    rng = m.rng("run", i)
    kind, physics = ["oc", "logmoc"][m.nth(i, 2, "1")], ["elastic", "elastic", "heat"][m.nth(i, 3, "2")]
    iters = gen.iterations(rng, 3, 9)
    over = {"record_times": int(rng.choice([1, 2, iters]))}
    if m.nth(i, 4, "3") == 1:
        over["sensitivity_filter"] = True
    if m.nth(i, 5, "4") == 2:
        over["move_limit"] = gen.SC.constant(target_value=float(rng.uniform(0.01, 0.1)))
    if m.nth(i, 3, "spice") == 0:
        over = {**gen.spice(rng, kind), **over}
    loads = int(rng.choice([1, 1, 2]))
    task = (gen.elastic_with_room(rng, 30, loads=loads) if physics == "elastic" else gen.heat_with_room(rng, 30, cases=loads))
    return rng, kind, physics, iters, loads, task, over


def fresh(m, i, **extra):
    rng, kind, physics, iters, loads, (task, info), over = settings(m, i)
    r = gen.Run(m, rng, kind=kind, physics=physics, iters=iters, loads=loads, task=task, **{**over, **extra})
    r.info.update(info)
    return r


def changes(r):
    return [float(np.max(np.abs(s.after - s.before))) for s in r.steps]


def predicted(ch, res, t1, t2):
    for k, (a, b) in enumerate(zip(ch, res)):
        if a < t1 and (abs(b) < t2 or not np.isfinite(b)):
            return k + 1
    return None


def tolerances(rng, ch, res, what):
    """(change, residual) tolerances of a given kind."""
    big1, big2 = 10 * max(ch) + 1, 10 * max(map(abs, res)) + 1
    k = int(rng.integers(len(ch)))
    up = 1 + 1e-9
    return {
        "both at k": (ch[k] * up + 1e-300, abs(res[k]) * up + 1e-300),
        "change at k": (ch[k] * up + 1e-300, big2),
        "residual at k": (big1, abs(res[k]) * up + 1e-300),
        "exactly the change at k": (ch[k], big2),
        "exactly the residual at k": (big1, abs(res[k])),
        "always": (big1, big2),
        "change never": (0.0, big2),
        "residual never": (big1, 0.0),
        "never": (0.0, 0.0),
        "mixed": (ch[k] * up + 1e-300, abs(res[int(rng.integers(len(res)))]) * up + 1e-300),
    }[what]


KINDS = ["both at k", "change at k", "residual at k", "exactly the change at k", "exactly the residual at k", "always",
         "change never", "residual never", "never", "mixed"]


def crossings(rng, ch, res):
    """Tolerances under which one of the two is met at an iteration, the other
    not, and met or missed the other way round later: a judgement that
    remembers anything of earlier iterations stops elsewhere."""
    up, found = 1 + 1e-9, {"residual back above": [], "change back above": []}
    for a in ch:
        for b in res:
            t1, t2 = a * up + 1e-300, abs(b) * up + 1e-300
            k = predicted(ch, res, t1, t2)
            A, B = [x < t1 for x in ch], [abs(x) < t2 for x in res]
            for name, first in (("residual back above", next((j for j in range(len(ch)) if A[j] and any(B[:j])), None)),
                                ("change back above", next((j for j in range(len(ch)) if B[j] and any(A[:j])), None))):
                if first is not None and (k is None or first + 1 < k):
                    found[name].append((t1, t2))
    return {n: v[int(rng.integers(len(v)))] for n, v in found.items() if v}


def drive(rng, opt, how, limit):
    if how == "at once":
        opt.optimize()
    else:
        for _ in range(3 * limit):
            opt.optimize_steps(int(rng.integers(1, 4)))


def run(m):
    for i in range(m.pick(40, 600)):
        if not m.mine(i) or m.out_of_time():
            continue
        base = fresh(m, i, tol_rho_change=1e9, tol_kkt_residual=1e9)      # off, whatever the tolerances
        with m.case(f"run-{i}", **base.info):
            base.opt.optimize()
            H = tracer.history(base.opt)
            if not m.ok(len(base.steps) == base.iters, "unchecked-runs-all", want=base.iters, got=len(base.steps)):
                continue
            ch, res = changes(base), [float(x) for x in H["kkt_residual"]]
            m.close([float(x) for x in H["rho_change_max"]], ch, "recorded-change", rtol=1e-12)
            rng = m.rng("tolerances", i)
            crossed = crossings(m.rng("crossings", i), ch, res)
            kinds = list(crossed) + [str(q) for q in rng.permutation(KINDS)[:m.pick(4, 8) - len(crossed) // 2]]
            for what in kinds:
                t1, t2 = crossed[what] if what in crossed else map(float, tolerances(rng, ch, res, what))
                k = predicted(ch, res, t1, t2)
                how = str(rng.choice(["at once", "stepwise"]))
                r = fresh(m, i, check_convergence=True, tol_rho_change=t1, tol_kkt_residual=t2)
                drive(rng, r.opt, how, r.iters)
                n = k or r.iters
                d = dict(kind=what, how=how, tolerances=(t1, t2), changes=ch, residuals=res)
                m.ok(len(r.steps) == n, "stops-there", want=n, got=len(r.steps), **d)
                m.count("stopped-early" if n < r.iters else "not-stopped")
                if len(r.steps) != n:
                    r.close()
                    continue
                m.ok(not tracer.history_diff({q: v[:n] for q, v in H.items()}, tracer.history(r.opt))
                     and np.array_equal(r.steps[-1].after, base.steps[n - 1].after), "identical-until-then", **d)
                its = tracer.snapshot_iters(r.dst)
                if m.ok(its and its[-1] == n and n in tracer.vtu_iters(r.dst), "saved", snapshots=its, last=n, **d):
                    m.equal(tracer.snapshot(r.dst, n), base.steps[n - 1].after, "saved")
                missing = [f for f in FINAL if not os.path.exists(f"{r.dst}/{f}")]
                h = {}
                if not missing:
                    with np.load(f"{r.dst}/histories.npz", allow_pickle=True) as z:
                        h = {q: np.shape(z[q])[-1] for q in z.files if not q.endswith("_header")}
                m.ok(not missing and set(h.values()) == {n}, "finished", missing=missing, lengths=h, **d)
                if n < r.iters or how == "at once":
                    m.equal(m_of(r), body_of(r), "finished", what="extracted body is that of the last design")
                before = contents(r.dst)
                r.opt.optimize_steps(int(rng.integers(1, 5)))
                r.opt.optimize()
                m.ok(len(r.steps) == n and contents(r.dst) == before and not tracer.history_diff(
                    {q: v[:n] for q, v in H.items()}, tracer.history(r.opt)), "does-nothing-more", steps=len(r.steps), **d)
                m.seen(base.kind, base.physics, how, what, n, base.iters)
                r.close()
            m.sample(changes=ch[:4], residuals=res[:4])
        base.close()


def m_of(r):
    import meshio
    f = f"{r.dst}/cubic_top.vtu"
    return sum(len(c.data) for c in meshio.read(f).cells)


def body_of(r):
    rho = tracer.full_density(r.task, r.steps[-1].after)
    return int(np.sum(rho > 0.5))
