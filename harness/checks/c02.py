"""C02: per-iteration movement of every design density against the scheduled
move limit, and the recorded largest change against the real one."""
import numpy as np
import gen
import ref
import tracer

RULE = "distinct (optimizer, physics, filter, move-limit schedule kind, whether the limit was active) runs"
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"within-move-limit": 100, "recorded-change-is-real": 100, "limit-active": 20}


def observe(m, r):
    c = r.cfg
    r.opt.optimize()
    rec = r.opt.recorder.histories["rho_change_max"].data
    m.ok(len(rec) == len(r.steps) == r.iters, "one-record-per-update", got=len(rec), updates=len(r.steps))
    prev = None
    active = 0
    for s, change in zip(r.steps, rec):
        limit = r.value("move_limit", s.iter)
        moved = np.max(np.abs(s.after - s.before))
        m.ok(moved <= limit * (1 + 1e-12) + 1e-14, "within-move-limit", iter=s.iter, moved=moved, limit=limit)
        m.ok(change == moved, "recorded-change-is-real", iter=s.iter, recorded=change, real=moved)
        if moved >= limit * (1 - 1e-9):
            active += 1
        if prev is not None:
            m.equal(s.before, prev, "updates-chain", iter=s.iter)
        else:
            v = c.vol_frac.init_value if c.vol_frac.init_value is not None else c.vol_frac.target_value
            m.equal(s.before, np.full(s.before.shape, min(max(v, c.rho_min), c.rho_max)), "starts-uniform")
        prev = s.after
    m.count("limit-active", active)
    m.tally("updates at the move limit", active)
    its = tracer.snapshot_iters(r.dst)
    for a, b in zip(its, its[1:]):
        if b != a + 1:
            continue
        d = np.max(np.abs(tracer.snapshot(r.dst, b) - tracer.snapshot(r.dst, a)))
        lim = r.value("move_limit", b)
        m.ok(d <= lim * (1 + 1e-12) + 1e-14, "snapshots-within-move-limit", iter=b, moved=d, limit=lim)
        m.ok(d == rec[b - 1], "recorded-change-matches-snapshots", iter=b, moved=d, recorded=rec[b - 1])
    m.seen(r.kind, r.physics, c.filter_type, c.move_limit.scheduler_type, bool(active), r.iters)
    m.sample(limits=[r.value("move_limit", s.iter) for s in r.steps], changes=rec)


def run(m):
    for i in range(m.pick(48, 640)):
        if not m.mine(i) or m.out_of_time():
            continue
        rng = m.rng("run", i)
        kind = ["oc", "logmoc"][m.nth(i, 2, "9")]
        over = gen.spice(rng, kind) if m.nth(i, 2, "spice") else {}
        if m.nth(i, 4, "1") == 1:
            over["move_limit"] = gen.SC.constant(target_value=float(10 ** rng.uniform(-3, -1)))
        if m.nth(i, 5, "2") == 2:
            over["sensitivity_filter"] = True
        if m.nth(i, 6, "3") == 3:
            over["design_dirichlet"] = True
        if m.nth(i, 7, "4") == 4:      # bounds that bite
            over["rho_min"], over["rho_max"] = 0.3, 0.8
        if m.nth(i, 3, "5") == 2 and kind == "logmoc":
            over["eta"] = 3.0
        if m.nth(i, 3, "7") == 2 and kind == "oc":
            over["scaling_rate_min"], over["scaling_rate_max"] = 0.2, 3.0
        try:
            r = gen.Run(m, rng, kind=kind, physics=["elastic", "elastic", "heat"][m.nth(i, 3, "10")], **over)
        except RuntimeError:
            continue
        with m.case(f"run-{i}", **r.info, over={k: str(v) for k, v in over.items()}):
            observe(m, r)
        r.close()
