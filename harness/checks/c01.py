"""C01: after every observed update the densities are finite and in bounds,
and everything outside the design domain is solid."""
import dataclasses
import numpy as np
import gen
import tracer

RULE = "distinct (optimizer, physics, filter, interpolation, mesh kind, clamped-designable, design size) runs observed"
ASSUMPTIONS = ["bounds of projected densities are claimed for the spatial filter only (the Helmholtz filter may overshoot)"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"update-in-bounds": 100, "non-design-solid": 20, "exported-projection-finite": 50, "projection-in-unit-interval": 30, "restarted-run": 5}


def observe(m, r, resume_after=0):
    cfg, t = r.cfg, r.task
    lo, hi = cfg.rho_min, cfg.rho_max
    non = np.setdiff1d(np.arange(t.mesh.nelements), t.design_elements)
    if resume_after:
        # the process ends; a new optimizer carries on from the snapshot
        r.opt.optimize_steps(resume_after)
        first = r.trace.steps
        r.opt = gen.optimizer(dataclasses.replace(cfg, restart=True), t)
        r.trace = tracer.Tracer(r.opt)
        r.opt.optimize()
        r.trace.steps[:0] = first
        m.count("restarted-run")
    else:
        r.opt.optimize()
    m.ok(len(r.steps) == r.iters, "every-iteration-updates", got=len(r.steps))
    for s in r.steps:
        for name, x in (("before", s.before), ("after", s.after)):
            fin = np.all(np.isfinite(x))
            m.ok(fin and x.min() >= lo and x.max() <= hi, "update-in-bounds",
                 iter=s.iter, which=name, min=np.min(x), max=np.max(x), lo=lo, hi=hi)
        p = s.projected
        m.ok(np.all(np.isfinite(p)), "projection-finite", iter=s.iter)
        if cfg.filter_type == "spacial":
            m.ok(p.min() >= -1e-9 and p.max() <= 1 + 1e-9, "projection-in-unit-interval",
                 iter=s.iter, min=p.min(), max=p.max())
        if non.size:
            m.close(p[non], np.ones(non.size), "non-design-solid", atol=1e-8, iter=s.iter)
    import meshio
    for it in tracer.vtu_iters(r.dst):
        v = meshio.read(f"{r.dst}/mesh_rho/info_mesh-{it:08d}.vtu")
        x = np.asarray(v.cell_data["rho_projected"][0], float)
        e = np.asarray(v.cell_data["energy"][0], float)
        m.ok(np.all(np.isfinite(x)) and np.all(np.isfinite(e)), "exported-projection-finite", iter=it)
        if non.size:
            m.close(x[non], np.ones(non.size), "exported-non-design-solid", atol=1e-6, iter=it)
    full = getattr(getattr(r.opt, "_state", None), "rho", None)
    if full is not None and non.size:
        m.equal(full[non], np.ones(non.size), "density-outside-design-is-one")
    for it in tracer.snapshot_iters(r.dst):
        x = tracer.snapshot(r.dst, it)
        m.ok(x.shape == t.design_elements.shape and np.all(np.isfinite(x)) and x.min() >= lo and x.max() <= hi,
             "snapshot-in-bounds", iter=it)
    h = r.opt.recorder.histories
    for k in ("rho_projected", "rho_change_max", "vol_error", "u_max", "energy"):
        m.ok(np.all(np.isfinite(np.asarray(h[k].data, float))), "history-finite", name=k)
    m.tally("updates", len(r.steps))
    m.seen(r.kind, r.physics, cfg.filter_type, cfg.interpolation, r.info.get("cells"),
           cfg.design_dirichlet, len(t.design_elements))
    m.sample(updates=len(r.steps), non_design=int(non.size), rho_min=lo, rho_max=hi,
             last_min=r.steps[-1].after.min(), last_max=r.steps[-1].after.max())


def extremes(m, rng, i):
    """Hostile settings."""
    over = {}
    if m.nth(i, 3, "1") == 0:
        over["design_dirichlet"] = True
    if m.nth(i, 4, "2") == 1:
        over["sensitivity_filter"] = True
    if m.nth(i, 5, "3") == 2:
        over["rho_max"] = 0.9
        over["rho_min"] = 0.2
    if m.nth(i, 6, "4") == 3:
        over["beta"] = gen.SC.constant(target_value=20.0)
    if m.nth(i, 7, "5") == 4:
        over["move_limit"] = gen.SC.constant(target_value=1.0)
    if m.nth(i, 8, "6") == 5:
        over["percentile"] = gen.SC.constant(target_value=90.0)
    if m.nth(i, 9, "7") == 6:
        over["vol_frac"] = gen.SC.constant(target_value=float(rng.choice([0.02, 0.999])))
    if m.nth(i, 10, "8") == 7:
        over["E_min_coeff"] = 1e-9
    return over


def run(m):
    n = m.pick(48, 640)
    for i in range(n):
        if not m.mine(i) or m.out_of_time():
            continue
        rng = m.rng("run", i)
        kind = ["oc", "logmoc"][m.nth(i, 2, "9")]
        over = {**gen.spice(rng, kind), **extremes(m, rng, i)}
        try:
            r = gen.Run(m, rng, kind=kind, physics=["elastic", "heat", "elastic"][m.nth(i, 3, "10")],
                        max_elems=m.pick(60, 150), **over)
        except RuntimeError:
            continue
        with m.case(f"run-{i}", **r.info, over={k: str(v) for k, v in over.items()}):
            observe(m, r, resume_after=int(rng.integers(1, r.iters)) if m.nth(i, 5, "11") >= 3 else 0)
        r.close()
