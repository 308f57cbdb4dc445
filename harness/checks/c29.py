"""C29: every observed iteration replayed by the reference models with the
values the schedules declare for that iteration."""
import numpy as np
import gen
import ref
from replay import Replay

RULE = "distinct (optimizer, filter, iteration, declared penalty / sharpness / radius / load scale / move limit / volume target) iterations replayed"
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"projected-density": 50, "objective": 70, "load-scale": 50, "update-exponent": 10, "value-handed-to-update": 200}


def judge(m, r, R, k, s, H):
    c, it = r.cfg, s.iter
    warped = r.task.mesh.t.shape[0] == 8 and r.info.get("warp", 0)
    proj = R.projected(s.before, it)
    tol = 1e-5 if warped and c.filter_type == "helmholtz" else 1e-8
    m.close(s.projected, proj, "projected-density", atol=tol, iter=it)
    e = H["rho_projected"][k]
    d = proj[R.des]
    m.close(e, [d.min(), d.mean(), d.max(), d.std()], "recorded-projection", atol=tol, iter=it)
    m.close(H["neumann_scale"][k], r.value("neumann_scale", it), "load-scale", rtol=1e-12, iter=it)
    if r.physics == "elastic":
        # from the projected densities that were handed on, so that the
        # filter's tolerance does not enter
        res = R.compliances(s.projected, it)
        J = np.mean([x for x, _ in res])
        m.close(H["compliance"][k], J, "objective", rtol=1e-6, iter=it)
        um = np.array([np.abs(u).max() for _, u in res])
        want = um[0] if len(um) == 1 else [um.min(), um.mean(), um.max(), um.std()]
        m.close(H["u_max"][k], want, "largest-displacement", rtol=1e-6, iter=it)
        E = R.modulus(s.projected, it)
        en = np.mean([R.elastic().energies(E, u) for _, u in res], axis=0)
        m.close(H["energy"][k], [en.min(), en.mean(), en.max(), en.std()], "recorded-energy", rtol=1e-6, iter=it)
    elif r.task.objective == "compliance":
        M = ref.Heat(r.task)
        pv = r.value("p", it)
        kk = ref.interp(s.projected, r.task.k, r.task.k * c.E_min_coeff, pv, c.interpolation)
        res = [M.solve(s.projected, kk, pv, nodes, v) for nodes, v in M.cases()]
        size = np.mean([np.abs(T) @ (abs(K) @ np.abs(T)) for T, K, _ in res])
        m.close(H["compliance"][k], np.mean([T @ (K @ T) for T, K, _ in res]), "objective", rtol=1e-6, atol=1e-9 * size, iter=it)
        tm = np.array([np.abs(T).max() for T, _, _ in res])
        m.close(H["u_max"][k], tm[0] if len(tm) == 1 else [tm.min(), tm.mean(), tm.max(), tm.std()], "largest-temperature",
                rtol=1e-6, scale=tm.max(), iter=it)
        en = np.mean([M.energies(kk, T) for T, _, _ in res], axis=0)
        m.close(H["energy"][k], [en.min(), en.mean(), en.max(), en.std()], "recorded-energy", rtol=1e-6, atol=1e-11 * size, iter=it)
    for name in ("move_limit", "vol_frac", "beta"):
        if name in s.args:
            m.close(s.args[name], r.value(name, it), "value-handed-to-update", rtol=1e-12, iter=it, name=name)
    if "eta" in s.args:
        m.close(s.args["eta"], r.value("eta", it), "value-handed-to-update", rtol=1e-12, iter=it, name="eta")
    if r.kind == "oc":
        exponent(m, r, s)
    m.seen(r.kind, c.filter_type, it, *[round(float(r.value(n, it)), 9) for n in
                                       ("p", "beta", "filter_radius", "neumann_scale", "move_limit", "vol_frac")])


def exponent(m, r, s):
    """The exponent of the OC rule, measured from elements that hit no limit."""
    c, it = r.cfg, s.iter
    lim, eta = r.value("move_limit", it), r.value("eta", it)
    ratio = s.after / s.before
    free = ((s.dC < 0) & (np.abs(s.after - s.before) < lim * (1 - 1e-6))
            & (s.after > c.rho_min * (1 + 1e-6)) & (s.after < c.rho_max * (1 - 1e-6))
            & (ratio > c.scaling_rate_min * (1 + 1e-6)) & (ratio < c.scaling_rate_max * (1 - 1e-6)))
    if free.sum() < 2:
        return
    x, y = np.log(-s.dC[free]), np.log(ratio[free])
    if np.ptp(x) < 1e-3:
        return
    # y = eta * (x - log(lambda)); the shipped eps 1e-12 in lambda is far below
    i, j = np.argmin(x), np.argmax(x)
    m.close((y[j] - y[i]) / (x[j] - x[i]), eta, "update-exponent", atol=1e-6 + 1e-12 / np.ptp(x), iter=it)


def run(m):
    for i in range(m.pick(40, 480)):
        if not m.mine(i) or m.out_of_time():
            continue
        rng = m.rng("run", i)
        iters = gen.iterations(rng, 3, 9)
        kind = ["oc", "logmoc", "oc", "oc", "logmoc"][m.nth(i, 5, "2")]
        over = gen.spice(rng, kind) if m.nth(i, 3, "spice") == 0 else {}
        if m.nth(i, 2, "3") == 0:      # everything moves
            h = None
            over.update(
                p=gen.SC.step(init_value=1.0, target_value=3.0, num_steps=int(rng.integers(2, 5))),
                beta=gen.SC.step_accelerating(init_value=0.5, target_value=5.0, num_steps=int(rng.integers(2, 6)), curvature=2.0),
                vol_frac=gen.SC.step(init_value=0.8, target_value=0.5, num_steps=3),
                move_limit=gen.SC.sawtooth_decay(name="move_limit", init_value=0.4, target_value=0.1, num_steps=2),
                neumann_scale=gen.SC.step_to_one(num_steps=int(rng.integers(2, 5))),
            )
        if m.nth(i, 4, "4") == 2:
            over["eta"] = gen.SC.step(init_value=0.3, target_value=0.6, num_steps=2)
        r = gen.Run(m, rng, physics="elastic" if m.nth(i, 3, "1") else "heat", kind=kind, iters=iters, **over)
        if m.nth(i, 4, "5") == 0:
            hh = gen.edge_length(r.task.mesh)
            slow = rng.random() < 0.5       # by little at a time, up or down
            a, b = (2.7, 1.1) if not slow else (1.9, 1.9 * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-3, -1)))
            r.cfg.filter_radius = gen.SC.step(init_value=a * hh, target_value=float(b * hh), num_steps=iters if slow else 3)
            r.opt = gen.optimizer(r.cfg, r.task)
            import tracer
            r.trace = tracer.Tracer(r.opt)
        with m.case(f"run-{i}", **r.info):
            r.opt.optimize()
            R = Replay(r)
            H = {k: h.data for k, h in r.opt.recorder.histories.items()}
            vf = r.cfg.vol_frac
            v0 = vf.target_value if vf.init_value is None else vf.init_value
            m.close(r.steps[0].before, np.full(len(r.design), min(max(v0, r.cfg.rho_min), r.cfg.rho_max)), "first-design", rtol=1e-12)
            amb = False
            for k, s in enumerate(r.steps):
                names = ("p", "beta", "filter_radius", "neumann_scale", "move_limit", "vol_frac")
                amb = any(isinstance(getattr(r.cfg, n), gen.SC) and ref.on_boundary(getattr(r.cfg, n), s.iter, r.cfg.max_iters)
                          for n in names)
                if R.ambiguous(s.iter) or amb:
                    m.tally("skipped: ambiguous in floating point")
                    continue
                judge(m, r, R, k, s, H)
            m.sample(compliance=H.get("compliance", [])[:3])
        r.close()
