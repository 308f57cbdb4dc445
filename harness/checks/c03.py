"""C03: volume after every OC update against the scheduled target, recomputed
with an independent filter and projection; recorded volume errors."""
import numpy as np
import gen
import ref

RULE = "distinct (optimizer, filter, interpolation, outcome: met / met to the multiplier bracket / pinned at an end) situations"
ASSUMPTIONS = ["bisection tolerances as shipped: 1e-4 on the volume, 1e-5 on the multiplier"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"volume-met-or-unreachable": 80, "recorded-volume-error": 120, "volume met": 40}
VTOL = 1e-4


def observe(m, r):
    c, t = r.cfg, r.task
    mesh, des = t.mesh, np.asarray(t.design_elements)
    vol = ref.volumes(mesh.p, mesh.t)[des]
    mask = np.zeros(mesh.nelements, bool)
    mask[des] = True
    r.opt.optimize()
    rec = r.opt.recorder.histories["vol_error"].data
    lm = r.opt.recorder.histories["lmid"].data if r.kind == "oc" else None
    m.ok(len(rec) == len(r.steps) == r.iters, "one-record-per-update", got=len(rec), updates=len(r.steps))
    warped = r.info.get("warp", 0) and r.info.get("kind") and t.mesh.t.shape[0] == 8
    tol = 1e-6 if warped and c.filter_type == "helmholtz" else 1e-9
    cache = {}

    def physical(x, it):
        rad = r.value("filter_radius", it)
        if c.filter_type == "spacial":
            if rad not in cache:
                cache[rad] = ref.gaussian_matrix(mesh, rad, des)
            f = cache[rad][0] @ x
        else:
            if rad not in cache:
                cache[rad] = ref.Helmholtz(mesh, rad, mask)
            full = np.ones(mesh.nelements)
            full[des] = x
            f = cache[rad].forward(full)[des]
        return ref.project(f, r.value("beta", it), c.beta_eta)

    for k, s in enumerate(r.steps):
        it = s.iter
        target = r.value("vol_frac", it)
        if c.filter_type == "spacial" and ref.gaussian_matrix(mesh, r.value("filter_radius", it), des)[2]:
            continue
        if r.kind == "logmoc":
            want = physical(s.before, it) @ vol / vol.sum() - target
            m.close(rec[k], want, "recorded-volume-error", atol=tol, iter=it)
            continue
        err = physical(s.after, it) @ vol / vol.sum() - target
        m.close(rec[k], err, "recorded-volume-error", atol=tol, iter=it)
        if abs(err) <= VTOL * 1.001:
            m.count("volume-met-or-unreachable")
            m.count("volume met")
            m.seen("met", c.filter_type, c.interpolation, r.physics)
            continue
        # the update rule as a one-parameter family; dC is what the rule saw
        lim, eta = r.value("move_limit", it), r.value("eta", it)
        # the rule's (running) sensitivity scale cancels in ratios to the recorded multiplier
        lo = np.maximum(s.before - lim, c.rho_min)
        hi = np.minimum(s.before + lim, c.rho_max)
        smin, smax = c.scaling_rate_min, c.scaling_rate_max
        bottom = np.clip(s.before * smin, lo, hi)
        top = np.clip(s.before * smax, lo, hi)
        pos = s.dC < 0
        top = np.where(pos, top, bottom)      # no sensitivity: never grows
        at_bottom = np.allclose(s.after, bottom, rtol=0, atol=1e-9)
        at_top = np.allclose(s.after, top, rtol=0, atol=1e-9)
        if err > 0 and at_bottom or err < 0 and at_top:
            m.count("volume-met-or-unreachable")
            m.seen("pinned", "bottom" if at_bottom else "top", c.filter_type, r.physics)
            m.tally("pinned at an end")
            continue
        # bracket: one more multiplier tolerance up or down crosses the target
        scale = running_scale(r, k)
        lam = lm[k]

        def volume(l):
            with np.errstate(all="ignore"):
                g = np.where(pos, (-s.dC / scale / (max(l, 0) + 1e-12)), 0.0) ** eta
            x = np.clip(s.before * np.clip(g, smin, smax), lo, hi)
            return physical(x, it) @ vol / vol.sum() - target
        step = 2.1e-5
        l0, l1 = max(lam - step, c.lambda_lower), min(lam + step, c.lambda_upper)
        a, b = volume(l0), volume(l1)
        if l0 <= c.lambda_lower and a < -VTOL or l1 >= c.lambda_upper and b > VTOL:
            # even the end of the configured multiplier range falls short
            m.count("volume-met-or-unreachable")
            m.seen("multiplier end", c.filter_type, r.physics)
            m.tally("pinned at an end of the multiplier range")
            continue
        m.ok(a >= -VTOL and b <= VTOL, "volume-met-or-unreachable", iter=it, err=err, below=a, above=b, lam=lam)
        m.seen("bracket", c.filter_type, r.physics)
        m.tally("met to the multiplier bracket only")
    m.seen(r.kind, c.filter_type, c.interpolation, r.physics, r.info.get("cells"))
    m.sample(vol_error=rec[:4], targets=[r.value("vol_frac", s.iter) for s in r.steps[:4]])


def running_scale(r, k):
    """The sensitivity scale the rule carries along, from the observed dC."""
    c, v = r.cfg, 0.0
    for j in range(k + 1):
        s = r.steps[j]
        pct = r.value("percentile", s.iter)
        x = np.percentile(np.abs(s.dC), pct) if pct is not None else np.max(np.abs(s.dC))
        x = max(x, c.sensitivity_scale_floor)
        v = x if s.iter == 1 else 0.6 * v + 0.4 * x
    return v


def run(m):
    for i in range(m.pick(56, 640)):
        if not m.mine(i) or m.out_of_time():
            continue
        rng = m.rng("run", i)
        kind = "logmoc" if m.nth(i, 4, "1") == 3 else "oc"
        over = gen.spice(rng, kind) if m.nth(i, 2, "spice") else {}
        if m.nth(i, 5, "2") == 1:
            over["vol_frac"] = gen.SC.constant(target_value=float(rng.uniform(0.3, 0.7)))
            over["beta"] = gen.SC.constant(target_value=float(rng.uniform(0.5, 8)))
            over["move_limit"] = gen.SC.constant(target_value=0.3)
        if m.nth(i, 5, "3") == 2:
            over["vol_frac"] = gen.SC.step(init_value=0.9, target_value=0.4, num_steps=4)
        if m.nth(i, 7, "4") == 3:
            over["rho_min"], over["rho_max"] = 0.3, 0.85
        if m.nth(i, 6, "5") == 2:
            over["percentile"] = gen.SC.constant(target_value=80.0)
        if m.nth(i, 9, "6") == 4:
            over["design_dirichlet"] = True
        try:
            r = gen.Run(m, rng, kind=kind, physics=["elastic", "elastic", "heat"][m.nth(i, 3, "7")], **over)
        except RuntimeError:
            continue
        with m.case(f"run-{i}", **r.info, over={k: str(v) for k, v in over.items()}):
            observe(m, r)
        r.close()
