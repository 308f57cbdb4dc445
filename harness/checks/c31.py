"""C31: every observed density update and every recorded multiplier and
residual recomputed from the sensitivities that entered the update."""
import numpy as np
import gen
import ref
from replay import Replay

RULE = "distinct (optimizer, options of its update rule, filter, physics, outcome) situations at which an update was judged"
ASSUMPTIONS = ["Lagrangian fields of the log optimizer are judged with the spatial filter (the Helmholtz gradient is a known finding of C07)",
               "sensitivity filtering is judged for the spatial filter against finite differences"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"oc-update": 100, "oc-residual": 100, "log-update": 40, "log-multiplier": 60, "log-coefficient": 60, "filtered-sensitivity": 10}


def residual_mask(c, x):
    return (x > c.rho_min + 1e-6) & (x < c.rho_max - 1e-6)


def borderline(c, x):
    """A density at the edge of what counts as interior."""
    return np.any(np.abs(x - c.rho_min - 1e-6) < 1e-10) or np.any(np.abs(x - c.rho_max + 1e-6) < 1e-10)


def oc(m, r, vol):
    c = r.cfg
    h = r.opt.recorder.histories
    lam, kkt, stat = h["lmid"].data, h["kkt_residual"].data, h["-dC"].data
    carried = 0.0
    for k, s in enumerate(r.steps):
        it = s.iter
        pct = r.value("percentile", it)
        now = np.percentile(np.abs(s.dC), pct) if pct is not None else np.max(np.abs(s.dC))
        now = max(now, c.sensitivity_scale_floor)
        carried = now if it == 1 else 0.6 * carried + 0.4 * now
        lim, eta = r.value("move_limit", it), r.value("eta", it)
        m.ok(c.lambda_lower <= lam[k] <= c.lambda_upper, "multiplier-in-range", iter=it, got=lam[k])
        rate = np.clip(np.maximum(-s.dC / carried / (lam[k] + 1e-12), 0) ** eta, c.scaling_rate_min, c.scaling_rate_max)
        want = np.clip(s.before * rate, np.maximum(s.before - lim, c.rho_min), np.minimum(s.before + lim, c.rho_max))
        m.close(s.after, want, "oc-update", rtol=0, atol=1e-9, iter=it, lam=lam[k])
        if not borderline(c, s.after):
            inner = residual_mask(c, s.after)
            res = np.max(np.abs(s.dC + lam[k] * carried * vol / vol.sum())[inner]) if inner.any() else 0.0
            m.close(kkt[k], res, "oc-residual", rtol=1e-9, atol=1e-14, iter=it)
        x = -s.dC / carried
        m.close(np.asarray(stat[k], float)[:3], [x.min(), x.mean(), x.max()], "oc-recorded-sensitivity", rtol=1e-9, atol=1e-14, iter=it)
        m.seen("oc", c.filter_type, r.physics, pct is not None, bool(np.all(rate == c.scaling_rate_min)), bool(np.any(s.dC > 0)),
               round(float(eta), 3))
        m.tally("elements at a bound of the rule", int(np.sum((rate == c.scaling_rate_min) | (rate == c.scaling_rate_max))))
        m.tally("elements free to move", int(np.sum((rate > c.scaling_rate_min) & (rate < c.scaling_rate_max))))


def logmoc(m, r, vol, R):
    c = r.cfg
    h = r.opt.recorder.histories
    g = lambda n: np.array([float(v) for v in h[n].data]) if n in h else None
    lam, coeff, err, kkt = g("lambda_v"), g("constraint_coeff"), g("vol_error"), g("kkt_residual")
    scale_rec = g("volume_chain_scale")
    w = vol / vol.sum()
    prev, carried, worst = None, None, 0.0
    for k, s in enumerate(r.steps):
        it = s.iter
        pen = c.mu_p * err[k]
        if it == 1:
            want = pen
        elif c.dual_update == "augmented":
            want = prev + pen
        else:
            want = c.lambda_decay * prev + (1 - c.lambda_decay) * pen
        want = float(np.clip(want, c.lambda_lower, c.lambda_upper))
        m.close(lam[k], want, "log-multiplier", rtol=1e-12, atol=1e-14, iter=it, dual=c.dual_update)
        prev = lam[k]
        m.close(coeff[k], lam[k] + c.augmented_lagrangian_mu * err[k], "log-coefficient", rtol=1e-12, atol=1e-14, iter=it)
        if c.filter_type != "spacial" or R.ambiguous(it):
            continue
        F = R._filter(r.value("filter_radius", it))[0]
        obj = s.dC - (s.dC @ w if c.center_objective else 0.0)
        d = ref.dproject(F @ s.before, r.value("beta", it), c.beta_eta)
        chain = F.T @ (d * w)
        gain = 1.0
        if c.normalize_volume_chain:
            gain = c.volume_chain_gain
            if c.volume_chain_gain_under is not None and err[k] < 0:
                gain = c.volume_chain_gain_under
            gain *= max(np.percentile(np.abs(obj), c.lagrangian_percentile), c.lagrangian_scale_floor) / \
                max(np.percentile(np.abs(chain), c.volume_chain_percentile), c.volume_chain_scale_floor)
        m.close(scale_rec[k], gain, "log-chain-scale", rtol=1e-7, iter=it)
        chain = chain * gain
        rec = np.asarray(h["dV_chain"].data[k], float)
        m.close(rec[:3], [np.abs(chain).min(), np.abs(chain).mean(), np.abs(chain).max()], "log-chain", rtol=1e-7, scale=np.abs(chain).max(), iter=it)
        dL = obj + coeff[k] * chain
        if c.filter_lagrangian:
            dL = F @ dL
        if c.center_lagrangian:
            dL = dL - dL @ w
        pct = r.value("percentile", it)
        now = max(np.percentile(np.abs(dL), pct if pct is not None else c.lagrangian_percentile), c.lagrangian_scale_floor)
        carried = now if carried is None else 0.2 * carried + 0.8 * now
        # centring subtracts nearly equal numbers where the design is uniform
        noise = 1e-13 * (np.abs(s.dC).max() + np.abs(coeff[k] * chain).max()) / carried
        worst = max(worst, noise)
        dL = dL / carried
        lim = r.value("move_limit", it)
        x = np.clip(s.before, c.rho_min, c.rho_max)
        far = np.log(1 + lim / x)
        new = np.log(x) - r.value("eta", it) * np.clip(dL, -c.lagrangian_clip, c.lagrangian_clip)
        new = np.clip(np.exp(np.clip(new, np.log(x) - far, np.log(x) + far)), c.rho_min, c.rho_max)
        m.close(s.after, new, "log-update", rtol=0, atol=1e-7 + worst, iter=it)
        if not borderline(c, s.before):
            inner = residual_mask(c, s.before)
            m.close(kkt[k], np.max(np.abs(dL[inner])) if inner.any() else 0.0, "log-residual", rtol=1e-6, atol=1e-10 + worst, iter=it)
        if worst > 1e-4:
            m.tally("updates of rounding only")
        m.seen("log", r.physics, c.dual_update, c.normalize_volume_chain, c.center_objective, c.center_lagrangian, c.filter_lagrangian,
               pct is not None, err[k] < 0)


def filtered(m, r, R):
    """With sensitivity filtering on, the filtered gradient enters the update."""
    for s in r.steps[:2]:
        if R.ambiguous(s.iter):
            continue
        n, h = len(s.before), 1e-5
        J0 = R.objective(s.before, s.iter)
        grad = np.empty(n)
        for e in range(n):
            d = np.zeros(n)
            d[e] = h
            grad[e] = (8 * (R.objective(s.before + d, s.iter) - R.objective(s.before - d, s.iter))
                       - (R.objective(s.before + 2 * d, s.iter) - R.objective(s.before - 2 * d, s.iter))) / (12 * h)
        F = R._filter(r.value("filter_radius", s.iter))[0]
        want = F @ grad
        m.close(s.dC, want, "filtered-sensitivity", rtol=1e-5, scale=np.abs(want).max(), atol=1e-11 * abs(J0) / h, iter=s.iter)
        m.seen("filtered", r.kind, r.cfg.interpolation, r.info.get("cells"))


def twins(m, i):
    """The same first iteration with sensitivity filtering off and on: what
    enters the update is the filter's linear part applied."""
    got, info = [], None
    for on in (False, True):
        rng = m.rng("twin", i)
        kind, filt = ["oc", "logmoc"][m.nth(i, 2, "tk")], ["helmholtz", "spacial"][m.nth(i, 2, "tf")]
        r = gen.Run(m, rng, kind=kind, physics=["elastic", "elastic", "heat"][m.nth(i, 3, "tp")], filter_type=filt, iters=1,
                    max_elems=60, **{"design_dirichlet": bool(m.nth(i, 3, "td") == 0), "sensitivity_filter": on})
        if info is None:
            with m.case(f"twin-{i}", **r.info):
                r.opt.optimize()
        else:
            r.opt.optimize()
        info = info or r.info
        if not r.steps:
            return
        got.append((r.steps[0], r))
    (a, r), (b, r2) = got
    with m.case(f"twin-{i}", **r.info):
        t = r.task
        full = np.zeros(t.mesh.nelements)
        full[t.design_elements] = a.dC
        rad = r.value("filter_radius", 1)
        if filt == "helmholtz":
            want = ref.Helmholtz(t.mesh, rad, t.design_mask).linear(full)[t.design_elements]
        else:
            R = Replay(r)
            if R.ambiguous(1):
                m.tally("a distance exactly at the filter radius, skipped")
                return
            want = R._filter(rad)[0] @ a.dC
        m.close(b.dC, want, "filtered-sensitivity", rtol=1e-6, scale=np.abs(want).max(), atol=1e-300, filter=filt)
        m.seen("twin", r.kind, r.physics, filt, r.info.get("cells"))
    r.close()
    r2.close()


def run(m):
    for i in range(m.pick(24, 300)):
        if m.mine(i) and not m.out_of_time():
            twins(m, i)
    for i in range(m.pick(72, 900)):
        if not m.mine(i) or m.out_of_time():
            continue
        rng = m.rng("run", i)
        kind = ["oc", "logmoc"][m.nth(i, 2, "1")]
        over, filt = {}, None
        if m.nth(i, 3, "2") == 1:
            over["percentile"] = gen.SC.constant(target_value=float(rng.uniform(50, 100)))
        if m.nth(i, 9, "3") == 5:
            over["sensitivity_filter"] = True
        if kind == "oc":
            if rng.random() < 0.5:
                over["eta"] = gen.SC.step(init_value=0.3, target_value=0.8, num_steps=3)
            if rng.random() < 0.4:
                over["scaling_rate_min"], over["scaling_rate_max"] = float(rng.uniform(0.3, 0.9)), float(rng.uniform(1.1, 2.0))
            if rng.random() < 0.2:
                over["sensitivity_scale_floor"] = float(10 ** rng.uniform(-3, 2))
            if rng.random() < 0.2:
                over["rho_max"] = 0.9
        else:
            filt = "spacial" if rng.random() < 0.8 else "helmholtz"
            over["dual_update"] = str(rng.choice(["ema", "augmented"]))
            over["mu_p"] = float(10 ** rng.uniform(-1, 2))
            over["lambda_decay"] = float(rng.uniform(0, 1))
            over["augmented_lagrangian_mu"] = float(rng.choice([0, rng.uniform(0.1, 20)]))
            over["lagrangian_clip"] = float(rng.uniform(0.3, 3))
            over["lagrangian_percentile"] = float(rng.uniform(40, 100))
            for o in ("normalize_volume_chain", "center_objective", "center_lagrangian", "filter_lagrangian"):
                over[o] = bool(rng.random() < 0.4)
            over["volume_chain_gain"] = float(rng.uniform(0.3, 3))
            over["volume_chain_percentile"] = float(rng.uniform(40, 100))
            if rng.random() < 0.5:
                over["volume_chain_gain_under"] = float(rng.uniform(0.3, 3))
            if rng.random() < 0.3:
                over["lambda_lower"], over["lambda_upper"] = -float(rng.uniform(0.01, 1)), float(rng.uniform(0.01, 1))
            if rng.random() < 0.3:
                over["vol_frac"] = gen.SC.constant(target_value=0.99)
        try:
            r = gen.Run(m, rng, kind=kind, physics=["elastic", "elastic", "heat"][m.nth(i, 3, "4")], filter_type=filt,
                        record_times=1, max_elems=m.pick(60, 120), **over)
        except RuntimeError:
            continue
        with m.case(f"run-{i}", **r.info, over={k: v if isinstance(v, (bool, float, str)) else str(v) for k, v in over.items()}):
            if m.nth(i, 4, "5") == 2:
                r.opt.optimize_steps(2)
                r.opt.optimize_steps(r.iters - 2) if r.iters > 2 else None
            else:
                r.opt.optimize()
            R = Replay(r)
            (oc if kind == "oc" else lambda *a: logmoc(*a, R))(m, r, R.volume_weights)
            m.sample(kind=kind, after=r.steps[-1].after[:4])
        r.close()
    for i in range(m.pick(8, 120)):
        if not m.mine(i) or m.out_of_time():
            continue
        rng = m.rng("filtered", i)
        r = gen.Run(m, rng, kind=["oc", "logmoc"][m.nth(i, 2, "6")], physics="elastic", filter_type="spacial", iters=2, record_times=1,
                    loads=1 + m.nth(i, 2, "7"), max_elems=30, sensitivity_filter=True, E_min_coeff=1e-2)
        with m.case(f"filtered-{i}", **r.info):
            r.opt.optimize()
            filtered(m, r, Replay(r))
        r.close()
