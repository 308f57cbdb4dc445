"""C22: problems scaled by random factors, and runs with automatic scaling,
against the original problem expressed in the new units."""
import numpy as np
import gen
import ref
import tracer
from checks.c04 import densities, fem_of
from checks.c10 import pieces, task_state, diff
from replay import Replay

RULE = "distinct (mesh kind, quadrature order, support, load cases, kind of factors, length of the sequence) problems, and scaled runs"
ASSUMPTIONS = ["elastic problems: thermal problems refuse to be scaled", "runs that end normally"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"coordinates-scaled": 150, "loads-scaled": 150, "restored": 60, "displacement-in-new-units": 60,
           "compliance-in-new-units": 60, "run-restores": 20, "run-compliance": 60, "nothing-else-changes": 60}
EPS = 2.3e-16


def loads(t):
    f = t.neumann_linear
    return [np.array(x, float, copy=True) for x in (f if isinstance(f, list) else [f])]


def factor(rng, kind):
    if kind == "binary":
        return float(2.0 ** int(rng.integers(-10, 11)))
    if kind == "decimal":
        return float(10.0 ** int(rng.integers(-4, 5)))
    return float(10 ** rng.uniform(-3, 3))


def others(t):
    """Everything of the problem that has no unit of length or force."""
    s = task_state(t)
    return {k: v for k, v in s.items() if k != "p" and not any(w in k for w in ("mesh", "basis", "neumann_linear", "force", "points", "volume"))}


def problem(m, i):
    rng = m.rng("problem", i)
    n_loads = [1, 2, 3][m.nth(i, 3, "1")]
    support = ["clamp", "mixed", "list"][int(rng.integers(3))]
    order = int(rng.choice([2, 2, 3, 4]))
    for _ in range(50):
        mesh, info = gen.random_mesh(rng, m.pick(60, 200))
        try:
            t = gen.elastic_task(rng, mesh, loads=n_loads, support=support, basis=gen.vector_basis(mesh, order))
            break
        except ValueError:
            continue
    kind = ["binary", "decimal", "any", "unity"][int(rng.integers(4))]
    steps = int(rng.integers(1, 4))
    law, p, coeff = str(rng.choice(["SIMP", "RAMP"])), float(rng.uniform(1, 4)), 1e-3
    rho, pattern = densities(rng, mesh.nelements)
    rho = np.maximum(rho, 0.2)      # keeps the comparison well conditioned
    with m.case(f"problem-{i}", **info, loads=n_loads, support=support, order=order, factors=kind, steps=steps, pattern=pattern):
        p0, t0, F0, rest0 = mesh.p.copy(), mesh.t.copy(), loads(t), others(t)
        single = not isinstance(t.neumann_linear, list)

        def state():
            U = np.full((t.basis.N, n_loads), np.nan)
            fem = fem_of(t, law, coeff)
            J = np.asarray(fem.objectives_multi_load(rho, p, U), float)
            return U, J, np.asarray(fem.energy_multi_load(rho, p, U), float)
        U0, J0, W0 = state()
        stiff = np.array([max(np.abs(J0).max(), 1e-300), 1.0])
        L = F = 1.0
        done = []
        for s in range(steps):
            a, b = (1.0, 1.0) if kind == "unity" else (factor(rng, kind), factor(rng, kind))
            if s and rng.random() < 0.3:
                a = 1.0 / done[-1][0]
            t.scale(a, b)
            done.append((a, b))
            L, F = L * a, F * b
            m.close(t.mesh.p, p0 * L, "coordinates-scaled", rtol=4 * EPS * (s + 2), factors=done)
            m.equal(t.mesh.t, t0, "connectivity-kept")
            now = loads(t)
            m.ok(len(now) == n_loads and single == (not isinstance(t.neumann_linear, list)), "load-cases-kept", n=len(now))
            for f, g in zip(now, F0):
                m.close(f, g * F, "loads-scaled", rtol=4 * EPS * (s + 2), factors=done)
            if kind == "binary":
                m.equal(t.mesh.p, p0 * L, "coordinates-scaled", exact=True)
            if kind == "unity":
                m.equal(t.mesh.p, p0, "coordinates-scaled", exact=True)
            d = diff(rest0, others(t))
            m.ok(not d, "nothing-else-changes", fields=d)
            m.ok(type(t.mesh) is type(mesh) and t.basis.N == U0.shape[0], "nothing-else-changes", N=t.basis.N)
            U, J, W = state()
            # E keeps its unit of F/L^2, so displacements go with F/L and work with F^2/L
            m.close(U, U0 * (F / L), "displacement-in-new-units", rtol=1e-7, factors=done)
            m.close(J, J0 * (F * F / L), "compliance-in-new-units", rtol=1e-7, factors=done)
            m.close(W, W0 * (F * F / L), "energy-in-new-units", rtol=1e-7, factors=done)
        t.scale(1.0 / L, 1.0 / F)
        m.close(t.mesh.p, p0, "restored", rtol=4 * EPS * (steps + 2))
        for f, g in zip(loads(t), F0):
            m.close(f, g, "restored", rtol=4 * EPS * (steps + 2))
        _, J, _ = state()
        m.close(J, J0, "restored", rtol=1e-8)
        m.seen(info["kind"], order, support, n_loads, kind, steps)
        m.sample(factors=done, compliance=J0)


def a_run(m, i):
    rng = m.rng("run", i)
    over = {"scaling": True}
    if m.nth(i, 5, "2") == 3:
        over.update(check_convergence=True, tol_rho_change=0.3, tol_kkt_residual=1e9)
    if m.nth(i, 4, "3") == 2:
        over["sensitivity_filter"] = True
    if m.nth(i, 3, "4") == 1:
        over["design_dirichlet"] = True
    n_loads = [1, 2, 3][m.nth(i, 3, "5")]
    kind = ["oc", "logmoc"][m.nth(i, 2, "6")]
    for _ in range(50):
        mesh, info = gen.random_mesh(rng, 40)
        mesh = mesh.translated(tuple(rng.uniform(-3, 3, 3) * min(1.0, info["size"]) * (rng.random() < 0.5)))
        try:
            t = gen.elastic_task(rng, mesh, loads=n_loads, basis=gen.vector_basis(mesh, int(rng.choice([2, 3]))))
        except ValueError:
            continue
        if len(np.setdiff1d(t.design_elements, t.dirichlet_elements)) >= 3:
            break
    else:
        return
    # the radius is taken in the units of the run
    over["filter_radius"] = gen.SC.constant(target_value=gen.edge_length(mesh) / float(np.ptp(mesh.p, axis=1).max()) * float(rng.uniform(0.4, 3)))
    p0, F0 = t.mesh.p.copy(), loads(t)
    L = float(np.ptp(p0, axis=1).max())
    # the solver's own quadrature, seen from the unscaled problem
    model = ref.Elastic(t.basis, t.nu)
    r = gen.Run(m, rng, kind=kind, physics="elastic", task=t, loads=n_loads, **over)
    with m.case(f"run-{i}", **{**info, **r.info}, mesh=info["kind"], over=list(over)):
        m.ok(abs(float(np.ptp(t.mesh.p, axis=1).max()) - 1) < 1e-12, "run-in-unit-length")
        units = [float(np.abs(f).max() / np.abs(g).max()) for f, g in zip(loads(t), F0)]
        m.ok(np.ptp(units) <= 1e-12 * units[0], "run-scales-all-loads-alike", ratios=units)
        how = ["full", "pieces", "steps"][m.nth(i, 3, "7")]
        if how == "full":
            r.opt.optimize()
        elif how == "pieces":
            pieces(rng, r.opt, r.iters, r.trace)
            r.opt.optimize()
        else:
            for _ in range(r.iters + 1):
                r.opt.optimize_steps(1)
        for what in ("after the run", "asked again"):
            m.close(t.mesh.p, p0, "run-restores", rtol=8 * EPS, scale=np.abs(p0).max(), when=what)
            for f, g in zip(loads(t), F0):
                m.close(f, g, "run-restores", rtol=8 * EPS, when=what)
            if m.nth(i, 2, "8"):
                r.opt.optimize()
            else:
                r.opt.optimize_steps(2)
        # what the run reported is the original problem's, in the run's units
        rep = Replay(r)
        rep._el = model
        unit = units[0] ** 2 * L
        rec = r.opt.recorder.histories["compliance"].data
        m.ok(len(rec) == len(r.steps), "run-compliance", entries=len(rec), steps=len(r.steps))
        for s, c in zip(r.steps, rec):
            want = [x * unit for x, _ in rep.compliances(s.projected, s.iter)]
            m.close(np.mean(want), float(np.asarray(c).ravel()[0]) if np.size(c) == 1 else np.mean(c), "run-compliance",
                    rtol=1e-6, iter=s.iter)
        m.seen("run", r.kind, n_loads, how, sorted(over), r.info["filter"])
    r.close()


def run(m):
    for i in range(m.pick(160, 4000)):
        if m.mine(i) and not m.out_of_time():
            problem(m, i)
    for i in range(m.pick(48, 600)):
        if m.mine(i) and not m.out_of_time():
            a_run(m, i)
