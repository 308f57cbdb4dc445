"""C20: thermal sensitivities against finite differences of the reported
objective and an independent analytic gradient, on states and in whole runs."""
import numpy as np
import gen
import ref
from replay import Replay
from checks.c19 import n_cases, solver_of

RULE = "distinct (objective, prescribed zero or not, mesh kind and cells, interpolation, penalty, load cases, film) gradients judged"
ASSUMPTIONS = ["the interface term is differentiated where the density is not locally constant"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"compliance-gradient": 30, "finite-difference": 100, "run-gradient": 40, "other-objectives": 30, "prescribed-temperature": 20}


def differences(m, rng, fem, task, rho, p, c, got, n_comp):
    """(derivative by differences, sensitivity) pairs for some directions."""
    n, nc = len(rho), n_cases(task)
    H = 1e-5

    def J(x):
        T = np.zeros((task.basis.N, nc))
        return np.asarray(fem.objectives_multi_load(x, p, T))[c]
    out = []
    dirs = [np.eye(n)[int(e)] for e in rng.permutation(n)[:n_comp]] + [rng.choice([-1.0, 1.0], n)]
    for d in dirs:
        fd = (8 * (J(rho + H * d) - J(rho - H * d)) - (J(rho + 2 * H * d) - J(rho - 2 * H * d))) / (12 * H)
        out.append((fd, float(got @ d), np.abs(d).sum()))
    return out


def agrees(pairs, scale, noise):
    return all(abs(a - b) <= 2e-4 * scale * np.sqrt(k) + noise for a, b, k in pairs)


def state(m, i):
    rng = m.rng("state", i)
    objective = ["compliance", "compliance", "heat_exchange", "averaged_temp"][i % 4]
    zero = i % 8 in (0, 4, 5) or objective != "compliance"
    robin = objective == "heat_exchange" or rng.random() < 0.85
    if objective == "averaged_temp":
        robin = True
    cases = 1 if objective == "heat_exchange" else int(rng.integers(1, 4))
    for _ in range(20):
        task, info = gen.heat_with_room(rng, m.pick(50, 130), cases=cases, always_robin=True, objective=objective, zero=zero)
        if task.free_dofs.size:
            break
    if not robin and not zero:
        robin = True
    law, p, emin = ["SIMP", "RAMP"][i // 4 % 2], float(rng.choice([1.0, 2.0, 3.0, float(rng.uniform(1, 5))])), float(10 ** rng.uniform(-4, -1))
    n, nc = task.mesh.nelements, n_cases(task)
    with m.case(f"state-{i}", **info, objective=objective, zero=zero, law=law, p=p, emin=emin):
        H = ref.Heat(task)
        fem = solver_of(task, emin, law)
        rho = rng.uniform(0.1, 0.95, n)
        T = np.zeros((task.basis.N, nc))
        J = np.asarray(fem.objectives_multi_load(rho, p, T))
        G = np.asarray(fem.compliance_sensitivity_multi_load(rho, p, T))
        m.ok(G.shape == (n, nc) and np.all(np.isfinite(G)), "sensitivity-shape", shape=G.shape)
        dk = ref.dinterp(rho, task.k, task.k * emin, p, law)
        H.p = p
        again = np.asarray(fem.compliance_sensitivity_multi_load(rho, p, T))
        m.equal(again, G, "repeat-equal")
        for c in range(nc):
            t = T[H.dof, c]
            want, kink = H.fixed_state_gradient(rho, p, dk, t, film=objective == "compliance")
            if kink < 1e-6:
                m.tally("flat densities, skipped")
                continue
            same = bool(np.all(np.abs(G[:, c] - want) <= 1e-8 * np.abs(want).max() + 1e-300))
            K, f = H.system(rho, ref.interp(rho, task.k, task.k * emin, p, law))
            noise = 1e-11 * (np.abs(t) @ (abs(K) @ np.abs(t)) if objective == "compliance" else np.abs(t).sum() + abs(J[c])) / 1e-5
            scale = max(np.abs(G[:, c]).max(), 1e-300)
            pairs = differences(m, rng, fem, task, rho, p, c, G[:, c], m.pick(2, 5))
            good = agrees(pairs, scale, noise)
            d = dict(case=c, pairs=[x[:2] for x in pairs], shipped_formula=same)
            if objective == "compliance" and zero:
                m.ok(same, "compliance-gradient", err=np.abs(G[:, c] - want).max(), of=np.abs(want).max(), case=c)
                m.ok(good, "finite-difference", noise=noise, **d)
                m.count("finite-difference", len(pairs) - 1)
            elif objective == "compliance":
                if same:
                    m.finding(good, "prescribed-temperature", "prescribed-temperature", **d)
                else:
                    m.ok(good, "prescribed-temperature", **d)
            elif same:
                m.finding(good, objective, "other-objectives", **d)
            else:
                m.ok(good, "other-objectives", **d)
        m.seen(objective, zero, info["kind"], info["cells"], law, round(p, 3), nc)
        m.sample(J=J, gradient=G[:3, 0])


def whole_run(m, i):
    """The sensitivity handed to the update of a thermal run."""
    rng = m.rng("run", i)
    over = {"interpolation": ["SIMP", "RAMP"][i % 2], "E_min_coeff": float(10 ** rng.uniform(-4, -1.5))}
    r = gen.Run(m, rng, kind=["oc", "logmoc"][i // 2 % 2], physics="heat", filter_type="spacial", zero=True,
                iters=int(rng.integers(3, 6)), max_elems=m.pick(60, 130), **over)
    with m.case(f"run-{i}", **r.info):
        r.opt.optimize()
        R = Replay(r)
        H = R.heat()
        for s in r.steps:
            if R.ambiguous(s.iter):
                continue
            it = s.iter
            f, x = R.filtered(s.before, it), None
            beta, p = r.value("beta", it), r.value("p", it)
            x = ref.project(f, beta, r.cfg.beta_eta)
            dk = ref.dinterp(x, r.task.k, r.task.k * r.cfg.E_min_coeff, p, r.cfg.interpolation)
            g, kinked = 0, False
            sols = R.heat_compliances(x, it)
            for _, T in sols:
                a, kink = H.fixed_state_gradient(x, p, dk, T)
                kinked |= kink < 1e-6
                g = g + a / len(sols)
            if kinked:
                m.tally("iterations with a flat density, skipped")
                continue
            W = R._filter(r.value("filter_radius", it))[0]
            want = W.T @ (g * ref.dproject(f, beta, r.cfg.beta_eta))[R.des]   # W rows follow R.des
            m.close(s.dC, want, "run-gradient", rtol=1e-6, iter=it)
            m.seen("run", r.kind, r.cfg.interpolation, r.info.get("cells"), r.task.n_tasks, it)
    r.close()


def run(m):
    for i in range(m.pick(128, 1500)):
        if m.mine(i) and not m.out_of_time():
            state(m, i)
    for i in range(m.pick(32, 400)):
        if m.mine(i) and not m.out_of_time():
            whole_run(m, i)
