"""C19: temperature states by the residual of an independent heat balance, and
the thermal objectives evaluated on the returned states."""
import numpy as np
import gen
import ref

RULE = "distinct (objective, mesh kind and cells, warp, interpolation, load cases, same supports, film, density class) evaluations judged"
ASSUMPTIONS = ["the density-dependent film integrals use the integration points of the task's basis"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"heat-balance": 300, "prescribed-values": 300, "objective-as-declared": 100, "cases-alone-equal-together": 60,
           "repeat-equal": 150, "uniform-without-film": 5, "within-bounds": 40, "conduction-energy": 60, "helpers-agree": 20}


def density(rng, n):
    k = int(rng.integers(5))
    if k == 0:
        return rng.uniform(0, 1, n), "random"
    if k == 1:
        return rng.choice([0.0, 1.0], n), "binary"
    if k == 2:
        return np.full(n, float(rng.uniform(0.05, 1))), "uniform"
    if k == 3:
        return np.ones(n), "solid"
    return np.clip(np.linspace(1.2, -0.1, n), 0, 1), "ramp"


def solver_of(task, emin, law, **kw):
    from sktopt.fea import FEM_SimpLinearHeatConduction, composer
    f = composer.simp_interpolation if law == "SIMP" else composer.ramp_interpolation
    return FEM_SimpLinearHeatConduction(task, emin, f, **kw)


def n_cases(task):
    v = task.dirichlet_values
    return len(v) if isinstance(v, list) else 1


def judge_states(m, H, task, T, rho, k, p, **d):
    """T (unknowns, cases) against the balance of the reference model."""
    for i, (nodes, v) in enumerate(H.cases()):
        H.p = p
        K, f = H.system(rho, k)
        t = T[H.dof, i]
        m.close(t[nodes], np.full(len(nodes), v), "prescribed-values", atol=1e-9 * max([np.abs(t).max()] + [abs(x) for x in getattr(H, "te", [])]), case=i, **d)
        free = np.setdiff1d(np.arange(H.n), nodes)
        res = (K @ t - f)[free]
        size = (abs(K) @ np.abs(t) + np.abs(f))[free]
        m.ok(np.all(np.abs(res) <= 1e-9 * size.max() + 1e-300), "heat-balance", case=i,
             residual=np.abs(res).max(), of=size.max() if size.size else 0, **d)


def want_objectives(H, task, T, K, rho):
    t = [T[H.dof, i] for i in range(T.shape[1])]
    if task.objective == "compliance":
        return np.array([x @ (K @ x) for x in t]), np.array([np.abs(x) @ (abs(K) @ np.abs(x)) for x in t])
    avg = np.array([x.sum() for x in t])
    if task.objective == "averaged_temp":
        return avg, np.array([np.abs(x).sum() for x in t])
    hx = []
    for x in t:
        v, den = H.exchange(rho, x)
        if den <= 1e-12:
            return None, None
        hx.append(v)
    hx = np.array(hx)
    te, h = H.te[0], H.h[0]
    size = np.array([abs(te) * h * (np.abs(x).max() + abs(te)) for x in t])
    w = task.avg_temp_weight
    if w:
        if len(t) > 1:
            s1, s2 = max(np.mean(np.abs(hx)), 1e-12), max(np.mean(np.abs(avg)), 1e-12)
            return hx / s1 + w * avg / s2, size / s1 + abs(w) * np.array([np.abs(x).sum() for x in t]) / s2
        return hx + w * avg, size + abs(w) * np.array([np.abs(x).sum() for x in t])
    return hx, size


def alone(task, i):
    """The same problem with only load case i."""
    import dataclasses
    nodes = task.dirichlet_nodes if isinstance(task.dirichlet_nodes, list) else [task.dirichlet_nodes]
    dofs = task.dirichlet_dofs
    vals = task.dirichlet_values if isinstance(task.dirichlet_values, list) else [task.dirichlet_values]
    return dataclasses.replace(task, dirichlet_nodes=[nodes[i]], dirichlet_dofs=dofs, dirichlet_values=[vals[i]])


def one(m, i):
    rng = m.rng("state", i)
    objective = ["compliance", "heat_exchange", "averaged_temp"][i % 3]
    cases = [1, 2, 3][int(rng.integers(3))]
    w = float(rng.uniform(0.05, 2)) if objective == "heat_exchange" and rng.random() < 0.5 else 0.0
    task, info = gen.heat_with_room(rng, m.pick(70, 200), cases=cases, always_robin=objective == "heat_exchange" or rng.random() < 0.3,
                                    objective=objective, avg_w=w, zero=bool(rng.random() < 0.15))
    law = str(rng.choice(["SIMP", "RAMP"]))
    emin = float(10 ** rng.uniform(-5, -1))
    n = task.mesh.nelements
    H = ref.Heat(task)
    nc = n_cases(task)
    with m.case(f"state-{i}", **info, objective=objective, law=law, emin=emin, avg_weight=w):
        fem = solver_of(task, emin, law)
        kept = []
        first = None
        for step in range(3):
            rho, name = density(rng, n)
            p = float(rng.choice([1.0, 2.0, 3.0, float(rng.uniform(1, 5))]))
            rho0 = rho.copy()
            T = np.full((task.basis.N, nc), rng.normal())
            J = np.asarray(fem.objectives_multi_load(rho, p, T))
            m.equal(rho, rho0, "input-unchanged")
            k = ref.interp(rho, task.k, task.k * emin, p, law)
            judge_states(m, H, task, T, rho, k, p, density=name)
            H.p = p
            K, _ = H.system(rho, k)
            want, size = want_objectives(H, task, T, K, rho)
            if want is not None:
                m.ok(J.shape == want.shape and np.all(np.abs(J - want) <= 1e-8 * size + 1e-300), "objective-as-declared",
                     got=J, want=want, density=name)
            elif not w:
                te, h = H.te[0], H.h[0]
                m.ok(np.all(np.abs(J) <= abs(te) * h * (np.abs(T).max() + abs(te)) * (1 + 1e-9)), "no-interface-bounded", got=J)
            kept.append((rho, p, T.copy(), J))
            if objective == "compliance":
                e = np.asarray(fem.energy_multi_load(rho, p, T))
                for c in range(nc):
                    size = 0.5 * k * np.abs(H.Ke).sum(axis=(1, 2)) * np.abs(T[:, c]).max() ** 2
                    want = H.energies(k, T[H.dof, c])
                    m.ok(np.all(np.abs(e[:, c] - want) <= 1e-9 * want + 1e-13 * size), "conduction-energy", case=c,
                         err=np.abs(e[:, c] - want).max())
                m.ok(np.all(e >= 0), "conduction-energy")
            if first is None:
                first = (rho, p, k, T)
            m.seen(objective, info["kind"], info["cells"], info["warp"], law, nc, info["robin"], name)
        # order and repetition do not matter
        for rho, p, T, J in kept[::-1]:
            T2 = np.zeros_like(T)
            J2 = fem.objectives_multi_load(rho, p, T2)
            m.equal(T2, T, "repeat-equal")
            m.equal(np.asarray(J2), J, "repeat-equal", what="objective")
        rho, p, T, J = kept[0]
        if nc > 1:
            for c in range(nc):
                a = alone(task, c)
                T1 = np.zeros((task.basis.N, 1))
                J1 = solver_of(a, emin, law).objectives_multi_load(rho, p, T1)
                m.close(T1[:, 0], T[:, c], "cases-alone-equal-together", rtol=1e-9, atol=1e-12, case=c)
                if objective != "heat_exchange" or not w:
                    m.close(J1[0], J[c], "cases-alone-equal-together", rtol=1e-8, atol=1e-9 * abs(J).max(), case=c, what="objective")
        if not info["robin"]:
            for c, (_, v) in enumerate(H.cases()):
                m.close(T[:, c], np.full(len(T), v), "uniform-without-film", rtol=1e-8, atol=1e-12)
        helpers(m, rng, task, H, first, law, emin, nc)
        m.sample(objective_value=J, temperature=[T.min(), T.max()])


def helpers(m, rng, task, H, first, law, emin, nc):
    """The solver entry points on their own, and the averaged temperature."""
    from sktopt.fea import composer, solver_heat as sh
    rho, p, k, _ = first
    f = composer.simp_interpolation if law == "SIMP" else composer.ramp_interpolation
    nodes = [a for a, _ in H.cases()]
    vals = [b for _, b in H.cases()]
    T = np.zeros((task.basis.N, nc))
    K, emit, dofs = sh.solve_multi_load(task.basis, task.free_dofs, nodes, vals, task.robin_bilinear, task.robin_linear,
                                        task.k, task.k * emin, p, rho, T, elem_func=f)
    Kr = ref.assemble(H.t.T, H.Ke, H.n, k)
    fr = np.zeros(H.n)
    for h, te, b, M in H.film:
        Kr, fr = Kr + h * M, fr + h * te * b
    m.close(K.toarray()[np.ix_(H.dof, H.dof)], Kr.toarray(), "helpers-agree", rtol=1e-10, what="matrix")
    m.close(np.asarray(emit)[H.dof], fr, "helpers-agree", rtol=1e-10, atol=1e-300, what="load")
    U = np.zeros_like(T)
    sh.solve_scipy_heat_multi_enforce(K, emit, dofs, vals, U)
    m.close(U, T, "helpers-agree", rtol=1e-9, what="enforce per case")
    if all(np.array_equal(nodes[0], x) for x in nodes):
        U = np.zeros_like(T)
        sh.solve_scipy(K, emit, dofs, vals, U)
        m.close(U, T, "helpers-agree", rtol=1e-9, what="shared matrix")
    for c in range(nc):
        e = np.asarray(sh.heat_energy_skfem(task.basis, rho, T[:, c], task.k, task.k * emin, p, elem_func=f)).ravel()
        size = 0.5 * k * np.abs(H.Ke).sum(axis=(1, 2)) * np.abs(T[:, c]).max() ** 2
        want = H.energies(k, T[H.dof, c])
        m.ok(e.shape == want.shape and np.all(np.abs(e - want) <= 1e-9 * want + 1e-13 * size), "conduction-energy", case=c, what="one field")
    te = float(rng.uniform(-20, 50))
    A = sh.avg_temp_skfem_multi(task.basis, T, te)
    q = H.quad
    for c in range(nc):
        want = (q.w * (np.einsum('qa,ea->eq', q.N, T[H.dof, c][H.t].T) - te)).sum(axis=1)
        m.close(A[:, c], want, "helpers-agree", rtol=1e-9, what="mean temperature")
        m.close(sh.avg_temp_skfem(task.basis, T[:, c], te), want, "helpers-agree", rtol=1e-9, what="mean temperature")


def bounds(m, i):
    """Cubical cells and a mild film: no over- or undershoot to speak of."""
    rng = m.rng("bounds", i)
    kind = ["hex", "tet"][i % 2]
    cells = tuple(int(c) for c in rng.integers(2, 5, 3))
    mesh = gen.make_mesh(rng, kind, cells if kind == "hex" else tuple(min(c, 3) for c in cells), uniform=True)
    law, emin, p = str(rng.choice(["SIMP", "RAMP"])), float(10 ** rng.uniform(-3, -1)), float(rng.uniform(1, 3))
    k = float(10 ** rng.uniform(-1, 2))
    v, te = float(rng.uniform(-50, 300)), float(rng.uniform(-50, 100))
    b = gen.scalar_basis(mesh)
    h = 0.1 * k * emin * float(rng.uniform(0.1, 1))
    task = gen.LinearHeatConduction.from_facets(b, [gen.face(mesh, 0, 0)], v, gen.face(mesh, 0, 1), h, te, None,
                                                np.arange(mesh.nelements), k, "compliance", 0.0)
    with m.case(f"bounds-{i}", kind=kind, cells=cells, k=k, h=h, prescribed=v, ambient=te):
        rho, name = density(rng, mesh.nelements)
        T = np.zeros((b.N, 1))
        solver_of(task, emin, law).objectives_multi_load(rho, p, T)
        lo, hi = min(v, te), max(v, te)
        eps = 0.02 * (hi - lo) + 1e-9 * max(abs(lo), abs(hi))
        m.ok(T.min() >= lo - eps and T.max() <= hi + eps, "within-bounds", range=[T.min(), T.max()])
        m.seen("bounds", kind, cells, name)


def run(m):
    for i in range(m.pick(96, 1600)):
        if m.mine(i) and not m.out_of_time():
            one(m, i)
    for i in range(m.pick(64, 600)):
        if m.mine(i) and not m.out_of_time():
            bounds(m, i)
