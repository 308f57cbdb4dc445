"""C04: elastic states judged for equilibrium, supports, compliance, energies,
load-case independence, load scaling and solver agreement."""
import numpy as np
import gen
import ref

RULE = "distinct (mesh kind, cells, warp, support, load cases, interpolation, solver, density pattern) states judged"
ASSUMPTIONS = ["PETSc is not installed; what is handed to and taken from it is judged by C32"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"equilibrium": 100, "supports": 100, "compliance-is-f.u": 100, "energy-sum": 100, "solver-agreement": 20,
           "cases-independent": 40, "load-scaling": 40, "reference-solution": 60, "positive": 100}


def densities(rng, n):
    k = int(rng.integers(6))
    if k == 0:
        return np.ones(n), "solid"
    if k == 1:
        return np.full(n, float(rng.uniform(0.05, 0.9))), "uniform"
    if k == 2:
        return rng.uniform(0, 1, n), "random"
    if k == 3:
        return rng.choice([0.01, 1.0], n), "two-phase"
    if k == 4:
        x = rng.uniform(0, 1, n)
        x[rng.random(n) < 0.3] = 0.0
        return x, "with void"
    return rng.uniform(0, 1, n) ** 4, "mostly void"


def fem_of(task, law, coeff, **kw):
    from sktopt import fea
    from sktopt.fea import composer
    f = composer.simp_interpolation if law == "SIMP" else composer.ramp_interpolation
    return fea.FEM_SimpLinearElasticity(task, coeff, density_interpolation=f, **kw)


def one(m, rng, i):
    loads = [1, 2, 3][i % 3]
    support = ["clamp", "mixed", "list"][int(rng.integers(3))]
    # one in eight bodies is very soft (or given in units that make its modulus small)
    soft = float(10 ** rng.uniform(-7, -1))
    t, info = gen.elastic_with_room(rng, m.pick(70, 220), loads=loads, support=support, min_design=1, E=soft if i % 8 == 5 else None)
    law = str(rng.choice(["SIMP", "RAMP"]))
    coeff = float(10 ** rng.uniform(-6, -1))
    p = float(rng.uniform(1, 5))
    n = t.mesh.nelements
    rho, pattern = densities(rng, n)
    with m.case(f"state-{i}", **info, support=support, law=law, coeff=coeff, p=p, pattern=pattern):
        fem = fem_of(t, law, coeff)
        F = t.neumann_linear if isinstance(t.neumann_linear, list) else [t.neumann_linear]
        F0 = [np.array(f, copy=True) for f in F]
        rho0 = rho.copy()
        U = np.full((t.basis.N, len(F)), np.nan)
        J = np.asarray(fem.objectives_multi_load(rho, p, U), float)
        W = np.asarray(fem.energy_multi_load(rho, p, U), float)
        m.ok(J.shape == (len(F),) and W.shape == (n, len(F)), "shapes", J=J.shape, W=W.shape)
        m.equal(rho, rho0, "inputs-unchanged")
        E = ref.interp(rho, t.E, t.E * coeff, p, law)
        R = ref.Elastic(t.basis, t.nu)
        K = R.K(E)
        D = np.unique(np.asarray(t.dirichlet_dofs))
        free = np.setdiff1d(np.arange(t.basis.N), D)
        contrast = float(E.max() / E.min())
        for k, f in enumerate(F):
            m.equal(f, F0[k], "inputs-unchanged")
            u = U[:, k]
            m.close(u[D], np.zeros(D.size), "supports", atol=1e-9 * np.max(np.abs(u)) + 1e-13 * np.max(np.abs(f)), case=k)
            res = (K @ u - f)[free]
            ref_mag = np.max(np.abs(f[free])) + 1e-6 * np.max(abs(K) @ np.abs(u))
            m.close(res, np.zeros(free.size), "equilibrium", atol=1e-7 * ref_mag, case=k)
            fu = float(f[free] @ u[free])
            m.close(J[k], fu, "compliance-is-f.u", rtol=1e-9, atol=1e-300, case=k)
            loaded = np.any(f[free] != 0)
            m.ok(J[k] > 0 or not loaded, "positive", case=k, J=J[k])
            m.ok(np.all(W[:, k] >= 0), "energy-non-negative", case=k)
            m.close(2 * W[:, k].sum(), J[k], "energy-sum", rtol=1e-6, case=k)
            m.close(W[:, k], R.energies(E, u), "energy-per-element", rtol=1e-7, case=k)
            if contrast < 1e5:
                ur = R.solve(E, f, D)
                m.close(u, ur, "reference-solution", rtol=1e-6, case=k)
            m.tally("states")
        # each case alone, through the other entry points
        from sktopt.fea import solver_elastic as se
        elem = fem.density_interpolation
        for k, f in enumerate(F):
            c1, u1 = se.compute_compliance_basis(t.basis, t.free_dofs, t.dirichlet_dofs, f, t.E, t.E * coeff, p, t.nu,
                                                 rho, elem_func=elem, solver="spsolve")
            m.close(u1, U[:, k], "cases-independent", rtol=1e-8 * max(1, contrast * 1e-3), case=k)
            m.close(c1, J[k], "cases-independent", rtol=1e-8 * max(1, contrast * 1e-3), case=k)
        from sktopt.fea import solver as legacy
        U2 = np.zeros_like(U)
        J2 = legacy.compute_compliance_basis_multi_load(t.basis, t.free_dofs, t.dirichlet_dofs, F, t.E, t.E * coeff, p,
                                                        t.nu, rho, U2, solver="spsolve", elem_func=elem)
        m.close(U2, U, "wrappers-agree", rtol=1e-9 * max(1, contrast * 1e-3))
        m.close(np.asarray(J2, float), J, "wrappers-agree", rtol=1e-9 * max(1, contrast * 1e-3))
        legacy_wrappers(m, rng, t, F, (t.E, t.E * coeff, p, t.nu, rho), elem, law, K, U, J, 1e-9 * max(1, contrast * 1e-3))
        # scaling of the load
        s = float(rng.choice([-2.0, 0.5, 3.0, 1e3]))
        U3 = np.zeros_like(U)
        J3 = np.asarray(fem.objectives_multi_load(rho, p, U3, force_scale=s), float)
        tol = 1e-9 * max(1, contrast * 1e-3)
        m.close(U3, s * U, "load-scaling", rtol=tol, s=s)
        m.close(J3, s * s * J, "load-scaling", rtol=tol, s=s)
        # permuted load cases
        if len(F) > 1:
            U4 = np.zeros_like(U)
            back = t.neumann_linear
            perm = rng.permutation(len(F))
            J4 = se.compute_compliance_basis_multi_load(
                t.basis, t.free_dofs, t.dirichlet_dofs, [F[j] for j in perm], t.E, t.E * coeff, p, t.nu, rho, U4,
                solver="spsolve", elem_func=elem)
            m.close(np.asarray(J4), J[perm], "case-order", rtol=tol)
            m.close(U4, U[:, perm], "case-order", rtol=tol)
            assert t.neumann_linear is back
        # other solvers
        for sol in (["cg_jacobi", "cg_pyamg", "auto"] if len(F) == 1 else ["auto"]):
            rtol = 1e-10
            U5 = np.zeros_like(U)
            with se_warnings() as warned:
                J5 = se.compute_compliance_basis_multi_load(
                    t.basis, t.free_dofs, t.dirichlet_dofs, F, t.E, t.E * coeff, p, t.nu, rho, U5,
                    solver=sol, rtol=rtol, maxiter=20000, elem_func=elem)
            if warned:
                m.tally("iterative solver announced non-convergence")
                continue
            # residual criterion of the solver itself
            scale = max(np.linalg.norm(f[free]) for f in F)
            r5 = max(np.linalg.norm((K @ U5[:, k] - F[k])[free]) for k in range(len(F)))
            m.ok(r5 <= 1e-8 * scale + 1e-10 * np.max(abs(K) @ np.abs(U5)), "solver-residual", solver=sol, residual=r5, scale=scale)
            if contrast < 1e4:
                m.close(U5, U, "solver-agreement", rtol=1e-5, solver=sol)
                m.close(np.asarray(J5, float), J, "solver-agreement", rtol=1e-5, solver=sol)
            m.seen("solver", sol, info["kind"])
        m.seen(info["kind"], info["cells"], info["warp"], support, loads, law, pattern)
        m.sample(J=J, max_u=np.abs(U).max())


def legacy_wrappers(m, rng, t, F, rest, elem, law, K, U, J, tol):
    """The older entry points, which promise the same answers."""
    from sktopt.fea import solver as legacy, solver_elastic as se
    head = (t.basis, t.free_dofs, t.dirichlet_dofs)
    k = int(rng.integers(len(F)))
    for name in ("compute_compliance_basis", "compute_compliance_basis_numba"):
        c, u = getattr(legacy, name)(*head, F[k], *rest, elem_func=elem, solver="spsolve")
        m.close(u, U[:, k], "wrappers-agree", rtol=tol, entry=name, case=k)
        m.close(c, J[k], "wrappers-agree", rtol=tol, entry=name, case=k)
    if law == "SIMP" and t.basis.N < 900:        # (its automatic choice is direct there)
        c, u = legacy.compute_compliance_simp_basis(*head, F[k], *rest)
        m.close(u, U[:, k], "wrappers-agree", rtol=max(tol, 1e-5), entry="compute_compliance_simp_basis", case=k)
        m.close(c, J[k], "wrappers-agree", rtol=max(tol, 1e-5), entry="compute_compliance_simp_basis", case=k)
    if law != "SIMP":
        c, u = legacy.compute_compliance_basis(*head, F[k], *rest, solver="spsolve")
        from sktopt.fea import composer
        c1, u1 = se.compute_compliance_basis(*head, F[k], *rest, elem_func=composer.simp_interpolation, solver="spsolve")
        m.close(u, u1, "wrappers-agree", rtol=1e-7, entry="default law", case=k)
    if len(F) > 1:
        V = np.full_like(U, np.nan)
        legacy.solve_multi_load(*head, F, *rest, V, solver="spsolve", elem_func=elem)
        m.close(V, U, "wrappers-agree", rtol=tol, entry="solve_multi_load")
    import scipy.sparse as sp
    free = np.asarray(t.free_dofs)
    Kc, fc = sp.csc_matrix(K)[free][:, free], np.asarray(F[k])[free]
    for sol in ("spsolve", se.LinearSolverConfig(solver="spsolve")):
        x = np.asarray(legacy.solve_u(Kc.copy(), fc.copy(), chosen_solver=sol))
        m.close(x, U[free, k], "wrappers-agree", rtol=max(tol, 1e-8), entry="solve_u", case=k)


class se_warnings:
    """Catches what the solver module logs at warning level."""

    def __enter__(self):
        from sktopt.fea import solver_elastic as se
        self.got = []
        self._w, self.log = se.logger.warning, se.logger
        se.logger.warning = lambda *a, **k: self.got.append(a)
        return self.got

    def __exit__(self, *a):
        self.log.warning = self._w


def non_convergence(m, j):
    """An iterative solve stopped by its iteration limit."""
    rng = m.rng("maxiter", j)
    t, info = gen.elastic_with_room(rng, 60, loads=1, support="clamp", min_design=1)
    rho = rng.uniform(0.01, 1, t.mesh.nelements)
    from sktopt.fea import solver_elastic as se
    from sktopt.fea import composer
    F = t.neumann_linear if not isinstance(t.neumann_linear, list) else t.neumann_linear[0]
    with m.case(f"maxiter-{j}", **info):
        args = (t.basis, t.free_dofs, t.dirichlet_dofs, F, t.E, t.E * 1e-6, 3.0, t.nu, rho)
        c0, u0 = se.compute_compliance_basis(*args, elem_func=composer.simp_interpolation, solver="spsolve")
        for sol in ("cg_jacobi", "cg_pyamg"):
            with se_warnings() as warned:
                c, u = se.compute_compliance_basis(*args, elem_func=composer.simp_interpolation, solver=sol, rtol=1e-10, maxiter=2)
            good = np.max(np.abs(u - u0)) <= 1e-5 * np.max(np.abs(u0))
            m.ok(good or warned, "non-convergence-is-announced", solver=sol)
            m.finding(good, f"{sol}-maxiter", "converged-or-refused", solver=sol)
        # automatic selection must fall back to a solution
        c, u = se.compute_compliance_basis(*args, elem_func=composer.simp_interpolation, solver="auto", rtol=1e-10, maxiter=2)
        m.close(u, u0, "auto-falls-back", rtol=1e-5)
    # the same fallback with an automatic iterative choice (many unknowns)
    if j == 0:
        mesh = gen.make_mesh(rng, "hex", (8, 7, 6), True)
        t = gen.elastic_task(rng, mesh, loads=1, support="clamp")
        F = t.neumann_linear if not isinstance(t.neumann_linear, list) else t.neumann_linear[0]
        rho = rng.uniform(0.05, 1, mesh.nelements)
        with m.case("auto-large", dofs=int(t.basis.N)):
            args = (t.basis, t.free_dofs, t.dirichlet_dofs, F, t.E, t.E * 1e-4, 3.0, t.nu, rho)
            c0, u0 = se.compute_compliance_basis(*args, solver="spsolve")
            for mi in (None, 1):
                c, u = se.compute_compliance_basis(*args, solver="auto", rtol=1e-10, maxiter=mi)
                m.close(u, u0, "auto-falls-back", rtol=1e-5, maxiter=str(mi))
                m.close(c, c0, "auto-falls-back", rtol=1e-5, maxiter=str(mi))


def run(m):
    for i in range(m.pick(96, 1500)):
        if m.mine(i) and not m.out_of_time():
            one(m, m.rng("state", i), i)
    for j in range(4):
        if m.mine(j):
            non_convergence(m, j)
