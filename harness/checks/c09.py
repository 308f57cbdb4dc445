"""C09: interpolation laws, their derivatives, and assembled matrices."""
import numpy as np
import gen
import ref

RULE = "distinct (law, penalty, stiffness ratio, mesh) evaluations and matrices judged"
ASSUMPTIONS = ["penalty >= 1 for SIMP, >= 0 for RAMP; full stiffness >= 1; derivatives judged at densities >= 1e-6 (below, only that they stay finite and non-negative)"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"end-points": 300, "monotone": 300, "penalty-lowers": 300, "derivative": 300, "compliance-derivative": 300,
           "variants-agree": 300, "symmetric": 60, "positive-semidefinite": 40, "null-space": 40, "sum-of-elements": 60}


def law(m, i):
    from sktopt.fea import composer as C
    from sktopt.core import derivatives as D
    rng = m.rng("law", i)
    E0 = float(10 ** rng.uniform(0, 11))
    Emin = E0 * float(10 ** rng.uniform(-9, -0.5))
    p = float(rng.choice([1.0, 3.0, rng.uniform(1, 8), rng.uniform(1, 3)]))
    rho = rng.uniform(0, 1, 60)
    rho[:3] = [0.0, 1.0, 1e-3]
    for name, f, dE, dC in (("SIMP", C.simp_interpolation, D.dE_drho_simp, D.dC_drho_simp),
                            ("RAMP", C.ramp_interpolation, D.dE_drho_ramp, D.dC_drho_ramp)):
        with m.case(f"{name}-{i}", E0=E0, Emin=Emin, p=p):
            r0 = rho.copy()
            E = f(rho, E0, Emin, p)
            m.equal(rho, r0, "input-unchanged")
            m.close(E, ref.interp(rho, E0, Emin, p, name), "value", rtol=1e-12)
            m.close(f(np.array([0.0, 1.0]), E0, Emin, p), [Emin, E0], "end-points", rtol=1e-13)
            o = np.sort(rho)
            m.ok(np.all(np.diff(f(o, E0, Emin, p)) >= -1e-12 * E0), "monotone")
            p2 = p + float(rng.uniform(0.1, 3))
            m.ok(np.all(f(rho, E0, Emin, p2) <= E + 1e-12 * E0), "penalty-lowers", p2=p2)
            alias = {"SIMP": C.simp_interpolation_numba, "RAMP": C.ramp_interpolation_numba}[name]
            m.close(alias(rho, E0, Emin, p), E, "variants-agree", rtol=1e-14)
            x = np.maximum(rho, 1e-6)
            d = dE(rho, E0, Emin, p)
            m.equal(rho, r0, "input-unchanged")
            m.ok(np.all(np.isfinite(d)) and np.all(d >= 0), "derivative-finite")
            real = rho >= 1e-6
            m.close(d[real], ref.dinterp(x, E0, Emin, p, name)[real], "derivative", rtol=1e-11)
            h = 1e-6
            y = rho[(rho > 0.01) & (rho < 0.99)]
            fd = (f(y + h, E0, Emin, p) - f(y - h, E0, Emin, p)) / (2 * h)
            m.close(dE(y, E0, Emin, p), fd, "derivative", rtol=1e-7, atol=1e-9 * E0 / h * 1e-6)
            U = 10 ** rng.uniform(-3, 3, rho.size)
            U0 = U.copy()
            c = dC(rho, U, E0, Emin, p)
            m.equal(U, U0, "input-unchanged")
            want = -2 * U * ref.dinterp(x, E0, Emin, p, name) / ref.interp(rho, E0, Emin, p, name)
            m.close(c[real] / want[real], np.ones(real.sum()), "compliance-derivative", rtol=1e-9)
            m.ok(np.all(c <= 0) and np.all(np.isfinite(c)), "compliance-derivative-sign")
            if name == "RAMP":
                out = np.full_like(rho, np.nan)
                D.dE_drho_ramp_inplace(rho, out, E0, Emin, p)
                m.close(out, d, "variants-agree", rtol=1e-12)
                D.dC_drho_ramp_inplace(rho, U, out, E0, Emin, p)
                m.close(out, c, "variants-agree", rtol=1e-12)
                m.equal(rho, r0, "input-unchanged")
                m.equal(U, U0, "input-unchanged")
            m.seen(name, round(p, 2), round(np.log10(Emin / E0), 1))


def matrix(m, i):
    from sktopt.fea import composer as C
    rng = m.rng("matrix", i)
    mesh, info = gen.random_mesh(rng, m.pick(36, 80))
    n = mesh.nelements
    name = ["SIMP", "RAMP"][i % 2]
    f = {"SIMP": C.simp_interpolation, "RAMP": C.ramp_interpolation}[name]
    E0, p, nu = float(10 ** rng.uniform(0, 6)), float(rng.uniform(1, 5)), float(rng.uniform(0, 0.45))
    Emin = E0 * float(10 ** rng.uniform(-3, -1))
    rho = rng.uniform(0, 1, n)
    rho[rng.random(n) < 0.2] = 0.0
    with m.case(f"matrix-{i}", **info, law=name, p=p, nu=nu, ratio=Emin / E0):
        r0 = rho.copy()
        E = ref.interp(rho, E0, Emin, p, name)
        vb, sb = gen.vector_basis(mesh), gen.scalar_basis(mesh)
        K = C.assemble_stiffness_matrix(vb, rho, E0, Emin, p, nu, elem_func=f)
        w = {"SIMP": C.assemble_stiffness_matrix_simp, "RAMP": C.assemble_stiffness_matrix_ramp}[name]
        m.close(w(vb, rho, E0, Emin, p, nu).toarray(), K.toarray(), "wrappers-agree", rtol=1e-13)
        Q = C.assemble_conduction_matrix(sb, rho, E0, Emin, p, elem_func=f)
        m.equal(rho, r0, "input-unchanged")
        X = mesh.p
        rigid = np.zeros((vb.N, 6))
        for c in range(3):
            rigid[vb.nodal_dofs[c], c] = 1.0
            a, b = [(1, 2), (2, 0), (0, 1)][c]
            rigid[vb.nodal_dofs[b], 3 + c] = X[a]
            rigid[vb.nodal_dofs[a], 3 + c] = -X[b]
        Kr = ref.Elastic(vb, nu).K(E)
        Qr = ref.assemble(ref.scalar_dofs(sb), ref.laplace_elements(mesh, ref.quad_points(sb)), sb.N, E)
        for what, A, R, null in (("elastic", K, Kr, rigid), ("heat", Q, Qr, np.ones((sb.N, 1)))):
            A = A.toarray()
            s = np.abs(A).max()
            m.close(A, A.T, "symmetric", rtol=1e-12, physics=what)
            m.close(A, R.toarray(), "sum-of-elements", rtol=1e-10, physics=what)
            m.close(A @ null, np.zeros(null.shape), "null-space", atol=1e-10 * s * np.abs(null).max() * np.sqrt(A.shape[0]), physics=what)
            if A.shape[0] <= 450:
                ev = np.linalg.eigvalsh(A)
                m.ok(ev[0] >= -1e-10 * ev[-1], "positive-semidefinite", physics=what, least=ev[0], most=ev[-1])
                Ka = np.linalg.eigvalsh((R if what == "heat" else R).toarray())
                m.ok(np.sum(ev < 1e-9 * ev[-1]) == null.shape[1] or np.sum(Ka < 1e-9 * Ka[-1]) != null.shape[1],
                     "null-space-is-only-that", physics=what, small=ev[:8], most=ev[-1])
        m.seen("matrix", name, info["kind"], info["cells"], info["warp"])
        m.sample(E=[E.min(), E.max()])


def run(m):
    for i in range(m.pick(400, 20000)):
        if m.mine(i) and not m.out_of_time():
            law(m, i)
    for i in range(m.pick(80, 1500)):
        if m.mine(i) and not m.out_of_time():
            matrix(m, i)
