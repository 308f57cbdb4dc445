"""C26: recovered stresses, von Mises values and strain energies of random
displacement fields against an independent evaluation at the same points."""
import numpy as np
import gen
import ref
from checks.c04 import densities

RULE = "distinct (mesh kind and cells, warp, quadrature order, interpolation, displacement field, density pattern) evaluations judged"
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"stress": 300, "rigid-stress-free": 30, "uniform-strain": 40, "stress-linear": 100, "von-mises": 300,
           "energy": 300, "energy-sum": 300, "energy-quadratic": 100, "rotated-frame": 60}


def local_points(basis):
    """The basis' quadrature points in the reference model's local axes."""
    X = np.asarray(basis.X)
    W = np.asarray(basis.W)
    d = np.asarray(type(basis.elem.elem)().doflocs, float)      # corners of the reference element
    axes = [int(np.argmax(np.abs(d[i + 1] - d[0]))) for i in range(3)]
    xi = [np.where(d[0][a] > 0.5, 1.0 - X[a], X[a]) for a in axes]      # measured from corner 0
    return np.stack(xi, axis=-1), W


def displacement(rng, basis):
    mesh = basis.mesh
    kind = ["random", "rigid", "affine", "smooth", "one unknown"][int(rng.integers(5))]
    x = mesh.p - mesh.p.mean(axis=1, keepdims=True)
    s = np.abs(x).max()
    if kind == "random":
        v = rng.normal(size=x.shape)
    elif kind == "rigid":
        w = rng.normal(size=3)
        v = np.cross(w, (x / s).T).T + rng.normal(size=(3, 1))
    elif kind == "affine":
        v = rng.normal(size=(3, 3)) @ (x / s) + rng.normal(size=(3, 1))
    elif kind == "smooth":
        k = rng.normal(size=(3, 3)) * 2
        v = np.sin(k @ (x / s) + rng.uniform(0, 6, (3, 1)))
    else:
        v = np.zeros_like(x)
        v[int(rng.integers(3)), int(rng.integers(x.shape[1]))] = 1.0
    u = np.zeros(basis.N)
    for a in range(3):
        u[basis.nodal_dofs[a]] = v[a]
    return u * 10 ** rng.uniform(-4, 2), kind


def reference(basis, u, E, nu):
    """Strains and stresses at the quadrature points, (3, 3, nel, nq)."""
    q = ref.Quad(basis.mesh.p, basis.mesh.t, points=local_points(basis))
    ue = np.stack([u[basis.nodal_dofs[a]][basis.mesh.t].T for a in range(3)], axis=-1)      # (nel, nn, 3)
    g = np.einsum("eqkn,ena->akeq", q.G, ue)        # du_a/dx_k
    e = 0.5 * (g + g.transpose(1, 0, 2, 3))
    la, mu = ref.lame(1.0, nu)
    s = 2 * mu * e + la * np.einsum("aaeq->eq", e)[None, None] * np.eye(3)[:, :, None, None]
    return e, s * E[None, None, :, None], q.w


def mises(s):
    m = np.einsum("aa...->...", s) / 3
    d = s - m * np.eye(3).reshape((3, 3) + (1,) * (s.ndim - 2))
    return np.sqrt(1.5 * np.einsum("ab...,ab...->...", d, d))


def one(m, i):
    from sktopt.fea import composer, solver_elastic
    rng = m.rng("field", i)
    mesh, info = gen.random_mesh(rng, m.pick(60, 200))
    order = int(rng.choice([1, 2, 2, 3, 4]))
    basis = gen.vector_basis(mesh, order)
    law = ["SIMP", "RAMP"][i % 2]
    f = composer.simp_interpolation if law == "SIMP" else composer.ramp_interpolation
    n = mesh.nelements
    E0, nu, p = float(10 ** rng.uniform(-2, 6)), float(rng.uniform(0.0, 0.45)), float(rng.uniform(1, 5))
    Emin = E0 * float(10 ** rng.uniform(-9, -1))
    rho, pattern = densities(rng, n)
    with m.case(f"field-{i}", **info, order=order, law=law, pattern=pattern, nu=nu, p=p):
        E = ref.interp(rho, E0, Emin, p, law)
        rest = (E0, Emin, p, nu)
        K = composer.assemble_stiffness_matrix(basis, rho, E0, Emin, p, nu, f)
        fields, want_e = [], []
        for _ in range(3):
            u, kind = displacement(rng, basis)
            keep = u.copy(), rho.copy()
            e, s, w = reference(basis, u, E, nu)
            size = 10 * np.abs(u).max() / np.min(np.ptp(mesh.p, axis=1)) * max(info["cells"])
            noise = 1e-11 * size * E0 / (1 - 2 * nu)
            got = np.asarray(composer.stress_tensor_skfem(basis, rho, u, *rest, elem_func=f))
            if m.ok(got.shape == s.shape, "stress", got=got.shape, want=s.shape):
                m.close(got, s, "stress", rtol=1e-9, atol=noise, field=kind)
                m.close(got, got.transpose(1, 0, 2, 3), "stress-symmetric", rtol=1e-12, atol=noise)
                if kind == "rigid":
                    m.ok(np.all(np.abs(got) <= noise), "rigid-stress-free", largest=np.abs(got).max(), noise=noise)
                if kind == "affine":
                    m.ok(np.all(np.ptp(got, axis=3) <= 1e-9 * np.abs(got).max() + noise), "uniform-strain",
                         spread=np.ptp(got, axis=3).max())
                    soft = E / E0
                    ok = soft > 1e-6 * soft.max()
                    unit = got[:, :, ok, 0] / soft[ok]
                    m.ok(np.all(np.ptp(unit, axis=2) <= 1e-8 * np.abs(unit).max() + noise / soft[ok].min()), "uniform-strain", what="elements agree")
                a, b = float(rng.normal()), float(rng.normal())
                u2, _ = displacement(rng, basis)
                s2 = np.asarray(composer.stress_tensor_skfem(basis, rho, u2, *rest, elem_func=f))
                s3 = np.asarray(composer.stress_tensor_skfem(basis, rho, a * u + b * u2, *rest, elem_func=f))
                big = abs(a) * np.abs(got).max() + abs(b) * np.abs(s2).max()
                m.close(s3, a * got + b * s2, "stress-linear", rtol=1e-10, scale=big,
                        atol=noise * (1 + abs(a) + abs(b) * np.abs(u2).max() / np.abs(u).max()))
                vm = np.asarray(composer.von_mises_from_stress_tensor(got))
                m.ok(vm.shape == got.shape[2:], "von-mises", shape=vm.shape)
                m.close(vm, mises(got), "von-mises", rtol=1e-7, scale=np.abs(got).max())
            m.ok(np.array_equal(u, keep[0]) and np.array_equal(rho, keep[1]), "arguments-unchanged")
            fields.append(u)
            we = 0.5 * np.einsum("abeq,abeq,eq->e", s, e, w)
            want_e.append(we)
            # energies, by both modules
            for mod in (composer, solver_elastic):
                g = np.asarray(mod.strain_energy_skfem(basis, rho, u, *rest, elem_func=f))
                top = max(we.max(), 0.5 * noise * size * 1e-3)
                m.close(g, we, "energy", rtol=1e-9, scale=top, atol=1e-300, field=kind, module=mod.__name__)
                m.ok(np.all(g >= 0), "energy-non-negative", least=g.min())
                tot = 0.5 * float(u @ (K @ u))
                m.close(g.sum(), tot, "energy-sum", rtol=1e-9, atol=1e-12 * float(np.abs(u) @ (abs(K) @ np.abs(u))), field=kind)
                c = float(rng.choice([-2.0, 0.5, 4.0]))
                m.close(mod.strain_energy_skfem(basis, rho, c * u, *rest, elem_func=f), c * c * g, "energy-quadratic", rtol=1e-12, scale=max(g.max(), 1e-300))
            m.seen(info["kind"], info["cells"], info["warp"], order, law, kind, pattern)
        U = np.stack(fields, axis=1)
        if rng.random() < 0.5:
            U = np.asfortranarray(U)
        for mod in (composer, solver_elastic):
            W = np.asarray(mod.strain_energy_skfem_multi(basis, rho, U, *rest, elem_func=f))
            ok = m.ok(W.shape == (n, 3), "energy-multi", shape=W.shape)
            for k in range(3 if ok else 0):
                m.close(W[:, k], mod.strain_energy_skfem(basis, rho, fields[k], *rest, elem_func=f), "energy-multi", rtol=1e-13, load=k)
        # the same state seen from a rotated frame
        R = np.linalg.qr(rng.normal(size=(3, 3)))[0]
        if np.linalg.det(R) < 0:
            R[0] *= -1
        mesh2 = type(mesh)(np.ascontiguousarray(R @ mesh.p), mesh.t)
        basis2 = gen.vector_basis(mesh2, order)
        u2 = np.zeros_like(u)
        v = R @ np.stack([u[basis.nodal_dofs[a]] for a in range(3)])
        for a in range(3):
            u2[basis2.nodal_dofs[a]] = v[a]
        s1 = np.asarray(composer.stress_tensor_skfem(basis, rho, u, *rest, elem_func=f))
        s2 = np.asarray(composer.stress_tensor_skfem(basis2, rho, u2, *rest, elem_func=f))
        m.close(s2, np.einsum("ab,bc...,dc->ad...", R, s1, R), "rotated-frame", rtol=1e-8, atol=noise)
        m.close(composer.von_mises_from_stress_tensor(s2), composer.von_mises_from_stress_tensor(s1), "rotated-frame", rtol=1e-6,
                scale=np.abs(s1).max(), atol=10 * noise, what="von Mises")
        m.close(composer.strain_energy_skfem(basis2, rho, u2, *rest, elem_func=f),
                composer.strain_energy_skfem(basis, rho, u, *rest, elem_func=f), "rotated-frame", rtol=1e-8, scale=max(want_e[-1].max(), noise * size), what="energy")


def tensors(m, i):
    """The invariant by itself, on tensors of every shape."""
    from sktopt.fea import composer
    rng = m.rng("tensor", i)
    shape = [(), (1,), (7,), (3, 4), (3, 3), (2, 5, 3)][i % 6]
    with m.case(f"tensor-{i}", shape=shape):
        a = rng.normal(size=(3, 3) + shape) * 10 ** rng.uniform(-6, 9)
        s = a + a.swapaxes(0, 1)
        s0 = s.copy()
        vm = np.asarray(composer.von_mises_from_stress_tensor(s))
        m.ok(vm.shape == shape and np.all(vm >= 0), "von-mises", shape=vm.shape)
        m.close(vm, mises(s), "von-mises", rtol=1e-12)
        m.equal(s, s0, "arguments-unchanged")
        hyd = np.eye(3).reshape((3, 3) + (1,) * len(shape)) * rng.normal(size=shape)
        m.close(composer.von_mises_from_stress_tensor(s + hyd * np.abs(s).max()), vm, "von-mises", rtol=1e-9, scale=np.abs(s).max(), what="hydrostatic part")
        m.ok(np.all(np.asarray(composer.von_mises_from_stress_tensor(hyd)) == 0), "von-mises", what="hydrostatic only")
        one_ax = np.zeros((3, 3) + shape)
        k = int(rng.integers(3))
        one_ax[k, k] = -2.5
        m.close(composer.von_mises_from_stress_tensor(one_ax), np.full(shape, 2.5), "von-mises", rtol=1e-14, what="uniaxial")
        sh = np.zeros((3, 3) + shape)
        sh[k, (k + 1) % 3] = sh[(k + 1) % 3, k] = 2.0
        m.close(composer.von_mises_from_stress_tensor(sh), np.full(shape, 2 * np.sqrt(3)), "von-mises", rtol=1e-14, what="shear")
        m.seen("tensor", shape)


def run(m):
    for i in range(m.pick(120, 4000)):
        if m.mine(i) and not m.out_of_time():
            one(m, i)
    for i in range(m.pick(48, 1200)):
        if m.mine(i) and not m.out_of_time():
            tensors(m, i)
