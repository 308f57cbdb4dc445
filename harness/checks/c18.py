"""C18: element volumes and orientation against exact formulas, symmetric
relabellings, motions and every number of threads."""
import itertools
from fractions import Fraction
import numpy as np
import skfem
import gen
import ref

NUMBA_THREADS = 8
RULE = "distinct (element type, warp, unit, transformation or relabelling, threads) meshes judged"
ASSUMPTIONS = ["elements are valid: their Jacobian does not change sign"]
TIME = {"quick": 200, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"volume": 200, "exact-volume": 20, "body-volume": 100, "scaling": 100, "motion": 100, "numbering": 100,
           "turned-positive": 100, "shape-kept": 100, "already-positive-kept": 100, "threads-agree": 200}

EDGES = [(0, 1), (0, 2), (0, 3), (1, 4), (1, 5), (2, 4), (2, 6), (3, 5), (3, 6), (4, 7), (5, 7), (6, 7)]
CORNERS = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [0, 1, 1], [1, 1, 1]])


def symmetries():
    """The 48 relabellings of a hexahedron and whether each one mirrors it."""
    out = []
    for perm in itertools.permutations(range(3)):
        par = np.linalg.det(np.eye(3)[list(perm)])
        for flips in itertools.product([0, 1], repeat=3):
            c = CORNERS[:, list(perm)] ^ np.array(flips)
            idx = [int(np.nonzero((CORNERS == r).all(axis=1))[0][0]) for r in c]
            out.append((np.array(idx), bool(par * (-1) ** sum(flips) < 0)))
    return out


SYM = symmetries()


def exact_tet(p, t):
    out = []
    for e in range(t.shape[1]):
        x = [[Fraction(float(v)) for v in p[:, n]] for n in t[:, e]]
        a, b, c = ([q - r for q, r in zip(x[k], x[0])] for k in (1, 2, 3))
        d = (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))
        out.append(abs(float(d / 6)))
    return np.array(out)


def corner_jacobians(p, t):
    """Jacobian determinant at the 8 corners in scikit-fem's numbering."""
    x = p[:, t]
    out = []
    for c in range(8):
        nb = []
        for a in range(3):
            other = CORNERS[c].copy()
            other[a] ^= 1
            n = int(np.nonzero((CORNERS == other).all(axis=1))[0][0])
            s = 1 if CORNERS[c][a] == 0 else -1
            nb.append(s * (x[:, n] - x[:, c]))
        out.append(np.einsum("ie,ie->e", nb[0], np.cross(nb[1].T, nb[2].T).T))
    return np.array(out)


def tet_signed(p, t):
    x = p[:, t]
    return np.einsum("ie,ie->e", np.cross((x[:, 1] - x[:, 0]).T, (x[:, 2] - x[:, 0]).T).T, x[:, 3] - x[:, 0]) / 6


def edges_of(t):
    """Per element, the set of its edges as pairs of nodes."""
    if t.shape[0] == 4:
        return [frozenset(int(n) for n in t[:, e]) for e in range(t.shape[1])]
    return [frozenset(frozenset((int(t[a, e]), int(t[b, e]))) for a, b in EDGES) for e in range(t.shape[1])]


def Raw(p, t):
    """A mesh with the given connectivity."""
    kind = skfem.MeshTet if t.shape[0] == 4 else skfem.MeshHex
    return kind(np.ascontiguousarray(p), np.ascontiguousarray(t))


def variants(name):
    from sktopt.fea import composer
    from sktopt.mesh import utils
    fs = {
        "tet": [getattr(composer, n, None) for n in ("_get_elements_volume_tet", "_get_elements_volume_tet_numba")],
        "hex": [getattr(composer, n, None) for n in ("_get_elements_volume_hex", "_get_elements_volume_hex_numba")],
        "fix": [getattr(utils, n, None) for n in ("fix_tetrahedron_orientation", "fix_tetrahedron_orientation_numba")],
    }
    return [f for f in fs[name] if f is not None]


def threads(rng):
    import numba
    top = numba.config.NUMBA_NUM_THREADS
    return [1, 2, top, int(rng.integers(1, top + 1))]


def measured(m, rng, mesh, kind, want, rule, rtol, **d):
    import numba
    from sktopt.fea import composer
    v = composer.get_elements_volume(mesh)
    m.close(v, want, rule, rtol=rtol, **d)
    m.ok(np.all(v > 0), "positive", smallest=float(np.min(v)))
    for f in variants(kind):
        for n in threads(rng):
            numba.set_num_threads(n)
            w = f(mesh.t, mesh.p)
            m.close(w, v, "threads-agree", rtol=1e-12, threads=n, function=f.__name__)
    numba.set_num_threads(numba.config.NUMBA_NUM_THREADS)
    return v


def vol(m, i):
    rng = m.rng("volumes", i)
    mesh, info = gen.random_mesh(rng, 120)
    kind = info["kind"]
    with m.case(f"volumes-{i}", **info):
        p, t = mesh.p, mesh.t
        p0, t0 = p.copy(), t.copy()
        want = ref.volumes(p, t)
        unit = float(10 ** rng.uniform(-6, 4))
        v = measured(m, rng, mesh, kind, want, "volume", 1e-11)
        if kind == "tet":
            m.close(v, exact_tet(p, t), "exact-volume", rtol=1e-13)
        m.close(v.sum(), np.prod(np.ptp(p, axis=1)), "body-volume", rtol=1e-10)
        m.ok(np.array_equal(mesh.p, p0) and np.array_equal(mesh.t, t0), "inputs-unchanged")
        s = unit
        m.close(measured(m, rng, Raw(p * s, t), kind, want * s ** 3, "volume", 1e-10), v * s ** 3, "scaling", rtol=1e-11, factor=s)
        q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        if np.linalg.det(q) < 0:
            q[:, 0] *= -1
        shift = rng.uniform(-1, 1, 3) * np.max(np.ptp(p, axis=1)) * 3
        moved = Raw(q @ p + shift[:, None], t)
        m.close(measured(m, rng, moved, kind, want, "volume", 1e-9), v, "motion", rtol=1e-9)
        perm, ep = rng.permutation(p.shape[1]), rng.permutation(t.shape[1])
        inv = np.argsort(perm)
        w = measured(m, rng, Raw(p[:, perm], inv[t][:, ep]), kind, want[ep], "volume", 1e-11)
        m.close(w, v[ep], "numbering", rtol=1e-13)
        if kind == "hex":
            k = rng.integers(48, size=t.shape[1])
            t2 = np.column_stack([t[SYM[j][0], e] for e, j in enumerate(k)])
            w = measured(m, rng, Raw(p, t2), kind, want, "volume", 1e-11)
            m.close(w, v, "numbering", rtol=1e-11)
        else:
            k = rng.integers(24, size=t.shape[1])
            P = list(itertools.permutations(range(4)))
            t2 = np.column_stack([t[list(P[j]), e] for e, j in enumerate(k)])
            bad = tet_signed(p, t2) < 0
            s = float(10 ** rng.uniform(-6, 3))
            M = Raw(p * s, t2)
            if np.array_equal(M.t, t2):
                refused(m, M, np.any(bad), want * s ** 3)
            t2[:2, bad] = t2[1::-1, bad]
            M = Raw(p, t2)
            m.close(measured(m, rng, M, kind, want, "volume", 1e-11), v, "numbering", rtol=1e-12)
        # a task reports the same
        if i % 4 == 0:
            try:
                task = gen.heat_task(rng, mesh)
                m.close(task.elements_volume, v, "volume", rtol=1e-13, what="task")
            except ValueError:
                pass
        m.seen(kind, info["warp"], info["uniform"], info["cells"], round(np.log10(unit)))
        m.sample(volumes=v[:3], body=float(v.sum()))


def refused(m, mesh, inverted, want):
    """A wrongly oriented tetrahedron never yields a wrong volume quietly."""
    from sktopt.fea import composer
    try:
        v = composer.get_elements_volume(mesh)
    except ValueError:
        m.ok(inverted, "inverted-never-wrong", what="valid mesh refused")
        return
    m.close(v, want, "inverted-never-wrong", rtol=1e-10)


def orient(m, i):
    import numba
    from sktopt.mesh import utils
    rng = m.rng("orient", i)
    mesh, info = gen.random_mesh(rng, 90)
    unit = float(10 ** rng.uniform(-7, 4)) if i % 2 else 1.0
    kind, p, t = info["kind"], mesh.p * unit, np.array(mesh.t)
    n = t.shape[1]
    with m.case(f"orient-{i}", unit=unit, **info):
        if kind == "hex":
            k = rng.integers(48, size=n)
            if i % 3 == 0:
                k = np.array([[j for j in range(48) if not SYM[j][1]][int(rng.integers(24))] for _ in range(n)])
            t2 = np.column_stack([t[SYM[j][0], e] for e, j in enumerate(k)])
            sign = lambda T: np.where(np.all(corner_jacobians(p, T) < 0, axis=0), 1, np.where(np.all(corner_jacobians(p, T) > 0, axis=0), -1, 0))  # noqa: E731
        else:
            P = list(itertools.permutations(range(4)))
            k = rng.integers(24, size=n)
            t2 = np.column_stack([t[list(P[j]), e] for e, j in enumerate(k)])
            if i % 3 == 0:
                b = tet_signed(p, t2) < 0
                t2[:2, b] = t2[1::-1, b]
            sign = lambda T: np.sign(tet_signed(p, T)).astype(int)  # noqa: E731
        t2 = np.ascontiguousarray(t2)
        s0 = sign(t2)
        if not np.all(s0 != 0):
            m.tally("meshes with a folded element, skipped")
            return
        cases = [("dispatch", lambda: utils.fix_elements_orientation(Raw(p, t2)))]
        if kind == "hex":
            cases.append(("fix_hexahedron_orientation", lambda: utils.fix_hexahedron_orientation(t2, p)))
        else:
            for f in variants("fix"):
                cases.append((f.__name__, lambda f=f: f(t2, p)))
        for name, f in cases:
            src = Raw(p, t2).t if name == "dispatch" else t2
            ss = sign(np.array(src))
            for th in threads(rng) if "numba" in name else [1]:
                numba.set_num_threads(th)
                keep = t2.copy()
                out = np.array(f())
                m.ok(np.array_equal(keep, t2), "inputs-unchanged", function=name)
                m.ok(out.shape == t2.shape and np.all(sign(out) == 1), "turned-positive", function=name, threads=th,
                     wrong=int(np.sum(sign(out) != 1)), of=n)
                m.ok(edges_of(out) == edges_of(src), "shape-kept", function=name, threads=th)
                m.ok(np.array_equal(out[:, ss == 1], np.array(src)[:, ss == 1]), "already-positive-kept", function=name, threads=th)
                m.close(ref.volumes(p, out), ref.volumes(p, t), "shape-kept", rtol=1e-11, function=name)
            numba.set_num_threads(numba.config.NUMBA_NUM_THREADS)
        m.seen("orient", kind, info["cells"], info["warp"], int(np.sum(s0 < 0)) > 0)
        m.sample(mirrored=int(np.sum(s0 < 0)), of=n)


def boxes(m, i):
    from sktopt.mesh import toy_problem
    from sktopt.fea import composer
    rng = m.rng("box", i)
    L = rng.uniform(0.3, 4, 3)
    h = float(rng.uniform(0.35, 0.9) * L.max())
    with m.case(f"box-{i}", lengths=L, size=h):
        for kind, f in (("hex", toy_problem.create_box_hex), ("tet", toy_problem.create_box_tet)):
            mesh = f(*[float(x) for x in L], h)
            v = composer.get_elements_volume(mesh)
            m.ok(np.all(v > 0), "positive")
            m.close(v.sum(), np.prod(L), "body-volume", rtol=1e-11)
            m.close(np.ptp(mesh.p, axis=1), L, "box-extent", rtol=1e-12)
            if kind == "hex":
                m.ok(np.all(corner_jacobians(mesh.p, mesh.t) < 0), "turned-positive", what="box")
                m.close(v, np.full(len(v), np.prod(L / np.ceil(L / h))), "volume", rtol=1e-10, what="box cells")
            else:
                m.ok(np.all(tet_signed(mesh.p, mesh.t) > 0), "turned-positive", what="box")
            m.seen("box", kind, mesh.nelements)


def run(m):
    for i in range(m.pick(160, 4000)):
        if m.mine(i) and not m.out_of_time():
            vol(m, i)
    for i in range(m.pick(160, 4000)):
        if m.mine(i) and not m.out_of_time():
            orient(m, i)
    for i in range(m.pick(24, 300)):
        if m.mine(i) and not m.out_of_time():
            boxes(m, i)
