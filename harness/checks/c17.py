"""C17: applied load vectors and film terms against surface integrals done
facet by facet."""
import numpy as np
import gen
from sktopt.mesh import LinearElasticity, LinearHeatConduction
from sktopt.mesh.task_elastic import assemble_surface_forces
from sktopt.mesh.task_heat import assemble_surface_neumann
from checks.c16 import random_facets, random_design, nodes_of

RULE = "distinct (element type, warp, regions, directions, shape of arguments) loaded or cooled problems judged"
ASSUMPTIONS = ["loaded facets lie in planes"]
TIME = {"quick": 200, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"nodal-forces": 250, "resultant": 250, "moment": 250, "film-matrix": 100, "film-load": 100, "load-case-order": 100, "surface-flux": 100}

G = np.array([-np.sqrt(0.6), 0.0, np.sqrt(0.6)])
W = np.array([5, 8, 5]) / 9.0


def cyclic(mesh, f):
    """Nodes of a facet in cyclic order (own computation for quadrilaterals)."""
    n = np.array(mesh.facets[:, f])
    if len(n) == 3:
        return n
    x = mesh.p[:, n].T
    c = x.mean(axis=0)
    u = x[0] - c
    best = None
    for k in range(1, 4):
        nn = np.cross(u, x[k] - c)
        if best is None or np.linalg.norm(nn) > np.linalg.norm(best):
            best = nn
    v = np.cross(best, u)
    ang = np.arctan2((x - c) @ v / np.linalg.norm(v), (x - c) @ u / np.linalg.norm(u))
    return n[np.argsort(ang)]


def facet_integrals(mesh, f):
    """(nodes, area, int N_i, int N_i N_j, int N_i x)"""
    n = cyclic(mesh, f)
    x = mesh.p[:, n].T
    if len(n) == 3:
        A = np.linalg.norm(np.cross(x[1] - x[0], x[2] - x[0])) / 2
        M = A / 12 * (np.ones((3, 3)) + np.eye(3))
        return n, A, np.full(3, A / 3), M
    A, b, M = 0.0, np.zeros(4), np.zeros((4, 4))
    s, t = np.array([-1, 1, 1, -1]), np.array([-1, -1, 1, 1])
    for i, gi in enumerate(G):
        for j, gj in enumerate(G):
            N = (1 + s * gi) * (1 + t * gj) / 4
            ds = (s * (1 + t * gj)) @ x / 4
            dt = (t * (1 + s * gi)) @ x / 4
            w = W[i] * W[j] * np.linalg.norm(np.cross(ds, dt))
            A += w
            b += w * N
            M += w * np.outer(N, N)
    return n, A, b, M


def surface(mesh, facets):
    nv = mesh.nvertices
    A, b, M = 0.0, np.zeros(nv), np.zeros((nv, nv))
    for f in np.ravel(facets):
        n, a, bi, Mi = facet_integrals(mesh, int(f))
        A += a
        b[n] += bi
        M[np.ix_(n, n)] += Mi
    return A, b, M


def distinct(f):
    return np.unique(np.ravel(f))


def judge_force(m, basis, F, facets, d, val, what):
    mesh = basis.mesh
    A, b, _ = surface(mesh, facets)
    c = int(d[2]) - 1
    want = np.zeros(basis.N)
    want[basis.nodal_dofs[c]] = val * b / A
    m.close(F, want, "nodal-forces", rtol=1e-10, scale=abs(val), what=what)
    m.close(F.sum(), val, "resultant", rtol=1e-10, scale=abs(val), what=what)
    other = np.delete(np.arange(3), c)
    eps = 1e-12 * abs(val)
    m.ok(np.all(np.abs(F[basis.nodal_dofs[other]]) <= eps), "only-its-direction", what=what)
    out = np.setdiff1d(np.arange(mesh.nvertices), nodes_of(mesh, np.ravel(facets)))
    m.ok(np.all(np.abs(F[basis.nodal_dofs[:, out]]) <= eps), "only-its-surface", what=what)
    # moment about the origin against the uniform traction's
    f = np.zeros((3, mesh.nvertices))
    for k in range(3):
        f[k] = F[basis.nodal_dofs[k]]
    e = np.zeros(3)
    e[c] = val / A
    xc = np.zeros(3)
    for g in np.ravel(facets):
        n, a, bi, _ = facet_integrals(mesh, int(g))
        xc += mesh.p[:, n] @ bi
    m.close(np.cross(mesh.p.T, f.T).sum(axis=0), np.cross(xc, e), "moment", rtol=1e-9,
            scale=abs(val) * np.max(np.abs(mesh.p)), what=what)


def elastic(m, i):
    rng = m.rng("elastic", i)
    mesh, info = gen.random_mesh(rng, 60)
    basis = gen.vector_basis(mesh, intorder=int(rng.choice([2, 3, 4])))
    n = int(rng.choice([1, 1, 2, 3, 4, 12]))
    loads = [distinct(random_facets(rng, mesh)) for _ in range(n)]
    dirs = [f"u^{int(rng.integers(1, 4))}" for _ in range(n)]
    vals = [float(rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 6)) for _ in range(n)]
    if rng.random() < 0.15:
        vals[0] = 0.0
    if rng.random() < 0.2:
        vals[-1] = int(rng.integers(1, 9))
    lists = n > 1 or rng.random() < 0.5
    a = (loads, dirs, vals) if lists else (loads[0], dirs[0], vals[0])
    with m.case(f"elastic-{i}", regions=n, lists=bool(lists), **info):
        direct = assemble_surface_forces(basis, *a)
        m.ok(isinstance(direct, list) == (n > 1), "load-case-order", what="shape")
        direct = direct if isinstance(direct, list) else [direct]
        m.ok(len(direct) == n, "load-case-order", got=len(direct), want=n)
        for k in range(n):
            judge_force(m, basis, direct[k], loads[k], dirs[k], vals[k], f"direct {k}")
        try:
            t = LinearElasticity.from_facets(basis, gen.face(mesh, 0, 0), "all", *a, np.arange(mesh.nelements), 1.0, 0.3)
        except ValueError:      # every element touches the load
            t = None
        if t is not None:
            m.ok(t.n_tasks == n, "load-case-order", got=t.n_tasks)
            F = t.neumann_linear
            for k in range(n):
                judge_force(m, t.basis, F[k], loads[k], dirs[k], vals[k], f"task {k}")
            f = t.force
            m.ok(np.array_equal(f, F[0]) if n == 1 else all(np.array_equal(x, y) for x, y in zip(f, F)), "load-case-order", what="force")
            new = [np.array(x) * 2 for x in F]
            t.force = new if n > 1 else new[0]
            m.ok(t.n_tasks == n and all(np.array_equal(x, y) for x, y in zip(t.neumann_linear, new)), "load-case-order", what="assigned force")
        if t is not None and rng.random() < 0.4:
            b = {f"neumann_{k}": f for k, f in zip(gen.region_numbers(rng, n), loads)} if n > 1 or rng.random() < 0.5 else {"neumann": loads[0]}
            items = [("dirichlet", gen.face(mesh, 0, 0))] + list(b.items())
            items = [items[k] for k in rng.permutation(len(items))]
            mesh2 = mesh.with_boundaries(dict(items)).with_subdomains({"design": np.arange(mesh.nelements)})
            t = LinearElasticity.from_mesh_tags(gen.vector_basis(mesh2), "all", dirs, vals, 1.0, 0.3)
            for k in range(n):
                judge_force(m, t.basis, t.neumann_linear[k], loads[k], dirs[k], vals[k], f"tags {k}")
        m.seen("elastic", info["kind"], info["warp"], n, dirs, bool(lists))
        m.sample(resultants=[float(x.sum()) for x in direct], requested=vals)


def heat(m, i):
    rng = m.rng("heat", i)
    mesh, info = gen.random_mesh(rng, 60)
    basis = gen.scalar_basis(mesh, intorder=int(rng.choice([2, 3])))
    n = int(rng.choice([1, 1, 2, 3]))
    robs = [distinct(random_facets(rng, mesh)) for _ in range(n)]
    h = [float(10 ** rng.uniform(-3, 3)) for _ in range(n)]
    te = [float(rng.uniform(-50, 400)) for _ in range(n)]
    if rng.random() < 0.2:
        te[0] = 0.0
    form = int(rng.integers(3))
    if form == 0 and n == 1:
        a = (robs[0], h[0], te[0])
    elif form == 1:            # one value for all regions
        h, te = [h[0]] * n, [te[0]] * n
        a = (robs, h[0], te[0])
    else:
        a = (robs, h, te)
    with m.case(f"heat-{i}", regions=n, form=form, **info):
        t = LinearHeatConduction.from_facets(basis, [gen.face(mesh, 0, 0)], 10.0, *a, None, np.arange(mesh.nelements), 3.0)
        def look(what):
            m.ok(len(t.robin_bilinear) == len(t.robin_linear) == n, "load-case-order", what=what)
            for k in range(n):
                A, b, M = surface(mesh, robs[k])
                d = basis.nodal_dofs[0]
                m.close(t.robin_bilinear[k].toarray()[np.ix_(d, d)], h[k] * M, "film-matrix", rtol=1e-10, region=k, what=what)
                m.close(t.robin_linear[k][d], h[k] * te[k] * b, "film-load", rtol=1e-10, atol=1e-300, region=k, what=what)
        look("as built")
        # surface fluxes: one vector per region, the integral of the flux
        flux = [float(rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 4)) for _ in range(n)]
        if n > 1 or rng.random() < 0.5:
            got = assemble_surface_neumann(basis, robs, flux)
        else:
            got = assemble_surface_neumann(basis, robs[0], flux[0])
        got = got if isinstance(got, list) else [got]
        m.ok(len(got) == n, "load-case-order", what="fluxes", got=len(got))
        for k in range(min(n, len(got))):
            A, b, _ = surface(mesh, robs[k])
            m.close(np.asarray(got[k])[basis.nodal_dofs[0]], flux[k] * b, "surface-flux", rtol=1e-10, region=k)
        if form == 2 and rng.random() < 0.6:
            items = [("dirichlet", gen.face(mesh, 0, 0))] + [(f"robin_{k}", f) for k, f in zip(gen.region_numbers(rng, n), robs)]
            items = [items[k] for k in rng.permutation(len(items))]
            mesh2 = mesh.with_boundaries(dict(items)).with_subdomains({"design": np.arange(mesh.nelements)})
            t = LinearHeatConduction.from_mesh_tags(gen.scalar_basis(mesh2), 10.0, h, te, None, 3.0)
            look("tags")
        m.seen("heat", info["kind"], info["warp"], n, form)
        m.sample(film=h, ambient=te)


def run(m):
    for i in range(m.pick(240, 8000)):
        if m.mine(i) and not m.out_of_time():
            elastic(m, i)
    for i in range(m.pick(160, 5000)):
        if m.mine(i) and not m.out_of_time():
            heat(m, i)
