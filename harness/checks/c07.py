"""C07: inner products and transposes of the filters' forward and backward
maps, observed on the maps themselves."""
import numpy as np
import gen
import ref
from checks.c06 import some_mask, volumes_of

RULE = "distinct (filter, mesh kind and cells, warp, mask, radius class) whose backward map was judged"
ASSUMPTIONS = ["gradient is called after a forward call with the radius in force, as the optimizers do"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"inner-products-agree": 500, "outside-design-zero": 60, "transpose-of-forward": 60, "helmholtz-backward": 150}


def spatial(m, rng, i):
    from sktopt.filters import SpacialFilter
    mesh, info = gen.random_mesh(rng, m.pick(120, 400))
    n = mesh.nelements
    h = gen.edge_length(mesh)
    mask, mname = some_mask(rng, n)
    sel = np.ones(n, bool) if mask is None else mask
    with m.case(f"spatial-{i}", **info, mask=mname):
        f = SpacialFilter.from_defaults(mesh, volumes_of(mesh), h * 1.3, mask)
        for step in range(4):
            r = h * float(rng.choice([0.3, 1.0, 1.7, 2.6, 4.0]) * rng.uniform(0.95, 1.05))
            f.update_radius(r)
            for _ in range(4):
                u, v = rng.normal(size=n), rng.normal(size=n)
                if rng.random() < 0.3:
                    v = np.abs(v)
                u[~sel] = 0.0
                v0 = v.copy()
                Fu = f.forward(u)
                Gv = np.asarray(f.gradient(v))
                m.equal(v, v0, "input-unchanged")
                sc = np.abs(v).sum() * np.abs(u).max() + 1e-300
                m.close(Gv[sel] @ u[sel], v[sel] @ Fu[sel], "inner-products-agree", atol=1e-12 * sc, radius=r)
                if mask is not None:
                    m.equal(Gv[~sel], np.zeros((~sel).sum()), "outside-design-zero")
            if n <= 60 or step == 0:
                ids = np.nonzero(sel)[0]
                F = np.zeros((ids.size, ids.size))
                G = np.zeros((ids.size, ids.size))
                for a, e in enumerate(ids[:60]):
                    x = np.zeros(n)
                    x[e] = 1.0
                    F[:, a] = f.forward(x)[ids]
                    G[a, :] = f.gradient(x)[ids]
                k = min(60, ids.size)
                m.close(G[:k, :k], F[:k, :k], "transpose-of-forward", rtol=1e-12, scale=1.0)
                # the other radius' matrix must not linger
                W, _, tie = ref.gaussian_matrix(mesh, r, mask)
                if not tie:
                    v = rng.normal(size=n)
                    m.close(f.gradient(v)[ids], W.T @ v[ids], "transpose-of-reference", rtol=1e-11, scale=np.abs(v).sum())
            m.seen("spatial", info["kind"], info["cells"], info["warp"], mname, round(r / h, 1))


def helmholtz(m, rng, i):
    from sktopt.filters import HelmholtzFilterNodal
    mesh, info = gen.random_mesh(rng, m.pick(90, 250))
    n = mesh.nelements
    h = gen.edge_length(mesh)
    mask, mname = some_mask(rng, n)
    sel = np.ones(n, bool) if mask is None else mask
    warped = info["kind"] == "hex" and info["warp"]
    tol = 1e-4 if warped else 1e-9
    with m.case(f"helmholtz-{i}", **info, mask=mname):
        f = HelmholtzFilterNodal.from_defaults(mesh, volumes_of(mesh), h, mask)
        for step in range(4):
            r = h * float(rng.uniform(0.2, 4))
            f.update_radius(r)
            H = ref.Helmholtz(mesh, r, mask)
            positive = step == 3
            v = rng.normal(size=n) if positive else -np.abs(rng.normal(size=n))
            v0 = v.copy()
            g = np.asarray(f.gradient(v))
            m.equal(v, v0, "input-unchanged")
            sc = np.abs(v).max()
            exact = H.adjoint(np.where(sel, v, 0.0) if mask is not None else v)
            right = np.max(np.abs((g - exact)[sel])) <= tol * sc
            shipped = np.max(np.abs(g - H.shipped_gradient(v))) <= tol * sc
            key = ("helmholtz-sign-clamp" if positive else
                   "helmholtz-masked" if mask is not None and not mask.all() else "helmholtz-unmasked")
            if right or not shipped:
                m.ok(right, "helmholtz-backward", radius=r, err=np.max(np.abs(g - exact)[sel]),
                     err_shipped=np.max(np.abs(g - H.shipped_gradient(v))), positive=positive)
            else:
                m.finding(False, key, "helmholtz-backward", radius=r)
            m.seen("helmholtz", info["kind"], info["cells"], info["warp"], mname, round(r / h, 1), positive)


def run(m):
    for i in range(m.pick(64, 1000)):
        if m.mine(i) and not m.out_of_time():
            spatial(m, m.rng("spatial", i), i)
    for i in range(m.pick(64, 800)):
        if m.mine(i) and not m.out_of_time():
            helmholtz(m, m.rng("helm", i), i)
