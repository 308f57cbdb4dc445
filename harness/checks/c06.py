"""C06: filtered fields observed over histories of calls and radius changes,
against dense independent references and the averaging laws."""
import numpy as np
import gen
import ref

RULE = "distinct (filter, mesh kind and cells, warp, mask, radius class, field) filtered fields judged"
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"spatial-is-gaussian-average": 150, "helmholtz-is-pde-solution": 75, "stays-in-range": 150, "keeps-constants": 200,
           "linear": 200, "input-unchanged": 250, "radius-change-equals-fresh": 200, "outside-design-untouched": 150}


def field(rng, n):
    k = int(rng.integers(6))
    if k == 0:
        return rng.uniform(0, 1, n), "random"
    if k == 1:
        return rng.choice([0.0, 1.0], n), "binary"
    if k == 2:
        x = np.zeros(n)
        x[rng.integers(n)] = 1.0
        return x, "one element"
    if k == 3:
        return rng.normal(0, 5, n), "signed"
    if k == 4:
        return np.full(n, float(rng.uniform(0, 1))), "constant"
    return np.linspace(0, 1, n), "ramp"


def some_mask(rng, n):
    k = int(rng.integers(4))
    if k == 0:
        return None, "none"
    if k == 1:
        return np.ones(n, bool), "all"
    mask = rng.random(n) < (0.75 if k == 2 else 0.3)
    mask[rng.integers(n)] = True
    return mask, "most" if k == 2 else "few"


def volumes_of(mesh):
    from sktopt.fea import composer
    return np.asarray(composer.get_elements_volume(mesh), float)


def spatial(m, rng, i):
    from sktopt.filters import SpacialFilter
    mesh, info = gen.random_mesh(rng, m.pick(140, 400))
    n = mesh.nelements
    h = gen.edge_length(mesh)
    mask, mname = some_mask(rng, n)
    with m.case(f"spatial-{i}", **info, mask=mname):
        r0 = h * float(rng.uniform(0.2, 4))
        f = SpacialFilter.from_defaults(mesh, volumes_of(mesh), r0, mask)
        p0, t0 = mesh.p.copy(), mesh.t.copy()
        mb = None if mask is None else mask.copy()
        sel = np.ones(n, bool) if mask is None else mask
        r = r0
        for step in range(6):
            if step and rng.random() < 0.6:
                r = h * float(rng.choice([0.2, 0.7, 1.01, 1.6, 2.5, 4.0]) * rng.uniform(0.95, 1.05))
                f.update_radius(r)
            W, _, tie = ref.gaussian_matrix(mesh, r, mask)
            x, name = field(rng, n)
            x0 = x.copy()
            y = np.asarray(f.forward(x))
            m.equal(x, x0, "input-unchanged")
            m.ok(y.shape == x.shape, "shape")
            m.ok(not np.shares_memory(x, y), "output-is-new")
            if not tie:
                want = x.copy()
                want[sel] = W @ x[sel]
                m.close(y, want, "spatial-is-gaussian-average", rtol=1e-11, scale=np.abs(x).max() + 1e-300, radius=r)
            m.equal(y[~sel], x[~sel], "outside-design-untouched")
            lo, hi = x[sel].min(), x[sel].max()
            eps = 1e-13 * max(abs(lo), abs(hi), 1)
            m.ok(y[sel].min() >= lo - eps and y[sel].max() <= hi + eps, "stays-in-range", radius=r)
            c = float(rng.normal())
            m.close(f.forward(np.full(n, c)), np.full(n, c), "keeps-constants", rtol=1e-12)
            z, _ = field(rng, n)
            a, b = rng.normal(size=2)
            m.close(f.forward(a * x + b * z), a * y + b * f.forward(z), "linear", rtol=1e-11,
                    scale=abs(a) * np.abs(x).max() + abs(b) * np.abs(z).max() + 1e-300)
            fresh = SpacialFilter.from_defaults(mesh, volumes_of(mesh), r, mask)
            m.close(f.forward(x), fresh.forward(x), "radius-change-equals-fresh", rtol=1e-12, scale=np.abs(x).max() + 1e-300)
            # design elements outside the support have no influence
            if mask is not None and not mask.all():
                x2 = x.copy()
                x2[~sel] += 10.0
                m.close(f.forward(x2)[sel], y[sel], "design-ignores-the-rest", rtol=1e-12, scale=np.abs(x).max() + 1e-300)
            if r < 0.99 * min_distance(mesh):
                m.close(y, x, "small-radius-is-identity", rtol=1e-12)
            m.seen("spatial", info["kind"], info["cells"], info["warp"], mname, round(r / h, 1), name)
        m.equal(mesh.p, p0, "mesh-unchanged")
        m.equal(mesh.t, t0, "mesh-unchanged")
        if mask is not None:
            m.equal(f.design_mask, mb, "mask-unchanged")
        m.sample(radius_over_edge=r / h)


def min_distance(mesh):
    c = mesh.p[:, mesh.t].mean(axis=1)
    d = np.sqrt(((c[:, :, None] - c[:, None, :]) ** 2).sum(axis=0))
    np.fill_diagonal(d, np.inf)
    return d.min()


def helmholtz(m, rng, i):
    from sktopt.filters import HelmholtzFilterNodal
    mesh, info = gen.random_mesh(rng, m.pick(90, 250))
    n = mesh.nelements
    h = gen.edge_length(mesh)
    mask, mname = some_mask(rng, n)
    vol = volumes_of(mesh)
    tol = 1e-4 if info["kind"] == "hex" and info["warp"] else 1e-9
    with m.case(f"helmholtz-{i}", **info, mask=mname):
        r = h * float(rng.uniform(0.2, 4))
        f = HelmholtzFilterNodal.from_defaults(mesh, vol, r, mask)
        sel = np.ones(n, bool) if mask is None else mask
        for step in range(4):
            if step and rng.random() < 0.6:
                r = h * float(rng.uniform(0.1, 5))
                f.update_radius(r)
            H = ref.Helmholtz(mesh, r, mask)
            x, name = field(rng, n)
            x0 = x.copy()
            y = np.asarray(f.forward(x))
            m.equal(x, x0, "input-unchanged")
            sc = np.abs(x).max() + 1.0
            m.close(y, H.forward(x), "helmholtz-is-pde-solution", rtol=tol, scale=sc, radius=r)
            m.close(f.forward(np.ones(n)), np.ones(n), "keeps-constants", atol=1e-10)
            if mask is None or mask.all():
                c = float(rng.normal())
                m.close(f.forward(np.full(n, c)), np.full(n, c), "keeps-constants", atol=1e-10 * (1 + abs(c)))
                if info["uniform"] and not info["warp"]:
                    m.close(y @ vol, x @ vol, "keeps-volume", rtol=1e-10, scale=np.abs(x) @ vol + 1e-300)
            z, _ = field(rng, n)
            t = float(rng.uniform(-1, 2))
            m.close(f.forward(t * x + (1 - t) * z), t * y + (1 - t) * f.forward(z), "linear", rtol=1e-9,
                    scale=3 * (np.abs(x).max() + np.abs(z).max()) + 1)
            fresh = HelmholtzFilterNodal.from_defaults(mesh, vol, r, mask)
            m.close(f.forward(x), fresh.forward(x), "radius-change-equals-fresh", rtol=1e-10, scale=sc)
            if mask is not None and not mask.all():
                inner = np.all(np.isin(mesh.t, np.unique(mesh.t[:, ~mask])), axis=0)
                if inner.any():
                    m.close(y[inner], np.ones(inner.sum()), "solid-nodes-held", atol=1e-10)
                x2 = x.copy()
                x2[~sel] = rng.normal(size=(~sel).sum())
                m.close(f.forward(x2), y, "design-ignores-the-rest", rtol=1e-9, scale=sc)
            m.seen("helmholtz", info["kind"], info["cells"], info["warp"], mname, round(r / h, 1), name)
            m.tally("helmholtz fields")


def kernels(m, rng, i):
    """The weight kernels and matrix builder the spatial filter is made of."""
    from sktopt.filters import spacial
    mesh, info = gen.random_mesh(rng, 80)
    n = mesh.nelements
    r = gen.edge_length(mesh) * float(rng.uniform(0.8, 3))
    vol = ref.volumes(mesh.p, mesh.t)
    c = mesh.p[:, mesh.t].mean(axis=1)
    d = np.sqrt(((c[:, :, None] - c[:, None, :]) ** 2).sum(axis=0))
    for kind in ("linear", "quadratic", "gaussian"):
        mask, mname = some_mask(rng, n)
        sel = np.ones(n, bool) if mask is None else mask
        volw = bool(rng.random() < 0.5)
        with m.case(f"kernel-{kind}-{i}", **info, mask=mname):
            k, sup = spacial.make_kernel(kind, r)
            m.close(sup, r, "kernel-support", rtol=1e-12)
            w = {"linear": np.maximum(r - d, 0), "quadratic": np.where(d < r, 1 - (d / r) ** 2, 0),
                 "gaussian": np.where(d <= r, np.exp(-4.5 * (d / r) ** 2), 0)}[kind]
            if volw:
                w = w * vol[None, :]
            w = w[np.ix_(sel, sel)]
            if kind == "gaussian" and np.any(np.abs(d - r) <= 1e-9 * r):
                continue
            W = spacial.build_filter_matrix(c, k, sup, elem_volume=vol if volw else None, volume_correction=volw, design_mask=mask)
            m.close(W.toarray(), w / w.sum(axis=1, keepdims=True), "kernel-matrix", rtol=1e-11)
            m.seen("kernel", kind, mname, volw, info["kind"])


def run(m):
    for i in range(m.pick(64, 1100)):
        if m.mine(i) and not m.out_of_time():
            spatial(m, m.rng("spatial", i), i)
    for i in range(m.pick(48, 700)):
        if m.mine(i) and not m.out_of_time():
            helmholtz(m, m.rng("helm", i), i)
    for i in range(m.pick(16, 200)):
        if m.mine(i) and not m.out_of_time():
            kernels(m, m.rng("kern", i), i)
