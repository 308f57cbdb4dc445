"""C23: exported mesh files, read back and compared with the analysed mesh."""
import os
import meshio
import numpy as np
import gen
import ref
from checks.c15 import hexvol
from checks.c16 import Problem, nodes_of
from sktopt.mesh import FEMDomain

RULE = "distinct (kind of file, mesh kind and cells, warp, node order, data layout / problem definition / threshold position) files judged"
ASSUMPTIONS = ["a node that is loaded and supported may carry either mark"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"points": 150, "cells": 150, "data": 150, "node-marks": 60, "element-marks": 60, "submesh-elements": 60, "run-submesh": 16}

HEX_EDGES = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]


def edges(cells):
    """Edges of VTK cells, as a set per cell."""
    pairs = HEX_EDGES if cells.shape[1] == 8 else [(a, b) for a in range(4) for b in range(a)]
    return [frozenset(frozenset((int(c[a]), int(c[b]))) for a, b in pairs) for c in cells]


def body_edges(t):
    """The same of scikit-fem elements."""
    if t.shape[0] == 4:
        pairs = [(a, b) for a in range(4) for b in range(a)]
    else:   # 4=1+2, 5=1+3, 6=2+3, 7=all
        pairs = [(0, 1), (0, 2), (0, 3), (1, 4), (1, 5), (2, 4), (2, 6), (3, 5), (3, 6), (4, 7), (5, 7), (6, 7)]
    return [frozenset(frozenset((int(c[a]), int(c[b]))) for a, b in pairs) for c in t.T]


def file_volumes(f):
    x = f.points[f.cells[0].data]
    if x.shape[1] == 4:
        return np.einsum("ij,ij->i", np.cross(x[:, 1] - x[:, 0], x[:, 2] - x[:, 0]), x[:, 3] - x[:, 0]) / 6
    return hexvol(x)


def whole_body(m, f, mesh, **d):
    """Row k of the file is element k of the mesh."""
    m.close(f.points, mesh.p.T, "points", rtol=1e-14, **d)
    kind = "hexahedron" if mesh.t.shape[0] == 8 else "tetra"
    if not m.ok(len(f.cells) == 1 and f.cells[0].type == kind and len(f.cells[0].data) == mesh.nelements, "cells",
                blocks=[(c.type, len(c.data)) for c in f.cells], **d):
        return
    a, b = edges(f.cells[0].data), body_edges(mesh.t)
    bad = [k for k in range(len(a)) if a[k] != b[k]]
    m.ok(not bad, "cells", wrong=bad[:6], of=len(a), **d)
    v = file_volumes(f)
    want = ref.volumes(mesh.p, mesh.t)
    m.close(np.abs(v), want, "cell-volumes", rtol=1e-9, **d)
    m.ok(np.all(v * ref_signs(mesh) > 0), "positive-volume", least=float(np.min(v * ref_signs(mesh))), **d)


def ref_signs(mesh):
    """Sign of the mapping of each element (at its first corner's frame)."""
    v = mesh.p[:, mesh.t]
    a, b, c = v[:, 1] - v[:, 0], v[:, 2] - v[:, 0], v[:, 3] - v[:, 0]
    det = np.einsum("ij,ij->j", np.cross(a.T, b.T).T, c)
    return np.sign(det) * (1 if mesh.t.shape[0] == 4 else -1)


def shuffled(rng, mesh):
    """The same body with nodes and elements in another order."""
    perm = rng.permutation(mesh.p.shape[1])
    inv = np.argsort(perm)
    return type(mesh)(np.ascontiguousarray(mesh.p[:, perm]), np.ascontiguousarray(inv[mesh.t][:, rng.permutation(mesh.nelements)]))


def body(rng, n):
    mesh, info = gen.random_mesh(rng, n)
    info["shuffled"] = bool(rng.random() < 0.5)
    return (shuffled(rng, mesh) if info["shuffled"] else mesh), info


def values(rng, n):
    k = int(rng.integers(6))
    if k == 0:
        return rng.normal(size=n), "float"
    if k == 1:
        return rng.integers(-5, 100, n), "int"
    if k == 2:
        return rng.normal(size=(n, 3)), "vector"
    if k == 3:
        return rng.normal(size=2 * n)[::2], "strided"
    if k == 4:
        return rng.normal(size=n) * 10.0 ** rng.integers(-200, 200, n), "extreme"
    return rng.integers(0, 2, n).astype(np.float32), "float32"


def info_file(m, i):
    from sktopt.core import visualization
    rng = m.rng("info", i)
    mesh, info = body(rng, m.pick(80, 300))
    d = m.scratch("info")
    path = os.path.join(d, f"out{i}.vtu")
    nc, npd = int(rng.integers(0, 4)), int(rng.integers(0, 3))
    with m.case(f"info-{i}", **info, cell_data=nc, point_data=npd):
        cell = {f"c {k}": values(rng, mesh.nelements) for k in range(nc)}
        point = {f"p{k}": values(rng, mesh.nvertices) for k in range(npd)}
        p0, t0 = mesh.p.copy(), mesh.t.copy()
        kw = {}
        if nc or rng.random() < 0.5:
            kw.update(cell_data_values=[v[0] for v in cell.values()], cell_data_names=list(cell))
        if npd or rng.random() < 0.5:
            kw.update(point_data_values=[v[0] for v in point.values()], point_data_names=list(point))
        for _ in range(int(rng.integers(1, 3))):     # again over an existing file
            visualization.export_mesh_with_info(mesh, filepath=path, **kw)
        f = meshio.read(path)
        whole_body(m, f, mesh)
        m.ok(set(f.cell_data) == set(cell) and set(f.point_data) == set(point), "data", cell=list(f.cell_data), point=list(f.point_data))
        for k, (v, how) in cell.items():
            m.equal(f.cell_data[k][0].reshape(np.shape(v)), v, "data", name=k, layout=how)
        for k, (v, how) in point.items():
            m.equal(f.point_data[k].reshape(np.shape(v)), v, "data", name=k, layout=how)
        m.ok(np.array_equal(mesh.p, p0) and np.array_equal(mesh.t, t0), "mesh-unchanged")
        m.seen("info", info["kind"], info["cells"], info["warp"], info["shuffled"], sorted(v[1] for v in (cell | point).values()))
    m.drop(d)


def marks(m, f, mesh, loaded, clamped, cooled, design, **d):
    roles = [set(map(int, np.ravel(x))) if x is not None else set() for x in (loaded, clamped, cooled)]
    col = np.ravel(f.point_data["node_color"])
    bad = [n for n in range(mesh.nvertices)
           if int(col[n]) not in ({k + 1 for k in range(3) if n in roles[k]} or {0})]
    m.ok(not bad, "node-marks", wrong=bad[:5], count=len(bad), got=[int(col[n]) for n in bad[:5]], **d)
    e = np.ravel(f.cell_data["condition"][0])
    want = np.where(np.isin(np.arange(mesh.nelements), design), 3, 2)
    m.ok(np.array_equal(e, want), "element-marks", wrong=int(np.sum(e != want)), **d)


def conditions(m, i):
    rng = m.rng("conditions", i)
    mesh, info = body(rng, 60)
    how = ["elastic/facets", "elastic/nodes", "elastic/tags", "heat/facets", "heat/tags"][m.nth(i, 5, "1")]
    d = m.scratch("cond")
    with m.case(f"conditions-{i}", **info, how=how):
        for _ in range(20):
            P = Problem(rng, mesh, how)
            if P.want_design:
                break
        else:
            return
        try:
            t = P.build(P.args)
        except ValueError:
            m.tally("definitions refused")
            return
        t.export_analysis_condition_on_mesh(d)
        f = meshio.read(f"{d}/condition.vtu")
        whole_body(m, f, mesh)
        marks(m, f, mesh, P.loaded, P.clamped, P.robin, sorted(P.want_design))
        # and again after the design domain changed
        t.exlude_dirichlet_from_design()
        t.export_analysis_condition_on_mesh(d)
        cl = {e for e in range(mesh.nelements) if set(map(int, mesh.t[:, e])) & set(map(int, np.ravel(P.clamped)))}
        marks(m, meshio.read(f"{d}/condition.vtu"), mesh, P.loaded, P.clamped, P.robin, sorted(P.want_design - cl), after="excluding")
        m.seen("condition", how, info["kind"], info["cells"], P.robin is not None, P.loaded is not None, len(P.want_design))
    m.drop(d)


def judge_submesh(m, path, mesh, keep, rule, **d):
    if not len(keep):
        m.ok(not os.path.exists(path), rule, what="nothing to keep", **d)
        return
    if not m.ok(os.path.exists(path), rule, what="missing", keep=len(keep), **d):
        return
    f = meshio.read(path)
    ids = {tuple(x): n for n, x in enumerate(mesh.p.T.tolist())}
    rows = [ids.get(tuple(x)) for x in f.points.tolist()]
    if None in rows:    # text formats round
        from scipy.spatial import cKDTree
        dist, near = cKDTree(mesh.p.T).query(f.points)
        m.ok(np.all(dist <= 1e-12 * np.abs(mesh.p).max()), rule, what="points not of the mesh", dist=float(dist.max()), **d)
        rows = [int(k) for k in near]
    m.ok(len(set(rows)) == len(rows), rule, what="repeated points", **d)
    rows = np.array(rows)
    if not m.ok(len(f.cells) == 1, rule, what="blocks", blocks=len(f.cells), **d):
        return
    cells = rows[f.cells[0].data]
    got = edges(cells)
    full = body_edges(mesh.t)
    want = {full[e] for e in keep}
    m.ok(len(got) == len(keep) and set(got) == want, rule, what="elements", got=len(got), want=len(keep),
         extra=len(set(got) - want), missing=len(want - set(got)), **d)
    m.ok(set(rows.tolist()) == {int(n) for n in mesh.t[:, keep].ravel()}, rule, what="points without element", **d)
    m.ok(np.all(file_volumes(f) > 0) or not np.all(ref_signs(mesh) > 0), rule, what="volume sign", **d)


def submesh(m, i):
    from sktopt.mesh import visualization
    rng = m.rng("submesh", i)
    mesh, info = body(rng, m.pick(80, 250))
    d = m.scratch("sub")
    n = mesh.nelements
    design = np.arange(n) if m.nth(i, 3, "2") == 0 else rng.permutation(n)[:max(1, int(n * rng.uniform(0.2, 0.95)))]
    basis = gen.vector_basis(mesh)
    path = os.path.join(d, "sub" + str(rng.choice([".vtu", ".vtu", ".vtk"])))
    with m.case(f"submesh-{i}", **info, design=len(design)):
        t = FEMDomain.from_nodes(basis, np.array([0]), "all", None, None, None, None, None, None, None, None, None, design)
        rho = rng.choice([0.0, 0.3, 0.5, 0.7, 1.0], n) if rng.random() < 0.5 else rng.uniform(0, 1, n)
        rho0, d0 = rho.copy(), np.array(t.design_elements, copy=True)
        for k in range(3):
            thr = [float(rng.choice(rho)), float(rng.uniform(0, 1)), float(rng.choice([0.0, 0.5, 1.0, 2.0]))][int(rng.integers(3))]
            keep = np.array([e for e in range(n) if e not in set(d0.tolist()) or rho[e] > thr], int)
            visualization.export_submesh(t, rho, thr, path)
            judge_submesh(m, path, mesh, keep, "submesh-elements", threshold=thr)
            m.seen("submesh", info["kind"], info["cells"], len(design) == n, round(len(keep) / n, 1))
        m.ok(np.array_equal(rho, rho0) and np.array_equal(t.design_elements, d0), "mesh-unchanged")
    m.drop(d)


def a_run(m, i):
    rng = m.rng("run", i)
    over = {}
    if m.nth(i, 4, "3") == 1:
        over["scaling"] = True
    if m.nth(i, 3, "4") == 2:
        over["design_dirichlet"] = True
    physics = ["elastic", "heat"][m.nth(i, 2, "5")]
    if physics == "heat":
        over.pop("scaling", None)
    if m.nth(i, 5, "6") == 4:
        over["vol_frac"] = gen.SC.constant(target_value=0.25)
    kw = {}
    if over.get("scaling"):     # the radius is taken in the run's unit length
        for _ in range(60):
            kw["task"], _x = gen.elastic_with_room(rng, 40, clamp_excluded=not over.get("design_dirichlet", False))
            L = float(np.ptp(kw["task"].mesh.p, axis=1).max())
            over["filter_radius"] = gen.SC.constant(target_value=gen.edge_length(kw["task"].mesh) / L * float(rng.uniform(0.5, 2)))
            break
    given = None
    if kw:
        given = kw["task"].mesh
    r = gen.Run(m, rng, kind=["oc", "logmoc"][m.nth(i, 2, "7")], physics=physics, max_elems=40, **kw, **over)
    given = given or r.task.mesh
    with m.case(f"run-{i}", **r.info, over=sorted(over)):
        t = r.task
        if m.nth(i, 3, "8"):
            r.opt.optimize()
        else:
            while len(r.steps) < r.iters:
                a = len(r.steps)
                r.opt.optimize_steps(int(rng.integers(1, 4)))
                if len(r.steps) == a:
                    break
        f = meshio.read(f"{r.dst}/condition.vtu")
        unit = float(np.ptp(given.p, axis=1).max()) if over.get("scaling") else 1.0
        m.close(f.points * unit, given.p.T, "points", rtol=1e-12)
        marks(m, f, given, t.neumann_nodes_all if physics == "elastic" else None,
              np.concatenate([np.ravel(x) for x in (t.dirichlet_nodes if isinstance(t.dirichlet_nodes, list) else [t.dirichlet_nodes])]),
              t.robin_nodes if not isinstance(t.robin_nodes, list) else np.concatenate(t.robin_nodes), t.design_elements)
        full = np.ones(given.nelements)
        full[t.design_elements] = r.steps[-1].after
        des = set(map(int, t.design_elements))
        keep = np.array([e for e in range(given.nelements) if e not in des or full[e] > 0.5], int)
        if over.get("scaling"):
            path = f"{r.dst}/cubic_top.vtu"
            if len(keep):
                g = meshio.read(path)
                m.ok(len(g.cells[0].data) == len(keep), "run-submesh", got=len(g.cells[0].data), want=len(keep))
                x = given.p[:, np.unique(given.t[:, keep])]
                m.close([g.points.min(0), g.points.max(0)], [x.min(1), x.max(1)], "run-submesh", atol=1e-12 * unit, what="extent")
        else:
            judge_submesh(m, f"{r.dst}/cubic_top.vtu", given, keep, "run-submesh")
        m.seen("run", r.kind, physics, sorted(over), round(len(keep) / given.nelements, 1))
    r.close()


def run(m):
    for n, (f, q, t) in enumerate(((info_file, 160, 3000), (conditions, 80, 2000), (submesh, 80, 2000), (a_run, 32, 400))):
        for i in range(m.pick(q, t)):
            if m.mine(i) and not m.out_of_time():
                f(m, i)
