"""C28: mesh files of several formats, written by the harness, against what
the loaders make of them."""
import contextlib
import hashlib
import io
import os
import subprocess
import sys
import numpy as np
import scipy.sparse as sp
import gen
import ref

RULE = "distinct (format, element kind and numbers, orientation pattern, extra cells, quadrature order, material) files loaded"
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"nodes": 150, "elements": 150, "shape": 150, "orientation": 30, "quadrature": 150, "stiffness": 150, "symmetric": 75,
           "rigid": 75, "rank": 80, "modulus": 100, "file-unchanged": 75, "defaults": 20, "unsupported": 8, "auto": 50,
           "task": 16, "program": 4}

FORMATS = [("vtk", "vtk"), ("vtu", "vtu"), ("msh", "gmsh"), ("msh", "gmsh22"), ("inp", "abaqus"), ("mesh", "medit")]
HEX = [0, 3, 6, 2, 1, 5, 7, 4]      # scikit-fem numbers to the format's corners


def extra_cells(rng, mesh):
    """Boundary faces and edges that mesh files usually carry as well."""
    bf = mesh.boundary_facets()
    f = mesh.facets[:, bf].T
    if f.shape[1] == 4:
        # skfem keeps corners sorted; the cyclic order does not matter here
        return [("quad", f), ("line", f[:, :2])]
    return [("triangle", f), ("line", f[:, :2])]


def write(rng, mesh, fmt, path, extra, mirror=True):
    """Returns the cells as written (format order) after mirroring some."""
    import meshio
    hexa = mesh.t.shape[0] == 8
    c = (mesh.t[HEX] if hexa else mesh.t).T.copy()
    pattern = str(rng.choice(["as is", "some mirrored", "all mirrored"])) if mirror else "as is"
    flip = {"as is": np.zeros(len(c), bool), "some mirrored": rng.random(len(c)) < 0.5, "all mirrored": np.ones(len(c), bool)}[pattern]
    if hexa:
        c[flip] = c[flip][:, [4, 5, 6, 7, 0, 1, 2, 3]]
    else:
        c[flip] = c[flip][:, [0, 2, 1, 3]]
    cells = [("hexahedron" if hexa else "tetra", c)]
    if extra:
        cells = extra_cells(rng, mesh)[::-1] + cells if rng.random() < 0.5 else cells + extra_cells(rng, mesh)
    data = {}
    if fmt == "gmsh22":
        data = {k: [np.full(len(x), i + 1) for i, (_, x) in enumerate(cells)] for k in ("gmsh:physical", "gmsh:geometrical")}
    w = meshio.Mesh(mesh.p.T, cells, cell_data=data)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        if fmt == "gmsh":
            # one kind of element only: gmsh 4 wants entities for several
            meshio.write(path, meshio.Mesh(mesh.p.T, cells), file_format="gmsh", binary=bool(rng.random() < 0.5))
        elif fmt == "gmsh22":
            meshio.write(path, w, file_format="gmsh22", binary=bool(rng.random() < 0.5))
        elif fmt == "vtu":
            meshio.write(path, w, file_format="vtu", binary=bool(rng.random() < 0.5))
        else:
            meshio.write(path, w, file_format=fmt)
    return c, pattern


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def cellvol(p, c):
    if c.shape[1] == 4:
        return ref.volumes(p, c.T)
    inv = np.argsort(HEX)
    return ref.volumes(p, c[:, inv].T)


def judge_mesh(m, got, p, c, rtol, what):
    m.close(got.p, p, "nodes", rtol=rtol, scale=np.abs(p).max(), loader=what)
    if m.ok(got.t.shape == c.T.shape, "elements", got=got.t.shape, loader=what):
        m.equal(np.sort(got.t, axis=0), np.sort(c.T, axis=0), "elements", loader=what)
        if c.shape[1] == 8:
            # the same edges, so the same body
            e = edges(c[:, np.argsort(HEX)].T)
            m.equal(edges(got.t), e, "shape", loader=what)
        m.close(ref.volumes(got.p, got.t), cellvol(p, c), "shape", rtol=1e-8, loader=what)


HEX_EDGES = [(0, 1), (0, 2), (0, 3), (1, 4), (1, 5), (2, 4), (2, 6), (3, 5), (3, 6), (4, 7), (5, 7), (6, 7)]


def edges(t):
    return np.sort(np.array([np.sort(t[list(e)], axis=0)[0] * 10 ** 6 + np.sort(t[list(e)], axis=0)[1] for e in HEX_EDGES]), axis=0)


def rigid(basis):
    x = basis.mesh.p - basis.mesh.p.mean(axis=1, keepdims=True)
    out = []
    for a in range(3):
        v = np.zeros_like(x)
        v[a] = 1.0
        out.append(v)
        w = np.zeros(3)
        w[a] = 1.0
        out.append(np.cross(w, (x / np.abs(x).max()).T).T)
    U = np.zeros((basis.N, 6))
    for k, v in enumerate(out):
        for a in range(3):
            U[basis.nodal_dofs[a], k] = v[a]
    return U


def one(m, i):
    from sktopt.mesh import loader, toy_problem
    rng = m.rng("file", i)
    mesh, info = gen.random_mesh(rng, m.pick(40, 120), kind=["hex", "tet"][i % 2])
    ext, fmt = FORMATS[(i // 2) % len(FORMATS)]
    if rng.random() < 0.5:
        perm = rng.permutation(mesh.p.shape[1])
        mesh = type(mesh)(np.ascontiguousarray(mesh.p[:, perm]), np.ascontiguousarray(np.argsort(perm)[mesh.t]))
    d = m.scratch("file")
    path = os.path.join(d, f"body.{ext}")
    extra = bool(rng.random() < 0.6) and fmt not in ("abaqus", "gmsh")
    c, pattern = write(rng, mesh, fmt, path, extra)
    order = int(rng.integers(1, 5))
    E, nu = float(10 ** rng.uniform(-3, 6)), float(rng.uniform(0.0, 0.48))
    rtol = 1e-15 if fmt in ("vtu", "gmsh") else 1e-10
    with m.case(f"file-{i}", **info, format=fmt, pattern=pattern, extra=extra, order=order, E=E, nu=nu):
        before = sha(path)
        given = path if rng.random() < 0.5 else __import__("pathlib").Path(path)
        basis = loader.basis_from_file(given, order) if rng.random() < 0.5 else loader.basis_from_file(given, intorder=order)
        judge_mesh(m, basis.mesh, mesh.p, c, max(rtol, 1e-10), "basis_from_file")
        if info["kind"] == "tet":
            m.ok(np.all(ref.signed(basis.mesh.p, basis.mesh.t) > 0), "orientation", pattern=pattern)
        want = gen.vector_basis(mesh, order)
        m.ok(basis.N == 3 * mesh.p.shape[1] and basis.X.shape == want.X.shape and np.allclose(np.sort(basis.W), np.sort(want.W)),
             "quadrature", points=basis.X.shape, want=want.X.shape)
        for a in range(3):
            m.ok(np.array_equal(np.sort(basis.nodal_dofs.ravel()), np.arange(basis.N)), "quadrature", what="unknowns")
        # the matrix
        b2 = loader.basis_from_file(given)
        K = sp.csr_matrix(loader.load_stiffness_matrix(given, E, nu))
        model = ref.Elastic(b2, nu)
        R = sp.csr_matrix(model.K(np.full(b2.mesh.nelements, E)))
        top = abs(R).max()
        if m.ok(K.shape == R.shape, "stiffness", got=K.shape):
            m.ok(abs(K - R).max() <= 1e-9 * top, "stiffness", err=abs(K - R).max() / top)
            m.ok(abs(K - K.T).max() <= 1e-12 * top, "symmetric", err=abs(K - K.T).max() / top)
            m.ok(np.abs(K @ rigid(b2)).max() <= 1e-9 * top, "rigid", err=np.abs(K @ rigid(b2)).max() / top)
            if K.shape[0] <= 240:
                w = np.linalg.eigvalsh(K.toarray())
                n0 = int(np.sum(np.abs(w) <= 1e-11 * w[-1]))
                m.ok(n0 == 6 and w[0] > -1e-11 * w[-1], "rank", zero=n0, least=w[0] / w[-1], seventh=w[6] / w[-1])
            f = float(2.0 ** int(rng.integers(-6, 7)))
            K2 = sp.csr_matrix(loader.load_stiffness_matrix(given, E=f * E, nu=nu))
            m.ok(abs(K2 - f * K).max() <= 1e-13 * f * top, "modulus", factor=f)
            if i % 3 == 0:
                K3 = sp.csr_matrix(loader.load_stiffness_matrix(given))
                R3 = sp.csr_matrix(ref.Elastic(b2, 0.3).K(np.ones(b2.mesh.nelements)))
                m.ok(abs(K3 - R3).max() <= 1e-9 * abs(R3).max(), "defaults")
        if i % 2 == 0 or i % 3 == 0:
            got = toy_problem.load_mesh_auto(str(path))
            judge_mesh(m, got, mesh.p, c, max(rtol, 1e-10), "load_mesh_auto")
            m.count("auto")
        m.ok(sha(path) == before and os.listdir(d) == [os.path.basename(path)], "file-unchanged", files=os.listdir(d))
        m.seen(fmt, info["kind"], info["cells"], info["warp"], pattern, extra, order)
    m.drop(d)


def unsupported(m, i):
    import meshio
    from sktopt.mesh import loader, toy_problem
    rng = m.rng("bad", i)
    d = m.scratch("bad")
    with m.case(f"bad-{i}"):
        p = rng.random((6, 3))
        kind, cells = [("triangle", [[0, 1, 2], [1, 2, 3]]), ("line", [[0, 1], [1, 2]]), ("wedge", [[0, 1, 2, 3, 4, 5]]),
                       ("quad", [[0, 1, 2, 3]])][i % 4]
        path = os.path.join(d, "x.vtk")
        meshio.write(path, meshio.Mesh(p, [(kind, np.array(cells))]))
        for f in (loader.basis_from_file, loader.load_stiffness_matrix, toy_problem.load_mesh_auto):
            try:
                f(path)
            except ValueError:
                m.count("unsupported")
            except Exception as e:
                m.ok(False, "unsupported", error=repr(e), kind=kind)
            else:
                m.ok(False, "unsupported", what="accepted", kind=kind)
    m.drop(d)


TASKS = {   # name: (box, support width, force window as a function of (box, eps), component, total)
    "down": ((4.0, 0.16, 2.0), lambda b, e: ((b[0] - e, b[0] + .05), (b[1] / 2 - e, b[1] / 2 + e), (0, e)), 2, -800.0),
    "down_box": ((4.0, 3.0, 2.0), lambda b, e: ((b[0] - e, b[0] + .05), (0, b[1]), (0, e)), 2, -800.0),
    "pull": ((8.0, 3.0, 0.5), lambda b, e: ((b[0] - e, b[0] + .05), (b[1] * 2 / 5, b[1] * 3 / 5), (b[2] * 2 / 5, b[2] * 3 / 5)), 0, 1200.0),
    "pull_2": ((4.0, 2.0, 0.5), lambda b, e: ((b[0] - e, b[0] + .05), (b[1] / 2 - e, b[1] / 2 + e), (b[2] * 2 / 5, b[2] * 3 / 5)), 0, 200.0),
}


def within(x, box):
    return np.all([(x[a] >= box[a][0]) & (x[a] <= box[a][1]) for a in range(3)], axis=0)


def shipped(m, i):
    """The shipped tasks on a mesh file."""
    import skfem
    from sktopt.mesh import toy_problem
    rng = m.rng("task", i)
    name = list(TASKS)[i % 4]
    box, window, comp, total = TASKS[name]
    cells = [int(rng.integers(4, 9)), int(rng.choice([3, 5])), int(rng.choice([3, 5]))]
    if name == "pull":
        cells = [int(rng.integers(4, 8)), 5, 5]
    if name == "pull_2":
        cells = [int(rng.integers(4, 8)), int(rng.choice([3, 5])), 5]
    hexa = bool(i // 4 % 2 == 0)
    xs = [np.linspace(0, b, n + 1) for b, n in zip(box, cells)]
    mesh = (skfem.MeshHex if hexa else skfem.MeshTet).init_tensor(*xs)
    if not hexa:        # an elastic task refuses mirrored tetrahedra
        mesh = skfem.MeshTet(mesh.p, gen.tet_positive(mesh.p, mesh.t))
    d = m.scratch("task")
    path = os.path.join(d, "t.vtk")
    with m.case(f"task-{i}", name=name, cells=cells, hexa=hexa):
        c, pattern = write(rng, mesh, "vtk", path, False, mirror=hexa)
        dist = np.linalg.norm(mesh.p[:, 1:].T - mesh.p[:, 0], axis=1)
        eps = 0.8 * dist.min()
        mid = mesh.p[:, mesh.facets].mean(axis=1)
        on = np.zeros(mesh.facets.shape[1], bool)
        on[mesh.boundary_facets()] = True
        loaded = np.flatnonzero(within(mid, window(box, eps)))      # inner facets as well, as in the shipped task
        held = np.flatnonzero(within(mid, ((0, .05), (0, box[1]), (0, box[2]))) & on)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                t = toy_problem.toy_msh(name, path)
            except ValueError as e:
                # nothing to load in this window on this mesh
                m.ok(len(loaded) == 0, "task", error=repr(e), facets=len(loaded))
                return
        judge_mesh(m, t.mesh, mesh.p, c, 1e-10, "toy_msh")
        F = np.atleast_2d(t.force)
        nd = t.basis.nodal_dofs
        tot = np.array([F[:, nd[a]].sum() for a in range(3)])
        want = np.zeros(3)
        want[comp] = total
        m.close(tot, want, "task", rtol=1e-9, atol=1e-7, what="total force")
        nodes = np.unique(mesh.facets[:, loaded])
        hit = np.flatnonzero(np.abs(F[:, nd[comp]]).max(axis=0) > 1e-12 * abs(total))
        m.ok(set(hit) <= set(nodes) and len(hit) > 0, "task", what="where the force acts", nodes=nodes, hit=hit)
        fixed = np.unique(nd[:, np.unique(mesh.facets[:, held])])
        m.equal(np.sort(np.asarray(t.dirichlet_dofs).ravel()), fixed, "task", what="supports")
        m.close([t.material_coef, t.nu], [210e3, 0.30], "task", what="material")
        m.seen("task", name, hexa, tuple(cells), pattern)
    m.drop(d)


def program(m, i):
    """python -m sktopt.mesh.loader"""
    rng = m.rng("program", i)
    mesh, info = gen.random_mesh(rng, 40, kind=["hex", "tet"][i % 2])
    d = m.scratch("program")
    E, nu = float(rng.uniform(0.5, 300)), float(rng.uniform(0.05, 0.45))
    with m.case(f"program-{i}", **info, E=E, nu=nu):
        write(rng, mesh, "vtk", f"{d}/a.vtk", False)
        args = [[], ["--E", repr(E)], ["--nu", repr(nu)], ["--E", repr(E), "--nu", repr(nu)]][i % 4]
        r = subprocess.run([sys.executable, "-m", "sktopt.mesh.loader", f"{d}/a.vtk", *args, "--output", f"{d}/K.npz"],
                           capture_output=True, text=True, cwd=d, timeout=200)
        if m.ok(r.returncode == 0, "program", err=r.stderr[-300:]):
            K = sp.csr_matrix(sp.load_npz(f"{d}/K.npz"))
            from sktopt.mesh import loader
            W = sp.csr_matrix(loader.load_stiffness_matrix(f"{d}/a.vtk", E if "--E" in args else 1.0, nu if "--nu" in args else 0.3))
            m.ok(abs(K - W).max() <= 1e-12 * abs(W).max(), "program", args=args)
    m.drop(d)


def run(m):
    for n, f in ((m.pick(168, 6000), one), (m.pick(8, 40), unsupported), (m.pick(24, 300), shipped), (m.pick(4, 32), program)):
        for i in range(n):
            if m.mine(i) and not m.out_of_time():
                f(m, i)
