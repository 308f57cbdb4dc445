"""C15: which snapshots and mesh files a run leaves, what is in them, and what
an observer sees of them at every file-system event."""
import os
import meshio
import numpy as np
import fsevents
import gen
import ref
import tracer
from checks.c10 import same

PRELOAD = "fsevents.c"
RULE = "distinct (optimizer, physics, filter, iterations, record interval, partition, ending) runs judged, and observed directory states"
ASSUMPTIONS = ["the observer looks at every change of a file and half way through every write"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"promised-iterations": 30, "saved-density": 50, "mesh-file": 200, "observed-snapshot-complete": 50,
           "observed-history-complete": 100, "latest-found": 200}


def promised(first, last, iters, record, converged):
    step = max(1, iters // record)
    return {k for k in range(first, last + 1) if k % step == 0 or k == 1 or k == last}


class Watcher:
    """Looks at the directory like another process would, at every event."""

    def __init__(self, m, r):
        self.m, self.r, self.known, self.looks = m, r, {}, 0
        self.bad = []
        self.nd = len(r.task.design_elements)
        self.n_hist = 0

    def __call__(self, phase, op, path):
        if phase == 0:
            return
        self.looks += 1
        from sktopt.core import misc
        data = os.path.join(str(self.r.dst), "data")
        good = []
        for f in os.listdir(data) if os.path.isdir(data) else []:
            if f.endswith("-rho.npz") and f[:6].isdigit():
                good.append(int(f.split("-")[0]))
                self.snapshot(os.path.join(data, f), int(f.split("-")[0]), (op, phase, os.path.basename(path)))
        if os.path.isdir(data):
            n, where = misc.find_latest_iter_file(data)
            if not ((n == max(good) and os.path.basename(where) == f"{n:06d}-rho.npz") if good else where is None):
                self.bad.append(("latest-found", dict(got=n, where=where, present=good, at=(op, phase))))
            self.m.count("latest-found")
        self.history(os.path.join(str(self.r.dst), "histories.npz"), (op, phase, os.path.basename(path)))

    def new(self, path):
        try:
            st = os.stat(path)
        except FileNotFoundError:
            return False
        key = (st.st_ino, st.st_size, st.st_mtime_ns)
        if self.known.get(path) == key:
            return False
        self.known[path] = key
        return True

    def snapshot(self, path, it, at):
        if not self.new(path):
            return
        self.m.count("observed-snapshot-complete")
        try:
            with np.load(path) as d:
                x = np.array(d["rho_design_elements"])
        except Exception as e:  # noqa: BLE001
            self.bad.append(("observed-snapshot-complete", dict(error=repr(e)[:200], at=at, iter=it)))
            return
        s = [q for q in self.r.steps if q.iter == it]
        if not s or not same(x, s[0].after):
            self.bad.append(("observed-snapshot-complete", dict(iter=it, at=at, steps=[q.iter for q in self.r.steps])))

    def history(self, path, at):
        if not self.new(path):
            return
        self.m.count("observed-history-complete")
        try:
            with np.load(path, allow_pickle=True) as d:
                n = {k: len(np.atleast_1d(d[k])) for k in d.files if not k.endswith("_header")}
        except Exception as e:  # noqa: BLE001
            self.bad.append(("observed-history-complete", dict(error=repr(e)[:200], at=at)))
            return
        if n.get("rho_change_max") != len(self.r.steps) or n["rho_change_max"] < self.n_hist:
            self.bad.append(("observed-history-complete", dict(entries=n, at=at, steps=len(self.r.steps))))
        self.n_hist = n.get("rho_change_max", 0)


def vtk(t):
    return t.T if t.shape[0] == 4 else t[[0, 3, 6, 2, 1, 5, 7, 4]].T


def mesh_file(m, r, it, s):
    f = meshio.read(f"{r.dst}/mesh_rho/info_mesh-{it:08d}.vtu")
    p, t = r.task.mesh.p, r.task.mesh.t
    m.close(f.points, p.T, "mesh-file", rtol=1e-12, iter=it, what="points")
    m.ok(len(f.cells) == 1, "mesh-file", blocks=len(f.cells))
    # the same element on each row, with the format's corner order
    cells = f.cells[0].data
    m.equal(np.sort(cells, axis=1), np.sort(t.T, axis=1), "mesh-file", what="corners")
    x = f.points[cells]
    if cells.shape[1] == 4:
        v = np.einsum("ij,ij->i", np.cross(x[:, 1] - x[:, 0], x[:, 2] - x[:, 0]), x[:, 3] - x[:, 0]) / 6
    else:
        # VTK hexahedron: bottom 0123, top 4567, the top above the bottom
        v = hexvol(x)
    want = ref.volumes(p, t)
    m.close(np.abs(v), want, "mesh-file", rtol=1e-9, what="volumes", iter=it)
    m.close(f.cell_data["rho_projected"][0].ravel(), s.projected, "mesh-file", atol=1e-12, what="rho_projected", iter=it)
    if s.energy is not None:
        m.close(f.cell_data["energy"][0].ravel(), s.energy, "mesh-file", rtol=1e-10, what="energy", iter=it)


def hexvol(x):
    """Volume of trilinear hexahedra in VTK order, by Gauss points."""
    g = np.array([-1, 1]) / np.sqrt(3)
    c = np.array([[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]])
    out = np.zeros(len(x))
    for a in g:
        for b in g:
            for d in g:
                q = np.array([a, b, d])
                N = np.empty((8, 3))
                for k in range(3):
                    o = [j for j in range(3) if j != k]
                    N[:, k] = c[:, k] * (1 + c[:, o[0]] * q[o[0]]) * (1 + c[:, o[1]] * q[o[1]]) / 8
                J = np.einsum("ena,nb->eab", x, N)
                out += np.linalg.det(J)
    return out


def a_run(m, i):
    rng = m.rng("run", i)
    iters = int(rng.choice([1, 2, 3, 5, 6, 8, 8, 23, 40]))
    rec = int(rng.choice([1, 2, 3, iters, iters + 1, 20]))
    over = {}
    if m.nth(i, 4, "1") == 1:
        over = dict(check_convergence=True, tol_rho_change=float(rng.uniform(0.02, 0.3)), tol_kkt_residual=1e12)
    kind = ["oc", "logmoc"][m.nth(i, 2, "4")]
    if m.nth(i, 3, "spice") == 0:
        over = {**gen.spice(rng, kind), **over}
    if m.nth(i, 6, "2") == 5:
        over["design_dirichlet"] = True
    r = gen.Run(m, rng, iters=iters, record_times=rec, physics=["elastic", "heat", "elastic"][m.nth(i, 3, "3")],
                kind=kind, max_elems=40, **over)
    with m.case(f"run-{i}", **r.info, record_times=rec, converging=r.cfg.check_convergence):
        w = Watcher(m, r)
        want, parts = set(), []
        with fsevents.watch(r.dst, w):
            if m.nth(i, 2, "5"):
                r.opt.optimize()
                if r.steps:
                    want = promised(1, r.steps[-1].iter, iters, rec, None)
            else:
                while len(r.steps) < iters:
                    a = len(r.steps)
                    k = int(rng.integers(1, 4))
                    r.opt.optimize_steps(k)
                    parts.append(k)
                    if len(r.steps) == a:
                        break
                    want |= promised(a + 1, r.steps[-1].iter, iters, rec, None)
                    if r.cfg.check_convergence and len(r.steps) - a < k:
                        break
        for rule, d in w.bad[:3]:
            m.ok(False, rule, **d)
        m.tally("observed file events", w.looks)
        its = tracer.snapshot_iters(r.dst)
        m.ok(set(its) == want, "promised-iterations", what="snapshots", got=its, want=sorted(want), parts=parts)
        m.ok(set(tracer.vtu_iters(r.dst)) == want, "promised-iterations", what="meshes", got=tracer.vtu_iters(r.dst), want=sorted(want))
        left = [f for f in tracer.files(r.dst) if "tmp" in os.path.basename(f)]
        m.ok(not left, "no-partial-files-left", files=left)
        for it in sorted(want & set(its)):
            s = r.steps[it - 1]
            m.ok(same(tracer.snapshot(r.dst, it), s.after), "saved-density", iter=it)
            mesh_file(m, r, it, s)
        m.seen(r.kind, r.physics, r.cfg.filter_type, iters, rec, parts, "early" if len(r.steps) < iters else "full")
        m.sample(saved=sorted(want), events=w.looks, parts=parts)
    r.close()


def lookup(m, i):
    from sktopt.core import misc
    rng = m.rng("lookup", i)
    d = m.scratch("data")
    with m.case(f"lookup-{i}"):
        its = sorted(set(int(10 ** rng.uniform(0, 6.4)) for _ in range(int(rng.integers(0, 8)))))
        names = [f"{k:06d}-rho.npz" for k in its]
        top = (max(its) if its else 0) + 1
        pool = [f"{top:06d}-rho.npz.bak", f"tmp-{top:06d}-rho.npz", f"{top:06d}-rho.npz~", f"{top:06d}-rho_npz", f"{top:06d}-rho.vtu",
                "rho.npz", "best-rho.npz", f"x{top:06d}-rho.npz", f".{top:06d}-rho.npz.swp", "12-rho.npz", "histories.npz"]
        extra = list(rng.permutation(pool)[:int(rng.integers(0, len(pool)))])
        for n in rng.permutation(names + extra):
            open(os.path.join(d, n), "wb").close()
        n, where = misc.find_latest_iter_file(d)
        if its:
            m.ok(n == max(its) and where == os.path.join(d, f"{max(its):06d}-rho.npz"), "latest-found", got=n, where=where, want=max(its), extra=extra)
        else:
            m.ok(where is None, "latest-found", got=n, where=where, extra=extra)
        m.seen("lookup", len(its), sorted(extra))
    m.drop(d)


def run(m):
    for i in range(m.pick(200, 3000)):
        if m.mine(i):
            lookup(m, i)
    for i in range(m.pick(40, 1200)):
        if m.mine(i) and not m.out_of_time():
            a_run(m, i)
