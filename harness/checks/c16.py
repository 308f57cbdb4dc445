"""C16: the partition of unknowns and elements of constructed tasks, against
brute-force set computations on the mesh."""
import copy
import numpy as np
import skfem
import gen
from sktopt.mesh import FEMDomain, LinearElasticity, LinearHeatConduction

RULE = "distinct (physics, way of definition, element type, numbers of regions, directions, design choice) tasks judged"
ASSUMPTIONS = ["a design that is empty is refused with ValueError"]
TIME = {"quick": 200, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"constrained-unknowns": 125, "unknowns-partitioned": 125, "elements-partitioned": 250, "loaded-not-designable": 100,
           "same-again": 200, "inputs-unchanged": 250, "clamped-excluded": 150}


def touching(mesh, nodes):
    nodes = set(int(n) for n in np.ravel(nodes))
    return {e for e in range(mesh.nelements) if any(int(n) in nodes for n in mesh.t[:, e])}


def nodes_of(mesh, facets):
    return np.array(sorted({int(n) for f in facets for n in mesh.facets[:, f]}))


def random_facets(rng, mesh):
    kind = int(rng.integers(4))
    b = mesh.boundary_facets()
    side = gen.face(mesh, int(rng.integers(3)), int(rng.integers(2)))
    if kind == 0:
        return side.astype(rng.choice([np.int64, np.int32]))
    if kind == 1:
        return np.sort(rng.choice(b, max(1, len(b) // 6), replace=False))
    if kind == 2:
        return rng.permutation(gen.patch_of(rng, side, 0.5))
    return np.array([int(rng.choice(b))])


DIRS = ["u^1", "u^2", "u^3", "all"]


def dofs_of(basis, nodes, d):
    nd = basis.nodal_dofs
    rows = range(nd.shape[0]) if d in ("all", None) else [int(d[2]) - 1]
    return {int(nd[r, n]) for r in rows for n in nodes}


def freeze(x):
    return copy.deepcopy(x)


def unchanged(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    return a == b


def ints(x):
    return {int(v) for v in np.ravel(x)}


def signature(t):
    """Everything the definition yields, for comparing two constructions."""
    out = {}
    for k, v in vars(t).items():
        if isinstance(v, np.ndarray):
            out[k] = v.copy()
        elif isinstance(v, list):
            out[k] = [x.toarray() if hasattr(x, "toarray") else copy.deepcopy(x) for x in v]
        elif isinstance(v, (int, float, str, bool, type(None))):
            out[k] = v
    return out


def sig_diff(a, b):
    bad = []
    for k in a:
        x, y = a[k], b.get(k)
        if isinstance(x, list):
            good = isinstance(y, list) and len(x) == len(y) and all(np.array_equal(p, q) for p, q in zip(x, y))
        elif isinstance(x, np.ndarray):
            good = np.array_equal(x, y)
        else:
            good = x == y
        if not good:
            bad.append(k)
    return bad


def random_design(rng, mesh):
    n = mesh.nelements
    k = int(rng.integers(3))
    if k == 0:
        return np.arange(n)
    if k == 1:
        return np.sort(rng.choice(n, max(1, int(n * rng.uniform(0.3, 0.95))), replace=False))
    return rng.permutation(n)[:max(1, int(0.8 * n))]


class Problem:
    """One definition, as arguments and as the sets it has to yield."""

    def __init__(self, rng, mesh, how):
        self.how, self.mesh = how, mesh
        physics, way = how.split("/")
        self.design = random_design(rng, mesh)
        nreg = int(rng.choice([1, 1, 2, 3]))
        regs = [random_facets(rng, mesh) for _ in range(nreg)]
        self.elastic = physics == "elastic"
        self.basis = gen.vector_basis(mesh) if self.elastic else gen.scalar_basis(mesh)
        self.clamped = nodes_of(mesh, np.concatenate(regs))
        self.robin = self.loaded = None
        self.design_robin = None
        as_list = nreg > 1 or rng.random() < 0.4
        if self.elastic:
            dirs = [str(rng.choice(DIRS)) for _ in regs]
            self.want_dofs = set().union(*[dofs_of(self.basis, nodes_of(mesh, f), d) for f, d in zip(regs, dirs)])
            nload = int(rng.choice([1, 1, 2, 3]))
            loads = [random_facets(rng, mesh) for _ in range(nload)]
            ldir = [str(rng.choice(DIRS[:3])) for _ in loads]
            lval = [float(rng.normal()) for _ in loads]
            self.loaded = nodes_of(mesh, np.concatenate(loads))
            self.nload = nload
            lists = nload > 1 or rng.random() < 0.5
            if way == "facets":
                self.args = [regs if as_list else regs[0], dirs if as_list else dirs[0],
                             loads if lists else loads[0], ldir if lists else ldir[0], lval if lists else lval[0], self.design]
                self.build = lambda a: LinearElasticity.from_facets(self.basis, *a, 100.0, 0.3)
            elif way == "nodes":
                ns = [nodes_of(mesh, f) for f in regs]
                ls = [nodes_of(mesh, f) for f in loads]
                if rng.random() < 0.5:      # node sets that are no facets
                    ns = [np.sort(rng.choice(mesh.nvertices, int(rng.integers(1, 5)), replace=False)) for _ in regs]
                    ls = [np.sort(rng.choice(mesh.nvertices, int(rng.integers(1, 3)), replace=False)) for _ in loads]
                    self.clamped, self.loaded = np.concatenate(ns), np.concatenate(ls)
                    self.want_dofs = set().union(*[dofs_of(self.basis, n, d) for n, d in zip(ns, dirs)])
                no_load = rng.random() < 0.15
                if no_load:
                    self.loaded = None
                self.args = [ns if as_list else ns[0], dirs if as_list else dirs[0], None,
                             None if no_load else (ls if lists else ls[0]), ldir, lval,
                             None, None, None, None, None, self.design]
                self.build = lambda a: FEMDomain.from_nodes(self.basis, *a)
            else:
                numbered = as_list
                b = {f"dirichlet_{k}": f for k, f in zip(gen.region_numbers(rng, nreg), regs)} if numbered else {"dirichlet": regs[0]}
                b.update({f"neumann_{k}": f for k, f in zip(gen.region_numbers(rng, nload), loads)} if nload > 1 or lists else {"neumann": loads[0]})
                b["other"] = random_facets(rng, mesh)
                items = list(b.items())
                items = [items[k] for k in rng.permutation(len(items))]
                mesh2 = mesh.with_boundaries(dict(items)).with_subdomains({"design": np.sort(self.design), "x": np.array([0])})
                self.design = np.sort(self.design)
                self.basis = gen.vector_basis(mesh2)
                self.args = [dirs if numbered else dirs[0], ldir, lval]
                self.build = lambda a: LinearElasticity.from_mesh_tags(self.basis, *a, 100.0, 0.3)
            self.dirs = dirs
        else:
            self.dirs = []
            self.ncase = nreg
            self.cases = regs
            vals = [float(rng.uniform(-10, 50)) for _ in regs]
            self.want_dofs = set().union(*[dofs_of(self.basis, nodes_of(mesh, f), None) for f in regs])
            use_robin = way == "tags" or rng.random() < 0.75
            nrob = int(rng.choice([1, 1, 2]))
            robs = [random_facets(rng, mesh) for _ in range(nrob)]
            rlist = nrob > 1 or rng.random() < 0.5
            h = [float(rng.uniform(0.1, 5)) for _ in robs]
            te = [float(rng.uniform(-5, 40)) for _ in robs]
            if use_robin:
                self.robin = nodes_of(mesh, np.concatenate(robs))
                self.design_robin = [None, True, False][int(rng.integers(3))]
            vals_arg = vals if nreg > 1 or rng.random() < 0.5 else vals[0]
            if way == "facets":
                self.args = [regs, vals_arg,
                             (robs if rlist else robs[0]) if use_robin else None,
                             (h if rlist else h[0]) if use_robin else None,
                             (te if rlist else te[0]) if use_robin else None,
                             self.design_robin, self.design]
                self.build = lambda a: LinearHeatConduction.from_facets(self.basis, *a, 2.0)
            else:
                b = {f"dirichlet_{k}": f for k, f in zip(gen.region_numbers(rng, nreg), regs)} if nreg > 1 or as_list else {"dirichlet": regs[0]}
                b.update({f"robin_{k}": f for k, f in zip(gen.region_numbers(rng, nrob), robs)} if rlist else {"robin": robs[0]})
                items = list(b.items())
                items = [items[k] for k in rng.permutation(len(items))]
                self.design = np.sort(self.design)
                mesh2 = mesh.with_boundaries(dict(items)).with_subdomains({"design": self.design})
                self.basis = gen.scalar_basis(mesh2)
                self.args = [vals_arg, h if rlist else h[0], te if rlist else te[0], self.design_robin]
                self.build = lambda a: LinearHeatConduction.from_mesh_tags(self.basis, *a, 2.0)
        self.as_list = as_list
        out = touching(mesh, self.loaded) if self.loaded is not None else set()
        if self.design_robin is False:
            out |= touching(mesh, self.robin)
        self.excluded = out
        self.want_design = ints(self.design) - out


def judge(m, P, t):
    mesh = P.mesh
    alle, alld = set(range(mesh.nelements)), set(range(P.basis.N))
    got = t.dirichlet_dofs
    if isinstance(got, list):
        for k, d in enumerate(got):
            if not P.elastic:
                m.ok(ints(d) == dofs_of(P.basis, nodes_of(mesh, P.cases[k]), None), "case-unknowns", case=k)
        got = np.concatenate(got)
    m.ok(ints(got) == P.want_dofs, "constrained-unknowns", extra=len(ints(got) - P.want_dofs), missing=len(P.want_dofs - ints(got)))
    free = ints(t.free_dofs)
    m.ok(not (free & P.want_dofs) and free | P.want_dofs == alld and len(free) == np.size(t.free_dofs), "unknowns-partitioned",
         both=len(free & P.want_dofs), none=len(alld - free - P.want_dofs))
    d, f = ints(t.design_elements), ints(t.fixed_elements)
    m.ok(d == P.want_design and len(d) == np.size(t.design_elements), "design-elements",
         extra=sorted(d - P.want_design)[:5], missing=sorted(P.want_design - d)[:5])
    m.ok(not (d & f) and d | f == alle and ints(t.all_elements) == alle, "elements-partitioned", both=len(d & f), none=len(alle - d - f))
    m.equal(t.design_mask, [e in d for e in range(mesh.nelements)], "design-mask")
    if P.loaded is not None:
        want = touching(mesh, P.loaded)
        m.ok(ints(t.neumann_elements) == want, "loaded-elements", got=len(ints(t.neumann_elements)), want=len(want))
        m.ok(not (want & d), "loaded-not-designable", elements=sorted(want & d)[:5])
        m.ok(ints(t.neumann_nodes_all) == ints(P.loaded), "loaded-nodes")
        if hasattr(t, "force_elements"):
            m.ok(ints(t.force_elements) == want and ints(t.force_elements_all) == want and ints(t.dirichlet_force_elements) == want | touching(mesh, P.clamped),
                 "loaded-elements", alias=True)
    if P.design_robin is False:
        m.ok(not (touching(mesh, P.robin) & d), "cooled-not-designable")
    if P.robin is not None:
        m.ok(ints(t.robin_elements) == touching(mesh, P.robin) and ints(t.robin_nodes) == ints(P.robin), "cooled-elements")
    cl = touching(mesh, P.clamped)
    m.ok(ints(t.dirichlet_elements) == cl, "clamped-elements", got=len(ints(t.dirichlet_elements)), want=len(cl))
    want = cl | (touching(mesh, P.loaded) if P.loaded is not None else set())
    m.ok(ints(t.dirichlet_neumann_elements) == want, "clamped-or-loaded-elements")
    nd = P.basis.nodal_dofs
    fn = [n for n in range(mesh.nvertices) if any(int(x) in free for x in nd[:, n])]
    m.ok(ints(t.free_elements) == touching(mesh, fn), "free-elements")
    if type(t) is not FEMDomain:
        m.ok(t.n_tasks == (P.nload if P.elastic else P.ncase), "load-cases", got=t.n_tasks)


def one(m, i):
    rng = m.rng("task", i)
    mesh, info = gen.random_mesh(rng, 60)
    how = ["elastic/facets", "elastic/nodes", "elastic/tags", "heat/facets", "heat/tags"][i % 5]
    with m.case(f"task-{i}", how=how, **info):
        P = Problem(rng, mesh, how)
        before = freeze(P.args)
        p0, t0 = mesh.p.copy(), mesh.t.copy()
        if not P.want_design:
            try:
                P.build(P.args)
                m.ok(False, "empty-design-refused")
            except ValueError:
                m.count("empty-design-refused")
            return
        t = P.build(P.args)
        m.ok(unchanged(before, P.args) and np.array_equal(mesh.p, p0) and np.array_equal(mesh.t, t0), "inputs-unchanged")
        judge(m, P, t)
        first = signature(t)

        # other problems built in between must not matter
        mesh2, _ = gen.random_mesh(rng, 40)
        Q = Problem(rng, mesh2, ["elastic/facets", "heat/facets", "elastic/nodes"][i % 3])
        if Q.want_design:
            q = Q.build(Q.args)
            judge(m, Q, q)
            if rng.random() < 0.5:
                q.exlude_dirichlet_from_design()
        t2 = P.build(freeze(before))
        d = sig_diff(first, signature(t2))
        m.ok(not d, "same-again", differ=d)
        d = sig_diff(first, signature(t))
        m.ok(not d, "same-again", differ=d, what="the first task")

        t.exlude_dirichlet_from_design()
        cl = touching(mesh, P.clamped)
        d, f = ints(t.design_elements), ints(t.fixed_elements)
        m.ok(d == P.want_design - cl and f == set(range(mesh.nelements)) - d, "clamped-excluded",
             left=sorted(d & cl)[:4], lost=sorted((P.want_design - cl) - d)[:4])
        m.ok(not sig_diff(first, signature(t2)), "same-again", what="a second task, after the first one's adjustment")
        t.exlude_dirichlet_from_design()
        m.ok(ints(t.design_elements) == d, "clamped-excluded", what="twice")
        m.ok(unchanged(before, P.args), "inputs-unchanged", after="adjustment")
        m.seen(how, info["kind"], sorted(P.dirs), P.as_list, P.design_robin, len(P.want_design) == mesh.nelements - len(P.excluded))
        m.sample(how=how, design=len(P.want_design), constrained=len(P.want_dofs))


def through_the_optimizer(m, i):
    """The partition as an optimizer leaves it."""
    rng = m.rng("opt", i)
    r = gen.Run(m, rng, iters=2, max_elems=40, design_dirichlet=bool(i % 2))
    with m.case(f"optimizer-{i}", **r.info, design_dirichlet=r.cfg.design_dirichlet):
        t = r.task
        d, f = ints(t.design_elements), ints(t.fixed_elements)
        alle = set(range(t.mesh.nelements))
        m.ok(not d & f and d | f == alle, "elements-partitioned", what="optimizer")
        cl = ints(t.dirichlet_elements)
        if not r.cfg.design_dirichlet:
            m.ok(not (d & cl), "clamped-excluded", what="optimizer", left=sorted(d & cl)[:4])
        elif t.neumann_elements is None:
            m.ok(bool(d & cl), "clamped-excluded", what="kept on request")
        if t.neumann_elements is not None:
            m.ok(not (d & ints(t.neumann_elements)), "loaded-not-designable", what="optimizer")
    r.close()


def run(m):
    for i in range(m.pick(320, 9000)):
        if m.mine(i) and not m.out_of_time():
            one(m, i)
    for i in range(m.pick(24, 400)):
        if m.mine(i) and not m.out_of_time():
            through_the_optimizer(m, i)
