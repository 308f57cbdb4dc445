"""C34: requests that cannot be honoured are refused and change nothing.

Every request is made next to its valid twin in the same surroundings: the
valid one must be served, the spoiled one must raise, the objects it was made
on must be as before, and the valid one must then be served as before."""
import argparse
import contextlib
import dataclasses
import hashlib
import io
import os
import pathlib
import numpy as np
import scipy.sparse as sparse
import skfem
import gen
from sktopt import tools
from sktopt.tools import SchedulerConfig as SC
from sktopt.mesh import LinearElasticity, LinearHeatConduction

RULE = "distinct (request, spoiled part, surroundings) requests made of the library and seen refused"
ASSUMPTIONS = ["any exception counts as a refusal; its type and text are not judged",
               "only requests the library itself declares impossible are made"]
TIME = {"quick": 200, "thorough": 600}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"refused": 400, "valid-twin-served": 300, "nothing-changed": 400, "served-afterwards": 100, "no-iteration-done": 20}


def stamp(x, depth=0):
    """A fingerprint of the observable contents of an object."""
    if x is None or isinstance(x, (str, int, float, bool, complex, np.generic)):
        return repr(x)
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest())
    if sparse.issparse(x):
        c = sparse.csr_matrix(x)
        return [stamp(np.asarray(v)) for v in (c.data, c.indices, c.indptr)]
    if isinstance(x, (list, tuple)):
        return [stamp(v, depth + 1) for v in x]
    if isinstance(x, dict):
        return sorted((str(k), str(stamp(v, depth + 1))) for k, v in x.items())
    if isinstance(x, skfem.Mesh):
        return stamp([x.p, x.t], depth + 1)
    if isinstance(x, (skfem.Basis, skfem.AbstractBasis)):
        return stamp([x.mesh, int(x.N)], depth + 1)
    if depth < 4 and type(x).__module__.startswith("sktopt"):
        if dataclasses.is_dataclass(x) or hasattr(x, "__dict__"):
            return (type(x).__name__, stamp({k: v for k, v in vars(x).items() if not k.startswith("_")}, depth + 1))
    return type(x).__name__


def tree(path):
    """The results in a directory (not the settings or the schedule charts)."""
    out = {}
    for p in sorted(pathlib.Path(path).rglob("*")):
        rel = str(p.relative_to(path))
        if p.is_file() and (rel.startswith(("data", "mesh_rho")) or rel == "histories.npz"):
            out[rel] = hashlib.sha1(p.read_bytes()).hexdigest()
    return out


class Asker:
    def __init__(self, m):
        self.m = m

    def attempt(self, call):
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                return True, call()
            except SystemExit as e:
                return (e.code in (0, None)), e.code
            except Exception as e:      # a refusal
                return False, e

    def __call__(self, request, good, bad, watch=(), value=None, **d):
        """good() is the valid request; bad: {what is spoiled: call}."""
        m = self.m
        first = None
        if good is not None:
            served, got = self.attempt(good)
            m.ok(served, "valid-twin-served", request=request, error=None if served else repr(got), **d)
            first = stamp(value(got) if value else got) if served else None
        for what, call in bad.items():
            before = [stamp(w() if callable(w) else w) for w in watch]
            served, got = self.attempt(call)
            m.ok(not served, "refused", request=request, spoiled=what, returned=repr(got)[:120], **d)
            after = [stamp(w() if callable(w) else w) for w in watch]
            m.ok(before == after, "nothing-changed", request=request, spoiled=what, **d)
            m.seen(request, what, sorted(map(str, d.values())))
        if good is not None and value is not None:
            served, got = self.attempt(good)
            m.ok(served and stamp(value(got)) == first, "served-afterwards", request=request, **d)


# ---------------------------------------------------------------- schedules
KINDS = {"Constant": ["target_value"], "Step": ["init_value", "target_value", "num_steps"],
         "StepAccelerating": ["init_value", "target_value", "num_steps", "curvature"],
         "StepDecelerating": ["init_value", "target_value", "num_steps", "curvature"],
         "SawtoothDecay": ["init_value", "target_value", "num_steps"],
         "StepToOne": ["num_steps"], "StepAcceleratingToOne": ["num_steps", "curvature"],
         "StepDeceleratingToOne": ["num_steps", "curvature"]}
FACTORY = {"Step": "step", "StepAccelerating": "step_accelerating", "StepDecelerating": "step_decelerating",
           "StepToOne": "step_to_one", "StepAcceleratingToOne": "step_accelerating_to_one",
           "StepDeceleratingToOne": "step_decelerating_to_one", "Constant": "constant"}


def schedules(m, i):
    rng = m.rng("schedules", i)
    ask = Asker(m)
    kinds = list(KINDS)
    kind = kinds[i % len(kinds)]
    vals = dict(init_value=float(rng.uniform(0.1, 1)), target_value=float(rng.uniform(1, 4)),
                num_steps=int(rng.integers(1, 9)), curvature=float(rng.uniform(1, 5)))
    n = int(rng.integers(2, 60))
    dst = m.scratch("s")
    with m.case(f"schedules-{i}", kind=kind, **vals, iters=n):
        S = tools.Schedulers(dst)
        for k in range(int(rng.integers(0, 4))):
            S.add_object_from_config(SC.constant(target_value=float(k), name=f"n{k}"), f"n{k}")

        def listed():
            return [(s.name, stamp(s)) for s in S.scheduler_list]
        need = {k: vals[k] for k in KINDS[kind]}
        to_one = kind.endswith("ToOne")

        def declare(**kw):
            return lambda: SC.from_defaults(name="a", scheduler_type=kind, **kw)
        bad = {f"no {k}": declare(**{a: b for a, b in need.items() if a != k}) for k in need}
        if to_one:
            bad["no steps at all"] = declare(**{**need, "num_steps": 0})
            bad["negative steps"] = declare(**{**need, "num_steps": -int(rng.integers(1, 9))})
            bad["another target"] = declare(**need, target_value=float(rng.choice([0.5, 2.0, -1.0])))
        ask("declare schedule", declare(**need), bad, watch=[listed], value=lambda c: [c.init_value, c.target_value, c.num_steps, c.curvature], kind=kind)
        names = ["linear", "step", "constant", "", "StepToTwo", kind.lower(), kind + " "]
        word = names[int(rng.integers(len(names)))]
        ask("declare schedule", None, {"unknown kind": lambda: SC.from_defaults(name="a", scheduler_type=word, **vals)}, watch=[listed], kind=word)
        ask("register schedule", None,
            {"unknown kind": lambda: S.add_object_from_config(dataclasses.replace(SC.constant(target_value=1.0, name="a"), scheduler_type=word), "a")},
            watch=[listed], kind=word)
        if kind in FACTORY:
            f = getattr(SC, FACTORY[kind])
            bad = {}
            for k in need:
                if k == "target_value" and kind == "Constant":
                    continue
                bad[f"None for {k}"] = (lambda k: lambda: f(**{**need, k: None}))(k)
            if kind == "Constant":
                bad = {}
            ask("schedule factory", lambda: f(**need), bad, watch=[listed], kind=kind)
        # the bare functions
        from sktopt.tools import scheduler as sch
        zero = int(rng.choice([0, -1, -7]))
        steps = {"schedule_step": dict(target_value=3.0, init_value=1.0, num_steps=3),
                 "schedule_step_accelerating": dict(target_value=3.0, init_value=1.0, num_steps=3, curvature=2.0),
                 "schedule_step_decelerating": dict(target_value=3.0, init_value=1.0, num_steps=3, curvature=2.0),
                 "schedule_sawtooth_decay": dict(target_value=0.1, init_value=0.3, num_steps=3)}
        for name, kw in steps.items():
            fn = getattr(sch, name)
            bad = {"no iterations": lambda: fn(it=1, total=zero, **kw)}
            if name == "schedule_sawtooth_decay":
                bad["no steps"] = lambda: fn(it=1, total=10, **{**kw, "num_steps": zero})
            ask(name, lambda: fn(it=1, total=10, **kw), bad, value=float)
    m.drop(dst)


# -------------------------------------------------------------------- tasks
def tasks(m, i):
    rng = m.rng("tasks", i)
    ask = Asker(m)
    mesh, info = gen.random_mesh(rng, 40)
    basis, scalar = gen.vector_basis(mesh), gen.scalar_basis(mesh)
    n = int(rng.integers(1, 4))
    faces = [gen.face(mesh, 0, 1), gen.face(mesh, 1, 1), gen.face(mesh, 2, 1)][:n]
    dirs = [f"u^{int(rng.integers(1, 4))}" for _ in range(n)]
    vals = [float(rng.uniform(1, 9)) for _ in range(n)]
    clamp, every = gen.face(mesh, 0, 0), np.arange(mesh.nelements)
    from sktopt.mesh import task_elastic as te, task_heat as th, utils
    from sktopt.fea import composer
    with m.case(f"tasks-{i}", **info, regions=n):
        word = ["x", "u1", "u^", "u^0", "U^1", "u^-1", "", "all", "1", "u^x", "u^4"][int(rng.integers(11))]
        k = int(rng.integers(n))
        wrong = dirs[:k] + [word] + dirs[k + 1:]
        nd = [dirs + ["u^1"], dirs[:-1]][int(rng.integers(2))]
        nv = [vals + [1.0], vals[:-1]][int(rng.integers(2))]
        nf = [faces + [faces[0]], faces[:-1]][int(rng.integers(2))]
        ask("surface forces", lambda: te.assemble_surface_forces(basis, faces, dirs, vals),
            {f"direction {word!r}": lambda: te.assemble_surface_forces(basis, faces, wrong, vals),
             "number of directions": lambda: te.assemble_surface_forces(basis, faces, nd, vals),
             "number of values": lambda: te.assemble_surface_forces(basis, faces, dirs, nv),
             "number of regions": lambda: te.assemble_surface_forces(basis, nf, dirs, vals)},
            watch=[basis, mesh], value=lambda f: f, regions=n)
        room = [f for f in [faces] if np.setdiff1d(every, touched(mesh, np.concatenate(f))).size]

        def build(design=every, F=faces, D=dirs, V=vals, C=clamp, cd="all"):
            return LinearElasticity.from_facets(basis, C, cd, F, D, V, design, 1.0, 0.3)
        if room:
            ask("elastic problem", build,
                {f"direction {word!r}": lambda: build(D=wrong), "number of values": lambda: build(V=nv),
                 "number of directions": lambda: build(D=nd),
                 "no design element": lambda: build(design=touched(mesh, np.concatenate(faces))),
                 "clamp given as text": lambda: build(C="left"),
                 "clamps and directions differ": lambda: build(C=[clamp, faces[0]], cd=["all"])},
                watch=[basis, mesh], value=lambda t: [t.design_elements, t.neumann_linear], regions=n)
        else:
            ask("elastic problem", None, {"no design element": build}, watch=[basis, mesh], regions=n)
        # thermal
        h, amb = [float(rng.uniform(1, 9)) for _ in range(n)], [float(rng.uniform(1, 90)) for _ in range(n)]
        nh = [h + [1.0], h[:-1]][int(rng.integers(2))]
        na = [amb + [1.0], amb[:-1]][int(rng.integers(2))]
        ask("film boundary", lambda: th.assemble_surface_robin(scalar, faces, h, amb),
            {"number of coefficients": lambda: th.assemble_surface_robin(scalar, faces, nh, amb),
             "number of ambient values": lambda: th.assemble_surface_robin(scalar, faces, h, na),
             "number of regions": lambda: th.assemble_surface_robin(scalar, nf, h, amb)},
            watch=[scalar], value=lambda r: list(r), regions=n)
        ask("surface flux", lambda: th.assemble_surface_neumann(scalar, faces, vals),
            {"number of values": lambda: th.assemble_surface_neumann(scalar, faces, nv),
             "number of regions": lambda: th.assemble_surface_neumann(scalar, nf, vals)}, watch=[scalar], value=lambda r: r, regions=n)
        goal = ["Compliance", "", "max_temp", "heat-exchange", "averagedtemp"][int(rng.integers(5))]

        def heat(objective="compliance", H=h, A=amb, C=None, v=None):
            return LinearHeatConduction.from_facets(scalar, [clamp] if C is None else C, [10.0] if v is None else v, faces, H, A, None, every, 2.0, objective, 0.0)
        ask("thermal problem", heat,
            {f"objective {goal!r}": lambda: heat(goal), "number of coefficients": lambda: heat(H=nh),
             "number of ambient values": lambda: heat(A=na), "regions and temperatures differ": lambda: heat(v=[1.0, 2.0]),
             "clamp given as text": lambda: heat(C="left")},
            watch=[scalar, mesh], value=lambda t: [t.design_elements, t.robin_linear], regions=n)
        # meshes of elements the library does not know
        for other in (skfem.MeshQuad().refined(1), skfem.MeshTri().refined(1), skfem.MeshLine().refined(1)):
            ask("foreign mesh", None,
                {"element volumes": lambda: composer.get_elements_volume(other),
                 "orientation": lambda: utils.fix_elements_orientation(other)}, mesh=type(other).__name__)
        # a tetrahedron turned inside out
        if info["kind"] == "tet":
            t = mesh.t.copy()
            e = int(rng.integers(t.shape[1]))
            t[[0, 1], e] = t[[1, 0], e]
            turned = mesh.t.copy()
            ok = composer.get_elements_volume(mesh)
            if np.all(np.asarray(ok) > 0) and hasattr(composer, "_get_elements_volume_tet"):
                ask("element volumes", None, {"inverted tetrahedron": lambda: composer._get_elements_volume_tet(t, mesh.p)}, watch=[turned])


def touched(mesh, facets):
    nodes = np.unique(mesh.facets[:, facets])
    return np.nonzero(np.isin(mesh.t, nodes).any(axis=0))[0]


# ---------------------------------------------------------- filters, solvers
def numerics(m, i):
    rng = m.rng("numerics", i)
    ask = Asker(m)
    from sktopt.filters import spacial
    from sktopt.fea import solver_elastic as se, composer
    loads = int(rng.integers(2, 4))
    t, info = gen.elastic_with_room(rng, 40, loads=loads, support="clamp", min_design=1)
    r = float(rng.uniform(0.2, 3))
    rho = rng.uniform(0.2, 1, t.mesh.nelements)
    with m.case(f"numerics-{i}", **info):
        word = ["cubic", "Linear", "", "gauss", "cone"][int(rng.integers(5))]
        kind = ["linear", "quadratic", "gaussian"][int(rng.integers(3))]
        ask("filter kernel", lambda: spacial.make_kernel(kind, r), {f"kind {word!r}": lambda: spacial.make_kernel(word, r)},
            value=lambda k: [k[0](np.linspace(0, 2 * r, 9)), k[1]])
        n = t.mesh.nelements
        mask = rng.random(n) < 0.7
        mask[int(rng.integers(n))] = True
        c = t.mesh.p[:, t.mesh.t].mean(axis=1)
        k, s = spacial.make_kernel(kind, r)
        ask("filter matrix", lambda: spacial.build_filter_matrix(c, k, s, design_mask=mask),
            {"nothing to filter": lambda: spacial.build_filter_matrix(c, k, s, design_mask=np.zeros(n, bool))}, watch=[c, mask], value=lambda x: x)
        F = t.neumann_linear
        word = ["lu", "SPSOLVE", "", "cg", "direct", "petsc4py"][int(rng.integers(6))]

        def solve(solver, k=0):
            return se.compute_compliance_basis(t.basis, t.free_dofs, t.dirichlet_dofs, F[k], t.E, 1e-3 * t.E, 2.0, t.nu, rho, solver=solver)
        ask("elastic solve", lambda: solve("spsolve"),
            {f"solver {word!r}": lambda: solve(word), "petsc absent": lambda: solve("petsc"), "petsc_spdirect absent": lambda: solve("petsc_spdirect")},
            watch=[t, rho], value=lambda x: x[1])
        U = np.zeros((t.basis.N, loads))

        def several(solver):
            return se.solve_multi_load(t.basis, t.free_dofs, t.dirichlet_dofs, F, t.E, 1e-3 * t.E, 2.0, t.nu, rho, U, solver=solver)
        ask("elastic solve, several loads", lambda: several("spsolve"),
            {"iterative solver": lambda: several(str(rng.choice(["cg_jacobi", "cg_pyamg"]))), "petsc absent": lambda: several("petsc")},
            watch=[t, rho, U], value=lambda x: U, loads=loads)
        thermal(m, ask, rng, rho=None)


def thermal(m, ask, rng, rho):
    """Thermal objectives that need something which is not there."""
    from checks.c19 import solver_of
    mesh, _ = gen.random_mesh(rng, 40)
    law = str(rng.choice(["SIMP", "RAMP"]))

    def problem(objective, robin):
        return gen.heat_task(np.random.default_rng(7), mesh, cases=1, robin=robin, objective=objective)
    try:
        with_film, without, plain = problem("heat_exchange", True), problem("heat_exchange", False), problem("compliance", False)
    except ValueError:
        return m.tally("no room for a thermal problem")
    rho = rng.uniform(0.2, 1, mesh.nelements)
    p = float(rng.uniform(1, 4))

    def value(task):
        T = np.zeros((task.basis.N, 1))
        return np.asarray(solver_of(task, 1e-3, law).objectives_multi_load(rho, p, T)), T
    ask("heat exchange", lambda: value(with_film), {"no film": lambda: value(without)}, watch=[rho], value=lambda x: x[1], law=law)
    ask("compliance without film", lambda: value(plain), {}, value=lambda x: x[1])

    def slope(task, first):
        fem = solver_of(task, 1e-3, law)
        T = np.zeros((task.basis.N, 1))
        if first:
            fem.objectives_multi_load(rho, p, T)
        return fem.energy_multi_load(rho, p, T)
    for objective in ("heat_exchange", "averaged_temp"):
        t = with_film if objective == "heat_exchange" else problem(objective, True)
        ask("adjoint energy", lambda: slope(t, True), {"no state solved yet": lambda: slope(t, False)}, watch=[rho], value=lambda x: x, objective=objective)


# -------------------------------------------------------- reports and records
def records(m, i):
    rng = m.rng("records", i)
    ask = Asker(m)
    dst = m.scratch("r")
    nested = bool(i % 2)
    with m.case(f"records-{i}", nested=nested):
        T = tools.SectionTimer(hierarchical=nested)
        empty = tools.SectionTimer(hierarchical=nested)
        for _ in range(int(rng.integers(1, 7))):
            T.add(str(rng.choice(["a", "b", "c", "a b"])), float(rng.uniform(0.1, 3)))

        def numbers():
            return sorted((s.name, s.count, s.total, s.avg, s.max) for s in T.stats())
        key = str(rng.choice(["total", "avg", "max", "count", "name"]))
        val = str(rng.choice(["total", "avg", "max", "count"]))
        w = ["min", "", "Total", "self", "median"][int(rng.integers(5))]
        ask("timer summary", lambda: T.summary(sort_by=key), {f"order {w!r}": lambda: T.summary(sort_by=w)}, watch=[numbers],
            value=lambda r: [s.name for s in r], order=key)
        ask("timer self times", lambda: T.summary_self_time(sort_by=key), {f"order {w!r}": lambda: T.summary_self_time(sort_by=w)}, watch=[numbers],
            value=lambda r: [s.name for s in r], order=key)
        pic = os.path.join(dst, "t.png")

        def there():
            return os.path.exists(pic)
        ask("timer chart", lambda: T.plot(kind="bar", value=val)[1],
            {f"value {w!r}": lambda: T.plot(kind="bar", value=w), "pie value": lambda: T.plot(kind="pie", value=w),
             "kind": lambda: T.plot(kind=["donut", "", "Bar"][int(rng.integers(3))], value=val),
             "order": lambda: T.plot(kind="bar", value=val, sort_by=w),
             "stack without nesting": lambda: T.plot(kind="bar", value=val, stacked_nested=True),
             "nothing timed": lambda: empty.plot(kind="bar"), "nothing timed, pie": lambda: empty.plot(kind="pie"),
             "nothing timed, saved": lambda: empty.save_plot(pic), "saved kind": lambda: T.save_plot(pic, kind="donut")},
            watch=[numbers, there])
        # histories
        H = tools.HistoryCollection(dst)
        H.add("a")
        H.add("b", plot_type="min-max-mean-std")
        H.add("empty")
        for _ in range(int(rng.integers(1, 5))):
            H.feed_data("a", float(rng.normal()))
            H.feed_data("b", rng.normal(size=5))

        def held():
            return {k: h.data for k, h in H.histories.items()}
        w = ["c", "", "A", "a "][int(rng.integers(4))]
        ask("latest entry", lambda: H.latest("a"), {f"unknown history {w!r}": lambda: H.latest(w), "nothing recorded": lambda: H.latest("empty")},
            watch=[held], value=float)
        ask("record", lambda: None, {f"unknown history {w!r}": lambda: H.feed_data(w, 1.0)}, watch=[held])
        S = type(H.histories["empty"])
        ask("history series", lambda: S("x", data=[1.0, 2.0]),
            {"data given as text": lambda: S("x", data="1 2"), "data given as a number": lambda: S("x", data=3.0)}, value=lambda s: s.data)
        ask("history series", lambda: S("x", data=[1.0]).data_np_array, {"empty as array": lambda: S("x").data_np_array}, value=lambda s: s)
        # command line words
        from sktopt.core import misc
        p = misc.add_common_arguments(argparse.ArgumentParser())

        def line(*a):
            return vars(p.parse_args([str(x) for x in a]))
        w = ["maybe", "2", "yes!", "ture"][int(rng.integers(4))]
        ask("command line", lambda: line("--max_iters", 5, "--export_img", "false"),
            {"a flag that is neither": lambda: line("--export_img", w), "an iteration count in words": lambda: line("--max_iters", "ten"),
             "an unknown option": lambda: line("--no-such-option", 3)}, value=lambda v: v)
        # files
        from sktopt.core import visualization as vz
        from sktopt.mesh import loader
        flat = os.path.join(dst, "flat.msh")
        import meshio
        meshio.write(flat, meshio.Mesh(np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0.0]]), [("triangle", np.array([[0, 1, 2]]))]), file_format="gmsh22", binary=False)
        solid = os.path.join(dst, "solid.msh")
        mesh, _ = gen.random_mesh(rng, 12)
        meshio.write(solid, meshio.Mesh(mesh.p.T.copy(), [("tetra" if mesh.t.shape[0] == 4 else "hexahedron", gen.meshio_cells(mesh) if hasattr(gen, "meshio_cells") else mesh.t.T.copy())]),
                     file_format="gmsh22", binary=False)
        out = os.path.join(dst, "o.jpg")
        ask("mesh file", lambda: loader.basis_from_file(solid),
            {"a surface mesh": lambda: loader.basis_from_file(flat), "no such file": lambda: loader.basis_from_file(os.path.join(dst, "none.msh"))},
            watch=[lambda: sorted(os.listdir(dst))])
        ask("picture of a mesh", None,
            {"no such mesh": lambda: vz.write_mesh_with_info_as_image(os.path.join(dst, "none.vtu"), "rho", (0.0, 1.0), out, "rho")},
            watch=[lambda: sorted(os.listdir(dst))])
        quad = skfem.MeshQuad().refined(1)
        ask("mesh export", None, {"unknown cells": lambda: vz.export_mesh_with_info(quad, cell_data_values=[np.ones(quad.nelements)], cell_data_names=["a"],
                                                                                  filepath=os.path.join(dst, "q.vtu"))},
            watch=[lambda: sorted(os.listdir(dst))])
    m.drop(dst)


# --------------------------------------------------------------------- runs
def runs(m, i):
    """Optimizers: refused before an iteration is done or a result written."""
    rng = m.rng("runs", i)
    ask = Asker(m)
    kind = ["oc", "logmoc"][m.nth(i, 2, "kind")]
    heat = m.nth(i, 3, "heat") == 0
    dst = m.scratch("run")
    if heat:
        task, info = gen.heat_with_room(rng, 30, cases=1)
    else:
        task, info = gen.elastic_with_room(rng, 30, loads=int(rng.integers(1, 3)))
    from tracer import stub_plots
    stub_plots()
    cfg = gen.config(rng, kind, dst, task.mesh, 3)
    seed = int(rng.integers(1 << 30))
    done = []

    def go(**over):
        r = np.random.default_rng(seed)
        d = over.pop("dst", None) or m.scratch("go")
        c = dataclasses.replace(cfg, dst_path=d, **over)
        import copy
        o = type_of(kind)(c, copy.deepcopy(task))
        o.parameterize()
        inner = o.rho_update
        o.rho_update = lambda *a, **k: (done.append(1), inner(*a, **k))[1]
        _ = r
        o.optimize()
        out = tree(d)
        return out, np.array(o._state.rho) if getattr(o, "_state", None) is not None else None

    def pick(*words):
        return words[int(rng.integers(len(words)))]
    with m.case(f"runs-{i}", **info, optimizer=kind, heat=heat):
        served, got = ask.attempt(lambda: go(dst=dst))
        m.ok(served, "valid-twin-served", request="run", error=None if served else repr(got))
        full = tree(dst)
        m.ok(len(full) > 0, "valid-twin-served", request="run", what="results", error="none written")
        requests = {
            "interpolation": dict(interpolation=pick("simp", "RAMPS", "", "ERSATZ")),
            "filter": dict(filter_type=pick("spatial", "", "Helmholtz", "none")),
            "neumann_scale": dict(neumann_scale=pick(SC.constant(target_value=0.5), SC.step(init_value=0.5, target_value=1.0, num_steps=2))),
            "schedule kind": {pick("p", "vol_frac", "beta"): dataclasses.replace(cfg.p, scheduler_type=pick("linear", "Steps", ""))},
            "restart of nothing": dict(restart=True),
            "restart from nothing": dict(restart=True, restart_from=int(rng.integers(1, 5))),
        }
        requests["solver"] = dict(solver_option=pick("lu", "SPSOLVE", "", "auto!"))
        if heat:
            requests["iterative solver"] = dict(solver_option=pick("cg_pyamg", "cg_jacobi"))
        requests["petsc absent"] = dict(solver_option=pick("petsc", "petsc_spdirect"))
        for what, over in requests.items():
            done.clear()
            served, got = ask.attempt(lambda: go(**over))
            m.ok(not served, "refused", request="run", spoiled=what, settings=str(over), kind=kind)
            m.ok(not done, "no-iteration-done", request="run", spoiled=what, iterations=len(done))
            m.seen("run", what, str(sorted(over.items()))[:60], kind, heat)
        # a restart that cannot be: the earlier results stay
        for what, over in {"restart from an iteration never saved": dict(restart=True, restart_from=int(rng.integers(4, 90)), max_iters=99)}.items():
            done.clear()
            served, got = ask.attempt(lambda: go(dst=dst, **over))
            m.ok(not served, "refused", request="run", spoiled=what)
            m.ok(not done, "no-iteration-done", request="run", spoiled=what)
            m.ok(tree(dst) == full, "nothing-changed", request="run", spoiled=what, lost=sorted(set(full) - set(tree(dst)))[:5])
            m.seen("run", what, over["restart_from"], kind, heat)
        ask("settings", lambda: type(cfg)(dst_path=dst), {"unknown setting": lambda: type(cfg)(dst_path=dst, no_such_setting=1)}, value=lambda c: dataclasses.asdict(c))
        # not a problem at all
        ask("optimizer", None, {"not a problem": lambda: type_of(kind)(dataclasses.replace(cfg, dst_path=m.scratch("x")), object())})
    m.drop(dst)


def type_of(kind):
    from sktopt.core import optimizers as co
    return {"oc": co.OC_Optimizer, "logmoc": co.LogMOC_Optimizer}[kind]


def run(m):
    for fn, q, t in ((runs, 24, 400), (schedules, 48, 800), (tasks, 48, 900), (numerics, 32, 500), (records, 32, 500)):
        for i in range(m.pick(q, t)):
            if m.mine(i) and not m.out_of_time():
                fn(m, i)
