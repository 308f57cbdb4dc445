"""C35: equivalent ways of writing the same request give the same result.

Each case writes one problem or one set of settings in two or more ways that
mean the same (whole numbers and decimals, one thing and a list of it, other
orders and integer types of the same ids, a constant and a continuation that
stays, settings left out and settings
given at their default), carries all of them out and compares the results."""
import dataclasses
import pathlib
import numpy as np
import skfem
import gen
from sktopt import core, fea, tools
from sktopt.tools import SchedulerConfig as SC
from sktopt.mesh import LinearElasticity, LinearHeatConduction

RULE = "distinct (kind of spelling, setting or part, optimizer, physics) pairs of equivalent requests carried out and compared"
ASSUMPTIONS = ["short runs, so that rounding differences between equivalent spellings stay rounding differences"]
TIME = {"quick": 220, "thorough": 640}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"same-run": 80, "same-problem": 100, "same-schedule": 200, "same-record": 40}


# ---------------------------------------------------------------- runs
def outcome(m, task, kind, settings):
    """Everything a run reports, or the refusal."""
    from tracer import stub_plots
    stub_plots()
    dst = m.scratch("spelled")
    cls = core.OC_Config if kind == "oc" else core.LogMOC_Config
    out = {}
    try:
        o = gen.optimizer(cls(dst_path=str(dst), **settings), task)
        o.optimize()
        for n, h in o.recorder.histories.items():
            out["history " + n] = np.asarray(h.data, float)
        for f in sorted(pathlib.Path(dst).glob("data/*.npz")):
            z = np.load(f)
            for k in z.files:
                if np.asarray(z[k]).dtype.kind in "fiu":
                    v = np.asarray(z[k], float)
                    if v.shape == np.shape(task.design_elements) and "design" in k:      # by element, whatever the order given
                        v = v[np.argsort(task.design_elements)]
                    out[f"{f.name} {k}"] = v
    finally:
        m.drop(dst)
    return out


def same(m, a, b, rule, rtol, **d):
    m.ok(sorted(a) == sorted(b), rule, only_one=sorted(set(a) ^ set(b))[:6], **d)
    for k in sorted(set(a) & set(b)):
        if a[k].shape != b[k].shape:
            m.ok(False, rule, what=k, shapes=[a[k].shape, b[k].shape], **d)
            continue
        s = np.max(np.abs(b[k][np.isfinite(b[k])]), initial=0.0)
        d_ = np.array(np.abs(a[k] - b[k]), ndmin=1)
        d_[np.atleast_1d((a[k] == b[k]) | (np.isnan(a[k]) & np.isnan(b[k])))] = 0.0
        floor = 1e-6 if "vol_error" in k or "kkt" in k else 1e-300
        m.ok(np.max(d_, initial=0.0) <= rtol * max(s, floor), rule, what=k, err=np.max(d_, initial=0.0), of=s, **d)


def base_settings(rng, mesh, kind):
    """Settings whose numbers are all whole (as decimals)."""
    h = max(1.0, float(round(gen.edge_length(mesh))))
    kw = dict(
        max_iters=int(rng.integers(2, 5)), record_times=99, interpolation=str(rng.choice(["SIMP", "RAMP"])),
        filter_type=str(rng.choice(["spacial", "helmholtz"])), filter_radius=SC.constant(target_value=float(h * rng.integers(1, 3))),
        p=SC.constant(target_value=float(rng.integers(1, 5))), beta=SC.constant(target_value=float(rng.integers(1, 6))),
        vol_frac=SC.constant(target_value=float(rng.uniform(0.4, 0.7))), move_limit=SC.constant(target_value=float(rng.uniform(0.05, 0.3))),
        percentile=SC.constant(target_value=float(rng.integers(40, 100))), rho_min=0.01, rho_max=1.0, beta_eta=0.5,
        E_min_coeff=1e-3, design_dirichlet=True, solver_option="spsolve", sensitivity_filter=bool(rng.random() < 0.3),
    )
    if rng.random() < 0.5:
        kw["p"] = SC.step_accelerating(init_value=1.0, target_value=4.0, num_steps=2, curvature=2.0)
        kw["percentile"] = SC.step(init_value=60.0, target_value=90.0, num_steps=2)
    if kind == "oc":
        kw.update(eta=SC.constant(target_value=1.0), scaling_rate_min=float(rng.choice([0.5, 1.0])), scaling_rate_max=2.0, lambda_upper=1e7)
    else:
        kw.update(eta=float(rng.choice([0.5, 1.0])), mu_p=float(rng.integers(1, 9)), lambda_decay=1.0, lagrangian_clip=1.0,
                  lagrangian_percentile=90.0, lambda_lower=-1.0, lambda_upper=1.0, augmented_lagrangian_mu=2.0,
                  volume_chain_gain=1.0)
    return kw


def respell(v, how):
    """A whole-numbered decimal in another numeric type."""
    if isinstance(v, SC):
        f = {}
        for x in dataclasses.fields(v):
            y = getattr(v, x.name)
            if x.name in ("init_value", "target_value", "curvature") and isinstance(y, float) and (how == "float64" or y == int(y)):
                f[x.name] = {"int": int, "float64": np.float64}[how](y)
        return dataclasses.replace(v, **f), bool(f)
    if isinstance(v, float) and (how == "float64" or v == int(v)):
        return {"int": int, "float64": np.float64}[how](v), True
    return v, False


def some_task(rng, m, loads=1, heat=False):
    if heat:
        t, info = gen.heat_with_room(rng, m.pick(30, 60), cases=loads)
    else:
        t, info = gen.elastic_with_room(rng, m.pick(30, 60), loads=loads, E=float(rng.choice([1.0, 200.0])), F=1.0, nu=float(rng.choice([0.0, 0.3])))
    return t, info


def numbers(m, i):
    rng = m.rng("numbers", i)
    kind, heat = ["oc", "logmoc"][m.nth(i, 2, "k")], m.nth(i, 3, "h") == 0
    task, info = some_task(rng, m, loads=int(rng.integers(1, 3)), heat=heat)
    kw = base_settings(rng, task.mesh, kind)
    with m.case(f"numbers-{i}", **info, physics="heat" if heat else "elastic", optimizer=kind):
        a = outcome(m, task, kind, kw)
        m.ok(len(a) > 3, "same-run", results=len(a))
        names = [n for n in kw if respell(kw[n], "int")[1]]
        picks = [[n] for n in rng.permutation(names)[:m.pick(3, 8)]] + [names]
        if "percentile" in names and ["percentile"] not in picks:
            picks.append(["percentile"])
        for group in picks:
            how = str(rng.choice(["int", "int", "float64"]))
            b = outcome(m, task, kind, {n: (respell(v, how)[0] if n in group else v) for n, v in kw.items()})
            same(m, b, a, "same-run", 1e-7, spelled=how, settings=",".join(group)[:80])
            for n in group:
                m.seen("number", n, how, kind, heat)
        if rng.random() < 0.5:      # the defaults of the settings, written out
            cls = core.OC_Config if kind == "oc" else core.LogMOC_Config
            full = dict(kw)
            for f in dataclasses.fields(cls):
                if f.init and f.name not in full and f.name not in ("dst_path", "solver_config"):
                    if f.default is not dataclasses.MISSING:
                        full[f.name] = f.default
                    elif f.default_factory is not dataclasses.MISSING:
                        full[f.name] = f.default_factory()
            same(m, outcome(m, task, kind, full), a, "same-run", 0.0, spelled="defaults written out")
            m.seen("defaults", kind, heat)


def stays(rng, v):
    """A continuation that never leaves v."""
    n, c = int(rng.integers(1, 6)), float(rng.uniform(0.5, 4))
    return [("step", SC.step(init_value=v, target_value=v, num_steps=n)),
            ("accelerating", SC.step_accelerating(init_value=v, target_value=v, num_steps=n, curvature=c)),
            ("decelerating", SC.step_decelerating(init_value=v, target_value=v, num_steps=n, curvature=c))][int(rng.integers(3))]


def settings(m, i):
    """Continuations that stay, and a full load from the start."""
    rng = m.rng("settings", i)
    kind, heat = ["oc", "logmoc"][m.nth(i, 2, "k")], m.nth(i, 3, "h") == 0
    loads = int(rng.integers(1, 3))
    task, info = some_task(rng, m, loads=loads, heat=heat)
    kw = base_settings(rng, task.mesh, kind)
    for n in ("p", "percentile"):
        kw[n] = SC.constant(target_value=float(rng.integers(1, 4) if n == "p" else rng.integers(40, 100)))
    with m.case(f"settings-{i}", **info, physics="heat" if heat else "elastic", optimizer=kind):
        a = outcome(m, task, kind, kw)
        sched = [n for n, v in kw.items() if isinstance(v, SC)]
        for n in rng.permutation(sched)[:m.pick(3, 6)]:
            name, s = stays(rng, kw[n].target_value)
            same(m, outcome(m, task, kind, {**kw, n: s}), a, "same-run", 1e-7, spelled=f"{n} as {name} that stays")
            m.seen("stays", str(n), name, kind, heat)
        name, s = [("step", SC.step_to_one(num_steps=1)), ("accelerating", SC.step_accelerating_to_one(num_steps=1, curvature=2.0)),
                   ("decelerating", SC.step_decelerating_to_one(num_steps=1, curvature=2.0))][int(rng.integers(3))]
        same(m, outcome(m, task, kind, {**kw, "neumann_scale": s}), a, "same-run", 1e-9, spelled=f"full load at once as {name}")
        m.seen("full load", name, kind, heat)


# ---------------------------------------------------------------- problems
def facts(task):
    """What a problem says, independent of the order it was said in."""
    out = {"design": np.sort(np.asarray(task.design_elements)).astype(float),
           "fixed": np.sort(np.asarray(task.fixed_elements)).astype(float),
           "volumes": np.asarray(task.elements_volume, float)}
    if isinstance(task, LinearElasticity):
        f = task.neumann_linear
        for k, x in enumerate(f if isinstance(f, list) else [f]):
            out[f"load {k}"] = np.asarray(x, float)
        out["supports"] = np.unique(np.asarray(task.dirichlet_dofs)).astype(float)
        out["free"] = np.unique(np.asarray(task.free_dofs)).astype(float)
        out["stiffness"] = np.array([task.E, task.nu], float)
    else:
        v = task.dirichlet_values
        n = task.dirichlet_nodes
        v, n = (v if isinstance(v, list) else [v]), (n if isinstance(n, list) else [n])
        v = v if len(v) == len(n) else v * len(n)
        for k, (a, b) in enumerate(zip(n, v)):
            out[f"case {k}"] = np.concatenate([np.unique(np.asarray(a)).astype(float), [float(b)]])
        out["coefficient"] = np.array([task.material_coef], float)
    for n in ("dirichlet_elements", "neumann_elements", "robin_elements"):
        x = getattr(task, n, None)
        if x is not None:
            out[n] = np.unique(np.concatenate([np.ravel(y) for y in x]) if isinstance(x, list) else np.asarray(x)).astype(float)
    return out


def solved(task, rho, p):
    heat = isinstance(task, LinearHeatConduction)
    if heat:
        n = len(task.dirichlet_values) if isinstance(task.dirichlet_values, list) else 1
        f = fea.FEM_SimpLinearHeatConduction(task, 1e-3)
    else:
        n = len(task.neumann_linear) if isinstance(task.neumann_linear, list) else 1
        f = fea.FEM_SimpLinearElasticity(task, 1e-3)
    u = np.zeros((task.basis.N, n))
    j = f.objectives_multi_load(rho, p, u)
    return {"objective": np.ravel(np.asarray(j, float)), "state": u}


def retype(rng, ids):
    how = str(rng.choice(["int32", "shuffled", "repeated", "strided", "reversed"]))
    a = np.asarray(ids)
    if how == "int32":
        return a.astype(np.int32), how
    if how == "shuffled":
        return rng.permutation(a), how
    if how == "reversed":
        return a[::-1], how
    if how == "strided":
        b = np.zeros(2 * len(a), a.dtype)
        b[::2] = a
        return b[::2], how
    return a, "as given"


def problems(m, i):
    rng = m.rng("problems", i)
    heat = m.nth(i, 2, "h") == 0
    for _ in range(40):
        mesh, info = gen.random_mesh(rng, m.pick(50, 120))
        d0, d1, d2 = gen.face(mesh, 0, 0), gen.face(mesh, 1, 0), gen.face(mesh, 2, 0)
        s0, s1 = gen.face(mesh, 0, 1), gen.face(mesh, 2, 1)
        if max(len(d0), len(s0), len(s1)) >= 2 and mesh.nelements >= 6:
            break
    design = np.arange(mesh.nelements) if rng.random() < 0.5 else np.sort(rng.choice(mesh.nelements, max(3, mesh.nelements * 2 // 3), replace=False))
    rho, p = rng.uniform(0.05, 1, mesh.nelements), float(rng.choice([1.0, 3.0]))
    with m.case(f"problems-{i}", **info, physics="heat" if heat else "elastic"):
        vectors = gen.vector_basis(mesh)
        scalars = gen.scalar_basis(mesh)

        def twins(make, pairs):
            try:
                a = make()
            except ValueError as e:
                if "empty" in str(e):
                    return
                raise
            fa, sa = facts(a), solved(a, rho, p)
            for what, over in pairs:
                b = make(**over)
                same(m, facts(b), fa, "same-problem", 1e-12, spelled=what)
                same(m, solved(b, rho, p), sa, "same-problem", 1e-8, spelled=what)
                m.seen("problem", what, info["kind"], heat)
            if m.nth(i, 2, "run") or (heat and len(set(T + [te])) == 1):
                return
            kind = ["oc", "logmoc"][m.nth(i, 2, "kind")]
            kw = {**base_settings(rng, mesh, kind), "max_iters": 2}
            ra = outcome(m, a, kind, kw)
            every = [q for q in pairs if "design" in q[0]] + [pairs[int(rng.integers(len(pairs)))]]
            for what, over in every:
                same(m, outcome(m, make(**over), kind, kw), ra, "same-run", 1e-6, spelled=what)
                m.seen("problem run", what, kind, heat)

        if not heat:
            E, nu, F = float(rng.integers(1, 300)), 0.0, float(rng.integers(1, 9))
            n = int(rng.integers(1, 4))
            surf = [s0, s1, s0][:n]
            dirs = ["u^1", "u^3", "u^2"][:n]
            vals = [F * (k + 1) for k in range(n)]
            full = dict(df=d0, dd="all", ff=surf, fd=dirs, fv=vals, de=design, E=E, nu=nu)

            def make(**o):
                k = {**full, **o}
                return LinearElasticity.from_facets(vectors, k["df"], k["dd"], k["ff"], k["fd"], k["fv"], k["de"], k["E"], k["nu"])
            pairs = [("stiffness as a whole number", dict(E=int(E))), ("contraction as a whole number", dict(nu=0)),
                     ("forces as whole numbers", dict(fv=[int(v) for v in vals])),
                     ("support as a list of one", dict(df=[d0], dd=["all"])),
                     ("support direction by direction", dict(df=[d0, d0, d0], dd=["u^1", "u^2", "u^3"]))]
            if len(d0) >= 2:
                k = int(rng.integers(1, len(d0)))
                pairs.append(("support in two parts", dict(df=[d0[:k], d0[k:]], dd=["all", "all"])))
            if n == 1:
                pairs.append(("load not in a list", dict(ff=surf[0], fd=dirs[0], fv=vals[0])))
                pairs.append(("load as a whole number, not in a list", dict(ff=surf[0], fd=dirs[0], fv=int(vals[0]))))
            for name, key in (("supported facets", "df"), ("design elements", "de")):
                x, how = retype(rng, full[key])
                pairs.append((f"{name} {how}", {key: x}))
            x, how = retype(rng, surf[-1])
            pairs.append((f"loaded facets {how}", dict(ff=surf[:-1] + [x])))
            twins(make, pairs)
        else:
            n = int(rng.integers(1, 4))
            faces = [[d0, d1, d2][k] for k in range(n)]
            T = [float(rng.integers(-5, 90)) for _ in range(n)]
            h, te = float(rng.integers(1, 9)), float(rng.integers(0, 50))
            full = dict(df=faces, dv=T, rf=[s0], h=[h], te=[te], de=design, k=float(rng.integers(1, 60)), w=0.0)

            def make(**o):
                q = {**full, **o}
                return LinearHeatConduction.from_facets(scalars, q["df"], q["dv"], q["rf"], q["h"], q["te"], None, q["de"], q["k"], "compliance", q["w"])
            pairs = [("temperatures as whole numbers", dict(dv=[int(t) for t in T])), ("conductivity as a whole number", dict(k=int(full["k"]))),
                     ("film in a list of whole numbers", dict(h=[int(h)], te=[int(te)])),
                     ("film not in a list", dict(rf=s0, h=h, te=te)), ("film facets in a list, its numbers not", dict(h=h, te=te)),
                     ("weight as a whole number", dict(w=0))]
            if n == 1:
                pairs.append(("temperature not in a list", dict(dv=T[0])))
            if len(s0) >= 2:
                k = int(rng.integers(1, len(s0)))
                pairs.append(("film in two parts of one number", dict(rf=[s0[:k], s0[k:]], h=h, te=te)))
            for name, key in (("cooled facets", "df"), ("design elements", "de"), ("film facets", "rf")):
                x, how = retype(rng, full[key] if key == "de" else full[key][-1])
                pairs.append((f"{name} {how}", {key: x if key == "de" else full[key][:-1] + [x]}))
            twins(make, pairs)


# ---------------------------------------------------------------- schedules and records
def schedules(m, i):
    rng = m.rng("schedules", i)
    total = int(rng.integers(1, 40))
    a, b = float(rng.integers(-3, 9)), float(rng.integers(-3, 9))
    n, c = int(rng.integers(1, 9)), float(rng.integers(1, 5))
    kinds = {"constant": lambda f: SC.constant(target_value=f(b)),
             "step": lambda f: SC.step(init_value=f(a), target_value=f(b), num_steps=n),
             "accelerating": lambda f: SC.step_accelerating(init_value=f(a), target_value=f(b), num_steps=n, curvature=f(c)),
             "decelerating": lambda f: SC.step_decelerating(init_value=f(a), target_value=f(b), num_steps=n, curvature=f(c)),
             "to one": lambda f: SC.step_accelerating_to_one(num_steps=n, curvature=f(c))}
    name = sorted(kinds)[int(rng.integers(len(kinds)))]
    with m.case(f"schedules-{i}", schedule=name, init=a, target=b, steps=n, iters=total):
        def values(f, it):
            s = tools.Schedulers(str(m.scratch("s")))
            s.add_object_from_config(kinds[name](f), "x")
            s.set_iters_max(total)
            return np.array([float(s.values_as_list(k, ["x"], export_log=False)[0]) for k in it])
        its = np.arange(1, total + 3)
        ref = values(float, its)
        for how, f in (("int", int), ("int64", np.int64), ("float64", np.float64)):
            m.close(values(f, its), ref, "same-schedule", rtol=1e-12, spelled=how)
            m.seen("schedule", name, how)
        m.close(values(float, its[::-1])[::-1], ref, "same-schedule", rtol=0.0, spelled="asked backwards")


def records(m, i):
    rng = m.rng("records", i)
    kind = str(rng.choice(["scalar", "array"]))
    n = int(rng.integers(1, 9))
    data = [float(rng.integers(-50, 50)) if kind == "scalar" else rng.integers(-50, 50, int(rng.integers(1, 9))).astype(float) for _ in range(n)]
    forms = {"scalar": {"float": float, "int": int, "int64": np.int64, "float64": np.float64, "0-d": np.asarray, "0-d int": lambda v: np.asarray(int(v))},
             "array": {"float": np.asarray, "int": lambda v: v.astype(int), "reversed view": lambda v: v[::-1][::-1], "read-only": locked}}[kind]
    with m.case(f"records-{i}", entries=kind, n=n):
        ref = None
        for how, f in forms.items():
            h = tools.HistoryCollection(str(m.scratch("h")))
            h.add("x", plot_type="min-max-mean-std" if kind == "array" else "value")
            for v in data:
                h.feed_data("x", f(v))
            s = h.histories["x"]
            got = {"data": np.asarray(s.data_to_array()[0], float), "latest": np.ravel(np.asarray(h.latest("x"), float)),
                   "numpy": np.asarray(h.as_object().x, float) if hasattr(h, "as_object") else np.zeros(1)}
            if ref is None:
                ref = got
            same(m, got, ref, "same-record", 1e-12, spelled=how)
            m.seen("record", kind, how)


def locked(v):
    w = np.array(v)
    w.flags.writeable = False
    return w


def run(m):
    for fn, q, t in ((numbers, 16, 200), (settings, 12, 160), (problems, 48, 700), (schedules, 80, 1200), (records, 40, 400)):
        for i in range(m.pick(q, t)):
            if m.mine(i) and not m.out_of_time():
                fn(m, i)
