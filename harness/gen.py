"""Workload generators: meshes, problems and configurations.

Everything is built from a numpy Generator, through the public API only.
"""
from __future__ import annotations
import numpy as np
import skfem

from sktopt.mesh import LinearElasticity, LinearHeatConduction
from sktopt.tools import SchedulerConfig as SC
import sktopt.core as core


# ---------------------------------------------------------------- meshes
def grid(rng, n, uniform=False):
    """n cells on [0, L] with uneven widths."""
    w = np.ones(n) if uniform else rng.uniform(0.5, 1.6, n)
    return np.concatenate([[0.0], np.cumsum(w)])


def tet_positive(p, t):
    """Positively oriented connectivity (own computation)."""
    t = np.array(t, copy=True)
    v = p[:, t]
    det = np.einsum('ij,ij->j', np.cross((v[:, 1] - v[:, 0]).T, (v[:, 2] - v[:, 0]).T).T, v[:, 3] - v[:, 0])
    neg = det < 0
    t[1, neg], t[2, neg] = t[2, neg].copy(), t[1, neg].copy()
    return t


def jitter(rng, p, amount, keep_planes=True):
    """Moves nodes; with keep_planes nodes stay on the box faces they lie on."""
    h = amount * np.array([np.min(np.diff(np.unique(np.round(c, 9)))) for c in p])
    d = rng.uniform(-1, 1, p.shape) * h[:, None]
    if keep_planes:
        for i in range(3):
            on = np.isclose(p[i], p[i].min()) | np.isclose(p[i], p[i].max())
            d[i, on] = 0.0
    return p + d


def make_mesh(rng, kind="hex", cells=(3, 2, 2), uniform=False, warp=0.0, size=1.0, shuffle=False):
    xs = [grid(rng, n, uniform) * size for n in cells]
    if kind == "hex":
        m = skfem.MeshHex.init_tensor(*xs)
        p, t = m.p, m.t
    else:
        m = skfem.MeshTet.init_tensor(*xs)
        p, t = m.p, m.t
    if warp:
        p = jitter(rng, p, warp)
    if shuffle:
        perm = rng.permutation(p.shape[1])
        inv = np.argsort(perm)
        p, t = p[:, perm], inv[t]
    if kind == "hex":
        return skfem.MeshHex(np.ascontiguousarray(p), np.ascontiguousarray(t))
    t = tet_positive(p, t)
    mesh = skfem.MeshTet(np.ascontiguousarray(p), np.ascontiguousarray(t))
    return mesh


def random_mesh(rng, max_elems=80, kind=None, uniform=None, warp=None):
    kind = kind or ("hex" if rng.random() < 0.6 else "tet")
    while True:
        cells = tuple(int(c) for c in rng.integers(1, 7, 3))
        n = int(np.prod(cells)) * (1 if kind == "hex" else 6)
        if 4 <= n <= max_elems and max(cells) >= 2:
            break
    uniform = bool(rng.random() < 0.3) if uniform is None else uniform
    if warp is None:
        warp = float(rng.choice([0.0, 0.0, 0.15, 0.25]))
    size = float(rng.choice([0.1, 1.0, 1.0, 7.0]))
    if rng.random() < 0.15:      # a part in metres, a part in millimetres
        size = float(rng.choice([1e-3, 1e-2, 40.0, 500.0]))
    bent = kind == "hex" and warp > 0      # skfem inverts these maps to an absolute 1e-12
    if bent:
        size = min(size, 7.0)
    mesh = make_mesh(rng, kind, cells, uniform, warp, size)
    info = {"kind": kind, "cells": cells, "uniform": uniform, "warp": warp, "size": size}
    if rng.random() < 0.15:      # a body away from the origin
        by = np.ptp(mesh.p, axis=1).max() * rng.uniform(-1, 1, 3) * float(rng.choice([1.0, 30.0 if not bent else 3.0]))
        mesh = type(mesh)(np.ascontiguousarray(mesh.p + by[:, None]), mesh.t)
        info["moved"] = [float(b) for b in by]
    return mesh, info


def vector_basis(mesh, intorder=2):
    e = skfem.ElementHex1() if isinstance(mesh, skfem.MeshHex) else skfem.ElementTetP1()
    return skfem.Basis(mesh, skfem.ElementVector(e), intorder=intorder)


def scalar_basis(mesh, intorder=2):
    e = skfem.ElementHex1() if isinstance(mesh, skfem.MeshHex) else skfem.ElementTetP1()
    return skfem.Basis(mesh, e, intorder=intorder)


def face(mesh, axis, side):
    """Boundary facets on one side of the bounding box."""
    c = mesh.p[axis]
    v = c.min() if side == 0 else c.max()
    tol = 1e-9 * (np.ptp(mesh.p) + 1)
    f = mesh.facets
    on = np.all(np.abs(c[f] - v) <= tol, axis=0)
    out = np.nonzero(on)[0]
    bnd = mesh.boundary_facets()
    return np.intersect1d(out, bnd).astype(np.int64)


def patch_of(rng, facets, frac=0.5):
    k = max(1, int(round(frac * len(facets))))
    return np.sort(rng.choice(facets, k, replace=False))


# ---------------------------------------------------------------- problems
def region_numbers(rng, n):
    """Numbers of n tagged regions, in the order of the regions: with gaps and
    of more than one digit, often."""
    if rng.random() < 0.4:
        return list(range(1, n + 1))
    return sorted(int(x) for x in rng.choice(np.arange(0, 130), n, replace=False))


def some_design(rng, mesh):
    """Mostly every element; otherwise a part of them, at times out of order."""
    d = np.arange(mesh.nelements)
    u = rng.random()
    if u < 0.6:
        return d
    if u < 0.64:
        return np.sort(rng.choice(d, min(len(d), int(rng.integers(3, 6))), replace=False))
    drop = rng.choice(d, max(1, int(rng.uniform(0.05, 0.4) * len(d))), replace=False)
    d = np.setdiff1d(d, drop)
    return rng.permutation(d) if u > 0.88 else d


def elastic_task(rng, mesh, loads=1, support=None, E=None, nu=None, basis=None, F=None, design=None):
    """Clamped at x=0 (or a richer support), loaded elsewhere."""
    basis = basis or vector_basis(mesh)
    if E is None:
        E = float(10 ** (rng.uniform(-1, 5) if rng.random() < 0.85 else rng.uniform(5, 12)))
    if nu is None:
        nu = float(rng.uniform(0.0, 0.42)) if rng.random() < 0.85 else float(rng.choice([0.0, -0.3, 0.45, 0.48]))
    support = support or str(rng.choice(["clamp", "clamp", "mixed"]))
    d0 = face(mesh, 0, 0)
    if support == "clamp":
        dfac, ddir = d0, "all"
    elif support == "list":
        dfac, ddir = [d0, face(mesh, 1, 0)], ["all", "u^2"]
    else:   # symmetry planes: u1 on x=0, u2 on y=0, u3 on z=0
        dfac, ddir = [d0, face(mesh, 1, 0), face(mesh, 2, 0)], ["u^1", "u^2", "u^3"]
    surfaces = [face(mesh, 0, 1), face(mesh, 2, 1), face(mesh, 1, 1)]
    ff, dirs, vals = [], [], []
    for i in range(loads):
        s = surfaces[i % 3]
        if i == 0 and rng.random() < 0.5 and len(s) > 1:
            s = patch_of(rng, s, 0.5)
        ff.append(s)
        dirs.append(str(rng.choice(["u^1", "u^2", "u^3"])))
        vals.append(float(rng.choice([-1, 1]) * 10 ** rng.uniform(-1, 3)) if F is None else F * (i + 1))
    if F is None and rng.random() < 0.1:
        to = float(rng.choice([1e-6, 1e5, 1e7]))
        vals = [v * to for v in vals]
    if design is None:
        design = some_design(rng, mesh)
    if loads == 1 and rng.random() < 0.5:
        ff, dirs, vals = ff[0], dirs[0], vals[0]
    t = LinearElasticity.from_facets(basis, dfac, ddir, ff, dirs, vals, design, E, nu)
    return t


def elastic_with_room(rng, max_elems=80, loads=1, tries=60, kind=None, clamp_excluded=True, min_design=3, **kw):
    """A random elastic problem that keeps some design elements."""
    for _ in range(tries):
        mesh, info = random_mesh(rng, max_elems, kind=kind)
        try:
            t = elastic_task(rng, mesh, loads=loads, **kw)
        except ValueError:
            continue
        left = len(np.setdiff1d(t.design_elements, t.dirichlet_elements)) if clamp_excluded else len(t.design_elements)
        if left >= min_design:
            return t, {**info, "loads": loads, "E": t.E, "nu": t.nu}
    return elastic_with_room(rng, 2 * max_elems, loads, tries, kind, clamp_excluded, min_design, **kw)


def heat_task(rng, mesh, cases=1, robin=True, zero=False, objective="compliance", design=None, basis=None,
              same_nodes=None, design_robin=None, avg_w=0.0):
    basis = basis or scalar_basis(mesh)
    d = [face(mesh, 0, 0), face(mesh, 1, 0), face(mesh, 2, 0)]
    k = float(10 ** rng.uniform(-1, 2))
    if cases == 1:
        dfac = [d[0]]
        vals = 0.0 if zero else float(rng.uniform(-50, 300))
    else:
        same = (rng.random() < 0.5) if same_nodes is None else same_nodes
        dfac = [d[0] if same else d[i % 3] for i in range(cases)]
        vals = [0.0 if zero else float(rng.uniform(-50, 300)) for _ in range(cases)]
    if robin:
        rf, h, Te = face(mesh, 0, 1), float(10 ** rng.uniform(-1, 1)), float(rng.uniform(-20, 100))
        if rng.random() < 0.4:   # several films of one coefficient
            faces = [rf, face(mesh, 2, 1), face(mesh, 1, 1)]
            rf = [faces[j] for j in rng.permutation(3)[:int(rng.integers(1, 4))]]
    else:
        rf, h, Te = None, None, None
    if design is None:
        design = some_design(rng, mesh)
    return LinearHeatConduction.from_facets(
        basis, dfac, vals, rf, h, Te, design_robin, design, k, objective, avg_w)


# ---------------------------------------------------------------- configurations
def sched(rng, lo, hi, steps_max=6, kinds=("constant", "step", "acc", "dec"), up=True):
    kind = str(rng.choice(list(kinds)))
    a, b = sorted(float(x) for x in rng.uniform(lo, hi, 2))
    if not up:
        a, b = b, a
    n = int(rng.integers(2, steps_max + 1))
    if kind == "constant":
        return SC.constant(target_value=b)
    if kind == "step":
        return SC.step(init_value=a, target_value=b, num_steps=n)
    if kind == "acc":
        return SC.step_accelerating(init_value=a, target_value=b, num_steps=n, curvature=float(rng.uniform(1, 4)))
    if kind == "dec":
        return SC.step_decelerating(init_value=a, target_value=b, num_steps=n, curvature=float(rng.uniform(1, 4)))
    raise ValueError(kind)


def edge_length(mesh):
    return float((np.prod(np.ptp(mesh.p, axis=1)) / mesh.nelements) ** (1 / 3))


def config(rng, kind, dst, mesh, iters, filter_type=None, record_times=None, **over):
    """kind: 'oc' or 'logmoc'."""
    h = edge_length(mesh)
    ft = filter_type or str(rng.choice(["spacial", "helmholtz"]))
    kw = dict(
        dst_path=str(dst), max_iters=iters,
        record_times=iters if record_times is None else record_times,
        interpolation=str(rng.choice(["SIMP", "RAMP"])),
        filter_type=ft,
        filter_radius=SC.constant(target_value=h * float(rng.uniform(0.3, 3.0))),
        vol_frac=sched(rng, 0.3, 0.9, up=False, kinds=("constant", "step")),
        p=sched(rng, 1.0, 4.0),
        beta=sched(rng, 0.3, 6.0),
        beta_eta=float(rng.uniform(0.3, 0.7)),
        E_min_coeff=float(10 ** rng.uniform(-5, -2)),
        rho_min=float(rng.choice([1e-3, 1e-2, 0.1])),
        sensitivity_filter=False,
        solver_option="spsolve",
    )
    ml = str(rng.choice(["constant", "saw", "step"]))
    a, b = sorted(float(x) for x in rng.uniform(0.05, 0.5, 2))
    if ml == "constant":
        kw["move_limit"] = SC.constant(target_value=b)
    elif ml == "saw":
        kw["move_limit"] = SC.sawtooth_decay("move_limit", b, a, iters_max=iters, num_steps=int(rng.integers(1, 4)))
    else:
        kw["move_limit"] = SC.step(init_value=b, target_value=a, num_steps=3)
    if rng.random() < 0.3:
        n = int(rng.integers(2, 4))
        kw["neumann_scale"] = [
            lambda: SC.step_to_one(num_steps=n),
            lambda: SC.step_accelerating_to_one(num_steps=n, curvature=2.0),
            lambda: SC.step_decelerating_to_one(num_steps=n, curvature=2.0),
        ][int(rng.integers(3))]()
    if rng.random() < 0.3:
        kw["filter_radius"] = sched(rng, 0.3 * h, 3.0 * h, up=False, kinds=("step",))
    if kind == "oc":
        kw["eta"] = SC.constant(target_value=float(rng.uniform(0.3, 0.8)))
    else:
        kw["eta"] = float(rng.uniform(0.1, 0.6))
    kw.update(over)
    cls = core.OC_Config if kind == "oc" else core.LogMOC_Config
    return cls(**kw)


def spice(rng, kind):
    """A random subset of the remaining options, for properties that hold with any."""
    o = {}

    def p(q):
        return rng.random() < q
    if p(0.3):
        a, b = sorted(float(x) for x in rng.uniform(50, 100, 2))
        o["percentile"] = SC.constant(target_value=a) if p(0.5) else SC.step(init_value=a, target_value=b, num_steps=int(rng.integers(2, 4)))
    elif p(0.15):
        o["percentile"] = SC.constant(target_value=[100, 100.0, 90, 20.0, 1.0][int(rng.integers(5))])
    if p(0.25):
        o["sensitivity_filter"] = True
    if p(0.08):
        o["beta_eta"] = float(rng.choice([0.0, 0.1, 0.9, 1.0]))
    if p(0.08):
        o["beta"] = [SC.constant(target_value=45.0), SC.step_accelerating(init_value=1.0, target_value=64.0, num_steps=4, curvature=3.0)][int(p(0.5))]
    if p(0.06):
        o["vol_frac"] = SC.constant(target_value=[1.0, 0.97, 0.05][int(rng.integers(3))])
    if p(0.06):
        o["E_min_coeff"] = float(rng.choice([1e-8, 0.2]))
    if p(0.3):
        o["design_dirichlet"] = True
    if p(0.2):
        o["rho_min"], o["rho_max"] = float(rng.uniform(0.01, 0.25)), float(rng.uniform(0.8, 1.0))
    if kind == "oc":
        if p(0.3):
            o["eta"] = SC.step(init_value=float(rng.uniform(0.2, 0.5)), target_value=float(rng.uniform(0.5, 0.9)), num_steps=int(rng.integers(2, 4)))
        if p(0.3):
            o["scaling_rate_min"], o["scaling_rate_max"] = float(rng.uniform(0.3, 0.9)), float(rng.uniform(1.1, 2.0))
        if p(0.2):
            o["sensitivity_scale_floor"] = float(10 ** rng.uniform(-6, 1))
    elif p(0.6):
        o["dual_update"] = str(rng.choice(["ema", "augmented"]))
        o["mu_p"] = float(10 ** rng.uniform(-1, 2))
        o["lambda_decay"] = float(rng.uniform(0, 1))
        o["augmented_lagrangian_mu"] = float(rng.choice([0, rng.uniform(0.1, 20)]))
        o["lagrangian_clip"] = float(rng.uniform(0.3, 3))
        o["lagrangian_percentile"] = float(rng.uniform(40, 100))
        for k in ("normalize_volume_chain", "center_objective", "center_lagrangian", "filter_lagrangian"):
            o[k] = bool(p(0.4))
        o["volume_chain_gain"] = float(rng.uniform(0.3, 3))
        if p(0.5):
            o["volume_chain_gain_under"] = float(rng.uniform(0.3, 3))
        if p(0.3):
            o["lambda_lower"], o["lambda_upper"] = -float(rng.uniform(0.01, 1)), float(rng.uniform(0.01, 1))
    return o


def optimizer(cfg, task):
    cls = core.OC_Optimizer if isinstance(cfg, core.OC_Config) else core.LogMOC_Optimizer
    o = cls(cfg, task)
    o.parameterize()
    return o


# ---------------------------------------------------------------- runs
def iterations(rng, lo=3, hi=8):
    """Mostly short runs; some of dozens of iterations (on few elements)."""
    n, u = int(rng.integers(lo, hi)), rng.random()
    if u < 0.02:
        return int(rng.integers(81, 112))
    return int(rng.integers(18, 56)) if u < 0.13 else n


class Run:
    """One optimizer run under observation."""

    def __init__(self, m, rng, kind=None, physics=None, iters=None, max_elems=60, filter_type=None,
                 loads=None, task=None, zero=None, E=None, **over):
        from tracer import Tracer, stub_plots
        stub_plots()
        kind = kind or str(rng.choice(["oc", "logmoc"]))
        physics = physics or str(rng.choice(["elastic", "elastic", "heat"]))
        iters = iters or iterations(rng)
        if iters > 12:
            max_elems = min(max_elems, 24 if iters < 80 else 12)
        loads = loads or int(rng.choice([1, 1, 1, 1, 2, 2, 3, 3, 5]))
        excl = not over.get("design_dirichlet", False)
        if task is not None:
            info = {}
        elif physics == "elastic":
            task, info = elastic_with_room(rng, max_elems, loads=loads, clamp_excluded=excl, E=E)
        else:
            task, info = heat_with_room(rng, max_elems, cases=loads, zero=zero)
        self.m, self.kind, self.physics, self.iters, self.task = m, kind, physics, iters, task
        self.dst = m.scratch("run")
        self.cfg = config(rng, kind, self.dst, task.mesh, iters, filter_type=filter_type, **over)
        self.opt = optimizer(self.cfg, task)
        self.trace = Tracer(self.opt)
        c = self.cfg
        self.info = {**info, "kind": kind, "physics": physics, "iters": iters, "loads": loads,
                     "filter": c.filter_type, "interp": c.interpolation,
                     "design": len(task.design_elements), "elements": int(task.mesh.nelements)}

    @property
    def design(self):
        return self.task.design_elements

    @property
    def steps(self):
        return self.trace.steps

    def value(self, name, it):
        import ref
        sc = getattr(self.cfg, name)
        return ref.sched_value(sc, it, self.cfg.max_iters) if isinstance(sc, SC) else sc

    def close(self):
        self.m.drop(self.dst)


def heat_with_room(rng, max_elems=80, cases=1, tries=60, kind=None, zero=None, min_design=3, always_robin=True, **kw):
    for _ in range(tries):
        mesh, info = random_mesh(rng, max_elems, kind=kind)
        robin = bool(always_robin or rng.random() < 0.7)
        try:
            t = heat_task(rng, mesh, cases=cases, robin=robin, zero=bool(zero) if zero is not None else False,
                          design_robin=[False, None, True][int(rng.integers(3))] if robin else None, **kw)
        except ValueError:
            continue
        if len(np.setdiff1d(t.design_elements, t.dirichlet_elements)) >= min_design:
            return t, {**info, "cases": cases, "robin": robin, "k": t.material_coef}
    return heat_with_room(rng, 2 * max_elems, cases, tries, kind, zero, min_design, always_robin, **kw)
