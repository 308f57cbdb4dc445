"""C30: optimised designs against uniform ones of the same volume, and pairs
of runs of the same problem in other units, places, orientations and
numberings."""
import numpy as np
import skfem
import gen
import ref
from replay import Replay

from sktopt.mesh import LinearElasticity, LinearHeatConduction

RULE = "distinct (optimizer, physics, filter, interpolation, transformation) pairs of runs compared, and optimised designs judged"
ASSUMPTIONS = ["the direct solver", "unit pairs by powers of two, so that every product is exact",
               "the log optimizer is judged for improvement only: its update is not invariant to units by construction"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"beats-uniform": 5, "units-designs": 24, "units-objective": 24, "moved-designs": 20, "moved-objective": 20,
           "symmetric-design": 10}


class Problem:
    """A problem as geometry, so that it can be moved and renumbered."""

    def __init__(self, rng, physics, max_elems, kind=None, symmetric=False, loads=1, even=False):
        self.physics, self.symmetric = physics, symmetric
        while True:
            kind_ = kind or ("hex" if rng.random() < 0.6 else "tet")
            cells = [int(rng.integers(4, 8)), int(rng.integers(1, 5)), int(rng.integers(2, 5))]
            if symmetric:
                cells[1] = int(rng.choice([2, 4]))
            n = int(np.prod(cells)) * (1 if kind_ == "hex" else 6)
            if 24 <= n <= max_elems:
                break
        # OC's update does not weigh elements by their volume: only evenly
        # divided bodies are judged against uniform designs
        even = symmetric or even
        mesh = gen.make_mesh(rng, kind_, cells, uniform=even or bool(rng.random() < 0.5),
                             warp=0.0 if even else float(rng.choice([0, 0, 0.15])))
        self.info = {"kind": kind_, "cells": tuple(cells), "loads": loads}
        self.hex = kind_ == "hex"
        self.p, self.t = mesh.p, mesh.t
        mid = lambda f: mesh.p[:, mesh.facets[:, f]].mean(axis=1)
        b = np.ptp(mesh.p, axis=1)
        self.held = [mid(gen.face(mesh, 0, 0))]
        ends = gen.face(mesh, 0, 1)
        x = mid(ends)
        if symmetric:
            low = np.abs(x[1] - b[1] / 2) < 0.3 * b[1] if rng.random() < 0.5 else x[2] < 0.6 * b[2]
        else:
            low = x[2] < 0.6 * b[2] if rng.random() < 0.5 else np.ones(x.shape[1], bool)
        pick = ends[low] if low.any() else ends
        self.loads = []
        dirs = [0, 2] if symmetric else [0, 1, 2]
        self.loads.append((mid(pick), int(rng.choice(dirs)), float(rng.choice([-1, 1]) * rng.uniform(0.5, 200))))
        if loads == 2:
            self.loads.append((mid(gen.face(mesh, 2, 1)[-2:]), 2, float(-rng.uniform(0.5, 200))))
        self.E, self.nu = float(10 ** rng.uniform(0, 5)), float(rng.uniform(0.0, 0.4))
        self.k, self.h, self.Te = float(10 ** rng.uniform(-1, 2)), float(10 ** rng.uniform(-1, 1)), float(rng.uniform(20, 100))
        self.order = np.arange(self.t.shape[1])     # element i here is element order[i] of the original

    def other(self, **kw):
        q = object.__new__(Problem)
        q.__dict__.update(self.__dict__)
        q.__dict__.update(kw)
        return q

    def moved(self, R, c, nodes=None, elems=None):
        """x -> R x + c with R a signed permutation, renumbered."""
        f = lambda x: R @ x + c[:, None]
        p, t = f(self.p), self.t
        if nodes is not None:
            p, t = p[:, nodes], np.argsort(nodes)[t]
        order = np.arange(t.shape[1]) if elems is None else elems
        t = t[:, order].copy()
        if np.linalg.det(R) < 0 and not self.hex:
            t[[1, 2]] = t[[2, 1]]
        loads = []
        for x, a, v in self.loads:
            e = R[:, a]
            b = int(np.argmax(np.abs(e)))
            loads.append((f(x), b, v * e[b]))
        return self.other(p=np.ascontiguousarray(p), t=np.ascontiguousarray(t), held=[f(x) for x in self.held], loads=loads, order=order)

    def task(self):
        mesh = (skfem.MeshHex if self.hex else skfem.MeshTet)(self.p, self.t)
        mids = mesh.p[:, mesh.facets].mean(axis=1)

        def find(x):
            d = np.abs(mids[:, :, None] - x[:, None, :]).max(axis=0)
            assert d.min(axis=0).max() < 1e-9 * np.abs(mids).max() + 1e-12
            return np.sort(d.argmin(axis=0))
        held = [find(x) for x in self.held]
        loaded = [find(x) for x, _, _ in self.loads]
        design = np.arange(mesh.nelements)
        if self.physics == "elastic":
            return LinearElasticity.from_facets(gen.vector_basis(mesh), held[0], "all", loaded, [f"u^{a + 1}" for _, a, _ in self.loads],
                                                [v for _, _, v in self.loads], design, self.E, self.nu)
        return LinearHeatConduction.from_facets(gen.scalar_basis(mesh), held, 0.0, loaded[0], self.h, self.Te, None, design, self.k, "compliance", 0.0)


def settings(rng, kind, iters, h, **over):
    kw = dict(
        interpolation=str(rng.choice(["SIMP", "RAMP"])), p=gen.SC.constant(target_value=float(rng.uniform(2.0, 3.5))),
        vol_frac=gen.SC.constant(target_value=float(rng.uniform(0.35, 0.7))), beta=gen.SC.constant(target_value=float(rng.uniform(0.3, 2.0))),
        beta_eta=0.5, move_limit=gen.SC.constant(target_value=float(rng.uniform(0.1, 0.25))), E_min_coeff=1e-3, rho_min=1e-2,
        neumann_scale=gen.SC.constant_one(),
        filter_radius=gen.SC.constant(target_value=h * float(rng.uniform(0.6, 1.4))), record_times=1)
    kw["eta"] = gen.SC.constant(target_value=0.5) if kind == "oc" else float(rng.uniform(0.3, 0.6))
    kw.update(over)
    return kw


def go(m, prob, kind, iters, kw, filt):
    r = gen.Run(m, np.random.default_rng(0), kind=kind, physics=prob.physics, iters=iters, task=prob.task(), filter_type=filt, **kw)
    r.opt.optimize()
    return r


def objective(r):
    return np.array([float(v) for v in r.opt.recorder.histories["compliance" if r.physics == "elastic" else r.task.objective].data])


def designs(r, order):
    """Element densities after each iteration, in the original numbering."""
    out = np.full((len(r.steps), len(order)), np.nan)
    for k, s in enumerate(r.steps):
        full = np.ones(len(order))
        full[r.task.design_elements] = s.after
        out[k, order] = full
    return out


def tolerance(physics, filt):
    if physics == "heat":
        # where the density is locally constant the direction of its gradient,
        # which the interface term uses, is rounding
        return 5e-2
    return 1e-6 if filt == "spacial" else 1e-4      # the Helmholtz filter solves to a tolerance


def uniform(R, w, v, it):
    """Projected densities of the uniform design of projected volume v."""
    lo, hi = 0.0, 1.0
    for _ in range(60):
        mid = (lo + hi) / 2
        x = R.projected(np.full(len(w), mid), it)
        lo, hi = (mid, hi) if x[R.des] @ w / w.sum() < v else (lo, mid)
    return R.projected(np.full(len(w), hi), it)


def better(m, i):
    rng = m.rng("better", i)
    kind, physics = ["oc", "logmoc"][m.nth(i, 2, "1")], "elastic"
    prob = Problem(rng, physics, m.pick(90, 240), loads=int(rng.choice([1, 1, 2])), even=True)
    iters = m.pick(15, 30)
    if kind == "logmoc":
        prob = normalised(prob)
    h = gen.edge_length(skfem.MeshHex(prob.p, prob.t) if prob.hex else skfem.MeshTet(prob.p, prob.t))
    kw = settings(rng, kind, iters, h)
    filt = ["spacial", "spacial", "helmholtz"][m.nth(i, 3, "2")]
    with m.case(f"better-{i}", **prob.info, optimizer=kind, physics=physics, filter=filt, **{k: kw[k] for k in ("interpolation",)}):
        r = go(m, prob, kind, iters, kw, filt)
        R = Replay(r)
        x = R.projected(r.steps[-1].after, iters)
        w = R.volume_weights
        v = float(x[R.des] @ w / w.sum())
        one = uniform(R, w, v, iters)
        J = lambda y: np.mean([c for c, _ in R.compliances(y, iters)])
        a, b = J(x), J(one)
        if filt == "helmholtz":
            # its values at held nodes can put the volume target out of reach
            # (all elements at a bound), and its designs are nearly uniform
            m.ok(a <= b * 1.02, "no-worse-than-uniform", optimised=a, uniform=b, volume=v)
            m.tally("helmholtz designs better than uniform", int(a < b))
        elif v < (0.98 if kind == "oc" else 0.75):
            m.ok(a < b, "beats-uniform", optimised=a, uniform=b, volume=v)
        else:
            m.tally("designs that are nearly solid throughout")
            # a log run this far above its volume target is still under way
            m.ok(a <= b * (1.01 if kind == "oc" else 1.05), "no-worse-than-uniform", optimised=a, uniform=b, volume=v)
        m.track_max("optimised over uniform", a / b)
        m.seen("better", kind, physics, filt, kw["interpolation"], prob.info["kind"], prob.info["cells"])
        m.sample(optimised=a, uniform=b, volume=v)
        r.close()


def normalised(prob):
    """Units in which the solid body's objective is one: the log optimizer
    weighs the objective against the volume as they are."""
    t = prob.task()
    one = np.ones(t.mesh.nelements)
    if prob.physics == "elastic":
        el = ref.Elastic(t.basis, t.nu)
        fs = t.neumann_linear if isinstance(t.neumann_linear, list) else [t.neumann_linear]
        J = np.mean([f @ el.solve(t.E * one, np.asarray(f, float), np.asarray(t.dirichlet_dofs)) for f in fs])
        s = 1 / np.sqrt(J)
    else:
        H = ref.Heat(t)
        H.p = 1.0
        T, K, _ = H.solve(one, t.k * one, 1.0, *H.cases()[0])
        s = 1 / np.sqrt(T @ (K @ T))
    return prob.other(Te=prob.Te * s, loads=[(x, a, v * s) for x, a, v in prob.loads])


def pair(m, i):
    """Powers of two and movements."""
    rng = m.rng("pair", i)
    physics = ["elastic", "elastic", "heat"][m.nth(i, 3, "3")]
    prob = Problem(rng, physics, m.pick(60, 150), loads=int(rng.choice([1, 2])) if physics == "elastic" else 1)
    iters = int(rng.integers(4, 9))
    h = gen.edge_length(skfem.MeshHex(prob.p, prob.t) if prob.hex else skfem.MeshTet(prob.p, prob.t))
    kw = settings(rng, "oc", iters, h)
    if m.nth(i, 4, "4") == 1:
        kw["sensitivity_filter"] = True
    if m.nth(i, 5, "5") == 2:
        kw["percentile"] = gen.SC.constant(target_value=float(rng.uniform(60, 100)))
    if m.nth(i, 3, "6") == 1:
        kw["p"] = gen.SC.step(init_value=1.0, target_value=3.0, num_steps=2)
    filt = ["spacial", "helmholtz"][m.nth(i, 2, "7")]
    with m.case(f"pair-{i}", **prob.info, physics=physics, filter=filt, interpolation=kw["interpolation"]):
        base = go(m, prob, "oc", iters, kw, filt)
        o, d = objective(base), designs(base, prob.order)
        # units
        for what in rng.permutation(["load", "stiffness", "both"])[:2]:
            a = 2.0 ** int(rng.integers(-14, 15)) if what != "stiffness" else 1.0
            b = 2.0 ** int(rng.integers(-14, 15)) if what != "load" else 1.0
            q = prob.other(E=prob.E * b, k=prob.k * b, h=prob.h * b, Te=prob.Te * a, loads=[(x, c, v * a) for x, c, v in prob.loads])
            # the sensitivity's floor 1e-12 is not in units of anything
            top = min(np.abs(s.dC).max() for s in base.steps)
            f = a * a / b if physics == "elastic" else a * a * b
            if top * min(f, 1.0) < 1e-9:
                m.tally("near the floor of the sensitivity scale, skipped")
                continue
            r = go(m, q, "oc", iters, kw, filt)
            d2 = designs(r, prob.order)
            m.close(d2, d, "units-designs", rtol=0, atol=1e-7 if filt == "spacial" else 1e-5, what=str(what), load=a, modulus=b)
            m.tally("bit-identical designs in other units", int(np.array_equal(d2, d)))
            m.close(objective(r), o * f, "units-objective", rtol=1e-6 if filt == "spacial" else 1e-4, what=str(what), load=a, modulus=b)
            m.seen("units", physics, filt, kw["interpolation"], str(what), a, b)
            r.close()
        # elsewhere
        spread = 0.0
        if physics == "heat":       # what rounding alone does to this run
            q = prob.other(p=prob.p * (1 + 4e-16 * rng.integers(-1, 2, prob.p.shape)))
            r = go(m, q, "oc", iters, kw, filt)
            spread = float(np.abs(designs(r, q.order) - d).max())
            m.track_max("thermal design changed by rounding", spread)
            r.close()
        for what in rng.permutation(["shift", "turn", "mirror", "renumber", "all"])[:2]:
            Rm, c = np.eye(3), np.zeros(3)
            nodes = elems = None
            if what in ("shift", "all"):
                c = rng.integers(-40, 41, 3) / 8.0
            if what in ("turn", "all"):
                Rm = [np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1.]]), np.array([[0, 0, 1.], [1, 0, 0], [0, 1, 0]]),
                      np.array([[1., 0, 0], [0, -1, 0], [0, 0, -1]])][int(rng.integers(3))]
            if what == "mirror":
                Rm = np.diag(rng.choice([[1., 1, -1], [-1., 1, 1], [1., -1, 1]]))
            if what in ("renumber", "all"):
                nodes, elems = rng.permutation(prob.p.shape[1]), rng.permutation(prob.t.shape[1])
            q = prob.moved(Rm, c, nodes, elems)
            R = Replay(base)
            if any(R.ambiguous(s.iter) for s in base.steps):
                m.tally("a distance exactly at the filter radius, skipped")
                continue
            if spread > 1e-3:
                m.tally("a thermal design that rounding decides, skipped")
                continue
            r = go(m, q, "oc", iters, kw, filt)
            tol = tolerance(physics, filt)
            m.close(designs(r, q.order), d, "moved-designs", rtol=0, atol=tol, what=str(what))
            m.close(objective(r), o, "moved-objective", rtol=min(10 * tol, 0.02), what=str(what))
            m.seen("moved", physics, filt, kw["interpolation"], str(what))
            r.close()
        base.close()


def symmetric(m, i):
    """A symmetric problem has a symmetric design."""
    rng = m.rng("symmetric", i)
    kind, physics = ["oc", "logmoc"][m.nth(i, 2, "8")], "elastic"
    prob = Problem(rng, physics, m.pick(90, 200), kind="hex", symmetric=True)
    iters = int(rng.integers(4, 9))
    mesh = skfem.MeshHex(prob.p, prob.t)
    kw = settings(rng, kind, iters, gen.edge_length(mesh))
    filt = ["spacial", "helmholtz"][m.nth(i, 2, "9")]
    with m.case(f"symmetric-{i}", **prob.info, optimizer=kind, physics=physics, filter=filt, interpolation=kw["interpolation"]):
        x = prob.p[:, prob.t].mean(axis=1)
        y = x.copy()
        y[1] = np.ptp(prob.p[1]) - y[1]
        twin = np.abs(x[:, :, None] - y[:, None, :]).max(axis=0).argmin(axis=0)
        r = go(m, prob, kind, iters, kw, filt)
        if any(Replay(r).ambiguous(s.iter) for s in r.steps):
            m.tally("a distance exactly at the filter radius, skipped")
            m.count("symmetric-design")
            r.close()
            return
        d = designs(r, prob.order)
        tol = tolerance(physics, filt)
        m.close(d[:, twin], d, "symmetric-design", rtol=0, atol=tol)
        m.seen("symmetric", kind, physics, filt, kw["interpolation"], prob.info["cells"])
        r.close()


def run(m):
    for i in range(m.pick(32, 400)):
        if m.mine(i) and not m.out_of_time():
            better(m, i)
    for i in range(m.pick(24, 500)):
        if m.mine(i) and not m.out_of_time():
            pair(m, i)
    for i in range(m.pick(16, 240)):
        if m.mine(i) and not m.out_of_time():
            symmetric(m, i)
