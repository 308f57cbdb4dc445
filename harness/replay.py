"""Recomputes what an observed iteration must have done, from the densities
before it and the scheduled values, with the reference models."""
from __future__ import annotations
import numpy as np
import ref


class Replay:
    def __init__(self, run):
        self.r, self.t, self.mesh = run, run.task, run.task.mesh
        self.des = np.asarray(run.task.design_elements)
        self.mask = np.zeros(self.mesh.nelements, bool)
        self.mask[self.des] = True
        self._filters = {}
        self._el = None

    def ambiguous(self, it):
        """A pair of elements exactly at the cut-off: either answer is right."""
        c = self.r.cfg
        if c.filter_type != "spacial":
            return False
        return self._filter(self.r.value("filter_radius", it))[2]

    def _filter(self, rad):
        if rad not in self._filters:
            if self.r.cfg.filter_type == "spacial":
                self._filters[rad] = ref.gaussian_matrix(self.mesh, rad, self.des)
            else:
                self._filters[rad] = (ref.Helmholtz(self.mesh, rad, self.mask), None, False)
        return self._filters[rad]

    def full(self, x):
        out = np.ones(self.mesh.nelements)
        out[self.des] = x
        return out

    def filtered(self, x, it):
        rad = self.r.value("filter_radius", it)
        f = self._filter(rad)[0]
        full = self.full(x)
        if self.r.cfg.filter_type == "spacial":
            full[self.des] = f @ full[self.des]
            return full
        return f.forward(full)

    def projected(self, x, it):
        return ref.project(self.filtered(x, it), self.r.value("beta", it), self.r.cfg.beta_eta)

    @property
    def volume_weights(self):
        return ref.volumes(self.mesh.p, self.mesh.t)[self.des]

    def elastic(self):
        if self._el is None:
            self._el = ref.Elastic(self.t.basis, self.t.nu)
        return self._el

    def loads(self):
        f = self.t.neumann_linear
        return f if isinstance(f, list) else [f]

    def modulus(self, proj, it):
        c, t = self.r.cfg, self.t
        return ref.interp(proj, t.E, t.E * c.E_min_coeff, self.r.value("p", it), c.interpolation)

    def compliances(self, proj, it):
        """Per load case, of projected densities."""
        E = self.modulus(proj, it)
        s = self.r.value("neumann_scale", it)
        out = []
        for f in self.loads():
            f = np.asarray(f, float) * s
            u = self.elastic().solve(E, f, np.asarray(self.t.dirichlet_dofs))
            out.append((float(f @ u), u))
        return out

    def heat(self):
        if self._el is None:
            self._el = ref.Heat(self.t)
        return self._el

    def heat_compliances(self, proj, it):
        c, t, H = self.r.cfg, self.t, self.heat()
        p = self.r.value("p", it)
        k = ref.interp(proj, t.k, t.k * c.E_min_coeff, p, c.interpolation)
        out = []
        for nodes, v in H.cases():
            T, K, _ = H.solve(proj, k, p, nodes, v)
            out.append((float(T @ (K @ T)), T))
        return out

    def objective(self, x, it):
        if self.r.physics == "heat":
            return float(np.mean([c for c, _ in self.heat_compliances(self.projected(x, it), it)]))
        return float(np.mean([c for c, _ in self.compliances(self.projected(x, it), it)]))
