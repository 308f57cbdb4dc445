"""Independent reference models (numpy only; no code of the repository).

Local node order of hexahedra: node 0 is the corner the edges to nodes 1, 2
and 3 leave from; 4 = 1+2, 5 = 1+3, 6 = 2+3, 7 = 1+2+3 (scikit-fem).
"""
from __future__ import annotations
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl


# ------------------------------------------------------------- schedules
def sched_value(sc, it, total):
    """Value a SchedulerConfig declares for iteration it of total."""
    kind, a, b, n, cv = sc.scheduler_type, sc.init_value, sc.target_value, sc.num_steps, sc.curvature
    if kind == "None":
        return None
    if kind == "ConstantOne":
        return 1.0
    if kind == "Constant":
        return b
    if kind.endswith("ToOne"):
        a, b = 1.0 / n, 1.0
        kind = kind[:-5]
    if n is None or n < 0 or it >= total:
        return b
    if kind == "SawtoothDecay":
        length = total / n
        cycle = int((it - 1) // length)
        s = min(((it - 1) - cycle * length) / length, 1.0)
        return (1 - s) * a + s * b
    if n <= 1:
        return b
    k = min(int(it // (total / n)), n - 1)
    s = k / (n - 1)
    if kind == "StepAccelerating":
        s = s ** cv
    elif kind == "StepDecelerating":
        s = 1 - (1 - s) ** cv
    elif kind != "Step":
        raise ValueError(kind)
    return (1 - s) * a + s * b


def on_boundary(sc, it, total):
    """True when `it` sits on a step boundary, where floor() of a float
    quotient may legitimately go either way."""
    n = sc.num_steps
    if n is None or n <= 0 or sc.scheduler_type in ("Constant", "ConstantOne", "None"):
        return False
    x = (it - (1 if sc.scheduler_type == "SawtoothDecay" else 0)) / (total / n)
    return abs(x - round(x)) < 1e-9 and (total % n) != 0


# ------------------------------------------------------------- densities
def project(x, beta, eta):
    x = np.asarray(x, dtype=float)
    lo, hi = np.tanh(-beta * eta), np.tanh(beta * (1 - eta))
    return (np.tanh(beta * (x - eta)) - lo) / (hi - lo)


def dproject(x, beta, eta):
    lo, hi = np.tanh(-beta * eta), np.tanh(beta * (1 - eta))
    return beta / np.cosh(beta * (np.asarray(x, float) - eta)) ** 2 / (hi - lo)


def interp(rho, E0, Emin, p, law):
    rho = np.asarray(rho, float)
    return Emin + (E0 - Emin) * (rho ** p if law == "SIMP" else rho / (1 + p * (1 - rho)))


def dinterp(rho, E0, Emin, p, law):
    rho = np.asarray(rho, float)
    if law == "SIMP":
        return (E0 - Emin) * p * rho ** (p - 1)
    return (E0 - Emin) * (1 + p) / (1 + p * (1 - rho)) ** 2


# ------------------------------------------------------------- elements
def gauss1(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return 0.5 * (x + 1), 0.5 * w


HEX_CORNERS = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1],
                        [1, 1, 0], [1, 0, 1], [0, 1, 1], [1, 1, 1]], float)


def hex_shapes(x):
    """N (nq, 8), dN (nq, 3, 8) at the points x (nq, 3)."""
    f = np.where(HEX_CORNERS[None] == 1, x[:, None, :], 1 - x[:, None, :])
    s = np.where(HEX_CORNERS == 1, 1.0, -1.0)
    N = f.prod(axis=2)
    dN = np.stack([s[None, :, i] * np.delete(f, i, axis=2).prod(axis=2) for i in range(3)], axis=1)
    return N, dN


def tet_shapes(x):
    N = np.column_stack([1 - x.sum(axis=1), x])
    d = np.array([[-1, 1, 0, 0], [-1, 0, 1, 0], [-1, 0, 0, 1]], float)
    return N, np.repeat(d[None], len(x), axis=0)


def rule(kind, n):
    if kind == "hex":
        g, w = gauss1(n)
        X = np.array(np.meshgrid(g, g, g, indexing="ij")).reshape(3, -1).T
        W = np.array(np.meshgrid(w, w, w, indexing="ij")).reshape(3, -1).prod(axis=0)
        return X, W
    a, b = 0.58541019662496852, 0.13819660112501050
    X = np.array([[b, b, b], [a, b, b], [b, a, b], [b, b, a]])
    return X, np.full(4, 1 / 24)


def mesh_kind(mesh):
    return "hex" if mesh.t.shape[0] == 8 else "tet"


class Quad:
    """Quadrature over every element: N, gradients and weights."""

    def __init__(self, p, t, n=4, points=None):
        kind = "hex" if t.shape[0] == 8 else "tet"
        X, W = rule(kind, n) if points is None else points
        self.N, dN = (hex_shapes if kind == "hex" else tet_shapes)(X)
        xe = p[:, t].transpose(2, 1, 0)                       # (nel, nn, 3)
        J = np.einsum('qin,enk->eqik', dN, xe)                # dx_k/dxi_i
        det = np.linalg.det(J)
        self.det = det
        self.w = np.abs(det) * W[None]
        self.G = np.einsum('eqki,qin->eqkn', np.linalg.inv(J), dN)   # dN/dx_k
        self.x = np.einsum('qn,enk->eqk', self.N, xe)


def volumes(p, t):
    if t.shape[0] == 4:
        v = p[:, t]
        return np.abs(np.einsum('ij,ij->j', np.cross((v[:, 1] - v[:, 0]).T, (v[:, 2] - v[:, 0]).T).T,
                                v[:, 3] - v[:, 0])) / 6
    X, W = rule("hex", 3)
    _, dN = hex_shapes(X)
    J = np.einsum('qin,enk->eqik', dN, p[:, t].transpose(2, 1, 0))
    return np.abs(np.linalg.det(J) @ W)


def signed(p, t):
    """Orientation of each element (determinant at the centre)."""
    kind = "hex" if t.shape[0] == 8 else "tet"
    c = np.full((1, 3), 0.5 if kind == "hex" else 0.25)
    _, dN = (hex_shapes if kind == "hex" else tet_shapes)(c)
    return np.linalg.det(np.einsum('qin,enk->eqik', dN, p[:, t].transpose(2, 1, 0)))[:, 0]


def lame(E, nu):
    return E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))


def elastic_elements(mesh, nu, n=4):
    """Unit-modulus element stiffness matrices, (nel, 3*nn, 3*nn); the local
    unknown of node a and component c is 3*a + c."""
    q = Quad(mesh.p, mesh.t, n)
    la, mu = lame(1.0, nu)
    nel, nq, _, nn = q.G.shape
    B = np.zeros((nel, nq, 6, 3 * nn))
    B[:, :, 0, 0::3] = q.G[:, :, 0]
    B[:, :, 1, 1::3] = q.G[:, :, 1]
    B[:, :, 2, 2::3] = q.G[:, :, 2]
    B[:, :, 3, 0::3], B[:, :, 3, 1::3] = q.G[:, :, 1], q.G[:, :, 0]
    B[:, :, 4, 1::3], B[:, :, 4, 2::3] = q.G[:, :, 2], q.G[:, :, 1]
    B[:, :, 5, 0::3], B[:, :, 5, 2::3] = q.G[:, :, 2], q.G[:, :, 0]
    D = np.diag([2 * mu] * 3 + [mu] * 3)
    D[:3, :3] += la
    return np.einsum('eq,eqia,ij,eqjb->eab', q.w, B, D, B, optimize=True)


def laplace_elements(mesh, n=4):
    q = Quad(mesh.p, mesh.t, n)
    return np.einsum('eq,eqka,eqkb->eab', q.w, q.G, q.G, optimize=True)


def mass_elements(mesh, n=4):
    q = Quad(mesh.p, mesh.t, n)
    return np.einsum('eq,qa,qb->eab', q.w, q.N, q.N, optimize=True)


def elastic_dofs(basis):
    """(nel, 3*nn) global unknowns in the local order of elastic_elements."""
    t = basis.mesh.t
    nd = basis.nodal_dofs
    return np.stack([nd[:, t[a]] for a in range(t.shape[0])], axis=0).reshape(3 * t.shape[0], -1).T


def scalar_dofs(basis):
    return basis.nodal_dofs[0][basis.mesh.t].T


def assemble(dofs, Ke, N, weights=None):
    if weights is not None:
        Ke = Ke * np.asarray(weights)[:, None, None]
    m = dofs.shape[1]
    i = np.repeat(dofs, m, axis=1).ravel()
    j = np.tile(dofs, (1, m)).ravel()
    return sp.coo_matrix((Ke.ravel(), (i, j)), shape=(N, N)).tocsr()


def quad_points(basis):
    """Gauss points per direction of a hexahedral basis."""
    return max(1, int(round(basis.X.shape[-1] ** (1 / 3)))) if basis.mesh.t.shape[0] == 8 else 4


# ------------------------------------------------------------- facets
def facet_nodes(mesh, f):
    """Nodes of a facet in cyclic order, and its owning element."""
    return mesh.facets[:, f]


def facet_integrals(mesh, facets):
    """(integral of N_i over the facets, per node; area; mass matrix)."""
    n = mesh.p.shape[1]
    out, area = np.zeros(n), 0.0
    rows, cols, vals = [], [], []
    for f in np.asarray(facets).ravel():
        nodes = mesh.facets[:, f]
        x = mesh.p[:, nodes].T
        if len(nodes) == 3:
            A = 0.5 * np.linalg.norm(np.cross(x[1] - x[0], x[2] - x[0]))
            Ni = np.full(3, A / 3)
            M = A / 12 * (np.ones((3, 3)) + np.eye(3))
        else:
            nodes, x = cyclic(nodes, x)
            g, w = gauss1(3)
            Ni, M = np.zeros(4), np.zeros((4, 4))
            for a, wa in zip(g, w):
                for b, wb in zip(g, w):
                    N = np.array([(1 - a) * (1 - b), a * (1 - b), a * b, (1 - a) * b])
                    da = np.array([-(1 - b), 1 - b, b, -b]) @ x
                    db = np.array([-(1 - a), -a, a, 1 - a]) @ x
                    dA = wa * wb * np.linalg.norm(np.cross(da, db))
                    Ni += N * dA
                    M += np.outer(N, N) * dA
            A = Ni.sum()
        out[nodes] += Ni
        area += A
        k = len(nodes)
        rows += list(np.repeat(nodes, k))
        cols += list(np.tile(nodes, k))
        vals += list(M.ravel())
    return out, area, sp.coo_matrix((vals, (rows, cols)), shape=(n, n)).tocsr()


def cyclic(nodes, x):
    """Orders four corners of a quadrilateral around its centre."""
    c = x.mean(axis=0)
    # the diagonal partner of corner 0 is opposite to it
    nrm = np.linalg.svd(x - c)[2][2]
    e1 = x[0] - c
    e1 = e1 - nrm * (e1 @ nrm)
    e1 /= np.linalg.norm(e1)
    e2 = np.cross(nrm, e1)
    ang = np.arctan2((x - c) @ e2, (x - c) @ e1)
    o = np.argsort(ang)
    return np.asarray(nodes)[o], x[o]


# ------------------------------------------------------------- filters
def gaussian_matrix(mesh, radius, mask=None):
    """Dense row-normalised Gaussian filter on the design elements (a mask, or
    their numbers in the order the rows shall have); also reports whether some
    pair lies within rounding of the cut-off."""
    c = mesh.p[:, mesh.t].mean(axis=1)
    mask = np.ones(c.shape[1], bool) if mask is None else np.asarray(mask)
    c = c[:, mask]
    d = np.sqrt(((c[:, :, None] - c[:, None, :]) ** 2).sum(axis=0))
    tie = bool(np.any(np.abs(d - radius) <= 1e-9 * radius))
    W = np.where(d <= radius, np.exp(-0.5 * (d / (radius / 3)) ** 2), 0.0)
    return W / W.sum(axis=1, keepdims=True), mask, tie


def spatial_forward(mesh, radius, rho, mask=None):
    W, mask, tie = gaussian_matrix(mesh, radius, mask)
    out = np.array(rho, dtype=float, copy=True)
    out[mask] = W @ out[mask]
    return out


class Helmholtz:
    def __init__(self, mesh, radius, mask=None, vol=None):
        t = mesh.t
        n, ne = mesh.p.shape[1], t.shape[1]
        self.t, self.ne, self.n = t, ne, n
        self.mask = np.ones(ne, bool) if mask is None else np.asarray(mask, bool)
        vol = volumes(mesh.p, t) if vol is None else vol
        S = sp.coo_matrix((np.tile(vol, t.shape[0]), (t.ravel(), np.tile(np.arange(ne), t.shape[0]))),
                          shape=(n, ne)).tocsr()
        ws = np.asarray(S.sum(axis=1)).ravel()
        ws[ws == 0] = 1
        self.avg = sp.diags(1 / ws) @ S                       # elements -> nodes
        dofs = t.T
        self.M = assemble(dofs, mass_elements(mesh), n)
        self.A = (self.M + radius ** 2 * assemble(dofs, laplace_elements(mesh), n)).tocsc()
        self.mean = sp.coo_matrix((np.full(t.size, 1 / t.shape[0]),
                                   (np.tile(np.arange(ne), t.shape[0]), t.ravel())), shape=(ne, n)).tocsr()
        self.fixed = np.unique(t[:, ~self.mask])
        self.free = np.setdiff1d(np.arange(n), self.fixed)

    def forward(self, rho):
        r = np.where(self.mask, rho, 1.0)
        b = self.M @ (self.avg @ r)
        return self.mean @ self._solve(b, 1.0)

    def _solve(self, b, value):
        x = np.full(self.n, value)
        if self.free.size:
            rhs = b - self.A[:, self.fixed] @ x[self.fixed] if self.fixed.size else b
            x[self.free] = spl.spsolve(self.A[self.free][:, self.free].tocsc(), rhs[self.free])
        return x

    def linear(self, v):
        """The linear part of forward on the design elements."""
        return self.forward(v) - self.forward(np.zeros_like(v))

    def adjoint(self, g):
        """Transpose of the linear part, from all elements to design ones."""
        y = self.mean.T @ g
        x = np.zeros(self.n)
        if self.free.size:
            x[self.free] = spl.spsolve(self.A[self.free][:, self.free].T.tocsc(), y[self.free])
        out = self.avg.T @ (self.M.T @ x)
        return np.where(self.mask, out, 0.0)

    def shipped_gradient(self, g):
        """What the shipped formulation returns (see the known findings)."""
        r = np.where(self.mask, g, 0.0)
        x = spl.spsolve(self.A, self.M @ (self.avg @ r))
        return np.minimum(self.mean @ x, 0.0)


def filter_forward(kind, mesh, radius, rho, mask):
    if kind == "spacial":
        return spatial_forward(mesh, radius, rho, mask)
    return Helmholtz(mesh, radius, mask).forward(rho)


# ------------------------------------------------------------- elasticity
class Elastic:
    """Reference model of one elastic problem."""

    def __init__(self, basis, nu):
        self.basis, self.nu = basis, nu
        self.Ke = elastic_elements(basis.mesh, nu, quad_points(basis))
        self.dofs = elastic_dofs(basis)
        self.N = basis.N

    def K(self, E):
        return assemble(self.dofs, self.Ke, self.N, E)

    def solve(self, E, F, fixed):
        K = self.K(E)
        free = np.setdiff1d(np.arange(self.N), fixed)
        u = np.zeros(self.N)
        u[free] = spl.spsolve(K[free][:, free].tocsc(), F[free])
        return u

    def energies(self, E, u):
        ue = u[self.dofs]
        return 0.5 * E * np.einsum('ea,eab,eb->e', ue, self.Ke, ue)


# ------------------------------------------------------------- heat
def nodal_average(t, n, rho):
    """Mean of the elements around each node."""
    s, c = np.zeros(n), np.zeros(n)
    for row in t:
        np.add.at(s, row, rho)
        np.add.at(c, row, 1.0)
    return s / c


class Heat:
    """Reference model of one heat conduction problem. Unknowns are nodal
    values numbered like the mesh nodes; `dof` maps nodes to unknowns."""

    def __init__(self, task, q=4):
        b = task.basis
        self.task, self.mesh, self.q = task, b.mesh, q
        self.t, self.n = b.mesh.t, b.mesh.p.shape[1]
        self.dof = np.asarray(b.nodal_dofs[0])
        # the basis' own integration points, by their coordinates
        self.quad = Quad(b.mesh.p, b.mesh.t, points=(np.asarray(b.X).T, np.asarray(b.W)))
        g = self.quad
        self.Ke = np.einsum('eq,eqka,eqkb->eab', g.w, g.G, g.G, optimize=True)
        h, te, rf = task.robin_coefficient, task.robin_bc_value, task.robin_facets_ids
        self.film = []
        if h is not None:
            rf = rf if isinstance(rf, list) else [rf]
            hs = list(h) if isinstance(h, (list, tuple)) else [h] * len(rf)
            ts = list(te) if isinstance(te, (list, tuple)) else [te] * len(rf)
            self.film = [(float(a), float(c), *facet_integrals(b.mesh, f)[::2]) for a, c, f in zip(hs, ts, rf)]
            # the density's own film exists once
            self.h, self.te = ([h], [te]) if isinstance(h, float) and isinstance(te, float) else (hs, ts)

    def system(self, rho, k):
        """K, f without constraints; k the element conductivities."""
        K = assemble(self.t.T, self.Ke, self.n, k)
        f = np.zeros(self.n)
        for h, te, b, M in self.film:
            K = K + h * M
            f = f + h * te * b
        if self.film:
            Kv, fv = self.virtual(rho, self.p)
            K, f = K + Kv, f + fv
        return K.tocsr(), f

    def interface(self, rho):
        """Density and |its gradient| at the integration points."""
        r = nodal_average(self.t, self.n, rho)[self.t].T
        g = self.quad
        val = np.einsum('qa,ea->eq', g.N, r)
        grad = np.einsum('eqka,ea->eqk', g.G, r)
        return val, np.sqrt((grad ** 2).sum(axis=2))

    def virtual(self, rho, p):
        val, jump = self.interface(rho)
        g = self.quad
        K, f = 0, np.zeros(self.n)
        for h, te in zip(self.h, self.te):
            w = g.w * h * val ** p * (1 - val) ** self.q * jump
            K = K + assemble(self.t.T, np.einsum('eq,qa,qb->eab', w, g.N, g.N), self.n)
            np.add.at(f, self.t.T, te * np.einsum('eq,qa->ea', w, g.N))
        return K, f

    def solve(self, rho, k, p, nodes, value):
        self.p = p
        K, f = self.system(rho, k)
        T = np.zeros(self.n)
        T[nodes] = value
        free = np.setdiff1d(np.arange(self.n), nodes)
        if free.size:
            T[free] = spl.spsolve(K[free][:, free].tocsc(), f[free] - K[free][:, nodes] @ T[nodes])
        return T, K, f

    def cases(self):
        t = self.task
        nodes = t.dirichlet_nodes if isinstance(t.dirichlet_nodes, list) else [t.dirichlet_nodes]
        vals = t.dirichlet_values if isinstance(t.dirichlet_values, list) else [t.dirichlet_values]
        return [(np.unique(n), float(v)) for n, v in zip(nodes, vals)]

    def exchange(self, rho, T, n=4):
        """-T_env h * mean over the interface of (T - T_env)."""
        r = nodal_average(self.t, self.n, rho)[self.t].T
        g = Quad(self.mesh.p, self.t, n)
        jump = np.sqrt((np.einsum('eqka,ea->eqk', g.G, r) ** 2).sum(axis=2))
        Tq = np.einsum('qa,ea->eq', g.N, T[self.t].T)
        den = (g.w * jump).sum()
        flat = 1e-11 * np.abs(rho).max() * (g.w[..., None, None] * np.abs(g.G)).sum()
        if den <= max(1e-16, flat):      # an interface of rounding only
            return 0.0, 0.0
        h, te = self.h[0], self.te[0]
        return -te * h * (g.w * (Tq - te) * jump).sum() / den, den

    def energies(self, k, T):
        x = T[self.t].T
        return 0.5 * k * np.einsum('ea,eab,eb->e', x, self.Ke, x)

    def fixed_state_gradient(self, rho, p, dk, T, film=True):
        """Derivative of 2 f.T - T.K T for a fixed temperature, per element;
        and the smallest density gradient relative to the largest."""
        x = T[self.t].T
        out = -dk * np.einsum('ea,eab,eb->e', x, self.Ke, x)
        if not self.film or not film:
            return out, np.inf
        r = nodal_average(self.t, self.n, rho)[self.t].T
        cnt = np.zeros(self.n)
        np.add.at(cnt, self.t, 1.0)
        g, q = self.quad, self.q
        v = np.einsum('qa,ea->eq', g.N, r)
        gr = np.einsum('eqka,ea->eqk', g.G, r)
        jump = np.sqrt((gr ** 2).sum(axis=2))
        Tq = np.einsum('qa,ea->eq', g.N, x)
        a = v ** p * (1 - v) ** q
        da = p * v ** (p - 1) * (1 - v) ** q - q * v ** p * (1 - v) ** (q - 1)
        node = np.zeros(self.n)
        for h, te in zip(self.h, self.te):
            phi = g.w * h * (2 * te * Tq - Tq ** 2)
            loc = np.einsum('eq,qa->ea', phi * da * jump, g.N)
            loc += np.einsum('eq,eqk,eqka->ea', phi * a / np.maximum(jump, 1e-300), gr, g.G)
            np.add.at(node, self.t.T, loc)
        return out + (node / cnt)[self.t].sum(axis=0), jump.min() / max(jump.max(), 1e-300)
