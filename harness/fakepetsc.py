"""A stand-in for petsc4py, which is not installed here.

It offers the part of petsc4py a sequential KSP solve needs, solves for real
(direct factorisation, or conjugate gradients / GMRES with a preconditioner,
stopped by the requested tolerance and iteration limit), reports PETSc's
convergence reasons, honours an options database, and records what every solve
was given. `solves` is the event log the oracle reads.
"""
from __future__ import annotations
import sys
import types

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl

solves = []          # one record per KSP.solve
OPTIONS = {}         # the options database: "<prefix>ksp_type" -> value
fail_with = {}       # fault injection: solve number -> converged reason
KSP_TYPES = {"cg", "gmres", "bcgs", "minres", "preonly", "fgmres"}
PC_TYPES = {"gamg", "lu", "cholesky", "jacobi", "none", "ilu", "icc", "hypre", "bjacobi", "sor"}
DIRECT = {"lu", "cholesky"}


class Error(RuntimeError):
    pass


class _Comm:
    pass


COMM_SELF, COMM_WORLD = _Comm(), _Comm()


class Mat:
    def __init__(self):
        self.A, self.ready = None, False

    def createAIJ(self, size, bsize=None, nnz=None, csr=None, comm=None):
        if csr is None:
            raise Error("stand-in: csr is needed")
        indptr, indices, data = (np.array(x, copy=True) for x in csr)
        n, k = size
        if len(indptr) != n + 1:
            raise Error("row pointer of the wrong length")
        self.A = sp.csr_matrix((data.astype(float), indices, indptr), shape=(n, k))
        self.ready = True        # given as csr, PETSc assembles at once
        return self

    createAIJWithArrays = createAIJ

    def assemblyBegin(self, *a):
        pass

    def assemblyEnd(self, *a):
        self.ready = True

    def assemble(self, *a):
        self.ready = True

    def create(self, comm=None):
        return self

    def getSize(self):
        return self.A.shape

    size = property(getSize)

    def _vec(self, n):
        return Vec().createSeq(n)

    def createVecRight(self):
        return self._vec(self.A.shape[1])

    def createVecLeft(self):
        return self._vec(self.A.shape[0])

    def createVecs(self, side=None):
        return self.createVecRight(), self.createVecLeft()

    getVecs = createVecs

    def setOption(self, *a):
        pass

    def destroy(self):
        self.A = None


class Vec:
    def createWithArray(self, array, size=None, bsize=None, comm=None):
        # as petsc4py does: the array itself where it can be, a copy otherwise
        array = np.asarray(array, dtype=float)
        if array.ndim != 1:
            array = array.ravel()
        if not array.flags.c_contiguous:
            array = array.copy()
        self.v = array
        return self

    def createSeq(self, size, bsize=None, comm=None):
        self.v = np.zeros(size)
        return self

    def duplicate(self):
        out = Vec()
        out.v = np.zeros_like(self.v)
        return out

    def getArray(self, readonly=False):
        return self.v

    def setArray(self, a):
        self.v[:] = a

    array = property(getArray, setArray)
    array_r = property(getArray)

    def set(self, alpha):
        self.v[:] = alpha

    zeroEntries = lambda self: self.set(0.0)

    def copy(self, result=None):
        out = self.duplicate() if result is None else result
        out.v[:] = self.v
        return out

    def getSize(self):
        return len(self.v)

    size = property(getSize)

    def norm(self, *a):
        return float(np.linalg.norm(self.v))

    def assemblyBegin(self, *a):
        pass

    assemble = assemblyEnd = assemblyBegin

    def destroy(self):
        self.v = None


class PC:
    def __init__(self):
        self.type, self.factor = None, None

    def setType(self, t):
        if t not in PC_TYPES:
            raise Error(f"unknown PC type {t!r}")
        self.type = t

    def getType(self):
        return self.type

    def setFactorSolverType(self, t):
        self.factor = t


class KSP:
    def create(self, comm=None):
        self.type, self.prefix, self.pc = None, None, PC()
        self.rtol, self.max_it = 1e-5, 10000
        self.from_options, self.mat, self.reason, self.its = False, None, 0, 0
        self._guess = False
        return self

    def setOperators(self, A, P=None):
        self.mat = A

    def setOptionsPrefix(self, p):
        self.prefix = p

    def setType(self, t):
        if t not in KSP_TYPES:
            raise Error(f"unknown KSP type {t!r}")
        self.type = t

    def getPC(self):
        return self.pc

    def setTolerances(self, rtol=None, atol=None, divtol=None, max_it=None):
        self.rtol = self.rtol if rtol is None else float(rtol)
        self.max_it = self.max_it if max_it is None else int(max_it)

    def getType(self):
        return self.type

    def getTolerances(self):
        return self.rtol, 1e-50, 1e5, self.max_it

    converged_reason = property(lambda self: self.getConvergedReason())
    is_converged = converged = property(lambda self: self.reason > 0)
    is_diverged = property(lambda self: self.reason < 0)
    iterations = property(lambda self: self.its)

    def setUpOnBlocks(self):
        pass

    def setInitialGuessNonzero(self, flag):
        self._guess = bool(flag)

    def setFromOptions(self):
        self.from_options = True
        p = self.prefix or ""
        if p + "ksp_type" in OPTIONS:
            self.setType(OPTIONS[p + "ksp_type"])
        if p + "pc_type" in OPTIONS:
            self.pc.setType(OPTIONS[p + "pc_type"])
        if p + "ksp_rtol" in OPTIONS:
            self.rtol = float(OPTIONS[p + "ksp_rtol"])
        if p + "ksp_max_it" in OPTIONS:
            self.max_it = int(OPTIONS[p + "ksp_max_it"])

    def setUp(self):
        pass

    def getConvergedReason(self):
        return self.reason

    def getIterationNumber(self):
        return self.its

    def destroy(self):
        pass

    def solve(self, b, x):
        if self.mat is None or not self.mat.ready:
            raise Error("object is in wrong state: the matrix is not assembled")
        A = self.mat.A
        if not (A.shape[0] == A.shape[1] == len(b.v) == len(x.v)):
            raise Error("nonconforming object sizes")
        self.its = 0
        if self.type == "preonly":
            if self.pc.type not in DIRECT:
                x.v[:], self.reason = self._precondition(A)(b.v), 4
            else:
                x.v[:], self.reason = spl.splu(A.tocsc()).solve(b.v), 4
        elif self.type == "cg":
            self._cg(A, b.v, x.v, self._precondition(A))
        else:
            M = self._precondition(A)
            count = [0]

            def cb(_):
                count[0] += 1
            got, info = spl.gmres(A, b.v, rtol=self.rtol, atol=0.0, restart=30, maxiter=max(1, self.max_it // 30), callback=cb,
                                  callback_type="pr_norm", M=spl.LinearOperator(A.shape, matvec=M))
            x.v[:], self.its, self.reason = got, count[0], (2 if info == 0 else -3)
        n = len(solves)
        if n in fail_with:
            self.reason = fail_with[n]
            x.v *= 0.5
        solves.append(dict(
            A=A.copy(), b=b.v.copy(), x=x.v.copy(), ksp=self.type, pc=self.pc.type, factor=self.pc.factor, prefix=self.prefix,
            rtol=self.rtol, max_it=self.max_it, from_options=self.from_options, reason=self.reason, its=self.its, ksp_id=id(self)))

    def _precondition(self, A):
        t = self.pc.type
        if t == "none":
            return lambda r: r.copy()
        if t in DIRECT:
            return spl.splu(A.tocsc()).solve
        if t in ("gamg", "hypre"):
            import pyamg
            M = pyamg.smoothed_aggregation_solver(A.tocsr()).aspreconditioner()
            return lambda r: M.matvec(r)
        d = A.diagonal()
        return lambda r: r / d

    def _cg(self, A, b, x, M):
        x[:] = 0.0
        r = b - A @ x
        stop = self.rtol * np.linalg.norm(b)
        z = M(r)
        p, rz = z.copy(), r @ z
        self.reason = 2
        if np.linalg.norm(r) <= stop:
            return
        for self.its in range(1, self.max_it + 1):
            q = A @ p
            pq = p @ q
            if not np.isfinite(pq) or pq == 0.0:
                self.reason = -5
                return
            if pq < 0.0:
                self.reason = -10
                return
            a = rz / pq
            x += a * p
            r -= a * q
            if np.linalg.norm(r) <= stop:
                return
            z = M(r)
            rz, old = r @ z, rz
            p = z + (rz / old) * p
        self.reason = -3


def install():
    """Makes `from petsc4py import PETSc` find the stand-in."""
    PETSc = types.ModuleType("petsc4py.PETSc")
    for k in ("Mat", "Vec", "KSP", "PC", "COMM_SELF", "COMM_WORLD", "Error"):
        setattr(PETSc, k, globals()[k])
    PETSc.IntType, PETSc.ScalarType, PETSc.RealType = np.int32, float, float
    top = types.ModuleType("petsc4py")
    top.PETSc = PETSc
    top.init = lambda *a, **k: None
    sys.modules["petsc4py"], sys.modules["petsc4py.PETSc"] = top, PETSc


def remove():
    """petsc4py absent, whatever is installed."""
    sys.modules["petsc4py"] = sys.modules["petsc4py.PETSc"] = None


def reset():
    solves.clear()
    OPTIONS.clear()
    fail_with.clear()
