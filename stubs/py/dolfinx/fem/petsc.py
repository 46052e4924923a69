"""Dense stand-ins of what dolfinx.fem.petsc does with one process. A form offers
values(coeffs), the values of its (bi)linear form for the given packed coefficients."""
import numpy as np
from petsc4py import PETSc


def create_matrix(a):
    return PETSc.Mat(np.zeros((a._cpp_object.dims[0], a._cpp_object.dims[1])))


def create_vector(V):
    return PETSc.Vec(np.zeros(V.n))


def _values(form, coeffs):
    return form._cpp_object.values(form._cpp_object.packed() if coeffs is None else coeffs)


def assemble_matrix(A, a, bcs=None, diag=1, constants=None, coeffs=None):
    m = np.array(_values(a, coeffs))
    for bc in bcs or []:
        m[bc.dofs, :] = 0
        m[:, bc.dofs] = 0
    A.m += m
    for bc in bcs or []:
        A.m[bc.dofs, bc.dofs] = diag
    A.assembled = False
    return A


def assemble_vector(b, L, constants=None, coeffs=None):
    b.add(_values(L, coeffs))
    return b


def apply_lifting(b, a, bcs, x0=None, alpha=1, constants=None, coeffs=None):
    if len(a) != len(bcs) or (coeffs is not None and len(coeffs) != len(a)) or (x0 is not None and len(x0) != len(a)):
        raise RuntimeError("Mismatch in size of a, bcs and coeffs")
    w = np.zeros(len(b.v))
    for k, form in enumerate(a):
        m = np.asarray(_values(form, None if coeffs is None else coeffs[k]))
        done = set()
        for bc in bcs[k]:
            for d, g in zip(bc.dofs, bc.g):
                if d not in done:
                    done.add(d)
                    w -= alpha * m[:, d] * (g - (0 if x0 is None else x0[k].v[d]))
    b.add(w)


def set_bc(b, bcs, x0=None, alpha=1):
    for bc in bcs:
        bc.set(b.v, None if x0 is None else x0.v, alpha)


class LinearProblem:
    def __del__(self):
        for o in (self._solver, self._A, self._b, self._x, self._P_mat):
            if o is not None:
                o.destroy()

    @property
    def u(self):
        return self._u

    @property
    def A(self):
        return self._A

    @property
    def b(self):
        return self._b


class NewtonSolverNonlinearProblem:
    @property
    def L(self):
        return self._L

    @property
    def a(self):
        return self._a
