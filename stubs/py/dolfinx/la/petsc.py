from petsc4py import PETSc


def create_vector_wrap(x):
    return PETSc.Vec(x.array)
