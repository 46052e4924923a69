from . import PETSc  # noqa
