"""Stand-in for the parts of DOLFINx 0.10 the code under test touches. The mesh is a
real (if slow) one: cells, nodes, facets are renumbered at random, ids of the input are
kept, connectivities exist only once created, as in DOLFINx."""
__version__ = "0.10.0"
import numpy as _np
default_scalar_type = _np.float64
has_petsc = False
has_petsc4py = False
from . import cpp, mesh, fem  # noqa
