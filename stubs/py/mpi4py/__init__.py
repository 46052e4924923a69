"""Stand-in for mpi4py: communicators of one process, or of a simulated group."""
__version__ = "4.0.0"
from . import MPI  # noqa
