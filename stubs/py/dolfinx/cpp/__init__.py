__version__ = "0.10.0"
from . import graph, mesh, fem  # noqa
