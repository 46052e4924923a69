__version__ = "0.10.0"
from . import analysis, ir, codegeneration  # noqa
