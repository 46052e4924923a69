from . import spatial  # noqa
