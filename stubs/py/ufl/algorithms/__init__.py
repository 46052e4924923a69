from . import analysis, formdata  # noqa
