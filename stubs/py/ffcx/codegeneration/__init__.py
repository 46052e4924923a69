from . import codegeneration  # noqa


def get_include_path():
    return "/ffcx/include"
