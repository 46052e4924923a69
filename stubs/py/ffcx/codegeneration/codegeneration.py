"""generate_code is set by the driver (see drivers/kgen.py)"""
from typing import NamedTuple


class CodeBlocks(NamedTuple):
    file_pre: list
    integrals: list
    forms: list
    expressions: list
    file_post: list


def generate_code(ir, options):
    raise NotImplementedError("stub: generate_code")
