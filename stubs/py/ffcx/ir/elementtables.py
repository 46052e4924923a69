import typing


class ModifiedTerminalElement(typing.NamedTuple):
    element: object
    averaged: object
    local_derivatives: tuple
    fc: int


def get_modified_terminal_element(mt):
    """None for terminals without an element (as jacobians of constant maps are given by
    their coordinate element, only geometry such as reference facet normals has none)"""
    return getattr(mt, "mte", None)
