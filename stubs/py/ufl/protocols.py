def id_or_none(obj):
    """ufl.protocols.id_or_none"""
    if obj is None:
        return None
    elif hasattr(obj, "ufl_id"):
        return obj.ufl_id()
    else:
        return id(obj)


def metadata_equal(a, b):
    return (sorted((k, id(v)) for k, v in list(a.items())) == sorted((k, id(v)) for k, v in list(b.items())))


def metadata_hashdata(md):
    return tuple(sorted((k, id(v)) for k, v in list(md.items())))
