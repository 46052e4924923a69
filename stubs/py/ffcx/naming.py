import hashlib

import ufl


def compute_signature(ufl_objects, tag):
    sig = ""
    for o in ufl_objects:
        if not isinstance(o, ufl.Form):
            raise RuntimeError(f"Unknown ufl object type {type(o)}")
        sig += o.signature()
    return hashlib.sha1(";".join([sig, "0.10.0", "ufcx", "form", tag]).encode()).hexdigest()


def form_name(form, form_id, prefix):
    return f"form_{compute_signature([form], str((prefix, form_id)))}"
