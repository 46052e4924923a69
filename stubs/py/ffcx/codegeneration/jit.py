"""As ffcx.codegeneration.jit, over the compiler of cffi.py."""
import json
import logging
import os
import time
import types
from pathlib import Path

logger = logging.getLogger("ffcx")
root_logger = logging.getLogger()
UFC_HEADER_DECL = "typedef {} ufcx_scalar;\n"
UFC_INTEGRAL_DECL = "typedef struct ufcx_integral ufcx_integral;\n"
UFC_FORM_DECL = "typedef struct ufcx_form ufcx_form;\n"
POLL = 0.02


def _compute_option_signature(options):
    return str(sorted(options.items()))


def _compilation_signature(cffi_extra_compile_args, cffi_debug):
    return str(cffi_extra_compile_args) + str(cffi_debug) + "CFLAGS SOABI"


def _read(cache_dir, module_name, object_names):
    with open(Path(cache_dir) / (module_name + ".built")) as f:
        d = json.load(f)
    for n in object_names:
        if f"ufcx_form {n};" not in d["cdef"]:
            raise AttributeError(n)
    return [types.SimpleNamespace(name=n, module=module_name, **d) for n in object_names], types.SimpleNamespace(name=module_name, **d)


def _load_objects(cache_dir, module_name, object_names):
    return _read(cache_dir, module_name, object_names)


def get_cached_module(module_name, object_names, cache_dir, timeout):
    c_filename = Path(cache_dir) / (module_name + ".c")
    ready = c_filename.with_suffix(".c.cached")
    Path(cache_dir).mkdir(exist_ok=True, parents=True)
    try:
        with open(c_filename, "x"):
            pass
        return None, None
    except FileExistsError:
        for _ in range(int(timeout / POLL)):
            if os.path.exists(ready):
                return _read(cache_dir, module_name, object_names)
            time.sleep(POLL)
        raise TimeoutError("JIT compilation timed out, probably due to a failed previous compile.")
