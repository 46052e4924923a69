import functools

DEFAULTS = {"cffi_extra_compile_args": [], "cffi_libraries": [], "cffi_debug": False, "cffi_verbose": False, "timeout": 5,
            "cache_dir": None}


def get_options(priority_options=None):
    o = dict(DEFAULTS)
    if priority_options is not None:
        o.update(priority_options)
    return o


def mpi_jit_decorator(local_jit):
    """Rank 0 compiles, the others load afterwards (all ranks share the file system)."""

    @functools.wraps(local_jit)
    def mpi_jit(comm, *args, **kwargs):
        return local_jit(*args, **kwargs)

    return mpi_jit
