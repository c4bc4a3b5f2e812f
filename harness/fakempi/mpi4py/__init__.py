"""Stand-in for mpi4py used by the checks: one process per rank, communication through a
controller (mpipool.py) that implements MPI semantics deterministically, records every call
and detects deadlocks and mismatched collectives.  Without a controller: a single process."""
__version__ = "3.1.6"


class rc:  # noqa: N801
    initialize = True
    threads = True


def get_config():
    return {}


from . import MPI  # noqa: E402,F401
