"""One rank of the stand-in MPI world."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mpi4py import MPI  # noqa: E402

link = MPI._link
while True:
    kind, (module, func, args) = link.recv()
    try:
        fn = getattr(importlib.import_module(module), func)
        out = {"ok": fn(MPI.COMM_WORLD.rank, MPI.COMM_WORLD.size, args), "err": ""}
    except BaseException as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        out = {"ok": None, "err": ("%s: %s [%s]" % (type(e).__name__, e, where))[:600]}
    link.send(("done", out))
