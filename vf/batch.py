"""Stand-ins for the environment of the post-processing modules.

mpi4py and bilby are replaced before the modules are imported: importing
mpi4py starts MPI, and the workers must be under the control of the check.
"""
import contextlib
import sys
import types


class Comm:
    """Replaced by the scenario's scheduler."""
    impl = None

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1

    def send(self, msg, dest=None, tag=0):
        return self.impl.send(msg, dest)

    def recv(self, source=None, tag=None, status=None):
        return self.impl.recv(source)


COMM = Comm()
READ = {"posterior": None}


def _install():
    mpi = types.ModuleType("mpi4py")
    mpi.MPI = types.ModuleType("mpi4py.MPI")
    mpi.MPI.COMM_WORLD = COMM
    mpi.MPI.ANY_SOURCE = -1
    mpi.MPI.ANY_TAG = -1
    sys.modules["mpi4py"] = mpi
    sys.modules["mpi4py.MPI"] = mpi.MPI
    bilby = types.ModuleType("bilby")
    bilby.result = types.ModuleType("bilby.result")
    bilby.result.read_in_result = lambda *a, **k: types.SimpleNamespace(
        posterior=READ["posterior"])
    sys.modules["bilby"] = bilby
    sys.modules["bilby.result"] = bilby.result


_install()
from gw_eccentricity.postprocess import core, postprocess   # noqa: E402
from gw_eccentricity.postprocess import postprocess_cli as cli  # noqa: E402
from gw_eccentricity.postprocess import postprocess_for_bilby  # noqa: E402,F401
import logging                                              # noqa: E402

for _m in (core, cli):
    _m.logger.setLevel(logging.CRITICAL + 1)


@contextlib.contextmanager
def attr(obj, **names):
    old = {k: getattr(obj, k, None) for k in names}
    had = {k: hasattr(obj, k) for k in names}
    try:
        for k, v in names.items():
            setattr(obj, k, v)
        yield
    finally:
        for k, v in old.items():
            if had[k]:
                setattr(obj, k, v)
            else:
                delattr(obj, k)
