"""Import the b_asic package of the tree under test.

The tree under test is /repo (or $VERIF_REPO while developing).  The two files the
build generates are replaced by in-memory stand-ins, so nothing is written there.
"""
import os
import sys
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
os.environ.setdefault("QT_API", "pyqt6")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

LIB = os.path.join(REPO, "lib")
PKG = os.path.join(LIB, "b_asic")


def install(fast_simulation=None):
    sys.path[:] = [p for p in sys.path if p not in (LIB, PKG)]
    sys.path.insert(0, LIB)
    ver = types.ModuleType("b_asic._version")
    ver.__version__ = ver.version = "1.0.0"
    sys.modules.setdefault("b_asic._version", ver)
    if "b_asic._b_asic" not in sys.modules:
        ext = types.ModuleType("b_asic._b_asic")
        if fast_simulation is None:
            class FastSimulation:  # never used outside check C02
                def __init__(self, *a, **k):
                    raise RuntimeError("native extension not part of this check")
            fast_simulation = FastSimulation
        ext.FastSimulation = fast_simulation
        ext.__all__ = ["FastSimulation"]
        sys.modules["b_asic._b_asic"] = ext
    warnings.simplefilter("ignore")
    import b_asic
    assert os.path.realpath(b_asic.__file__).startswith(os.path.realpath(LIB)), b_asic.__file__
    return b_asic
