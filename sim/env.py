"""Process set-up: import the library from /repo (never run it here), silence, determinism.

The process that imports this module is a *zygote*: it imports actuarialmath and never calls it.  Every simulated
run and every oracle question is executed in a child forked from it.
"""
import os, sys, tempfile, atexit, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, "src")
LIB = os.path.join(SRC, "actuarialmath") + os.sep


def setup():
    sys.dont_write_bytecode = True
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    owner = os.getpid()
    if "SIM_SCRATCH" in os.environ and os.path.isdir(os.environ["SIM_SCRATCH"]):
        scratch = os.environ["SIM_SCRATCH"]
    else:
        scratch = tempfile.mkdtemp(prefix="actsim-")
        os.environ["SIM_SCRATCH"] = scratch

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(scratch, ignore_errors=True)
        atexit.register(clean)
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["IPYTHONDIR"] = scratch
    os.environ["HOME"] = scratch
    if SRC in sys.path:
        sys.path.remove(SRC)
    sys.path.insert(0, SRC)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import matplotlib
    matplotlib.use("Agg")
    import actuarialmath
    import pandas, scipy.integrate, scipy.optimize, scipy.differentiate, matplotlib.pyplot  # noqa: F401
    import gc
    assert os.path.realpath(actuarialmath.__file__).startswith(os.path.realpath(SRC)), actuarialmath.__file__
    gc.collect()
    gc.freeze()
    return actuarialmath
