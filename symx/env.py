"""bootstrap: import escnn from /repo's current tree with the project's python and z3 from the tooling venv"""
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
REPO = os.environ.get("ESCNN_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _z3():
    # import only the z3 package of the tooling venv (its numpy must not shadow the project's)
    import importlib.util
    if "z3" in sys.modules:
        return sys.modules["z3"]
    spec = importlib.util.spec_from_file_location("z3", os.path.join(Z3DIR, "z3", "__init__.py"),
                                                  submodule_search_locations=[os.path.join(Z3DIR, "z3")])
    m = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = m
    spec.loader.exec_module(m)
    return m


def _linear_scipy():
    """scipy.ndimage.affine_transform on arrays of symbolic numbers; contract: linear in the array (its matrix is read off the real one)"""
    import numpy as np
    import scipy.ndimage as nd
    real = nd.affine_transform
    if hasattr(real, "_symx"):
        return

    def affine_transform(x, *a, **k):
        if not (isinstance(x, np.ndarray) and x.dtype == object):
            return real(x, *a, **k)
        from . import symt
        n = x.size
        M = np.zeros((n, n))
        for i in range(n):
            e = np.zeros(n)
            e[i] = 1.0
            M[:, i] = real(e.reshape(x.shape), *a, **k).reshape(-1)
        M[np.abs(M) < 1e-14] = 0.0
        return symt.matmul2(M.astype(object), x.reshape(n, 1)).reshape(x.shape)
    affine_transform._symx = True
    nd.affine_transform = affine_transform


def boot():
    import warnings
    warnings.filterwarnings("ignore")
    import numpy  # noqa
    import torch
    torch.set_num_threads(1)
    torch.use_deterministic_algorithms(True, warn_only=True)        # torch.empty is filled with nan: uninitialised memory shows
    z3 = _z3()
    # escnn memoises group data on disk with joblib: never read or write that cache (it would hide source changes)
    import joblib
    orig = joblib.Memory

    class NoMemory(orig):
        def __init__(self, location=None, *a, **k):
            k["verbose"] = 0
            super().__init__(None, *a[:0], **{kk: v for kk, v in k.items() if kk in ("mmap_mode", "compress", "verbose", "backend_options")})

    joblib.Memory = NoMemory
    try:
        import joblib.memory
        joblib.memory.Memory = NoMemory
    except Exception:
        pass
    _linear_scipy()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import escnn  # noqa
    assert os.path.realpath(escnn.__file__).startswith(os.path.realpath(REPO)), escnn.__file__
    return z3
