"""Loads the code under test from REPO (default /repo) - never from an installed copy."""
import os
import sys

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
_loaded = None


class Lib:
    pass


def install_svd_seam(torch):
    """LAPACK's single-precision SVD sometimes refuses a finite matrix with denormal entries, or answers nan.  That is neither a fault
    this simulator injected nor the library's doing, so the same decomposition is then taken in double precision."""
    import collections
    T = collections.namedtuple("svd", ["U", "S", "V"])

    class SVD(T):
        @property
        def Vh(self):
            return self[2]

    def wrap(orig):
        def svd(A, *a, **kw):
            err = None
            try:
                r = orig(A, *a, **kw)
                if bool(torch.isfinite(r[1].detach()).all()):
                    return r
            except torch.linalg.LinAlgError as e:
                if "simulated" in str(e) or kw.get("out") is not None:
                    raise
                err = e
            if not bool(torch.isfinite(A.detach()).all()):
                if err is not None:
                    raise err
                return r
            d = torch.complex128 if A.is_complex() else torch.float64
            U, S, V = orig(A.to(d), *a, **kw)
            return SVD(U.to(A.dtype), S.to(A.real.dtype if A.is_complex() else A.dtype), V.to(A.dtype))
        svd.__name__ = "svd"
        return svd
    torch.svd = wrap(torch.svd)
    torch.linalg.svd = wrap(torch.linalg.svd)


def load():
    global _loaded
    if _loaded is not None:
        return _loaded
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from . import kernel
    kernel.install_lock_seam(REPO)
    import torch
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    install_svd_seam(torch)
    import deepquantum as dq
    if not os.path.realpath(dq.__file__).startswith(REPO + os.sep):
        raise SystemExit("harness: deepquantum was not loaded from %s but %s" % (REPO, dq.__file__))
    L = Lib()
    L.torch, L.dq = torch, dq
    import deepquantum.gates.qcircuit as qcircuit
    import deepquantum.gates.qtensornetwork as tn
    import deepquantum.gates.qmath as qmath
    import deepquantum.gates.qgate as qgate
    import deepquantum.embeddings.qembedding as qembedding
    L.Circuit, L.parameter_shift = qcircuit.Circuit, qcircuit.parameter_shift
    L.qcircuit, L.tn, L.qmath, L.legacy, L.emb = qcircuit, tn, qmath, qgate.Circuit, qembedding
    _loaded = L
    return L


def load_quanv():
    L = load()
    if not hasattr(L, "quanv"):
        import deepquantum.nn.modules.quanv as quanv
        L.quanv = quanv
    return L
