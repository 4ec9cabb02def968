"""ctypes driver for the module procedures of the Fortran sources of the tree under test, compiled in scratch"""
import ctypes
import os
import subprocess
import tempfile
import atexit
import shutil
import numpy as np
from vk.search import Skip

_LIB = None
ORDER = ["const.f90", "math.F90", "fft.F90", "csr.F90", "random.f90", "propagation.f90", "kpm.f90", "funcs.f90"]


def lib():
    global _LIB
    if _LIB is None:
        src = os.path.join(os.environ["VK_SRC"], "tbplas", "fortran")
        d = tempfile.mkdtemp(prefix="vk_fort_")
        atexit.register(shutil.rmtree, d, True)
        fs = [os.path.join(src, f) for f in ORDER] + [os.path.join(os.path.dirname(__file__), "fort", "wrap.f90")]
        so = os.path.join(d, "drv.so")
        r = subprocess.run(["gfortran", "-cpp", "-fopenmp", "-O1", "-fPIC", "-shared", "-fno-second-underscore", "-J", d, "-I", src, "-o", so] + fs,
                           cwd=d, capture_output=True, text=True)
        _LIB = ctypes.CDLL(so) if r.returncode == 0 else r.stderr[-600:]
    if isinstance(_LIB, str):
        raise Skip("the driver does not compile against the Fortran modules: " + _LIB)
    return _LIB


def I(x):
    return ctypes.c_int(int(x))


def D(x):
    return ctypes.c_double(float(x))


def P(a):
    return a.ctypes.data_as(ctypes.c_void_p)


def threads(n):
    lib().vk_threads(I(n))


def random_state(n, seed):
    wf = np.zeros(n, dtype=complex)
    lib().vk_random_state(I(n), ctypes.c_int(int(np.array(seed, dtype=np.int64).astype(np.int32))), P(wf))
    return wf


class Csr:
    def __init__(self, rng, n, hermitian=True, scale=1.0):
        """a random matrix in CSR form; general ones have unsorted and repeated columns and empty rows"""
        if hermitian:
            m = np.zeros((n, n), dtype=complex)
            for _ in range(int(rng.integers(1, 3 * n + 1))):
                i, j = rng.integers(0, n, size=2)
                v = rng.normal() + 1j * rng.normal()
                m[i, j] += v
                m[j, i] += np.conj(v)
            nv = np.linalg.norm(m, 2)
            m *= scale * rng.uniform(0.5, 1) / (nv or 1)
            rows = [[(j, m[i, j]) for j in rng.permutation(n) if m[i, j] != 0] for i in range(n)]
        else:
            rows = [[(int(rng.integers(0, n)), rng.normal() + 1j * rng.normal()) for _ in range(int(rng.integers(0, 4)))] for _ in range(n)]
            m = np.zeros((n, n), dtype=complex)
            for i, r in enumerate(rows):
                for j, v in r:
                    m[i, j] += v
        self.n, self.m = n, m
        self.indptr = np.cumsum([0] + [len(r) for r in rows]).astype(np.int32)
        self.indices = np.array([j for r in rows for j, _ in r], dtype=np.int32)
        self.values = np.array([v for r in rows for _, v in r], dtype=complex)

    def args(self):
        return I(self.n), I(len(self.indices)), P(self.indptr), P(self.indices), P(self.values)


def cheb(m, x, count):
    """T_k(m) x for k < count"""
    t = [x, m @ x]
    while len(t) < count:
        t.append(2 * m @ t[-1] - t[-2])
    return t[:count]


def step(m, bes, x, fwd=True):
    """truncated Chebyshev sum of exp(-+ i H dt) with Bessel coefficients"""
    t = cheb(m, x, len(bes))
    s = -1j if fwd else 1j
    return sum((1 if k == 0 else 2) * bes[k] * s ** k * t[k] for k in range(len(bes)))
