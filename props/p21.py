"""P21 TBPM propagation applies the sparse Hamiltonian by its recursion"""
import numpy as np
from vk.search import require
from props import gen, fortdrv as fd
from props.fortdrv import I, D, P

ASSUMPTIONS = ["floating-point numbers are treated as real numbers, so the result of a reduction does not depend on the order of its terms",
               "machine integers are treated as mathematical integers",
               "the Fortran procedures are translated mechanically into the verified text on every run (vk/fort.py); array bounds and the meaning of the "
               "intrinsics SIZE, DOT_PRODUCT, NORM2, CMPLX, CONJG follow the language standard; array arguments of one call do not alias (a rule of the language)",
               "propagation step, Fermi filter and Haydock recursion: wave functions are elements of a complex vector space and the sparse products are used "
               "through their contracts as linear operators (linearity of the CSR sum over real numbers)",
               "threads: an OpenMP loop is proved in its sequential order, together with obligations that every scalar written in it is private or a "
               "reduction variable and that every element written is addressed by the loop variable; fair OpenMP runtime"]
TRUSTED = ["norm and inner_prod (NORM2 and DOT_PRODUCT intrinsics) are used through their definition", "fft1d_inplace is not under contract"]
BOUNDED_NOTE = ("norm and inner_prod, thread counts on the compiled library, and all procedures again: module procedures called through a ctypes driver compiled from the Fortran sources of the tree: CSR matrices up to 9x9 (unsorted, "
                "repeated columns, empty rows), up to 12 coefficients, 1-4 threads; thread cases with 4000 rows; psi_t through f2py")
BUDGET = {"quick": 25, "thorough": 240}


def proofs(src):
    from props import k_f90, k_tbpm
    return k_tbpm.tasks(src, k_tbpm.PROPAGATION) + k_f90.tasks(src, k_f90.LINALG)


def cvec(rng, n):
    return rng.normal(size=n) + 1j * rng.normal(size=n)


def products(rng, index):
    fd.threads(int(rng.integers(1, 5)))
    n = int(rng.integers(1, 10))
    c = fd.Csr(rng, n, hermitian=bool(rng.integers(0, 2)))
    a, b = complex(*rng.normal(size=2)), complex(*rng.normal(size=2))
    x, y0 = cvec(rng, n), cvec(rng, n)
    hx = c.m @ x
    want = [hx, a.real * hx, a * hx, a.real * hx + y0, a * hx + y0, a.real * hx + b.real * y0, a * hx + b * y0]
    name = ["H*x", "amv(real)", "amv(complex)", "amxpy(real)", "amxpy(complex)", "amxpby(real)", "amxpby(complex)"]
    for op in range(7):
        y, xx = y0.copy(), x.copy()
        fd.lib().vk_csr(I(op), *c.args(), D(a.real), D(a.imag), D(b.real), D(b.imag), P(xx), P(y))
        require(gen.close(y, want[op], 1e-12), lambda: f"{name[op]} with a={a} b={b} of\n{c.m.tolist()}\non {x.tolist()}, y={y0.tolist()} is {y.tolist()} "
                                                         f"instead of {want[op].tolist()}")
        require(np.array_equal(xx, x), f"{name[op]} changed its input vector")


def vectors(rng, index):
    fd.threads(int(rng.integers(1, 5)))
    n = int(rng.integers(1, 10))
    x, y, z = (cvec(rng, n) for _ in range(3))
    rx, ry = rng.normal(size=n), rng.normal(size=n)
    a, b, c = complex(*rng.normal(size=2)), complex(*rng.normal(size=2)), float(rng.normal())
    ar, br = a.real, b.real
    want = {0: (x + y, rx + ry), 1: (x - y, rx - ry), 2: (x * y, rx * ry), 3: (a * x, ar * rx), 4: (ar * x, None), 5: (x / y, rx / ry), 6: (x / b, rx / br),
            7: (x / br, None), 8: (a * x, ar * rx), 9: (ar * x, None), 10: (x / b, rx / br), 11: (x / br, None),
            12: (np.vdot(x, y), np.dot(rx, ry)), 13: (np.linalg.norm(x), np.linalg.norm(rx)), 14: (x, rx), 15: (a * x + y, ar * rx + ry),
            16: (ar * x + y, None), 17: (a * x + b * y, ar * rx + br * ry), 18: (ar * x + br * y, None), 19: (ar * x + br * y + c * z, None),
            20: (a * x + br * y + z, None)}
    name = ["pAdd", "pSub", "pMul vectors", "pMul by scalar", "pMul by real", "pDiv vectors", "pDiv by scalar", "pDiv by real", "self_mul", "self_mul real",
            "self_div", "self_div real", "inner_prod", "norm", "copy", "axpy", "axpy real", "axpby", "axpby real", "axpbypcz", "axpbypz"]
    for op, (wz, wd) in want.items():
        out, rout = np.zeros(n, dtype=complex), np.zeros(n)
        ins = [x.copy(), y.copy(), z.copy(), rx.copy(), ry.copy()]
        fd.lib().vk_math(I(op), I(n), D(ar), D(a.imag), D(br), D(b.imag), D(c), P(ins[0]), P(ins[1]), P(ins[2]), P(out), P(ins[3]), P(ins[4]), P(rout))
        gz = out if np.ndim(wz) else out[0]
        require(gen.close(gz, wz, 1e-12), lambda: f"{name[op]} (complex) with a={a} b={b} c={c} x={x.tolist()} y={y.tolist()}: {gz} instead of {wz}")
        if wd is not None:
            gd = rout if np.ndim(wd) else rout[0]
            require(gen.close(gd, wd, 1e-12), lambda: f"{name[op]} (real) with a={ar} b={br} x={rx.tolist()} y={ry.tolist()}: {gd} instead of {wd}")


def steps(rng, index):
    fd.threads(int(rng.integers(1, 5)))
    n = int(rng.integers(1, 10))
    c = fd.Csr(rng, n, hermitian=bool(rng.integers(0, 2)))
    if not c.values.size:
        return
    nc = int(rng.integers(3, 13))
    coef = rng.normal(size=nc)
    x = cvec(rng, n)
    t = fd.cheb(c.m, x, nc)
    want = [fd.step(c.m, coef, x, True), fd.step(c.m, coef, x, False), sum(k * v for k, v in zip(coef, t))]
    for op, nm in enumerate(("forward step", "backward step", "Fermi filter")):
        y, xx = np.zeros(n, dtype=complex), x.copy()
        fd.lib().vk_step(I(op), *c.args(), I(nc), P(coef), P(xx), P(y))
        tol = 1e-12 * (1 + max(np.abs(v).max() for v in t) * np.abs(coef).sum() * nc)
        require(np.abs(y - want[op]).max() <= tol, lambda: f"{nm} with {nc} coefficients {coef.tolist()} of\n{c.m.tolist()}\non {x.tolist()} is {y.tolist()} "
                                                            f"instead of {want[op].tolist()}")
        require(np.array_equal(xx, x), f"{nm} changed its input vector")


def haydock(rng, index):
    fd.threads(int(rng.integers(1, 5)))
    n = int(rng.integers(3, 10))
    c = fd.Csr(rng, n)
    resc = float(rng.uniform(0.5, 4))
    x = cvec(rng, n)
    x /= np.linalg.norm(x)
    depth = int(rng.integers(1, 6))
    h = resc * c.m
    a, b, prev, cur, bi = [], [], np.zeros(n), x, 0.0
    for _ in range(depth):
        ai = np.vdot(cur, h @ cur)
        m = h @ cur - ai * cur - bi * prev
        bi = np.linalg.norm(m)
        a.append(ai)
        b.append(bi)
        if bi < 1e-6:
            break
        prev, cur = cur, m / bi
    depth = len(a)
    ga, gb, xx = np.zeros(depth, dtype=complex), np.zeros(depth), x.copy()
    fd.lib().vk_haydock(*c.args(), P(xx), I(depth), D(resc), P(ga), P(gb))
    require(gen.close(ga, a, 1e-7) and gen.close(gb, b, 1e-7), lambda: f"Haydock coefficients of depth {depth}, factor {resc}, of\n{c.m.tolist()}\nfrom {x.tolist()}: "
                                                              f"{ga.tolist()} {gb.tolist()} instead of {a} {b}")


def psi_t(rng, index):
    from tbplas.fortran import f2py
    n = int(rng.integers(2, 9))
    c = fd.Csr(rng, n, scale=0.8)
    bes = rng.normal(size=int(rng.integers(3, 9)))
    nt = int(rng.integers(1, 7))
    log = np.unique(rng.integers(0, nt + 1, size=int(rng.integers(1, nt + 2))))
    x = cvec(rng, n)
    got = f2py.tbpm_psi_t(bes, c.indptr, c.indices, c.values, x, log, nt, 100000, 1e-9)
    cur = x
    for t in range(nt + 1):
        if t in log:
            g = got[:, list(log).index(t)]
            require(np.abs(g - cur).max() <= 1e-9 * (1 + np.abs(cur).max()), lambda: f"wave function at step {t} (log {log.tolist()}, {nt} steps, coefficients {bes.tolist()}) "
                                                                    f"of\n{c.m.tolist()}\nfrom {x.tolist()} is {g.tolist()} instead of {cur.tolist()}")
        cur = fd.step(c.m, bes, cur)


def thread_count(rng, index):
    if (index // 8) % 12:
        return
    n = 4000
    rows = [rng.integers(0, n, size=int(rng.integers(0, 5))) for _ in range(n)]
    c = fd.Csr.__new__(fd.Csr)
    c.n = n
    c.indptr = np.cumsum([0] + [len(r) for r in rows]).astype(np.int32)
    c.indices = np.concatenate(rows).astype(np.int32)
    c.values = cvec(rng, len(c.indices)) / 5
    x, y0, z = cvec(rng, n), cvec(rng, n), cvec(rng, n)
    coef = rng.normal(size=5)
    ref = {}
    for th in (1, 3, 8, 5):
        fd.threads(th)
        for op in range(7):
            y = y0.copy()
            fd.lib().vk_csr(I(op), *c.args(), D(0.3), D(0.7), D(-0.4), D(0.2), P(x), P(y))
            r = ref.setdefault(("csr", op), y)
            require(np.array_equal(r, y), f"sparse product {op} of a 4000-row matrix depends on the number of threads ({th} instead of 1)")
        for op in range(3):
            y = y0.copy()
            fd.lib().vk_step(I(op), *c.args(), I(5), P(coef), P(x), P(y))
            r = ref.setdefault(("step", op), y)
            require(np.array_equal(r, y), f"Chebyshev sum {op} of a 4000-row matrix depends on the number of threads ({th} instead of 1)")
        for op in range(21):
            out, rout = np.zeros(n, dtype=complex), np.zeros(n)
            rx, ry = x.real.copy(), y0.imag.copy()
            fd.lib().vk_math(I(op), I(n), D(0.3), D(0.7), D(-0.4), D(0.2), D(1.1), P(x), P(y0), P(z), P(out), P(rx), P(ry), P(rout))
            r = ref.setdefault(("math", op), (out, rout))
            require(gen.close(r[0], out, 1e-12) and gen.close(r[1], rout, 1e-12), f"vector operation {op} on 4000 elements depends on the number of threads ({th} instead of 1)")


CASES = [("products", products), ("vectors", vectors), ("steps", steps), ("haydock", haydock), ("psi_t", psi_t), ("thread_count", thread_count)]
