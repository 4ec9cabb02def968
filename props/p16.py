"""P16 Slater-Koster integrals"""
import math
import numpy as np
from vk.search import require
from props import k_sk
from props.k_builder import as_tasks

ASSUMPTIONS = ["machine floating point treated as real arithmetic, math.sqrt(3) as the exact root",
               "numpy.linalg.norm is the non-negative root of the sum of squares (checked where it is used: the returned value squares to the sum)",
               "displacement vectors longer than 1e-15 (shorter ones are rejected by the code)"]
BOUNDED_NOTE = "random directions, lengths and complex parameters for all 81 label pairs against the coordinate-free two-centre formula; every rejected label and the zero vector"


def proofs(src):
    return as_tasks(k_sk.sk(src))


def _sk():
    from tbplas.builder.advanced import SK
    return SK()


LAB = ("s",) + k_sk.P + k_sk.D


def formulas(rng, index):
    sk = _sk()
    for _ in range(3):
        r = rng.normal(size=3) * 10.0 ** rng.integers(-3, 4)
        if rng.random() < 0.4:
            r[rng.integers(3)] = 0.0
        if np.linalg.norm(r) < 1e-9:
            continue
        u = r / np.linalg.norm(r)
        v = {n: complex(*rng.normal(size=2)) for n in k_sk.NAMES}
        for a in LAB:
            for b in LAB:
                r0 = r.copy()
                t = sk.eval(r=r, label_i=a, label_j=b, **v)
                require(np.array_equal(r, r0), f"eval({a},{b}) changed the displacement vector")
                w = k_sk.oracle(a, b, list(u), v, math.sqrt(3.0))
                require(abs(t - w) < 1e-9, f"<{a}|H|{b}> along {r.tolist()} with {v}: {t}, two-centre formula {w}")


def rejected(rng, index):
    sk = _sk()
    for a, b in (("s", "f"), ("px", "q"), ("dxy", "dx"), ("p", "s"), ("dz", "px"), ("f", "s")):
        try:
            sk.eval(r=np.array([1.0, 2.0, 3.0]), label_i=a, label_j=b, v_sss=1.0)
        except ValueError:
            continue
        require(False, f"labels {a}, {b} accepted")
    for a, b in (("s", "px"), ("px", "dz2"), ("dxy", "dxy")):
        try:
            sk.eval(r=np.zeros(3), label_i=a, label_j=b, v_sps=1.0)
        except ValueError:
            continue
        require(False, "zero displacement accepted")


CASES = [("formulas", formulas), ("rejected", rejected)]
