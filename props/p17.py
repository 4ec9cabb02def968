"""P17 spin-orbit coupling"""
import math
from vk.search import require
from props import k_soc
from props.k_builder import as_tasks

ASSUMPTIONS = ["machine floating point treated as real arithmetic (the tabulated decimals are compared to 1e-10)",
               "AtomicOrbital: angular momenta up to 3, all complex coefficients"]
BOUNDED_NOTE = "complete enumeration of the 324 label/spin pairs on the compiled package, three implementations, repeated on one object"


def proofs(src):
    return as_tasks(k_soc.soc(src) + k_soc.orbital(src))


def elements(rng, index):
    from tbplas.builder import advanced as ad
    objs = [ad.SOC(), ad.SOCTable(), ad.SOCTable2()]
    order = [(a, sa, b, sb) for a in k_soc.LAB for b in k_soc.LAB for sa in k_soc.SPIN for sb in k_soc.SPIN]
    order = [order[i] for i in rng.permutation(len(order))]
    for a, sa, b, sb in order:
        w = complex(*k_soc.oracle(a, sa, b, sb, math.sqrt(3.0)))
        for o in objs:
            t = complex(o.eval(label_i=a, spin_i=sa, label_j=b, spin_j=sb))
            require(abs(t - w) < 1e-9, f"{type(o).__name__}: <{a},{sa}|L.S|{b},{sb}> = {t}, expected {w}")


def rejected(rng, index):
    from tbplas.builder import advanced as ad
    for o in (ad.SOC(), ad.SOCTable(), ad.SOCTable2()):
        for a, sa, b, sb in (("f", "up", "s", "up"), ("s", "up", "dxx", "up"), ("s", "UP", "s", "up"), ("s", "up", "s", "left")):
            try:
                o.eval(label_i=a, spin_i=sa, label_j=b, spin_j=sb)
            except ValueError:
                continue
            require(False, f"{type(o).__name__}: labels {a},{sa},{b},{sb} accepted")


CASES = [("elements", elements), ("rejected", rejected)]
