"""contracts of the Slater-Koster formulas (builder/advanced.py, class SK)

Oracle: the two-centre integral in coordinate-free form.  An s, p_a, d_a orbital is the harmonic
polynomial f (1; x, y, z; sqrt3 xy, ..., z^2 - (x^2+y^2)/2); u is the unit vector of the bond, T the
gradient of f tangential to u:
  sigma: f_i(u) f_j(u)     pi: T_i.T_j / (n_i n_j)  with n_p = 1, n_d = sqrt3
  delta: [i = j] - sigma - pi   (the three projectors add up to the identity)
and <i,0|H|j,r> for l_i > l_j is the conjugate of <j,0|H|i,-r>."""
from vk import front, sym, ring
from vk.scen import Scenario, same, ObjNP, obj
from vk.sym import z3, zr, Unsupported, SReal

P = ("px", "py", "pz")
D = ("dxy", "dyz", "dzx", "dx2-y2", "dz2")


def world(src):
    return front.World(src, ["tbplas.builder.advanced"], shims={"np": ObjNP()}, math=True)


def fval(lab, u, s3):
    x, y, z = u
    return {"s": 1, "px": x, "py": y, "pz": z, "dxy": s3 * x * y, "dyz": s3 * y * z, "dzx": s3 * z * x,
            "dx2-y2": s3 * (x * x - y * y) * 0.5, "dz2": z * z - (x * x + y * y) * 0.5}[lab]


def grad(lab, u, s3):
    x, y, z = u
    return {"px": (1, 0, 0), "py": (0, 1, 0), "pz": (0, 0, 1), "dxy": (s3 * y, s3 * x, 0), "dyz": (0, s3 * z, s3 * y),
            "dzx": (s3 * z, 0, s3 * x), "dx2-y2": (s3 * x, -s3 * y, 0), "dz2": (-x, -y, 2 * z)}[lab]


def ell(lab):
    return {"s": 0, "p": 1, "d": 2}[lab[0]]


def tang(lab, u, s3):
    g = grad(lab, u, s3)
    gu = sum((a * b for a, b in zip(g, u)), 0)
    return [a - gu * b for a, b in zip(g, u)]


def conj(x):
    return x.conjugate()


def swapped(a, b):
    return ell(a) > ell(b) or (a in D and b in D and D.index(a) > D.index(b))


def oracle(a, b, u, v, s3):
    """<a,0|H|b,r>; v: dict of parameters"""
    if swapped(a, b):
        return conj(oracle(b, a, [-x for x in u], v, s3))
    la, lb = ell(a), ell(b)
    nm = {0: "s", 1: "p", 2: "d"}
    key = nm[la] + nm[lb]
    sig = fval(a, u, s3) * fval(b, u, s3)
    t = sig * v["v_" + key + "s"]
    if la == 0:
        return t
    ta, tb = tang(a, u, s3), tang(b, u, s3)
    pi = sum((x * y for x, y in zip(ta, tb)), 0)
    # 1/(n_a n_b): p-p 1, p-d 1/sqrt3 = sqrt3/3, d-d 1/3
    pi = pi * {2: 1, 3: s3 / 3, 4: SReal(z3.RealVal("1/3")) if sym.E is not None else 1 / 3}[la + lb]
    t = t + pi * v["v_" + key + "p"]
    if la == 2:
        t = t + ((1 if a == b else 0) - sig - pi) * v["v_ddd"]
    return t


NAMES = ["v_sss", "v_sps", "v_sds", "v_pps", "v_ppp", "v_pds", "v_pdp", "v_dds", "v_ddp", "v_ddd"]


def sk(src):
    w = world(src)
    out = []

    def mk(a, b):
        def run(s):
            x = s.reals("ux uy uz")
            rho = s.real("rho")
            s.assume(zr(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]) == 1)
            s.assume(zr(rho) > zr(1.0e-15))
            e = s.e
            e.norm_hook = lambda vec: norm(vec)
            s3 = sym.fsqrt(SReal(z3.RealVal(3)))
            ring.rule(s3 * s3, 3, "sqrt(3) squared")
            z3f = zr(x[2] * x[2]) == zr(1 - x[0] * x[0] - x[1] * x[1])
            e.oblige(z3f, "ring unit vector")
            ring.ring().rule(zr(x[2] * x[2]), zr(1 - x[0] * x[0] - x[1] * x[1]))
            ring.nonzero(rho, "bond length")

            def norm(vec):
                """the Euclidean norm is the non-negative root of the sum of squares: rho qualifies"""
                q = 0
                for c in vec:
                    q = q + c * c
                if e.oblige(zr(q) == zr(rho * rho), "norm of the displacement"):
                    return rho
                return None
            v = {n: s.cplx(n) for n in NAMES}
            r = obj([c * rho for c in x])
            t = w.mod("tbplas.builder.advanced").SK().eval(r=r, label_i=a, label_j=b, **v)
            s.ensure("two-centre integral", same(t, s.spec(lambda: oracle(a, b, list(x), v, s3))))
            back = w.mod("tbplas.builder.advanced").SK().eval(r=-r, label_i=b, label_j=a, **v)
            if not (swapped(a, b) or swapped(b, a)):
                v = {n: s.real(n + "r") for n in NAMES}      # the parameter itself has to be real here
                t = w.mod("tbplas.builder.advanced").SK().eval(r=r, label_i=a, label_j=b, **v)
                back = w.mod("tbplas.builder.advanced").SK().eval(r=-r, label_i=b, label_j=a, **v)
            s.ensure("hermitian partner", same(back, s.spec(lambda: conj(t))))
        return run
    for a in ("s",) + P + D:
        for b in ("s",) + P + D:
            out.append(Scenario(f"SK.eval[{a},{b}]", mk(a, b)))
    return out
