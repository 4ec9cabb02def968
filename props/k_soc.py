"""contracts of the spin-orbit coupling evaluators (builder/advanced.py: AtomicOrbital, SOC, SOCTable, SOCTable2)

Oracle: L = -i r x grad acting on the harmonic polynomials x, y, z and r.Q.r (Q traceless symmetric):
  (L_k)_ab = -i eps_kab on p orbitals,  L_k Q = -i (E_k Q - Q E_k),  <Q|Q'> = tr(Q Q') / tr(Q Q) on d orbitals."""
import numpy as np
from vk import front, sym, ring
from vk.scen import Scenario, same, ObjNP
from vk.sym import z3, zr, zc, SReal

LAB = ("s", "px", "py", "pz", "dxy", "dyz", "dzx", "dx2-y2", "dz2")
SPIN = ("up", "down")


def _eps(k):
    e = [[0] * 3 for _ in range(3)]
    a, b = (k + 1) % 3, (k + 2) % 3
    e[a][b], e[b][a] = 1, -1
    return e


def _mm(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(3)), 0) for j in range(3)] for i in range(3)]


def lmat(a, b, s3):
    """real numbers (x, y, z) with <a|L_k|b> = -i * value"""
    if a == "s" or b == "s" or a[0] != b[0]:
        return (0, 0, 0)
    if a[0] == "p":
        i, j = "xyz".index(a[1]), "xyz".index(b[1])
        return tuple(_eps(k)[i][j] for k in range(3))
    h = s3 / 2 if sym.E is None else s3 * SReal(z3.RealVal("1/2"))
    z = 0

    def q(lab):
        return {"dxy": [[z, h, z], [h, z, z], [z, z, z]], "dyz": [[z, z, z], [z, z, h], [z, h, z]],
                "dzx": [[z, z, h], [z, z, z], [h, z, z]], "dx2-y2": [[h, z, z], [z, -h, z], [z, z, z]],
                "dz2": [[-0.5, z, z], [z, -0.5, z], [z, z, 1]]}[lab]
    out = []
    for k in range(3):
        e = _eps(k)
        u, v = _mm(e, q(b)), _mm(q(b), e)
        d = [[u[i][j] - v[i][j] for j in range(3)] for i in range(3)]
        t = _mm(q(a), d)
        tr = t[0][0] + t[1][1] + t[2][2]
        out.append(tr * (SReal(z3.RealVal("2/3")) if sym.E is not None else 2 / 3))
    return tuple(out)


def oracle(a, sa, b, sb, s3):
    """(re, im) of <a sa| L.S |b sb>"""
    x, y, z = lmat(a, b, s3)
    # -i/2 (x sx + y sy + z sz)
    if (sa, sb) == ("up", "up"):
        return 0, z * -0.5
    if (sa, sb) == ("down", "down"):
        return 0, z * 0.5
    if (sa, sb) == ("up", "down"):       # -i/2 (x - i y) = -y/2 - i x/2
        return y * -0.5, x * -0.5
    return y * 0.5, x * -0.5             # -i/2 (x + i y)


def soc(src):
    w = front.World(src, ["tbplas.builder.advanced"], shims={"np": ObjNP()}, math=True)

    def mk(cls, exact):
        def run(s):
            s3 = sym.fsqrt(SReal(z3.RealVal(3)))
            for p in (2, 3):
                r = sym.fsqrt(SReal(z3.RealVal(p)))
                ring.rule(r * r, p, f"sqrt({p}) squared")
            if not exact:
                b = z3.And(zr(s3) > z3.RealVal("1.73205080756"), zr(s3) < z3.RealVal("1.73205080757"))
                s.ensure("decimal bounds of sqrt(3)", b)
                s.assume(b)
            obj = getattr(w.mod("tbplas.builder.advanced"), cls)()
            for _ in range(2):
                # a second round on the same object: evaluation must not change it
                for a in LAB:
                    for b in LAB:
                        for sa in SPIN:
                            for sb in SPIN:
                                t = obj.eval(label_i=a, spin_i=sa, label_j=b, spin_j=sb)
                                re, im = zc(t)
                                ore, oim = s.spec(lambda: oracle(a, sa, b, sb, s3))
                                ore, oim = zr(ore), zr(oim)
                                if exact:
                                    f = z3.And(re == ore, im == oim)
                                else:
                                    eps = z3.RealVal("1/10000000000")
                                    f = z3.And(re - ore < eps, ore - re < eps, im - oim < eps, oim - im < eps)
                                s.ensure(f"<{a},{sa}|L.S|{b},{sb}>", f)
                                u = obj.eval(label_i=b, spin_i=sb, label_j=a, spin_j=sa)
                                ur, ui = zc(u)
                                s.ensure("hermitian", z3.And(ur == re, ui == -im))
        return run
    return [Scenario("SOC.eval", mk("SOC", True), timeout=3000),
            Scenario("SOCTable.eval", mk("SOCTable", False), timeout=3000),
            Scenario("SOCTable2.eval", mk("SOCTable2", True), timeout=3000)]


def orbital(src, lmax=3):
    """ladder operators and products of AtomicOrbital for all complex coefficients, l <= lmax"""
    w = front.World(src, ["tbplas.builder.advanced"], shims={"np": ObjNP()}, math=True)

    def run(s):
        cls = w.mod("tbplas.builder.advanced").AtomicOrbital
        for l in range(lmax + 1):
            c = {m: s.cplx(f"c{l}_{m}") for m in range(-l, l + 1)}
            d = {m: s.cplx(f"d{l}_{m}") for m in range(-l, l + 1)}

            def state(cc):
                o = cls()
                for m in cc:
                    o[(l, m)] = cc[m]
                return o
            for op, dm in (("l+", 1), ("l-", -1), ("lz", 0)):
                bra, ket = state(d), state(c)
                t = bra.mtxel(ket, op)
                want = SReal(z3.RealVal(0)) * 0
                for m in range(-l, l + 1):
                    if not -l <= m + dm <= l:
                        continue
                    f = sym.fsqrt(SReal(z3.RealVal((l - m) * (l + m + 1) if dm == 1 else (l + m) * (l - m + 1)))) if dm else m
                    want = want + d[m + dm].conjugate() * (c[m] * f)
                s.ensure(f"<l={l}|{op}|l={l}>", same(t, want))
                s.ensure("operands unchanged", z3.And(*[same(ket[(l, m)], c[m]) for m in c], *[same(bra[(l, m)], d[m]) for m in d]))
            for bad in (l + 1, -l - 1):
                _, ex = s.raises(lambda: cls()[(l, bad)])
                s.ensure("illegal quantum numbers rejected", z3.BoolVal(isinstance(ex, ValueError)))
    return [Scenario("AtomicOrbital", run, timeout=4000)]
