"""contracts of base/lattice.py and base/kpoints.py.  Coordinate arrays have an arbitrary number of rows;
Q is an arbitrary row index (so a statement about row Q is a statement about every row)."""
from vk import front, sym, ring
from vk.scen import Scenario, same, RowNP, SRows, obj, _any_sym
from vk.sym import z3, zr, zi, zb, Unsupported, SReal, SInt

MODS = ["tbplas.base.lattice", "tbplas.base.kpoints"]


def world(src):
    return front.World(src, MODS, shims={"np": RowNP()}, math=True)


def mat(s, n, shape=(3, 3)):
    import numpy as np
    m = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        m[i] = s.real(n + "".join(map(str, i)))
    return m


def dot(a, b):
    t = 0
    for x, y in zip(a, b):
        t = t + x * y
    return t


def rowsin(s, name="x", w=3):
    n = s.int("n", lo=0)
    q = s.int("Q", lo=0, hi=n)
    return SRows(name, n, (w,)), n, q


def eqv(a, b):
    return z3.And(*[zr(x) == zr(y) for x, y in zip(a, b)])


def rows_inv(spec):
    """any local array of rows: the rows of the finished iterations are as specified (row Q stands for all)"""
    def f(L):
        q = spec.q
        out = {}
        for n, v in L._d.items():
            if isinstance(v, SRows) and v is not spec.x and not n.startswith("__"):
                out[n] = z3.Implies(zi(q) < zi(L.it), eqv(v.at(q).flat, spec.val()))
        return out
    return f


class Spec:
    q = x = None
    val = None


def near_sum(s, label, a, b):
    s.ensure(label, eqv(a, b))


def lattice(src):
    w = world(src)
    M = "tbplas.base.lattice"

    def loop(name, build):
        """build(s, spec) -> thunk running the code; spec filled in"""
        spec = Spec()

        def run(s):
            build(s, spec)
        return Scenario(name, run, invs=[("rows", rows_inv(spec))])

    def frac(s, spec):
        x, n, q = rowsin(s)
        lat, org = mat(s, "l"), obj(list(s.reals("ox oy oz")))
        fn0 = x.fn
        spec.x, spec.q = x, q
        spec.val = lambda: [dot([SReal(c) for c in fn0(zi(q))], lat[:, j]) + org[j] for j in range(3)]
        r = w.mod(M).frac2cart(lat, x, org)
        s.ensure("same number of points", zi(r.shape[0]) == zi(n))
        near_sum(s, "r = origin + sum_i f_i a_i", r.at(q), s.spec(spec.val))
        s.ensure("argument unchanged", eqv([SReal(c) for c in x.fn(zi(q))], [SReal(c) for c in fn0(zi(q))]))

    def frac0(s, spec):
        x, n, q = rowsin(s)
        lat = mat(s, "l")
        fn0 = x.fn
        spec.x, spec.q = x, q
        spec.val = lambda: [dot([SReal(c) for c in fn0(zi(q))], lat[:, j]) for j in range(3)]
        r = w.mod(M).frac2cart(lat, x)
        near_sum(s, "r = sum_i f_i a_i when no origin is given", r.at(q), s.spec(spec.val))

    def inv_of(e, lat):
        """the inverse the code used (assumed contract of numpy.linalg.inv), as the matrix X with X lat^T = 1 or X lat = 1"""
        for m, x in getattr(e, "invs", []):
            if all(m[i, j] is lat[i, j] for i in range(3) for j in range(3)):
                return x.T                         # x = inv(lat); f = x^T-convention below
            if all(m[i, j] is lat[j, i] for i in range(3) for j in range(3)):
                return x                           # x = inv(lat.T)
        return None

    def cart(s, spec):
        e = s.e
        e.invs = []
        x, n, q = rowsin(s)
        lat, org = mat(s, "l"), obj(list(s.reals("ox oy oz")))
        fn0 = x.fn
        spec.x, spec.q = x, q

        def val():
            v = inv_of(e, lat)
            if v is None:
                raise sym.Skip("inverse")
            c = [SReal(a) - o for a, o in zip(fn0(zi(q)), org)]
            return [dot(v[j], c) for j in range(3)]
        spec.val = val
        r = w.mod(M).cart2frac(lat, x, org)
        f = r.at(q)
        if inv_of(e, lat) is None:
            raise Unsupported("cart2frac does not use numpy.linalg.inv")
        s.ensure("same number of points", zi(r.shape[0]) == zi(n))
        near_sum(s, "f = inverse lattice (r - origin)", f, s.spec(val))
        s.ensure("argument unchanged", eqv([SReal(c) for c in x.fn(zi(q))], [SReal(c) for c in fn0(zi(q))]))

    def invert(s):
        """lemma over the two contracts: X lat^T = 1 makes the two conversions inverse to each other"""
        lat, x = mat(s, "l"), mat(s, "x")
        org, f = s.reals("ox oy oz"), s.reals("f0 f1 f2")
        for i in range(3):
            for j in range(3):
                s.assume(zr(dot(x[i], lat[j])) == (1 if i == j else 0))
                s.assume(zr(dot(lat[:, i], x[:, j])) == (1 if i == j else 0))
                d1 = (1 if i == j else 0)
                ring.rule(x[i, 0] * lat[j, 0], d1 - x[i, 1] * lat[j, 1] - x[i, 2] * lat[j, 2], "inverse")
        c = [dot(f, lat[:, j]) + org[j] for j in range(3)]
        back = [dot(x[j], [a - o for a, o in zip(c, org)]) for j in range(3)]
        s.ensure("cart2frac(frac2cart(f)) = f", eqv(back, f))

    def invert2(s):
        lat, x = mat(s, "l"), mat(s, "x")
        org, r = s.reals("ox oy oz"), s.reals("r0 r1 r2")
        for i in range(3):
            for j in range(3):
                s.assume(zr(dot(lat[:, i], x[:, j])) == (1 if i == j else 0))
                d1 = (1 if i == j else 0)
                ring.rule(lat[0, i] * x[0, j], d1 - lat[1, i] * x[1, j] - lat[2, i] * x[2, j], "inverse")
        f = [dot(x[j], [a - o for a, o in zip(r, org)]) for j in range(3)]
        back = [dot(f, lat[:, j]) + org[j] for j in range(3)]
        s.ensure("frac2cart(cart2frac(r)) = r", eqv(back, r))

    def recip(s):
        lat = mat(s, "l")
        g = w.mod(M).gen_reciprocal_vectors(lat)
        import math
        two_pi = 2 * SReal(sym.zr(math.pi))
        for i in range(3):
            for j in range(3):
                x = zr(dot(lat[i], g[j]))
                # the literal 2*math.pi is folded by Python before the engine sees it
                s.ensure("a_i . b_j = 2 pi delta_ij", z3.Or(x == zr(two_pi), x == zr(2 * math.pi)) if i == j else x == 0)

    out = [loop("frac2cart", frac), loop("frac2cart without origin", frac0), loop("cart2frac", cart), Scenario("lemma cart2frac after frac2cart", invert),
           Scenario("lemma frac2cart after cart2frac", invert2), Scenario("gen_reciprocal_vectors", recip)]

    def rot(axis):
        def build(s, spec):
            x, n, q = rowsin(s)
            ang, ctr = s.real("angle"), obj(list(s.reals("cx cy cz")))
            fn0 = x.fn
            spec.x, spec.q = x, q
            c, sn = sym.fcos(ang), sym.fsin(ang)
            a = {"x": 0, "y": 1, "z": 2}[axis]
            b, d = (a + 1) % 3, (a + 2) % 3

            def val():
                v = [SReal(p) - o for p, o in zip(fn0(zi(q)), ctr)]
                r = [None] * 3
                r[a] = v[a]
                r[b] = c * v[b] - sn * v[d]
                r[d] = sn * v[b] + c * v[d]
                return [t + o for t, o in zip(r, ctr)]
            spec.val = val
            r = w.mod(M).rotate_coord(x, ang, axis, ctr)
            s.ensure("same number of points", zi(r.shape[0]) == zi(n))
            near_sum(s, f"right-handed rotation about {axis} through the centre", r.at(q), s.spec(val))
            s.ensure("argument unchanged", eqv([SReal(t) for t in x.fn(zi(q))], [SReal(t) for t in fn0(zi(q))]))
        return loop(f"rotate_coord[{axis}]", build)
    out += [rot(a) for a in "xyz"]

    def isometry(s):
        c, sn = s.reals("c s")
        s.assume(zr(c * c + sn * sn) == 1)
        ring.rule(sn * sn, 1 - c * c, "circle")
        p, q = s.reals("p0 p1 p2"), s.reals("q0 q1 q2")
        f = lambda v: [v[0], c * v[1] - sn * v[2], sn * v[1] + c * v[2]]
        s.ensure("rotations keep scalar products", zr(dot(f(p), f(q))) == zr(dot(p, q)))
    out.append(Scenario("lemma rotation is an isometry", isometry))

    def rejected(s):
        x, n, q = rowsin(s)
        for ax in ("", "w", "xx", "X"):
            _, ex = s.raises(w.mod(M).rotate_coord, x, s.real("angle"), ax)
            s.ensure("unknown axis rejected", z3.BoolVal(type(ex).__name__ == "ValueError"))
        for c in ([], [0.0], [0.0] * 4):
            _, ex = s.raises(w.mod(M).rotate_coord, x, s.real("angle"), "z", __import__("numpy").array(c))
            s.ensure("centre of wrong length rejected", z3.BoolVal(type(ex).__name__ == "ValueError"))
        for d in ("", "d", "x"):
            _, ex = s.raises(w.mod(M).get_lattice_area, mat(s, "l"), d)
            s.ensure("unknown direction rejected", z3.BoolVal(type(ex).__name__ == "ValueError"))
    out.append(Scenario("rejected arguments", rejected))

    def area(d, i, j):
        def run(s):
            lat = mat(s, "l")
            a = w.mod(M).get_lattice_area(lat, d)
            u, v = lat[i], lat[j]
            s.ensure("not negative", zr(a) >= 0)
            s.ensure("area squared is the Gram determinant", zr(a * a) == zr(dot(u, u) * dot(v, v) - dot(u, v) * dot(u, v)))
        return Scenario(f"get_lattice_area[{d}]", run)
    out += [area("a", 1, 2), area("b", 2, 0), area("c", 0, 1)]

    def volume(s):
        lat = mat(s, "l")
        v = w.mod(M).get_lattice_volume(lat)
        d = RowNP().linalg.det(lat)
        s.ensure("volume is the modulus of the determinant", zr(v) == z3.If(zr(d) >= 0, zr(d), -zr(d)))
    out.append(Scenario("get_lattice_volume", volume))

    def vectors(s):
        a, b, c = s.reals("a b c")
        al, be, ga = s.reals("alpha beta gamma")
        pi = SReal(sym.zr(__import__("math").pi))
        ca, cb, cg, sg = sym.fcos(al / 180 * pi), sym.fcos(be / 180 * pi), sym.fcos(ga / 180 * pi), sym.fsin(ga / 180 * pi)
        s.assume(zr(sg) > 0)
        rad = 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg
        s.assume(zr(rad) >= 0)
        root = sym.fsqrt(rad)
        ideal = [[a, 0, 0], [b * cg, b * sg, 0], [c * cb, c * (ca - cb * cg) / sg, c * root / sg]]
        m = w.mod(M).gen_lattice_vectors(a, b, c, al, be, ga)
        for i in range(3):
            for j in range(3):
                x, y = zr(m[i, j]), zr(ideal[i][j])
                s.ensure("entries of the ideal matrix (exact zeros below 1e-15)", z3.Or(x == y, z3.And(x == 0, y < zr(1e-15), -y < zr(1e-15))))
    out.append(Scenario("gen_lattice_vectors", vectors))

    def metric(s):
        a, b, c, ca, cb, cg, sg, root = s.reals("a b c ca cb cg sg root")
        s.assume(zr(sg) > 0)
        s.assume(zr(sg * sg) == zr(1 - cg * cg))
        rad = 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg
        s.assume(zr(root * root) == zr(rad))
        ring.rule(sg * sg, 1 - cg * cg, "circle")
        ring.rule(root * root, rad, "root")
        v = [[a * sg, 0, 0], [b * cg * sg, b * sg * sg, 0], [c * cb * sg, c * (ca - cb * cg), c * root]]      # sin(gamma) times the ideal matrix
        want = [[a * a, a * b * cg, a * c * cb], [a * b * cg, b * b, b * c * ca], [a * c * cb, b * c * ca, c * c]]
        for i in range(3):
            for j in range(3):
                s.ensure("lengths and angles are reproduced", zr(dot(v[i], v[j])) == zr(want[i][j] * sg * sg))
    out.append(Scenario("lemma metric of the ideal matrix", metric))
    return out


def kpoints(src):
    w = world(src)
    M = "tbplas.base.kpoints"
    out = []
    KD = {}

    def kdist(s):
        """gen_reciprocal_vectors and frac2cart enter through their contracts (verified above)"""
        m = w.mod(M)
        x, n, q = rowsin(s, "k")
        s.assume(zi(q) >= 1)
        lat, g = mat(s, "l"), mat(s, "g")
        calls = []

        def recip(v):
            calls.append(v)
            return g

        def f2c(v, y, origin=None):
            if v is not g or origin is not None:
                raise Unsupported("call of frac2cart")
            r = SRows(s.e.fresh_name("cart"), y.n, (3,))
            fn = y.fn
            r.fn = lambda p: [zr(dot([SReal(c) for c in fn(p)], g[:, j])) for j in range(3)]
            return r
        old = m.gen_reciprocal_vectors, m.frac2cart
        m.gen_reciprocal_vectors, m.frac2cart = recip, f2c
        try:
            KD.update(x=x, q=q, g=g)
            s.e.sums = [Seg()]
            d = m.gen_kdist(lat, x)
        finally:
            m.gen_reciprocal_vectors, m.frac2cart = old
        s.ensure("reciprocal vectors of the given lattice", z3.BoolVal(len(calls) > 0 and all(c is lat for c in calls)))
        s.ensure("one distance per point", zi(d.shape[0]) == zi(n))
        s.ensure("starts at zero", zr(d[SInt(z3.IntVal(0))]) == 0)
        s.ensure("increases by the distance of the points", s.spec(lambda: step(d, q)))
        s.assume(SEG(zi(q)) == zr(s.spec(lambda: seg(q))))
        s.ensure("never decreases", s.spec(lambda: zb(d[q] >= d[q - 1])))

    def seg(q):
        """|k(q) - k(q-1)| in reciprocal space"""
        x, g = KD["x"], KD["g"]
        a = [dot([SReal(c) for c in x.fn(zi(q))], g[:, j]) for j in range(3)]
        b = [dot([SReal(c) for c in x.fn(zi(q - 1))], g[:, j]) for j in range(3)]
        t = 0
        for u, v in zip(a, b):
            t = t + (u - v) * (u - v)
        return sym.fsqrt(t)

    SEG = z3.Function("segment", z3.IntSort(), z3.RealSort())

    def step(d, q):
        return zb(d[q] == d[q - 1] + SReal(SEG(zi(q))))

    class Seg(front.SumBase):
        """SEG(q) is the length of segment q; the definition is instantiated where the loop stands"""
        def axioms_at_body(self, loop):
            v = loop.value(loop.it)
            return [SEG(zi(v)) == zr(seg(v)), SEG(zi(v)) >= 0]

    def inv(L):
        q = KD["q"]
        r = {}
        for n, v in L._d.items():
            if isinstance(v, sym.SArr) and v.nd == 1 and not n.startswith("__"):
                r[n + ".0"] = zr(v.get([z3.IntVal(0)])) == 0
                r[n + ".q"] = z3.Implies(zi(q) <= zi(L.it), step(v, q))
        return r
    out.append(Scenario("gen_kdist", kdist, invs=[("dist", inv)]))

    def kmesh(s):
        n = s.ints("nx ny nz", lo=1)
        a, b, c = (s.int(t, lo=0, hi=m) for t, m in zip("abc", n))
        r = w.mod(M).gen_kmesh(n)
        # digit lemmas (P06): unique quotient and remainder, instances for the two nested levels
        yz = zi(n[1]) * zi(n[2])
        i = zi(b) * zi(n[2]) + zi(c)
        q = zi(a) * yz + i
        for x, y, m in ((a, SInt(i), SInt(yz)), (b, c, n[2])):
            f = z3.And(zi(y) >= 0, zi(y) < zi(m))
            s.ensure("digit in range", f)
            s.assume(f)
            t = zi(x) * zi(m) + zi(y)
            f = z3.And(t / zi(m) == zi(x), t % zi(m) == zi(y))
            s.ensure("quotient and remainder", f)
            s.assume(f)
        row = r.at(SInt(q))
        s.ensure("number of points", zi(r.shape[0]) == zi(n[0]) * yz)
        for d, (x, m) in enumerate(zip((a, b, c), n)):
            s.ensure("coordinate is index / size", zr(row[d]) * z3.ToReal(zi(m)) == z3.ToReal(zi(x)))

    out.append(Scenario("gen_kmesh", kmesh))

    def badmesh(s):
        for t in ((), (2,), (2, 2), (2, 2, 2, 2)):
            _, ex = s.raises(w.mod(M).gen_kmesh, t)
            s.ensure("mesh size of wrong length rejected", z3.BoolVal(type(ex).__name__ == "ValueError"))
    out.append(Scenario("gen_kmesh: rejected", badmesh))
    return out
