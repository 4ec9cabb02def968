"""contracts of cython/lindhard.pyx (meshes, matrix elements, frequency sums)"""
from vk import sym, front, fort
from vk.sym import (zb, And, Or, Not, imp, ite, eq, fa, RecFn, SInt, SReal, SCplx, zi, zr, z3, fcos, fsin, fexp)
from vk.contract import Contract, Lemma, Result
from vk.front import int_locals, arr_locals, iters, SumSet, SumBase, Skip, NS
from props.kit import prove_in
from props.k_super import flat, FlatFacts
from props.k_sample import expi

PATH = "tbplas/cython/lindhard.pyx"
I, Rl = z3.IntSort(), z3.RealSort()
Z0 = SCplx(z3.RealVal(0), z3.RealVal(0))


def _p(p):
    return NS({"dim": p.kmesh_size, "num_orb_pc": 1})


def fl(p, a, b, c):
    return flat(p.kmesh_size, 1, a, b, c, 0)


class MeshFacts(FlatFacts):
    """numbering lemmas of P06 for three digits (one orbital per cell)"""

    def axioms_at_step(self, loop, it, it1):
        p = self.p
        d = p.dim
        its = [lp.it for lp in sym.E.loops if lp is not loop]
        k = len(its)
        z = [0] * (2 - k)
        if k > 2:
            return []
        if k == 2:
            f = flat(d, 1, *its, it1, 0) == flat(d, 1, *its, it, 0) + 1
        else:
            f = flat(d, 1, *its, it1, *z, 0) == flat(d, 1, *its, it, [d[1], d[2]][k], *z[1:], 0)
        return [zb(f)] + self._body(its + [it])


def fermi(p, e):
    return 1.0 / (1.0 + fexp(p.beta * (e - p.mu)))


class Def(SumBase):
    """uninterpreted (complex) function of n integers whose defining equation value(*args) is instantiated
    at args(loop) wherever a loop body of the given depth is entered"""

    def __init__(self, name, n, value, depth, args=None, k="cplx"):
        self.f = [z3.Function(name + s, *([I] * n), Rl) for s in ((".re", ".im") if k == "cplx" else ("",))]
        self.value, self.depth, self.args = value, depth, args
        self.k = k

    def __call__(self, *a):
        v = [f(*[zi(x) for x in a]) for f in self.f]
        return SCplx(*v) if self.k == "cplx" else SReal(v[0])

    def axioms_at_body(self, loop):
        ls = [lp for lp in sym.E.loops if lp is not loop] + [loop]
        if len(ls) != self.depth:
            return []
        vs = [lp.value(lp.it) - OFF[0] for lp in ls]
        a = self.args(vs) if self.args else vs
        if a is None:
            return []
        return [zb(eq(self(*a), self.value(*a)))]


# subscripts of the loops minus those of the contract: 0 for Cython, 1 for Fortran
OFF = [0]


def cur(L):
    return [lp.value(lp.it) - OFF[0] for lp in L.outer] + [L.loopvar - OFF[0]]


def touches(L, arr):
    """the loop writes the array"""
    e = sym.E
    return any(a is arr for k, a in enumerate(e.arrays) if k in e.loop_mods.get(L.loop.dkey, ()))


def lex(pt, c):
    """the point was visited before the nest reached c (prefix comparison)"""
    r = z3.BoolVal(False)
    for k in range(len(c)):
        r = z3.Or(r, z3.And(*[zi(pt[q]) == zi(c[q]) for q in range(k)], zi(pt[k]) < zi(c[k])))
    return r


class At:
    """arbitrary but fixed entry (K, A, B) of the output arrays"""

    def __init__(self, p, *his):
        self.pt = [SInt(z3.Int(f"at_{k}")) for k in range(len(his))]
        self.g = z3.And(*[z3.And(zi(x) >= 0, zi(x) < zi(h)) for x, h in zip(self.pt, his)])


def registry(fort=False):
    R = {}

    def add(c):
        R[c.name] = c

    # ---------------- meshes
    def grid_inv(L):
        its = iters(L, 3)
        x = fl(L, *its)
        out = {}
        for n, v in int_locals(L, ["ptr"]).items():
            out["ptr." + n] = v == x
        for an, a in arr_locals(L, "int", 2).items():
            out[f"rows.{an}"] = fa([(0, x)], lambda r: And(
                0 <= a[r, 0], a[r, 0] < L.kmesh_size[0], 0 <= a[r, 1], a[r, 1] < L.kmesh_size[1], 0 <= a[r, 2], a[r, 2] < L.kmesh_size[2],
                fl(L, a[r, 0], a[r, 1], a[r, 2]) == r))
        return out
    size_ok = lambda p: ("mesh size", And([p.kmesh_size[q] >= 1 for q in range(3)]))
    add(Contract("build_kmesh_grid", [("kmesh_size", "int[3]")], result="int[?,3]", requires=lambda p: [size_ok(p)],
                 ensures=lambda p, o, r: [
                     ("number of points", r.shape[0] == p.kmesh_size[0] * p.kmesh_size[1] * p.kmesh_size[2]),
                     ("point number and grid coordinates determine each other", fa([(0, r.shape[0])], lambda q: And(
                         0 <= r[q, 0], r[q, 0] < p.kmesh_size[0], 0 <= r[q, 1], r[q, 1] < p.kmesh_size[1], 0 <= r[q, 2], r[q, 2] < p.kmesh_size[2],
                         fl(p, r[q, 0], r[q, 1], r[q, 2]) == q)))],
                 invs=[("grid", grid_inv)], sums=lambda p: [MeshFacts(_p(p))], timeout=15000))

    def num(p, v):
        return v[0] * p.kmesh_size[1] * p.kmesh_size[2] + v[1] * p.kmesh_size[2] + v[2]

    def kq(p, q):
        return [(p.q_point[d] + p.kmesh_grid[q, d]) % p.kmesh_size[d] for d in range(3)]
    KQ = {}

    def kq_ens(p, o, r):
        q = KQ["q"]
        w = kq(p, q)
        return [("length", r.shape[0] == p.n), ("number of (k + q) modulo the mesh", r[q] == num(p, w)),
                ("inside the mesh", And([And(0 <= w[d], w[d] < p.kmesh_size[d]) for d in range(3)]))]

    def kq_req(p):
        KQ["q"] = SInt(z3.Int("at_k"))
        return [size_ok(p), ("point", And(0 <= KQ["q"], KQ["q"] < p.n))]
    add(Contract("build_kq_map", [("kmesh_size", "int[3]"), ("kmesh_grid", "int[n,3]"), ("q_point", "int[3]")], result="int[?]",
                 requires=kq_req, ensures=kq_ens,
                 invs=[("map", lambda L: {n: imp(KQ["q"] < L.it, lambda: a[KQ["q"]] == num(L, kq(L, KQ["q"])))
                                          for n, a in arr_locals(L, "int", 1).items()})]))

    # ---------------- matrix elements
    def dp(name, arb):
        st = {}
        params = [("bands", "real[nk,N]"), ("states", "cplx[nk,N,N]")]
        params += [("bands_kq", "real[nk,N]"), ("states_kq", "cplx[nk,N,N]")] if arb else [("kq_map", "int[nk]")]
        params += [("beta", "real"), ("mu", "real"), ("q_point", "real[3]"), ("orb_pos", "real[N,3]"), ("k_min", "int"), ("k_max", "int"),
                   ("delta_eng", "real[nk,N,N]"), ("prod_df", "cplx[nk,N,N]")]

        def kqi(p, k):
            return k if arb else p.kq_map[k]

        def bq(p, k, l):
            return p.bands_kq[k, l] if arb else p.bands[p.kq_map[k], l]

        def sq(p, k, l, b):
            return p.states_kq[k, l, b] if arb else p.states[p.kq_map[k], l, b]

        def req(p):
            st["at"] = At(p, p.nk, p.N, p.N)
            r = [("range", And(0 <= p.k_min, p.k_max < p.nk)), ("entry", sym.SBool(st["at"].g))]
            if not arb:
                r.append(("map", fa([(0, p.nk)], lambda k: And(0 <= p.kq_map[k], p.kq_map[k] < p.nk))))
            return r

        def sums(p):
            E = Def("E" + name, 1, lambda b: expi(p.q_point[0] * p.orb_pos[b, 0] + p.q_point[1] * p.orb_pos[b, 1] + p.q_point[2] * p.orb_pos[b, 2]), 1)
            E4 = Def("E" + name, 1, E.value, 4, args=lambda v: [v[3]])
            st["E"] = E
            st["S"] = RecFn("S" + name, "cplx", 3, lambda k, j, l: 0j,
                            lambda b, prev, k, j, l: prev + sq(p, k, l, b).conjugate() * p.states[k, j, b] * E(b))
            return [E, E4, SumSet([st["S"]], when=lambda loop: len([lp for lp in sym.E.loops if lp is not loop]) == 3)]

        def value(p, k, j, l):
            x = st["S"](p.N, k, j, l)
            return x * x.conjugate() * (fermi(p, p.bands[k, j]) - fermi(p, bq(p, k, l)))

        def holds(p, o, done):
            k, j, l = st["at"].pt
            inr = And(p.k_min <= k, k <= p.k_max)
            d = And(inr, sym.SBool(done))
            return {"delta": p.delta_eng[k, j, l] == ite(d, lambda: p.bands[k, j] - bq(p, k, l), lambda: o.delta_eng[k, j, l]),
                    "prod": p.prod_df[k, j, l] == ite(d, lambda: value(p, k, j, l), lambda: o.prod_df[k, j, l])}

        def inv(L):
            p = L.params
            out = {}
            if L.depth <= 2:
                out.update(holds(p, L.old, lex(st["at"].pt, cur(L))))
            for n, a in arr_locals(L, "cplx", 1).items():
                if L.depth == 0:
                    out["phase." + n] = fa([(0, L.it)], lambda b: a[b] == st["E"](b))
                out["phases." + n] = fa([(0, p.N)], lambda b: a[b] == st["E"](b))
            if L.depth == 3:
                for n in L.mod:
                    v = getattr(L, n) if L.has(n) else None
                    if sym.kind(v) == "cplx" or n == "prod":
                        c = cur(L)
                        out["sum." + n] = v + Z0 == st["S"](L.it, c[0], c[1], c[2])
            return out

        add(Contract(name, params, requires=req, sums=sums, modifies=["delta_eng", "prod_df"], invs=[("dp", inv)], timeout=5000, budget=250, rewrite=True,
                     ensures=lambda p, o, r: [(a, f) for a, f in holds(p, o, z3.BoolVal(True)).items()]))
    dp("prod_dp", False)
    dp("prod_dp_arb", True)

    # ---------------- velocity matrix elements
    st = {}
    C1 = SCplx(z3.RealVal(0), z3.RealVal(1))

    def ac_req(p):
        st["at"] = At(p, p.nk, p.N, p.N)
        return [("range", And(0 <= p.k_min, p.k_max < p.nk)), ("entry", sym.SBool(st["at"].g)),
                ("components", And([And(0 <= p.comp[c], p.comp[c] < 3) for c in range(2)])),
                ("orbitals", fa([(0, p.nh)], lambda h: And(0 <= p.hop_ind[h, 0], p.hop_ind[h, 0] < p.N, 0 <= p.hop_ind[h, 1], p.hop_ind[h, 1] < p.N)))]

    def ac_sums(p):
        def amp(k, h):
            return expi(p.kmesh[k, 0] * p.hop_dr[h, 0] + p.kmesh[k, 1] * p.hop_dr[h, 1] + p.kmesh[k, 2] * p.hop_dr[h, 2]) * p.hop_eng[h]
        W, S2, S1 = [], [], []
        for c in range(2):
            def dv(h, pr, k, a, b, c=c):
                i, j = p.hop_ind[h, 0], p.hop_ind[h, 1]
                x = C1 * amp(k, h) * p.hop_dr[h, p.comp[c]]
                y = C1 * amp(k, h).conjugate() * p.hop_dr[h, p.comp[c]]
                return pr + ite(And(i == a, j == b), lambda: x, lambda: Z0) - ite(And(j == a, i == b), lambda: y, lambda: Z0)
            W.append(RecFn(f"V{c}", "cplx", 3, lambda k, a, b: 0j, dv))

            def el(k, m, n, a, b, c=c):
                l, r = (n, m) if c == 0 else (m, n)
                return p.states[k, l, a].conjugate() * W[c](p.nh, k, a, b) * p.states[k, r, b]
            inner = RecFn(f"B{c}", "cplx", 4, lambda k, m, n, a: 0j, lambda b, pr, k, m, n, a, el=el: pr + el(k, m, n, a, b))
            outer = RecFn(f"A{c}", "cplx", 3, lambda k, m, n: 0j, lambda a, pr, k, m, n, inner=inner: pr + inner(p.N, k, m, n, a))
            S2.append(inner)
            S1.append(outer)
        st["W"], st["S2"], st["S1"] = W, S2, S1
        dep = lambda k: (lambda loop: len([lp for lp in sym.E.loops if lp is not loop]) == k)
        return [SumSet(W, dep(1)), SumSet(S1, dep(3)), SumSet(S2, dep(4))]

    def ac_holds(p, o, done):
        k, m, n = st["at"].pt
        de = p.bands[k, m] - p.bands[k, n]
        d = And(p.k_min <= k, k <= p.k_max, sym.SBool(done))
        big = Or(de >= 1.0e-7, de <= -1.0e-7)
        v = lambda: st["S1"][0](p.N, k, m, n) * st["S1"][1](p.N, k, m, n) * (fermi(p, p.bands[k, m]) - fermi(p, p.bands[k, n])) / de
        # the Fortran routine clears both arrays first, the Cython one leaves the other k-points alone
        return {"delta": p.delta_eng[k, m, n] == ite(d, lambda: de, lambda: SReal(z3.RealVal(0)) if fort else o.delta_eng[k, m, n]),
                "prod": p.prod_df[k, m, n] == ite(And(d, big), v, lambda: Z0 if fort else o.prod_df[k, m, n])}

    def which(n):
        # first or second component, by the names in the source (both are tried when the first attempt fails)
        return [0, 1] if sym.E.broad or n not in ("vmat1", "vmat2", "prod1", "prod2") else [int(n[-1]) - 1]

    def ac_inv(L):
        p = L.params
        out = {}
        c = cur(L)
        main = touches(L, p.prod_df)
        if L.depth <= 2 and main:
            out.update(ac_holds(p, L.old, lex(st["at"].pt, c)))
        for n, a in arr_locals(L, "cplx", 2).items():
            if L.depth == 1 and not main:
                out["zero." + n] = fa([(0, L.it), (0, p.N)], lambda x, y: a[x, y] == Z0)
                for q in which(n):
                    out[f"hop{q}." + n] = fa([(0, p.N), (0, p.N)], lambda x, y: a[x, y] == st["W"][q](L.it, c[0], x, y))
            if L.depth == 2 and not main:
                i = L.outer[-1].it
                out["zero2." + n] = fa([(0, i), (0, p.N)], lambda x, y: a[x, y] == Z0)
                out["zrow." + n] = fa([(0, L.it)], lambda y: a[i, y] == Z0)
            if L.depth >= 1 and (main or L.depth > 2):
                for q in which(n):
                    out[f"v{q}." + n] = fa([(0, p.N), (0, p.N)], lambda x, y: a[x, y] == st["W"][q](p.nh, c[0], x, y))
        if L.depth >= 3:
            its = [lp.it for lp in L.outer] + [L.it]
            for n in L.mod:
                v = getattr(L, n) if L.has(n) else None
                if sym.kind(v) in ("cplx", "real"):
                    for q in which(n):
                        t = st["S1"][q](its[3], c[0], c[1], c[2])
                        if L.depth == 4:
                            t = t + st["S2"][q](its[4], c[0], c[1], c[2], its[3])
                        out[f"sum{q}." + n] = v + Z0 == t
        return out
    add(Contract("prod_ac", [("bands", "real[nk,N]"), ("states", "cplx[nk,N,N]"), ("hop_ind", "int[nh,2]"), ("hop_eng", "cplx[nh]"), ("hop_dr", "real[nh,3]"),
                             ("kmesh", "real[nk,3]"), ("beta", "real"), ("mu", "real"), ("comp", "int[2]"), ("k_min", "int"), ("k_max", "int"),
                             ("delta_eng", "real[nk,N,N]"), ("prod_df", "cplx[nk,N,N]")],
                 requires=ac_req, sums=ac_sums, modifies=["delta_eng", "prod_df"], invs=[("ac", ac_inv)], timeout=5000, budget=250, rewrite=True,
                 ensures=lambda p, o, r: [(a, f) for a, f in ac_holds(p, o, z3.BoolVal(True)).items()]))

    # ---------------- frequency sums
    def freq(name, sign, two):
        st = {}
        params = [("delta_eng", "real[nk,N,N]"), ("prod_df", "cplx[nk,N,N]"), ("omegas", "real[nw]"), ("delta", "real"), ("k_min", "int"), ("k_max", "int")]
        params += [("iq", "int"), (name, "cplx[nq,nw]")] if two else [(name, "cplx[nw]")]

        def req(p):
            st["w"] = SInt(z3.Int("at_w"))
            r = [("range", And(0 <= p.k_min, p.k_max < p.nk, p.k_min <= p.k_max + 1)), ("entry", And(0 <= st["w"], st["w"] < p.nw)), ("broadening", Not(p.delta == 0))]
            if two:
                st["q"] = SInt(z3.Int("at_q"))
                r.append(("q", And(0 <= p.iq, p.iq < p.nq, 0 <= st["q"], st["q"] < p.nq)))
            return r

        def sums(p):
            def term(w, k, j, l):
                if sign > 0:
                    den = p.delta_eng[k, j, l] + p.omegas[w] + SCplx(z3.RealVal(0), z3.RealVal(1)) * p.delta
                else:
                    den = p.delta_eng[k, j, l] - p.omegas[w] - SCplx(z3.RealVal(0), z3.RealVal(1)) * p.delta
                return p.prod_df[k, j, l] / den
            T = Def("T" + name, 4, term, 4)
            S3 = RecFn("S3" + name, "cplx", 3, lambda w, k, j: 0j, lambda l, pr, w, k, j: pr + T(w, k, j, l))
            S2 = RecFn("S2" + name, "cplx", 2, lambda w, k: 0j, lambda j, pr, w, k: pr + S3(p.N, w, k, j))
            S1 = RecFn("S1" + name, "cplx", 1, lambda w: 0j, lambda t, pr, w: pr + S2(p.N, w, p.k_min + t))
            st["S"] = (S1, S2, S3)
            dep = lambda k: (lambda loop: len([lp for lp in sym.E.loops if lp is not loop]) == k)
            return [T, SumSet([S1], dep(1)), SumSet([S2], dep(2)), SumSet([S3], dep(3))]

        def out_at(p, a):
            return a[st["q"], st["w"]] if two else a[st["w"]]

        def holds(p, o, done):
            d = And(st["q"] == p.iq, sym.SBool(done)) if two else sym.SBool(done)
            return out_at(p, getattr(p, name)) == ite(d, lambda: st["S"][0](p.k_max + 1 - p.k_min, st["w"]), lambda: out_at(p, getattr(o, name)))

        def inv(L):
            p = L.params
            out = {}
            c = cur(L)
            if L.depth == 0:
                out["done"] = holds(p, L.old, zi(st["w"]) < zi(c[0]))
            S1, S2, S3 = st["S"]
            for n in L.mod:
                v = getattr(L, n) if L.has(n) else None
                if L.depth >= 1 and sym.kind(v) in ("cplx", "real"):
                    its = [lp.it for lp in L.outer] + [L.it]
                    t = S1(its[1], c[0])
                    if L.depth >= 2:
                        t = t + S2(its[2], c[0], c[1])
                    if L.depth >= 3:
                        t = t + S3(its[3], c[0], c[1], c[2])
                    out["sum." + n] = v + Z0 == t
            return out
        add(Contract(name, params, requires=req, sums=sums, modifies=[name], invs=[("f", inv)], timeout=20000, budget=300,
                     ensures=lambda p, o, r: [("sum over k-points and band pairs", holds(p, o, z3.BoolVal(True)))]))
    freq("dyn_pol", 1, True)
    freq("ac_cond", -1, False)
    return R


def tasks(src, names):
    return prove_in(PATH, registry(), names, src)


# ------------------------------------------------------------------ Fortran twins (fortran/lindhard.f90)
FPATH = "tbplas/fortran/lindhard.f90"


def _f(a, add=0):
    """array handed over by Python: subscripts reversed, first index fastest; add: 1-based values"""
    return fort.FArr(a, [1] * a.nd, rev=True, add=add)


def f_loader(src):
    u = fort.load_unit(src, ["lindhard.f90"])
    names = ["prod_dp", "prod_dp_arb", "dyn_pol_f", "prod_ac", "ac_cond_f"]
    ns = fort.load(src, names, unit=u)
    F = {n: ns[n] for n in names}

    # argument conventions of lindhard.py: arrays transposed, indices shifted by one
    def prod_dp(bands, states, kq_map, beta, mu, q_point, orb_pos, k_min, k_max, delta_eng, prod_df):
        N, nk = bands.shape[1], bands.shape[0]
        F["prod_dp"](_f(bands), N, nk, _f(states), _f(kq_map, 1), beta, mu, _f(q_point), _f(orb_pos), k_min + 1, k_max + 1, _f(delta_eng), _f(prod_df))

    def prod_dp_arb(bands, states, bands_kq, states_kq, beta, mu, q_point, orb_pos, k_min, k_max, delta_eng, prod_df):
        N, nk = bands.shape[1], bands.shape[0]
        F["prod_dp_arb"](_f(bands), N, nk, _f(states), _f(bands_kq), _f(states_kq), beta, mu, _f(q_point), _f(orb_pos), k_min + 1, k_max + 1,
                         _f(delta_eng), _f(prod_df))

    def dyn_pol(delta_eng, prod_df, omegas, delta, k_min, k_max, iq, dyn_pol):
        nk, N = delta_eng.shape[:2]
        F["dyn_pol_f"](_f(delta_eng), N, nk, _f(prod_df), _f(omegas), omegas.shape[0], delta, k_min + 1, k_max + 1, iq + 1, _f(dyn_pol), dyn_pol.shape[0])

    def prod_ac(bands, states, hop_ind, hop_eng, hop_dr, kmesh, beta, mu, comp, k_min, k_max, delta_eng, prod_df):
        N, nk = bands.shape[1], bands.shape[0]
        F["prod_ac"](_f(bands), N, nk, _f(states), _f(hop_ind, 1), hop_eng.shape[0], _f(hop_eng), _f(hop_dr), _f(kmesh), beta, mu, _f(comp, 1),
                     k_min + 1, k_max + 1, _f(delta_eng), _f(prod_df))

    def ac_cond(delta_eng, prod_df, omegas, delta, k_min, k_max, ac_cond):
        nk, N = delta_eng.shape[:2]
        F["ac_cond_f"](_f(delta_eng), N, nk, _f(prod_df), _f(omegas), omegas.shape[0], delta, k_min + 1, k_max + 1, _f(ac_cond))
    ns.update({"prod_dp": prod_dp, "prod_dp_arb": prod_dp_arb, "dyn_pol": dyn_pol, "prod_ac": prod_ac, "ac_cond": ac_cond})
    return ns, u


def f_tasks(src, names):
    def mk(n):
        def go():
            OFF[0] = 1
            try:
                ns, u = f_loader(src)
                r = registry(fort=True)[n].verify(ns)
                r.name = f"{n} (Fortran)"
                real = {"dyn_pol": "dyn_pol_f", "ac_cond": "ac_cond_f"}.get(n, n)
                fort.add_omp(r, u, [real])
                return r
            except sym.Unsupported as ex:
                r = Result(f"{n} (Fortran)")
                r.unsupported = str(ex)
                return r
            finally:
                OFF[0] = 0
        return go
    return [(f"{n} (Fortran)", mk(n)) for n in names]
