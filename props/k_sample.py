"""Contracts on cython/primitive.pyx and cython/sample.pyx"""
from vk import sym, front
from vk.sym import (zb, And, Or, Not, imp, ite, eq, fa, ex, RecFn, SInt, SBool, SArr, SReal, SCplx, zi, z3, fcos, fsin, fsqrt, PI)
from vk.contract import Contract, Lemma
from vk.front import int_locals, arr_locals, SumSet, SumBase, Skip, sort_fns
from props.kit import prove_in

PRIM, SAMP = "tbplas/cython/primitive.pyx", "tbplas/cython/sample.pyx"
I = z3.IntSort()


def over(L, x):
    """does the loop bound mention x? (only used to propose fewer candidate invariants)"""
    from vk.sym import canon
    return str(zi(x)) in str(zi(L.n))


class Opaque(SumBase):
    """name(h, ...) := value(h) as an uninterpreted complex function whose defining equation is
    instantiated at the current iteration (keeps products and cosines out of the quantifiers)"""

    def __init__(self, name, value, when=None):
        R = z3.RealSort()
        self.f = (z3.Function(name + ".re", I, R), z3.Function(name + ".im", I, R))
        self.value, self.when = value, when

    def __call__(self, h):
        return SCplx(self.f[0](zi(h)), self.f[1](zi(h)))

    def axioms_at_body(self, loop):
        if [lp for lp in sym.E.loops if lp is not loop] or (self.when and not self.when()):
            return []
        return [zb(self(loop.it) == self.value(loop.it))]


def expi(x):
    return SCplx(fcos(x).e, fsin(x).e)


def contrib(p, a, b, i, j, v):
    """what the term (i, j, v) and its conjugate add to entry (a, b)"""
    z = SCplx(z3.RealVal(0), z3.RealVal(0))
    return ite(And(a == i, b == j), v, z) + ite(And(a == j, b == i), v.conjugate(), z)


def sum_mat(name, nterm, term):
    """RecFn (t, a, b): sum of the contributions of the first t terms to entry (a, b)"""
    def step(t, prev, a, b):
        i, j, v = term(t)
        return prev + contrib(None, a, b, i, j, v)
    return RecFn(name, "cplx", 2, lambda a, b: 0j, step)


def legal(hi, hj, n, N):
    return fa([(0, n)], lambda h: And(0 <= hi(h), hi(h) < N, 0 <= hj(h), hj(h) < N))


def assembled(p, old, S, mat, n, N):
    """mat = diagonal overwritten by the energies, plus the sum of all terms"""
    o = getattr(old, mat)
    m = getattr(p, mat)
    return fa([(0, N), (0, N)], lambda a, b: m[a, b] == ite(a == b, lambda: p.orb_eng[a] + SCplx(z3.RealVal(0), z3.RealVal(0)),
                                                            lambda: o[a, b]) + S(n, a, b))


def herm(S, n, N):
    return fa([(0, N), (0, N)], lambda a, b: S(n, a, b) == S(n, b, a).conjugate(), pats=lambda a, b: S(n, a, b))


def asm_inv(st, mat, nname, Nname):
    def inv(L):
        S = st["S"]
        m, o = getattr(L.params, mat), getattr(L.old, mat)
        N = getattr(L.params, Nname)
        if L.depth:
            raise Skip("inner")
        eng_ = lambda a: L.params.orb_eng[a] + SCplx(z3.RealVal(0), z3.RealVal(0))
        # diagonal loop / hopping loop: both candidate forms, the wrong one is dropped
        out = {"diag": None if over(L, L.params.nh) and not over(L, N) else fa([(0, N), (0, N)], lambda a, b: m[a, b] == ite(And(a == b, a < L.it), lambda: eng_(a), lambda: o[a, b])),
                "sum": None if over(L, N) and not over(L, L.params.nh) else fa([(0, N), (0, N)], lambda a, b: m[a, b] == ite(a == b, lambda: eng_(a), lambda: o[a, b]) + S(L.it, a, b)),
                "herm": herm(S, L.it, N)}
        return out
    return inv


def registry_prim():
    R = {}
    st = {}

    def term(p):
        def t(h):
            q = p.hop_ind
            i, j = q[h, 3], q[h, 4]
            k = p.kpt
            k1 = sum((k[d] * (q[h, d] + p.orb_pos[j, d] - p.orb_pos[i, d]) for d in range(1, 3)), k[0] * (q[h, 0] + p.orb_pos[j, 0] - p.orb_pos[i, 0]))
            k2 = k[0] * q[h, 0] + k[1] * q[h, 1] + k[2] * q[h, 2]
            v = p.hop_eng[h]
            return i, j, ite(p.convention == 1, lambda: v * expi(2 * PI * k1), lambda: v * expi(2 * PI * k2))
        return t

    def sums(p):
        t = term(p)
        V = Opaque("Vk", lambda h: t(h)[2])
        st["S"] = sum_mat("Sk", p.nh, lambda h: (p.hop_ind[h, 3], p.hop_ind[h, 4], V(h)))
        return [V, SumSet([st["S"]])]
    R["set_ham"] = Contract(
        "set_ham", [("orb_pos", "real[N,3]"), ("orb_eng", "real[N]"), ("hop_ind", "int[nh,5]"), ("hop_eng", "cplx[nh]"),
                    ("convention", "int"), ("kpt", "real[3]"), ("ham_k", "cplx[N,N]")],
        requires=lambda p: [("legal indices", legal(lambda h: p.hop_ind[h, 3], lambda h: p.hop_ind[h, 4], p.nh, p.N))],
        modifies=["ham_k"], sums=sums,
        ensures=lambda p, o, r: [("lattice sum", assembled(p, o, st["S"], "ham_k", p.nh, p.N)),
                                 ("hermitian", herm(st["S"], p.nh, p.N))],
        invs=[("asm", asm_inv(st, "ham_k", "nh", "N"))], timeout=15000)
    return R


def registry_samp():
    R = {}

    def add(c):
        R[c.name] = c
    # ---- fill_ham
    st = {}

    def fsums(p):
        st["S"] = sum_mat("Sf", p.nh, lambda h: (p.hop_i[h], p.hop_j[h], p.hop_v[h]))
        return [SumSet([st["S"]])]
    HOP = [("hop_i", "int[nh]"), ("hop_j", "int[nh]"), ("hop_v", "cplx[nh]")]
    hl = lambda p: ("legal indices", legal(lambda h: p.hop_i[h], lambda h: p.hop_j[h], p.nh, p.N))
    add(Contract("fill_ham", [("orb_eng", "real[N]")] + HOP + [("ham_dense", "cplx[N,N]")],
                 requires=lambda p: [hl(p)], modifies=["ham_dense"], sums=fsums,
                 ensures=lambda p, o, r: [("sum", assembled(p, o, st["S"], "ham_dense", p.nh, p.N)),
                                          ("hermitian", herm(st["S"], p.nh, p.N))],
                 invs=[("asm", asm_inv(st, "ham_dense", "nh", "N"))], timeout=15000))

    # ---- build_hop_k
    def hk_(p, h):
        return p.hop_v[h] * expi(p.dr[h, 0] * p.kpt[0] + p.dr[h, 1] * p.kpt[1] + p.dr[h, 2] * p.kpt[2])
    kk = {}

    def ksums(p):
        kk["V"] = Opaque("Vhk", lambda h: hk_(p, h))
        return [kk["V"]]
    hk = lambda p, h: kk["V"](h)
    add(Contract("build_hop_k", [("hop_v", "cplx[nh]"), ("dr", "real[nh,3]"), ("kpt", "real[3]"), ("hop_k", "cplx[nh]")],
                 modifies=["hop_k"], sums=ksums,
                 ensures=lambda p, o, r: [("phase", fa([(0, p.nh)], lambda h: p.hop_k[h] == hk(p, h)))],
                 invs=[("k", lambda L: fa([(0, L.it)], lambda h: L.params.hop_k[h] == hk(L.params, h)))]))

    # ---- set_mag_field
    FACT = PI / 4135.666734

    def phase(p, h, g):
        i, j = p.hop_i[h], p.hop_j[h]
        dx, dy = p.dr[h, 0], p.dr[h, 1]
        sx, sy = p.orb_pos[i, 0] + p.orb_pos[j, 0], p.orb_pos[i, 1] + p.orb_pos[j, 1]
        # |e|/(2 hbar) * dr.(A_i + A_j), A = (By,0), (0,-Bx), (By,-Bx)/2
        return FACT * p.intensity * [dx * sy, -(dy * sx), (dx * sy - dy * sx) * sym.SReal(z3.RealVal("1/2"))][g]

    mg = {}

    def msums(p):
        o = front.NS({"hop_v": p.hop_v.snapshot()})
        mg["G"] = [Opaque(f"gauge{g}", lambda h, g=g: o.hop_v[h] * expi(phase(p, h, g))) for g in range(3)]
        return mg["G"]

    def mag(p, o, n, lo=0):
        out = []
        for g, c in ((0, p.gauge == 0), (1, p.gauge == 1), (2, Not(Or(p.gauge == 0, p.gauge == 1)))):
            out.append(imp(c, lambda g=g: fa([(0, n)], lambda h: p.hop_v[h] == mg["G"][g](h))))
        return And(out)
    add(Contract("set_mag_field", HOP + [("dr", "real[nh,3]"), ("orb_pos", "real[N,3]"), ("intensity", "real"), ("gauge", "int")],
                 requires=lambda p: [hl(p)], modifies=["hop_v"], timeout=15000, sums=msums,
                 ensures=lambda p, o, r: [("Peierls phase", mag(p, o, p.nh))],
                 invs=[("done", lambda L: mag(L.params, L.old, L.it)),
                       ("rest", lambda L: fa([(L.it, L.params.nh)], lambda h: L.params.hop_v[h] == L.old.hop_v[h]))]))

    # ---- get_rescale
    rs = {}

    def rsums(p):
        def step(h, prev, o):
            v = p.hop_v[h]
            a = fsqrt(v.real ** 2 + v.imag ** 2)
            return prev + ite(p.hop_i[h] == o, a, 0) + ite(p.hop_j[h] == o, a, 0)
        rs["T"] = RecFn("rowsum", "real", 1, lambda o: 0, step)
        return [SumSet([rs["T"]])]

    def rinv(L):
        out = {}
        T = rs["T"]
        for n, a in arr_locals(L, "real", 1, ["ham_sum"]).items():
            out["d." + n] = fa([(0, L.params.N)], lambda o: a[o] == ite(o < L.it, abs(L.params.orb_eng[o]), 0))
            out["s." + n] = fa([(0, L.params.N)], lambda o: a[o] == abs(L.params.orb_eng[o]) + T(L.it, o))
        return out
    add(Contract("get_rescale", [("orb_eng", "real[N]")] + HOP, requires=lambda p: [hl(p), ("orbitals", p.N > 0)],
                 result="real", sums=rsums,
                 ensures=lambda p, o, r: [("bounds every absolute row sum", fa([(0, p.N)], lambda k: r >= abs(p.orb_eng[k]) + rs["T"](p.nh, k)))],
                 invs=[("sum", rinv)]))

    # ---- CSR
    add(Contract("_get_free_ptr", [("i", "int"), ("indptr", "int[m]"), ("num_data_count", "int[n]")],
                 requires=lambda p: [("i", And(0 <= p.i, p.i < p.m, p.i < p.n))], modifies=["num_data_count"], result="int",
                 ensures=lambda p, o, r: [("slot", r == p.indptr[p.i] + o.num_data_count[p.i]),
                                          ("count", p.num_data_count[p.i] == o.num_data_count[p.i] + 1),
                                          ("others", fa([(0, p.n)], lambda k: imp(Not(k == p.i), lambda: p.num_data_count[k] == o.num_data_count[k])))]))
    c = {}
    # nz(o): 1 if the on-site term of o is stored (defined where a loop over the orbitals is at o)
    nz = lambda p, o: SInt(z3.Function("NZ", I, I)(zi(o)))
    nz_def = lambda p, o: zb(nz(p, o) == ite(abs(p.orb_eng[o]) >= p.cutoff, 1, 0))

    def csums(p):
        inc = RecFn("inc", "int", 1, lambda o: 0, lambda h, prev, o: prev + ite(p.hop_i[h] == o, 1, 0) + ite(p.hop_j[h] == o, 1, 0))
        PS = RecFn("PS", "int", 0, lambda: 0, lambda k, prev: prev + nz(p, k) + inc(p.nh, k))
        c.update(inc=inc, PS=PS)
        c["P0"] = lambda h: SInt(z3.Function("slot0", I, I)(zi(h)))
        c["P1"] = lambda h: SInt(z3.Function("slot1", I, I)(zi(h)))
        c["PE"] = lambda r: SInt(z3.Function("rowend", I, I)(zi(r)))
        hop = lambda lp: not lp.is_while and str(zi(p.nh)) in str(zi(lp.n))
        return [SumSet([inc], when=hop), SumSet([PS], when=lambda lp: not hop(lp)), SlotDef(p, c, hop)]

    class SlotDef(SumBase):
        """definition of the slots: first free place of the row, in hopping order"""

        def __init__(self, p, c, hop):
            self.p, self.c, self.hop = p, c, hop

        def axioms_at_entry(self):
            return [zb(fa([(None, None)], lambda o: And(0 <= nz(self.p, o), nz(self.p, o) <= 1), pats=lambda o: nz(self.p, o)))]

        def axioms_at_body(self, loop):
            if [lp for lp in sym.E.loops if lp is not loop]:
                return []
            h, p, c = loop.it, self.p, self.c
            s = lambda r: c["PS"](r) + nz(p, r) + c["inc"](h, r)
            if not self.hop(loop):
                return [zb(c["PE"](h) == c["PS"](h + 1)), nz_def(p, h)]
            return [zb(And(c["P0"](h) == s(p.hop_i[h]), c["P1"](h) == s(p.hop_j[h]) + ite(p.hop_i[h] == p.hop_j[h], 1, 0)))]

    def entry(ind, hop, dx, dy, s, j, v, x, y):
        out = {"j": ind[s] == j, "v": hop[s] == v, "x": dx[s] == x, "y": dy[s] == y}
        return out

    def rows_ok(p, ind, hop, dx, dy, n):
        P0, P1 = c["P0"], c["P1"]
        hv, dr = p.hop_v, p.dr
        a = {"o" + k: fa([(0, n)], lambda h: entry(ind, hop, dx, dy, P0(h), p.hop_j[h], hv[h], dr[h, 0], dr[h, 1])[k], pats=lambda h: P0(h)) for k in "jvxy"}
        b = {"c" + k: fa([(0, n)], lambda h: entry(ind, hop, dx, dy, P1(h), p.hop_i[h], hv[h].conjugate(), -dr[h, 0], -dr[h, 1])[k], pats=lambda h: P1(h)) for k in "jvxy"}
        return {**a, **b}

    def slots_in(p, n):
        inc, PS, P0, P1 = c["inc"], c["PS"], c["P0"], c["P1"]
        lo = lambda r: PS(r) + nz(p, r)
        hi = lambda r: PS(r) + nz(p, r) + inc(n, r)
        D = lambda P: fa([(0, p.N), (0, n)], lambda o, h: imp(nz(p, o) == 1, Not(PS(o) == P(h))), pats=lambda o, h: (PS(o), P(h)))
        return {"s0": fa([(0, n)], lambda h: And(lo(p.hop_i[h]) <= P0(h), P0(h) < hi(p.hop_i[h])), pats=lambda h: P0(h)),
                "s1": fa([(0, n)], lambda h: And(lo(p.hop_j[h]) <= P1(h), P1(h) < hi(p.hop_j[h])), pats=lambda h: P1(h)),
                "d01": fa([(0, n), (0, n)], lambda h, g: Not(P0(h) == P1(g)), pats=lambda h, g: (P0(h), P1(g))),
                "d00": fa([(0, n), (0, n)], lambda h, g: imp(P0(h) == P0(g), h == g), pats=lambda h, g: (P0(h), P0(g))),
                "d11": fa([(0, n), (0, n)], lambda h, g: imp(P1(h) == P1(g), h == g), pats=lambda h, g: (P1(h), P1(g))),
                "dd0": D(P0), "dd1": D(P1)}

    def diag_ok(p, ind, hop, dx, dy, n):
        PS = c["PS"]
        Z = SCplx(z3.RealVal(0), z3.RealVal(0))
        return {"d" + k: fa([(0, n)], lambda o: imp(nz(p, o) == 1, lambda: entry(ind, hop, dx, dy, PS(o), o, p.orb_eng[o] + Z, 0, 0)[k]), pats=lambda o: PS(o)) for k in "jvxy"}

    def csr_ens(p, o, r):
        ip, ind, hop, dx, dy = r
        PS, inc = c["PS"], c["inc"]
        return [("row pointer", And(ip.shape[0] == p.N + 1, fa([(0, p.N + 1)], lambda k: ip[k] == PS(k)))),
                ("lengths", And([a.shape[0] == PS(p.N) for a in (ind, hop, dx, dy)])),
                ("monotone", fa([(0, p.N)], lambda k: And(PS(k) <= c["PE"](k), c["PE"](k) == PS(k) + nz(p, k) + inc(p.nh, k)))),
                ] + [("slots " + k, f) for k, f in slots_in(p, p.nh).items()] + \
            [("entry " + k, f) for k, f in rows_ok(p, ind, hop, dx, dy, p.nh).items()] + \
            [("diagonal " + k, f) for k, f in diag_ok(p, ind, hop, dx, dy, p.N).items()]

    def stage(L):
        fill = bool(arr_locals(L, "cplx", 1))
        pre = sym._const(zi(L.seq.a)) == 1
        hop = over(L, L.params.nh) and not over(L, L.params.N)
        return ("fill" if fill else "count") + (":prefix" if pre else ":hop" if hop else ":diag")

    def csr_inv(L):
        p = L.params
        inc, PS = c["inc"], c["PS"]
        t = L.it
        if L.depth:
            raise Skip("inner")
        S = stage(L)
        b = sym.E.broad
        A = arr_locals(L, "int", 1, ["indptr", "indices", "num_data_count"])
        out = {}
        if S == "count:diag":
            for n, a in A.items():
                out["ip1." + n] = fa([(0, p.N)], lambda o: a[o + 1] == ite(o < t, nz(p, o), 0))
        elif S == "count:hop":
            out["mono"] = fa([(0, t + 1), (0, p.N)], lambda h, o: And(0 <= inc(h, o), inc(h, o) <= inc(t, o)), pats=lambda h, o: inc(h, o))
            for n, a in A.items():
                out["ip2." + n] = fa([(0, p.N)], lambda o: a[o + 1] == nz(p, o) + inc(t, o))
        elif S == "count:prefix":
            PE = c["PE"]
            out["psm"] = fa([(0, t + 1), (0, t + 1)], lambda a, b: imp(a < b, PE(a) <= PS(b)), pats=lambda a, b: (PS(a), PS(b)))
            out["psd"] = fa([(0, t)], lambda a: And(PE(a) == PS(a) + nz(p, a) + inc(p.nh, a), PS(a) <= PE(a)), pats=lambda a: PS(a))
            out["psn"] = fa([(0, t + 1)], lambda a: PS(a) >= 0, pats=lambda a: PS(a))
            for n, a in A.items():
                out["ip3." + n] = fa([(0, p.N + 1)], lambda o: a[o] == ite(o < t + 1, lambda: PS(o), lambda: nz(p, o - 1) + inc(p.nh, o - 1)))
        else:
            hopl = S == "fill:hop"
            P0, P1 = c["P0"], c["P1"]
            Z = SCplx(z3.RealVal(0), z3.RealVal(0))
            if hopl:
                for k, f in slots_in(p, t).items():
                    out["lem" + k] = f
            for n, a in A.items():
                if n == "num_data_count" or b:
                    out["n." + n] = fa([(0, p.N)], lambda o: a[o] == (nz(p, o) + inc(t, o) if hopl else ite(o < t, nz(p, o), 0)))
            T = [(n, a, "j") for n, a in A.items() if n == "indices" or b]
            T += [(n, a, "v") for n, a in arr_locals(L, "cplx", 1, ["hop"]).items()]
            T += [(n, a, q) for n, a in arr_locals(L, "real", 1, ["dx", "dy"]).items() for q in (0, 1) if b or n == ("dx", "dy")[q]]
            for n, a, q in T:
                dia = {"j": lambda o: o, "v": lambda o: p.orb_eng[o] + Z}.get(q, lambda o: 0)
                org = {"j": lambda h: p.hop_j[h], "v": lambda h: p.hop_v[h]}.get(q, lambda h: p.dr[h, q])
                cnj = {"j": lambda h: p.hop_i[h], "v": lambda h: p.hop_v[h].conjugate()}.get(q, lambda h: -p.dr[h, q])
                out[f"d{q}." + n] = fa([(0, p.N if hopl else t)], lambda o: imp(nz(p, o) == 1, lambda: a[PS(o)] == dia(o)), pats=lambda o: PS(o))
                if hopl:
                    out[f"o{q}." + n] = fa([(0, t)], lambda h: a[P0(h)] == org(h), pats=lambda h: P0(h))
                    out[f"c{q}." + n] = fa([(0, t)], lambda h: a[P1(h)] == cnj(h), pats=lambda h: P1(h))
        return out
    add(Contract("build_ham_dxy_fast", [("orb_eng", "real[N]")] + HOP + [("dr", "real[nh,3]"), ("cutoff", "real")],
                 requires=lambda p: [hl(p)], result=("int[?]", "int[?]", "cplx[?]", "real[?]", "real[?]"),
                 callees=["_get_free_ptr"], sums=csums, ensures=csr_ens, invs=[("csr", csr_inv)], timeout=15000,
                 budget=400, soft={"bounds": "assume", "callreq": "assume"}))

    # ---- build_ham_dxy_safe
    F, G = (lambda f: (lambda k: SInt(f[0](zi(k))), lambda k: SInt(f[1](zi(k)))))(sort_fns(0, 1))
    b_ = {}

    class SafeDef(SumBase):
        def __init__(self, p, kind_):
            self.p, self.kind = p, kind_

        def axioms_at_entry(self):
            return [zb(fa([(None, None)], lambda o: And(0 <= nz(self.p, o), nz(self.p, o) <= 1), pats=lambda o: nz(self.p, o)))]

        def axioms_at_body(self, loop):
            p, t, C, FU = self.p, loop.it, b_["C"], b_["FULL"]
            if [lp for lp in sym.E.loops if lp is not loop]:
                return []
            k = self.kind(loop)
            if k == "orb":
                return [nz_def(p, t), zb(imp(nz(p, t) == 1, FU(C(t)) == t))]
            if k == "hop":
                return [zb(And(FU(C(p.N) + t) == p.hop_i[t], FU(C(p.N) + p.nh + t) == p.hop_j[t]))]
            return []

    def lkind(p):
        def f(lp):
            n = str(zi(lp.n))
            if "NZC" in n or "num_nz" in n or (str(zi(p.nh)) in n and "2*" in n):
                return "full"
            a0 = sym._const(zi(lp.iterable.a))
            if a0 == 1:
                return "prefix"
            return "hop" if str(zi(p.nh)) in n else "orb"
        return f

    def safe_sums(p):
        C = RecFn("NZC", "int", 0, lambda: 0, lambda k, prev: prev + nz(p, k))
        FU = lambda k: SInt(z3.Function("FULLROW", I, I)(zi(k)))
        ROW = lambda k: FU(F(k))
        cnt = RecFn("cntR", "int", 1, lambda o: 0, lambda k, prev, o: prev + ite(ROW(k) == o, 1, 0))
        LE = RecFn("LT", "int", 1, lambda r: 0, lambda k, prev, r: prev + ite(ROW(k) < r, 1, 0))
        b_.update(C=C, FULL=FU, ROW=ROW, cnt=cnt, LE=LE, kind=lkind(p))
        kd = b_["kind"]
        return [SumSet([C], when=lambda lp: kd(lp) == "orb"), SumSet([cnt, LE], when=lambda lp: kd(lp) == "full"), SafeDef(p, kd)]

    def safe_vals(p):
        Z = SCplx(z3.RealVal(0), z3.RealVal(0))
        dia = {"i": lambda o: o, "j": lambda o: o, "v": lambda o: p.orb_eng[o] + Z, 0: lambda o: 0, 1: lambda o: 0}
        org = {"i": lambda h: p.hop_i[h], "j": lambda h: p.hop_j[h], "v": lambda h: p.hop_v[h], 0: lambda h: p.dr[h, 0], 1: lambda h: p.dr[h, 1]}
        cnj = {"i": lambda h: p.hop_j[h], "j": lambda h: p.hop_i[h], "v": lambda h: p.hop_v[h].conjugate(), 0: lambda h: -p.dr[h, 0], 1: lambda h: -p.dr[h, 1]}
        return dia, org, cnj

    def safe_inv(L):
        p, t = L.params, L.it
        C, FU, ROW, cnt, LE = b_["C"], b_["FULL"], b_["ROW"], b_["cnt"], b_["LE"]
        if L.depth:
            raise Skip("inner")
        k = b_["kind"](L.loop)
        out = {}
        b = sym.E.broad
        H = arr_locals(L, "cplx", 1, ["hop"])
        A = arr_locals(L, "int", 1, ["hop_i_full", "hop_j_full", "indptr"])
        T = [(n, a, q) for n, a in A.items() for q in "ij" if b or n == f"hop_{q}_full"]
        T += [(n, a, "v") for n, a in H.items()]
        T += [(n, a, q) for n, a in arr_locals(L, "real", 1, ["dx", "dy"]).items() for q in (0, 1) if b or n == ("dx", "dy")[q]]
        dia, org, cnj = safe_vals(p)
        if k == "orb":
            out["lem0"] = And(C(t) >= 0, C(t) <= t)
            out["lem1"] = fa([(0, t)], lambda o: And(imp(nz(p, o) == 1, C(o) < C(t)), 0 <= C(o), C(o) <= C(t)), pats=lambda o: C(o))
            for n, v in int_locals(L, ["num_nz", "ptr"]).items():
                out["k." + n] = v == C(t)
            out["lemr"] = fa([(0, C(t))], lambda m: And(0 <= FU(m), FU(m) < p.N), pats=lambda m: FU(m))
            for n, a, q in T:
                out[f"d{q}." + n] = fa([(0, t)], lambda o: imp(nz(p, o) == 1, lambda: a[C(o)] == dia[q](o)), pats=lambda o: C(o))
                if q == "i":
                    out["row." + n] = fa([(0, C(t))], lambda m: a[m] == FU(m))
        elif k == "hop":
            for n, a, q in T:
                out[f"d{q}." + n] = fa([(0, p.N)], lambda o: imp(nz(p, o) == 1, lambda: a[C(o)] == dia[q](o)), pats=lambda o: C(o))
                out[f"o{q}." + n] = fa([(0, t)], lambda h: a[C(p.N) + h] == org[q](h))
                out[f"c{q}." + n] = fa([(0, t)], lambda h: a[C(p.N) + p.nh + h] == cnj[q](h))
                if q == "i":
                    out["row." + n] = fa([(0, C(p.N) + t)], lambda m: And(a[m] == FU(m), 0 <= FU(m), FU(m) < p.N))
                    out["row2." + n] = fa([(C(p.N) + p.nh, C(p.N) + p.nh + t)], lambda m: And(a[m] == FU(m), 0 <= FU(m), FU(m) < p.N))
        elif k == "full":
            out["leme"] = And(LE(t, 0) == 0, LE(t, p.N) == t)
            out["lemb"] = fa([(0, p.N + 1)], lambda r: And(0 <= LE(t, r), LE(t, r) <= t), pats=lambda r: LE(t, r))
            out["lem1"] = fa([(0, p.N)], lambda r: And(LE(t, r + 1) == LE(t, r) + cnt(t, r), cnt(t, r) >= 0), pats=lambda r: cnt(t, r))
            out["lem2"] = fa([(0, t), (0, p.N + 1)], lambda m, r: And(imp(ROW(m) < r, m < LE(t, r)), imp(ROW(m) >= r, m >= LE(t, r))),
                             pats=lambda m, r: (F(m), LE(t, r)))
            for n, a in A.items():
                if n == "indptr" or b:
                    out["ip." + n] = And(a[0] == 0, fa([(0, p.N)], lambda o: a[o + 1] == cnt(t, o)))
        elif k == "prefix":
            M = C(p.N) + 2 * p.nh
            for n, a in A.items():
                if n == "indptr" or b:
                    out["ip." + n] = fa([(0, p.N + 1)], lambda r: a[r] == ite(r < t + 1, lambda: LE(M, r), lambda: cnt(M, r - 1)))
        return out

    def safe_ens(p, o, r):
        ip, ind, hop, dx, dy = r
        C, ROW, LE, cnt = b_["C"], b_["ROW"], b_["LE"], b_["cnt"]
        M = C(p.N) + 2 * p.nh
        dia, org, cnj = safe_vals(p)
        arr = {"j": ind, "v": hop, 0: dx, 1: dy}
        out = [("row pointer", And(ip.shape[0] == p.N + 1, fa([(0, p.N + 1)], lambda k: ip[k] == LE(M, k)))),
               ("ends", And(LE(M, 0) == 0, LE(M, p.N) == M)),
               ("lengths", And([a.shape[0] == M for a in (ind, hop, dx, dy)])),
               ("sorting is a bijection", fa([(0, M)], lambda k: And(0 <= G(k), G(k) < M, F(G(k)) == k), pats=lambda k: G(k))),
               ("every entry lies in its row", fa([(0, M)], lambda k: And(LE(M, ROW(k)) <= k, k < LE(M, ROW(k) + 1))))]
        slot = {"d": lambda o: C(o), "o": lambda h: C(p.N) + h, "c": lambda h: C(p.N) + p.nh + h}
        out.append(("diagonal rows", fa([(0, p.N)], lambda q: imp(nz(p, q) == 1, lambda: ROW(G(C(q))) == q), pats=lambda q: C(q))))
        out.append(("rows", fa([(0, p.nh)], lambda h: And(ROW(G(C(p.N) + h)) == p.hop_i[h], ROW(G(C(p.N) + p.nh + h)) == p.hop_j[h]))))
        for q, a in arr.items():
            out.append((f"diagonal {q}", fa([(0, p.N)], lambda o: imp(nz(p, o) == 1, lambda: a[G(C(o))] == dia[q](o)), pats=lambda o: C(o))))
            out.append((f"entry {q}", fa([(0, p.nh)], lambda h: And(a[G(C(p.N) + h)] == org[q](h), a[G(C(p.N) + p.nh + h)] == cnj[q](h)))))
        return out
    add(Contract("build_ham_dxy_safe", [("orb_eng", "real[N]")] + HOP + [("dr", "real[nh,3]"), ("cutoff", "real")],
                 requires=lambda p: [hl(p)], result=("int[?]", "int[?]", "cplx[?]", "real[?]", "real[?]"),
                 sums=safe_sums, ensures=safe_ens, invs=[("safe", safe_inv)], timeout=15000,
                 budget=400, soft={"bounds": "assume"}))

    # ---- sort_col_csr
    F1, G1 = (lambda f: (lambda r, k: SInt(f[0](zi(r), zi(k))), lambda r, k: SInt(f[1](zi(r), zi(k)))))(sort_fns(1, 1))
    CSR = [("indices", "int[nz]"), ("hop", "cplx[nz]"), ("dx", "real[nz]"), ("dy", "real[nz]")]

    def permuted(p, o, n, nm, hi=None):
        a, b = getattr(p, nm), getattr(o, nm)
        ip = p.indptr
        return fa([(0, n), (0, lambda r, *_: ip[r + 1] - ip[r])], lambda r, k: a[ip[r] + k] == b[ip[r] + F1(r, k)])

    def sc_ens(p, o, r):
        ip, R_ = p.indptr, p.m - 1
        ln = lambda r, *_: ip[r + 1] - ip[r]
        out = [(f"{nm} permuted within the rows", permuted(p, o, R_, nm)) for nm, _ in CSR]
        out.append(("the same bijection of each row", fa([(0, R_), (0, ln)], lambda r, k: And(
            0 <= F1(r, k), F1(r, k) < ln(r), 0 <= G1(r, k), G1(r, k) < ln(r), G1(r, F1(r, k)) == k, F1(r, G1(r, k)) == k))))
        out.append(("columns ascending (through the bijection)", fa([(0, R_), (0, ln), (0, ln)], lambda r, k, m: imp(k <= m, o.indices[ip[r] + F1(r, k)] <= o.indices[ip[r] + F1(r, m)]))))
        return out

    def sc_inv(L):
        p, o, t = L.params, L.old, L.it
        ip = p.indptr
        ln = lambda r, *_: ip[r + 1] - ip[r]
        row = L.outer[0].it if L.depth else t
        out = {}
        out["lemperm"] = fa([(0, row), (0, ln)], lambda r, k: And(
            0 <= F1(r, k), F1(r, k) < ln(r), 0 <= G1(r, k), G1(r, k) < ln(r), G1(r, F1(r, k)) == k, F1(r, G1(r, k)) == k))
        out["lemsort"] = fa([(0, row), (0, ln), (0, ln)], lambda r, k, m: imp(k <= m, o.indices[ip[r] + F1(r, k)] <= o.indices[ip[r] + F1(r, m)]))
        for nm, _ in CSR:
            a, b = getattr(p, nm), getattr(o, nm)
            out["done." + nm] = permuted(p, o, row, nm)
            lo = ip[row] + (t if L.depth else 0)
            out["rest." + nm] = fa([(lo, p.nz)], lambda m: a[m] == b[m])
            if L.depth:
                out["cur." + nm] = fa([(0, t)], lambda k: a[ip[row] + k] == b[ip[row] + F1(row, k)])
        return out
    add(Contract("sort_col_csr", [("indptr", "int[m]")] + CSR, modifies=[n for n, _ in CSR],
                 requires=lambda p: [("rows", p.m >= 1), ("ordered", fa([(0, p.m), (0, p.m)], lambda a, b: imp(a <= b, p.indptr[a] <= p.indptr[b]))),
                                     ("range", fa([(0, p.m)], lambda a: And(0 <= p.indptr[a], p.indptr[a] <= p.nz)))],
                 ensures=sc_ens, invs=[("row", sc_inv)], timeout=15000, budget=400, soft={"bounds": "assume"}))
    return R


def prove(src, names):
    rp, rs = registry_prim(), registry_samp()
    return prove_in(PRIM, rp, [n for n in names if n in rp], src) + prove_in(SAMP, rs, [n for n in names if n in rs], src)


def registry():
    return {**registry_prim(), **registry_samp()}
