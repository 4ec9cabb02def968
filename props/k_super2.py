"""Contracts on super.pyx: hopping construction, positions, displacements."""
from vk import sym
from vk.sym import (zb, And, Or, Not, imp, ite, eq, fa, ex, RecFn, SInt, SBool, SArr, SReal, SCplx, zi, z3)
from vk.contract import Contract, Lemma
from vk.front import int_locals, arr_locals, iters, SumSet, SumBase, Skip
import props.k_super as K1

I = z3.IntSort()


def ufn(name, n, out=I):
    f = z3.Function(name, *([I] * n), out)
    if out == I:
        return lambda *a: SInt(f(*[zi(x) for x in a]))
    return lambda *a: SBool(f(*[zi(x) for x in a]))


_MOD, _DIV = ufn("fmod", 2), ufn("fdiv", 2)


def fmod(j, n):
    return j % n if sym.E is None else _MOD(j, n)


def fdiv(j, n):
    return j // n if sym.E is None else _DIV(j, n)


def wrap(j, n, pbc):
    return ite(pbc == 0, lambda: ite(And(0 <= j, j < n), j, -1), lambda: fmod(j, n))


def mod_def(p):
    return [fmod(p.ji, p.ni) == p.ji % p.ni, fdiv(p.ji, p.ni) == p.ji // p.ni]


MODLEMMA = lambda: Lemma("wrapping: range and identity in the home period",
                         [("j", "int"), ("n", "int")], lambda p: [("n", p.n > 0)],
                         lambda p: [("range", And(0 <= p.j % p.n, p.j % p.n < p.n)),
                                    ("home", imp(And(0 <= p.j, p.j < p.n), And(p.j % p.n == p.j, p.j // p.n == 0))),
                                    ("split", p.j == (p.j // p.n) * p.n + p.j % p.n)], timeout=20000)


class KeptRank(SumBase):
    """ghost enumeration of the kept pairs (o, h) of a two-level nest:
    K(o,h) = number of kept pairs before (o,h); (SO,SH)(r) = the r-th kept pair"""

    def __init__(self, tag, n_inner, kept, extra=None):
        self.K, self.SO, self.SH = ufn("K" + tag, 2), ufn("SO" + tag, 1), ufn("SH" + tag, 1)
        self.KEPT = ufn("KEPT" + tag, 2, z3.BoolSort())
        self.kept, self.n_inner, self.extra = kept, n_inner, extra

    def axioms_at_entry(self):
        f = [zb(self.K(0, 0) == 0)]
        its = [lp.it for lp in sym.E.loops]
        return f

    def axioms_at_body(self, loop):
        its = [lp.it for lp in sym.E.loops if lp is not loop] + [loop.it]
        if len(its) != 2:
            return []
        o, h = its
        k = self.K(o, h)
        f = [self.KEPT(o, h) == self.kept(o, h), imp(self.KEPT(o, h), And(self.SO(k) == o, self.SH(k) == h))]
        f += self.extra(o, h) if self.extra else []
        return [zb(x) for x in f]

    def axioms_at_step(self, loop, it, it1):
        its = [lp.it for lp in sym.E.loops if lp is not loop]
        if len(its) == 0:
            return [zb(self.K(it1, 0) == self.K(it, self.n_inner))]
        if len(its) == 1:
            o = its[0]
            return [zb(self.K(o, it1) == self.K(o, it) + ite(self.KEPT(o, it), 1, 0))]
        return []


class KeptRank1(SumBase):
    """same for a single loop; several kinds of loops in one function share it"""

    def __init__(self, tag, kept):
        self.K, self.SO = ufn("K" + tag, 1), ufn("SO" + tag, 1)
        self.kept = kept

    def axioms_at_entry(self):
        return [zb(self.K(0) == 0)]

    def _at(self, it):
        return [zb(imp(self.kept(it), self.SO(self.K(it)) == it))]

    def axioms_at_body(self, loop):
        if len([lp for lp in sym.E.loops if lp is not loop]) == 0:
            return self._at(loop.it)
        return []

    def axioms_at_step(self, loop, it, it1):
        if len([lp for lp in sym.E.loops if lp is not loop]) == 0:
            return [zb(self.K(it1) == self.K(it) + ite(self.kept(it), 1, 0))]
        return []


def cart(vec, lat, q):
    return vec[0] * lat[0, q] + vec[1] * lat[1, q] + vec[2] * lat[2, q]


def add_hop(add):
    row = lambda a, i: [a[i, q] for q in range(4)]

    def wr_inv(L):
        out = {}
        for n, v in int_locals(L, ["ji_new"]).items():
            out["mod." + n] = (v % L.ni) == (L.ji % L.ni)
            out["up." + n] = v >= 0
            out["keep." + n] = Or(v == L.ji, L.ji < 0, v >= 0)
        return out
    add(Contract("_wrap_pbc", [("ji", "int"), ("ni", "int"), ("pbc_i", "int")], requires=lambda p: [("ni", p.ni > 0)],
                 result="int", while_cut=True, lemmas=mod_def,
                 ensures=lambda p, o, r: [("wrapped", r == wrap(p.ji, p.ni, p.pbc_i)),
                                          ("range", imp(Not(p.pbc_i == 0), And(0 <= r, r < p.ni)))],
                 invs=[("w", wr_inv)]))

    def div_inv(L):
        out = {}
        il = int_locals(L, ["bound", "result"])
        for n, v in il.items():
            if n == "bound" and not sym.E.broad:
                continue
            for m, w in il.items():
                if m != n and (sym.E.broad or m == "bound"):
                    out[f"b.{n}.{m}"] = w == v * L.ni
            out["lo." + n] = L.ji >= (v - 1) * L.ni
            out["hi." + n] = L.ji < (v + 1) * L.ni
        return out
    add(Contract("_fast_div", [("ji", "int"), ("ni", "int")], requires=lambda p: [("ni", p.ni > 0)], result="int",
                 while_cut=True, lemmas=mod_def,
                 ensures=lambda p, o, r: [("floor", r == fdiv(p.ji, p.ni))], invs=[("d", div_inv)]))
    add(Contract("_zero_rn", [("pc_hop_ind", "int[n,5]"), ("ih", "int")],
                 requires=lambda p: [("ih", And(p.ih >= 0, p.ih < p.n))], result="int",
                 ensures=lambda p, o, r: [("zero", r == ite(And([p.pc_hop_ind[p.ih, k] == 0 for k in range(3)]), 1, 0))]))

    # ---- positions, energies
    def pos_at(p, i, q):
        o = p.orb_id_pc
        v = [p.pc_orb_pos[o[i, 3], d] + o[i, d] for d in range(3)]
        return cart(v, p.pc_lattice, q)
    legal = lambda p, n: fa([(0, p.N)], lambda i: And(0 <= p.orb_id_pc[i, 3], p.orb_id_pc[i, 3] < n))
    add(Contract("build_orb_pos", [("pc_lattice", "real[3,3]"), ("pc_orb_pos", "real[no,3]"), ("orb_id_pc", "int[N,4]")],
                 requires=lambda p: [("legal", legal(p, p.no))], result="real[?,3]",
                 ensures=lambda p, o, r: [("length", r.shape[0] == p.N)] + [
                     (f"position {q}", fa([(0, p.N)], lambda i: r[i, q] == pos_at(p, i, q))) for q in range(3)],
                 invs=[("pos", lambda L: {f"{n}.{q}": fa([(0, L.it)], lambda i: a[i, q] == pos_at(L, i, q))
                                          for n, a in arr_locals(L, "real", 2, ["orb_pos"]).items() for q in range(3)})]))
    add(Contract("build_orb_eng", [("pc_orb_eng", "real[no]"), ("orb_id_pc", "int[N,4]")],
                 requires=lambda p: [("legal", legal(p, p.no))], result="real[?]",
                 ensures=lambda p, o, r: [("length", r.shape[0] == p.N),
                                          ("energy", fa([(0, p.N)], lambda i: r[i] == p.pc_orb_eng[p.orb_id_pc[i, 3]]))],
                 invs=[("eng", lambda L: {n: fa([(0, L.it)], lambda i: a[i] == L.pc_orb_eng[L.orb_id_pc[i, 3]])
                                          for n, a in arr_locals(L, "real", 1, ["orb_eng"]).items()})]))

    def inter(p, r, i, q):
        h = p.hop_ind
        return r[i, q] == p.pos_ket[h[i, 4], q] - p.pos_bra[h[i, 3], q] + cart([h[i, 0], h[i, 1], h[i, 2]], p.sc_lat_ket, q)
    add(Contract("build_inter_dr", [("hop_ind", "int[n,5]"), ("pos_bra", "real[nb,3]"), ("pos_ket", "real[nk,3]"),
                                    ("sc_lat_ket", "real[3,3]")],
                 requires=lambda p: [("legal", fa([(0, p.n)], lambda i: And(
                     0 <= p.hop_ind[i, 3], p.hop_ind[i, 3] < p.nb, 0 <= p.hop_ind[i, 4], p.hop_ind[i, 4] < p.nk)))],
                 result="real[?,3]",
                 ensures=lambda p, o, r: [("length", r.shape[0] == p.n)] + [
                     (f"displacement {q}", fa([(0, p.n)], lambda i: inter(p, r, i, q))) for q in range(3)],
                 invs=[("dr", lambda L: {f"{n}.{q}": fa([(0, L.it)], lambda i: inter(L, a, i, q))
                                         for n, a in arr_locals(L, "real", 2, ["dr"]).items() for q in range(3)})]))

    # ---- search for an equivalent term
    def same(p, i):
        return And(p.hop_i[i] == p.bra, p.hop_j[i] == p.ket)

    def conj(p, i):
        return And(p.hop_i[i] == p.ket, p.hop_j[i] == p.bra)
    none = lambda p, n: fa([(0, n)], lambda i: Not(Or(same(p, i), conj(p, i))))

    def feq(p, o, r):
        s, c = r
        return [("at most one", Or(s == -1, c == -1)),
                ("same", imp(Not(s == -1), lambda: And(0 <= s, s < p.n, same(p, s), none(p, s)))),
                ("conjugate", imp(Not(c == -1), lambda: And(0 <= c, c < p.n, conj(p, c), none(p, c)))),
                ("absent", imp(And(s == -1, c == -1), lambda: none(p, p.n)))]
    add(Contract("find_equiv_hopping", [("hop_i", "int[n]"), ("hop_j", "int[n]"), ("bra", "int"), ("ket", "int")],
                 result=("int", "int"), ensures=feq,
                 invs=[("none", lambda L: none(L, L.it)),
                       ("ids", lambda L: {n: v == -1 for n, v in int_locals(L, ["id_same", "id_conj"]).items()})]))

    # ---- splitting
    def is_pbc(p, h):
        return And([Or(Not(p.pbc[j] == 0), p.pc_hop_ind[h, j] == 0) for j in range(3)])
    st = {}

    def split_sums(p):
        st["R1"] = KeptRank1("pbc", lambda h: is_pbc(p, h))
        st["R0"] = KeptRank1("free", lambda h: Not(is_pbc(p, h)))
        return [st["R1"], st["R0"]]

    def rowof(p, ind, eng, r, h):
        return And([ind[r, q] == p.pc_hop_ind[h, q] for q in range(5)] + [eng[r] == p.pc_hop_eng[h]])

    def split_ens(p, o, r):
        i1, e1, i0, e0 = r
        n = p.n
        if sym.E is not None and sym.E.fn != "split_pc_hop":
            raise sym.Unsupported("split_pc_hop as callee")
        R1, R0 = st["R1"], st["R0"]
        return [("count", And(i1.shape[0] == R1.K(n), e1.shape[0] == R1.K(n), i0.shape[0] == R0.K(n),
                              e0.shape[0] == R0.K(n), R1.K(n) + R0.K(n) == n)),
                ("periodic terms", fa([(0, R1.K(n))], lambda r_: And(0 <= R1.SO(r_), R1.SO(r_) < n, is_pbc(p, R1.SO(r_)),
                                                                    R1.K(R1.SO(r_)) == r_,
                                                                    rowof(p, i1, e1, r_, R1.SO(r_))))),
                ("free terms", fa([(0, R0.K(n))], lambda r_: And(0 <= R0.SO(r_), R0.SO(r_) < n,
                                                                Not(is_pbc(p, R0.SO(r_))), R0.K(R0.SO(r_)) == r_,
                                                                rowof(p, i0, e0, r_, R0.SO(r_)))))]

    def split_inv(L):
        R1, R0 = st["R1"], st["R0"]
        out = {"cnt": And(R1.K(L.it) + R0.K(L.it) == L.it, R1.K(L.it) >= 0, R0.K(L.it) >= 0)}
        if sym.E.loops and [lp for lp in sym.E.loops if lp is not L.loop]:
            raise Skip("inner")
        for n, a in arr_locals(L, "int", 1, ["status"]).items():
            out["st." + n] = fa([(0, L.it)], lambda h: a[h] == ite(is_pbc(L, h), 1, 0))
            out["stfull." + n] = fa([(0, L.n)], lambda h: a[h] == ite(is_pbc(L, h), 1, 0))
        for n, v in int_locals(L, ["ptr_pbc", "ptr_free"]).items():
            out["p1." + n] = v == R1.K(L.it)
            out["p0." + n] = v == R0.K(L.it)
        for R, tag, neg in ((R1, "pbc", False), (R0, "free", True)):
            for n, a in arr_locals(L, "int", 2, ["ind_" + tag]).items():
                for m, b in arr_locals(L, "cplx", 1, ["eng_" + tag]).items():
                    out[f"rows{tag}.{n}.{m}"] = fa([(0, R.K(L.it))], lambda r: And(
                        0 <= R.SO(r), R.SO(r) < L.it, Not(is_pbc(L, R.SO(r))) if neg else is_pbc(L, R.SO(r)),
                        R.K(R.SO(r)) == r, rowof(L, a, b, r, R.SO(r))))
        return out

    def sum_status(x):
        p = st["p"]
        f = fa([(0, p.n)], lambda h: x[h] == ite(is_pbc(p, h), 1, 0))
        e = sym.E
        e.spec_depth += 1
        try:
            ok = e.oblige(zb(f), "np.sum(status): status is the 0/1 indicator", cls="ensures")
        finally:
            e.spec_depth -= 1
        return st["R1"].K(p.n)

    def split_ghost(e, p):
        st["p"] = p
    add(Contract("split_pc_hop", [("pc_hop_ind", "int[n,5]"), ("pc_hop_eng", "cplx[n]"), ("pbc", "int[3]")],
                 result=("int[?,5]", "cplx[?]", "int[?,5]", "cplx[?]"), ensures=split_ens, sums=split_sums,
                 ghost=split_ghost, np_sum=[sum_status], invs=[("split", split_inv)], soft={"bounds": "assume"},
                 timeout=15000))

    # ---- trimming
    tst = {}

    def cntfn(p):
        return RecFn("inc", "int", 1, lambda o: 0, lambda h, prev, o: prev + ite(p.hop_i[h] == o, 1, 0) + ite(p.hop_j[h] == o, 1, 0))

    def trim_sums(p):
        tst["C"] = cntfn(p)
        C = tst["C"]
        tst["R"] = KeptRank1("trim", lambda o: C(p.nh, o) <= 1)
        return [SumSet([C], when=lambda lp: len([q for q in sym.E.loops if q is not lp]) == 0), tst["R"]]

    def trim_ens(p, o, r):
        C, R = tst["C"], tst["R"]
        return [("count", r.shape[0] == R.K(p.N)),
                ("dangling orbitals in order", fa([(0, R.K(p.N))], lambda k: And(
                    0 <= R.SO(k), R.SO(k) < p.N, R.K(R.SO(k)) == k, C(p.nh, R.SO(k)) <= 1,
                    And([r[k, q] == p.orb_id_pc[R.SO(k), q] for q in range(4)]))))]

    def trim_inv(L):
        C, R = tst["C"], tst["R"]
        if [lp for lp in sym.E.loops if lp is not L.loop]:
            raise Skip("inner")
        out = {"nn": R.K(L.it) >= 0}
        for n, a in arr_locals(L, "int", 1, ["hop_count"]).items():
            out["c." + n] = fa([(0, L.N)], lambda o: a[o] == C(L.it, o))
            out["cf." + n] = fa([(0, L.N)], lambda o: a[o] == C(L.nh, o))
        for n, v in int_locals(L, ["num_orb_trim", "counter"]).items():
            out["k." + n] = v == R.K(L.it)
            for m, a in arr_locals(L, "int", 2, ["orb_id_trim"]).items():
                out[f"r.{n}.{m}"] = fa([(0, R.K(L.it))], lambda k: And(
                    0 <= R.SO(k), R.SO(k) < L.it, R.K(R.SO(k)) == k, C(L.nh, R.SO(k)) <= 1,
                    And([a[k, q] == L.orb_id_pc[R.SO(k), q] for q in range(4)])))
        return out
    add(Contract("get_orb_id_trim", [("orb_id_pc", "int[N,4]"), ("hop_i", "int[nh]"), ("hop_j", "int[nh]")],
                 requires=lambda p: [("legal", fa([(0, p.nh)], lambda h: And(0 <= p.hop_i[h], p.hop_i[h] < p.N,
                                                                            0 <= p.hop_j[h], p.hop_j[h] < p.N)))],
                 result="int[?,4]", ensures=trim_ens, sums=trim_sums, invs=[("trim", trim_inv)],
                 soft={"bounds": "assume"}, timeout=15000))

    # ---- general hopping construction
    g = {}

    def tgt(p, o, h):
        """cell of the ket before / after wrapping"""
        j0 = [p.orb_id_pc[o, k] + p.pc_hop_ind[h, k] for k in range(3)]
        return j0, [wrap(j0[k], p.dim[k], p.pbc[k]) for k in range(3)]

    def kept(p, o, h):
        j0, w = tgt(p, o, h)
        x = K1.flat(p.dim, p.num_orb_pc, *w, p.pc_hop_ind[h, 4])
        nv = p.vac_id_sc.shape[0]
        return And(p.orb_id_pc[o, 3] == p.pc_hop_ind[h, 3], Not(w[0] == -1), Not(w[1] == -1), Not(w[2] == -1),
                   fa([(0, nv)], lambda k: Not(p.vac_id_sc[k] == x)))

    def gen_row(p, r, o, h, hi, hj, hv, dr, parts=("i", "j", "v", "d")):
        j0, w = tgt(p, o, h)
        x = K1.flat(p.dim, p.num_orb_pc, *w, p.pc_hop_ind[h, 4])
        nv = p.vac_id_sc.shape[0]
        J = hj[r]
        n = [fdiv(j0[k], p.dim[k]) for k in range(3)]
        d = {"i": hi[r] == o, "v": hv[r] == p.pc_hop_eng[h],
             "j": And(imp(nv == 0, lambda: J == x), imp(nv > 0, lambda: K1.rank_rel(p.vac_id_sc, nv, x, J)))}
        if dr is not None:
            d["d"] = And([dr[r, q] == p.sc_orb_pos[J, q] - p.sc_orb_pos[o, q] + cart(n, p.sc_lattice, q) for q in range(3)])
        return d

    def gen_sums(p):
        def extra(o, h):
            j0, w = tgt(p, o, h)
            x = K1.flat(p.dim, p.num_orb_pc, *w, p.pc_hop_ind[h, 4])
            # instance of 'numbering: range' and 'wrapping: range'
            return [imp(K1.in_box(p, w + [p.pc_hop_ind[h, 4]]), x >= 0)] + \
                   [And(0 <= fmod(j0[k], p.dim[k]), fmod(j0[k], p.dim[k]) < p.dim[k]) for k in range(3)]
        g["R"] = KeptRank("gen", p.nh, lambda o, h: kept(p, o, h), extra)
        return [g["R"]]

    def gen_ens(p, old, r):
        hi, hj, hv, dr = r
        R = g["R"]
        n = R.K(p.N, 0)
        out = [("one row per kept term", And(hi.shape[0] == n, hj.shape[0] == n, hv.shape[0] == n, dr.shape[0] == n)),
               ("rows are kept terms", fa([(0, n)], lambda k: And(0 <= R.SO(k), R.SO(k) < p.N, 0 <= R.SH(k), R.SH(k) < p.nh,
                                                                 R.KEPT(R.SO(k), R.SH(k)), R.K(R.SO(k), R.SH(k)) == k)))]
        for part, lab in (("i", "bra"), ("j", "ket"), ("v", "energy"), ("d", "displacement")):
            out.append((lab, fa([(0, n)], lambda k: gen_row(p, k, R.SO(k), R.SH(k), hi, hj, hv, dr)[part])))
        return out

    def gen_inv(L):
        R = g["R"]
        its = iters(L, 2)
        k0 = R.K(*its)
        out = {"nn": k0 >= 0}
        out["src"] = fa([(0, k0)], lambda k: And(0 <= R.SO(k), Or(R.SO(k) < its[0], And(R.SO(k) == its[0], R.SH(k) < its[1])),
                                                0 <= R.SH(k), R.SH(k) < L.nh, R.SO(k) < L.N,
                                                R.KEPT(R.SO(k), R.SH(k)), R.K(R.SO(k), R.SH(k)) == k))
        for n, v in int_locals(L, ["ptr"]).items():
            out["ptr." + n] = v == k0
        ai = arr_locals(L, "int", 1, ["hop_i", "hop_j"])
        ai = {n: a for n, a in ai.items() if sym._const(zi(a.shape[0])) is None}
        for n, a in ai.items():
            if sym.E.broad or n == "hop_i":
                out["i." + n] = fa([(0, k0)], lambda k: gen_row(L, k, R.SO(k), R.SH(k), a, a, L.pc_hop_eng, None)["i"])
            if sym.E.broad or n == "hop_j":
                out["j." + n] = fa([(0, k0)], lambda k: gen_row(L, k, R.SO(k), R.SH(k), a, a, L.pc_hop_eng, None)["j"])
                for m, b in arr_locals(L, "real", 2, ["dr"]).items():
                    out[f"d.{n}.{m}"] = fa([(0, k0)], lambda k: gen_row(L, k, R.SO(k), R.SH(k), a, a, L.pc_hop_eng, b)["d"])
        for n, a in arr_locals(L, "cplx", 1, ["hop_v"]).items():
            out["v." + n] = fa([(0, k0)], lambda k: a[k] == L.pc_hop_eng[R.SH(k)])
        return out
    GEN = [("pc_hop_ind", "int[nh,5]"), ("pc_hop_eng", "cplx[nh]"), ("dim", "int[3]"), ("pbc", "int[3]"),
           ("num_orb_pc", "int"), ("orb_id_pc", "int[N,4]"), ("vac_id_sc", "int[nv]"), ("sc_lattice", "real[3,3]"),
           ("sc_orb_pos", "real[N,3]")]
    add(Contract("build_hop_gen", GEN, result=("int[?]", "int[?]", "cplx[?]", "real[?,3]"),
                 requires=lambda p: [("dims", K1.nonneg_dims(p)), ("sorted", K1.vac_sorted(p)),
                                     ("hop legal", fa([(0, p.nh)], lambda h: And(0 <= p.pc_hop_ind[h, 4], p.pc_hop_ind[h, 4] < p.num_orb_pc)))],
                 callees=["_wrap_pbc", "_fast_div", "_id_pc2sc", "_id_pc2sc_vac2"],
                 ensures=gen_ens, sums=gen_sums, invs=[("gen", gen_inv)], soft={"bounds": "assume"},
                 timeout=20000, budget=400))

    # ---- fully periodic terms
    b = {}

    class PbcFacts(SumBase):
        def __init__(self, p):
            self.p = p
            self.inv = [ufn(f"src{q}", 1) for q in "abch"]

        def fl(self, *v):
            return K1.flat(self.p.dim, self.p.nh, *v)

        def axioms_at_entry(self):
            p = self.p
            d = p.dim
            return [zb(self.fl(0, 0, 0, 0) == 0), zb(self.fl(d[0], 0, 0, 0) == d[0] * d[1] * d[2] * p.nh)]

        def axioms_at_body(self, loop):
            its = [lp.it for lp in sym.E.loops if lp is not loop] + [loop.it]
            p = self.p
            if len(its) != 4:
                return []
            r = self.fl(*its)
            out = [And([self.inv[q](r) == its[q] for q in range(4)]), r >= 0]
            for k in range(3):
                j0 = its[k] + p.pc_hop_ind[its[3], k]
                out.append(And(0 <= fmod(j0, p.dim[k]), fmod(j0, p.dim[k]) < p.dim[k]))
                out.append(imp(And(0 <= j0, j0 < p.dim[k]), And(fmod(j0, p.dim[k]) == j0, fdiv(j0, p.dim[k]) == 0)))
            return [zb(x) for x in out]

        def axioms_at_step(self, loop, it, it1):
            p = self.p
            its = [lp.it for lp in sym.E.loops if lp is not loop]
            k = len(its)
            if k > 3:
                return []
            z = [0] * (3 - k)
            if k == 3:
                return [zb(self.fl(*its, it1) == self.fl(*its, it) + 1)]
            lim = [p.dim[1], p.dim[2], p.nh][k]
            return [zb(self.fl(*its, it1, *z) == self.fl(*its, it, lim, *z[1:]))]

    def pbc_sums(p):
        b["F"] = PbcFacts(p)
        return [b["F"]]

    def pbc_row(p, r, hi, hj, hv, dr):
        a, bb, c, h = [f(r) for f in b["F"].inv]
        cell = [a, bb, c]
        j0 = [cell[k] + p.pc_hop_ind[h, k] for k in range(3)]
        w = [wrap(j0[k], p.dim[k], p.pbc[k]) for k in range(3)]
        n = [fdiv(j0[k], p.dim[k]) for k in range(3)]
        bi = K1.flat(p.dim, p.num_orb_pc, a, bb, c, 0) + p.pc_hop_ind[h, 3]
        kj = K1.flat(p.dim, p.num_orb_pc, *w, 0) + p.pc_hop_ind[h, 4]
        return {"i": hi is not None and hi[r] == bi, "j": hj is not None and hj[r] == kj,
                "v": hv is not None and hv[r] == p.pc_hop_eng[h],
                "d": dr is not None and And([dr[r, q] == p.sc_orb_pos[kj, q] - p.sc_orb_pos[bi, q] + cart(n, p.sc_lattice, q) for q in range(3)])}

    def src_ok(p, r):
        v = [f(r) for f in b["F"].inv]
        return And(0 <= v[0], v[0] < p.dim[0], 0 <= v[1], v[1] < p.dim[1], 0 <= v[2], v[2] < p.dim[2], 0 <= v[3],
                   v[3] < p.nh, b["F"].fl(*v) == r)

    def pbc_ens(p, old, r):
        hi, hj, hv, dr = r
        n = p.dim[0] * p.dim[1] * p.dim[2] * p.nh
        out = [("one row per cell and term", And(hi.shape[0] == n, hj.shape[0] == n, hv.shape[0] == n, dr.shape[0] == n)),
               ("rows enumerate cells and terms", fa([(0, n)], lambda k: src_ok(p, k)))]
        for part, lab in (("i", "bra"), ("j", "ket"), ("v", "energy"), ("d", "displacement")):
            out.append((lab, fa([(0, n)], lambda k: pbc_row(p, k, hi, hj, hv, dr)[part])))
        return out

    def pbc_inv(L):
        its = iters(L, 4)
        k0 = b["F"].fl(*its)
        out = {"nn": k0 >= 0, "src": fa([(0, k0)], lambda k: src_ok(L, k))}
        for n, v in int_locals(L, ["ptr"]).items():
            out["ptr." + n] = v == k0
        for n, a in arr_locals(L, "int", 1, ["hop_i", "hop_j"]).items():
            if sym._const(zi(a.shape[0])) is not None:
                continue
            for q in "ij":
                if sym.E.broad or n == "hop_" + q:
                    out[f"{q}.{n}"] = fa([(0, k0)], lambda k: pbc_row(L, k, a, a, None, None)[q])
        for n, a in arr_locals(L, "cplx", 1, ["hop_v"]).items():
            out["v." + n] = fa([(0, k0)], lambda k: pbc_row(L, k, None, None, a, None)["v"])
        for n, a in arr_locals(L, "real", 2, ["dr"]).items():
            out["d." + n] = fa([(0, k0)], lambda k: pbc_row(L, k, None, None, None, a)["d"])
        return out

    def work_inv(L):
        its = [lp.it for lp in L.outer]
        if not its:
            return None
        out = {}
        for n, a in arr_locals(L, "int", 1, ["offset_pc_i"]).items():
            if sym._const(zi(a.shape[0])) == 4:
                out[n] = And([a[q] == its[q] for q in range(min(3, len(its)))])
                if len(its) == 3:
                    out["z" + n] = a[3] == 0
        for n in ("offset_sc_i",):
            if len(its) == 3 and L.has(n):
                out["off"] = getattr(L, n) == K1.flat(L.dim, L.num_orb_pc, *its, 0)
        return out
    add(Contract("build_hop_pbc", [("pc_hop_ind", "int[nh,5]"), ("pc_hop_eng", "cplx[nh]"), ("dim", "int[3]"),
                                   ("pbc", "int[3]"), ("num_orb_pc", "int"), ("sc_lattice", "real[3,3]"),
                                   ("sc_orb_pos", "real[N,3]")],
                 result=("int[?]", "int[?]", "cplx[?]", "real[?,3]"),
                 requires=lambda p: [("dims", K1.nonneg_dims(p)),
                                     ("periodic terms only", fa([(0, p.nh)], lambda h: And([
                                         imp(p.pbc[k] == 0, p.pc_hop_ind[h, k] == 0) for k in range(3)])))],
                 callees=["_wrap_pbc", "_fast_div", "_id_pc2sc", "_zero_rn"],
                 ensures=pbc_ens, sums=pbc_sums, invs=[("pbc", pbc_inv), ("work", work_inv)],
                 soft={"bounds": "assume"}, timeout=20000, budget=400))
