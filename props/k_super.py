"""Contracts on tbplas/cython/super.pyx (index conversion, supercell construction)."""
from vk import sym, front
from vk.sym import (zb, And, Or, Not, imp, ite, eq, fa, ex, RecFn, SInt, SBool, SArr, SReal, SCplx, zi, z3)
from vk.contract import Contract, Lemma
from vk.front import int_locals, arr_locals, iters, SumSet, SumBase, Skip

PATH = "tbplas/cython/super.pyx"


def flat_poly(d, no, a, b, c, o):
    return ((a * d[1] + b) * d[2] + c) * no + o


_FL = z3.Function("flat", *([z3.IntSort()] * 8))


def flat(d, no, a, b, c, o):
    """the numbering: abstract in the callers (only the lemmas of FLAT_LEMMAS are used there)"""
    if sym.E is None:
        return flat_poly(d, no, a, b, c, o)
    return SInt(_FL(*[zi(v) for v in (d[1], d[2], no, a, b, c, o)]))


class FlatFacts(SumBase):
    """instances of FLAT_LEMMAS along a nest of loops over (a, b, c, o)"""

    def __init__(self, p):
        self.p = p

    def axioms_at_entry(self):
        p = self.p
        d, no = p.dim, p.num_orb_pc
        f = [zb(flat(d, no, 0, 0, 0, 0) == 0), zb(flat(d, no, d[0], 0, 0, 0) == total(p))]
        its = [lp.it for lp in sym.E.loops]
        return f + self._body(its)

    def _body(self, its):
        p = self.p
        d, no = p.dim, p.num_orb_pc
        if len(its) in (3, 4):
            v = its + [0] * (4 - len(its))
            x = flat(d, no, *v)
            return [zb(imp(in_box(p, v), And(0 <= x, x < total(p))))]
        return []

    def axioms_at_body(self, loop):
        return self._body([lp.it for lp in sym.E.loops if lp is not loop] + [loop.it])

    def axioms_at_step(self, loop, it, it1):
        p = self.p
        d, no = p.dim, p.num_orb_pc
        its = [lp.it for lp in sym.E.loops if lp is not loop]
        k = len(its)
        out = []
        if k > 3:
            return out
        z = [0] * (3 - k)
        if k == 3:
            out.append(flat(d, no, *its, it1) == flat(d, no, *its, it) + 1)
        else:
            lim = [d[1], d[2], no][k]
            out.append(flat(d, no, *its, it1, *z) == flat(d, no, *its, it, lim, *z[1:]))
        return [zb(f) for f in out] + self._body(its + [it])


def flat_lemmas():
    """proved once about the polynomial, used as instances above"""
    P = [("dim", "int[3]"), ("num_orb_pc", "int"), ("a", "int"), ("b", "int"), ("c", "int"), ("o", "int"),
         ("a2", "int"), ("b2", "int"), ("c2", "int"), ("o2", "int")]

    def f(p, *v):
        return flat_poly(p.dim, p.num_orb_pc, *v)

    def box(p, v):
        return And(nonneg_dims(p), in_box(p, v))
    ls = []
    ls.append(Lemma("numbering: recursion", P, lambda p: [("dims", nonneg_dims(p))], lambda p: [
        ("start", f(p, 0, 0, 0, 0) == 0), ("end", f(p, p.dim[0], 0, 0, 0) == total(p)),
        ("o", f(p, p.a, p.b, p.c, p.o + 1) == f(p, p.a, p.b, p.c, p.o) + 1),
        ("c", f(p, p.a, p.b, p.c + 1, 0) == f(p, p.a, p.b, p.c, p.num_orb_pc)),
        ("b", f(p, p.a, p.b + 1, 0, 0) == f(p, p.a, p.b, p.dim[2], 0)),
        ("a", f(p, p.a + 1, 0, 0, 0) == f(p, p.a, p.dim[1], 0, 0))]))

    def radix(name, lo):
        """digit lemma used twice: 0<=y<n, 0<=x<m  =>  0 <= x*n+y < m*n, and uniqueness"""
        return name
    D = [("x", "int"), ("y", "int"), ("x2", "int"), ("y2", "int"), ("m", "int"), ("n", "int")]
    ls.append(Lemma("digit: range", D, lambda p: [("r", And(0 <= p.x, p.x < p.m, 0 <= p.y, p.y < p.n))],
                    lambda p: [("low", p.x * p.n + p.y >= 0), ("high", p.x * p.n + p.y < p.m * p.n)]))
    ls.append(Lemma("digit: unique", D, lambda p: [("r", And(0 <= p.y, p.y < p.n, 0 <= p.y2, p.y2 < p.n,
                                                             p.x * p.n + p.y == p.x2 * p.n + p.y2))],
                    lambda p: [("x", p.x == p.x2), ("y", p.y == p.y2)]))
    ls.append(Lemma("digit: order", D, lambda p: [("r", And(0 <= p.y, p.y < p.n, 0 <= p.y2, p.y2 < p.n,
                                                            p.x * p.n + p.y < p.x2 * p.n + p.y2))],
                    lambda p: [("lexicographic", Or(p.x < p.x2, And(p.x == p.x2, p.y < p.y2)))]))

    # composition: the numbering is built from three digits, so range / uniqueness / order carry over
    def comp(p):
        q1, q2 = p.a * p.dim[1] + p.b, p.a2 * p.dim[1] + p.b2
        r1, r2 = q1 * p.dim[2] + p.c, q2 * p.dim[2] + p.c2
        return q1, q2, r1, r2

    def dig_facts(p):
        """instances of the digit lemmas (proved above)"""
        q1, q2, r1, r2 = comp(p)
        out = []
        for (x, y, x2, y2, m, n) in ((p.a, p.b, p.a2, p.b2, p.dim[0], p.dim[1]),
                                     (q1, p.c, q2, p.c2, p.dim[0] * p.dim[1], p.dim[2]),
                                     (r1, p.o, r2, p.o2, p.dim[0] * p.dim[1] * p.dim[2], p.num_orb_pc)):
            out.append(imp(And(0 <= x, x < m, 0 <= y, y < n), And(x * n + y >= 0, x * n + y < m * n)))
            g = And(0 <= y, y < n, 0 <= y2, y2 < n)
            out.append(imp(And(g, x * n + y == x2 * n + y2), And(x == x2, y == y2)))
            out.append(imp(And(g, x * n + y < x2 * n + y2), Or(x < x2, And(x == x2, y < y2))))
        return out
    one = [("dims", None)]

    def req2(p):
        return [("box", And(box(p, (p.a, p.b, p.c, p.o)), box(p, (p.a2, p.b2, p.c2, p.o2)))),
                ("digits", And(dig_facts(p)))]
    ls.append(Lemma("numbering: range", P, req2, lambda p: [
        ("range", And(f(p, p.a, p.b, p.c, p.o) >= 0, f(p, p.a, p.b, p.c, p.o) < total(p)))]))
    ls.append(Lemma("numbering: injective", P, lambda p: req2(p) + [
        ("equal", f(p, p.a, p.b, p.c, p.o) == f(p, p.a2, p.b2, p.c2, p.o2))],
        lambda p: [("same", And(p.a == p.a2, p.b == p.b2, p.c == p.c2, p.o == p.o2))]))
    ls.append(Lemma("numbering: lexicographic order", P, lambda p: req2(p) + [
        ("less", f(p, p.a, p.b, p.c, p.o) < f(p, p.a2, p.b2, p.c2, p.o2))],
        lambda p: [("order", Or(p.a < p.a2, And(p.a == p.a2, Or(p.b < p.b2, And(p.b == p.b2, Or(
            p.c < p.c2, And(p.c == p.c2, p.o < p.o2)))))))]))
    V = [("vac_id_sc", "int[nv]"), ("x", "int"), ("x2", "int"), ("r", "int"), ("r2", "int")]
    # renumbering with vacancies: unique position, order preserving, injective
    ls.append(Lemma("vacancies: position unique", V, lambda p: [
        ("sorted", vac_sorted(p)), ("rel", And(rank_rel(p.vac_id_sc, p.nv, p.x, p.r),
                                               rank_rel(p.vac_id_sc, p.nv, p.x, p.r2)))],
        lambda p: [("same", p.r == p.r2)]))
    ls.append(Lemma("vacancies: order preserving and injective", V, lambda p: [
        ("sorted", vac_sorted(p)), ("rel", And(rank_rel(p.vac_id_sc, p.nv, p.x, p.r),
                                               rank_rel(p.vac_id_sc, p.nv, p.x2, p.r2), p.x < p.x2))],
        lambda p: [("order", p.r < p.r2)]))
    ls.append(Lemma("vacancies: a position excludes being a vacancy", V, lambda p: [
        ("sorted", vac_sorted(p)), ("rel", rank_rel(p.vac_id_sc, p.nv, p.x, p.r))],
        lambda p: [("none", fa([(0, p.nv)], lambda k: Not(p.vac_id_sc[k] == p.x))), ("nonneg", imp(p.x >= 0, p.r >= 0))]))
    return ls


def flat4(p, v):
    return flat(p.dim, p.num_orb_pc, v[0], v[1], v[2], v[3])


def nonneg_dims(p):
    return And(p.dim[0] >= 1, p.dim[1] >= 1, p.dim[2] >= 1, p.num_orb_pc >= 1)


def total(p):
    return p.dim[0] * p.dim[1] * p.dim[2] * p.num_orb_pc


def in_box(p, v):
    return And(0 <= v[0], v[0] < p.dim[0], 0 <= v[1], v[1] < p.dim[1], 0 <= v[2], v[2] < p.dim[2],
               0 <= v[3], v[3] < p.num_orb_pc)


def vac_sorted(p, strict_range=True):
    """strictly increasing, non-negative (hence vac[k] >= k)"""
    v, n = p.vac_id_sc, p.vac_id_sc.shape[0]
    return And(fa([(0, n), (0, n)], lambda i, j: imp(i <= j, lambda: v[j] - v[i] >= j - i)),
               fa([(0, n)], lambda i: v[i] >= i))


def rank_rel(vac, nv, x, r):
    """r is the position of x once the vacancies below x are left out; x is no vacancy"""
    m = x - r
    return And(0 <= m, m <= nv,
               imp(m > 0, lambda: vac[m - 1] < x),
               imp(m < nv, lambda: vac[m] > x))


def vac_result(p, x, r):
    vac, nv = p.vac_id_sc, p.vac_id_sc.shape[0]
    return [("vacancy", imp(r == -1, lambda: ex([(0, nv)], lambda k: vac[k] == x))),
            ("rank", imp(Not(r == -1), lambda: rank_rel(vac, nv, x, r)))]


IDP = [("dim", "int[3]"), ("num_orb_pc", "int"), ("id_pc", "int[4]")]
IDV = IDP + [("vac_id_sc", "int[nv]")]


def _pc2sc_req_vac(p):
    return [("sorted", vac_sorted(p)), ("nonempty", p.vac_id_sc.shape[0] >= 1),
            ("inside", flat4(p, p.id_pc) >= 0)]


def vac_inv(L):
    """linear search: `offset` vacancies seen, all below id_sc"""
    out = {}
    for n, v in int_locals(L, ['offset']).items():
        out[n] = And(v == L.it, fa([(0, L.it)], lambda k: L.vac_id_sc[k] < L.id_sc))
    return out


def bisect_inv(L):
    out = {}
    il = int_locals(L, ['i0', 'i1', 'offset'])
    nv = L.vac_id_sc.shape[0]
    for n, v in il.items():
        if n == "i1" and not sym.E.broad:
            out["hi." + n] = And(0 <= v, v < nv, L.vac_id_sc[v] > L.id_sc)
            continue
        if n == "i0" and not sym.E.broad:
            out["lo." + n] = And(0 <= v, v < nv, L.vac_id_sc[v] < L.id_sc)
            out["lt." + n] = v < il["i1"]
            continue
        if not sym.E.broad:
            out["nn." + n] = v >= 0
            continue
        out["lo." + n] = And(0 <= v, v < nv, L.vac_id_sc[v] < L.id_sc)
        out["hi." + n] = And(0 <= v, v < nv, L.vac_id_sc[v] > L.id_sc)
        out["nn." + n] = v >= 0
        for m, w in il.items():
            if n != m:
                out[f"lt.{n}.{m}"] = v < w
    return out


def registry():
    R = {}

    def add(c):
        R[c.name] = c

    def _def(p):
        # definition of the numbering at the argument
        v = p.id_pc
        return [flat4(p, v) == flat_poly(p.dim, p.num_orb_pc, v[0], v[1], v[2], v[3])]
    add(Contract("_id_pc2sc", IDP, result="int", lemmas=_def,
                 ensures=lambda p, o, r: [("flat index", r == flat4(p, p.id_pc))]))
    add(Contract("_id_pc2sc_vac", IDV, result="int", requires=_pc2sc_req_vac, callees=["_id_pc2sc"],
                 ensures=lambda p, o, r: vac_result(p, flat4(p, p.id_pc), r), invs=[("seen", vac_inv)]))
    add(Contract("_id_pc2sc_vac2", IDV, result="int", requires=_pc2sc_req_vac, callees=["_id_pc2sc"],
                 while_cut=True,
                 ensures=lambda p, o, r: vac_result(p, flat4(p, p.id_pc), r), invs=[("bis", bisect_inv)]))

    def pc2sc_spec(p, o, r):
        nv = p.vac_id_sc.shape[0]
        x = flat4(p, p.id_pc)
        return [("no vacancies", imp(nv == 0, lambda: r == x))] + \
               [(lab, imp(nv > 0, lambda f=f: f)) for lab, f in vac_result(p, x, r)]
    add(Contract("id_pc2sc", IDV, result="int", requires=lambda p: [("sorted", vac_sorted(p)),
                                                                    ("inside", flat4(p, p.id_pc) >= 0)],
                 callees=["_id_pc2sc", "_id_pc2sc_vac2"], ensures=pc2sc_spec))

    # --- checkers
    def chk_sc(p, o, r):
        a, n, N = p.id_sc_array, p.id_sc_array.shape[0], p.num_orb_sc

        def ok(i):
            return And(0 <= a[i], a[i] < N)
        return [("status kinds", Or(r[0] == 0, r[0] == -1)),
                ("accepted iff all legal", And(imp(r[0] == 0, lambda: fa([(0, n)], lambda i: ok(i))),
                                               imp(r[0] == -1, lambda: And(0 <= r[1], r[1] < n, Not(ok(r[1])),
                                                                           fa([(0, r[1])], lambda i: ok(i))))))]

    add(Contract("check_id_sc_array", [("num_orb_sc", "int"), ("id_sc_array", "int[n]")], result="int[2]",
                 ensures=chk_sc,
                 invs=[("ok so far", lambda L: fa([(0, L.it)], lambda i: And(0 <= L.id_sc_array[i],
                                                                            L.id_sc_array[i] < L.num_orb_sc))),
                       ("status", lambda L: {n: And(a[0] == 0, a[1] == 0) for n, a in arr_locals(L, "int", 1).items()})]))

    def row(a, i):
        return [a[i, q] for q in range(4)]

    def nonvac(p, x):
        v, nv = p.vac_id_sc, p.vac_id_sc.shape[0]
        return fa([(0, nv)], lambda k: Not(v[k] == x))

    def chk_pc(p, o, r):
        a, n = p.id_pc_array, p.id_pc_array.shape[0]
        ext = [p.dim[0], p.dim[1], p.dim[2], p.num_orb_pc]

        def legal(i):
            return And(in_box(p, row(a, i)), nonvac(p, flat4(p, row(a, i))))

        def bad_comp(i, q):
            return Or([And(q == k, Not(And(0 <= a[i, k], a[i, k] < ext[k]))) for k in range(4)])
        return [("kinds", Or(r[0] == 0, r[0] == -1, r[0] == -2)),
                ("accept => all legal", imp(r[0] == 0, lambda: fa([(0, n)], lambda i: legal(i)))),
                ("index error", imp(r[0] == -2, lambda: And(0 <= r[1], r[1] < n, bad_comp(r[1], r[2]),
                                                            fa([(0, r[1])], lambda i: legal(i))))),
                ("vacancy error", imp(r[0] == -1, lambda: And(
                    0 <= r[1], r[1] < n, in_box(p, row(a, r[1])),
                    ex([(0, p.vac_id_sc.shape[0])], lambda k: p.vac_id_sc[k] == flat4(p, row(a, r[1]))),
                    fa([(0, r[1])], lambda i: legal(i)))))]

    def range_lemma(p, a, n):
        """instance of lemma 'numbering: range' for every row"""
        return fa([(0, n)], lambda i: imp(in_box(p, row(a, i)), flat4(p, row(a, i)) >= 0),
                  pats=lambda i: flat4(p, row(a, i)))
    add(Contract("check_id_pc_array", [("dim", "int[3]"), ("num_orb_pc", "int"), ("id_pc_array", "int[n,4]"),
                                       ("vac_id_sc", "int[nv]")],
                 result="int[3]", requires=lambda p: [("dims", nonneg_dims(p)), ("sorted", vac_sorted(p))],
                 lemmas=lambda p: [range_lemma(p, p.id_pc_array, p.n)],
                 callees=["_id_pc2sc_vac2"], ensures=chk_pc,
                 invs=[("ok so far", lambda L: fa([(0, L.it)], lambda i: And(
                     in_box(L, row(L.id_pc_array, i)), nonvac(L, flat4(L, row(L.id_pc_array, i)))))),
                       ("status", lambda L: {n: And(a[0] == 0, a[1] == 0, a[2] == 0)
                                             for n, a in arr_locals(L, "int", 1).items() if a.shape[0] == 3})]))

    # --- batch conversions
    add(Contract("id_sc2pc_array", [("orb_id_pc", "int[N,4]"), ("id_sc_array", "int[n]")], result="int[?,4]",
                 requires=lambda p: [("legal", fa([(0, p.n)], lambda i: And(0 <= p.id_sc_array[i],
                                                                           p.id_sc_array[i] < p.N)))],
                 ensures=lambda p, o, r: [("length", r.shape[0] == p.n)] + [
                     (f"row {q}", fa([(0, p.n)], lambda i: r[i, q] == p.orb_id_pc[p.id_sc_array[i], q]))
                     for q in range(4)],
                 invs=[("rows", lambda L: {n: fa([(0, L.it)], lambda i: And([
                     a[i, q] == L.orb_id_pc[L.id_sc_array[i], q] for q in range(4)]))
                     for n, a in arr_locals(L, "int", 2).items()})]))

    def batch(p, r, upto, i):
        nv = p.vac_id_sc.shape[0]
        x = flat4(p, row(p.id_pc_array, i))
        v = r[i]
        return And(imp(nv == 0, lambda: v == x),
                   imp(nv > 0, lambda: And([f for _, f in vac_result(p, x, v)])))

    add(Contract("id_pc2sc_array", [("dim", "int[3]"), ("num_orb_pc", "int"), ("id_pc_array", "int[n,4]"),
                                    ("vac_id_sc", "int[nv]")], result="int[?]",
                 requires=lambda p: [("sorted", vac_sorted(p)),
                                     ("inside", fa([(0, p.n)], lambda i: flat4(p, row(p.id_pc_array, i)) >= 0))],
                 callees=["_id_pc2sc", "_id_pc2sc_vac2"],
                 ensures=lambda p, o, r: [("length", r.shape[0] == p.n),
                                          ("agrees with single conversion",
                                           fa([(0, p.n)], lambda i: batch(p, r, p.n, i)))],
                 invs=[("done", lambda L: {n: fa([(0, L.it)], lambda i: batch(L, a, L.it, i))
                                           for n, a in arr_locals(L, "int", 1).items()})]))

    add(Contract("build_vac_id_sc", [("dim", "int[3]"), ("num_orb_pc", "int"), ("vac_id_pc", "int[n,4]")],
                 result="int[?]", callees=["_id_pc2sc"],
                 ensures=lambda p, o, r: [("length", r.shape[0] == p.n),
                                          ("flat", fa([(0, p.n)], lambda i: r[i] == flat4(p, row(p.vac_id_pc, i))))],
                 invs=[("done", lambda L: {n: fa([(0, L.it)], lambda i: a[i] == flat4(L, row(L.vac_id_pc, i)))
                                           for n, a in arr_locals(L, "int", 1).items()})]))

    # --- table of orbitals
    def table_inv(L):
        its = iters(L, 4)
        x = flat(L.dim, L.num_orb_pc, *its)
        nv = L.vac_id_sc.shape[0]
        vac = L.vac_id_sc
        out = {}
        for n, v in int_locals(L, ['ptr']).items():
            m = x - v
            out["ptr." + n] = And(v >= 0, 0 <= m, m <= nv, imp(m > 0, lambda: vac[m - 1] < x),
                                  imp(m < nv, lambda: vac[m] >= x))
            for an, a in arr_locals(L, "int", 2).items():
                out[f"rows.{n}.{an}"] = fa([(0, v)], lambda r: And(
                    in_box(L, row(a, r)), rank_rel(vac, nv, flat4(L, row(a, r)), r)))
        return out

    def work_inv(L):
        its = [lp.it for lp in L.outer]
        return {n: And([a[q] == its[q] for q in range(len(its))]) for n, a in arr_locals(L, "int", 1).items() if not z3.is_K(a.parts[0])} if its else None

    add(Contract("build_orb_id_pc", [("dim", "int[3]"), ("num_orb_pc", "int"), ("vac_id_sc", "int[nv]")],
                 result="int[?,4]", callees=["_id_pc2sc_vac2"], timeout=20000, budget=400,
                 requires=lambda p: [("dims", nonneg_dims(p)), ("sorted", vac_sorted(p)),
                                     ("vac in range", fa([(0, p.nv)], lambda k: p.vac_id_sc[k] < total(p)))],
                 ensures=lambda p, o, r: [("count", r.shape[0] == total(p) - p.nv),
                                          ("rows in the box", fa([(0, r.shape[0])], lambda k: in_box(p, row(r, k)))),
                                          ("inverse of the numbering", fa([(0, r.shape[0])], lambda k: rank_rel(
                                              p.vac_id_sc, p.nv, flat4(p, row(r, k)), k)))],
                 invs=[("table", table_inv), ("work", work_inv)], sums=lambda p: [FlatFacts(p)]))
    from props.k_super2 import add_hop
    add_hop(add)
    return R


def load(src):
    return front.load_pyx(f"{src}/{PATH}")


def prove(src, names):
    """-> [(name, thunk)]"""
    R = registry()

    def mk(n):
        def go():
            ns, meta, _ = load(src)
            if n not in ns:
                from vk.contract import Result
                r = Result(n)
                r.unsupported = "function not found"
                return r
            c = R[n]
            want = [a for a, _ in c.params]
            f = ns[n]
            have = list(f.__code__.co_varnames[:f.__code__.co_argcount])
            if have != want:
                from vk.contract import Result
                r = Result(n)
                r.unsupported = f"signature changed to {have}"
                return r
            c.callees = [q for q in c.callees if q in ns]
            return c.verify(ns, registry=R)
        return go
    return [(n, mk(n)) for n in names]


def lemma_tasks():
    return [("lemma " + l.name, l.verify) for l in flat_lemmas()]
