"""contracts of the element-level Fortran procedures: fortran/math.F90, csr.F90, kpm.f90, funcs.f90"""
from vk import sym, front, fort
from vk.sym import (zb, And, Or, Not, imp, ite, eq, fa, RecFn, SInt, SReal, SCplx, zi, zr, z3, fcos, fsin, fexp)
from vk.contract import Contract, Result
from vk.front import SumSet, SumBase, Skip, NS

from props.k_lind import Def

FILES = ["const.f90", "math.F90", "csr.F90", "kpm.f90", "funcs.f90", "analysis.f90"]
Z0 = SCplx(z3.RealVal(0), z3.RealVal(0))


class Spec:
    """one procedure: contract over 0-based arrays, and the adaptor that calls the translated text.
    mat: the three array parameters ip, ix, va are handed over as one sparse matrix"""

    def __init__(self, contract, adapt=None, deps=(), stubs=None, omp=None):
        self.c, self.adapt, self.deps, self.stubs = contract, adapt, deps, stubs
        self.omp = omp


def F(x, lb=1):
    return fort.FArr(x, [lb] * x.nd) if isinstance(x, sym.SArr) else x


def U(x):
    return getattr(x, "vk_arr", x)


def csr(ip, ix, va):
    m = fort.FType("sparse_matrix_t")
    m.indptr, m.indices, m.values = F(ip), F(ix), F(va)
    return m


def K(v, k):
    """value v as a number of kind k"""
    return fort.cv(k, v)


def specs():
    R = {}

    # ---------------------------------------------------------------- element-wise loops
    def elementwise(name, params, out, value, ko):
        """out: name of the array parameter that is overwritten, or None (a new array is returned);
        value(p, o, x): element x of it"""
        st = {}

        def req(p):
            st["x"] = SInt(z3.Int("at_x"))
            return [("entry", And(0 <= st["x"], st["x"] < p.n))]

        def same(a, w):
            return a == K(w, ko)

        def inv(L):
            x, p, o = st["x"], L.params, L.old
            r = {}
            if out:
                a = getattr(p, out)
                r["done"] = a[x] == ite(x < L.it, lambda: K(value(p, o, x), ko), lambda: getattr(o, out)[x])
            else:
                for n, a in front.arr_locals(L, ko, 1).items():
                    r["done." + n] = imp(x < L.it, lambda: same(a[x], value(p, o, x)))
            return r

        def ens(p, o, r):
            x = st["x"]
            a = getattr(p, out) if out else U(r)
            e = [("value of every element", same(a[x], value(p, o, x)))]
            if not out:
                e.append(("length", a.shape[0] == p.n))
            return e
        R[name] = Spec(Contract(name, params, requires=req, ensures=ens, modifies=[out] if out else [], invs=[("el", inv)], timeout=4000, budget=60))

    d, z = "real[n]", "cplx[n]"
    for s, k, kk in (("d", d, "real"), ("z", z, "cplx")):
        elementwise(f"vav_{s}", [("x", k), ("y", k)], None, lambda p, o, i: p.x[i] + p.y[i], kk)
        elementwise(f"vsv_{s}", [("x", k), ("y", k)], None, lambda p, o, i: p.x[i] - p.y[i], kk)
        elementwise(f"{s}vm{s}v", [("x", k), ("y", k)], None, lambda p, o, i: p.x[i] * p.y[i], kk)
        elementwise(f"{s}vd{s}v", [("x", k), ("y", k)], None, lambda p, o, i: p.x[i] / p.y[i], kk)
        elementwise(f"copy_{s}", [("x", k)], None, lambda p, o, i: p.x[i], kk)
    for a, k in (("d", "d"), ("d", "z"), ("z", "z")):
        ka, kv, kk = {"d": "real", "z": "cplx"}[a], {"d": d, "z": z}[k], {"d": "real", "z": "cplx"}[k]
        elementwise(f"{a}sm{k}v", [("a", ka), ("x", kv)], None, lambda p, o, i: p.a * p.x[i], kk)
        elementwise(f"{a}sm{k}v_self", [("a", ka), ("x", kv)], "x", lambda p, o, i: p.a * o.x[i], kk)
        elementwise(f"{k}vd{a}s", [("x", kv), ("b", ka)], None, lambda p, o, i: p.x[i] / p.b, kk)
        elementwise(f"{k}vd{a}s_self", [("x", kv), ("b", ka)], "x", lambda p, o, i: o.x[i] / p.b, kk)
        s = a if a == k else a + k
        elementwise(f"axpy_{s}", [("a", ka), ("x", kv), ("y", kv)], "y", lambda p, o, i: p.a * p.x[i] + o.y[i], kk)
        elementwise(f"axpby_{s}", [("a", ka), ("x", kv), ("b", ka), ("y", kv)], "y", lambda p, o, i: p.a * p.x[i] + p.b * o.y[i], kk)
    elementwise("axpbypcz", [("a", "real"), ("x", z), ("b", "real"), ("y", z), ("c", "real"), ("z", z)], None,
                lambda p, o, i: p.a * p.x[i] + p.b * p.y[i] + p.c * p.z[i], "cplx")
    elementwise("axpbypz", [("a", "cplx"), ("x", z), ("b", "real"), ("y", z), ("z", z)], "z",
                lambda p, o, i: p.a * p.x[i] + p.b * p.y[i] + o.z[i], "cplx")

    # ---------------------------------------------------------------- sparse matrix times vector
    def spmv(name, ka, mode):
        """mode: 'mv' out = A in; 'amv' out = a A in; 'xpy' out += a A in; 'xpby' out = a A in + b out"""
        st = {}
        params = ([] if mode == "mv" else [("a", ka)]) + [("ip", "int[n1]"), ("ix", "int[nnz]"), ("va", "cplx[nnz]"), ("v", "cplx[n]")]
        params += [("b", ka)] if mode == "xpby" else []
        params += [("y", "cplx[n]")] if mode in ("xpy", "xpby") else []

        def req(p):
            st["r"] = SInt(z3.Int("at_row"))
            return [("rows", p.n1 == p.n + 1), ("row", And(0 <= st["r"], st["r"] < p.n)),
                    ("pointers", fa([(0, p.n)], lambda r: And(0 <= p.ip[r], p.ip[r] <= p.ip[r + 1], p.ip[r + 1] <= p.nnz))),
                    ("columns", fa([(0, p.nnz)], lambda j: And(0 <= p.ix[j], p.ix[j] < p.n)))]

        def base(p, o, r):
            if mode == "xpy":
                return o.y[r]
            if mode == "xpby":
                return p.b * o.y[r]
            return Z0

        def sums(p):
            al = (lambda x: x) if mode == "mv" else (lambda x: p.a * x)
            o = NS(getattr(sym.E, "old", None) or {})
            st["S"] = RecFn("rowsum", "cplx", 1, lambda r: 0j, lambda t, pr, r: pr + al(p.va[p.ip[r] + t] * p.v[p.ix[p.ip[r] + t]]))
            return [SumSet([st["S"]], when=lambda loop: len([lp for lp in sym.E.loops if lp is not loop]) == 1)]

        def total(p, o, r):
            return st["S"](p.ip[r + 1] - p.ip[r], r) + base(p, o, r)

        def outs(L):
            p = L.params
            if mode in ("xpy", "xpby"):
                return {"y": p.y}
            return front.arr_locals(L, "cplx", 1)

        def inv(L):
            p, o, r = L.params, L.old, st["r"]
            res = {}
            for n, a in outs(L).items():
                if L.depth == 0:
                    res["rows." + n] = a[r] == ite(r < L.it, lambda: total(p, o, r), lambda: o.y[r] if mode in ("xpy", "xpby") else Z0)
                elif L.depth == 1:
                    i = L.outer[0].it
                    res["others." + n] = imp(Not(r == i), lambda: a[r] == ite(
                        r < i, lambda: total(p, o, r), lambda: o.y[r] if mode in ("xpy", "xpby") else Z0))
                    res["row." + n] = imp(r == i, lambda: a[r] == st["S"](L.it, r) + base(p, o, r))
            if L.depth == 1:
                # the same total carried in a scalar (accumulator variants of the loop)
                i = L.outer[0].it
                for n in L.mod:
                    v = getattr(L, n) if L.has(n) else None
                    if sym.kind(v) == "cplx":
                        res["acc." + n] = imp(r == i, lambda: v + Z0 == st["S"](L.it, r) + base(p, o, r))
                        res["acc0." + n] = imp(r == i, lambda: v + Z0 == st["S"](L.it, r))
                        for m, a in outs(L).items():
                            res[f"keep.{n}.{m}"] = imp(r == i, lambda: a[r] == (o.y[r] if mode in ("xpy", "xpby") else Z0))
            return res

        def ens(p, o, r):
            a = p.y if mode in ("xpy", "xpby") else U(r)
            e = [("row of the product", a[st["r"]] == total(p, o, st["r"]))]
            if r is not None:
                e.append(("length", a.shape[0] == p.n))
            return e

        def adapt(f):
            def go(*a):
                a = list(a)
                q = 0 if mode == "mv" else 1
                return f(*a[:q], csr(*a[q:q + 3]), *[F(x) for x in a[q + 3:]])
            return go
        R[name] = Spec(Contract(name, params, requires=req, sums=sums, ensures=ens, modifies=["y"] if mode in ("xpy", "xpby") else [],
                                invs=[("mv", inv)], timeout=6000, budget=90), adapt=adapt)
    spmv("csr_mv", None, "mv")
    for s, k in (("d", "real"), ("z", "cplx")):
        spmv(f"amv_{s}", k, "amv")
        spmv(f"amxpy_{s}", k, "xpy")
        spmv(f"amxpby_{s}", k, "xpby")

    # ---------------------------------------------------------------- operator coefficients
    C1 = SCplx(z3.RealVal(0), z3.RealVal(1))
    elementwise("current_coefficient", [("hop", z), ("dr", d), ("n_hop", "int"), ("value", "real"), ("cur_coefs", z)], "cur_coefs",
                lambda p, o, i: C1 * p.value * p.hop[i] * p.dr[i], "cplx")
    c = R["current_coefficient"].c
    r0 = c.requires
    c.requires = lambda p: r0(p) + [("number of hoppings", p.n_hop == p.n)]

    def two(name, params, outs, values, extra):
        st = {}

        def req(p):
            st["x"] = SInt(z3.Int("at_x"))
            return [("entry", And(0 <= st["x"], st["x"] < p.n))] + extra(p)

        def inv(L):
            return {q: getattr(L.params, q)[st["x"]] == ite(st["x"] < L.it, lambda: v(L.params, st["x"]), lambda: getattr(L.old, q)[st["x"]])
                    for q, v in zip(outs, values)}
        R[name] = Spec(Contract(name, params, requires=req, modifies=outs, invs=[("el", inv)], timeout=5000, budget=60,
                                ensures=lambda p, o, r: [(q, getattr(p, q)[st["x"]] == v(p, st["x"])) for q, v in zip(outs, values)]))

    def arg(p, i):
        return p.q_point[0] * p.site_x[i] + p.q_point[1] * p.site_y[i] + p.q_point[2] * p.site_z[i]
    two("density_coef", [("n_wf", "int"), ("site_x", d), ("site_y", d), ("site_z", d), ("q_point", "real[3]"), ("s_density_q", z), ("s_density_min_q", z)],
        ["s_density_q", "s_density_min_q"],
        [lambda p, i: SCplx(zr(fcos(arg(p, i))), zr(fsin(arg(p, i)))), lambda p, i: SCplx(zr(fcos(arg(p, i))), -zr(fsin(arg(p, i))))],
        lambda p: [("size", p.n_wf == p.n)])

    # ---------------------------------------------------------------- Fermi function, Green function, kernels
    def fermi(p, e):
        return 1.0 / (1.0 + fexp(p.beta * (e - p.mu)))

    def f_lemma(p):
        a = p.beta * (p.energy - p.mu)
        return [fexp(a) * fexp(p.beta * (p.mu - p.energy)) == 1, fexp(a) > 0]
    R["fermi_dist"] = Spec(Contract("fermi_dist", [("beta", "real"), ("mu", "real"), ("energy", "real"), ("eps", "real")], result="real", lemmas=f_lemma,
                                    ensures=lambda p, o, r: [("Fermi-Dirac distribution", r == fermi(p, p.energy))], timeout=10000))

    st = {}

    def g_sums(p):
        E = SCplx(zr(p.energy), zr(p.delta))
        st["G"] = RecFn("G", "cplx", 0, lambda: 0j, lambda t, pr: SCplx(z3.RealVal(1), z3.RealVal(0)) / (E - p.a[p.n_depth - 1 - t] - p.b[p.n_depth - 1 - t] * p.b[p.n_depth - 1 - t] * pr))
        return [SumSet([st["G"]])]
    R["green_function"] = Spec(Contract(
        "green_function", [("energy", "real"), ("delta", "real"), ("a", "cplx[n]"), ("b", "real[n]"), ("n_depth", "int"), ("g00", "cplx")],
        requires=lambda p: [("depth", And(0 <= p.n_depth, p.n_depth <= p.n))], sums=g_sums, result="cplx",
        invs=[("g", lambda L: {n: getattr(L, n) + Z0 == st["G"](L.it) for n in L.mod if L.has(n) and sym.kind(getattr(L, n)) == "cplx"})],
        ensures=lambda p, o, r: [("continued fraction", r[0] + Z0 == st["G"](p.n_depth))], timeout=20000, budget=120))

    js = {}

    def jk(p, k):
        q = sym.PI / p.n_kernel
        return ((p.n_kernel - k) * fcos(q * k) + fcos(q) / fsin(q) * fsin(q * k)) / p.n_kernel

    def j_req(p):
        js["x"] = SInt(z3.Int("at_x"))
        return [("size", And(1 <= p.n_kernel, p.n_kernel <= p.n)), ("entry", And(0 <= js["x"], js["x"] < p.n_kernel)), ("sine", Not(fsin(sym.PI / p.n_kernel) == 0))]

    def jv(p, x):
        return ite(x == 0, lambda: SReal(z3.RealVal("1/2")), lambda: jk(p, x))
    R["jackson_kernel"] = Spec(Contract("jackson_kernel", [("g_j", "real[n]"), ("n_kernel", "int")], requires=j_req, modifies=["g_j"],
                                        invs=[("j", lambda L: {"done": imp(js["x"] < L.loopvar, lambda: L.params.g_j[js["x"]] == jv(L.params, js["x"]))})],
                                        ensures=lambda p, o, r: [("Jackson kernel, first element halved", p.g_j[js["x"]] == jv(p, js["x"]))], timeout=10000, budget=100))

    gs = {}

    def gv(p, i, j):
        sx, cx = fsin(p.x), fcos(p.x)
        ej = SCplx(zr(fcos(p.x * j)), zr(fsin(p.x * j)))
        ei = SCplx(zr(fcos(p.x * i)), -zr(fsin(p.x * i)))
        return SCplx(zr(cx), -zr(sx * j)) * fcos(i * p.x) * ej + SCplx(zr(cx), zr(sx * i)) * fcos(j * p.x) * ei

    def g_req(p):
        gs["i"], gs["j"] = SInt(z3.Int("at_i")), SInt(z3.Int("at_j"))
        return [("size", And(0 <= p.n_kernel, p.n_kernel == p.n)), ("entry", And(0 <= gs["i"], gs["i"] < p.n, 0 <= gs["j"], gs["j"] < p.n))]

    def g_inv(L):
        i, j = gs["i"], gs["j"]
        done = j < L.loopvar if L.depth == 0 else Or(j < L.outer[0].value(L.outer[0].it), And(j == L.outer[0].value(L.outer[0].it), i < L.loopvar))
        return {"done": imp(done, lambda: L.params.gamma_mn[i, j] == gs["E"](i, j))}

    def g_sums(p):
        gs["E"] = Def("gamma", 2, lambda i, j: gv(p, i, j), 2, args=lambda v: [v[1], v[0]])
        return [gs["E"]]
    R["get_gamma_mn"] = Spec(Contract("get_gamma_mn", [("x", "real"), ("n_kernel", "int"), ("gamma_mn", "cplx[n,n]")], requires=g_req, modifies=["gamma_mn"],
                                      sums=g_sums, invs=[("g", g_inv)], ensures=lambda p, o, r: [("Gamma_mn", p.gamma_mn[gs["i"], gs["j"]] == gs["E"](gs["i"], gs["j"]))],
                                      timeout=10000, budget=100, rewrite=True))

    # Chebyshev coefficients of the Fermi operator
    fs = {}

    def fch(one_minus):
        def f_at(p, i):
            v = fermi(p, fcos(2 * sym.PI / p.nr * i))
            return 1 - v if one_minus else v

        def req(p):
            fs["p"] = p
            fs["x"] = SInt(z3.Int("at_x"))
            fs["D"] = sym.SArr("cplx", [p.nr], name="DFT_of_samples")
            fs["kern"] = sym.SArr("real", [p.nr], name="jackson_kernel_values")
            return [("size", And(2 <= p.nr, p.nr % 2 == 0, p.m == p.nr)), ("entry", And(0 <= fs["x"], fs["x"] < p.nr))]
        return f_at, req

    def cheb(om):
        f_at, req = fch(om)
        name = "get_fermi_cheb_coef"

        def adapt(f):
            def go(cheb_coef, nr, beta, mu, eps):
                return f(F(cheb_coef), 0, nr, beta, mu, om, eps)
            return go

        def stubs(ns):
            def fermi_dist(beta, ef, energy, eps):
                return 1.0 / (1.0 + fexp(beta * (energy - ef)))

            def fft(x, sgn):
                p, e = fs["p"], sym.E
                a = x.arr
                e.spec_depth += 1
                ok = And(a[fs["x"]] == K(f_at(p, fs["x"]), "cplx"), a.shape[0] == p.nr, sgn == -1)
                e.spec_depth -= 1
                e.oblige(zb(ok), "call fft1d_inplace requires the samples of the function", cls="requires")
                a.havoc(e.fresh_name("x"))
                e.touch(a)
                e.assume(zb(fa([(0, p.nr)], lambda i: a[i] == fs["D"][i])))

            def jack(g, n):
                p, e = fs["p"], sym.E
                e.oblige(zb(And(n * 2 == p.nr)), "call jackson_kernel requires half the number of samples", cls="requires")
                g.arr.havoc(e.fresh_name("g"))
                e.touch(g.arr)
                e.assume(zb(fa([(0, n)], lambda i: g.arr[i] == fs["kern"][i])))
            return {"fermi_dist": fermi_dist, "fft1d_inplace": fft, "jackson_kernel": jack}

        def coef(p, i):
            return fs["kern"][i] * fs["D"][i].real / (p.nr // 2)

        def small(p, i):
            c = p.cheb_coef
            lo = lambda v: And(v < p.eps, -v < p.eps)
            return And(lo(c[i]), lo(c[i + 1]))

        def inv(L):
            p, x = L.params, fs["x"]
            out = {}
            for n, a in front.arr_locals(L, "cplx", 1).items():
                out["samples." + n] = imp(x < L.it, lambda: a[x] == K(f_at(p, x), "cplx"))
            out["coef"] = fa([(0, L.it)], lambda i: p.cheb_coef[i] == coef(p, i))
            out["coefs"] = fa([(0, p.nr // 2)], lambda i: p.cheb_coef[i] == coef(p, i))
            for n, v in front.int_locals(L).items():
                out["keep." + n] = v == p.nr // 2
            out["above"] = fa([(0, L.it)], lambda i: Not(small(p, i)))
            return out

        def ens(p, o, r):
            n = r[0]
            return [("coefficients", fa([(0, p.nr // 2)], lambda i: p.cheb_coef[i] == coef(p, i))),
                    ("cut where two neighbouring coefficients are negligible",
                     And(1 <= n, n <= p.nr // 2, Or(small(p, n - 1), n == p.nr // 2), fa([(0, n - 1)], lambda i: Not(small(p, i)))))]
        R[f"{name} ({'1 - F' if om else 'F'})"] = Spec(
            Contract(name, [("cheb_coef", "real[m]"), ("nr", "int"), ("beta", "real"), ("mu", "real"), ("eps", "real")],
                     requires=req, ensures=ens, modifies=["cheb_coef"], invs=[("c", inv)], timeout=10000, budget=150), adapt=adapt, stubs=stubs)
    cheb(False)
    cheb(True)

    # ---------------------------------------------------------------- Kubo-Bastin integral
    ks = {}
    Rl, Ii = z3.RealSort(), z3.IntSort()
    GR, GI = z3.Function("Gamma.re", Rl, Ii, Ii, Rl), z3.Function("Gamma.im", Rl, Ii, Ii, Rl)

    def gam(x, i, j):
        return SCplx(GR(zr(x), zi(i), zi(j)), GI(zr(x), zi(i), zi(j)))

    def k_req(p):
        ks["x"] = SInt(z3.Int("at_mu"))
        ks["p"] = p
        return [("sizes", And(p.ne >= 1, p.n == p.n_kernel, p.nm == p.n_mu, p.n >= 1)), ("entry", And(0 <= ks["x"], ks["x"] < p.n_mu))]

    def k_sums(p):
        dE = sym.PI / p.ne
        ks["S2"] = RecFn("KB2", "real", 2, lambda k, j: SReal(z3.RealVal(0)), lambda i, pr, k, j: pr + ks["T"](k, j, i))
        ks["T"] = Def("KBt", 3, lambda k, j, i: (gam((k + 1) * dE, i, j) * p.mu_mn[i, j]).real, 3, args=lambda v: [v[0] - 1, v[1] - 1, v[2] - 1], k="real")
        ks["S1"] = RecFn("KB1", "real", 1, lambda k: SReal(z3.RealVal(0)), lambda j, pr, k: pr + ks["S2"](p.n, k, j))
        ks["W"] = Def("KBw", 2, lambda i, k: ks["S1"](p.n, k) * (1.0 / (1.0 + fexp(p.beta * (fcos((k + 1) * dE) * p.h_rescale - p.mu[i])))) * dE
                      / (fsin((k + 1) * dE) * fsin((k + 1) * dE) * fsin((k + 1) * dE)), 2, args=lambda v: [v[0] - 1, v[1] - 1], k="real")
        ks["D"] = RecFn("KBd", "real", 1, lambda i: SReal(z3.RealVal(0)), lambda k, pr, i: pr + ks["W"](i, k))
        dep = lambda *q: (lambda loop: len([lp for lp in sym.E.loops if lp is not loop]) in q)
        return [ks["T"], ks["W"], SumSet([ks["S2"]], dep(2)), SumSet([ks["S1"], ks["D"]], dep(1))]

    def k_inv(L):
        p, out = L.params, {}
        dE = sym.PI / p.ne
        t = L.it if L.depth == 0 else L.outer[0].it
        for n, a in front.arr_locals(L, "real", 1, prefer=("energy",)).items():
            out["en." + n] = fa([(0, t)], lambda k: a[k] == (k + 1) * dE)
            out["enall." + n] = fa([(0, p.ne - 1)], lambda k: a[k] == (k + 1) * dE)
        for n, a in front.arr_locals(L, "real", 1, prefer=("sum_gamma_mu",)).items():
            out["sg." + n] = fa([(0, t)], lambda k: a[k] == ks["S1"](p.n, k))
            out["sgall." + n] = fa([(0, p.ne - 1)], lambda k: a[k] == ks["S1"](p.n, k))
        x = ks["x"]
        if L.depth == 0:
            out["cond"] = p.cond[x] == ite(x < L.it, lambda: ks["D"](p.ne - 1, x), lambda: SReal(z3.RealVal(0)))
            out["cond0"] = p.cond[x] == SReal(z3.RealVal(0))
        else:
            k = L.outer[0].it
            for n, a in front.arr_locals(L, "cplx", 2).items():
                out["gam." + n] = fa([(0, p.n), (0, p.n)], lambda i, j: a[i, j] == gam((k + 1) * dE, i, j))
            for n, a in front.arr_locals(L, "real", 1, prefer=("energy",)).items():
                out["cur." + n] = a[k] == (k + 1) * dE
            for n in L.mod:
                v = getattr(L, n) if L.has(n) else None
                if sym.kind(v) in ("real", "int"):
                    if L.depth == 1:
                        if sym.E.broad or n != "dcx":
                            out["s1." + n] = v + 0.0 == ks["S1"](L.it, k)
                        if sym.E.broad or n != "sum":
                            out["d." + n] = v + 0.0 == ks["D"](L.it, k)
                    if L.depth == 2:
                        out["s2." + n] = v + 0.0 == ks["S1"](L.outer[1].it, k) + ks["S2"](L.it, k, L.outer[1].it)
        return out

    def k_stubs(ns):
        def gg(x, n, g):
            e = sym.E
            e.oblige(zb(n == ks["p"].n), "call get_gamma_mn requires the kernel size", cls="requires")
            g.arr.havoc(e.fresh_name("gamma"))
            e.touch(g.arr)
            e.assume(zb(fa([(0, n), (0, n)], lambda i, j: g.arr[i, j] == gam(x, i, j))))
        return {"get_gamma_mn": gg, "fermi_dist": lambda beta, ef, energy, eps: 1.0 / (1.0 + fexp(beta * (energy - ef)))}

    def k_adapt(f):
        def go(mu_mn, n_kernel, mu, n_mu, h_rescale, beta, ne, prec, rank, cond):
            return f(F(mu_mn), n_kernel, F(mu), n_mu, h_rescale, beta, ne, prec, rank, F(cond))
        return go
    R["cond_from_trace"] = Spec(Contract(
        "cond_from_trace", [("mu_mn", "cplx[n,n]"), ("n_kernel", "int"), ("mu", "real[nm]"), ("n_mu", "int"), ("h_rescale", "real"), ("beta", "real"),
                            ("ne", "int"), ("prec", "real"), ("rank", "int"), ("cond", "real[nm]")],
        requires=k_req, sums=k_sums, modifies=["cond"], invs=[("kb", k_inv)], timeout=8000, budget=240,
        ensures=lambda p, o, r: [("Kubo-Bastin integral", p.cond[ks["x"]] == ks["D"](p.ne - 1, ks["x"]))]), adapt=k_adapt, stubs=k_stubs)
    return R


def _plain(spec):
    def mk(f):
        def go(*a):
            return f(*[F(x) for x in a])
        return go
    return mk


def prove(src, key):
    s = specs()[key]
    try:
        u = fort.load_unit(src, FILES)
        name = s.c.name
        if name not in u.procs:
            raise sym.Unsupported(f"procedure {name} not found")
        ns = fort.load(src, [name], unit=u, extra=s.stubs(None) if s.stubs else None)
        f = ns[fort.pyid(name)]
        g = (s.adapt or _plain(s))(f)
        if s.adapt is None:
            if len(u.procs[name].args) != len(s.c.params):
                raise sym.Unsupported(f"signature of {name} changed")
        r = s.c.verify(ns, fn=g)
        fort.add_omp(r, u, [name])
    except sym.Unsupported as ex:
        r = Result(key)
        r.unsupported = str(ex)
    r.name = f"{key} (Fortran)"
    return r


def tasks(src, names=None):
    return [(f"{n} (Fortran)", (lambda n=n: prove(src, n))) for n in (names or specs())]


KERNELS = ["current_coefficient", "density_coef", "fermi_dist", "green_function", "jackson_kernel", "get_gamma_mn", "get_fermi_cheb_coef (F)",
           "get_fermi_cheb_coef (1 - F)", "cond_from_trace"]
LINALG = [k for k in specs() if k not in KERNELS]
