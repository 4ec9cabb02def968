"""contracts of the vector-level Fortran procedures: fortran/propagation.f90 and fortran/tbpm.f90"""
from vk import sym, front, fort, vec
from vk.sym import (zb, And, Or, Not, imp, ite, eq, fa, RecFn, SInt, SReal, SCplx, SBool, zi, zr, z3, fcos, fsin, fexp)
from vk.contract import Contract, Result
from vk.front import SumSet, SumBase, Skip, NS
from vk.vec import V, Vec, VStore, VMat, VRec, Tag, veq, veq_cols, mv, ip, norm, rand, op

FILES = ["const.f90", "math.F90", "csr.F90", "random.f90", "kpm.f90", "funcs.f90", "propagation.f90", "tbpm.f90"]
I = z3.IntSort()
C0 = SCplx(z3.RealVal(0), z3.RealVal(0))
IMG = complex(0, 1)


class VContract(Contract):
    """contract whose inputs are built by build(e) -> ({name: value}, {extra name: value})"""

    def __init__(self, name, build, **kw):
        self.build = build
        super().__init__(name, [], **kw)

    def make_params(self, e):
        vals, extra = self.build(e)
        self.params = [(n, None) for n in vals]
        d = {k: getattr(v, "vk_arr", v) for k, v in vals.items()}
        d.update(extra)
        return vals, d


class Axioms(SumBase):
    """defining equations of the sequences: at entry, and at the steps of a loop"""

    def __init__(self, entry=None, step=None, body=None):
        self.entry, self.step, self.body = entry, step, body

    def axioms_at_entry(self):
        return self.entry() if self.entry else []

    def axioms_at_step(self, loop, it, it1):
        return self.step(loop, it, it1) if self.step else []

    def axioms_at_body(self, loop):
        return self.body(loop) if self.body else []


def depth(loop):
    return len([lp for lp in sym.E.loops if lp is not loop])


def ivar(e, n, lo=None):
    v = SInt(z3.Int(n))
    if lo is not None:
        e.assume(zi(v) >= lo)
    return v


def arr(k, n, name, lb=1):
    """array parameter seen from Fortran; the contract sees the 0-based one"""
    return fort.FArr(sym.SArr(k, n if isinstance(n, list) else [n], name=name), [lb] * (len(n) if isinstance(n, list) else 1))


def extras(nwf):
    return {"nwf": nwf, "X": SInt(z3.Int("X")), "J": SInt(z3.Int("J"))}


def vnew(k, dims, name):
    """local arrays: wave functions, arrays of wave functions, described coefficient arrays, ordinary arrays"""
    e = sym.E
    nwf = e.params["nwf"]
    ub = [b for _, b in dims]

    def is_(x, y):
        return y is not None and z3.is_true(z3.simplify(zi(x) == zi(y)))
    if k == "cplx" and len(dims) == 1 and is_(ub[0], nwf):
        return VStore(name)
    if k == "cplx" and len(dims) == 2 and is_(ub[0], nwf):
        return VMat(name, 1)
    for d in e.params.get("described", ()):
        if len(dims) == 1 and is_(ub[0], d):
            return e.register_array_tag(name) if hasattr(e, "register_array_tag") else MTag(name)
    return fort.fnew(k, dims, name)


class MTag(Tag):
    """local array known by description"""

    def __init__(self, name):
        super().__init__("undefined", name)
        self.name = name
        sym.E.register_array(self)

    def havoc(self, nm):
        self.desc = ("unknown", nm)

    def snapshot(self):
        return self.desc


def loader(src, names, extra=None):
    u = fort.load_unit(src, FILES)
    ex = dict(vec.base_contracts())
    ex.update({"__fnew__": vnew, "__fop__": vec.fop, "f_abs": lambda x: sym.cabs(x) if sym.kind(x) == "cplx" and hasattr(sym, "cabs") else abs(x)})
    ex.update(extra or {})
    ns = fort.load(src, names, extra=ex, unit=u)
    return ns, u


# ------------------------------------------------------------------ propagation.f90
def prop_build(coef):
    def build(e):
        nwf, nb = ivar(e, "nwf", 1), ivar(e, "nb", 3)
        H = fort.FType("sparse_matrix_t")
        H.indptr, H.indices, H.values = Tag("ip"), Tag("ix"), Tag("hop")
        w = VStore("wf_in", vec.atom("w"))
        vals = {"h_csr": H, coef: arr("real", nb, coef), "wf_in": w}
        return vals, dict(extras(nwf), nb=nb, w=w.val, H=vec.mat_key(H))
    return build


def cheb_contract(name, coef, fwd=None):
    """sum_k c_k T_k w with T the Chebyshev-type sequence of the operator"""
    T, S = VRec("T"), VRec("S")

    def c(p, k):
        b = getattr(p, coef)[k]
        return b if fwd is None or isinstance(k, int) and k == 0 else 2 * b

    def term(p, k):
        """T_k from its two predecessors"""
        if fwd is None:
            return mv(p.H, T(k - 1)) * 2 - T(k - 2)
        return mv(p.H, T(k - 1)) * (-2 * IMG * fwd) + T(k - 2)

    def one(p):
        return mv(p.H, p.w) * (1 if fwd is None else -IMG * fwd)

    def entry():
        p = NS(sym.E.params)
        t1 = one(p)
        t2 = mv(p.H, t1) * (2 if fwd is None else -2 * IMG * fwd) + (-1 if fwd is None else 1) * p.w
        return [T.eqn(1, t1), T.eqn(2, t2), S.eqn(2, p.w * c(p, 0) + T(1) * c(p, 1) + T(2) * c(p, 2))]

    def step(loop, it, it1):
        p = NS(sym.E.params)
        k = it + 3
        return [T.eqn(k, term(p, k)), S.eqn(k, S(k - 1).vec + T(k) * c(p, k))]

    def inv(L):
        out = {}
        for n, v in L._d.items():
            if not isinstance(v, VStore) or n == "wf_in":
                continue
            if sym.E.broad or n not in ("wf_out", "p1"):
                out["prev." + n] = veq(v, T(L.it + 1))
            if sym.E.broad or n not in ("wf_out", "p0"):
                out["cur." + n] = veq(v, T(L.it + 2))
            if sym.E.broad or n not in ("p0", "p1"):
                out["sum." + n] = veq(v, S(L.it + 2))
        return out
    return VContract(name, prop_build(coef), sums=lambda p: [Axioms(entry, step)], invs=[("ch", inv)], timeout=6000, budget=120,
                     ensures=lambda p, o, r: [("Chebyshev sum", SBool(zb(eq(r.vec.el(), S(p.nb - 1).el()))))])


def haydock_contract():
    N = VRec("N")
    A = z3.Function("A.re", I, z3.RealSort()), z3.Function("A.im", I, z3.RealSort())
    B = z3.Function("B", I, z3.RealSort())

    def a_(k):
        return SCplx(A[0](zi(k)), A[1](zi(k)))

    def b_(k):
        return SReal(B(zi(k)))

    def build(e):
        nwf, nd = ivar(e, "nwf", 1), ivar(e, "n_depth", 1)
        H = fort.FType("sparse_matrix_t")
        H.indptr, H.indices, H.values = Tag("ip"), Tag("ix"), Tag("hop")
        w = VStore("n1", vec.atom("w"))
        vals = {"n1": w, "n_depth": nd, "h_csr": H, "h_rescale": SReal(z3.Real("h_rescale")), "coefa": arr("cplx", nd, "coefa"), "coefb": arr("real", nd, "coefb")}
        return vals, dict(extras(nwf), nd=nd, w=w.val, H=vec.mat_key(H), Y=SInt(z3.Int("Y")))

    def seq(p, k, v, prev):
        """defining equations: A(k) = <n|H|n>, m = H n - A(k) n - B(k-1) n', B(k) = |m|, N(k+1) = m / B(k)"""
        hv = mv(p.H, v) * p.h_rescale
        a = ip(v, hv)
        m = hv - v * a
        if prev is not None:
            m = m - prev[0] * prev[1]
        b = norm(m)
        return [zb(eq(a_(k), a)), zb(eq(b_(k), b)), N.eqn(k + 1, m / b)]

    def entry():
        p = NS(sym.E.params)
        return [N.eqn(0, p.w)] + seq(p, 0, p.w, None)

    def body(loop):
        p = NS(sym.E.params)
        k = loop.it + 1
        # the previous coefficient as the routine holds it, where that is B(k-1) (the invariant below)
        held = p.coefb[loop.it]
        return [z3.Implies(zb(held == b_(loop.it)), z3.And(*seq(p, k, N(k), (N(k - 1), held))))]

    def vals_ok(p, upto):
        y = p.Y
        return [imp(And(0 <= y, y < upto), lambda: And(p.coefa[y] == a_(y), p.coefb[y] == b_(y)))]

    def inv(L):
        p, out = L.params, {"coef": vals_ok(L.params, L.it + 1)[0]}
        out["last"] = And(p.coefb[L.it] == b_(L.it))
        for n, v in L._d.items():
            if isinstance(v, VStore):
                if sym.E.broad or n != "p2":
                    out["prev." + n] = veq(v, N(L.it))
                if sym.E.broad or n != "p1":
                    out["cur." + n] = veq(v, N(L.it + 1))
        return out
    return VContract("haydock_coef", build, requires=lambda p: [("entry", And(0 <= p.Y, p.Y < p.nd))], sums=lambda p: [Axioms(entry, None, body)],
                     invs=[("h", inv)], modifies=["coefa", "coefb"], timeout=8000, budget=200, rewrite=True,
                     ensures=lambda p, o, r: [("recursion coefficients", And(vals_ok(p, p.nd)))])


# ------------------------------------------------------------------ tbpm.f90
def U(v, mat="ip/ix/hop", coef="bes", fwd=True):
    """one propagation step, used through the contract of cheb_wf_timestep"""
    return v.vec.lin(op(f"step:{mat}|{coef}|{'+' if fwd else '-'}"))


def FD(v, coef, mat="ip/ix/hop"):
    """Fermi filter, used through the contract of fermi"""
    return v.vec.lin(op(f"fermi:{mat}|{coef}"))


def tag_of(x):
    if not isinstance(x, Tag):
        raise sym.Unsupported("array of unknown contents")
    return x.key()


class QPoints:
    k, nd = "real", 2

    def fdummy(self, k, dims):
        return self

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and ix[1] == slice(None) and not isinstance(ix[0], slice):
            return ("q", ix[0] - 1)
        raise sym.Unsupported("subscripts of the q points")


DENS = {s: z3.Function("density" + s, I, V) for s in "+-"}
NCHEB = z3.Function("n_cheb", z3.BoolSort(), I)


def stubs():
    def step(h, bes, wf, fwd):
        return U(wf, vec.mat_key(h), tag_of(bes), bool(fwd))

    def fermi(h, coef, wf):
        return FD(wf, tag_of(coef), vec.mat_key(h))

    def current_coefficient(hop, dr, n, resc, out):
        e = sym.E
        e.oblige(zb(eq(n, e.params["n_hop"])), "call current_coefficient requires the number of terms", cls="requires")
        e.oblige(zb(eq(resc, e.params["h_rescale"])), "call current_coefficient requires the scaling factor", cls="requires")
        out.become("cur", tag_of(hop), tag_of(dr))

    def get_fermi_cheb_coef(coef, n, nr, beta, mu, one_minus, prec):
        e = sym.E
        for nm, x in (("nr_fermi", nr), ("beta", beta), ("mu", mu), ("fermi_precision", prec)):
            e.oblige(zb(eq(x, e.params[nm])), f"call get_fermi_cheb_coef requires the given {nm}", cls="requires")
        om = bool(one_minus)
        coef.become("1-F" if om else "F")
        return (SInt(NCHEB(z3.BoolVal(om))),)

    def density_coef(n, x, y, z, q, s, ms):
        e = sym.E
        e.oblige(zb(eq(n, e.params["nwf"])), "call density_coef requires the number of orbitals", cls="requires")
        if (tag_of(x), tag_of(y), tag_of(z)) != ("site_x", "site_y", "site_z"):
            e.oblige(z3.BoolVal(False), "call density_coef requires the coordinates x, y, z", cls="requires")
        if not isinstance(q, tuple):
            raise sym.Unsupported("q point of unknown origin")
        s.assign(Vec([(DENS["+"](zi(q[1])), 1)]))
        ms.assign(Vec([(DENS["-"](zi(q[1])), 1)]))
    return {"cheb_wf_timestep": step, "fermi": fermi, "current_coefficient": current_coefficient, "get_fermi_cheb_coef": get_fermi_cheb_coef,
            "density_coef": density_coef, "f_sqrt": vsqrt, "__fop__": vop}


def vsqrt(x):
    if sym.kind(x) == "cplx":
        sym.E.oblige(z3.And(x.im == 0, x.re >= 0), "sqrt of a nonnegative real number", cls="requires")
        x = SReal(x.re)
    return front.msqrt(x)


def vop(name, a, b):
    """elementwise product with a density vector: a diagonal operator"""
    if name == "pmul" and sym.kind(a) is None and sym.kind(b) is None and not isinstance(a, Tag) and not isinstance(b, Tag):
        for d, v in ((a.vec, b.vec), (b.vec, a.vec)):
            if len(d.t) == 1 and not sym.is_sym(d.t[0][1]) and d.t[0][1] == 1 and d.t[0][0].decl().name().startswith("density"):
                return v.lin(lambda x: DIAG(d.t[0][0], x))
        raise sym.Unsupported("elementwise product of wave functions")
    return vec.fop(name, a, b)


DIAG = z3.Function("diag", V, V, V)


def driver_build(args, outs, mins=None, more=None):
    """values of the arguments of a driver, by their names"""
    mins = dict({"n_timestep": 1, "n_ran_samples": 1}, **(mins or {}))
    described = {"bes": "bes", "s_indptr": "ip", "indptr": "ip", "s_indices": "ix", "indices": "ix", "s_hop": "hop", "hop": "hop", "s_dx": "dx", "s_dy": "dy",
                 "s_site_x": "site_x", "s_site_y": "site_y", "s_site_z": "site_z"}
    ints = ("seed", "rank", "wfn_chk_step", "itypedc", "nr_fermi")
    reals = ("wfn_chk_thr", "beta", "mu", "h_rescale", "fermi_precision", "t_step", "delta", "e_range")

    def build(e):
        nwf = ivar(e, "nwf", 1)
        vals = {}
        ex = dict(extras(nwf), nwf=nwf)
        for a in args():
            if a == "n_indptr":
                vals[a] = nwf + 1
            elif a == "n_psi0":
                vals[a] = nwf
            elif a in described:
                vals[a] = Tag(described[a])
            elif a.startswith("n_") or a in ints:
                vals[a] = ivar(e, a, mins.get(a, 0 if a.startswith("n_") else None))
            elif a in reals:
                vals[a] = SReal(z3.Real(a))
            elif a == "output_filename":
                vals[a] = None
            elif a == "q_points":
                vals[a] = QPoints()
            elif a == "psi0":
                vals[a] = VStore("psi0", vec.atom("psi0"))
            elif more and a in more:
                vals[a] = None
            elif a in outs:
                vals[a] = None
            else:
                raise sym.Unsupported(f"argument {a} not known")
        for a, f in list(outs.items()) + list((more or {}).items()):
            if a not in vals:
                raise sym.Unsupported(f"argument {a} missing")
            vals[a] = f(e, vals)
        ex["described"] = [vals[a] for a in ("n_hop", "nr_fermi") if a in vals]
        ex["tt"] = SInt(z3.Int("tt"))
        return vals, ex
    return build


def seed_of(p, i):
    return p.seed * (i + 1 + p.rank * p.n_ran_samples)


def cnum(name, *sorts):
    f = z3.Function(name + ".re", I, *sorts, z3.RealSort()), z3.Function(name + ".im", I, *sorts, z3.RealSort())
    return lambda *k: SCplx(f[0](*[zi(x) for x in k]), f[1](*[zi(x) for x in k]))


def stores(L):
    """wave functions written by the loop"""
    mods = sym.E.loop_mods.get(L.loop.dkey, ())
    return {n: v for n, v in L._d.items() if isinstance(v, VStore) and v.aid in mods}


def div(x, n):
    return fort.fdiv(x, n)


def psi_t_contract(args):
    P = VRec("P")

    def entry():
        p = NS(sym.E.params)
        return [P.f(0) == z3.Const("psi0", V)]

    def body(loop):
        return [P.eqn(loop.it + 1, U(P(loop.it)))]

    def tl(p, k):
        return p.time_log[k]

    def inv(L):
        p, out = L.params, {}
        for n, v in stores(L).items():
            if n != "psi0":
                out["wf." + n] = veq(v, P(L.it))
        J = p.J
        for n in L.mod:
            v = getattr(L, n) if L.has(n) else None
            if sym.kind(v) == "int" and (sym.E.broad or n == "ptr"):
                for c in (1, 0):
                    q = v - c
                    # q: number of frames written, unless the last one is pending
                    out[f"rng{c}." + n] = And(0 <= q, q < p.n_time_log)
                    out[f"low{c}." + n] = imp(And(0 <= J, J < q), lambda q=q: tl(p, J) < L.it)
                    out[f"nxt{c}." + n] = Or(tl(p, q) >= L.it, And(q == p.n_time_log - 1))
                    m = L._d.get("psi_t")
                    a = m.column_el(J)
                    done = And(0 <= J, J < p.n_time_log, tl(p, J) < L.it)
                    b = P(tl(p, J)).el()
                    out[f"col{c}." + n] = imp(done, lambda a=a, b=b: a == b)
        return out

    def req(p):
        J = p.J
        return [("frame", And(0 <= J, J < p.n_time_log)),
                ("times ascend", fa([(0, p.n_time_log), (0, p.n_time_log)], lambda i, j: imp(i < j, lambda: tl(p, i) < tl(p, j)))),
                ("times in range", fa([(0, p.n_time_log)], lambda i: And(tl(p, i) >= 0, tl(p, i) <= p.n_timestep)))]
    build = driver_build(args, {"psi_t": lambda e, v: VMat("psi_t", 1)}, {"n_time_log": 1, "n_timestep": 0},
                         {"time_log": lambda e, v: arr("int", v["n_time_log"], "time_log")})
    return VContract("tbpm_psi_t", build, requires=req, sums=lambda p: [Axioms(entry, None, body)], invs=[("t", inv)], timeout=8000, budget=200,
                     ensures=lambda p, o, r: [("logged frames", SBool(zb(eq(p.psi_t.column_el(p.J), P(tl(p, p.J)).el()))))])


class Corr:
    """driver that averages correlation functions over samples: sequences of vectors seqs {name: first member}, all
    propagated by U; value(p, d, get, t) the correlation number d at step t; rows: indices d of the output, None for a 1-d output"""

    def __init__(self, name, args, out, first, value, rows=(None,), levels=("s", "t"), real=False, steps=lambda p: p.n_timestep, pre=None, more=None, mins=None, site=None):
        self.name, self.out, self.first, self.value, self.rows, self.levels, self.real = name, out, first, value, rows, levels, real
        self.steps, self.site = steps, site
        self.seq = {}
        self.S = [(lambda f: (lambda i: SReal(f(zi(i)))))(z3.Function(f"S{d}", I, z3.RealSort())) if real else cnum(f"S{d}") for d in range(len(rows))]
        self.args, self.more, self.mins = args, more, mins
        self.base = {}

    def F(self, nm):
        if nm not in self.seq:
            self.seq[nm] = VRec("seq_" + nm, (I, I))
        return self.seq[nm]

    def at(self, nm, t, i, q):
        return self.F(nm)(t, zi(i), zi(q))

    def c(self, d, p, i, q, t):
        r = self.value(self, p, d, i, q, t)
        return div(r, p.n_ran_samples)

    def zero(self):
        return SReal(z3.RealVal(0)) if self.real else C0

    def where(self, loop, p):
        """sample and q number the loop stands at (None: at that loop or outside)"""
        ks = [lp.it for lp in sym.E.loops if lp is not loop] + [None, None, None]
        if self.levels[0] == "q":
            return ks[1], ks[0]
        return ks[0], SInt(z3.IntVal(0))

    def entry(self):
        return [zb(S(0) == self.zero()) for S in self.S]

    def init(self, p, i, q):
        out = []
        for nm, v in self.first(self, p, i, q).items():
            f = self.F(nm)
            out.append(f.eqn(0, v, zi(i), zi(q)))
            out.append(f.eqn(1, U(self.at(nm, 0, i, q)), zi(i), zi(q)))
            out.append(f.eqn(2, U(self.at(nm, 1, i, q)), zi(i), zi(q)))
        return out + (self.site.init(self, p, i) if self.site else [])

    def body(self, loop):
        p = NS(sym.E.params)
        d = depth(loop)
        i, q = self.where(loop, p)
        if d < len(self.levels) - 2:
            return []
        if d == len(self.levels) - 2:
            return self.init(p, loop.it, q)
        out = []
        if d == len(self.levels) - 1:
            for nm in list(self.seq):
                for k in (0, 1):
                    out.append(self.F(nm).eqn(loop.it + k + 1, U(self.at(nm, loop.it + k, i, q)), zi(i), zi(q)))
        return out + (self.site.body(self, loop) if self.site else [])

    def step(self, loop, it, it1):
        p = NS(sym.E.params)
        if depth(loop) == len(self.levels) - 2:
            q = p.qq if self.levels[0] == "q" else SInt(z3.IntVal(0))
            return [zb(S(it1) == S(it) + self.c(d, p, it, q, p.tt)) for d, S in enumerate(self.S)]
        return []

    def cell(self, p, d):
        a = getattr(p, self.out)
        if self.levels[0] == "q":
            return a[p.qq, p.tt]
        return a[p.tt] if self.rows[d] is None else a[self.rows[d], p.tt]

    def inv(self, L):
        p, out, loop = L.params, {}, L.loop if hasattr(L, "loop") else None
        n = len(self.levels)
        dep = L.depth
        ks = [o.it for o in L.outer]
        isq = self.levels[0] == "q"
        q = (ks[0] if isq and dep >= 1 else SInt(z3.IntVal(0)))
        for d, S in enumerate(self.S):
            x = self.cell(p, d)
            if dep == n - 2:
                v = S(L.it)
            elif dep == n - 1:
                v = None
                i = ks[-1]
                qc = p.qq if isq else q
                for k in (0, 1, 2):
                    w = S(i) + ite(p.tt < L.it + k, lambda i=i: self.c(d, p, i, qc, p.tt), self.zero)
                    out[f"acc{d}.{k}"] = x == self.qsel(p, isq, ks, S, w)
                continue
            elif isq and dep == 0:
                out[f"acc{d}"] = x == ite(p.qq < L.it, lambda: S(p.n_ran_samples), self.zero)
                continue
            else:
                continue
            out[f"acc{d}"] = x == self.qsel(p, isq, ks, S, v)
        for nm, v in stores(L).items():
            if dep == n - 1:
                i = ks[-1]
                for sq in self.seq:
                    for k in (0, 1):
                        out[f"{nm}={sq}+{k}"] = veq(v, self.at(sq, L.it + k, i, q))
        if self.site:
            out.update(self.site.inv(self, L))
        return out

    def qsel(self, p, isq, ks, S, v):
        if not isq:
            return v
        return ite(p.qq < ks[0], lambda: S(p.n_ran_samples), lambda: ite(p.qq == ks[0], lambda: v, self.zero))

    def contract(self):
        def outarr(e, v):
            n = self.nout(v)
            return arr("real" if self.real else "cplx", n, self.out)
        build0 = driver_build(self.args, {self.out: outarr}, self.mins, self.more)

        def build(e):
            vals, ex = build0(e)
            ex["qq"] = SInt(z3.Int("qq"))
            return vals, ex

        def req(p):
            r = [("step", And(0 <= p.tt, p.tt < self.last(p)))]
            if self.levels[0] == "q":
                r.append(("q", And(0 <= p.qq, p.qq < p.n_q_points)))
            return r + (self.site.req(p) if self.site else [])
        # the sequences are known before the first loop
        self.names(self)
        return VContract(self.name, build, requires=req, sums=lambda p: [Axioms(self.entry, self.step, self.body)], invs=[("c", self.inv)], modifies=[self.out],
                         timeout=8000, budget=240,
                         ensures=lambda p, o, r: [(f"correlation function {d}", self.cell(p, d) == S(p.n_ran_samples)) for d, S in enumerate(self.S)])


def R_(p, i):
    return rand(seed_of(p, i))


def dos_corr(args):
    c = Corr("tbpm_dos", args, "corr", lambda c, p, i, q: {"P": R_(p, i)}, lambda c, p, d, i, q, t: ip(R_(p, i), c.at("P", t, i, q)))
    c.nout, c.last, c.names = (lambda v: v["n_timestep"] + 1), (lambda p: p.n_timestep + 1), (lambda c: c.F("P"))
    return c.contract()


class Sites:
    """projection on the listed orbitals: Q(k) keeps the components in the first k entries of site_indices"""

    def __init__(self):
        self.Q = VRec("Q", (I,))

    def req(self, p):
        return [("site indices in range", fa([(0, p.n_siteind)], lambda j: And(0 <= p.site_indices[j], p.site_indices[j] < p.nwf)))]

    def full(self, p, i):
        return self.Q(p.n_siteind, zi(i))

    def start(self, p, i):
        q = self.full(p, i)
        return q / norm(q)

    def init(self, c, p, i):
        q, f = self.full(p, i), c.at("P", 0, i, 0)
        return [zb(eq(self.Q(0, zi(i)).el(), C0)), zb(eq(ip(q, f), ip(q, self.start(p, i))))]

    def body(self, c, loop):
        p = NS(sym.E.params)
        i, _ = c.where(loop, p)
        k = loop.it
        hit = zi(p.site_indices[k]) == zi(p.X)
        a, b = R_(p, i).el(), self.Q(k, zi(i)).el()
        return [z3.Implies(zi(k) < zi(p.n_siteind), zb(eq(self.Q(k + 1, zi(i)).el(), SCplx(z3.If(hit, a.re, b.re), z3.If(hit, a.im, b.im)))))]

    def inv(self, c, L):
        return {f"{nm}=Q": veq(v, self.Q(L.it, zi(L.outer[-1].it))) for nm, v in stores(L).items()} if L.depth == 1 else {}


def ldos_corr(args):
    st = Sites()
    c = Corr("tbpm_ldos", args, "corr", lambda c, p, i, q: {"P": st.start(p, i)}, lambda c, p, d, i, q, t: ip(st.start(p, i), c.at("P", t, i, q)),
             more={"site_indices": lambda e, v: arr("int", v["n_siteind"], "site_indices")}, site=st)
    c.nout, c.last, c.names = (lambda v: v["n_timestep"] + 1), (lambda p: p.n_timestep + 1), (lambda c: c.F("P"))
    return c.contract()


def cur(v, x):
    return mv(f"ip/ix/cur|hop|d{x}", v)


def ac_corr(args):
    def first(c, p, i, q):
        r = R_(p, i)
        return {"X": FD(cur(r, "x"), c.om), "Y": FD(cur(r, "y"), c.om), "Z": FD(r, c.f)}

    def value(c, p, d, i, q, t):
        a, b = [("X", "x"), ("X", "y"), ("Y", "x"), ("Y", "y")][d]
        return ip(c.at("Z", t, i, q), cur(c.at(a, t, i, q), b))
    c = Corr("tbpm_accond", args, "corr", first, value, rows=(0, 1, 2, 3))
    c.om, c.f = coef_keys()
    c.nout, c.last, c.names = (lambda v: [4, v["n_timestep"]]), (lambda p: p.n_timestep), (lambda c: [c.F(x) for x in "XYZ"])
    return c.contract()


def coef_keys():
    out = []
    for om, nm in ((True, "1-F"), (False, "F")):
        out.append(Tag("section", nm, "1", vec._s(SInt(NCHEB(z3.BoolVal(om))))).key())
    return out


def pol_corr(args):
    def dens(v, s, q):
        return v.vec.lin(lambda x: DIAG(DENS[s](zi(q)), x))

    def first(c, p, i, q):
        r = R_(p, i)
        return {"A": FD(dens(r, "-", q), c.om), "Z": FD(r, c.f)}

    def value(c, p, d, i, q, t):
        return ip(c.at("Z", t, i, q), dens(c.at("A", t, i, q), "+", q)).imag
    c = Corr("tbpm_dyn_pol", args, "corr", first, value, levels=("q", "s", "t"), real=True)
    c.om, c.f = coef_keys()
    c.nout, c.last, c.names = (lambda v: [v["n_q_points"], v["n_timestep"]]), (lambda p: p.n_timestep), (lambda c: [c.F(x) for x in "AZ"])
    return c.contract()


def kbdc_contract(args, direction):
    """mu(a, b) = g(a) g(b) <T_a(H) J_x r | J_d T_b(H) r>, averaged over the random states"""
    K, L_ = VRec("K", (I,)), VRec("L", (I,))
    GJ = z3.Function("jackson", I, z3.RealSort())
    S = cnum("S")
    dname = "x" if direction == 1 else "y"

    def g(k):
        return SReal(GJ(zi(k)))

    def Kd(j, i):
        return cur(K(j, zi(i)), dname)

    def mu(a, b, i):
        return ip(L_(a, zi(i)), Kd(b, i))

    def value(p, i):
        return div(g(p.A) * g(p.B) * mu(p.A, p.B, i), p.n_ran_samples)

    def rec(F, k, i):
        return F.eqn(k, mv("ip/ix/hop", F(k - 1, zi(i))) * 2 - F(k - 2, zi(i)), zi(i))

    def body(loop):
        p = NS(sym.E.params)
        d = depth(loop)
        if d == 0:
            i = loop.it
            r = R_(p, i)
            return [K.eqn(0, r, zi(i)), K.eqn(1, mv("ip/ix/hop", r), zi(i)), L_.eqn(0, cur(r, "x"), zi(i)), L_.eqn(1, mv("ip/ix/hop", L_(0, zi(i))), zi(i))]
        if d == 1:
            i = sym.E.loops[0].it
            k = loop.it + 2
            # the recursion is an equation of vectors: it also holds inside the inner product
            lin = zb(eq(mu(k, p.B, i), ip(mv("ip/ix/hop", L_(k - 1, zi(i))) * 2 - L_(k - 2, zi(i)), Kd(p.B, i))))
            return [rec(F, k, i) for F in (K, L_)] + [lin]
        return []

    def step(loop, it, it1):
        p = NS(sym.E.params)
        return [zb(S(it1) == S(it) + value(p, it))] if depth(loop) == 0 else []

    def inv(L):
        p, out = L.params, {}
        i = L.outer[0].it if L.depth else L.it
        mods = sym.E.loop_mods.get(L.loop.dkey, ())
        avg = p.corr_mu_avg[p.A, p.B]
        if L.depth == 0:
            out["avg"] = avg == S(L.it)
        if L.depth == 1:
            out["avg"] = avg == S(i) + ite(p.B < L.it, lambda: value(p, i), lambda: C0)
        for n, v in L._d.items():
            if isinstance(v, VMat) and v.aid in mods and L.depth == 1:
                out["cheb." + n] = veq_cols(v, [(lambda j: j < L.it + 2, lambda j: K(j, zi(i)))])
                out["cur." + n] = veq_cols(v, [(lambda j: j < L.it, lambda j: Kd(j, i)), (lambda j: And(j >= L.it, j < p.n_kernel), lambda j: K(j, zi(i)))])
            if isinstance(v, VStore) and v.aid in mods and L.depth == 1:
                if sym.E.broad or n != "p1":
                    out["prev." + n] = veq(v, L_(L.it, zi(i)))
                if sym.E.broad or n != "p0":
                    out["next." + n] = veq(v, L_(L.it + 1, zi(i)))
        for n, a in front.arr_locals(L, "cplx", 2, prefer=("corr_mu",)).items():
            x = a[p.A, p.B]
            if L.depth == 1:
                for r in (0, 1):
                    out[f"row{r}." + n] = imp(Or(p.A < r, And(p.A == r, p.B < L.it)), lambda x=x: x == mu(p.A, p.B, i))
                out["rows." + n] = imp(p.A < L.it + 2, lambda x=x: x == mu(p.A, p.B, i))
            if L.depth == 2:
                r = L.outer[1].it + 2
                out["row." + n] = imp(Or(p.A < r, And(p.A == r, p.B < L.it)), lambda x=x: x == mu(p.A, p.B, i))
        return out

    def jackson(gk, n):
        e = sym.E
        e.oblige(zb(eq(n, e.params["n_kernel"])), "call jackson_kernel requires the kernel size", cls="requires")
        gk.arr.havoc(e.fresh_name("g"))
        e.touch(gk.arr)
        e.assume(zb(fa([(0, n)], lambda k: gk.arr[k] == g(k))))
    build0 = driver_build(args, {"corr_mu_avg": lambda e, v: arr("cplx", [v["n_kernel"], v["n_kernel"]], "corr_mu_avg")}, {"n_kernel": 3})

    def build(e):
        vals, ex = build0(e)
        vals["itypedc"] = direction
        ex["A"], ex["B"] = SInt(z3.Int("A")), SInt(z3.Int("B"))
        return vals, ex
    return VContract("tbpm_kbdc", build, requires=lambda p: [("entry", And(0 <= p.A, p.A < p.n_kernel, 0 <= p.B, p.B < p.n_kernel, 0 <= p.J, p.J < p.n_kernel))],
                     sums=lambda p: [Axioms(lambda: [zb(S(0) == C0)], step, body)], invs=[("k", inv)], modifies=["corr_mu_avg"], timeout=8000, budget=300,
                     ensures=lambda p, o, r: [("Chebyshev moments", p.corr_mu_avg[p.A, p.B] == S(p.n_ran_samples))]), {"jackson_kernel": jackson}


class QE:
    """quasi-eigenstates of energy E: G(k) = r + sum over t <= k of W(t) (exp(iEt) U^t r + exp(-iEt) U^-t r)"""

    def __init__(self, energy, nt="n_timestep"):
        self.P, self.M, self.G = VRec("Pos", (I,)), VRec("Neg", (I,)), VRec("G", (I, I))
        self.energy = energy

    def pos(self, k, i):
        return self.P(k, zi(i))

    def neg(self, k, i):
        return self.M(k, zi(i))

    def g(self, k, j, i):
        return self.G(k, zi(j), zi(i))

    def factors(self, p, k, j):
        w = 0.5 * (1 + fcos(div(sym.PI * k, p.n_timestep)))
        x = self.energy(p, j) * k * p.t_step
        ph = SCplx(zr(fcos(x)), zr(fsin(x)))
        return w, ph

    def start(self, p, i, js):
        r = R_(p, i)
        return [self.P.eqn(0, r, zi(i)), self.M.eqn(0, r, zi(i))] + [self.G.eqn(0, r, zi(j), zi(i)) for j in js]

    def next(self, p, k, i, js):
        """equations of step k + 1"""
        out = [self.P.eqn(k + 1, U(self.pos(k, i)), zi(i)), self.M.eqn(k + 1, U(self.neg(k, i), fwd=False), zi(i))]
        for j in js:
            w, ph = self.factors(p, k + 1, j)
            out.append(self.G.eqn(k + 1, self.g(k, j, i) + U(self.pos(k, i)) * ph * w + U(self.neg(k, i), fwd=False) * ph.conjugate() * w, zi(j), zi(i)))
        return out

    def final(self, p, j, i):
        v = self.g(p.n_timestep, j, i)
        return v / norm(v)

    def inv(self, L, p, nE):
        """invariants of the loops of one sample (depth 1 and below)"""
        out = {}
        mods = sym.E.loop_mods.get(L.loop.dkey, ())
        i = L.outer[0].it
        for n, v in stores(L).items():
            if L.depth == 1:
                out["pos." + n] = veq(v, self.pos(L.it, i), n)
                out["neg." + n] = veq(v, self.neg(L.it, i), n)
        for n, v in L._d.items():
            if not isinstance(v, VMat) or v.aid not in mods:
                continue
            J = p.J
            if L.depth == 1:
                out["fill." + n] = veq_cols(v, [(lambda j: j < L.it, lambda j: self.g(0, j, i))], n)
                out["time." + n] = veq_cols(v, [(lambda j: And(0 <= j, j < nE), lambda j: self.g(L.it, j, i))], n)
                out["norm." + n] = veq_cols(v, [(lambda j: j < L.it, lambda j: self.final(p, j, i)), (lambda j: And(j >= L.it, j < nE), lambda j: self.g(p.n_timestep, j, i))], n)
            if L.depth == 2:
                k = L.outer[1].it
                out["new." + n] = veq_cols(v, [(lambda j: j < L.it, lambda j: self.g(k + 1, j, i)), (lambda j: And(j >= L.it, j < nE), lambda j: self.g(k, j, i))])
            if L.depth == 3:
                k, q = L.outer[1].it, L.outer[2].it
                a, b = self.g(k + 1, J, i).el(), self.g(k, J, i).el()
                c = zb(Or(J < q, And(J == q, p.X < L.it)))
                out["el." + n] = SBool(zb(eq(v.column_el(J), SCplx(z3.If(c, a.re, b.re), z3.If(c, a.im, b.im)))))
        return out


def eigen_contract(args):
    qe = QE(lambda p, j: p.energies[j])
    S = z3.Function("S", I, z3.RealSort())

    def S_(i):
        return SReal(S(zi(i)))

    def value(p, i):
        v = qe.final(p, p.J, i).el()
        return div(SReal(v.re * v.re + v.im * v.im), p.n_ran_samples)

    def body(loop):
        p = NS(sym.E.params)
        d = depth(loop)
        if d == 0:
            return qe.start(p, loop.it, [p.J])
        i = sym.E.loops[0].it
        if d == 1:
            return qe.start(p, i, [p.J, loop.it]) + qe.next(p, loop.it, i, [p.J])
        if d == 2:
            return qe.next(p, sym.E.loops[1].it, i, [loop.it])[2:]
        return []

    def step(loop, it, it1):
        p = NS(sym.E.params)
        return [zb(S_(it1) == S_(it) + value(p, it))] if depth(loop) == 0 else []

    def inv(L):
        p, out = L.params, {}
        x = p.wf_qe[p.J, p.X]
        if L.depth == 0:
            out["avg"] = x == S_(L.it)
            return out
        i = L.outer[0].it
        written = p.wf_qe.aid in sym.E.loop_mods.get(L.loop.dkey, ())
        if L.depth == 1 and written:
            out["acc"] = x == S_(i) + ite(p.J < L.it, lambda: value(p, i), lambda: SReal(z3.RealVal(0)))
        if L.depth == 2 and written:
            q = L.outer[1].it
            out["acc"] = x == S_(i) + ite(Or(p.J < q, And(p.J == q, p.X < L.it)), lambda: value(p, i), lambda: SReal(z3.RealVal(0)))
        out.update(qe.inv(L, p, p.n_energies))
        return out
    build = driver_build(args, {"wf_qe": lambda e, v: arr("real", [v["n_energies"], v["n_indptr"] - 1], "wf_qe")}, {"n_energies": 1},
                         {"energies": lambda e, v: arr("real", v["n_energies"], "energies")})
    return VContract("tbpm_eigenstates", build, requires=lambda p: [("entry", And(0 <= p.X, p.X < p.nwf, 0 <= p.J, p.J < p.n_energies))],
                     sums=lambda p: [Axioms(lambda: [zb(S_(0) == SReal(z3.RealVal(0)))], step, body)], invs=[("q", inv)], modifies=["wf_qe"], timeout=8000, budget=300,
                     ensures=lambda p, o, r: [("density of the quasi-eigenstates", p.wf_qe[p.J, p.X] == S_(p.n_ran_samples))])


def specs_tbpm(args):
    R = {}
    R["tbpm_eigenstates"] = ("tbpm_eigenstates", lambda: eigen_contract(args("tbpm_eigenstates")), None, stubs())
    for d in (1, 2):
        R[f"tbpm_kbdc, direction {d}"] = ("tbpm_kbdc", lambda d=d: kbdc_contract(args("tbpm_kbdc"), d)[0], None, dict(stubs(), **kbdc_contract(None, d)[1]))
    R["tbpm_dos"] = ("tbpm_dos", lambda: dos_corr(args("tbpm_dos")), None, stubs())
    R["tbpm_ldos"] = ("tbpm_ldos", lambda: ldos_corr(args("tbpm_ldos")), None, stubs())
    R["tbpm_accond"] = ("tbpm_accond", lambda: ac_corr(args("tbpm_accond")), None, stubs())
    R["tbpm_dyn_pol"] = ("tbpm_dyn_pol", lambda: pol_corr(args("tbpm_dyn_pol")), None, stubs())
    R["tbpm_psi_t"] = ("tbpm_psi_t", lambda: psi_t_contract(args("tbpm_psi_t")), None, stubs())
    return R


def specs(u=None):
    R = specs_tbpm(lambda n: (lambda: u.procs[n].args))
    R["cheb_wf_timestep, forward"] = ("cheb_wf_timestep", lambda: cheb_contract("cheb_wf_timestep", "bes", 1), lambda f: (lambda *a: f(*a, True)), None)
    R["cheb_wf_timestep, backward"] = ("cheb_wf_timestep", lambda: cheb_contract("cheb_wf_timestep", "bes", -1), lambda f: (lambda *a: f(*a, False)), None)
    R["fermi"] = ("fermi", lambda: cheb_contract("fermi", "cheb_coef"), None, None)
    R["haydock_coef"] = ("haydock_coef", haydock_contract, None, None)
    return R


def prove(src, key):
    try:
        u = fort.load_unit(src, FILES)
        name, mk, adapt, extra = specs(u)[key]
        if name not in u.procs:
            raise sym.Unsupported(f"procedure {name} not found")
        ns, u = loader(src, [name], extra)
        f = ns[fort.pyid(name)]
        r = mk().verify(ns, fn=adapt(f) if adapt else f)
        fort.add_omp(r, u, [name])
    except sym.Unsupported as ex:
        r = Result(key)
        r.unsupported = str(ex)
    r.name = f"{key} (Fortran)"
    return r


def tasks(src, names=None):
    return [(f"{n} (Fortran)", (lambda n=n: prove(src, n))) for n in (names or specs())]


PROPAGATION = ["cheb_wf_timestep, forward", "cheb_wf_timestep, backward", "fermi"]
TBPM = [k for k in specs() if k not in PROPAGATION]
