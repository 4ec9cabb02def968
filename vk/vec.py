"""vector level of the Fortran translation (propagation.f90, tbpm.f90): wave functions as elements of a complex vector
space.  A vector is a formal linear combination of atoms (inputs, random states, operators applied to atoms, members of
the recursive sequences of the contracts); sparse-matrix products and the other procedures below this level are used
through their contracts, as linear operators.  EL(a) is the value of the vector a at one component X that is fixed but
arbitrary: proving EL(a) = EL(b) proves a = b, and an invariant `store = expression` is checked in that form and used
by putting the expression in place of the havoced contents."""
from . import sym, front, fort
from .sym import SCplx, SReal, SInt, SBool, Unsupported, zi, zr, zb, z3, kind, eq

V = z3.DeclareSort("Vec")
_ELR, _ELI = z3.Function("EL.re", V, z3.RealSort()), z3.Function("EL.im", V, z3.RealSort())
_IPR, _IPI = z3.Function("IP.re", V, V, z3.RealSort()), z3.Function("IP.im", V, V, z3.RealSort())


def EL(a):
    return SCplx(_ELR(a), _ELI(a))


def IP(a, b):
    e = sym.E
    if e is not None and not e.spec_depth:
        # Hermitian symmetry of the inner product
        e.note_fact(z3.And(_IPR(a, b) == _IPR(b, a), _IPI(a, b) == -_IPI(b, a)))
        if a.get_id() == b.get_id():
            e.note_fact(z3.And(_IPI(a, a) == 0, _IPR(a, a) >= 0))
    return SCplx(_IPR(a, b), _IPI(a, b))


def _zero(c):
    if not sym.is_sym(c):
        return c == 0
    re, im = sym.zc(c)
    return sym._isz(z3.simplify(re)) and sym._isz(z3.simplify(im))


class Vec:
    __array_ufunc__ = None

    def __init__(self, terms):
        self.t = terms

    @property
    def vec(self):
        return self

    def el(self):
        r = SCplx(z3.RealVal(0), z3.RealVal(0))
        for a, c in self.t:
            r = r + EL(a) * c
        return r

    def lin(self, f):
        return Vec([(f(a), c) for a, c in self.t])

    def __add__(self, o):
        if kind(o) is not None:
            raise Unsupported("scalar added to a vector")
        out = [list(x) for x in self.t]
        for a, c in o.vec.t:
            for x in out:
                if x[0].get_id() == a.get_id():
                    x[1] = x[1] + c
                    break
            else:
                out.append([a, c])
        return Vec([(a, c) for a, c in out if not _zero(c)])

    def __sub__(self, o):
        return self + (-1) * o.vec

    def __neg__(self):
        return (-1) * self

    def __mul__(self, c):
        if kind(c) is None:
            raise Unsupported("product of vectors")
        return Vec([(a, d * c) for a, d in self.t])

    __rmul__ = __mul__

    def __truediv__(self, c):
        if kind(c) is None:
            raise Unsupported("quotient of vectors")
        if not sym.is_sym(c):
            c = SReal(zr(c)) if kind(c) != "cplx" else c
        return Vec([(a, (d if sym.is_sym(d) or sym.is_sym(c) else SReal(zr(d))) / c) for a, d in self.t])


def atom(name):
    return Vec([(z3.Const(name, V), 1)])


ZERO = Vec([])


def ip(a, b):
    r = SCplx(z3.RealVal(0), z3.RealVal(0))
    for x, c in a.vec.t:
        for y, d in b.vec.t:
            r = r + IP(x, y) * (_conj(c) * d)
    return r


def _conj(c):
    return c.conjugate() if kind(c) == "cplx" else c


def norm(a):
    return front.msqrt(ip(a, a).real)


class VStore:
    """storage of a wave function"""
    __array_ufunc__ = None
    nd, k = 1, "vec"
    vk_store = True

    def __init__(self, name, val=None):
        self.name = name
        e = sym.E
        e.register_array(self)
        self.val = val if val is not None else atom(e.fresh_name(name))

    @property
    def vec(self):
        return self.val

    def havoc(self, nm):
        self.val = atom(nm)

    def snapshot(self):
        return self.val

    def fdummy(self, k, dims):
        return self

    def size(self, dim=None):
        return sym.E.params["nwf"]

    def assign(self, v):
        if kind(v) is not None:
            if not sym.is_sym(v) and v == 0:
                v = ZERO
            else:
                raise Unsupported("constant assigned to a vector")
        self.val = v.vec
        sym.E.touch(self)

    def _x(self, i):
        return zi(i) - 1 == zi(sym.E.params["X"])

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i != slice(None):
                raise Unsupported("section of a vector")
            return self
        return Elem(self.val, i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if i != slice(None):
                raise Unsupported("section of a vector")
            return self.assign(v)
        self.val = changed(self.val, i, v, self.name)
        sym.E.touch(self)

    def __add__(self, o):
        return self.val + o

    def __sub__(self, o):
        return self.val - o

    def __neg__(self):
        return -self.val

    def __mul__(self, c):
        return self.val * c

    __rmul__ = __mul__

    def __truediv__(self, c):
        return self.val / c


def _at_x(i):
    return zi(i) - 1 == zi(sym.E.params["X"])


def changed(old, i, v, name):
    """the vector with element i (1-based) set to v, known at the component X"""
    e = sym.E
    n = z3.Const(e.fresh_name(name), V)
    o, c = old.el(), _at_x(i)
    if isinstance(v, Elem):
        if not z3.is_true(z3.simplify(zi(i) == zi(v.i))):
            e.oblige(z3.Implies(c, _at_x(v.i)), "element computed from the elements at its own place", cls="ensures")
        w = v.vec.el()
    else:
        re, im = sym.zc(v)
        w = SCplx(re, im)
    e.assume(z3.And(_ELR(n) == z3.If(c, w.re, o.re), _ELI(n) == z3.If(c, w.im, o.im)))
    return Vec([(n, 1)])


class Elem:
    """element i (1-based) of a vector; expressions are linear combinations of elements at one place"""

    def __init__(self, vec, i):
        self.vec, self.i = vec, i

    def _same(self, o):
        if not isinstance(o, Elem):
            raise Unsupported("vector element combined with a number")
        if not z3.is_true(z3.simplify(zi(self.i) == zi(o.i))):
            raise Unsupported("elements at different places")
        return o

    def __add__(self, o):
        return Elem(self.vec + self._same(o).vec, self.i)

    def __sub__(self, o):
        return Elem(self.vec - self._same(o).vec, self.i)

    def __mul__(self, c):
        if kind(c) is None:
            raise Unsupported("product of vector elements")
        return Elem(self.vec * c, self.i)

    __rmul__ = __mul__

    def __truediv__(self, c):
        return Elem(self.vec / c, self.i)

    def __neg__(self):
        return Elem(-self.vec, self.i)

    def __abs__(self):
        """a number, known for the component X"""
        e = sym.E
        r = z3.Real(e.fresh_name("abs"))
        v = self.vec.el()
        e.assume(z3.And(r >= 0, z3.Implies(_at_x(self.i), r * r == v.re * v.re + v.im * v.im)))
        return SReal(r)


class VMat:
    """array of wave functions, the subscript of the wave function number is `pos` (0: first, 1: last).
    Contents: a base function number -> Vec, overlaid by writes"""
    __array_ufunc__ = None
    nd, k = 2, "vec"

    def __init__(self, name, pos=1, lb=1):
        self.name, self.pos, self.lb = name, pos, lb
        sym.E.register_array(self)
        self.havoc(sym.E.fresh_name(name))

    def havoc(self, nm):
        f = z3.Function(nm, z3.IntSort(), V)
        self.rest = lambda j: Vec([(f(zi(j)), 1)])
        self.pieces = []
        self.w = []

    def snapshot(self):
        return (self.rest, list(self.pieces), list(self.w))

    def fdummy(self, k, dims):
        return self

    def define(self, pieces):
        """column j is fn(j) for the first piece (cond, fn) with cond(j), unknown otherwise"""
        self.pieces, self.w = pieces, []

    def column_el(self, j):
        """component X of column j as one expression"""
        r = self.rest(j).el()
        for c, fn in reversed(self.pieces):
            x = fn(j).el()
            r = SCplx(z3.If(zb(c(j)), x.re, r.re), z3.If(zb(c(j)), x.im, r.im))
        for i, v in self.w:
            c = zi(i) == zi(j)
            x = v.el()
            r = SCplx(z3.If(c, x.re, r.re), z3.If(c, x.im, r.im))
        return r

    def read(self, j):
        for i, v in reversed(self.w):
            if bool(SBool(zi(i) == zi(j))):
                return v
        for c, fn in self.pieces:
            if bool(SBool(zb(c(j)))):
                return fn(j)
        return self.rest(j)

    def _j(self, idx):
        if not isinstance(idx, tuple) or len(idx) != 2 or idx[1 - self.pos] != slice(None) or isinstance(idx[self.pos], slice):
            raise Unsupported("subscripts of an array of vectors")
        return idx[self.pos] - self.lb

    def _elem(self, idx):
        return isinstance(idx, tuple) and len(idx) == 2 and not any(isinstance(i, slice) for i in idx)

    def __getitem__(self, idx):
        if self._elem(idx):
            return Elem(self.read(idx[self.pos] - self.lb), idx[1 - self.pos])
        return Column(self, self._j(idx))

    def __setitem__(self, idx, v):
        if self._elem(idx):
            j = idx[self.pos] - self.lb
            n = changed(self.read(j), idx[1 - self.pos], v, self.name)
            self.w = self.w + [(j, n)]
            sym.E.touch(self)
            return
        j = self._j(idx)
        if kind(v) is not None:
            raise Unsupported("constant assigned to a vector")
        self.w = self.w + [(j, v.vec)]
        sym.E.touch(self)


class Column:
    """reference to one column (an actual argument, or an operand)"""
    __array_ufunc__ = None

    def __init__(self, mat, j):
        self.mat, self.j = mat, j

    @property
    def vec(self):
        return self.mat.read(self.j)

    def assign(self, v):
        self.mat.w = self.mat.w + [(self.j, v.vec)]
        sym.E.touch(self.mat)

    def fdummy(self, k, dims):
        return self

    def __getitem__(self, i):
        if i == slice(None):
            return self
        raise Unsupported("element of a column")

    def __add__(self, o):
        return self.vec + o

    def __sub__(self, o):
        return self.vec - o

    def __mul__(self, c):
        return self.vec * c

    __rmul__ = __mul__

    def __truediv__(self, c):
        return self.vec / c


class Tag:
    """array whose contents are known only by description (index arrays, operator coefficients)"""
    k, nd = "tag", 1

    def __init__(self, *desc):
        self.desc = desc

    def fdummy(self, k, dims):
        return self

    def become(self, *desc):
        self.desc = desc
        sym.E.touch(self)

    def key(self):
        return "|".join(str(x) for x in self.desc)

    def __getitem__(self, i):
        if i == slice(None):
            return self
        if isinstance(i, slice):
            return Tag("section", self.key(), _s(i.start), _s(i.stop))
        raise Unsupported("element of a described array")

    def size(self, dim=None):
        raise Unsupported("size of a described array")


def _s(x):
    return str(z3.simplify(sym.z3_of(x))) if hasattr(sym, "z3_of") and sym.is_sym(x) else str(getattr(x, "e", x))


def mat_key(m):
    for f in ("indptr", "indices", "values"):
        if not isinstance(getattr(m, f, None), Tag):
            raise Unsupported("matrix of unknown origin")
    return "/".join(getattr(m, f).key() for f in ("indptr", "indices", "values"))


fort.FType.__mul__ = lambda self, o: mv(self, o)


def op(label):
    return z3.Function(label, V, V)


def mv(m, v):
    return v.vec.lin(op("mv:" + (m if isinstance(m, str) else mat_key(m))))


# ------------------------------------------------------------------ contracts of the procedures below
def base_contracts():
    def amv(a, m, v):
        return mv(m, v) * a

    def noalias(x, y):
        if x is y or isinstance(x, Column) and isinstance(y, Column) and x.mat is y.mat and z3.is_true(z3.simplify(zi(x.j) == zi(y.j))):
            sym.E.oblige(z3.BoolVal(False), "sparse product into its own argument", cls="requires")

    def amxpy(a, m, x, y):
        noalias(x, y)
        y.assign(mv(m, x) * a + y.vec)

    def amxpby(a, m, x, b, y):
        noalias(x, y)
        y.assign(mv(m, x) * a + y.vec * b)

    def axpy(a, x, y):
        y.assign(x.vec * a + y.vec)

    def axpby(a, x, b, y):
        y.assign(x.vec * a + y.vec * b)

    def axpbypcz(a, x, b, y, c, z):
        return x.vec * a + y.vec * b + z.vec * c

    def axpbypz(a, x, b, y, z):
        z.assign(x.vec * a + y.vec * b + z.vec)

    def self_div(x, b):
        x.assign(x.vec / b)

    def self_mul(a, x):
        x.assign(x.vec * a)

    def copy(x):
        return x.vec

    def csr_mv(m, v):
        return mv(m, v)

    def random_state(wf, n, seed):
        e = sym.E
        e.oblige(zb(n == e.params["nwf"]), "call random_state requires the number of orbitals", cls="requires")
        wf.assign(rand(seed))

    def check_norm(wf, ref, thr):
        return None
    return {"amv": amv, "amxpy": amxpy, "amxpby": amxpby, "axpy": axpy, "axpby": axpby, "axpbypcz": axpbypcz, "axpbypz": axpbypz,
            "self_div": self_div, "self_mul": self_mul, "copy": copy, "csr_mv": csr_mv, "inner_prod": ip, "norm": norm,
            "random_state": random_state, "check_norm": check_norm}


_RAND = z3.Function("random_state", z3.IntSort(), V)


def rand(seed):
    return Vec([(_RAND(zi(seed)), 1)])


def fop(name, a, b):
    if name == "padd":
        return a.vec + b.vec
    if name == "psub":
        return a.vec - b.vec
    if name == "pmul":
        if kind(a) is not None:
            return b.vec * a
        if isinstance(a, Tag):
            return b.vec.lin(op("diag:" + a.key()))
        if isinstance(b, Tag):
            return a.vec.lin(op("diag:" + b.key()))
    if name == "pdiv" and kind(b) is not None:
        return a.vec / b
    raise Unsupported(f"operator {name}")


class VRec:
    """sequence of vectors: F(n, *ps) with base values and a step; ps: vectors (z3 terms of sort V) or integers.
    eqs(n, ps) -> list of (index, Vec) giving defining equations near n"""

    def __init__(self, name, psorts=()):
        self.f = z3.Function(name, z3.IntSort(), *psorts, V)

    def __call__(self, n, *ps):
        return Vec([(self.f(zi(n), *ps), 1)])

    def eqn(self, n, rhs, *ps):
        """defining equation as a formula; a vector equation where the right side is one atom, otherwise
        at the component X"""
        rhs = rhs.vec
        if len(rhs.t) == 1 and not sym.is_sym(rhs.t[0][1]) and rhs.t[0][1] == 1:
            return self.f(zi(n), *ps) == rhs.t[0][0]
        return zb(eq(self(n, *ps).el(), rhs.el()))


def veq(store, spec, group=None):
    """invariant `store = spec`; of the candidates of one group only the first that is left is considered"""
    e = sym.E
    f = zb(eq(store.vec.el(), spec.vec.el()))
    b = SBool(f)
    b.strong = (lambda: setattr(store, "val", spec.vec), group)
    return b


def veq_cols(mat, pieces, group=None):
    """invariant `column j of mat = fn(j)` for every j, by pieces (cond, fn)"""
    e = sym.E
    if not isinstance(pieces, list):
        pieces = [(lambda j: z3.BoolVal(True), pieces)]
    j = e.params["J"]
    a = mat.column_el(j)
    fs, before = [], []
    for c, fn in pieces:
        cj = zb(c(j))
        fs.append(z3.Implies(z3.And(cj, *[z3.Not(b) for b in before]), zb(eq(a, fn(j).el()))))
        before.append(cj)
    f = z3.And(*fs)
    b = SBool(f)
    b.strong = (lambda: mat.define(pieces), group)
    return b
