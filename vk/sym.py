"""Symbolic values and the path-exploring obligation generator.

The *real* source of a function (Python as it is, Cython/Fortran after the
mechanical rewriting in front*.py) is executed by CPython on the values defined
here.  Branches on symbolic conditions fork the path; loops over symbolic
ranges are cut with invariants; calls to functions under contract are replaced
by their contract.  Every requires / ensures / invariant / array bound becomes
an obligation `path condition => goal` that is handed to the SMT back ends.
"""
import fractions
import math
import operator
import os
import subprocess
import tempfile
import time
import numpy
import z3


class Unsupported(Exception):
    """construct outside the verifier's reach (never a violation)."""


class PathEnd(Exception):
    """end of a cut path (loop body finished)."""


class RestartNow(PathEnd):
    """the exploration starts over at once"""


class Skip(Exception):
    """an invariant candidate does not apply to this loop."""


class Infeasible(Exception):
    pass


Fraction = fractions.Fraction
E = None        # current engine


def eng():
    if E is None:
        raise Unsupported("no engine")
    return E


# ----------------------------------------------------------------- values
def is_sym(x):
    return isinstance(x, (SInt, SReal, SBool, SCplx))


def _const(e):
    """python value of a z3 literal or None"""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return e.as_fraction()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def _np_scalar(x):
    if hasattr(x, "dtype") and getattr(x, "shape", None) == () and hasattr(x, "item"):
        return x.item()
    return x


def zr(x):
    """to a z3 Real expression"""
    x = _np_scalar(x)
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, SInt):
        c = _const(x.e)
        return z3.RealVal(c) if c is not None else z3.ToReal(x.e)
    if isinstance(x, SBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("non-finite literal")
        if x == math.pi:
            return PI.e
        return z3.RealVal(str(Fraction(repr(x))))
    if z3.is_expr(x):
        return z3.ToReal(x) if z3.is_int(x) else x
    raise Unsupported(f"not a real: {type(x).__name__}")


def zi(x):
    x = _np_scalar(x)
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int)):
        return z3.IntVal(int(x))
    if isinstance(x, SReal) and z3.is_to_real(x.e):
        return x.e.arg(0)
    if isinstance(x, SReal):
        c = _const(x.e)
        if c is not None and c.denominator == 1:
            return z3.IntVal(c.numerator)
    if isinstance(x, float) and x == int(x):
        return z3.IntVal(int(x))
    if z3.is_expr(x):
        return x
    raise Unsupported(f"not an int: {type(x).__name__}")


def zb(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if type(x).__name__ in ("bool_", "bool"):
        return z3.BoolVal(bool(x))
    if isinstance(x, SInt):
        return x.e != 0
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x):
        return x
    raise Unsupported(f"not a bool: {type(x).__name__}")


def zc(x):
    """(re, im)"""
    x = _np_scalar(x)
    if isinstance(x, SCplx):
        return x.re, x.im
    if isinstance(x, complex):
        return zr(x.real), zr(x.imag)
    return zr(x), z3.RealVal(0)


def kind(x):
    x = _np_scalar(x)
    if isinstance(x, SCplx) or isinstance(x, complex):
        return "cplx"
    if isinstance(x, (SReal, float, Fraction)):
        return "real"
    if isinstance(x, (SBool, bool)):
        return "bool"
    if isinstance(x, (SInt, int)):
        return "int"
    return None


def mk(k, e):
    if k == "int":
        return SInt(e)
    if k == "real":
        return SReal(e)
    if k == "bool":
        return SBool(e)
    raise Unsupported(k)


_NDOP = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
         "//": operator.floordiv, "%": operator.mod}


def _elementwise(op, a, b):
    """ndarray op scalar, element by element (numpy semantics for a scalar operand)"""
    x, f = (a, lambda v: _NDOP[op](v, b)) if isinstance(a, numpy.ndarray) else (b, lambda v: _NDOP[op](a, v))
    r = numpy.empty(x.shape, dtype=object)
    for i in numpy.ndindex(*x.shape):
        v = x[i]
        r[i] = f(v.item() if isinstance(v, numpy.generic) else v)
    return r


def _arith(op, a, b):
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        return _elementwise(op, a, b)
    ka, kb = kind(a), kind(b)
    if ka is None or kb is None:
        return NotImplemented
    if "cplx" in (ka, kb):
        ar, ai = zc(a)
        br, bi = zc(b)
        if op == "+":
            return SCplx(ar + br, ai + bi)
        if op == "-":
            return SCplx(ar - br, ai - bi)
        if op == "*":
            return SCplx(_cpoly(_m(ar, br) - _m(ai, bi)), _cpoly(_m(ar, bi) + _m(ai, br)))
        if op == "/":
            if kb != "cplx":
                return SCplx(ar / br, ai / br)
            d = br * br + bi * bi
            return SCplx((ar * br + ai * bi) / d, (ai * br - ar * bi) / d)
        raise Unsupported("complex " + op)
    if "real" in (ka, kb) or op == "/":
        x, y = zr(a), zr(b)
        if op == "+":
            return SReal(x + y)
        if op == "-":
            return SReal(x - y)
        if op == "*":
            return SReal(_m(x, y))
        if op == "/":
            return SReal(_div(x, y))
        if op == "//":
            return SReal(z3.ToReal(z3.ToInt(x / y)))
        if op == "%":
            return SReal(x - y * z3.ToReal(z3.ToInt(x / y)))
        raise Unsupported("real " + op)
    x, y = zi(a), zi(b)
    if op == "+":
        return SInt(x + y)
    if op == "-":
        return SInt(x - y)
    if op == "*":
        return SInt(_m(x, y))
    if op == "//":
        return SInt(ifloor(x, y))
    if op == "%":
        return SInt(imod(x, y))
    raise Unsupported("int " + op)


def _cpoly(e):
    """products in one canonical form, so that code and specification meet syntactically"""
    try:
        return canon(e)
    except Unsupported:
        return e


def _isz(e):
    c = _const(e)
    return c is not None and c == 0


def _m(x, y):
    if _isz(x) or _isz(y):
        return z3.IntVal(0) if z3.is_int(x) else z3.RealVal(0)
    if _const(x) == 1:
        return y
    if _const(y) == 1:
        return x
    return x * y


def _div(x, y):
    c = _const(y)
    if c is not None and c != 0:
        cx = _const(x)
        if cx is not None:
            return z3.RealVal(str(Fraction(cx) / Fraction(c)))
        return x * z3.RealVal(str(1 / Fraction(c)))
    return x / y


def ifloor(x, y):
    cx, cy = _const(x), _const(y)
    if cy is not None and cy != 0:
        if cx is not None:
            return z3.IntVal(cx // cy)
        return x / y if cy > 0 else (-x) / z3.IntVal(-cy)
    return z3.If(y > 0, x / y, (-x) / (-y))


def imod(x, y):
    cx, cy = _const(x), _const(y)
    if cy is not None and cy != 0:
        if cx is not None:
            return z3.IntVal(cx % cy)
        if cy > 0:
            return x % y
        return -((-x) % z3.IntVal(-cy))
    return z3.If(y > 0, x % y, -((-x) % (-y)))


def itrunc(x, y):
    """C division"""
    return z3.If(x >= 0, z3.If(y > 0, x / y, -(x / (-y))),
                 z3.If(y > 0, -((-x) / y), (-x) / (-y)))


def _cmp(op, a, b):
    ka, kb = kind(a), kind(b)
    if ka is None or kb is None:
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    if "cplx" in (ka, kb):
        ar, ai = zc(a)
        br, bi = zc(b)
        r = z3.And(ar == br, ai == bi)
        if op == "==":
            return SBool(r)
        if op == "!=":
            return SBool(z3.Not(r))
        raise Unsupported("complex order")
    if ka == "bool" and kb == "bool":
        x, y = zb(a), zb(b)
    elif "real" in (ka, kb):
        x, y = zr(a), zr(b)
    else:
        x, y = zi(a), zi(b)
    r = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y,
         "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
    return SBool(r)


class _Base:
    __slots__ = ()
    __array_ufunc__ = None     # numpy defers to our operators

    def __add__(self, o): return _arith("+", self, o)
    def __radd__(self, o): return _arith("+", o, self)
    def __sub__(self, o): return _arith("-", self, o)
    def __rsub__(self, o): return _arith("-", o, self)
    def __mul__(self, o): return _arith("*", self, o)
    def __rmul__(self, o): return _arith("*", o, self)
    def __truediv__(self, o): return _arith("/", self, o)
    def __rtruediv__(self, o): return _arith("/", o, self)
    def __floordiv__(self, o): return _arith("//", self, o)
    def __rfloordiv__(self, o): return _arith("//", o, self)
    def __mod__(self, o): return _arith("%", self, o)
    def __rmod__(self, o): return _arith("%", o, self)
    def __eq__(self, o): return _cmp("==", self, o)
    def __ne__(self, o): return _cmp("!=", self, o)
    def __lt__(self, o): return _cmp("<", self, o)
    def __le__(self, o): return _cmp("<=", self, o)
    def __gt__(self, o): return _cmp(">", self, o)
    def __ge__(self, o): return _cmp(">=", self, o)
    def __pos__(self): return self
    def __neg__(self): return _arith("-", 0, self)

    def __pow__(self, n):
        n = _np_scalar(n)
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, float) and n == 0.5:
            return fsqrt(self)
        if isinstance(n, int) and 0 <= n <= 12:
            r = 1
            for _ in range(n):
                r = r * self
            return r
        raise Unsupported("power")

    def __hash__(self):
        c = _const(z3.simplify(self.e)) if hasattr(self, "e") else None
        if c is not None:
            return hash(c)
        raise Unsupported("hash of a symbolic value")

    def __bool__(self):
        return eng().fork(zb(self != 0))

    def __int__(self):
        c = _const(z3.simplify(self.e)) if hasattr(self, "e") else None
        if c is not None:
            return int(c)
        raise Unsupported("int() of a symbolic value")

    __index__ = __int__

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __format__(self, spec):
        return "<sym>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self


class SInt(_Base):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self): return f"SInt({self.e})"
    def __abs__(self): return SInt(z3.If(self.e >= 0, self.e, -self.e))
    def __neg__(self): return SInt(-self.e)
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def conjugate(self): return self
    conj = conjugate


class SReal(_Base):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self): return f"SReal({self.e})"
    def __abs__(self): return SReal(z3.If(self.e >= 0, self.e, -self.e))
    def __neg__(self): return SReal(-self.e)
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def conjugate(self): return self
    conj = conjugate
    def cos(self): return fcos(self)
    def sin(self): return fsin(self)
    def sqrt(self): return fsqrt(self)
    def exp(self): return fexp(self)


class SCplx(_Base):
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self): return f"SCplx({self.re},{self.im})"
    @property
    def real(self): return SReal(self.re)
    @property
    def imag(self): return SReal(self.im)
    def conjugate(self): return SCplx(self.re, -self.im)
    conj = conjugate
    def __abs__(self): return fsqrt(SReal(self.re * self.re + self.im * self.im))
    def __neg__(self): return SCplx(-self.re, -self.im)
    def exp(self): return fexp(self)
    def __hash__(self): raise Unsupported("hash of a symbolic value")


class SBool(_Base):
    __slots__ = ("e", "strong")         # strong: see vec.veq

    def __init__(self, e):
        self.e = e

    def __repr__(self): return f"SBool({self.e})"
    def __bool__(self): return eng().fork(self.e)
    def __and__(self, o): return SBool(z3.And(self.e, zb(o)))
    def __rand__(self, o): return SBool(z3.And(zb(o), self.e))
    def __or__(self, o): return SBool(z3.Or(self.e, zb(o)))
    def __ror__(self, o): return SBool(z3.Or(zb(o), self.e))
    def __invert__(self): return SBool(z3.Not(self.e))


PI = SReal(z3.Real("PI"))
_COS = z3.Function("cos", z3.RealSort(), z3.RealSort())
_SIN = z3.Function("sin", z3.RealSort(), z3.RealSort())
_SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
_EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())


def _poly(e, depth=0):
    """{tuple of (atom id) : (coef, atoms)} of a real polynomial"""
    c = _const(e)
    if c is not None:
        return {(): (Fraction(c), ())} if c != 0 else {}
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        out = {}
        for n, ch in enumerate(e.children()):
            sg = -1 if (k == z3.Z3_OP_SUB and n > 0) else 1
            for m, (q, at) in _poly(ch, depth + 1).items():
                v = out.get(m, (0, at))[0] + sg * q
                out[m] = (v, at)
        return {m: v for m, v in out.items() if v[0] != 0}
    if k == z3.Z3_OP_UMINUS:
        return {m: (-q, at) for m, (q, at) in _poly(e.arg(0), depth + 1).items()}
    if k == z3.Z3_OP_MUL:
        out = {(): (Fraction(1), ())}
        for ch in e.children():
            pc = _poly(ch, depth + 1)
            nxt = {}
            for m1, (q1, a1) in out.items():
                for m2, (q2, a2) in pc.items():
                    at = tuple(sorted(a1 + a2, key=lambda t: t.get_id()))
                    m = tuple(t.get_id() for t in at)
                    nxt[m] = (nxt.get(m, (0, at))[0] + q1 * q2, at)
            out = {m: v for m, v in nxt.items() if v[0] != 0}
            if len(out) > 400:
                raise Unsupported("polynomial too large")
        return out
    if k == z3.Z3_OP_DIV:
        d = _const(e.arg(1))
        if d is not None and d != 0:
            return {m: (q / Fraction(d), at) for m, (q, at) in _poly(e.arg(0), depth + 1).items()}
    if k == z3.Z3_OP_TO_REAL:
        ch = e.arg(0)
        kk = ch.decl().kind() if z3.is_app(ch) else None
        if kk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
            sub = [z3.ToReal(x) for x in ch.children()]
            if kk == z3.Z3_OP_ADD:
                return _poly(z3.Sum(sub))
            if kk == z3.Z3_OP_SUB:
                return _poly(sub[0] - z3.Sum(sub[1:]))
            if kk == z3.Z3_OP_UMINUS:
                return _poly(-sub[0])
            return _poly(z3.Product(sub))
        c = _const(ch)
        if c is not None:
            return {(): (Fraction(c), ())} if c != 0 else {}
    _KEEP.append(e)
    return {(e.get_id(),): (Fraction(1), (e,))}


_KEEP = []


def canon(e):
    """canonical polynomial form of a real argument (one constant per monomial)"""
    p = _poly(z3.simplify(e))
    if not p:
        return z3.RealVal(0)
    ts = []
    for m in sorted(p, key=lambda m: (len(m), m)):
        q, at = p[m]
        fs = list(at)
        if q != 1 or not fs:
            fs = [z3.RealVal(str(q))] + fs
        r = fs[0]
        for f in fs[1:]:
            r = r * f
        ts.append(r)
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


def _sign_score(a):
    """(number of positive) - (number of negative) monomials: independent of variable names"""
    return sum(1 if q > 0 else -1 for q, _ in _poly(a).values())


def _split_sign(e):
    """x -> (canonical argument, negated?) so that f(-x) meets f(x)"""
    a = canon(e)
    return (canon(-e), True) if _sign_score(a) < 0 else (a, False)


def _parity(a):
    """arguments with as many positive as negative monomials are linked to their negation"""
    if E is not None and _sign_score(a) == 0 and not E.spec_depth_q():
        b = canon(-a)
        E.note_fact(z3.And(_COS(b) == _COS(a), _SIN(b) == -_SIN(a)))


def fcos(x):
    if kind(x) == "cplx":
        raise Unsupported("complex cos")
    if _isz(canon(zr(x))):
        return SReal(z3.RealVal(1))
    a, _ = _split_sign(zr(x))
    if E is not None:
        E.note_trig(a)
        _parity(a)
    return SReal(_COS(a))


def fsin(x):
    if _isz(canon(zr(x))):
        return SReal(z3.RealVal(0))
    a, neg = _split_sign(zr(x))
    if E is not None:
        E.note_trig(a)
        _parity(a)
    return SReal(-_SIN(a) if neg else _SIN(a))


def _squarefree(n):
    """n = k^2 * product of distinct primes"""
    if n > 10 ** 8:
        return None
    k, ps, d = 1, [], 2
    while d * d <= n:
        c = 0
        while n % d == 0:
            n //= d
            c += 1
        k *= d ** (c // 2)
        if c % 2:
            ps.append(d)
        d += 1
    if n > 1:
        ps.append(n)
    return k, ps


def fsqrt(x):
    if kind(x) == "cplx":
        raise Unsupported("complex sqrt")
    a = z3.simplify(zr(x), som=True)
    c = _const(a)
    if c is not None and c >= 0:
        f = Fraction(c)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return SReal(z3.RealVal(str(Fraction(n, d))))
        sf = _squarefree(f.numerator * f.denominator)
        if sf is not None:
            # sqrt(p/q) = k/q * product of roots of primes: one form for equal numbers
            k, primes = sf
            r = SReal(z3.RealVal(str(Fraction(k, f.denominator))))
            for p_ in primes:
                s = _SQRT(z3.RealVal(p_))
                if E is not None:
                    E.note_fact(z3.And(s > 0, s * s == p_))
                r = r * SReal(s)
            return r
    s = _SQRT(a)
    if E is not None:
        E.note_fact(z3.Implies(a >= 0, z3.And(s >= 0, s * s == a)))
    return SReal(s)


def fexp(x):
    re, im = zc(x)
    mag = SReal(_EXP(canon(re))) if not _isz(canon(re)) else SReal(z3.RealVal(1))
    if E is not None and not _isz(canon(re)):
        E.note_fact(mag.e > 0)
    if kind(x) != "cplx":
        return mag
    c, s = fcos(SReal(im)), fsin(SReal(im))
    return SCplx(_m(mag.e, c.e), _m(mag.e, s.e))


# ----------------------------------------------------------------- arrays
_SORT = {"int": z3.IntSort, "real": z3.RealSort, "bool": z3.BoolSort}


def _arr_sort(k, nd):
    s = _SORT[k]()
    for _ in range(nd):
        s = z3.ArraySort(z3.IntSort(), s)
    return s


def _zero(k, nd):
    v = {"int": z3.IntVal(0), "real": z3.RealVal(0), "bool": z3.BoolVal(False)}[k]
    for _ in range(nd):
        v = z3.K(z3.IntSort(), v)
    return v


def _sel(a, idx):
    for i in idx:
        a = z3.Select(a, i)
    return a


def _sto(a, idx, v):
    if not idx:
        return v
    if len(idx) == 1:
        return z3.Store(a, idx[0], v)
    return z3.Store(a, idx[0], _sto(z3.Select(a, idx[0]), idx[1:], v))


def kind_of_dtype(dt):
    import numpy as np
    if dt is None:
        return "real"
    if dt in (int, float, complex, bool):
        return {int: "int", float: "real", complex: "cplx", bool: "bool"}[dt]
    k = np.dtype(dt).kind
    if k in "iu":
        return "int"
    if k == "f":
        return "real"
    if k == "c":
        return "cplx"
    if k == "b":
        return "bool"
    raise Unsupported(f"dtype {dt}")


class SArr:
    """array with symbolic contents; `shape` entries are ints or SInt."""
    __array_ufunc__ = None

    def __init__(self, k, shape, name=None, parts=None, dtype=None, zero=False):
        self.k = k
        self.shape = tuple(shape)
        self.nd = len(self.shape)
        self.dtype = dtype
        pk = "real" if k == "cplx" else k
        self.pk = pk
        self.name = name or (eng().fresh_name("arr") if E else "arr")
        if parts is not None:
            self.parts = list(parts)
        elif zero:
            self.parts = [_zero(pk, self.nd) for _ in range(2 if k == "cplx" else 1)]
        else:
            self.parts = self._fresh(self.name)
        if E is not None:
            E.register_array(self)

    def _fresh(self, nm):
        srt = _arr_sort(self.pk, self.nd)
        if self.k == "cplx":
            return [z3.Const(nm + ".re", srt), z3.Const(nm + ".im", srt)]
        return [z3.Const(nm, srt)]

    # ---- copies
    def snapshot(self):
        s = object.__new__(SArr)
        s.k, s.shape, s.nd, s.pk, s.name = self.k, self.shape, self.nd, self.pk, self.name
        s.parts, s.dtype = list(self.parts), self.dtype
        s.aid = None
        return s

    def copy(self):
        return SArr(self.k, self.shape, parts=self.parts, dtype=self.dtype)

    def __deepcopy__(self, memo):
        return self.copy()

    def havoc(self, nm):
        self.parts = self._fresh(nm)

    # ---- access
    def _idx(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        return idx

    def _check(self, zidx, what):
        e = eng()
        if e.spec_depth:
            return
        conds = []
        for i, n in zip(zidx, self.shape):
            nz = zi(n)
            ci, cn = _const(i), _const(nz)
            if ci is not None and cn is not None:
                if not (0 <= ci < cn):
                    conds.append(z3.BoolVal(False))
                continue
            conds.append(z3.And(i >= 0, i < nz))
        if conds:
            e.oblige(z3.And(*conds) if len(conds) > 1 else conds[0],
                     f"bounds:{self.name.split('!')[0]}:{what}", soft="bounds")

    def get(self, zidx):
        v = [z3.simplify(_sel(p, zidx)) if z3.is_store(p) or z3.is_K(p) else _sel(p, zidx)
             for p in self.parts]
        if self.k == "cplx":
            return SCplx(v[0], v[1])
        return mk(self.k, v[0])

    def __getitem__(self, idx):
        idx = self._idx(idx)
        if any(isinstance(i, slice) for i in idx):
            return self._slice(idx)
        if len(idx) == 1 and isinstance(idx[0], SArr) and idx[0].k == "int" and idx[0].nd == 1 and self.nd == 1:
            ind = idx[0]
            eng().oblige(zb(fa([(0, ind.shape[0])], lambda k: And(0 <= ind[k], ind[k] < self.shape[0]))),
                         f"bounds:{self.name.split('!')[0]}:gather", soft="bounds")
            return self._mapped(ind.shape[0], lambda k: ind[k])
        if any(isinstance(i, (list, SArr, tuple)) or (hasattr(i, "ndim") and getattr(i, "ndim") > 0) for i in idx):
            raise Unsupported("fancy index")
        z = tuple(zi(i) for i in idx)
        z = tuple(z3.IntVal(_const(i) + _const(zi(n))) if _const(i) is not None and _const(i) < 0
                  and _const(zi(n)) is not None and eng().wrap_ok else i
                  for i, n in zip(z, self.shape))
        if len(z) > self.nd:
            raise IndexError("too many indices")
        self._check(z, "read")
        if len(z) == self.nd:
            return self.get(z)
        return SView(self, z)

    def _mapped(self, n, at):
        """fresh array r with r[k] == self[at(k)] for k < n (numpy fancy index or copied slice)"""
        e = eng()
        src = self.snapshot()
        r = SArr(self.k, (n,) + self.shape[1:], name=e.fresh_name("map"), dtype=self.dtype)
        rd = lambda a, k: a.get((zi(k),))
        e.assume(zb(fa([(0, n)], lambda k: rd(r, k) == rd(src, at(k)), pats=lambda k: rd(r, k))))
        return r

    def _slice(self, idx):
        full = slice(None, None, None)

        def isfull(s):
            return isinstance(s, slice) and s == full
        if all(isfull(i) for i in idx):
            return SView(self, ())
        # leading fixed indices followed by full slices
        n = 0
        while n < len(idx) and not isinstance(idx[n], slice):
            n += 1
        if n and all(isfull(i) for i in idx[n:]):
            return self[idx[:n]]
        if len(idx) == 1 or all(isfull(i) for i in idx[1:]):
            s = idx[0]
            if isinstance(s, slice) and s.start in (None, 0) and s.step in (None, 1):
                r = SArr(self.k, (s.stop,) + self.shape[1:], parts=self.parts, dtype=self.dtype)
                e = eng()
                e.oblige(zb(And(0 <= s.stop, s.stop <= self.shape[0])), "slice-bounds", soft="bounds")
                return r
            if isinstance(s, slice) and s.step in (None, 1) and self.nd == 1 and s.stop is not None:
                eng().oblige(zb(And(0 <= s.start, s.start <= s.stop, s.stop <= self.shape[0])), "slice-bounds", soft="bounds")
                r = self._mapped(s.stop - s.start, lambda k: k + s.start)
                r.readonly = True       # a numpy slice is a view: only reading it is modelled
                return r
        raise Unsupported("slice")

    def set(self, zidx, v):
        if self.k == "cplx":
            re, im = zc(v)
            vs = [re, im]
        elif self.k == "real":
            if kind(v) == "cplx":
                raise Unsupported("complex into real array")
            vs = [zr(v)]
        elif self.k == "int":
            if kind(v) in ("real", "cplx"):
                raise Unsupported("real into int array")
            vs = [zi(v)]
        else:
            vs = [zb(v)]
        self.parts = [_sto(p, zidx, x) for p, x in zip(self.parts, vs)]

    def __setitem__(self, idx, v):
        idx = self._idx(idx)
        if any(isinstance(i, slice) for i in idx):
            full = slice(None, None, None)
            if all(isinstance(i, slice) and i == full for i in idx) and kind(v) is not None:
                if self.k == "cplx":
                    re, im = zc(v)
                    vs = [re, im]
                else:
                    vs = [{"real": zr, "int": zi, "bool": zb}[self.k](v)]
                out = []
                for x in vs:
                    for _ in range(self.nd):
                        x = z3.K(z3.IntSort(), x)
                    out.append(x)
                self.parts = out
                eng().touch(self)
                return
            n = 0
            while n < len(idx) and not isinstance(idx[n], slice):
                n += 1
            if n and all(isinstance(i, slice) and i == full for i in idx[n:]) and n == self.nd - 1:
                ln = _const(zi(self.shape[-1]))
                if ln is not None and ln <= 16:
                    for q in range(ln):
                        self[tuple(idx[:n]) + (q,)] = v if kind(v) is not None else v[q]
                    return
            raise Unsupported("slice store")
        if getattr(self, "readonly", False):
            raise Unsupported("write through a slice")
        z = tuple(zi(i) for i in idx)
        if len(z) < self.nd:
            ln = _const(zi(self.shape[len(z)]))
            if ln is not None and ln <= 16:
                for q in range(ln):
                    self[tuple(idx) + (q,)] = v if kind(v) is not None else v[q]
                return
            raise Unsupported("row store")
        if len(z) != self.nd:
            raise IndexError("bad index")
        self._check(z, "write")
        self.set(z, v)
        eng().touch(self)

    def __len__(self):
        c = _const(zi(self.shape[0]))
        if c is None:
            raise Unsupported("len of symbolic array (use the shim)")
        return c

    def __iter__(self):
        c = _const(zi(self.shape[0]))
        if c is None:
            raise Unsupported("iteration over symbolic array")
        return iter([self[i] for i in range(c)])

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    @property
    def ndim(self):
        return self.nd

    @property
    def base(self):
        return self

    def astype(self, dt):
        return self


class SView:
    """a row (fixed leading indices) of an SArr: shares storage."""
    __array_ufunc__ = None

    def __init__(self, arr, z):
        self.arr, self.z = arr, z
        self.shape = arr.shape[len(z):]
        self.k = arr.k
        self.nd = len(self.shape)
        self.dtype = arr.dtype

    def _cat(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        return tuple(SInt(i) for i in self.z) + idx

    def __getitem__(self, idx):
        if isinstance(idx, slice) and idx == slice(None, None, None):
            return self
        return self.arr[self._cat(idx)]

    def __setitem__(self, idx, v):
        self.arr[self._cat(idx)] = v

    def __len__(self):
        c = _const(zi(self.shape[0]))
        if c is None:
            raise Unsupported("len of symbolic view")
        return c

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def snapshot(self):
        return SView(self.arr.snapshot(), self.z)

    def copy(self):
        return SArr(self.arr.k, self.shape, parts=[_sel(p, self.z) for p in self.arr.parts],
                    dtype=self.arr.dtype)

    @property
    def ndim(self):
        return self.nd


# ----------------------------------------------------------------- engine
class Obligation:
    __slots__ = ("label", "status", "backend", "secs", "fn", "detail", "cls")

    def __init__(self, label, status, backend, secs, fn, detail="", cls="ensures"):
        self.label, self.status, self.backend = label, status, backend
        self.secs, self.fn, self.detail, self.cls = secs, fn, detail, cls


class Engine:
    ring = None

    def __init__(self, fn_name, timeout_ms=8000, max_paths=4000, use_cvc5=True):
        self.fn = fn_name
        self.timeout = timeout_ms
        self.max_paths = max_paths
        self.use_cvc5 = use_cvc5
        self.obligations = {}       # key -> Obligation
        self.dropped = set()        # (loopkey, inv name)
        self.weak = set()           # dropped because undecided, not because refuted
        self.gdropped = set()       # those of them that have alternatives (see vec.veq)
        self.loop_mods = {}         # loopkey -> set(array ids)
        self.loop_kinds = {}        # (loopkey, local) -> widened type or 'unbound'
        self.restart = False
        self.ptr_seen = {}          # loopkey -> pointer configurations
        self.inv_seen = {}          # loopkey -> names
        self.spec_depth = 0
        self.solver_s = 0.0
        self.soft_assumed = {}      # class -> labels assumed instead of proved
        self.soft_policy = {}       # class -> "prove" | "assume"
        self.invariants = []
        self.sums = []
        self.trig_pyth = False
        self.wrap_ok = False
        self.stats = {"paths": 0, "forks": 0, "ends": 0}
        self.reached_end = 0
        self.cache = {}
        self.deadline = None
        self.frames = []
        self.assume_log = []

    dry = False         # only find out which arrays each loop writes

    # ---- per run state
    def begin(self, prefix):
        self.prefix = prefix
        self.dec = []
        self.pc = []
        self.pc_set = set()
        self.qf = z3.Solver()
        self.qf.set("timeout", 300)
        self.counter = 0
        self.arrays = []
        self.touched = []
        self.loops = []
        self.trig_seen = set()
        self.spec_depth = 0
        self.pushes = []
        self.old = {}
        self.frames = []

    def fresh_name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def fresh(self, k, base="v"):
        n = self.fresh_name(base)
        if k == "cplx":
            return SCplx(z3.Real(n + ".re"), z3.Real(n + ".im"))
        return mk(k, z3.Const(n, _SORT[k]()))

    def register_array(self, a):
        a.aid = len(self.arrays)
        self.arrays.append(a)

    def touch(self, a):
        aid = getattr(a, "aid", None)
        for lp in self.loops:
            if aid is not None and aid < lp.narr:
                lp.touched.add(aid)

    def note_trig(self, a):
        if not self.trig_pyth or self.spec_depth_q():
            return
        k = a.get_id()
        if k in self.trig_seen:
            return
        self.trig_seen.add(k)
        self.keep = getattr(self, "keep", [])
        self.keep.append(a)
        self.assume(_COS(a) * _COS(a) + _SIN(a) * _SIN(a) == 1)

    def spec_depth_q(self):
        return getattr(self, "_binding", 0) > 0

    def note_fact(self, f):
        if self.spec_depth_q():
            return
        self.assume(f)

    # ---- path condition
    def assume(self, f, quantified=None):
        f = zb(f)
        if z3.is_true(f):
            return
        if f.get_id() in self.pc_set:
            return
        self.pc.append(f)
        self.pc_set.add(f.get_id())
        if not _has_quant(f):
            self.qf.add(f)

    def replaying(self):
        return len(self.dec) < len(self.prefix)

    def feasible(self, f):
        self.qf.push()
        self.qf.add(f)
        r = self.qf.check()
        self.qf.pop()
        return r != z3.unsat

    def choose(self, n, label=""):
        """nondeterministic choice without condition"""
        if self.replaying():
            d = self.prefix[len(self.dec)]
            self.dec.append(d)
            return d
        base = list(self.dec)
        for alt in range(n - 1, 0, -1):
            self.pushes.append(base + [alt])
        self.dec.append(0)
        return 0

    def fork(self, cond):
        if self.spec_depth:
            raise Unsupported("branch on symbolic value inside a specification")
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.stats["forks"] += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the generator exceeded")
        if self.replaying():
            d = self.prefix[len(self.dec)]
            self.dec.append(d)
            self.assume(cond if d else z3.Not(cond))
            return bool(d)
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if t and f:
            self.pushes.append(list(self.dec) + [0])
            self.dec.append(1)
            self.assume(cond)
            return True
        if not t and not f:
            raise Infeasible()
        d = 1 if t else 0
        self.dec.append(d)
        self.assume(cond if d else z3.Not(cond))
        return bool(d)

    # ---- obligations
    def oblige(self, goal, label, cls="ensures", soft=None, on_fail=None):
        """returns True when discharged (or assumed by policy)."""
        goal = zb(goal)
        if self.dry:
            if soft:
                self.assume(goal)
            return True
        if self.replaying():
            # already generated on the path that created this prefix
            if soft:
                self.assume(goal)
            return True
        g = z3.simplify(goal)
        if soft and self.soft_policy.get(soft) == "assume":
            self.soft_assumed.setdefault(soft, set()).add(label)
            self.assume(goal)
            return True
        cls2 = soft or cls
        if z3.is_true(g):
            self._record(label, "discharged", "simplify", 0.0, cls2)
            return True
        key = (frozenset(f.get_id() for f in self.pc), g.get_id())
        if key in self.cache:
            st = self.cache[key][0]
            self._record(label, st, self.cache[key][3], 0.0, cls2, self.cache[key][4])
        else:
            st, be, det = self.discharge(g, label, cls2)
            self.cache[key] = (st, list(self.pc), g, be, det)
        if soft:
            self.assume(goal)
        self.last_status = st
        if st != "discharged" and on_fail is not None:
            on_fail()
        return st == "discharged"

    def _record(self, label, status, backend, secs, cls, detail=""):
        o = self.obligations.get(label)
        n = Obligation(label, status, backend, secs, self.fn, detail, cls)
        if o is None:
            self.obligations[label] = n
            n_inst = 1
        else:
            if o.status == "discharged" and status != "discharged":
                self.obligations[label] = n
            elif o.status == "unknown" and status == "refuted":
                self.obligations[label] = n
        self.counts = getattr(self, "counts", {})
        self.counts[label] = self.counts.get(label, 0) + 1
        self.bk = getattr(self, "bk", {})
        self.bk[backend] = self.bk.get(backend, 0) + 1

    def discharge(self, goal, label, cls):
        t0 = time.time()
        if DUMP and DUMP in label:
            s_ = z3.Solver()
            s_.add(*self.pc)
            s_.add(z3.Not(goal))
            open(f"/tmp/dump{os.getpid()}_{self.counter}.smt2", "w").write(s_.to_smt2())
            print("dumped", label, self.counter, flush=True)
        if self.ring is not None and self.ring.proves(goal):
            st, be, det = "discharged", "ring", ""
        elif self.rewrite and rewrite_proves(self, goal):
            st, be, det = "discharged", "rewriting+ring", ""
        else:
            st, be, det = solve(self.pc, goal, self.timeout, self.use_cvc5)
            if st == "unknown" and not self.rewrite and rewrite_proves(self, goal):
                st, be, det = "discharged", "rewriting+ring", ""
        dt = time.time() - t0
        self.solver_s += dt
        if SLOW and dt > SLOW:
            print(f"  slow {dt:.1f}s {st} {be} {label}", flush=True)
        self._record(label, st, be, dt, cls, det)
        return st, be, det

    rewrite = False

    # ---- exploration
    def explore(self, run):
        """run(engine) executes one path; returns list of outcomes"""
        global E
        stack = [[]]
        n = 0
        outcomes = []
        while stack:
            pre = stack.pop()
            n += 1
            self.stats["paths"] = self.stats.get("paths", 0) + 1
            if n > self.max_paths:
                raise Unsupported("too many paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget of the generator exceeded")
            self.begin(pre)
            E = self
            try:
                run(self)
                self.reached_end += 1
                outcomes.append("end")
            except RestartNow:
                stack.clear()
                outcomes.append("cut")
            except PathEnd:
                self.stats["ends"] += 1
                outcomes.append("cut")
            except Infeasible:
                outcomes.append("infeasible")
            finally:
                E = None
            stack.extend(self.pushes)
        return outcomes


def rewrite_proves(e, goal):
    from . import rewrite
    if not rewrite.nonlinear(goal) and not any(rewrite.nonlinear(f) for f in e.pc):
        return False
    return rewrite.RW(e.pc, e.ring).prove(goal)


def _has_quant(f, _seen=None):
    seen = _seen if _seen is not None else set()
    st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


SLOW = float(os.environ.get('VK_SLOW', '0'))
DUMP = os.environ.get('VK_DUMP', '')
DEBUG = os.environ.get('VK_DEBUG', '')
STAT = {"z3": 0, "cvc5": 0}


def _occurs(v, x):
    return v.eq(x) or any(_occurs(v, c) for c in x.children())


def _overlap(f):
    """indices (i, j) of the first read at j of an array written at i, i and j not syntactically equal"""
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_select(x) and z3.is_store(x.arg(0)) and z3.is_int(x.arg(1)) and not x.arg(1).eq(x.arg(0).arg(1)):
            return x.arg(0).arg(1), x.arg(1)
        todo += x.children()
    return None


def solve(pc, goal, timeout_ms, use_cvc5=True, depth=3):
    """-> (status, backend, detail); status in discharged/refuted/unknown"""
    ng = z3.Not(goal)
    quant = _has_quant(ng) or any(_has_quant(f) for f in pc)
    plans = [("z3", {})]
    if quant:
        plans = [("z3", {"smt.mbqi": False, "auto_config": False}),
                 ("z3", {})]
    model = None
    for nm, opts in plans:
        s = z3.SolverFor("ALL") if False else z3.Solver()
        try:
            for k, v in opts.items():
                s.set(k, v)
        except z3.Z3Exception:
            pass
        t = timeout_ms if opts else timeout_ms
        if quant and opts:
            t = max(1500, timeout_ms // 2)
        s.set("timeout", int(t))
        s.add(*pc)
        s.add(ng)
        r = s.check()
        if r == z3.unsat:
            return "discharged", "z3", ""
        if r == z3.sat and not opts:
            try:
                model = str(s.model())[:1500]
            except z3.Z3Exception:
                model = ""
            return "refuted", "z3", model
    if not quant and depth:
        # an array read over a write at a place that may be the same: by cases
        ij = _overlap(goal)
        if ij is not None:
            i, j = ij
            v, x = (i, j) if z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED else (j, i)
            same = []
            if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and not _occurs(v, x):
                same = [solve([z3.substitute(f, (v, x)) for f in pc], z3.simplify(z3.substitute(goal, (v, x))), timeout_ms, False, depth - 1)]
                if same[0][0] == "discharged":
                    other = solve(list(pc) + [i != j], z3.simplify(z3.substitute(goal, (i == j, z3.BoolVal(False)))), timeout_ms, False, depth - 1)
                    if other[0] == "discharged":
                        return "discharged", "z3", ""
    if not quant:
        # nonlinear: a second z3 strategy
        try:
            s = z3.Then("simplify", "solve-eqs", "qfnra-nlsat").solver()
            s.set("timeout", int(timeout_ms))
            s.add(*pc)
            s.add(ng)
            r = s.check()
            if r == z3.unsat:
                return "discharged", "z3-nlsat", ""
            if r == z3.sat:
                return "refuted", "z3-nlsat", str(s.model())[:1500]
        except z3.Z3Exception:
            pass
    if use_cvc5:
        r = run_cvc5(list(pc) + [ng], timeout_ms)
        if r == "unsat":
            return "discharged", "cvc5", ""
        if r == "sat":
            return "refuted", "cvc5", ""
    return "unknown", "z3+cvc5", ""


def run_cvc5(fs, timeout_ms):
    s = z3.Solver()
    s.add(*fs)
    txt = s.to_smt2()
    txt = txt.replace("(set-info :status unknown)", "")
    pre = "(set-logic ALL)\n"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(pre + txt)
        p = f.name
    try:
        r = subprocess.run(["cvc5", "--tlimit", str(int(timeout_ms)), "--arrays-exp", p],
                           capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        o = r.stdout.strip().splitlines()
        return o[0] if o else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(p)


# ----------------------------------------------------------------- DSL
def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    if any(isinstance(x, SBool) or z3.is_expr(x) for x in xs):
        return SBool(z3.And(*[zb(x) for x in xs]))
    return all(bool(x) for x in xs)


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    if any(isinstance(x, SBool) or z3.is_expr(x) for x in xs):
        return SBool(z3.Or(*[zb(x) for x in xs]))
    return any(bool(x) for x in xs)


def Not(x):
    if isinstance(x, SBool):
        return SBool(z3.Not(x.e))
    return not x


def imp(a, b):
    """implication; b may be a thunk (lazily evaluated in concrete mode)."""
    if isinstance(a, SBool):
        if callable(b):
            b = b()
        return SBool(z3.Implies(a.e, zb(b)))
    if not a:
        return True
    return b() if callable(b) else b


def ite(c, a, b):
    if isinstance(c, SBool):
        cc = _const(z3.simplify(c.e))
        if cc is not None:
            r = a if cc else b
            return r() if callable(r) else r
        a = a() if callable(a) else a
        b = b() if callable(b) else b
        ka, kb = kind(a), kind(b)
        if "cplx" in (ka, kb):
            (ar, ai), (br, bi) = zc(a), zc(b)
            return SCplx(z3.If(c.e, ar, br), z3.If(c.e, ai, bi))
        if "real" in (ka, kb):
            return SReal(z3.If(c.e, zr(a), zr(b)))
        if ka == kb == "bool":
            return SBool(z3.If(c.e, zb(a), zb(b)))
        return SInt(z3.If(c.e, zi(a), zi(b)))
    r = a if c else b
    return r() if callable(r) else r


TOL = 1e-8


def eq(a, b):
    """exact equality symbolically; tolerant on concrete floats."""
    if is_sym(a) or is_sym(b):
        return a == b
    d = abs(a - b)
    return d <= TOL * (1.0 + abs(a) + abs(b))


_bv = [0]


def _bound_vars(n):
    out = []
    for _ in range(n):
        _bv[0] += 1
        out.append(z3.Int(f"b!{_bv[0]}"))
    return out


def symbolic_mode():
    return E is not None


def fa(ranges, body, pats=None):
    """forall over integer ranges: ranges = [(lo, hi), ...] half open"""
    if not isinstance(ranges, list):
        ranges = [ranges]
    if not symbolic_mode():
        def rec(k, vals):
            if k == len(ranges):
                return bool(body(*vals))
            lo, hi = ranges[k]
            if callable(lo):
                lo = lo(*vals)
            if callable(hi):
                hi = hi(*vals)
            return all(rec(k + 1, vals + [v]) for v in range(int(lo), int(hi)))
        return rec(0, [])
    # small constant ranges are expanded
    if not any(callable(x) or x is None for r in ranges for x in r) and \
            all(_const(zi(lo)) is not None and _const(zi(hi)) is not None
                and _const(zi(hi)) - _const(zi(lo)) <= 6 for lo, hi in ranges):
        vals = [[]]
        for lo, hi in ranges:
            vals = [v + [q] for v in vals for q in range(_const(zi(lo)), _const(zi(hi)))]
        return And([body(*v) for v in vals]) if vals else True
    bs, e = _qbody(ranges, body)
    bvars, guard, fml = e
    kw = {}
    if pats is not None:
        ps = pats(*[SInt(b) for b in bvars])
        if not isinstance(ps, list):
            ps = [ps]
        zp = []
        for p in ps:
            if isinstance(p, tuple):
                zp.append(z3.MultiPattern(*[_pe(q) for q in p]))
            else:
                zp.append(_pe(p))
        kw["patterns"] = zp
    return SBool(z3.ForAll(bvars, z3.Implies(z3.And(*guard), fml), **kw))


def _pe(p):
    if isinstance(p, SCplx):
        return p.re
    return p.e if is_sym(p) else p


def _qbody(ranges, body):
    bvars = _bound_vars(len(ranges))
    E._binding = getattr(E, "_binding", 0) + 1
    E.spec_depth += 1
    try:
        guard = []
        vals = []
        for b, (lo, hi) in zip(bvars, ranges):
            if callable(lo):
                lo = lo(*vals)
            if callable(hi):
                hi = hi(*vals)
            if lo is not None:
                guard.append(b >= zi(lo))
            if hi is not None:
                guard.append(b < zi(hi))
            vals.append(SInt(b))
        fml = zb(body(*vals))
    finally:
        E._binding -= 1
        E.spec_depth -= 1
    return vals, (bvars, guard, fml)


def ex(ranges, body):
    if not isinstance(ranges, list):
        ranges = [ranges]
    if not symbolic_mode():
        def rec(k, vals):
            if k == len(ranges):
                return bool(body(*vals))
            lo, hi = ranges[k]
            if callable(lo):
                lo = lo(*vals)
            if callable(hi):
                hi = hi(*vals)
            return any(rec(k + 1, vals + [v]) for v in range(int(lo), int(hi)))
        return rec(0, [])
    _, (bvars, guard, fml) = _qbody(ranges, body)
    return SBool(z3.Exists(bvars, z3.And(*(guard + [fml]))))


class RecFn:
    """spec-level recursive function over a counter:
         F(0, *ps) = base(*ps);  F(n+1, *ps) = step(n, F(n,*ps), *ps)
    Symbolically an uninterpreted function; `unfold(n)` yields the defining
    equation at n (universally quantified over the parameters)."""

    def __init__(self, name, k, npar, base, step, prange=None):
        self.name, self.k, self.npar = name, k, npar
        self.base, self.step, self.prange = base, step, prange
        self._c = {}

    def bind(self, **kw):
        return self

    def _z(self):
        if not hasattr(self, "_f"):
            dom = [z3.IntSort()] * (self.npar + 1)
            if self.k == "cplx":
                self._f = [z3.Function(self.name + ".re", *dom, z3.RealSort()),
                           z3.Function(self.name + ".im", *dom, z3.RealSort())]
            else:
                self._f = [z3.Function(self.name, *dom, _SORT[self.k]())]
        return self._f

    def __call__(self, n, *ps):
        if symbolic_mode():
            a = [zi(n)] + [zi(p) for p in ps]
            v = [f(*a) for f in self._z()]
            return SCplx(*v) if self.k == "cplx" else mk(self.k, v[0])
        key = tuple(int(p) for p in ps)
        n = int(n)
        seq = self._c.get(key)
        if seq is None:
            seq = self._c[key] = [self.base(*ps)]
        while len(seq) <= n:
            m = len(seq) - 1
            seq.append(self.step(m, seq[m], *ps))
        return seq[n]

    def ax0(self):
        """F(0,.) = base"""
        if self.npar == 0:
            return eq(self(0), self.base())
        rg = [(None, None)] * self.npar
        return fa(rg, lambda *ps: eq(self(0, *ps), self.base(*ps)),
                  pats=lambda *ps: self(0, *ps))

    def unfold(self, n, n1=None):
        n1 = n + 1 if n1 is None else n1
        if self.npar == 0:
            return eq(self(n1), self.step(n, self(n)))
        rg = [(None, None)] * self.npar
        return fa(rg, lambda *ps: eq(self(n1, *ps), self.step(n, self(n, *ps), *ps)),
                  pats=lambda *ps: self(n1, *ps))
