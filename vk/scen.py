"""Scenario contracts: {arbitrary symbolic pre-state} real method {post-state obligations}.

The real module is loaded by the front end (nothing copied); the pre-state is a heap of
symbolic containers (SDict, SList) constrained only by the stated representation invariant;
obligations relate observations (usually made by calling the real query methods) before and
after the call.  Exceptions are observations too."""
from . import sym, front
from .contract import Contract
from .sym import SInt, SReal, SBool, SCplx, Unsupported, zi, zr, zb, zc, z3, kind


class Scenario(Contract):
    def __init__(self, name, run, invs=(), **kw):
        super().__init__(name, [], invs=invs, **kw)
        self.run = run

    def verify(self, ns=None, fn=None, registry=None):
        return super().verify({}, fn=lambda: None, registry={})

    def _run(self, e, fn):
        e.params = {}
        e.old = {}
        self.run(S(e))


class S:
    """facade given to scenarios"""

    def __init__(self, e):
        self.e = e

    def int(self, n, lo=None, hi=None):
        v = SInt(z3.Int(n))
        if lo is not None:
            self.e.assume(v.e >= zi(lo))
        if hi is not None:
            self.e.assume(v.e < zi(hi))
        return v

    def ints(self, names, **k):
        return tuple(self.int(n, **k) for n in names.split())

    def real(self, n):
        return SReal(z3.Real(n))

    def reals(self, names):
        return tuple(self.real(n) for n in names.split())

    def cplx(self, n):
        return SCplx(z3.Real(n + ".re"), z3.Real(n + ".im"))

    def bool(self, n):
        return SBool(z3.Bool(n))

    def assume(self, f):
        self.e.spec_depth += 1
        try:
            self.e.assume(zb(f))
        finally:
            self.e.spec_depth -= 1

    def ensure(self, label, f):
        self.e.spec_depth += 1
        try:
            g = zb(f() if callable(f) else f)
        finally:
            self.e.spec_depth -= 1
        self.e.oblige(g, "ensures " + label)

    def spec(self, f):
        self.e.spec_depth += 1
        try:
            return f()
        finally:
            self.e.spec_depth -= 1

    def raises(self, f, *a, **k):
        """-> (result, None) or (None, exception) of the code under contract"""
        try:
            return f(*a, **k), None
        except (Unsupported, sym.PathEnd, sym.Infeasible, sym.Skip):
            raise
        except z3.Z3Exception:
            raise
        except Exception as ex:
            return None, ex


# ------------------------------------------------------------------ values
def same(a, b):
    """symbolic equality of observations (numbers, None, bool, str, tuples) as a z3 Bool"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[same(x, y) for x, y in zip(a, b)]) if len(a) else z3.BoolVal(True)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return z3.BoolVal(a is b or (isinstance(a, str) and isinstance(b, str) and a == b))
    if isinstance(a, (SBool, bool)) or isinstance(b, (SBool, bool)):
        return zb(a) == zb(b)
    ka, kb = kind(a), kind(b)
    if "cplx" in (ka, kb):
        (x, y), (u, v) = zc(a), zc(b)
        return z3.And(x == u, y == v)
    if ka is None or kb is None:
        return z3.BoolVal(a is b or a == b)
    if ka == "int" and kb == "int":
        return zi(a) == zi(b)
    return zr(a) == zr(b)


def flat(k):
    if isinstance(k, (tuple, list)):
        out = []
        for x in k:
            out += flat(x)
        return out
    return [zi(k)]


# ------------------------------------------------------------------ dictionaries
class SDict:
    """dict with integer(-tuple) keys.  `arity` integers per key; values are numbers of kind `vk`
    or, when vk is an SDictSpec, dictionaries (flattened: inner entries live in self.inner)."""

    def __init__(self, arity=None, vk=None, name=None, inner_arity=None):
        self.arity, self.vk, self.inner_arity = arity, vk, inner_arity
        self.log = []               # newest last
        self.hasf = self.valf = None
        self.parent = None          # (outer, key) once stored in an outer dictionary
        self.py = None              # concrete dictionary (string keys)
        if name is not None:
            e = sym.eng()
            dom = [z3.IntSort()] * arity
            self.hasf = z3.Function(e.fresh_name(name + ".has"), *dom, z3.BoolSort())
            if vk == "dict":
                self.entries = SDict(arity + inner_arity, "cplx", name=name + ".entry")
            else:
                srt = {"int": z3.IntSort(), "real": z3.RealSort()}
                if vk == "cplx":
                    self.valf = [z3.Function(e.fresh_name(name + p), *dom, z3.RealSort()) for p in (".re", ".im")]
                else:
                    self.valf = [z3.Function(e.fresh_name(name + ".v"), *dom, srt[vk])]
        elif vk == "dict":
            self.entries = SDict(arity + inner_arity, "cplx")

    # --- snapshots
    def snapshot(self):
        c = SDict.__new__(SDict)
        c.__dict__.update(self.__dict__)
        c.log = list(self.log)
        if self.vk == "dict":
            c.entries = self.entries.snapshot()
        return c

    # --- logic level
    def has_z(self, k):
        if self.hasf is None:
            r = z3.BoolVal(False)
        else:
            r = self.hasf(*k)
        for op, key, _ in self.log:
            if op == "clear":
                r = z3.And(r, z3.Not(key(k)))
            else:
                c = z3.And(*[a == b for a, b in zip(k, key)]) if k else z3.BoolVal(True)
                r = z3.If(c, z3.BoolVal(op == "set"), r)
        return r

    def val_z(self, k):
        if self.vk == "cplx":
            r = [f(*k) for f in self.valf] if self.valf else [z3.RealVal(0)] * 2
        elif self.vk in ("int", "real"):
            r = [self.valf[0](*k)] if self.valf else [z3.IntVal(0) if self.vk == "int" else z3.RealVal(0)]
        for op, key, v in self.log:
            if op == "set":
                c = z3.And(*[a == b for a, b in zip(k, key)])
                r = [z3.If(c, x, y) for x, y in zip(v, r)]
        return r

    def _parts(self, v):
        if self.vk == "cplx":
            return list(zc(v))
        return [zi(v) if self.vk == "int" else zr(v)]

    def _val(self, k):
        p = self.val_z(k)
        if self.vk == "cplx":
            return SCplx(*p)
        return sym.mk(self.vk, p[0])

    # --- python level
    def _conc(self, k=None):
        """fresh dictionaries stay concrete when they are used with concrete (string) keys"""
        if self.py is None and self.hasf is None and not self.log and self.parent is None and self.vk is None \
                and (isinstance(k, str) or k is None):
            if k is None:
                return {}
            self.py = {}
        return self.py

    def _key(self, k):
        try:
            f = flat(k)
        except Exception:
            raise Unsupported(f"dictionary key {k!r}")
        if self.arity is None:
            self.arity = len(f)
        if len(f) != self.arity:
            raise Unsupported(f"dictionary key of length {len(f)}")
        return f

    def __contains__(self, k):
        if self._conc(k) is not None:
            return k in self.py
        k = self._key(k)
        if self.parent:
            o, kk = self.parent
            return o.entries.__contains__(kk + k)
        return sym.eng().fork(self.has_z(k))

    def __getitem__(self, k):
        if self._conc(k) is not None:
            return self.py[k]
        kk = self._key(k)
        if self.parent:
            o, pk = self.parent
            try:
                return o.entries[pk + kk]
            except KeyError:
                raise KeyError(k)
        if not sym.eng().fork(self.has_z(kk)):
            raise KeyError(k)
        if self.vk == "dict":
            r = SDict(self.inner_arity, "cplx")
            r.parent = (self, kk)
            return r
        return self._val(kk)

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def setdefault(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            self[k] = default
            return self[k]

    def __setitem__(self, k, v):
        if self._conc(k) is not None:
            self.py[k] = v
            return
        kk = self._key(k)
        if self.parent:
            o, pk = self.parent
            o.entries[pk + kk] = v
            return
        if self.vk is None:
            self.vk = {"int": "int", "real": "real", "cplx": "cplx"}.get(kind(v))
            if self.vk is None:
                raise Unsupported("dictionary value kind")
        if self.vk == "dict":
            if isinstance(v, dict) and not v:
                raise Unsupported("plain dictionary stored in a symbolic one")
            if not isinstance(v, SDict) or v.parent:
                raise Unsupported("value stored in a dictionary of dictionaries")
            self.log.append(("set", kk, None))
            n = len(kk)
            self.entries.log.append(("clear", lambda q, kk=kk, n=n: z3.And(*[a == b for a, b in zip(q[:n], kk)]), None))
            if v.hasf is not None:
                raise Unsupported("copy of a symbolic dictionary")
            if v.arity is None:
                v.arity = self.inner_arity
            for op, key, val in v.log:
                if op == "clear":
                    raise Unsupported("cleared dictionary")
                self.entries.log.append((op, kk + key, val))
            v.parent = (self, kk)
            v.vk = "cplx"
            return
        self.log.append(("set", kk, self._parts(v)))

    def pop(self, k, *default):
        if self._conc(k) is not None:
            return self.py.pop(k, *default)
        kk = self._key(k)
        if self.parent:
            o, pk = self.parent
            return o.entries.pop(pk + kk, *default)
        if not sym.eng().fork(self.has_z(kk)):
            if default:
                return default[0]
            raise KeyError(k)
        if self.vk == "dict":
            self.log.append(("del", kk, None))
            n = len(kk)
            self.entries.log.append(("clear", lambda q, kk=kk, n=n: z3.And(*[a == b for a, b in zip(q[:n], kk)]), None))
            return None
        r = self._val(kk)
        self.log.append(("del", kk, None))
        return r

    def __delitem__(self, k):
        self.pop(k)

    def __len__(self):
        if self._conc() is not None:
            return len(self._conc())
        raise Unsupported("length of a symbolic dictionary")

    def __bool__(self):
        if self._conc() is not None:
            return bool(self._conc())
        raise Unsupported("truth value of a symbolic dictionary")

    def _it(self, what):
        if self._conc() is not None:
            return getattr(self._conc(), what)()
        raise Unsupported("iteration over a symbolic dictionary")

    def __iter__(self):
        return iter(self._it("keys"))

    def keys(self):
        return self._it("keys")

    def values(self):
        return self._it("values")

    def items(self):
        return self._it("items")
    __hash__ = None


def new_dict(*a, **k):
    """the name `dict` inside instrumented modules"""
    if sym.E is None or a or k:
        return dict(*a, **k)
    return SDict()


class SDictType:
    def __call__(self, *a, **k):
        return new_dict(*a, **k)


# ------------------------------------------------------------------ sequences
def qvar(n="q"):
    e = sym.eng()
    return z3.Int(e.fresh_name("§" + n))


class SSeq(front.SymIter):
    """immutable sequence: length (SInt) and element function at(i)"""

    def __init__(self, n, at):
        self.n, self.at_ = n, at

    def count(self):
        return self.n

    def sym_len(self):
        return self.n

    def at(self, i):
        return self.at_(i)

    def vk_map(self, f):
        return SSeq(self.n, lambda i: f(self.at(i)))

    def vk_flatmap(self, it2, f):
        """[f(x, y) for x in self for y in it2(x)]: only inner sequences whose length does not depend on x"""
        e = sym.eng()
        probe = SInt(z3.Int(e.fresh_name("§p")))
        e.spec_depth += 1
        e._binding = getattr(e, "_binding", 0) + 1
        try:
            m = it2(self.at(probe))
        finally:
            e.spec_depth -= 1
            e._binding -= 1
        m = m.n if isinstance(m, SSeq) else len(m)
        if str(probe.e) in str(zi(m)):
            raise Unsupported("nested comprehension over sequences of varying length")

        def at(q):
            # q div m, q mod m for 0 <= q < n m, m > 0
            x, y = SInt(zi(q) / zi(m)), SInt(zi(q) % zi(m))
            a = self.at(x)
            inner = it2(a)
            return f(a, inner.at(y) if isinstance(inner, SSeq) else inner[y])
        return SSeq(self.n * m, at)

    def vk_tuple(self):
        return SSeq(self.n, self.at)

    def vk_enumerate(self, start=0):
        return SSeq(self.n, lambda i: (i + start, self.at(i)))

    def __getitem__(self, i):
        e = sym.eng()
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic sequence")
        if not e.fork(z3.And(zi(i) >= -zi(self.n), zi(i) < zi(self.n))):
            raise IndexError("list index out of range")
        if not e.fork(zi(i) >= 0):
            i = i + self.n
        return self.at(i)

    def eq_z(self, o):
        """content equality as a formula"""
        if not isinstance(o, SSeq):
            if isinstance(o, (tuple, list)):
                return z3.And(zi(self.n) == len(o), *[same(self.at(k), x) for k, x in enumerate(o)])
            raise Unsupported("comparison of a symbolic sequence")
        e = sym.eng()
        q = qvar()
        e.spec_depth += 1
        e._binding = getattr(e, "_binding", 0) + 1
        try:
            body = same(self.at(SInt(q)), o.at(SInt(q)))
        finally:
            e.spec_depth -= 1
            e._binding -= 1
        return z3.And(zi(self.n) == zi(o.n), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zi(self.n)), body)))

    def __eq__(self, o):
        return _Decide(self.eq_z(o))

    def __ne__(self, o):
        return _Decide(z3.Not(self.eq_z(o)))

    __hash__ = None

    def __bool__(self):
        return sym.eng().fork(zi(self.n) > 0)

    def __len__(self):
        raise Unsupported("len of a symbolic sequence outside instrumented code")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic sequence outside instrumented code")


class _Decide(SBool):
    """quantified condition: both outcomes are explored"""

    def __bool__(self):
        e = sym.eng()
        d = e.choose(2)
        f = self.e if d == 0 else z3.Not(self.e)
        e.assume(f)
        return d == 0


class SList(SSeq):
    """mutable list of records; `mkrec(parts)` builds an element, `parts(elem)` its z3 parts"""

    def __init__(self, name, sorts, mkrec, parts, n=None):
        e = sym.eng()
        self.name, self.sorts, self.mkrec, self.parts = name, sorts, mkrec, parts
        self.n = SInt(z3.Int(name + ".len")) if n is None else n
        e.assume(zi(self.n) >= 0)
        fs = [z3.Function(e.fresh_name(f"{name}.{k}"), z3.IntSort(), s) for k, s in enumerate(sorts)]
        self.fn = lambda q: [f(q) for f in fs]
        e.register_array(self)

    def at(self, i):
        return self.mkrec(self.fn(zi(i)))

    at_ = property(lambda self: self.at)

    def snapshot(self):
        fn, mkrec = self.fn, self.mkrec
        s = SSeq(self.n, lambda i: mkrec(fn(zi(i))))
        s.fn = fn
        return s

    vk_tuple = snapshot

    def havoc(self, nm):
        e = sym.eng()
        self.n = SInt(z3.Int(nm + ".len"))
        e.assume(zi(self.n) >= 0)
        fs = [z3.Function(f"{nm}.{k}", z3.IntSort(), s) for k, s in enumerate(self.sorts)]
        self.fn = lambda q: [f(q) for f in fs]

    def append(self, v):
        old, n, p = self.fn, zi(self.n), self.parts(v)
        self.fn = lambda q: [z3.If(q == n, x, y) for x, y in zip(p, old(q))]
        self.n = SInt(n + 1)
        sym.eng().touch(self)

    def __setitem__(self, i, v):
        e = sym.eng()
        if not e.fork(z3.And(zi(i) >= -zi(self.n), zi(i) < zi(self.n))):
            raise IndexError("list assignment index out of range")
        if not e.fork(zi(i) >= 0):
            i = i + self.n
        old, k, p = self.fn, zi(i), self.parts(v)
        self.fn = lambda q: [z3.If(q == k, x, y) for x, y in zip(p, old(q))]
        e.touch(self)

    def pop(self, i=-1):
        e = sym.eng()
        if not e.fork(z3.And(zi(i) >= -zi(self.n), zi(i) < zi(self.n))):
            raise IndexError("pop index out of range")
        if not e.fork(zi(i) >= 0):
            i = i + self.n
        old, k = self.fn, zi(i)
        r = self.mkrec(old(k))
        self.fn = lambda q: [z3.If(q < k, x, y) for x, y in zip(old(q), old(q + 1))]
        self.n = SInt(zi(self.n) - 1)
        e.touch(self)
        return r


# ------------------------------------------------------------------ sets of integer tuples
class SSet:
    def __init__(self, arity=None, name=None):
        self.arity, self.log = arity, []
        self.hasf = None
        if name is not None:
            self.hasf = z3.Function(sym.eng().fresh_name(name + ".has"), *([z3.IntSort()] * arity), z3.BoolSort())

    def has_z(self, k):
        r = self.hasf(*k) if self.hasf is not None else z3.BoolVal(False)
        e = sym.eng()
        for x in self.log:
            if isinstance(x, SSeq):
                q = qvar()
                e.spec_depth += 1
                e._binding = getattr(e, "_binding", 0) + 1
                try:
                    f = flat(x.at(SInt(q)))
                finally:
                    e.spec_depth -= 1
                    e._binding -= 1
                r = z3.Or(r, z3.Exists([q], z3.And(0 <= q, q < zi(x.n), *[a == b for a, b in zip(k, f)])))
            else:
                r = z3.Or(r, z3.And(*[a == b for a, b in zip(k, x)]))
        return r

    def add(self, v):
        self.log = self.log + [flat(v)]

    def update(self, *vs):
        for v in vs:
            if isinstance(v, SSeq):
                self.log = self.log + [v]
            else:
                for x in v:
                    self.add(x)

    def __contains__(self, k):
        return sym.eng().fork(self.has_z(flat(k)))

    def copy(self):
        c = SSet(self.arity)
        c.hasf, c.log = self.hasf, list(self.log)
        return c

    snapshot = copy

    def clear(self):
        self.hasf, self.log = None, []

    def __iter__(self):
        raise Unsupported("iteration over a symbolic set")

    def __len__(self):
        raise Unsupported("size of a symbolic set")
    __hash__ = None


def new_set(*a):
    if sym.E is None:
        return set(*a)
    if not a:
        return SSet()
    if isinstance(a[0], SSet):
        return a[0].copy()
    if isinstance(a[0], SSeq):
        r = SSet()
        r.update(a[0])
        return r
    return set(*a)


# ------------------------------------------------------------------ small dense arrays
class ObjNP(front.NPShim):
    """numpy on arrays of concrete shape whose elements are symbolic numbers (dtype object).
    Element-wise and linear-algebra calls keep their definition; what numpy can only do on machine
    numbers (norm, inv, det) is replaced by its defining formula."""

    def __init__(self):
        super().__init__()
        self.linalg = _ObjLinalg(self._np)

    def _alloc(self, shape, dtype, zero=True):
        a = self._np.zeros(tuple(int(x) for x in self._shape(shape)), dtype=object)
        a[...] = 0 if dtype in (int, "int", self._np.int32, self._np.int64) else 0.0
        return a

    def array(self, x, dtype=None, **k):
        if not _any_sym(x):
            return self._np.array(x, dtype=dtype, **k)
        a = self._np.array(x, dtype=object)
        if dtype is not None and sym.kind_of_dtype(dtype) == "int":
            raise Unsupported("conversion of symbolic numbers to integers")
        return a

    def asarray(self, x, dtype=None, **k):
        return x if isinstance(x, self._np.ndarray) and x.dtype == object else self.array(x, dtype=dtype)
    ascontiguousarray = asarray

    def _ew(self, f, g):
        def call(x, *a, **k):
            if not _any_sym(x):
                return g(x, *a, **k)
            if isinstance(x, self._np.ndarray):
                r = self._np.empty(x.shape, dtype=object)
                for i, v in self._np.ndenumerate(x):
                    r[i] = f(v) if sym.is_sym(v) else g(v)
                return r
            return f(x)
        return call

    def __getattr__(self, n):
        if n in ("cos", "sin", "exp", "sqrt", "conj", "conjugate", "abs", "absolute", "real", "imag"):
            pass
        return getattr(self._np, n)

    def cos(self, x): return self._ew(sym.fcos, self._np.cos)(x)
    def sin(self, x): return self._ew(sym.fsin, self._np.sin)(x)
    def exp(self, x): return self._ew(sym.fexp, self._np.exp)(x)
    def sqrt(self, x): return self._ew(sym.fsqrt, self._np.sqrt)(x) if _any_sym(x) else front.msqrt(x)
    def abs(self, x): return self._ew(abs, self._np.abs)(x)
    def sum(self, x, **k): return self._np.sum(x, **k)
    def max(self, x, **k): return self._np.max(x, **k)
    absolute = fabs = abs

    def conj(self, x): return self._ew(lambda v: v.conjugate(), self._np.conj)(x)
    conjugate = conj

    def prod(self, x, **k): return self._np.prod(x, **k)

    def dot(self, a, b): return self._np.dot(a, b)


class SRows(SList):
    """array of shape (n, w, ...): symbolic number of rows, concrete row shape (real entries)"""

    def __init__(self, name, n, shape, zero=False):
        import numpy as np
        self.row = tuple(shape)
        m = 1
        for q in self.row:
            m *= q

        def mkrec(p):
            r = np.empty(m, dtype=object)
            for k, x in enumerate(p):
                r[k] = SReal(x)
            return r.reshape(self.row)

        def parts(v):
            v = np.broadcast_to(np.asarray(v, dtype=object), self.row)
            return [zr(x) for x in v.flat]
        super().__init__(name, [z3.RealSort()] * m, mkrec, parts, n=n)
        if zero:
            self.fn = lambda q: [z3.RealVal(0)] * m

    @property
    def shape(self):
        return (self.n,) + self.row

    @property
    def ndim(self):
        return 1 + len(self.row)

    def havoc(self, nm):
        fs = [z3.Function(f"{nm}.{k}", z3.IntSort(), s) for k, s in enumerate(self.sorts)]
        self.fn = lambda q: [f(q) for f in fs]

    def copy(self):
        c = SRows(sym.eng().fresh_name(self.name + "'"), self.n, self.row)
        c.fn = self.fn
        return c

    def __getitem__(self, i):
        if isinstance(i, tuple):
            r = super().__getitem__(i[0])
            return r[i[1:]] if len(i) > 2 else r[i[1]]
        return super().__getitem__(i)

    def __setitem__(self, i, v):
        if isinstance(i, tuple):
            r = super().__getitem__(i[0])
            r[i[1:]] = v
            return super().__setitem__(i[0], r)
        return super().__setitem__(i, v)

    def __eq__(self, o):
        raise Unsupported("comparison of symbolic arrays")
    __ne__ = __eq__
    __hash__ = None

    def havoc_value(self, n):
        return self


class RowNP(ObjNP):
    """ObjNP plus arrays with a symbolic number of rows"""

    def _alloc(self, shape, dtype, zero=True):
        shape = self._shape(shape)
        if sym.is_sym(shape[0]):
            k = sym.kind_of_dtype(dtype) if dtype is not None else "real"
            if len(shape) == 1 or k != "real":
                return front.NPShim._alloc(self, shape, dtype, zero)
            return SRows(sym.eng().fresh_name("rows"), shape[0], [int(x) for x in shape[1:]], zero=True)
        return super()._alloc(shape, dtype, zero)

    def zeros(self, shape, dtype=None):
        return self._alloc(shape, dtype)

    def array(self, x, dtype=None, **k):
        if isinstance(x, SRows):
            return x.copy()
        if isinstance(x, SSeq):
            probe = self._np.array(x.at(SInt(z3.Int(sym.eng().fresh_name("§p")))), dtype=object)
            if probe.ndim == 0:
                raise Unsupported("array of scalars")
            r = SRows(sym.eng().fresh_name("rows"), x.n, probe.shape)
            r.fn = lambda q: [zr(v) for v in self._np.array(x.at(SInt(q)), dtype=object).flat]
            return r
        return super().array(x, dtype, **k)

    def linspace(self, a, b, n, **k):
        """definition: a + i (b - a) / (n - 1), and a alone for n = 1"""
        if not any(sym.is_sym(v) for v in (a, b, n)):
            return self._np.linspace(a, b, n, **k)
        if k:
            raise Unsupported("linspace options")
        return SSeq(n, lambda i: SReal(z3.If(zi(n) == 1, zr(a), zr(a + i * ((b - a) / (n - 1))))))


class _ObjLinalg:
    def __init__(self, np_):
        self._np = np_

    def __getattr__(self, n):
        if n in ("norm", "inv", "det", "solve"):
            raise AttributeError(n)
        f = getattr(self._np.linalg, n)

        def call(*a, **k):
            if any(_any_sym(x) for x in a):
                raise Unsupported("numpy.linalg." + n)
            return f(*a, **k)
        return call

    def norm(self, v, *a, **k):
        if not _any_sym(v):
            return self._np.linalg.norm(v, *a, **k)
        v = self._np.asarray(v, dtype=object)
        if a or k or v.ndim != 1:
            raise Unsupported("numpy.linalg.norm")
        hook = getattr(sym.eng(), "norm_hook", None)
        if hook is not None:
            r = hook(list(v))
            if r is not None:
                return r
        t = 0
        for x in v:
            t = t + x * x
        return sym.fsqrt(t)

    def solve(self, m, b):
        """assumed contract: fresh x with m x = b"""
        if not _any_sym(m) and not _any_sym(b):
            return self._np.linalg.solve(m, b)
        m, b = self._np.asarray(m, dtype=object), self._np.asarray(b, dtype=object)
        e = sym.eng()
        x = self._np.empty(b.shape, dtype=object)
        for i in self._np.ndindex(*b.shape):
            x[i] = e.fresh("real", "sol")
        r = self._np.dot(m, x)
        for i in self._np.ndindex(*b.shape):
            e.assume(zr(r[i]) == zr(b[i]))
        return x

    def det(self, m):
        if not _any_sym(m):
            return self._np.linalg.det(m)
        m = self._np.asarray(m, dtype=object)
        if m.shape == (2, 2):
            return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
        if m.shape != (3, 3):
            raise Unsupported("determinant")
        return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
                + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))

    def inv(self, m):
        """assumed contract: the matrix X of fresh symbols with m X = X m = 1"""
        if not _any_sym(m):
            return self._np.linalg.inv(m)
        m = self._np.asarray(m, dtype=object)
        n = m.shape[0]
        e = sym.eng()
        x = self._np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                x[i, j] = e.fresh("real", f"inv{i}{j}")
        from .sym import zr
        for p, q in ((m, x), (x, m)):
            r = self._np.dot(p, q)
            for i in range(n):
                for j in range(n):
                    e.assume(zr(r[i, j]) == (1 if i == j else 0))
        e.invs = getattr(e, "invs", []) + [(m, x)]
        return x


def _any_sym(x):
    import numpy as np
    if sym.is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(sym.is_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(_any_sym(v) for v in x)
    return False


def obj(xs):
    """1-d or nested sequence -> object array"""
    import numpy as np
    return np.array(xs, dtype=object)
