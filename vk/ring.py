"""Ring back end: equalities of polynomials (and of quotients by non-zero atoms) modulo rewriting
rules that are themselves hypotheses of the path (u.u = 1, sqrt(3)^2 = 3, ...).

A rule (lhs monomial -> polynomial) may only be registered when lhs == rhs has been discharged or
assumed on the path; y * inv(y) -> 1 only when y != 0 has been discharged.  Reducing both sides of an
equality to the same normal form is then a proof of it."""
from collections import Counter
from fractions import Fraction

from . import sym
from .sym import z3, _const


class TooBig(Exception):
    pass


class Ring:
    def __init__(self):
        self.atoms = {}          # id -> z3 expr (kept alive)
        self.inv = {}            # id of y -> id of inv(y)
        self.rules = []          # [(Counter, poly)]
        self.nonzero = set()
        self.named = {}          # canonical form -> atom id

    def atom(self, e):
        self.atoms[e.get_id()] = e
        return e.get_id()

    # ---- polynomials: {tuple(sorted atom ids): Fraction}
    def poly(self, e, memo=None):
        memo = {} if memo is None else memo
        i = e.get_id()
        if i in memo:
            return memo[i]
        r = self._poly(e, memo)
        memo[i] = r
        self.atoms.setdefault(i, e)
        return r

    def _poly(self, e, memo):
        c = _const(e)
        if c is not None:
            return {(): Fraction(c)} if c != 0 else {}
        k = e.decl().kind() if z3.is_app(e) else None
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            out = {}
            for n, ch in enumerate(e.children()):
                sg = -1 if (k == z3.Z3_OP_SUB and n > 0) else 1
                for m, q in self.poly(ch, memo).items():
                    out[m] = out.get(m, 0) + sg * q
            return {m: q for m, q in out.items() if q}
        if k == z3.Z3_OP_UMINUS:
            return {m: -q for m, q in self.poly(e.arg(0), memo).items()}
        if k == z3.Z3_OP_MUL:
            out = {(): Fraction(1)}
            for ch in e.children():
                out = self.mul(out, self.poly(ch, memo))
            return out
        if k == z3.Z3_OP_POWER:
            n = _const(e.arg(1))
            if n is not None and n == int(n) and 0 <= n <= 12:
                out, b = {(): Fraction(1)}, self.poly(e.arg(0), memo)
                for _ in range(int(n)):
                    out = self.mul(out, b)
                return out
        if k == z3.Z3_OP_DIV:
            num = self.poly(e.arg(0), memo)
            den = self.reduce(self.poly(e.arg(1), memo))
            if len(den) == 1:
                (m, q), = den.items()
                inv = tuple(self.inverse(a) for a in m)
                return self.reduce(self.mul(num, {tuple(sorted(inv)): 1 / q}))
            if den:
                # sum in the denominator: one reciprocal per polynomial (up to a constant factor)
                q = den[min(den)]
                key = ("reciprocal", frozenset((m, c / q) for m, c in den.items()))
                if key not in self.named:
                    self.named[key] = self.atom(z3.Real(f"reciprocal!{len(self.named)}"))
                return self.reduce(self.mul(num, {(self.named[key],): 1 / q}))
        if k == z3.Z3_OP_TO_REAL:
            ch = e.arg(0)
            kk = ch.decl().kind() if z3.is_app(ch) else None
            if kk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
                sub = [z3.ToReal(x) for x in ch.children()]
                if kk == z3.Z3_OP_ADD:
                    return self.poly(z3.Sum(sub), memo)
                if kk == z3.Z3_OP_SUB:
                    return self.poly(sub[0] - z3.Sum(sub[1:]), memo)
                if kk == z3.Z3_OP_UMINUS:
                    return self.poly(-sub[0], memo)
                return self.poly(z3.Product(sub), memo)
        if k == z3.Z3_OP_UNINTERPRETED and e.num_args() and any(z3.is_real(c) for c in e.children()):
            # the same function of equal polynomials is one atom
            key = (e.decl().name(),) + tuple(frozenset(self.reduce(self.poly(c, memo)).items()) if z3.is_real(c) else c.get_id()
                                             for c in e.children())
            if key not in self.named:
                self.named[key] = self.atom(e)
            return {(self.named[key],): Fraction(1)}
        return {(self.atom(e),): Fraction(1)}

    def mul(self, a, b):
        out = {}
        for m1, q1 in a.items():
            for m2, q2 in b.items():
                m = tuple(sorted(m1 + m2))
                out[m] = out.get(m, 0) + q1 * q2
        if len(out) > 6000:
            raise TooBig()
        return {m: q for m, q in out.items() if q}

    def inverse(self, a):
        if a not in self.inv:
            v = z3.Real(f"inv!{a}")
            self.inv[a] = self.atom(v)
            if a in self.nonzero:
                self.rules.append((Counter([a, self.inv[a]]), {(): Fraction(1)}))
        return self.inv[a]

    def reduce(self, p):
        todo, out, steps = dict(p), {}, 0
        while todo:
            m, q = todo.popitem()
            if not q:
                continue
            cm = Counter(m)
            for lhs, rhs in self.rules:
                if all(cm[a] >= n for a, n in lhs.items()):
                    rest = tuple((cm - lhs).elements())
                    for m2, q2 in rhs.items():
                        mm = tuple(sorted(rest + m2))
                        todo[mm] = todo.get(mm, 0) + q * q2
                    break
            else:
                out[m] = out.get(m, 0) + q
            steps += 1
            if steps > 200000:
                raise TooBig()
        return {m: q for m, q in out.items() if q}

    def declare_nonzero(self, e):
        (m, q), = self.poly(e).items()
        for a in m:
            self.nonzero.add(a)
            if a in self.inv:
                self.rules.append((Counter([a, self.inv[a]]), {(): Fraction(1)}))

    def rule(self, lhs, rhs):
        p = self.poly(lhs)
        (m, q), = p.items()
        r = {k: v / q for k, v in self.poly(rhs).items()}
        self.rules.append((Counter(m), r))

    def equal(self, a, b):
        try:
            p = self.poly(a)
            for m, q in self.poly(b).items():
                p = dict(p)
                p[m] = p.get(m, 0) - q
            return not self.reduce(p)
        except TooBig:
            return False

    def proves(self, g):
        if z3.is_and(g):
            return all(self.proves(x) for x in g.children())
        if z3.is_true(g):
            return True
        if z3.is_implies(g):
            return self.proves(g.arg(1))
        if z3.is_or(g):
            return any(self.proves(x) for x in g.children())
        if z3.is_eq(g) and z3.is_real(g.arg(0)):
            return self.equal(g.arg(0), g.arg(1))
        return False


def ring():
    e = sym.eng()
    if getattr(e, "ring", None) is None:
        e.ring = Ring()
    return e.ring


def rule(lhs, rhs, label="rule"):
    """use lhs == rhs (a monomial on the left) for rewriting; obliged first unless it is in the path"""
    e = sym.eng()
    l, r = sym.zr(lhs), sym.zr(rhs)
    f = l == r
    if not any(f.eq(x) for x in e.pc):
        if not e.oblige(f, "ring " + label):
            raise sym.Unsupported("ring rule not discharged: " + label)
    ring().rule(l, r)


def nonzero(y, label="denominator"):
    e = sym.eng()
    if not e.oblige(sym.zr(y) != 0, "ring non-zero " + label):
        raise sym.Unsupported("denominator may vanish: " + label)
    ring().declare_nonzero(sym.zr(y))
