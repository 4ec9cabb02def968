"""Equational back end.  To prove an equation of real terms from the path condition it
  * splits the conditionals of the goal (conditions decided by z3 on the ground integer facts, else both ways),
  * instantiates the universally quantified facts of the path at the ground terms matching their patterns
    (guards discharged by z3),
  * turns all ground equations into one substitution, and
  * compares both sides as polynomials (vk.ring).
Every step uses consequences of the path condition only, so success is a proof; failure says nothing."""
import time

from . import sym, ring
from .sym import z3, _const

BUDGET = 20.0


class _Out(Exception):
    pass


def nonlinear(f):
    st, seen = [f], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            k = x.decl().kind()
            if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and z3.is_real(x):
                if sum(1 for c in x.children() if _const(c) is None) > 1 or (k == z3.Z3_OP_DIV and _const(x.arg(1)) is None):
                    return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def subterms(f, out, seen):
    """ground subterms (below quantifiers: none)"""
    st = [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen or z3.is_quantifier(x) or z3.is_var(x):
            continue
        seen.add(i)
        out.append(x)
        st.extend(x.children())


def match(pat, t, sub):
    if z3.is_var(pat):
        k = z3.get_var_index(pat)
        if k in sub:
            return sub if sub[k].eq(t) else None
        if pat.sort() != t.sort():
            return None
        s = dict(sub)
        s[k] = t
        return s
    if not z3.is_app(pat) or not z3.is_app(t) or pat.num_args() != t.num_args() or not pat.decl().eq(t.decl()):
        return pat.eq(t) and sub or (sub if pat.eq(t) else None)
    for a, b in zip(pat.children(), t.children()):
        sub = match(a, b, sub)
        if sub is None:
            return None
    return sub


def patterns(q):
    ps = [[p.arg(k) for k in range(p.num_args())] for p in (q.pattern(i) for i in range(q.num_patterns()))]
    # and all single applications (uninterpreted or select) mentioning every bound variable
    n = q.num_vars()
    out, st, seen = ps, [q.body()], set()

    def vars_of(x, acc):
        if z3.is_var(x):
            acc.add(z3.get_var_index(x))
        else:
            for c in x.children():
                vars_of(c, acc)
        return acc
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        k = x.decl().kind()
        if k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and x.num_args() and len(vars_of(x, set())) == n:
            out.append([x])
        st.extend(x.children())
    return out


def expand(f):
    """select over store and over conditionals, for nested arrays"""
    memo = {}

    def sel(a, i):
        k = a.decl().kind()
        if k == z3.Z3_OP_STORE and a.num_args() == 3:
            b, j, v = a.children()
            if i.eq(j):
                return v
            d = z3.simplify(i - j)
            c = _const(d)
            if c is not None:
                return v if c == 0 else sel(b, i)
            return z3.If(i == j, v, sel(b, i))
        if k == z3.Z3_OP_ITE:
            return z3.If(a.arg(0), sel(a.arg(1), i), sel(a.arg(2), i))
        return z3.Select(a, i)

    def go(x):
        r = memo.get(x.get_id())
        if r is not None:
            return r[1]
        if z3.is_quantifier(x) or z3.is_var(x) or not x.children():
            y = x
        else:
            ch = [go(c) for c in x.children()]
            if x.decl().kind() == z3.Z3_OP_SELECT and len(ch) == 2 and z3.is_int(ch[1]):
                y = sel(*ch)
            elif all(a.eq(b) for a, b in zip(ch, x.children())):
                y = x
            else:
                y = x.decl()(*ch)
        memo[x.get_id()] = (x, y)
        return y
    return go(f)


class RW:
    def __init__(self, pc, base_ring=None):
        self.pc = list(pc)
        self.t0 = time.time()
        self.base = base_ring

    def tick(self):
        if time.time() - self.t0 > BUDGET:
            raise _Out()

    # ---------------- decisions on ground facts
    def decide(self, facts, c):
        """True / False / None"""
        self.tick()
        for val, f in ((True, z3.Not(c)), (False, c)):
            s = z3.Solver()
            s.set("timeout", 400)
            s.add(*facts)
            s.add(f)
            if s.check() == z3.unsat:
                return val
        return None

    @staticmethod
    def light(pc):
        return [f for f in pc if not sym._has_quant(f) and not nonlinear(f)]

    def prove(self, goal):
        try:
            return self._prove(self.pc, goal, 0)
        except _Out:
            return False
        except ring.TooBig:
            return False

    def _prove(self, pc, goal, depth):
        self.tick()
        goal = z3.simplify(expand(goal), arith_lhs=False, som=False)
        if z3.is_true(goal):
            return True
        if z3.is_and(goal):
            return all(self._prove(pc, g, depth) for g in goal.children())
        if z3.is_implies(goal):
            return self._prove(pc + [goal.arg(0)], goal.arg(1), depth)
        if z3.is_or(goal) and goal.num_args() >= 2:
            for k in range(goal.num_args()):
                if not z3.is_eq(goal.arg(k)) or not z3.is_real(goal.arg(k).arg(0)):
                    continue
                rest = [z3.Not(goal.arg(q)) for q in range(goal.num_args()) if q != k]
                if self._prove(pc + rest, goal.arg(k), depth):
                    return True
            return False
        if not (z3.is_eq(goal) and z3.is_real(goal.arg(0))):
            return self.decide(self.light(pc), goal) is True
        light = self.light(pc)
        c = self.ite_cond(goal)
        if c is not None:
            if depth > 14:
                return False
            d = self.decide(light, c)
            ok = True
            for val in (True, False):
                if d is (not val):
                    continue
                f = c if val else z3.Not(c)
                g = z3.substitute(goal, (c, z3.BoolVal(val)))
                if not self._prove(pc + [f], g, depth + 1):
                    ok = False
                    break
            return ok
        return self.equation(pc, light, goal, depth)

    @staticmethod
    def ite_cond(f):
        st, seen = [f], set()
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                inner = RW.ite_cond(x.arg(0))
                return inner if inner is not None else x.arg(0)
            st.extend(x.children())
        return None

    # ---------------- equations
    def equation(self, pc, light, goal, depth):
        quants, ground = [], []

        def split(f):
            if z3.is_and(f):
                for x in f.children():
                    split(x)
            elif z3.is_quantifier(f) and f.is_forall():
                quants.append(f)
            elif not sym._has_quant(f):
                ground.append(f)
        for f in pc:
            split(f)
        eqs = []

        def harvest(f):
            f = z3.simplify(f, expand_select_store=True, arith_lhs=False)
            if z3.is_and(f):
                for x in f.children():
                    harvest(x)
            elif z3.is_eq(f) and (z3.is_real(f.arg(0)) or z3.is_int(f.arg(0))):
                c = self.ite_cond(f)
                n = 0
                while c is not None and n < 8:
                    n += 1
                    d = self.decide(light, c)
                    if d is None:
                        return
                    f = z3.simplify(z3.substitute(f, (c, z3.BoolVal(d))), arith_lhs=False)
                    if not z3.is_eq(f):
                        return
                    c = self.ite_cond(f)
                if c is None:
                    eqs.append(f)
            elif z3.is_implies(f) or z3.is_or(f):
                if z3.is_or(f):
                    pos = [x for x in f.children() if (z3.is_eq(x) and z3.is_real(x.arg(0)))
                           or (z3.is_and(x) and all(z3.is_eq(y) and z3.is_real(y.arg(0)) for y in x.children()))]
                    if len(pos) != 1:
                        return
                    guard = z3.And(*[z3.Not(x) for x in f.children() if not x.eq(pos[0])])
                    body = pos[0]
                else:
                    guard, body = f.arg(0), f.arg(1)
                if self.decide(light, guard) is True:
                    harvest(body)
        for f in ground:
            if z3.is_eq(f) and (z3.is_real(f.arg(0)) or z3.is_int(f.arg(0))) or z3.is_implies(f) or z3.is_or(f):
                harvest(f)
        # integer equalities that hold between constants of the goal
        sub = self.solve_eqs(eqs)
        g = self.apply(goal, sub)
        if self.same(g):
            return True
        terms, seen = [], set()
        subterms(g, terms, seen)
        for f in eqs:
            subterms(self.apply(f, sub), terms, seen)
        done = set()
        for rnd in range(3):
            new = []
            for q in quants:
                for ps in patterns(q):
                    subs = [{}]
                    for p_ in ps:
                        subs = [s2 for s1 in subs for t in terms for s2 in [match(p_, t, s1)] if s2 is not None]
                    for s_ in subs:
                        if len(s_) != q.num_vars():
                            continue
                        args = [s_[q.num_vars() - 1 - k] for k in range(q.num_vars())]
                        key = (q.get_id(),) + tuple(a.get_id() for a in args)
                        if key in done:
                            continue
                        done.add(key)
                        if len(done) > 300:
                            raise _Out()
                        self.tick()
                        new.append(z3.substitute_vars(q.body(), *reversed(args)))
            if not new:
                break
            k0 = len(eqs)
            for f in new:
                harvest(f)
            if len(eqs) == k0:
                break
            sub = self.solve_eqs(eqs)
            g = self.apply(goal, sub)
            if self.same(g):
                return True
            for f in [g] + eqs[k0:]:
                subterms(self.apply(f, sub), terms, seen)
        return False

    def apply(self, f, sub):
        for _ in range(6):
            h = z3.substitute(f, *sub) if sub else f
            h = z3.simplify(h, expand_select_store=True, arith_lhs=False)
            if h.eq(f):
                return h
            f = h
        return f

    def solve_eqs(self, eqs):
        """triangular substitution atom -> term"""
        sub = []

        def isatom(x):
            return z3.is_app(x) and _const(x) is None and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT)

        def occurs(a, t):
            st, seen = [t], set()
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.eq(a):
                    return True
                st.extend(x.children())
            return False

        def rank(x):
            # eliminate program state first, then applications of specification functions
            k = x.decl().kind()
            nm = x.decl().name()
            return (0 if "@" in nm or "!" in nm or "itn" in nm else 1, 0 if k == z3.Z3_OP_SELECT else 1)
        todo = list(eqs)
        todo.sort(key=lambda f: 0 if z3.is_int(f.arg(0)) else 1)
        for f in todo:
            self.tick()
            a, b = f.arg(0), f.arg(1)
            if sub:
                a, b = z3.substitute(a, *sub), z3.substitute(b, *sub)
                a, b = z3.simplify(a, expand_select_store=True), z3.simplify(b, expand_select_store=True)
            if a.eq(b):
                continue
            cand = [(x, y) for x, y in ((a, b), (b, a)) if isatom(x) and not occurs(x, y)]
            if not cand:
                lin = self.linear(a, b, isatom, occurs)
                if lin is None:
                    continue
                cand = [lin]
            x, y = min(cand, key=lambda c: rank(c[0]))
            sub = [(u, z3.simplify(z3.substitute(v, (x, y)), expand_select_store=True)) for u, v in sub] + [(x, y)]
        return sub

    @staticmethod
    def linear(a, b, isatom, occurs):
        """c1 x + rest = 0 with an atom x of integer coefficient +-1 (integers) or any (reals)"""
        d = z3.simplify(a - b, som=True)
        ch = d.children() if d.decl().kind() == z3.Z3_OP_ADD else [d]
        for t in ch:
            co, x = 1, t
            if t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and _const(t.arg(0)) is not None:
                co, x = _const(t.arg(0)), t.arg(1)
            if not isatom(x) or co == 0 or (z3.is_int(x) and abs(co) != 1):
                continue
            rest = [u for u in ch if not u.eq(t)]
            if any(occurs(x, u) for u in rest):
                continue
            s = z3.Sum(rest) if rest else (z3.IntVal(0) if z3.is_int(x) else z3.RealVal(0))
            c = z3.IntVal(int(-1 / co)) if z3.is_int(x) else z3.RealVal(str(-1 / sym.Fraction(co)))
            return x, z3.simplify(c * s)
        return None

    def same(self, g):
        if z3.is_true(g):
            return True
        if not z3.is_eq(g):
            return False
        r = ring.Ring()
        if self.base is not None:
            r.rules, r.atoms, r.inv, r.nonzero, r.named = (list(self.base.rules), dict(self.base.atoms), dict(self.base.inv),
                                                            set(self.base.nonzero), dict(self.base.named))
        return r.equal(g.arg(0), g.arg(1))
