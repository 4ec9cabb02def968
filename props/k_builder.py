"""contracts of the hopping table and of PrimitiveCell edits (builder/base.py, builder/primitive.py)"""
from vk import front, sym
from vk.scen import Scenario, SDict, SList, SSeq, same, new_dict, new_set, SSet
from vk.sym import z3, zi, zr, zb, Unsupported, SInt, SReal, SCplx

MODS = ["tbplas.builder.base", "tbplas.builder.primitive", "tbplas.builder.overlap", "tbplas.builder.super"]


def world(src):
    return front.World(src, MODS, shims={"dict": new_dict, "set": new_set})


def sym_table(w, cls="IntraHopping", name="hop", *args):
    """instance of the real class whose dictionary is an arbitrary symbolic one"""
    h = getattr(w.mod("tbplas.builder.base"), cls)(*args)
    cand = [a for a, v in vars(h).items() if isinstance(v, (dict, SDict)) and "subscr" not in a]
    if len(cand) != 1:
        raise Unsupported("representation of the hopping table")
    d = SDict(3, "dict", name=name, inner_arity=2)
    setattr(h, cand[0], d)
    h.__dict__["vk_table"] = cand[0]
    return h


def tab(h):
    return getattr(h, h.__dict__["vk_table"])


def stored(d, rn, pair):
    """z3: the raw entry (rn, pair) exists"""
    k = [zi(x) for x in rn]
    p = [zi(x) for x in pair]
    return z3.And(d.has_z(k), d.entries.has_z(k + p))


def mirror(rn, i, j):
    return (-rn[0], -rn[1], -rn[2]), j, i


def eqk(a, b):
    return z3.And(*[zi(x) == zi(y) for x, y in zip(a, b)])


def conj_obs(o):
    e, st = o
    return (e.conjugate() if e is not None else None, st)


def intra(src):
    w = world(src)

    def setup(s):
        h = sym_table(w)
        rn = s.ints("ra rb rc")
        i, j = s.ints("i j")
        q = s.ints("qa qb qc")
        k, l = s.ints("k l")
        # self-mirror keys are diagonal terms and are rejected by the callers (contract of _check_hop_index)
        s.assume(z3.Not(z3.And(eqk(rn, (0, 0, 0)), zi(i) == zi(j))))
        s.assume(z3.Not(z3.And(eqk(q, (0, 0, 0)), zi(k) == zi(l))))
        return h, rn, i, j, q, k, l

    def rel(rn, i, j, q, k, l):
        m = mirror(rn, i, j)
        return eqk(q + (k, l), rn + (i, j)), eqk(q + (k, l), m[0] + (m[1], m[2]))

    def add(s):
        h, rn, i, j, q, k, l = setup(s)
        e = s.cplx("e")
        before = h.get_hopping(q, k, l)
        d0 = tab(h).snapshot()
        h.add_hopping(rn, i, j, e)
        after = h.get_hopping(q, k, l)
        is_key, is_mir = rel(rn, i, j, q, k, l)
        s.ensure("written term is read back", z3.Implies(is_key, same(after, (e, True))))
        s.ensure("mirror term is the conjugate", z3.Implies(is_mir, same(after, (e.conjugate(), True))))
        s.ensure("other terms unchanged", z3.Implies(z3.Not(z3.Or(is_key, is_mir)), same(after, before)))
        invariant(s, h, d0, q, k, l)

    def invariant(s, h, d0, q, k, l):
        """representation invariant: only canonical keys are stored; preserved"""
        c = h._norm_keys(q, k, l)[2]
        s.ensure("only the canonical term of a mirror pair is stored",
                 z3.Implies(z3.And(zb(c), z3.Not(stored(d0, q, (k, l)))), z3.Not(stored(tab(h), q, (k, l)))))

    def side(s):
        """canonical representative does not depend on the side"""
        h, rn, i, j, q, k, l = setup(s)
        m = mirror(rn, i, j)
        a = h._norm_keys(rn, i, j)
        b = h._norm_keys(m[0], m[1], m[2])
        s.ensure("same representative", z3.And(same(a[0], b[0]), same(a[1], b[1])))
        s.ensure("exactly one side is conjugated", zb(a[2]) != zb(b[2]))
        key = tuple(a[0]) + tuple(a[1])
        is_key = eqk(key, rn + (i, j))
        is_mir = eqk(key, m[0] + (m[1], m[2]))
        s.ensure("representative is the term or its mirror", z3.If(zb(a[2]), is_mir, is_key))

    def get(s):
        h, rn, i, j, q, k, l = setup(s)
        d0 = tab(h).snapshot()
        x = h.get_hopping(rn, i, j)
        m = mirror(rn, i, j)
        y = h.get_hopping(m[0], m[1], m[2])
        s.ensure("mirror query is the conjugate", same(conj_obs(x), y))
        s.ensure("query changes nothing", z3.And(stored(tab(h), q, (k, l)) == stored(d0, q, (k, l)),
                                                 *[a == b for a, b in zip(tab(h).entries.val_z(list(map(zi, q + (k, l)))),
                                                                          d0.entries.val_z(list(map(zi, q + (k, l)))))]))

    def remove(s):
        h, rn, i, j, q, k, l = setup(s)
        before = h.get_hopping(q, k, l)
        had = h.get_hopping(rn, i, j)
        d0 = tab(h).snapshot()
        st = h.remove_hopping(rn, i, j)
        after = h.get_hopping(q, k, l)
        is_key, is_mir = rel(rn, i, j, q, k, l)
        s.ensure("status tells whether the term existed", zb(st) == zb(had[1]))
        s.ensure("removed from both sides", z3.Implies(z3.Or(is_key, is_mir), same(after, (None, False))))
        s.ensure("other terms unchanged", z3.Implies(z3.Not(z3.Or(is_key, is_mir)), same(after, before)))
        invariant(s, h, d0, q, k, l)

    def remove_rn(s):
        h, rn, i, j, q, k, l = setup(s)
        s.assume(z3.Not(eqk(rn, (0, 0, 0))))
        before = h.get_hopping(q, k, l)
        h.remove_rn(rn)
        after = h.get_hopping(q, k, l)
        hit = z3.Or(eqk(q, rn), eqk(q, (-rn[0], -rn[1], -rn[2])))
        s.ensure("all terms of R and -R removed", z3.Implies(hit, same(after, (None, False))))
        s.ensure("other terms unchanged", z3.Implies(z3.Not(hit), same(after, before)))

    return [Scenario("IntraHopping.add_hopping", add), Scenario("IntraHopping._norm_keys", side), Scenario("IntraHopping.get_hopping", get),
            Scenario("IntraHopping.remove_hopping", remove), Scenario("IntraHopping.remove_rn", remove_rn)]


def as_tasks(scs):
    return [(c.name, c.verify) for c in scs]


# ------------------------------------------------------------------ PrimitiveCell
def sym_orbitals(w, name="orb"):
    Orb = w.mod("tbplas.builder.base").Orbital
    R = z3.RealSort()

    def mk(p):
        return Orb((SReal(p[0]), SReal(p[1]), SReal(p[2])), SReal(p[3]), SInt(p[4]))

    def parts(o):
        if not (isinstance(o.position, tuple) and len(o.position) == 3):
            raise Unsupported("orbital position")
        return [zr(x) for x in o.position] + [zr(o.energy), zi(o.label)]
    return SList(name, [R, R, R, R, z3.IntSort()], mk, parts)


def sym_cell(s, w, lock=True, cls="PrimitiveCell"):
    """PrimitiveCell with an arbitrary orbital list, hopping table and lock state"""
    c = w.mod("tbplas.builder.primitive").PrimitiveCell()
    if cls == "Overlap":
        c = w.mod("tbplas.builder.overlap").Overlap(c)
    ol = [a for a, v in vars(c).items() if isinstance(v, list)]
    hd = [a for a, v in vars(c).items() if type(v).__name__ == "IntraHopping"]
    if len(ol) != 1 or len(hd) != 1:
        raise Unsupported("representation of PrimitiveCell")
    orbs = sym_orbitals(w)
    setattr(c, ol[0], orbs)
    h = sym_table(w)
    setattr(c, hd[0], h)
    locked = s.bool("locked")
    if lock:
        c.add_subscriber("x", None)
        if locked:
            c.lock("x")
    c.__dict__["vk_orbs"], c.__dict__["vk_hop"] = ol[0], hd[0]
    return c, locked


def orbs_of(c):
    return getattr(c, c.__dict__["vk_orbs"])


def hop_of(c):
    return getattr(c, c.__dict__["vk_hop"])


def state(c):
    return orbs_of(c).snapshot(), tab(hop_of(c)).snapshot()


def unchanged(c, st, q, k, l, m):
    """same orbital m and raw entry (q, k, l) as before, same number of orbitals"""
    o0, d0 = st
    o1, d1 = orbs_of(c), tab(hop_of(c))
    key = [zi(x) for x in q + (k, l)]
    return z3.And(zi(o0.n) == zi(o1.n), *[x == y for x, y in zip(o0.fn(zi(m)), o1.fn(zi(m)))],
                  stored(d1, q, (k, l)) == stored(d0, q, (k, l)),
                  *[x == y for x, y in zip(d1.entries.val_z(key), d0.entries.val_z(key))])


def cell(src, cls="PrimitiveCell", names=None):
    w = world(src)

    def call(c, what, *a, **k):
        return getattr(c, (names or {}).get(what, what))

    def setup(s):
        c, locked = sym_cell(s, w, cls=cls)
        rn = s.ints("ra rb rc")
        i, j = s.ints("i j")
        q = s.ints("qa qb qc")
        k, l, m = s.ints("k l m")
        return c, locked, rn, i, j, q, k, l, m

    def bad_index(c, rn, i, j):
        n = zi(orbs_of(c).n)
        oob = z3.Or(zi(i) < 0, zi(i) >= n, zi(j) < 0, zi(j) >= n)
        diag = z3.And(eqk(rn, (0, 0, 0)), zi(i) == zi(j))
        return oob, diag

    def outcome(s, c, st, ex, locked, rn, i, j, q, k, l, m, extra=()):
        """exceptional postcondition shared by the hopping edits"""
        oob, diag = bad_index(c, rn, i, j) if rn is not None else (z3.BoolVal(False), z3.BoolVal(False))
        name = type(ex).__name__ if ex is not None else None
        lk = zb(locked)
        s.ensure("LockError iff locked", z3.BoolVal(name == "LockError") == lk)
        s.ensure("PCOrbIndexError iff an index is out of range",
                 z3.Implies(z3.Not(lk), z3.BoolVal(name == "PCOrbIndexError") == oob))
        s.ensure("PCHopDiagonalError iff diagonal",
                 z3.Implies(z3.Not(z3.Or(lk, oob)), z3.BoolVal(name == "PCHopDiagonalError") == diag))
        if ex is not None:
            s.ensure("no other exception", z3.BoolVal(name in ("LockError", "PCOrbIndexError", "PCHopDiagonalError") + tuple(extra)))
            s.ensure("rejected edit changes nothing", unchanged(c, st, q, k, l, m))

    def add(s):
        c, locked, rn, i, j, q, k, l, m = setup(s)
        e = s.cplx("e")
        st = state(c)
        _, ex = s.raises(call(c, "add_hopping"), rn, i, j, e)
        outcome(s, c, st, ex, locked, rn, i, j, q, k, l, m)
        if ex is None:
            s.ensure("orbitals unchanged", z3.And(zi(st[0].n) == zi(orbs_of(c).n),
                                                  *[x == y for x, y in zip(st[0].fn(zi(m)), orbs_of(c).fn(zi(m)))]))
            s.ensure("term stored", same(hop_of(c).get_hopping(rn, i, j), (e, True)))

    def add2(s):
        """two-component cell index"""
        c, locked, rn, i, j, q, k, l, m = setup(s)
        e = s.cplx("e")
        st = state(c)
        _, ex = s.raises(call(c, "add_hopping"), rn[:2], i, j, e)
        outcome(s, c, st, ex, locked, rn[:2] + (0,), i, j, q, k, l, m)
        if ex is None:
            s.ensure("term stored", same(hop_of(c).get_hopping(rn[:2] + (0,), i, j), (e, True)))

    def badlen(s):
        for n in (0, 1, 4):
            c, locked, rn, i, j, q, k, l, m = setup(s)
            st = state(c)
            for f, a in ((c.add_hopping, (s.cplx("e"),)), (c.remove_hopping, ()), ):
                _, ex = s.raises(f, (rn + (0, 0))[:n], i, j, *a)
                want = "LockError" if c.__dict__.get("vk_l", False) else "CellIndexLenError"
                s.ensure(f"length {n} rejected", z3.BoolVal(type(ex).__name__ in ("LockError", "CellIndexLenError")))
                s.ensure("rejected edit changes nothing", unchanged(c, st, q, k, l, m))
            for pos in ((), (1.0,), (0.0, 0.0, 0.0, 0.0)):
                for f, a in ((c.add_orbital, (pos,)), (c.set_orbital, (i, pos))):
                    _, ex = s.raises(f, *a)
                    s.ensure("position length rejected",
                             z3.BoolVal(type(ex).__name__ in ("LockError", "OrbPositionLenError")))
                    s.ensure("rejected edit changes nothing", unchanged(c, st, q, k, l, m))

    def remove(s):
        c, locked, rn, i, j, q, k, l, m = setup(s)
        st = state(c)
        had = hop_of(c).get_hopping(rn, i, j)[1]
        _, ex = s.raises(call(c, "remove_hopping"), rn, i, j)
        outcome(s, c, st, ex, locked, rn, i, j, q, k, l, m, extra=("PCHopNotFoundError",))
        oob, diag = bad_index(c, rn, i, j)
        s.ensure("PCHopNotFoundError iff the term does not exist",
                 z3.Implies(z3.Not(z3.Or(zb(locked), oob, diag)),
                            z3.BoolVal(type(ex).__name__ == "PCHopNotFoundError") == z3.Not(zb(had))))

    def get(s):
        c, locked, rn, i, j, q, k, l, m = setup(s)
        st = state(c)
        obs = hop_of(c).get_hopping(rn, i, j)
        r, ex = s.raises(call(c, "get_hopping"), rn, i, j)
        oob, diag = bad_index(c, rn, i, j)
        if ex is None:
            s.ensure("returns the stored energy", z3.And(zb(obs[1]), same(r, obs[0])))
        else:
            s.ensure("exception", z3.BoolVal(type(ex).__name__ in ("PCOrbIndexError", "PCHopDiagonalError", "PCHopNotFoundError")))
        s.ensure("raises iff illegal or absent", z3.BoolVal(ex is not None) == z3.Or(oob, diag, z3.Not(zb(obs[1]))))
        s.ensure("query changes nothing", unchanged(c, st, q, k, l, m))

    def add_orb(s):
        c, locked, rn, i, j, q, k, l, m = setup(s)
        x, y, z, e = s.reals("x y z e")
        lab = s.int("lab")
        st = state(c)
        _, ex = s.raises(c.add_orbital, (x, y, z), e, lab)
        s.ensure("LockError iff locked", z3.BoolVal(type(ex).__name__ == "LockError") == zb(locked))
        if ex is not None:
            s.ensure("rejected edit changes nothing", unchanged(c, st, q, k, l, m))
        else:
            o1 = orbs_of(c)
            s.ensure("appended at the end", z3.And(zi(o1.n) == zi(st[0].n) + 1,
                                                   same(tuple(o1.at(st[0].n)), ((x, y, z), e, lab))))
            s.ensure("others kept", z3.Implies(zi(m) < zi(st[0].n),
                                               z3.And(*[a == b for a, b in zip(st[0].fn(zi(m)), o1.fn(zi(m)))])))

    def set_orb(s):
        c, locked, rn, i, j, q, k, l, m = setup(s)
        s.assume(zi(i) >= 0)          # negative indices follow Python's list convention (unspecified)
        x, y, z, e = s.reals("x y z e")
        lab = s.int("lab")
        st = state(c)
        which = s.e.choose(4)
        kw = [dict(position=(x, y, z)), dict(energy=e), dict(label=lab), dict(position=(x, y), energy=e, label=lab)][which]
        _, ex = s.raises(c.set_orbital, i, **kw)
        s.ensure("LockError iff locked", z3.BoolVal(type(ex).__name__ == "LockError") == zb(locked))
        s.ensure("PCOrbIndexError iff out of range",
                 z3.Implies(z3.Not(zb(locked)), z3.BoolVal(type(ex).__name__ == "PCOrbIndexError") == (zi(i) >= zi(st[0].n))))
        if ex is not None:
            s.ensure("rejected edit changes nothing", unchanged(c, st, q, k, l, m))
        else:
            o = st[0].at(i)
            new = [((x, y, z), o.energy, o.label), (o.position, e, o.label), (o.position, o.energy, lab), ((x, y, 0.0), e, lab)][which]
            o1 = orbs_of(c)
            s.ensure("only the given attributes of orbital i change", z3.And(
                zi(o1.n) == zi(st[0].n), same(tuple(o1.at(i)), new),
                z3.Implies(zi(m) != zi(i), z3.And(*[a == b for a, b in zip(st[0].fn(zi(m)), o1.fn(zi(m)))]))))

    def onsite(s):
        c, locked, rn, i, j, q, k, l, m = setup(s)
        s.assume(zi(i) >= 0)
        e = s.real("e")
        st = state(c)
        _, ex = s.raises(c.set_onsite, i, e)
        s.ensure("LockError iff locked", z3.BoolVal(type(ex).__name__ == "LockError") == zb(locked))
        s.ensure("PCOrbIndexError iff out of range",
                 z3.Implies(z3.Not(zb(locked)), z3.BoolVal(type(ex).__name__ == "PCOrbIndexError") == (zi(i) >= zi(st[0].n))))
        if ex is not None:
            s.ensure("rejected edit changes nothing", unchanged(c, st, q, k, l, m))
        else:
            o, o1 = st[0].at(i), orbs_of(c)
            s.ensure("only the on-site overlap changes", z3.And(
                zi(o1.n) == zi(st[0].n), same(tuple(o1.at(i)), (o.position, e, o.label)),
                z3.Implies(zi(m) != zi(i), z3.And(*[a == b for a, b in zip(st[0].fn(zi(m)), o1.fn(zi(m)))]))))

    def lockable(s):
        O = w.mod("tbplas.builder.base").Observable
        o = O()
        _, ex = s.raises(o.check_lock)
        s.ensure("new object is unlocked", z3.BoolVal(ex is None))
        _, ex = s.raises(o.lock, "nobody")
        s.ensure("only subscribers can lock", z3.BoolVal(isinstance(ex, ValueError)))
        _, ex = s.raises(o.check_lock)
        s.ensure("failed lock leaves it unlocked", z3.BoolVal(ex is None))
        o.add_subscriber("a", None)
        o.lock("a")
        o.lock("a")
        _, ex = s.raises(o.check_lock)
        s.ensure("locked object raises LockError", z3.BoolVal(type(ex).__name__ == "LockError"))
        o.unlock()
        _, ex = s.raises(o.check_lock)
        s.ensure("unlock", z3.BoolVal(ex is None))

    P = cls + "."
    if names:
        return [Scenario(P + names["add_hopping"], add), Scenario(P + names["add_hopping"] + " (2D cell index)", add2),
                Scenario(P + "get_hopping", get), Scenario(P + names["set_onsite"], onsite)]
    return [Scenario(P + "add_hopping", add), Scenario(P + "add_hopping (2D cell index)", add2),
            Scenario(P + "edits with wrong lengths", badlen), Scenario(P + "remove_hopping", remove),
            Scenario(P + "get_hopping", get), Scenario(P + "add_orbital", add_orb),
            Scenario(P + "set_orbital", set_orb), Scenario("Observable.lock", lockable)]


def overlap(src):
    """Overlap: the same contract through the names of the overlap interface"""
    return cell(src, "Overlap", {"add_hopping": "add_offsite", "set_onsite": "set_onsite"})


# ------------------------------------------------------------------ InterHopping
def inter(src):
    w = world(src)

    def setup(s):
        h = sym_table(w, "InterHopping", "hop", None, None)
        locked = s.bool("locked")
        h.add_subscriber("x", None)
        if locked:
            h.lock("x")
        return h, locked, s.ints("ra rb rc"), s.int("i"), s.int("j"), s.ints("qa qb qc"), s.int("k"), s.int("l")

    def raw_same(h, d0, q, k, l):
        d1 = tab(h)
        key = [zi(x) for x in q + (k, l)]
        return z3.And(stored(d1, q, (k, l)) == stored(d0, q, (k, l)),
                      z3.Implies(stored(d0, q, (k, l)), z3.And(*[x == y for x, y in zip(d1.entries.val_z(key), d0.entries.val_z(key))])))

    def guarded(s, h, d0, locked, ex, q, k, l, illegal=False):
        s.ensure("LockError iff locked", z3.BoolVal(type(ex).__name__ == "LockError") == zb(locked))
        if ex is not None:
            s.ensure("no other exception", z3.BoolVal(type(ex).__name__ in ("LockError",) + (("CellIndexLenError",) if illegal else ())))
            s.ensure("rejected edit changes nothing", raw_same(h, d0, q, k, l))
        elif illegal:
            s.ensure("wrong length rejected", z3.BoolVal(False))

    def add(s):
        h, locked, rn, i, j, q, k, l = setup(s)
        e = s.cplx("e")
        d0 = tab(h).snapshot()
        n = s.e.choose(2)
        arg = rn if n == 0 else rn[:2]
        rn = rn if n == 0 else rn[:2] + (0,)
        _, ex = s.raises(h.add_hopping, arg, i, j, e)
        guarded(s, h, d0, locked, ex, q, k, l)
        if ex is None:
            hit = eqk(q + (k, l), rn + (i, j))
            s.ensure("written term is read back", z3.Implies(hit, same(h.get_hopping(q, k, l), (e, True))))
            s.ensure("other terms unchanged", z3.Implies(z3.Not(hit), raw_same(h, d0, q, k, l)))

    def remove(s):
        h, locked, rn, i, j, q, k, l = setup(s)
        d0 = tab(h).snapshot()
        st, ex = s.raises(h.remove_hopping, rn, i, j)
        guarded(s, h, d0, locked, ex, q, k, l)
        if ex is None:
            hit = eqk(q + (k, l), rn + (i, j))
            s.ensure("status", zb(st) == stored(d0, rn, (i, j)))
            s.ensure("removed", z3.Implies(hit, z3.Not(stored(tab(h), q, (k, l)))))
            s.ensure("other terms unchanged", z3.Implies(z3.Not(hit), raw_same(h, d0, q, k, l)))

    def remove_rn(s):
        h, locked, rn, i, j, q, k, l = setup(s)
        d0 = tab(h).snapshot()
        st, ex = s.raises(h.remove_rn, rn)
        guarded(s, h, d0, locked, ex, q, k, l)
        if ex is None:
            hit = eqk(q, rn)
            s.ensure("all terms of the cell removed", z3.Implies(hit, z3.Not(stored(tab(h), q, (k, l)))))
            s.ensure("other terms unchanged", z3.Implies(z3.Not(hit), raw_same(h, d0, q, k, l)))

    def remove_orb(s):
        h, locked, rn, i, j, q, k, l = setup(s)
        h.lock("x")
        locked = sym.SBool(z3.BoolVal(True))
        d0 = tab(h).snapshot()
        for f, a in ((h.remove_orbital, i), (h.remove_orbitals, [i, j])):
            _, ex = s.raises(f, a)
            guarded(s, h, d0, locked, ex, q, k, l)

    def badlen(s):
        h, locked, rn, i, j, q, k, l = setup(s)
        d0 = tab(h).snapshot()
        for n in (0, 1, 4, 5):
            arg = (rn + (0, 0))[:n]
            for f, a in ((h.add_hopping, (arg, i, j, s.cplx("e"))), (h.remove_hopping, (arg, i, j)), (h.remove_rn, (arg,))):
                _, ex = s.raises(f, *a)
                guarded(s, h, d0, locked, ex, q, k, l, illegal=True)

    P = "InterHopping."
    return [Scenario(P + "add_hopping", add), Scenario(P + "remove_hopping", remove), Scenario(P + "remove_rn", remove_rn),
            Scenario(P + "remove_orbitals (locked)", remove_orb), Scenario(P + "edits with wrong lengths", badlen)]


# ------------------------------------------------------------------ SuperCell
def sym_super(s, w):
    """supercell with arbitrary numbers of orbitals, dimensions, modifications, vacancies and lock state"""
    M = w.mod("tbplas.builder.super")
    N, npc = s.int("num_orb_sc", lo=0), s.int("num_orb_pc", lo=0)
    dims = s.ints("da db dc", lo=1)

    class Dim:
        def item(self, i):
            return dims[i]

        def __getitem__(self, i):
            return dims[i]

    class SC(M.SuperCell):
        num_orb_sc = property(lambda self: N)
        num_orb_pc = property(lambda self: npc)
    c = SC.__new__(SC)
    w.mod("tbplas.builder.base").Observable.__init__(c)
    c._dim = Dim()
    c._hop_modifier = sym_table(w)
    c._vacancy_set = SSet(4, "vac")
    c._orb_pos_modifier = None
    locked = s.bool("locked")
    c.add_subscriber("x", None)
    if locked:
        c.lock("x")
    return c, locked, N, npc, dims


def supercell(src):
    w = world(src)

    def common(s):
        c, locked, N, npc, dims = sym_super(s, w)
        return c, locked, N, npc, dims, s.ints("ra rb rc"), s.int("i"), s.int("j"), s.ints("qa qb qc"), s.int("k"), s.int("l"), s.ints("va vb vc vd")

    def snap(c):
        return tab(c._hop_modifier).snapshot(), c._vacancy_set.snapshot()

    def unch(c, st, q, k, l, v):
        d1 = tab(c._hop_modifier)
        key = [zi(x) for x in q + (k, l)]
        vz = [zi(x) for x in v]
        return z3.And(stored(d1, q, (k, l)) == stored(st[0], q, (k, l)), *[x == y for x, y in zip(d1.entries.val_z(key), st[0].entries.val_z(key))],
                      c._vacancy_set.has_z(vz) == st[1].has_z(vz))

    def add(s):
        c, locked, N, npc, dims, rn, i, j, q, k, l, v = common(s)
        e = s.cplx("e")
        st = snap(c)
        n = s.e.choose(3)
        arg, rn = [(rn, rn), (rn[:2], rn[:2] + (0,)), (rn + (0,), None)][n]
        _, ex = s.raises(c.add_hopping, arg, i, j, e)
        name = type(ex).__name__ if ex is not None else None
        lk = zb(locked)
        s.ensure("LockError iff locked", z3.BoolVal(name == "LockError") == lk)
        if rn is None:
            s.ensure("wrong length rejected", z3.BoolVal(name in ("LockError", "CellIndexLenError")))
        else:
            oob = z3.Or(zi(i) < 0, zi(i) >= zi(N), zi(j) < 0, zi(j) >= zi(N))
            diag = z3.And(eqk(rn, (0, 0, 0)), zi(i) == zi(j))
            s.ensure("SCOrbIndexError iff an index is out of range", z3.Implies(z3.Not(lk), z3.BoolVal(name == "SCOrbIndexError") == oob))
            s.ensure("SCHopDiagonalError iff diagonal", z3.Implies(z3.Not(z3.Or(lk, oob)), z3.BoolVal(name == "SCHopDiagonalError") == diag))
            s.ensure("no other exception", z3.BoolVal(name in (None, "LockError", "SCOrbIndexError", "SCHopDiagonalError")))
        if ex is not None:
            s.ensure("rejected edit changes nothing", unch(c, st, q, k, l, v))
        else:
            s.ensure("term stored", same(c._hop_modifier.get_hopping(rn, i, j), (e, True)))

    def legal(x, dims, npc):
        return z3.And(*[z3.And(zi(a) >= 0, zi(a) < zi(b)) for a, b in zip(x, dims + (npc,))])

    def vac_seq(s):
        n = s.int("nv", lo=0)
        fs = [z3.Function(s.e.fresh_name(f"vac{k}"), z3.IntSort(), z3.IntSort()) for k in range(4)]
        return SSeq(n, lambda i: tuple(SInt(f(zi(i))) for f in fs)), fs, n

    def check(s):
        c, locked, N, npc, dims, rn, i, j, q, k, l, v = common(s)
        _, ex = s.raises(c._check_id_pc, v)
        name = type(ex).__name__ if ex is not None else None
        s.ensure("IDPCIndexError iff out of range", z3.BoolVal(name == "IDPCIndexError") == z3.Not(legal(v, dims, npc)))
        s.ensure("no other exception", z3.BoolVal(name in (None, "IDPCIndexError")))
        for n in (0, 3, 5):
            _, ex = s.raises(c._check_id_pc, (v + (0,))[:n])
            s.ensure("length checked", z3.BoolVal(type(ex).__name__ == "IDPCLenError"))
        _, ex = s.raises(c._check_id_pc, list(v))
        s.ensure("type checked", z3.BoolVal(type(ex).__name__ == "IDPCTypeError"))

    def vacs(meth):
        def run(s):
            c, locked, N, npc, dims, rn, i, j, q, k, l, v = common(s)
            seq, fs, n = vac_seq(s)
            st = snap(c)
            s.e.params = {"vk_fs": fs, "vk_leg": lambda t: legal([f(t) for f in fs], dims, npc)}
            _, ex = s.raises(getattr(c, meth), seq)
            name = type(ex).__name__ if ex is not None else None
            s.ensure("LockError iff locked", z3.BoolVal(name == "LockError") == zb(locked))
            t = z3.Int("§t")
            allok = z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < zi(n)), legal([SInt(f(t)) for f in fs], dims, npc)))
            if ex is not None:
                s.ensure("no other exception", z3.BoolVal(name in ("LockError", "IDPCIndexError")))
                s.ensure("raises only for an illegal index", z3.Or(zb(locked), z3.Not(allok)))
                s.ensure("rejected edit changes nothing", unch(c, st, q, k, l, v))
            else:
                s.ensure("accepts only legal indices", allok)
                t2 = z3.Int("§t2")
                inseq = z3.Exists([t2], z3.And(0 <= t2, t2 < zi(n), *[f(t2) == zi(x) for f, x in zip(fs, v)]))
                vz = [zi(x) for x in v]
                want = inseq if meth == "set_vacancies" else z3.Or(st[1].has_z(vz), inseq)
                s.ensure("vacancies are exactly the old (add) or no (set) ones and the new ones", c._vacancy_set.has_z(vz) == want)
        return run

    def leginv(L):
        """every vacancy before the current one is legal"""
        leg = L.vk_leg
        t = z3.Int("§u")
        return sym.SBool(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < zi(L.it)), leg(t))))

    def set_none(s):
        c, locked, N, npc, dims, rn, i, j, q, k, l, v = common(s)
        s.assume(z3.Not(zb(locked)))
        _, ex = s.raises(c.set_vacancies)
        s.ensure("all vacancies removed", z3.And(z3.BoolVal(ex is None), z3.Not(c._vacancy_set.has_z([zi(x) for x in v]))))

    def modifier(s):
        c, locked, N, npc, dims, rn, i, j, q, k, l, v = common(s)
        f = object()
        _, ex = s.raises(c.set_orb_pos_modifier, f)
        s.ensure("LockError iff locked", z3.BoolVal(type(ex).__name__ == "LockError") == zb(locked))
        s.ensure("modifier changed only if accepted", z3.BoolVal((c._orb_pos_modifier is f) == (ex is None)))

    P = "SuperCell."
    inv = [("legal", leginv)]
    return [Scenario(P + "add_hopping", add), Scenario(P + "_check_id_pc", check), Scenario(P + "add_vacancies", vacs("add_vacancies"), invs=inv),
            Scenario(P + "set_vacancies", vacs("set_vacancies"), invs=inv), Scenario(P + "set_vacancies()", set_none),
            Scenario(P + "set_orb_pos_modifier", modifier)]
