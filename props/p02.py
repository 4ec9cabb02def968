"""P02: rejected or locked edits raise and leave the model unchanged"""
import numpy as np
from vk.search import require
from props import gen, k_builder


def proofs(src):
    return k_builder.as_tasks(k_builder.cell(src) + k_builder.overlap(src) + k_builder.supercell(src) + k_builder.inter(src))


ASSUMPTIONS = ["edits through numpy/scipy conversions (add_orbital_cart, reset_lattice, HopDict) are checked in the bounded runs"]
BOUNDED_NOTE = "random models; every kind of rejected edit after random histories; full state compared before and after"


def attempt(what, f, exc, snap, *a, **k):
    """f must raise exc (by name) and leave snap() unchanged"""
    before = snap()
    try:
        f(*a, **k)
        got = None
    except Exception as ex:
        got = type(ex).__name__
    require(got in exc, lambda: f"{what}: raised {got}, documented {exc}")
    after = snap()
    if not gen.eq_state(before, after):
        require(False, f"{what}: raised {got} but the model changed: {gen.diff_state(before, after)}")


def cell(rng, index):
    t = gen.tb()
    pc, table = gen.rand_pc(rng, norb=int(rng.integers(1, 5)))
    obj = t.Overlap(pc) if index % 5 == 4 else pc
    n = obj.num_orb

    def snap():
        return gen.snapshot_pc(obj)
    far = n + int(rng.integers(0, 3))
    neg = -1 - int(rng.integers(0, 3))
    for bad in (far, neg):
        good = int(rng.integers(0, n))
        rn = tuple(int(x) for x in rng.integers(-1, 2, 3))
        e = gen.rand_cplx(rng)
        attempt(f"add_hopping({rn}, {bad}, {good})", obj.add_hopping, ("PCOrbIndexError",), snap, rn, bad, good, e)
        attempt(f"add_hopping({rn}, {good}, {bad})", obj.add_hopping, ("PCOrbIndexError",), snap, rn, good, bad, e)
        attempt(f"remove_hopping({rn}, {bad}, {good})", obj.remove_hopping, ("PCOrbIndexError",), snap, rn, bad, good)
        attempt(f"get_hopping({rn}, {good}, {bad})", obj.get_hopping, ("PCOrbIndexError",), snap, rn, good, bad)
        attempt(f"remove_orbitals([.., {bad}])", obj.remove_orbitals, ("PCOrbIndexError",), snap, [good, bad])
        attempt(f"remove_orbital({bad})", obj.remove_orbital, ("PCOrbIndexError",), snap, bad)
    attempt("set_orbital", obj.set_orbital, ("PCOrbIndexError",), snap, far, energy=1.0)
    attempt("set_orbital", obj.set_orbital, ("PCOrbIndexError",), snap, -n - 1, energy=1.0)
    attempt("set_orbital_cart", obj.set_orbital_cart, ("PCOrbIndexError",), snap, far, (0.1, 0.2, 0.3), energy=1.0)
    attempt("get_orbital", obj.get_orbital, ("PCOrbIndexError",), snap, far)
    i = int(rng.integers(0, n))
    for rn in ((0, 0, 0), (0, 0)):
        attempt(f"add_hopping diagonal {i}", obj.add_hopping, ("PCHopDiagonalError",), snap, rn, i, i, 1.0)
        attempt(f"remove_hopping diagonal {i}", obj.remove_hopping, ("PCHopDiagonalError",), snap, rn, i, i)
        attempt(f"get_hopping diagonal {i}", obj.get_hopping, ("PCHopDiagonalError",), snap, rn, i, i)
    for rn in ((), (0,), (1,), (0, 0, 0, 1), (1, 0, 0, 0, 0)):
        attempt(f"add_hopping length {len(rn)}", obj.add_hopping, ("CellIndexLenError",), snap, rn, i, i, 1.0)
        attempt(f"remove_hopping length {len(rn)}", obj.remove_hopping, ("CellIndexLenError",), snap, rn, i, i)
    for pos in ((), (0.3,), (0.1, 0.2, 0.3, 0.4)):
        attempt(f"add_orbital length {len(pos)}", obj.add_orbital, ("OrbPositionLenError",), snap, pos)
        attempt(f"add_orbital_cart length {len(pos)}", obj.add_orbital_cart, ("OrbPositionLenError",), snap, pos)
        attempt(f"set_orbital length {len(pos)}", obj.set_orbital, ("OrbPositionLenError",), snap, i, pos)
        attempt(f"set_orbital_cart length {len(pos)}", obj.set_orbital_cart, ("OrbPositionLenError",), snap, i, pos)
    attempt("reset_lattice", obj.reset_lattice, ("LatVecError",), snap, np.eye(2))
    attempt("reset_lattice origin", obj.reset_lattice, ("ValueError",), snap, np.eye(3) * 2, np.zeros(2))
    attempt("apply_pbc", obj.apply_pbc, ("ValueError",), snap, (True, False))
    missing = (3, 3, 3)
    attempt("remove_hopping of a missing term", obj.remove_hopping, ("PCHopNotFoundError",), snap, missing, i, i)
    attempt("get_hopping of a missing term", obj.get_hopping, ("PCHopNotFoundError",), snap, missing, i, i)


def hop_dict(rng, index):
    """one bad matrix among good ones"""
    t = gen.tb()
    pc, table = gen.rand_pc(rng, norb=int(rng.integers(2, 4)))
    n = pc.num_orb

    def snap():
        return gen.snapshot_pc(pc)
    hd = t.HopDict(n + 1)
    m = np.zeros((n + 1, n + 1), dtype=complex)
    m[0, 1] = 1 + 2j
    hd[(0, 0, 0)] = m
    m2 = m.copy()
    m2[0, n] = 3.0
    hd[(1, 0, 0)] = m2
    attempt("add_hopping_dict with an index out of range", pc.add_hopping_dict, ("PCOrbIndexError",), snap, hd)

    hd = t.HopDict(n)
    good = np.zeros((n, n), dtype=complex)
    good[0, 1] = 0.7 - 0.1j
    hd[(0, 0, 0)] = good

    def hsnap():
        return [(k, np.array(v.todense() if hasattr(v, "todense") else v).tolist()) for k, v in sorted(hd.hoppings.items())]
    bad = good.copy()
    bad[n - 1, n - 1] = 1.0
    attempt("HopDict diagonal", hd.__setitem__, ("PCHopDiagonalError",), hsnap, (0, 0, 0), bad)
    attempt("HopDict shape", hd.__setitem__, ("ValueError",), hsnap, (1, 0, 0), np.zeros((n, n + 1)))
    attempt("HopDict length", hd.__setitem__, ("CellIndexLenError",), hsnap, (1, 0, 0, 0), good)
    hd[(0, 0, 0)][0, 0] = 1.0       # through the matrix returned
    attempt("add_hopping_dict with a diagonal term", pc.add_hopping_dict, ("PCHopDiagonalError",), snap, hd)


def locked_cell(rng, index):
    t = gen.tb()
    m = gen.rand_sc(rng, big=0)
    pc, sc = m["pc"], m["sc"]
    if rng.random() < 0.5:
        sc.get_hop()
    n = pc.num_orb

    def snap():
        return gen.snapshot_pc(pc)
    i = int(rng.integers(0, n))
    hd = t.HopDict(n)
    mat = np.zeros((n, n), dtype=complex)
    if n > 1:
        mat[0, 1] = 1.0
    hd[(0, 0, 0)] = mat
    rn, a, b = list(m["table"])[0]
    for what, f, args in (("add_hopping", pc.add_hopping, ((1, 0, 0), i, i, 2.0)), ("add_hopping (illegal)", pc.add_hopping, ((0, 0, 0), i, i, 2.0)),
                          ("remove_hopping", pc.remove_hopping, (rn, a, b)), ("add_orbital", pc.add_orbital, ((0.0, 0.0, 0.0),)),
                          ("add_orbital_cart", pc.add_orbital_cart, ((0.0, 0.0, 0.0),)), ("set_orbital", pc.set_orbital, (i, (0.5, 0.5, 0.5), 7.0)),
                          ("set_orbital_cart", pc.set_orbital_cart, (i, (0.5, 0.5, 0.5))), ("remove_orbital", pc.remove_orbital, (i,)),
                          ("remove_orbitals", pc.remove_orbitals, ([i],)), ("trim", pc.trim, ()), ("apply_pbc", pc.apply_pbc, ((False, False, False),)),
                          ("reset_lattice", pc.reset_lattice, (np.eye(3),)), ("add_hopping_dict", pc.add_hopping_dict, (hd,))):
        attempt(what + " on a locked cell", f, ("LockError",), snap, *args)
    pc.unlock()
    pc.set_orbital(i, energy=123.0)
    require(pc.orb_eng[i] == 123.0, "edit after unlocking has no effect")


def sc_state(sc):
    hi, hj, hv, dr = sc.get_hop()
    return (sc._orb_id_pc.tolist(), sorted(sc._vacancy_set), sc.num_orb_sc, sc.num_vac,
            sorted(zip(hi.tolist(), hj.tolist(), [complex(x) for x in hv], map(tuple, np.asarray(dr).tolist())), key=repr),
            sc.get_orb_pos().tolist(), sc.get_orb_eng().tolist())


def supercell(rng, index):
    t = gen.tb()
    m = gen.rand_sc(rng, big=0)
    sc, n = m["sc"], len(m["orbs"])

    def snap():
        return sc_state(sc)
    d, no = m["dim"], m["no"]
    good = m["orbs"][int(rng.integers(0, n))]
    ax = int(rng.integers(0, 4))
    lim = (d + (no,))[ax]
    for val in (lim, lim + 2, -1):
        bad = tuple(val if q == ax else x for q, x in enumerate(good))
        attempt(f"add_vacancy({bad})", sc.add_vacancy, ("IDPCIndexError",), snap, bad)
        attempt(f"add_vacancies([{good}, {bad}])", sc.add_vacancies, ("IDPCIndexError",), snap, [good, bad])
        attempt(f"set_vacancies([{good}, {bad}])", sc.set_vacancies, ("IDPCIndexError",), snap, [good, bad])
    attempt("add_vacancies length 3", sc.add_vacancies, ("IDPCLenError",), snap, [good, good[:3]])
    attempt("set_vacancies length 5", sc.set_vacancies, ("IDPCLenError",), snap, [good, good + (0,)])
    i = int(rng.integers(0, n))
    for bad in (n, n + 3, -1):
        attempt(f"add_hopping({bad}, {i})", sc.add_hopping, ("SCOrbIndexError",), snap, (0, 0, 0), bad, i, 1.0)
        attempt(f"add_hopping({i}, {bad})", sc.add_hopping, ("SCOrbIndexError",), snap, (0, 0, 1), i, bad, 1.0)
    attempt("add_hopping diagonal", sc.add_hopping, ("SCHopDiagonalError",), snap, (0, 0, 0), i, i, 1.0)
    attempt("add_hopping length", sc.add_hopping, ("CellIndexLenError",), snap, (0,), i, i, 1.0)
    for dim, pbc, exc in (((5,), (True, True, True), "SCDimLenError"), (tuple(d) + (1,), (True, True, True), "SCDimLenError"),
                          (d, (True,), "PBCLenError"), (tuple(x - 1 if q == ax % 3 and False else x for q, x in enumerate(d)), (True,) * 4, "PBCLenError")):
        attempt(f"SuperCell dim={dim} pbc={pbc}", t.SuperCell, (exc,), snap, m["pc"], dim, pbc)
    # dimensions below the range of the hopping terms
    for q in range(3):
        r = max(abs(k[0][q]) for k in m["table"])
        if r:
            small = tuple(2 * r if q == p else x for p, x in enumerate(d))
            attempt(f"SuperCell dim={small}", t.SuperCell, ("SCDimSizeError",), snap, m["pc"], small, (True, True, True))
            return
    attempt("SuperCell dim 0", t.SuperCell, ("SCDimSizeError",), snap, m["pc"], (0,) + tuple(d[1:]), (True, True, True))


def locked_supercell(rng, index):
    t = gen.tb()
    m = gen.rand_sc(rng, big=0)
    sc, n = m["sc"], len(m["orbs"])
    if n < 2:
        return None
    args = [sc]
    inter = None
    if index % 2:
        inter = t.SCInterHopping(sc, sc)
        inter.add_hopping((0, 0, 0), 0, 1, 1.5 + 0.5j)
        inter.add_hopping((1, 0, 0), 0, 1, 2.5 + 0.5j)
        args.append(inter)
    sa = t.Sample(*args)

    def snap():
        return sc_state(sc)
    good = m["orbs"][int(rng.integers(0, n))]
    for what, f, a in (("add_vacancy", sc.add_vacancy, (good,)), ("add_vacancies", sc.add_vacancies, ([good],)), ("set_vacancies", sc.set_vacancies, ([good],)),
                       ("set_vacancies()", sc.set_vacancies, ()), ("add_hopping", sc.add_hopping, ((0, 0, 0), 0, 1, 9.0)),
                       ("set_orb_pos_modifier", sc.set_orb_pos_modifier, (lambda p: None,)), ("trim", sc.trim, ())):
        attempt(what + " on a locked supercell", f, ("LockError",), snap, *a)
    if inter is not None:
        def isnap():
            return sorted((k, p, complex(v)) for k, h in inter.hoppings.items() for p, v in h.items()), inter.num_hop
        for what, f, a in (("add_hopping", inter.add_hopping, ((0, 0, 0), 0, 0, 3.0)), ("add_hopping (replace)", inter.add_hopping, ((0, 0, 0), 0, 1, 3.0)),
                           ("remove_hopping", inter.remove_hopping, ((0, 0, 0), 0, 1)), ("remove_orbital", inter.remove_orbital, (0,)),
                           ("remove_orbitals", inter.remove_orbitals, ([0],)), ("remove_rn", inter.remove_rn, ((1, 0, 0),))):
            attempt(what + " on a locked inter-hopping", f, ("LockError",), isnap, *a)
        free = t.SCInterHopping(sc, sc)
        free.add_hopping((0, 0, 0), 0, 1, 1.0)

        def fsnap():
            return sorted((k, p, complex(v)) for k, h in free.hoppings.items() for p, v in h.items())
        attempt("inter add_hopping length", free.add_hopping, ("CellIndexLenError",), fsnap, (1,), 0, 1, 1.0)
        attempt("inter add_hopping length", free.add_hopping, ("CellIndexLenError",), fsnap, (1, 0, 0, 0), 0, 1, 1.0)
    sc.unlock()
    sc.add_hopping((0, 0, 0), 0, 1, 9.0)


CASES = [("cell", cell), ("hop_dict", hop_dict), ("locked_cell", locked_cell), ("supercell", supercell), ("locked_supercell", locked_supercell)]
