"""P04: derived arrays always reflect the current model"""
import numpy as np
from vk.search import require
from props import gen

LEVEL = "exploration"
ASSUMPTIONS = []
BOUNDED_NOTE = "random edit histories with reads of the arrays in between; values include pairs that collide under hash()"
NASTY = [0.0, 1.0, -1.0, -2.0, 2.0 ** 61 - 1, 2.0 ** 61 - 2, 2.0 ** 61, 0.5, -0.5, float(2 ** 31), 1e-300, 1e300, -3.25]
NASTYC = [1j, -1j, -1 - 1j, -2 - 2j, -1 + 0j, -2 + 0j, 1000003j, complex(-1000003), complex(0, -1), complex(-2, 0), 1 + 0j]


def proofs(src):
    return []


def compare(pc, orbs, table, log, rng=None):
    n = len(orbs)
    pos, eng = np.asarray(pc.orb_pos), np.asarray(pc.orb_eng)
    require(pc.num_orb == n and len(eng) == n and len(pos) == n, lambda: f"after {log}: {len(eng)} energies, {len(pos)} positions for {n} orbitals")
    for m, (p, e) in enumerate(orbs):
        require(pos[m].tolist() == [float(x) for x in p], lambda: f"after {log}: orb_pos[{m}] = {pos[m].tolist()}, current position {p}")
        require(float(eng[m]) == float(e), lambda: f"after {log}: orb_eng[{m}] = {eng[m]}, current energy {e}")
    ind, he = np.asarray(pc.hop_ind), np.asarray(pc.hop_eng)
    require(len(ind) == len(table) == len(he) == pc.num_hop, lambda: f"after {log}: {len(ind)} rows for {len(table)} hopping terms")
    got = {}
    for r, e in zip(ind.tolist(), he.tolist()):
        key, c = gen.canon(tuple(r[:3]), r[3], r[4])
        require(key not in got, lambda: f"after {log}: term {r} twice")
        got[key] = complex(e).conjugate() if c else complex(e)
    require(got == {k: complex(v) for k, v in table.items()}, lambda: f"after {log}: hop arrays {got}, current terms {table}")
    if table:
        require(np.issubdtype(ind.dtype, np.integer) and ind.shape == (len(table), 5) and np.issubdtype(he.dtype, np.complexfloating),
                lambda: f"after {log}: types {ind.dtype} {ind.shape} {he.dtype}")
        dr = np.asarray(pc.dr)
        for m, r in enumerate(ind.tolist()):
            want = np.array(r[:3]) + pos[r[4]] - pos[r[3]]
            require(np.all(np.abs(dr[m] - want) <= 1e-9 * (1 + np.abs(want).max())), lambda: f"after {log}: dr[{m}] = {dr[m]}, expected {want}")


def history(rng, index):
    t = gen.tb()
    lat = gen.rand_lat(rng)
    pc = t.PrimitiveCell(lat, unit=t.NM)
    orbs, table, log = [], {}, []

    def num():
        return float(NASTY[int(rng.integers(0, len(NASTY)))]) if rng.random() < 0.7 else float(rng.normal())

    def cnum():
        return complex(NASTYC[int(rng.integers(0, len(NASTYC)))]) if rng.random() < 0.7 else gen.rand_cplx(rng)
    for _ in range(int(rng.integers(3, 16))):
        op = int(rng.integers(0, 9))
        n = len(orbs)
        if op <= 1 or n == 0:
            p, e = tuple(num() for _ in range(3)), num()
            pc.add_orbital(p, e)
            orbs.append((p, e))
            log.append(("add_orbital", p, e))
        elif op in (2, 3):
            i = int(rng.integers(0, n))
            p, e = orbs[i]
            kw = {}
            if rng.random() < 0.6:
                p = list(p)
                p[int(rng.integers(0, 3))] = num()
                kw["position"] = p = tuple(p)
            if rng.random() < 0.6:
                kw["energy"] = e = num()
            if rng.random() < 0.2:
                kw["label"] = "L"
            pc.set_orbital(i, **kw)
            orbs[i] = (p, e)
            log.append(("set_orbital", i, kw))
        elif op in (4, 5, 6):
            if table and rng.random() < 0.6:
                rn, i, j = list(table)[int(rng.integers(0, len(table)))]
                if rng.random() < 0.3:
                    rn, i, j = tuple(-x for x in rn), j, i
            else:
                rn = tuple(int(x) for x in rng.integers(-2, 3, 3))
                i, j = (int(x) for x in rng.integers(0, n, 2))
            if rn == (0, 0, 0) and i == j:
                continue
            e = cnum()
            pc.add_hopping(rn, i, j, e)
            k, c = gen.canon(rn, i, j)
            table[k] = e.conjugate() if c else e
            log.append(("add_hopping", rn, i, j, e))
        elif op == 7 and table:
            rn, i, j = list(table)[int(rng.integers(0, len(table)))]
            pc.remove_hopping(rn, i, j)
            del table[(rn, i, j)]
            log.append(("remove_hopping", rn, i, j))
            if rng.random() < 0.5:     # same number of terms, other cell
                rn2 = tuple(-1 - x if x in (-1, -2) else x for x in rn)
                k, c = gen.canon(rn2, i, j)
                if not (rn2 == (0, 0, 0) and i == j) and k not in table:
                    e = cnum()
                    pc.add_hopping(rn2, i, j, e)
                    table[k] = e.conjugate() if c else e
                    log.append(("add_hopping", rn2, i, j, e))
        elif op == 8 and n > 1:
            i = int(rng.integers(0, n))
            pc.remove_orbital(i)
            orbs.pop(i)
            table = {(rn, a - (a > i), b - (b > i)): e for (rn, a, b), e in table.items() if a != i and b != i}
            log.append(("remove_orbital", i))
        if rng.random() < 0.6:
            r = rng.random()
            if r < 0.6:
                compare(pc, orbs, table, log)
            elif r < 0.7:
                pc.sync_array()
            elif r < 0.8:
                pc.sync_array(force_sync=True)
            elif r < 0.9:
                pc.hop_eng
            else:
                pc.orb_eng
            log.append(("read",))
    compare(pc, orbs, table, log)


def single_edit(rng, index):
    """one value changed to any other one"""
    t = gen.tb()
    pc, table = gen.rand_pc(rng, norb=2, nhop=3, unit=None)
    vals = NASTY
    a, b = vals[index % len(vals)], vals[(index // len(vals)) % len(vals)]
    pc.set_orbital(0, energy=a, position=(a, 0.0, b))
    pc.sync_array()
    orbs = [(tuple(o.position), o.energy) for o in pc.orbitals]
    pc.set_orbital(0, energy=b)
    orbs[0] = (orbs[0][0], b)
    compare(pc, orbs, table, [("energy", a, b)])
    pc.set_orbital(0, position=(b, 0.0, a))
    orbs[0] = ((b, 0.0, a), b)
    compare(pc, orbs, table, [("position", a, b)])
    ca, cb = NASTYC[index % len(NASTYC)], NASTYC[(index // len(NASTYC)) % len(NASTYC)]
    key = list(table)[0]
    for e in (ca, cb):
        pc.add_hopping(*key, e)
        table[key] = e
        compare(pc, orbs, table, [("hopping", ca, cb)])
    # permutation of orbitals, exchange of two terms
    pc.set_orbital(0, position=orbs[1][0], energy=orbs[1][1])
    pc.set_orbital(1, position=orbs[0][0], energy=orbs[0][1])
    compare(pc, [orbs[1], orbs[0]], table, ["exchange"])


def lattice_edit(rng, index):
    """reset_lattice keeps Cartesian positions (fix_orb) or fractional ones"""
    t = gen.tb()
    pc, table = gen.rand_pc(rng)
    cart = np.array(pc.orb_pos_nm)
    frac = np.array(pc.orb_pos)
    new, org = gen.rand_lat(rng), rng.uniform(-1, 1, 3)
    fix = bool(rng.integers(0, 2))
    pc.reset_lattice(new, org, unit=t.NM, fix_orb=fix)
    require(gen.close(pc.lat_vec, new) and gen.close(pc.origin, org), "lattice not replaced")
    if fix:
        require(gen.close(pc.orb_pos_nm, cart, 1e-7), lambda: f"Cartesian positions changed: {cart.tolist()} -> {pc.orb_pos_nm.tolist()}")
        want = np.linalg.solve(new.T, (cart - org).T).T
        require(gen.close(pc.orb_pos, want, 1e-7), "fractional positions")
    else:
        require(gen.close(pc.orb_pos, frac), "fractional positions changed")
    require(gen.close(pc.orb_pos_ang, np.array(pc.orb_pos_nm) * 10), "orb_pos_ang")
    require(gen.close(pc.dr_nm, np.array(pc.dr) @ new, 1e-7), "dr_nm")


CASES = [("history", history), ("single_edit", single_edit), ("lattice_edit", lattice_edit)]
