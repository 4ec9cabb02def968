"""P03: removing orbitals deletes exactly them and renumbers the rest in order"""
import numpy as np
from vk.search import require
from props import gen, k_super

ASSUMPTIONS = []
BOUNDED_NOTE = "random cells and supercells, removal of every subset size, repeated and unordered index lists, repeated removals and trims"


def proofs(src):
    return k_super.prove(src, ["get_orb_id_trim"])


def snap(pc):
    return [(tuple(float(x) for x in o.position), float(o.energy), o.label) for o in pc.orbitals], \
        {k: complex(v) for k, v in ((gen.canon(rn, *p)[0], (complex(e).conjugate() if gen.canon(rn, *p)[1] else complex(e)))
                                    for rn, h in pc.hoppings.items() for p, e in h.items())}


def expect(orbs, table, rem):
    keep = [i for i in range(len(orbs)) if i not in rem]
    new = {o: n for n, o in enumerate(keep)}
    return [orbs[i] for i in keep], {(rn, new[i], new[j]): e for (rn, i, j), e in table.items() if i in new and j in new}


def same(pc, orbs, table, what):
    o, t = snap(pc)
    require(o == orbs, lambda: f"{what}: orbitals {o}, expected {orbs}")
    require(t == table, lambda: f"{what}: terms {t}, expected {table}")
    require(pc.num_orb == len(orbs) and pc.num_hop == len(table), lambda: f"{what}: counts")
    require(gen.close(np.asarray(pc.orb_eng), [x[1] for x in orbs]) and gen.close(np.asarray(pc.orb_pos).reshape(-1, 3), np.array([x[0] for x in orbs]).reshape(-1, 3)),
            lambda: f"{what}: orbital arrays")
    got = {}
    for r, e in zip(np.asarray(pc.hop_ind).tolist(), np.asarray(pc.hop_eng).tolist()):
        k, c = gen.canon(tuple(r[:3]), r[3], r[4])
        got[k] = e.conjugate() if c else e
    require(got == table, lambda: f"{what}: hopping arrays {got}, expected {table}")


def big_pc(rng):
    n = int(rng.integers(2, 9))
    pc, _ = gen.rand_pc(rng, norb=n, nhop=int(rng.integers(1, 3 * n)))
    for i in range(n):
        pc.set_orbital(i, label=f"L{i}")
    return pc


def remove(rng, index):
    pc = big_pc(rng)
    log = []
    for _ in range(int(rng.integers(1, 4))):
        n = pc.num_orb
        if n < 2:
            break
        orbs, table = snap(pc)
        k = int(rng.integers(0, n))
        rem = [int(x) for x in rng.choice(n, k, replace=False)]
        if rem and rng.random() < 0.3:
            rem.append(rem[0])
        arg = rem
        r = rng.random()
        if r < 0.2:
            arg = np.array(rem, dtype=np.int64)
        elif r < 0.3:
            arg = tuple(rem)
        elif r < 0.4:
            arg = set(rem)
        elif r < 0.5:
            arg = iter(rem)
        log.append(list(rem))
        if rng.random() < 0.5:
            pc.sync_array()
        if len(rem) == 1 and rng.random() < 0.5:
            pc.remove_orbital(rem[0])
        else:
            pc.remove_orbitals(arg)
        same(pc, *expect(orbs, table, set(rem)), f"removal of {log} from {orbs} {table}")


def trim(rng, index):
    pc = big_pc(rng)
    for _ in range(2):
        orbs, table = snap(pc)
        cnt = [0] * len(orbs)
        for (rn, i, j) in table:
            cnt[i] += 1
            cnt[j] += 1
        rem = {i for i in range(len(orbs)) if cnt[i] < 2}
        pc.trim()
        same(pc, *expect(orbs, table, rem), f"trim of {orbs} {table}")


def inter_table(rng, index):
    """removal in a table without conjugate relation"""
    t = gen.tb()
    h = t.PCInterHopping(None, None)
    n = int(rng.integers(2, 7))
    table = {}
    for _ in range(int(rng.integers(1, 12))):
        rn = tuple(int(x) for x in rng.integers(-1, 2, 3))
        i, j = (int(x) for x in rng.integers(0, n, 2))
        e = gen.rand_cplx(rng)
        h.add_hopping(rn, i, j, e)
        table[(rn, i, j)] = e
    rem = {int(x) for x in rng.choice(n, int(rng.integers(0, n)), replace=False)}
    before = dict(table)
    new = {o: k for k, o in enumerate(i for i in range(n) if i not in rem)}
    h.remove_orbitals(list(rem))
    got = {(rn,) + p: complex(e) for rn, hh in h.hoppings.items() for p, e in hh.items()}
    want = {(rn, new[i], new[j]): e for (rn, i, j), e in before.items() if i in new and j in new}
    require(got == want, lambda: f"removal of {rem} from {before}: {got}, expected {want}")


def sc_trim(rng, index):
    m = gen.rand_sc(rng, vac=rng.random() < 0.7, pbc=tuple(bool(x) for x in rng.random(3) < 0.3), big=1)
    sc = m["sc"]
    n = len(m["orbs"])
    mods = {}
    for _ in range(int(rng.integers(0, 4))):
        i, j = (int(x) for x in rng.integers(0, n, 2))
        if i != j and not any({a, b} == {i, j} for _, a, b in mods):
            e = gen.rand_cplx(rng)
            sc.add_hopping((0, 0, 0), i, j, e)
            mods[((0, 0, 0), i, j)] = e
    hi, hj, hv, dr = sc.get_hop()
    cnt = np.zeros(n, dtype=int)
    for a, b in zip(hi, hj):
        cnt[a] += 1
        cnt[b] += 1
    keep = [q for q in range(n) if cnt[q] >= 2]
    if not keep:
        return None
    pos, eng = sc.get_orb_pos(), sc.get_orb_eng()
    sc.trim()
    new = {o: k for k, o in enumerate(keep)}
    require(sc.num_orb_sc == len(keep), lambda: f"trim keeps {sc.num_orb_sc} orbitals instead of {len(keep)} (dim={m['dim']} pbc={m['pbc']} vac={m['vac']})")
    require(gen.close(sc.get_orb_pos(), pos[keep]) and gen.close(sc.get_orb_eng(), eng[keep]), "trim: positions or energies of the remaining orbitals")
    want = {}
    for a, b, v, d in zip(hi, hj, hv, dr):
        if int(a) in new and int(b) in new:
            want.setdefault((new[int(a)], new[int(b)]), []).append((complex(v), np.array(d)))

    def norm(tab):
        out = {}
        for (a, b), v in tab.items():
            for e, d in v:
                out.setdefault((min(a, b), max(a, b)), []).append((e, d) if a <= b else (np.conj(e), -d))
        return out
    gen.same_hops(norm(gen.hop_table(*sc.get_hop())), norm(want), f"terms after trim of dim={m['dim']} pbc={m['pbc']} vac={m['vac']} mods={mods}")


CASES = [("remove", remove), ("trim", trim), ("inter_table", inter_table), ("sc_trim", sc_trim)]
