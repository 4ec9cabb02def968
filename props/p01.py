"""P01: the hopping table always satisfies the conjugate relation"""
import itertools
import numpy as np
from vk.search import require
from props import gen, k_builder


def proofs(src):
    return k_builder.as_tasks(k_builder.intra(src)) + k_builder.as_tasks(
        [c for c in k_builder.cell(src) + k_builder.overlap(src) if "hopping" in c.name or "offsite" in c.name])


ASSUMPTIONS = ["PrimitiveCell.add_hopping_dict (scipy coo_matrix) is checked in the bounded runs only"]
BOUNDED_NOTE = "random histories of up to 14 edits and queries on primitive cells and overlaps, compared with an independent table after every step"


def check_table(pc, table, pool, log, arrays=True):
    """every term of the pool, from both sides"""
    import tbplas as tb
    from tbplas.builder.exceptions import PCHopNotFoundError
    for rn, i, j in pool:
        key, c = gen.canon(rn, i, j)
        for q, conj in (((rn, i, j), c), ((tuple(-x for x in rn), j, i), not c)):
            try:
                got = pc.get_hopping(*q)
            except PCHopNotFoundError:
                got = None
            exp = table.get(key)
            if exp is not None and conj:
                exp = complex(exp).conjugate()
            require((got is None) == (exp is None) and (exp is None or complex(got) == complex(exp)),
                    lambda: f"after {log}: get_hopping{q} is {got}, expected {exp}")
    require(pc.num_hop == len(table), lambda: f"after {log}: num_hop={pc.num_hop}, {len(table)} terms expected")
    if arrays:
        ind, eng = pc.hop_ind, pc.hop_eng
        require(len(ind) == len(table) and len(eng) == len(table), lambda: f"after {log}: {len(ind)} rows in hop_ind, {len(table)} terms expected")
        got = {}
        for r, e in zip(np.asarray(ind).tolist(), np.asarray(eng).tolist()):
            key, c = gen.canon(tuple(r[:3]), r[3], r[4])
            require(key not in got, lambda: f"after {log}: term {r} counted twice")
            got[key] = complex(e).conjugate() if c else complex(e)
        require(set(got) == set(table) and all(abs(got[k] - complex(table[k])) < 1e-12 for k in table),
                lambda: f"after {log}: arrays hold {got}, expected {table}")


def energy(rng):
    r = rng.random()
    if r < 0.1:
        return 0.0
    if r < 0.2:
        return float(rng.normal())
    if r < 0.3:
        return int(rng.integers(-3, 4))
    if r < 0.4:
        return np.complex128(gen.rand_cplx(rng))
    return gen.rand_cplx(rng)


def history(rng, index):
    t = gen.tb()
    from tbplas.builder.exceptions import PCHopNotFoundError
    norb = int(rng.integers(1, 4))
    over = index % 3 == 2
    pc = t.PrimitiveCell(gen.rand_lat(rng))
    for i in range(norb):
        pc.add_orbital(tuple(rng.uniform(0, 1, 3)), float(rng.normal()))
    obj = t.Overlap(pc) if over else pc
    put = obj.add_offsite if over else obj.add_hopping
    reach = int(rng.integers(1, 3))
    table, pool, log = {}, [], []
    for _ in range(int(rng.integers(2, 15))):
        if pool and rng.random() < 0.5:
            rn, i, j = pool[int(rng.integers(0, len(pool)))]
            if rng.random() < 0.5:
                rn, i, j = tuple(-x for x in rn), j, i
        else:
            rn = [int(x) for x in rng.integers(-reach, reach + 1, 3)]
            for d in range(3):
                if rng.random() < 0.4:
                    rn[d] = 0
            rn = tuple(rn)
            i, j = (int(x) for x in rng.integers(0, norb, 2))
        if rn == (0, 0, 0) and i == j:
            continue
        pool.append((rn, i, j))
        key, c = gen.canon(rn, i, j)
        op = rng.random()
        if op < 0.6:
            e = energy(rng)
            arg = rn[:2] if rn[2] == 0 and rng.random() < 0.3 else rn
            put(arg, i, j, e)
            log.append(("add", arg, i, j, e))
            table[key] = complex(e).conjugate() if c else complex(e)
        elif op < 0.85:
            log.append(("remove", rn, i, j))
            try:
                obj.remove_hopping(rn, i, j)
                ok = True
            except PCHopNotFoundError:
                ok = False
            require(ok == (key in table), lambda: f"after {log}: removal {'succeeded' if ok else 'reported a missing term'}")
            table.pop(key, None)
        else:
            log.append(("array",))
            obj.hop_ind, obj.hop_eng
        check_table(obj, table, pool, log, arrays=rng.random() < 0.5)
    check_table(obj, table, pool, log)


def hop_dict(rng, index):
    """matrices of terms, both halves possibly given"""
    t = gen.tb()
    norb = int(rng.integers(1, 4))
    pc = t.PrimitiveCell(gen.rand_lat(rng))
    for i in range(norb):
        pc.add_orbital(tuple(rng.uniform(0, 1, 3)))
    hd = t.HopDict(norb)
    table, pool, log = {}, [], []
    rns = list({tuple(int(x) for x in rng.integers(-1, 2, 3)) for _ in range(3)})
    use = []
    for rn in rns:
        if rn != (0, 0, 0) and tuple(-x for x in rn) in use:
            continue
        use.append(rn)
        m = np.where(rng.random((norb, norb)) < 0.6, rng.normal(size=(norb, norb)) + 1j * rng.normal(size=(norb, norb)), 0)
        if rn == (0, 0, 0):
            m = np.triu(m, 1) if rng.random() < 0.5 else np.tril(m, -1)
        hd[rn] = m
        log.append((rn, m.tolist()))
        for i in range(norb):
            for j in range(norb):
                if not (rn == (0, 0, 0) and i == j):
                    pool.append((rn, i, j))
                if m[i, j] != 0:
                    key, c = gen.canon(rn, i, j)
                    table[key] = complex(m[i, j]).conjugate() if c else complex(m[i, j])
    pc.add_hopping_dict(hd)
    check_table(pc, table, pool, log)


def supercell_mods(rng, index):
    """modifications of a supercell use the same table"""
    m = gen.rand_sc(rng, big=0)
    sc, n = m["sc"], len(m["orbs"])
    table, log = {}, []
    for _ in range(6):
        rn = tuple(int(x) for x in rng.integers(-1, 2, 3))
        i, j = (int(x) for x in rng.integers(0, n, 2))
        if log and rng.random() < 0.4:
            rn, i, j, _e = log[-1]
            rn, i, j = tuple(-x for x in rn), j, i
        if rn == (0, 0, 0) and i == j:
            continue
        e = gen.rand_cplx(rng)
        sc.add_hopping(rn, i, j, e)
        log.append((rn, i, j, e))
        key, c = gen.canon(rn, i, j)
        table[key] = e.conjugate() if c else e
    got = {}
    ind, eng = sc._hop_modifier.to_array(use_int64=True) if table else ([], [])
    for r, e in zip(np.asarray(ind).tolist(), np.asarray(eng).tolist()):
        key, c = gen.canon(tuple(r[:3]), r[3], r[4])
        require(key not in got, lambda: f"{log}: term {r} stored twice")
        got[key] = complex(e).conjugate() if c else complex(e)
    require(got == table, lambda: f"{log}: stored {got}, expected {table}")


CASES = [("history", history), ("hop_dict", hop_dict), ("supercell_mods", supercell_mods)]
