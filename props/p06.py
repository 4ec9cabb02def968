"""P06: cell and supercell orbital numbering are inverse to each other"""
import itertools
import numpy as np
from vk.search import require
from props import gen, k_super

FUN = ["_id_pc2sc", "_id_pc2sc_vac", "_id_pc2sc_vac2", "id_pc2sc", "id_sc2pc_array", "id_pc2sc_array",
       "build_vac_id_sc", "build_orb_id_pc"]


def proofs(src):
    return k_super.prove(src, FUN) + k_super.lemma_tasks()


TRUSTED = ["numbering lemmas are instantiated by hand at the loop heads (FlatFacts)"]
ASSUMPTIONS = ["OrbitalSet passes a sorted duplicate-free vacancy array (checked in the bounded runs)"]
BOUNDED_NOTE = "random supercells up to a few hundred orbitals: public conversions against enumeration"


def _kern(rng):
    from tbplas.cython import super as core
    dim = np.array(rng.integers(1, 5, 3), dtype=np.int32)
    no = int(rng.integers(1, 5))
    allid = list(itertools.product(range(dim[0]), range(dim[1]), range(dim[2]), range(no)))
    nv = int(rng.integers(0, min(len(allid), 15)))
    vac = sorted(int(x) for x in rng.choice(len(allid), nv, replace=False))
    return core, dim, no, allid, vac


def kernels(rng, index):
    core, dim, no, allid, vac = _kern(rng)
    va = np.array(vac, dtype=np.int64)
    orbs = [q for n, q in enumerate(allid) if n not in vac]
    tabl = np.array(core.build_orb_id_pc(dim, no, va))
    require(tabl.shape == (len(orbs), 4) and [tuple(r) for r in tabl.tolist()] == orbs,
            lambda: f"build_orb_id_pc(dim={dim}, no={no}, vac={vac}) is not the lexicographic list of non-vacant orbitals")
    num = {q: n for n, q in enumerate(orbs)}
    for n, q in enumerate(allid):
        r = core.id_pc2sc(dim, no, np.array(q, dtype=np.int32), va)
        exp = num.get(q, -1)
        require(r == exp, lambda: f"id_pc2sc(dim={dim.tolist()}, no={no}, id={q}, vac={vac}) = {r}, expected {exp}")
    if orbs:
        idx = rng.integers(0, len(orbs), 12)
        a = np.array([orbs[i] for i in idx], dtype=np.int32)
        require(np.array(core.id_pc2sc_array(dim, no, a, va)).tolist() == idx.tolist(), lambda: f"id_pc2sc_array dim={dim} vac={vac} {a.tolist()}")
        require(np.array(core.id_sc2pc_array(tabl, idx.astype(np.int64))).tolist() == a.tolist(), "id_sc2pc_array")
    perm = [allid[v] for v in rng.permutation(vac)] if vac else []
    if perm:
        require(np.array(core.build_vac_id_sc(dim, no, np.array(perm, dtype=np.int32))).tolist() ==
                [allid.index(q) for q in perm], lambda: f"build_vac_id_sc dim={dim} {perm}")


def public(rng, index):
    m = gen.rand_sc(rng, maxorb=4)
    sc, num = m["sc"], m["num"]
    import tbplas.builder.exceptions as exc
    if rng.random() < 0.5:      # edit history of the vacancy set
        extra = [m["orbs"][int(rng.integers(0, len(m["orbs"])))] for _ in range(2)]
        sc.orb_id_sc2pc(0)
        for v in extra:
            sc.add_vacancy(v)
        m["vac"] = list(dict.fromkeys(m["vac"] + extra))
    if rng.random() < 0.3:
        keep = [v for v in m["vac"] if rng.random() < 0.5]
        sc.set_vacancies(keep)
        m["vac"] = keep
    allid = list(itertools.product(*[range(d) for d in m["dim"]], range(m["no"])))
    vs = set(m["vac"])
    orbs = [q for q in allid if q not in vs]
    num = {q: n for n, q in enumerate(orbs)}
    if not orbs:
        return None
    require(sc.num_orb_sc == len(orbs), lambda: f"num_orb_sc {sc.num_orb_sc} != {len(orbs)}")
    for q in allid:
        if rng.random() > 0.5 and len(allid) > 60:
            continue
        if q in vs:
            for x in (q, np.array(q, dtype=np.int32)):
                try:
                    r = sc.orb_id_pc2sc(x)
                except exc.IDPCVacError:
                    continue
                require(False, f"vacancy {q} numbered {r} (dim {m['dim']}, vacancies {m['vac']})")
        else:
            r = sc.orb_id_pc2sc(q)
            require(r == num[q], lambda: f"orb_id_pc2sc{q} = {r} expected {num[q]} dim={m['dim']} vac={m['vac']}")
            require(tuple(sc.orb_id_sc2pc(r).tolist()) == q, lambda: f"orb_id_sc2pc({r}) = {sc.orb_id_sc2pc(r)} expected {q}")
    ids = rng.integers(0, len(orbs), 10)
    arr = np.array([orbs[i] for i in ids])
    require(sc.orb_id_pc2sc_array(arr).tolist() == ids.tolist(), lambda: f"orb_id_pc2sc_array {arr.tolist()} -> {sc.orb_id_pc2sc_array(arr)}")
    require(sc.orb_id_sc2pc_array(ids).tolist() == arr.tolist(), "orb_id_sc2pc_array")


CASES = [("kernels", kernels), ("public", public)]
