"""P08: supercell hopping terms are exactly the replicated cell terms"""
import numpy as np
from vk.search import require
from props import gen, k_super, k_super2

FUN = ["_id_pc2sc", "_id_pc2sc_vac2", "_wrap_pbc", "_fast_div", "_zero_rn", "split_pc_hop", "build_hop_gen", "build_hop_pbc"]


def proofs(src):
    m = k_super2.MODLEMMA()
    return k_super.prove(src, FUN) + k_super.lemma_tasks() + [("lemma " + m.name, m.verify)]


TRUSTED = ["ghost enumeration of kept terms (KeptRank): rank, source and keep predicates are introduced by their recursive definition"]
ASSUMPTIONS = ["buffer of num_hop*prod(dim) rows is large enough (array bounds in build_hop_*, split_pc_hop assumed; runs with an oversized oracle in the bounded part)",
               "SuperCell._init_hop_fast/_init_hop_gen glue (np.append / np.vstack) is checked in the bounded runs only"]
BOUNDED_NOTE = "random supercells (all boundary conditions, vacancies, up to 3 orbitals per cell) against the definition"


def terms(rng, index):
    m = gen.rand_sc(rng, reach=int(rng.integers(1, 3)), big=1)
    hi, hj, hv, dr = m["sc"].get_hop()
    gen.same_hops(gen.hop_table(hi, hj, hv, dr), gen.ref_hops(m), f"get_hop dim={m['dim']} pbc={m['pbc']} vac={m['vac']}", with_dr=False)
    if all(m["pbc"]) and not m["vac"]:
        n = len(m["table"]) * int(np.prod(m["dim"]))
        require(len(hi) == n, lambda: f"{len(hi)} terms instead of {n} in a fully periodic supercell")


def fast_vs_general(rng, index):
    m = gen.rand_sc(rng, vac=False, big=1)
    sc = m["sc"]
    pos = sc.get_orb_pos()
    a = gen.hop_table(*sc._init_hop_fast(pos))
    b = gen.hop_table(*sc._init_hop_gen(pos))
    gen.same_hops(a, b, f"fast and general construction dim={m['dim']} pbc={m['pbc']}")


def wrapped(rng, index):
    from tbplas.cython import super as core
    nh = int(rng.integers(1, 8))
    ind = rng.integers(-2, 3, (nh, 5)).astype(np.int32)
    eng = (rng.normal(size=nh) + 1j * rng.normal(size=nh)).astype(np.complex128)
    pbc = rng.integers(0, 2, 3).astype(np.int32)
    i1, e1, i0, e0 = [np.array(x) for x in core.split_pc_hop(ind, eng, pbc)]
    per = [h for h in range(nh) if all(pbc[k] or ind[h, k] == 0 for k in range(3))]
    fre = [h for h in range(nh) if h not in per]
    require(i1.tolist() == ind[per].tolist() and np.array_equal(e1, eng[per]) and i0.tolist() == ind[fre].tolist()
            and np.array_equal(e0, eng[fre]), lambda: f"split_pc_hop {ind.tolist()} pbc={pbc.tolist()}")


CASES = [("terms", terms), ("fast_vs_general", fast_vs_general), ("wrapped", wrapped)]
