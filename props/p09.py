"""P09: positions, energies and hopping vectors are physical"""
import numpy as np
from vk.search import require
from vk.sym import And, imp
from vk.contract import Lemma
from props import gen, k_super, k_super2

FUN = ["_wrap_pbc", "_fast_div", "_zero_rn", "build_orb_pos", "build_orb_eng", "build_hop_gen", "build_hop_pbc", "build_inter_dr"]


def disp_lemmas():
    """the displacement of a wrapped replica equals the primitive one, per Cartesian component:
    positions are (cell+pos)@lat, the ket cell is j = n*d + w, the supercell vector is d*lat"""
    P = [("i", "real"), ("r", "real"), ("w", "real"), ("n", "real"), ("d", "real"), ("ti", "real"), ("tj", "real"),
         ("lat", "real"), ("org", "real")]
    return [Lemma("displacement is independent of the cell", P,
                  lambda p: [("wrapped", p.i + p.r == p.n * p.d + p.w)],
                  lambda p: [("same", ((p.w + p.tj) * p.lat + p.org) - ((p.i + p.ti) * p.lat + p.org) + p.n * (p.d * p.lat)
                              == (p.r + p.tj - p.ti) * p.lat)])]


def proofs(src):
    m = k_super2.MODLEMMA()
    return k_super.prove(src, FUN) + [("lemma " + x.name, x.verify) for x in [m] + disp_lemmas()]


ASSUMPTIONS = ["array bounds in build_hop_* assumed", "origin shift and sc_lat_vec (numpy in SuperCell) checked in the bounded runs"]
BOUNDED_NOTE = "random supercells with random non-orthogonal lattices, origins, boundary conditions and vacancies; inter-supercell hoppings"


def geometry(rng, index):
    m = gen.rand_sc(rng, big=1)
    sc = m["sc"]
    pos = gen.ref_pos(m)
    require(gen.close(sc.get_orb_pos(), pos), lambda: f"orbital positions dim={m['dim']} vac={m['vac']} origin={m['origin'].tolist()}")
    require(gen.close(sc.get_orb_eng(), m["eng"][[q[3] for q in m["orbs"]]]), "on-site energies")
    require(gen.close(sc.sc_lat_vec, m["lat"] * np.array(m["dim"])[:, None]), "supercell lattice vectors")
    hi, hj, hv, dr = sc.get_hop()
    gen.same_hops(gen.hop_table(hi, hj, hv, dr), gen.ref_hops(m), f"displacements dim={m['dim']} pbc={m['pbc']} vac={m['vac']}")
    require(gen.close(m["pc"].lat_vec, m["lat"]) and gen.close(m["pc"].origin, m["origin"]), "primitive cell geometry changed")


def moved(rng, index):
    """with a position modifier the displacement follows the moved orbitals"""
    m = gen.rand_sc(rng, big=1)
    sc = m["sc"]
    s = rng.normal(size=(3, 3)) * 0.05
    t = rng.normal(size=3) * 0.1

    def mod(p):
        p += p @ s + t
    sc.set_orb_pos_modifier(mod)
    pos = gen.ref_pos(m)
    pos = pos + pos @ s + t
    require(gen.close(sc.get_orb_pos(), pos), "modified positions")
    hi, hj, hv, dr = sc.get_hop()
    ref = {}
    for q in m["orbs"]:
        for (rn, i, j), e in m["table"].items():
            if i != q[3]:
                continue
            x = [q[d] + rn[d] for d in range(3)]
            w = [x[d] % m["dim"][d] if m["pbc"][d] else x[d] for d in range(3)]
            n = [x[d] // m["dim"][d] if m["pbc"][d] else 0 for d in range(3)]
            tg = tuple(w) + (j,)
            if tg in m["num"]:
                a, b = m["num"][q], m["num"][tg]
                ref.setdefault((a, b), []).append((e, pos[b] - pos[a] + (np.array(n) * np.array(m["dim"])) @ m["lat"]))
    gen.same_hops(gen.hop_table(hi, hj, hv, dr), ref, f"moved displacements dim={m['dim']} pbc={m['pbc']}")


def inter(rng, index):
    t = gen.tb()
    a, b = gen.rand_sc(rng, big=0), gen.rand_sc(rng, big=0)
    ih = t.SCInterHopping(a["sc"], b["sc"])
    ref = {}
    pa, pb = gen.ref_pos(a), gen.ref_pos(b)
    for _ in range(int(rng.integers(1, 8))):
        rn = tuple(int(x) for x in rng.integers(-2, 3, 3))
        i, j = int(rng.integers(0, len(pa))), int(rng.integers(0, len(pb)))
        e = gen.rand_cplx(rng)
        ih.add_hopping(rn, i, j, e)
        ref[(rn, i, j)] = e
    hi, hj, hv, dr = ih.get_hop()
    r2 = {}
    for (rn, i, j), e in ref.items():
        r2.setdefault((i, j), []).append((e, pb[j] - pa[i] + (np.array(rn) * np.array(b["dim"])) @ b["lat"]))
    gen.same_hops(gen.hop_table(hi, hj, hv, dr), r2, "inter-supercell hoppings")


CASES = [("geometry", geometry), ("moved", moved), ("inter", inter)]
