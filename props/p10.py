"""P10: hopping modifications override exactly the terms they name"""
import numpy as np
from vk.search import require
from props import gen, k_super

FUN = ["find_equiv_hopping"]


def proofs(src):
    return k_super.prove(src, FUN)


ASSUMPTIONS = ["SuperCell.get_hop merging loop (lists and numpy) is checked in the bounded runs"]
BOUNDED_NOTE = "random histories of up to 8 modifications mixing same, mirrored, new and repeated terms"


def merge(rng, index):
    m = gen.rand_sc(rng, big=1)
    sc = m["sc"]
    base = gen.ref_hops(m)
    pos = gen.ref_pos(m)
    N = len(m["orbs"])
    # one physical term per pair: expected table keyed by unordered pair
    exp = {k: (v[0][0], v[0][1]) for k, v in base.items()}
    if any(len(v) > 1 for v in base.values()):
        return None
    mods = {}
    style = index % 4
    for _ in range(int(rng.integers(1, 9))):
        r = rng.random()
        if mods and r < 0.25:
            rn, i, j = list(mods)[int(rng.integers(0, len(mods)))]
            if rng.random() < 0.5:
                rn, i, j = tuple(-x for x in rn), j, i
        elif base and (style == 0 or r < 0.6):
            k = list(base)[int(rng.integers(0, len(base)))]
            i, j = k
            dr = base[k][0][1]
            rn = tuple(int(round(x)) for x in np.linalg.solve((m["lat"] * np.array(m["dim"])[:, None]).T, dr - pos[j] + pos[i]))
            if rng.random() < 0.5:
                rn, i, j = tuple(-x for x in rn), j, i
        else:
            i, j = (int(x) for x in rng.integers(0, N, 2))
            rn = tuple(int(x) for x in rng.integers(-1, 2, 3)) if style == 2 else (0, 0, 0)
        if i == j:
            continue
        # only one cell offset per pair (the documented use)
        other = [q for q in mods if {q[1], q[2]} == {i, j}]
        if other and gen.canon(rn, i, j)[0] != gen.canon(*other[0])[0]:
            continue
        e = gen.rand_cplx(rng)
        if rng.random() < 0.15:
            sc.get_hop()
        sc.add_hopping(rn, i, j, e)
        key, c = gen.canon(rn, i, j)
        mods = {q: v for q, v in mods.items() if gen.canon(*q)[0] != key}
        mods[(rn, i, j)] = e
    slat = m["lat"] * np.array(m["dim"])[:, None]
    for (rn, i, j), e in mods.items():
        dr = pos[j] - pos[i] + np.array(rn) @ slat
        if (i, j) in exp:
            exp[(i, j)] = (e, dr)
        elif (j, i) in exp:
            exp[(j, i)] = (e.conjugate(), -dr)
        else:
            exp[(i, j)] = (e, dr)
    hi, hj, hv, dr = sc.get_hop()
    require(np.issubdtype(hi.dtype, np.integer) and np.issubdtype(hj.dtype, np.integer) and np.issubdtype(hv.dtype, np.complexfloating),
            lambda: f"types of hop_i/hop_j/hop_v: {hi.dtype} {hj.dtype} {hv.dtype} after {len(mods)} modifications")
    require(len(hi) == len(hj) == len(hv) == len(dr), "array lengths differ")

    def norm(tab):
        out = {}
        for (a, b), v in tab.items():
            for e, d in (v if isinstance(v, list) else [v]):
                k, s = ((a, b), 1) if a <= b else ((b, a), -1)
                out.setdefault(k, []).append((e if s == 1 else np.conj(e), s * d))
        return out
    gen.same_hops(norm(gen.hop_table(hi, hj, hv, dr)), norm(exp), f"modified terms {mods} dim={m['dim']} pbc={m['pbc']} vac={m['vac']}")


CASES = [("merge", merge)]
