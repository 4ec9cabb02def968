"""Random legal models and independent reference computations for the bounded runs."""
import itertools
import numpy as np
from vk.search import require


def tb():
    import tbplas
    return tbplas


def close(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a.size == 0 or bool(np.all(np.abs(a - b) <= tol * (1.0 + np.abs(b)))))


def rand_lat(rng):
    """well conditioned, neither symmetric nor triangular, any handedness"""
    m = np.diag(rng.uniform(1.5, 4.0, 3)) + rng.uniform(-0.6, 0.6, (3, 3))
    if rng.random() < 0.5:
        m = m[rng.permutation(3)]
    return m


def rand_cplx(rng):
    return complex(round(float(rng.normal()), 3) + 0.001, round(float(rng.normal()), 3) + 0.002)


def canon(rn, i, j):
    """canonical representative and conjugation flag (independent of the code)"""
    key, mir = (tuple(rn), i, j), (tuple(-x for x in rn), j, i)
    for x in rn:
        if x > 0:
            return key, False
        if x < 0:
            return mir, True
    return (key, False) if i <= j else (mir, True)


def rand_pc(rng, norb=None, nhop=None, reach=1, origin=True, dims=3, unit=None, energies=True):
    """-> (cell, table) ; table maps (rn, i, j) -> energy, one entry per mirror pair"""
    t = tb()
    norb = int(rng.integers(1, 5)) if norb is None else norb
    nhop = int(rng.integers(1, 9)) if nhop is None else nhop
    lat = rand_lat(rng)
    org = rng.uniform(-1, 1, 3) if origin and rng.random() < 0.6 else np.zeros(3)
    pc = t.PrimitiveCell(lat, origin=org, unit=t.NM if unit is None else unit)
    for i in range(norb):
        pc.add_orbital(tuple(float(x) for x in rng.uniform(-0.3, 1.2, 3)), float(rng.normal()) if energies else 0.0)
    table = {}
    tries = 0
    while len(table) < nhop and tries < 200:
        tries += 1
        rn = tuple(int(x) if d < dims else 0 for d, x in enumerate(rng.integers(-reach, reach + 1, 3)))
        i, j = (int(x) for x in rng.integers(0, norb, 2))
        if rn == (0, 0, 0) and i == j:
            continue
        e = rand_cplx(rng)
        pc.add_hopping(rn, i, j, e)
        k, c = canon(rn, i, j)
        table[k] = e.conjugate() if c else e
    return pc, table


def rand_dims(rng, table, big=2):
    d = []
    for q in range(3):
        m = max([abs(k[0][q]) for k in table] or [0])
        d.append(2 * m + 1 + int(rng.integers(0, big + 1)))
    return tuple(d)


def rand_sc(rng, reach=1, vac=None, maxorb=3, big=2, pbc=None, **kw):
    """-> dict with the supercell and all that was used to build it"""
    t = tb()
    pc, table = rand_pc(rng, norb=int(rng.integers(1, maxorb + 1)), reach=reach,
                        dims=int(rng.integers(1, 4)), **kw)
    while not table:
        pc, table = rand_pc(rng, norb=int(rng.integers(1, maxorb + 1)), reach=reach, **kw)
    dim = rand_dims(rng, table, big)
    if pbc is None:
        pbc = tuple(bool(x) for x in rng.integers(0, 2, 3))
    no = pc.num_orb
    allid = list(itertools.product(range(dim[0]), range(dim[1]), range(dim[2]), range(no)))
    if vac is None:
        vac = rng.random() < 0.6
    nv = int(rng.integers(1, max(2, min(len(allid) - 1, 12)))) if vac and len(allid) > 1 else 0
    vacs = [allid[q] for q in rng.choice(len(allid), nv, replace=False)] if nv else []
    sc = t.SuperCell(pc, dim=dim, pbc=pbc, vacancies=vacs if vacs or rng.random() < 0.5 else None)
    orbs = [q for q in allid if q not in set(vacs)]
    return dict(pc=pc, table=table, dim=dim, pbc=pbc, vac=vacs, sc=sc, orbs=orbs,
                num={q: n for n, q in enumerate(orbs)}, no=no, lat=pc.lat_vec.copy(), origin=pc.origin.copy(),
                pos=np.array([o.position for o in pc.orbitals], dtype=float),
                eng=np.array([o.energy for o in pc.orbitals], dtype=float))


def ref_pos(m):
    """Cartesian positions of supercell orbitals"""
    return np.array([(np.array(q[:3]) + m["pos"][q[3]]) @ m["lat"] + m["origin"] for q in m["orbs"]])


def ref_hops(m):
    """{(bra, ket, ncell-of-ket): energy} and displacements from the definition"""
    out = {}
    for q in m["orbs"]:
        for (rn, i, j), e in m["table"].items():
            if i != q[3]:
                continue
            cell, n, ok = [], [], True
            for d in range(3):
                x = q[d] + rn[d]
                if m["pbc"][d]:
                    n.append(x // m["dim"][d])
                    cell.append(x % m["dim"][d])
                else:
                    ok = ok and 0 <= x < m["dim"][d]
                    n.append(0)
                    cell.append(x)
            tgt = tuple(cell) + (j,)
            if not ok or tgt not in m["num"]:
                continue
            dr = (np.array(rn) + m["pos"][j] - m["pos"][i]) @ m["lat"]
            key = (m["num"][q], m["num"][tgt])
            out.setdefault(key, []).append((e, dr))
    return out


def hop_table(hi, hj, hv, dr):
    out = {}
    for a, b, v, d in zip(hi, hj, hv, dr):
        out.setdefault((int(a), int(b)), []).append((complex(v), np.array(d, dtype=float)))
    return out


def same_hops(got, ref, what, with_dr=True):
    require(set(got) == set(ref), lambda: f"{what}: pairs differ: missing {sorted(set(ref) - set(got))[:4]} extra {sorted(set(got) - set(ref))[:4]}")
    for k in ref:
        require(len(got[k]) == len(ref[k]), lambda: f"{what}: pair {k} occurs {len(got[k])} times instead of {len(ref[k])}")
        rest = list(got[k])
        for e, d in ref[k]:
            for n, (e2, d2) in enumerate(rest):
                if abs(e - e2) < 1e-9 and (not with_dr or np.max(np.abs(d - d2)) < 1e-7):
                    rest.pop(n)
                    break
            else:
                require(False, f"{what}: pair {k}: no term with energy {e} and displacement {d.tolist()}, got {[(a, b.tolist()) for a, b in got[k]]}")


def snapshot_pc(pc):
    """everything observable of a primitive cell"""
    return (tuple((tuple(float(x) for x in o.position), o.energy, o.label) for o in pc.orbitals),
            tuple(sorted((rn + p, complex(e)) for rn, h in pc.hoppings.items() for p, e in h.items())),
            pc.lat_vec.tolist(), pc.origin.tolist(), pc.num_orb, pc.num_hop,
            pc.orb_pos.tolist(), pc.orb_eng.tolist(),
            sorted(zip(map(tuple, pc.hop_ind.tolist()), [complex(x) for x in pc.hop_eng.tolist()])) if pc.num_hop else [])


def ref_hk(orb_pos, orb_eng, table, k, conv):
    n = len(orb_eng)
    h = np.zeros((n, n), dtype=complex)
    for i in range(n):
        h[i, i] += orb_eng[i]
    for (rn, i, j), e in table.items():
        d = np.array(rn, dtype=float)
        if conv == 1:
            d = d + orb_pos[j] - orb_pos[i]
        ph = np.exp(2j * np.pi * float(np.dot(k, d)))
        h[i, j] += e * ph
        h[j, i] += np.conj(e * ph)
    return h


def eq_state(a, b):
    """exact equality of nested tuples and lists of plain values"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(eq_state(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b


def diff_state(a, b):
    for n, (x, y) in enumerate(zip(a, b)):
        if not eq_state(x, y):
            return f"component {n}: {str(x)[:200]} -> {str(y)[:200]}"
    return "length"
