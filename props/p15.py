"""P15: extending, reshaping, spiralling, merging and re-latticing cells keep the physical model."""
import math
import numpy as np
from vk.search import require
from props import gen

LEVEL = "exploration"
ASSUMPTIONS = ["floating point compared with tolerance", "orbitals at least 1e-3 (fractional) away from the cell boundary used by reshaping (its delta and pos_tol parameters)"]
BOUNDED_NOTE = "random cells with orbitals inside and outside the home cell; extensions up to 4x4x4; integer lattice transformations with strong shear and either handedness; 1-3 merged cells"


def proofs(src):
    return []


def full(pc):
    """all directed terms (i, j, rn, energy) from the arrays the solvers use"""
    out = {}
    ind, eng = np.asarray(pc.hop_ind), np.asarray(pc.hop_eng)
    for q in range(len(eng)):
        a, b, c, i, j = (int(x) for x in ind[q])
        e = complex(eng[q])
        for k, v in (((i, j, a, b, c), e), ((j, i, -a, -b, -c), e.conjugate())):
            require(k not in out, f"term {k} stored twice")
            out[k] = v
    return out


def directed(table):
    out = {}
    for (rn, i, j), e in table.items():
        out[(i, j) + tuple(rn)] = e
        out[(j, i) + tuple(-x for x in rn)] = e.conjugate()
    return out


def cart(lat, org, pos):
    return np.asarray(pos) @ lat + org


def snapshot(pc):
    return (pc.lat_vec.copy(), pc.origin.copy(), [(tuple(o.position), o.energy, o.label) for o in pc.orbitals],
            {r: dict(h) for r, h in pc.hoppings.items()}, pc.extended)


def same(a, b, what, tol=1e-9):
    require(gen.close(a[0], b[0], tol) and gen.close(a[1], b[1], tol), f"{what}: lattice or origin changed")
    require(len(a[2]) == len(b[2]) and all(gen.close(x[0], y[0], tol) and x[1:] == y[1:] for x, y in zip(a[2], b[2])), f"{what}: orbitals changed")
    require(a[3] == b[3], f"{what}: hopping terms changed")


def compare(src_lat, src_org, pos, eng, lab, terms, res, ratio, what):
    """res (lattice res.lat_vec) must tile the periodic model (pos, eng, lab, terms) exactly"""
    inv = np.linalg.inv(src_lat)
    rl = res.lat_vec
    rinv = np.linalg.inv(rl)
    n = len(pos)
    require(res.num_orb == n * ratio, lambda: f"{what}: {res.num_orb} orbitals for {n} x {ratio}")
    ident, where = [], {}
    for q, o in enumerate(res.orbitals):
        x = (cart(rl, res.origin, o.position) - src_org) @ inv
        hit = []
        for s in range(n):
            d = x - pos[s]
            r = np.rint(d)
            if np.abs(d - r).max() < 1e-6:
                hit.append((s, tuple(int(v) for v in r)))
        require(len(hit) == 1, lambda: f"{what}: orbital {q} at {tuple(o.position)} is not a translate of an orbital of the original cell")
        s, r = hit[0]
        require(o.energy == eng[s] and o.label == lab[s], lambda: f"{what}: orbital {q} carries ({o.energy}, {o.label}) instead of ({eng[s]}, {lab[s]})")
        ident.append((s, r))
    # no two are equivalent under the new lattice
    keyed = {}
    for q, (s, r) in enumerate(ident):
        f = np.asarray(r, dtype=float) @ src_lat @ rinv
        k = (s,) + tuple(np.round((f + 1e-7) % 1.0, 5))
        require(k not in keyed, f"{what}: orbitals {keyed.get(k)} and {q} are the same physical orbital")
        keyed[k] = q
    got = full(res)
    exp = {}
    for q, (s, r) in enumerate(ident):
        for (i, j, a, b, c), e in terms.items():
            if i != s:
                continue
            t = np.array(r) + (a, b, c)
            for p, (s2, r2) in enumerate(ident):
                if s2 != j:
                    continue
                d = (t - np.array(r2)) @ src_lat @ rinv
                m = np.rint(d)
                if np.abs(d - m).max() < 1e-6:
                    exp[(q, p) + tuple(int(v) for v in m)] = e
                    break
            else:
                require(False, f"{what}: the partner of a term is missing")
    miss = [k for k in exp if k not in got]
    extra = [k for k in got if k not in exp]
    require(not miss and not extra, lambda: f"{what}: missing terms {miss[:4]}, unexpected terms {extra[:4]}")
    for k in exp:
        require(gen.close(got[k], exp[k]), lambda: f"{what}: term {k} has energy {got[k]} instead of {exp[k]}")


def labelled(rng, **kw):
    pc, table = gen.rand_pc(rng, **kw)
    for i in range(pc.num_orb):
        pc.set_orbital(i, label=f"o{i}")
    return pc, table


def attrs(pc):
    return (np.array([o.position for o in pc.orbitals], dtype=float), [o.energy for o in pc.orbitals], [o.label for o in pc.orbitals])


def extend(rng, index):
    t = gen.tb()
    pc, table = labelled(rng, reach=int(rng.integers(1, 4)))
    dim = tuple(int(x) for x in rng.integers(1, 5, 3))
    if rng.random() < 0.3:
        dim = dim[:2]
    before = snapshot(pc)
    pc.extended = float(rng.integers(1, 4))
    res = t.extend_prim_cell(pc, dim)
    d3 = dim if len(dim) == 3 else dim + (1,)
    same(before, snapshot(pc), "extend_prim_cell argument")
    require(gen.close(res.lat_vec, pc.lat_vec * np.array(d3)[:, None]) and gen.close(res.origin, pc.origin), "extended lattice")
    require(gen.close(res.extended, pc.extended * np.prod(d3)), f"extended factor {res.extended}")
    compare(pc.lat_vec, pc.origin, *attrs(pc), directed(table), res, int(np.prod(d3)), f"extend {dim}")
    for k in (0, 1):
        bad = [2, 2, 2]
        bad[int(rng.integers(0, 3))] = -int(rng.integers(0, 3))
        try:
            t.extend_prim_cell(pc, tuple(bad))
        except ValueError:
            continue
        require(False, f"extension {bad} accepted")


def rand_int_lat(rng, big=3):
    while True:
        m = rng.integers(-2, 3, (3, 3))
        if rng.random() < 0.5:
            m = m + np.diag(rng.integers(0, big + 1, 3))
        else:
            u = np.eye(3, dtype=int)
            u[1, 0], u[2, 0], u[2, 1] = rng.integers(-8, 9, 3)
            m = u @ np.diag(rng.integers(1, 4, 3))
            if rng.random() < 0.5:
                m = m[rng.permutation(3)][:, rng.permutation(3)]
        d = int(round(np.linalg.det(m)))
        if 0 < abs(d) <= 12:
            return m.astype(float), abs(d)


def reshape(rng, index):
    t = gen.tb()
    pc, table = labelled(rng, reach=int(rng.integers(1, 3)), nhop=int(rng.integers(0, 7)))
    m, ratio = rand_int_lat(rng)
    pos = np.array([o.position for o in pc.orbitals])
    # keep away from the boundary planes used by the function (delta below each face)
    inv = np.linalg.inv(m)
    delta = 1e-2
    den = int(round(abs(np.linalg.det(m))))
    f = ((pos @ inv) + delta) * den
    if np.abs(f - np.rint(f)).min() < 1e-3:
        return
    before = snapshot(pc)
    if rng.random() < 0.5:
        res = t.reshape_prim_cell(pc, m)
    else:
        res = t.make_hetero_layer(pc, m @ pc.lat_vec)
    same(before, snapshot(pc), "reshape_prim_cell argument")
    require(gen.close(res.lat_vec, m @ pc.lat_vec) and gen.close(res.origin, pc.origin), "reshaped lattice")
    require(gen.close(res.extended, pc.extended * ratio), f"extended factor {res.extended} instead of {ratio}")
    compare(pc.lat_vec, pc.origin, *attrs(pc), directed(table), res, ratio, f"reshape {m.astype(int).tolist()} with positions {pos.round(3).tolist()}")


def spiral(rng, index):
    t = gen.tb()
    pc, table = labelled(rng)
    before = snapshot(pc)
    ang, sh = float(rng.uniform(-7, 7)), float(rng.uniform(-1, 1))
    ctr = rng.uniform(-2, 2, 3)
    old = pc.orb_pos_nm.copy()
    lat, org = pc.lat_vec.copy(), pc.origin.copy()
    t.spiral_prim_cell(pc, ang, ctr, sh)
    c, s = math.cos(ang), math.sin(ang)
    rot = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])
    new = (old - ctr) @ rot + ctr + [0, 0, sh]
    require(gen.close(pc.orb_pos_nm, new, 1e-7), lambda: f"spiral: positions {pc.orb_pos_nm.tolist()} instead of {new.tolist()}")
    require(gen.close(pc.lat_vec, lat @ rot, 1e-7) and gen.close(pc.origin, (org - ctr) @ rot + ctr, 1e-7), "spiral: lattice")
    after = snapshot(pc)
    require(before[3] == after[3] and [x[1:] for x in before[2]] == [x[1:] for x in after[2]], "spiral: energies, labels or terms changed")
    require(gen.close(np.asarray(pc.orb_pos), np.array([o.position for o in pc.orbitals])), "spiral: stale arrays")


def relattice(rng, index):
    t = gen.tb()
    pc, table = labelled(rng)
    before = snapshot(pc)
    old, oldfrac = pc.orb_pos_nm.copy(), np.array([o.position for o in pc.orbitals])
    lat, org, unit = gen.rand_lat(rng), rng.uniform(-1, 1, 3), float(rng.choice([1.0, 0.1, 2.5]))
    a, b = rng.random() < 0.7, rng.random() < 0.7
    fix = bool(rng.random() < 0.5)
    pc.reset_lattice(lat if a else None, org if b else None, unit=unit, fix_orb=fix)
    require(gen.close(pc.lat_vec, lat * unit if a else before[0]) and gen.close(pc.origin, org * unit if b else before[1]), "reset_lattice: lattice or origin")
    if fix:
        require(gen.close(pc.orb_pos_nm, old, 1e-7), "reset_lattice(fix_orb=True) moved the orbitals")
    else:
        require(gen.close(np.array([o.position for o in pc.orbitals]), oldfrac), "reset_lattice(fix_orb=False) changed fractional positions")
        require(gen.close(pc.orb_pos_nm, oldfrac @ pc.lat_vec + pc.origin, 1e-7), "positions do not follow the new lattice")
    after = snapshot(pc)
    require(before[3] == after[3] and [x[1:] for x in before[2]] == [x[1:] for x in after[2]], "reset_lattice: energies, labels or terms changed")


def open_boundary(rng, index):
    pc, table = labelled(rng, reach=2)
    pbc = tuple(bool(x) for x in rng.integers(0, 2, 3))
    before = snapshot(pc)
    pc.apply_pbc(pbc)
    exp = directed({k: e for k, e in table.items() if all(p or k[0][q] == 0 for q, p in enumerate(pbc))})
    got = full(pc) if pc.num_hop else {}
    require(got == exp, lambda: f"apply_pbc{pbc}: terms {sorted(got)} instead of {sorted(exp)}")
    require(snapshot(pc)[2] == before[2], "apply_pbc changed orbitals")


def merge(rng, index):
    t = gen.tb()
    n = int(rng.integers(1, 4))
    cells, tabs = [], []
    lat = None
    for q in range(n):
        pc, table = labelled(rng, nhop=int(rng.integers(0, 6)))
        if lat is None:
            lat = pc.lat_vec.copy()
        else:
            pc.reset_lattice(lat, None, unit=1.0, fix_orb=False)
        pc.extended = float(rng.choice([1.0, 1.0, 2.0, 4.0]))
        cells.append(pc)
        tabs.append(table)
    inter, it = [], []
    for _ in range(int(rng.integers(0, 3))):
        if n < 2:
            break
        i, j = (int(x) for x in rng.permutation(n)[:2])
        if any({i, j} == {p, q} for p, q, _ in it):
            continue
        ih = t.PCInterHopping(cells[i], cells[j])
        tt = {}
        for _ in range(int(rng.integers(1, 5))):
            rn = tuple(int(x) for x in rng.integers(-2, 3, 3))
            oi, oj = int(rng.integers(0, cells[i].num_orb)), int(rng.integers(0, cells[j].num_orb))
            e = gen.rand_cplx(rng)
            ih.add_hopping(rn, oi, oj, e)
            tt[(rn, oi, oj)] = e
        inter.append(ih)
        it.append((i, j, tt))
    cartpos = [pc.orb_pos_nm.copy() for pc in cells]
    before = [snapshot(pc) for pc in cells]
    args = list(cells) + inter
    ext = [pc.extended for pc in cells]
    res = t.merge_prim_cell(*args)
    start = np.cumsum([0] + [len(b[2]) for b in before])
    require(res.num_orb == start[-1], f"merged cell has {res.num_orb} orbitals")
    require(gen.close(res.lat_vec, lat) and gen.close(res.origin, before[0][1]), "merged lattice")
    require(gen.close(res.orb_pos_nm, np.vstack(cartpos), 1e-7), "merge moved orbitals")
    for q in range(n):
        got = [(o.energy, o.label) for o in res.orbitals[start[q]:start[q + 1]]]
        require(got == [x[1:] for x in before[q][2]], "merge changed energies or labels")
        require(gen.close(cells[q].orb_pos_nm, cartpos[q], 1e-7) and snapshot(cells[q])[3] == before[q][3], "merge changed the physics of a component")
    exp = {}
    for q in range(n):
        for (i, j, a, b, c), e in directed(tabs[q]).items():
            exp[(i + int(start[q]), j + int(start[q]), a, b, c)] = e
    for i, j, tt in it:
        for (rn, oi, oj), e in tt.items():
            p, q = oi + int(start[i]), oj + int(start[j])
            exp[(p, q) + rn] = e
            exp[(q, p) + tuple(-x for x in rn)] = e.conjugate()
    got = full(res) if res.num_hop else {}
    require(got == exp, lambda: f"merge: terms {sorted(got)} instead of {sorted(exp)}")
    ref = ext[0] if all(abs(x - ext[0]) < 1e-3 for x in ext) else 1.0
    require(gen.close(res.extended, ref), lambda: f"merging cells with extended factors {ext} gives {res.extended} instead of {ref}")


def neighbours(rng, index):
    t = gen.tb()
    pc, table = labelled(rng, norb=int(rng.integers(1, 5)))
    mx = tuple(int(x) for x in rng.integers(0, 3, 3))
    cut = float(rng.uniform(0.5, 5.0))
    two = rng.random() < 0.4
    sc = rng.random() < 0.4
    a = pc
    b = gen.rand_pc(rng, norb=int(rng.integers(1, 5)))[0] if two else None
    if sc:
        a = t.SuperCell(a, gen.rand_dims(rng, table, 0), (True,) * 3)
        b = None if b is None else t.SuperCell(b, (3, 3, 3), (True,) * 3)
        mx = tuple(min(x, 1) for x in mx)
    k = b if b is not None else a
    pa = np.array(a.get_orb_pos() if sc else a.orb_pos_nm)
    pk = np.array(k.get_orb_pos() if sc else k.orb_pos_nm)
    if len(pa) * len(pk) * np.prod([2 * x + 1 for x in mx]) > 60000:
        return
    lat = k.sc_lat_vec if sc else k.lat_vec
    res = t.find_neighbors(a, b, *mx, max_distance=cut) if b is not None else t.find_neighbors(a, a_max=mx[0], b_max=mx[1], c_max=mx[2], max_distance=cut)
    exp = {}
    for x in range(-mx[0], mx[0] + 1):
        for y in range(-mx[1], mx[1] + 1):
            for z in range(-mx[2], mx[2] + 1):
                r = (pk + np.array([x, y, z]) @ lat)[None] - pa[:, None]
                d = np.sqrt((r ** 2).sum(-1))
                if np.abs(d - cut).min() < 1e-9:
                    return
                for i, j in zip(*np.nonzero((d <= cut) & (d > 1e-12))):
                    exp[((x, y, z), int(i), int(j))] = r[i, j]
    got = {}
    last = 0.0
    for term in res:
        key = (tuple(int(v) for v in term.rn), int(term.pair[0]), int(term.pair[1]))
        if term.distance < 1e-12:
            continue
        require(key not in got, f"neighbour pair {key} listed twice")
        got[key] = term
        require(term.distance >= last - 1e-12, "neighbours are not sorted by distance")
        last = term.distance
    require(set(got) == set(exp), lambda: f"find_neighbors(max {mx}, cutoff {cut}): missing {sorted(set(exp) - set(got))[:4]}, unexpected {sorted(set(got) - set(exp))[:4]}")
    for key, term in got.items():
        require(gen.close(term.rij, exp[key], 1e-7) and gen.close(term.distance, np.linalg.norm(exp[key]), 1e-7), lambda: f"neighbour {key}: rij {term.rij} instead of {exp[key]}")


CASES = [("extend", extend), ("reshape", reshape), ("spiral", spiral), ("relattice", relattice), ("open_boundary", open_boundary), ("merge", merge), ("neighbours", neighbours)]
