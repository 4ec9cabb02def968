"""P07: index validation accepts exactly the legal orbital indices"""
import itertools
import numpy as np
from vk.search import require
from props import gen, k_super

FUN = ["_id_pc2sc", "_id_pc2sc_vac2", "check_id_sc_array", "check_id_pc_array"]


def proofs(src):
    return k_super.prove(src, FUN) + k_super.lemma_tasks()[:6]


ASSUMPTIONS = ["the component reported for an illegal index may be any out-of-range component"]
BOUNDED_NOTE = "random batches with at most 8 indices, components drawn around the boundaries"


def _batch(rng, dim, no, n):
    out = []
    for _ in range(n):
        v = []
        for ext in list(dim) + [no]:
            r = rng.random()
            v.append(int(rng.choice([-1, ext, ext + 3, -5])) if r < 0.06 else int(rng.choice([0, ext - 1])) if r < 0.5 else int(rng.integers(0, ext)))
        out.append(tuple(v))
    return out


def _expected(batch, dim, no, vs):
    for n, q in enumerate(batch):
        bad = [c for c, (x, e) in enumerate(zip(q, list(dim) + [no])) if not 0 <= x < e]
        if bad:
            return -2, n, bad
        if q in vs:
            return -1, n, None
    return 0, None, None


def kernels(rng, index):
    from tbplas.cython import super as core
    dim = np.array(rng.integers(1, 4, 3), dtype=np.int32)
    no = int(rng.integers(1, 4))
    allid = list(itertools.product(range(dim[0]), range(dim[1]), range(dim[2]), range(no)))
    nv = int(rng.integers(0, min(len(allid), 8)))
    vac = sorted(int(x) for x in rng.choice(len(allid), nv, replace=False))
    vs = {allid[v] for v in vac}
    b = _batch(rng, dim.tolist(), no, int(rng.integers(1, 9)))
    r = np.array(core.check_id_pc_array(dim, no, np.array(b, dtype=np.int32), np.array(vac, dtype=np.int64)))
    k, n, bad = _expected(b, dim.tolist(), no, vs)
    ok = r[0] == k and (k == 0 or r[1] == n) and (k != -2 or r[2] in bad)
    require(ok, lambda: f"check_id_pc_array(dim={dim.tolist()}, no={no}, ids={b}, vac={vac}) = {r.tolist()}, expected kind {k} at {n} {bad}")
    N = int(rng.integers(1, 10))
    ids = [int(x) for x in rng.integers(-1 if rng.random() < 0.3 else 0, N + (1 if rng.random() < 0.3 else 0), int(rng.integers(1, 8)))]
    r = np.array(core.check_id_sc_array(N, np.array(ids, dtype=np.int64)))
    bad = [n for n, x in enumerate(ids) if not 0 <= x < N]
    require((r[0] == -1 and r[1] == bad[0]) if bad else r[0] == 0, lambda: f"check_id_sc_array({N}, {ids}) = {r.tolist()}")


def public(rng, index):
    import tbplas.builder.exceptions as exc
    m = gen.rand_sc(rng, maxorb=3)
    sc = m["sc"]
    vs = set(m["vac"])
    b = _batch(rng, m["dim"], m["no"], int(rng.integers(1, 7)))
    k, n, bad = _expected(b, m["dim"], m["no"], vs)
    try:
        r = sc.orb_id_pc2sc_array(np.array(b, dtype=np.int32))
        got = 0
        require(k != 0 or r.tolist() == [m["num"][q] for q in b], "wrong numbers for an accepted batch")
    except exc.IDPCIndexError as e:
        got, err = -2, e
    except exc.IDPCVacError as e:
        got, err = -1, e
    require(got == k, lambda: f"orb_id_pc2sc_array({b}) dim={m['dim']} no={m['no']} vac={m['vac']}: kind {got}, expected {k}")
    if k:
        rep = [int(x) for x in str(err).replace("(", " ").replace(")", " ").replace("[", " ").replace("]", " ").replace(",", " ").split() if x.lstrip("-").isdigit()]
        # the message names the offending orbital
        require(any(rep[s:s + 4] == list(b[n]) for s in range(len(rep))) or not rep,
                lambda: f"error for batch {b} names {err}, expected orbital {b[n]}")
    q = b[0]
    k1, _, bad = _expected([q], m["dim"], m["no"], vs)
    try:
        r = sc.orb_id_pc2sc(q if rng.random() < 0.5 else np.array(q, dtype=np.int32))
        got = 0
    except exc.IDPCIndexError:
        got = -2
    except exc.IDPCVacError:
        got = -1
    require(got == k1, lambda: f"orb_id_pc2sc({q}) kind {got}, expected {k1}")
    N = sc.num_orb_sc
    ids = [int(x) for x in rng.integers(-1 if rng.random() < 0.3 else 0, N + (1 if rng.random() < 0.3 else 0), int(rng.integers(1, 8)))]
    try:
        sc.orb_id_sc2pc_array(np.array(ids))
        got = True
    except exc.IDSCIndexError:
        got = False
    require(got == all(0 <= x < N for x in ids), lambda: f"orb_id_sc2pc_array({ids}) with {N} orbitals: accepted={got}")
    # vacancies themselves are validated
    for v in _batch(rng, m["dim"], m["no"], 2):
        legal = _expected([v], m["dim"], m["no"], set())[0] == 0
        try:
            gen.tb().SuperCell(m["pc"], dim=m["dim"], pbc=m["pbc"], vacancies=[v])
            got = True
        except exc.IDPCIndexError:
            got = False
        require(got == legal, lambda: f"vacancy {v} accepted={got}")


CASES = [("kernels", kernels), ("public", public)]
