"""P05: Bloch Hamiltonians equal their definition and are Hermitian"""
import numpy as np
from vk.search import require
from vk.sym import And
from vk.contract import Lemma
from props import gen, k_sample

ASSUMPTIONS = ["scipy.sparse constructors and additions, numpy.matmul (set_ham_csr, k-point conversion) are covered by the bounded runs only",
               "array bounds of set_ham/fill_ham are proved from legal indices; legal indices are ensured by P01/P08"]
BOUNDED_NOTE = "random cells, samples and overlaps; k-points in and outside the first zone; both conventions; dense against sparse against the definition"


def lemmas():
    P = [("a", "real"), ("b", "real"), ("n", "real"), ("ti", "real"), ("tj", "real"), ("k", "real")]
    return [Lemma("convention 1 is convention 2 times a diagonal phase", P, lambda p: [],
                  lambda p: [("exponents", p.k * (p.n + p.tj - p.ti) == p.k * p.n + p.k * p.tj - p.k * p.ti)])]


def proofs(src):
    return k_sample.prove(src, ["set_ham", "build_hop_k", "fill_ham"]) + [("lemma " + x.name, x.verify) for x in lemmas()]


def rk(rng):
    return [rng.uniform(-0.5, 0.5, 3), rng.uniform(-3, 3, 3), np.array([0.5, 0.0, 0.5]), np.zeros(3)][int(rng.integers(0, 4))]


def _eng(pc):
    return np.array([o.position for o in pc.orbitals], float), np.array([o.energy for o in pc.orbitals], float)


def primitive(rng, index):
    pc, table = gen.rand_pc(rng, reach=int(rng.integers(1, 4)), nhop=int(rng.integers(1, 14)))
    pos, eng = _eng(pc)
    pc.sync_array()
    for _ in range(3):
        k = rk(rng)
        for conv in (1, 2):
            h = np.zeros((pc.num_orb,) * 2, dtype=complex)
            pc.set_ham_dense(k, h, conv)
            ref = gen.ref_hk(pos, eng, table, k, conv)
            require(gen.close(h, ref), lambda: f"dense conv={conv} k={k.tolist()} table={table}: {h.tolist()} vs {ref.tolist()}")
            require(gen.close(h, h.conj().T), "not Hermitian")
            s = pc.set_ham_csr(k, conv).toarray()
            require(gen.close(s, ref), lambda: f"sparse conv={conv} k={k.tolist()} table={table}: {s.tolist()} vs {ref.tolist()}")
    for bad in (0, 3, -1):
        for f in (lambda: pc.set_ham_dense(k, h, bad), lambda: pc.set_ham_csr(k, bad)):
            try:
                f()
            except ValueError:
                continue
            require(False, f"convention {bad} accepted")


def bands(rng, index):
    """DiagSolver: eigenvalues of the defined matrix, the same for both conventions, on a reused buffer"""
    t = gen.tb()
    pc, table = gen.rand_pc(rng, norb=int(rng.integers(1, 5)))
    pos, eng = _eng(pc)
    ks = np.array([rk(rng) for _ in range(3)])
    for conv in (1, 2):
        b = t.DiagSolver(pc, echo_details=False).calc_bands(ks, convention=conv)[1]
        ref = np.array([np.linalg.eigvalsh(gen.ref_hk(pos, eng, table, k, conv)) for k in ks])
        require(gen.close(np.sort(b, axis=1), ref, 1e-7), f"bands conv={conv}")
    w, v = t.DiagSolver(pc, echo_details=False).calc_states(ks, convention=1)
    for n, k in enumerate(ks):
        h = gen.ref_hk(pos, eng, table, k, 1)
        for q in range(pc.num_orb):
            require(np.max(np.abs(h @ v[n, q] - w[n, q] * v[n, q])) < 1e-7, f"state {q} at {k.tolist()} is not an eigenvector")


def overlap(rng, index):
    t = gen.tb()
    pc, table = gen.rand_pc(rng, norb=int(rng.integers(2, 5)))
    pos, eng = _eng(pc)
    ov = t.Overlap(pc)
    tab, dia = {}, np.ones(pc.num_orb)
    for _ in range(int(rng.integers(1, 6))):
        rn = tuple(int(x) for x in rng.integers(-2, 3, 3))
        i, j = (int(x) for x in rng.integers(0, pc.num_orb, 2))
        if rn == (0, 0, 0) and i == j:
            continue
        e = 0.05 * gen.rand_cplx(rng)
        ov.add_offsite(rn, i, j, e)
        kk, c = gen.canon(rn, i, j)
        tab[kk] = np.conj(e) if c else e
    if rng.random() < 0.5:
        i = int(rng.integers(0, pc.num_orb))
        dia[i] = 1.0 + rng.random()
        ov.set_onsite(i, float(dia[i]))
    if not tab:
        return
    ov.sync_array()
    k = rk(rng)
    for conv in (1, 2):
        s = np.zeros((pc.num_orb,) * 2, dtype=complex)
        ov.set_overlap_dense(k, s, conv)
        ref = gen.ref_hk(pos, dia, tab, k, conv)
        require(gen.close(s, ref), lambda: f"overlap conv={conv}: {s.tolist()} vs {ref.tolist()}")
        require(gen.close(ov.set_overlap_csr(k, conv).toarray(), ref), "sparse overlap")
        require(gen.close(s, s.conj().T), "overlap not Hermitian")


def sample(rng, index):
    t = gen.tb()
    m = gen.rand_sc(rng, big=1)
    sc = m["sc"]
    parts = [sc]
    nb = 0
    ihs = []
    if rng.random() < 0.4:
        pc2, tab2 = gen.rand_pc(rng, norb=2, nhop=3, dims=1)
        sc2 = t.SuperCell(pc2, dim=(3, 1, 1), pbc=(True, True, True))
        ih = t.SCInterHopping(sc, sc2)
        for _ in range(3):
            ih.add_hopping((int(rng.integers(-1, 2)), 0, 0), int(rng.integers(0, len(m["orbs"]))), int(rng.integers(0, 6)), gen.rand_cplx(rng))
        parts += [sc2]
        ihs = [ih]
    sa = t.Sample(*parts, *ihs)
    sa.init_orb_eng(), sa.init_orb_pos(), sa.init_hop()
    if rng.random() < 0.4:
        sa.rescale_ham(float(rng.uniform(2, 9)))
    n = sa.num_orb
    hop = [q.get_hop() for q in parts + ihs]
    off, o = {}, 0
    for q in parts:
        off[id(q)] = o
        o += q.num_orb_sc
    k = rk(rng)
    kc = k @ sc.get_reciprocal_vectors()
    ref = np.zeros((n, n), dtype=complex)
    ref[np.arange(n), np.arange(n)] = np.concatenate([q.get_orb_eng() for q in parts])
    for q, (hi, hj, hv, dr) in zip(parts + ihs, hop):
        oi, oj = (off[id(q)],) * 2 if q in parts else (off[id(q.sc_bra)], off[id(q.sc_ket)])
        for a, b, v, d in zip(hi, hj, hv, dr):
            e = v * np.exp(1j * np.dot(kc, d))
            ref[oi + a, oj + b] += e
            ref[oj + b, oi + a] += np.conj(e)
    h = rng.normal(size=(n, n)) + 0j
    sa.set_ham_dense(k, h, 1)
    require(gen.close(h, ref, 1e-7), lambda: f"sample dense dim={m['dim']} pbc={m['pbc']} vac={m['vac']} max diff {np.max(np.abs(h - ref))}")
    require(gen.close(sa.set_ham_csr(k, 1).toarray(), ref, 1e-7), "sample sparse")
    b = t.DiagSolver(sa, echo_details=False).calc_bands(np.array([k]))[1][0]
    require(gen.close(np.sort(b), np.linalg.eigvalsh(ref), 1e-6), "sample bands")
    for f in (lambda: sa.set_ham_dense(k, h, 2), lambda: sa.set_ham_csr(k, 2)):
        try:
            f()
        except ValueError:
            continue
        require(False, "sample accepts convention 2")


CASES = [("primitive", primitive), ("bands", bands), ("overlap", overlap), ("sample", sample)]
