"""P11: sparse sample matrices hold each term and its conjugate exactly once"""
import numpy as np
from vk.search import require
from props import gen, k_sample

ASSUMPTIONS = ["numpy.argsort: a permutation that sorts; fancy indexing and slices: element-wise copies",
               "array bounds of the CSR builders assumed (they follow from legal indices)",
               "scipy.sparse in build_ham_csr/build_dxy_csr and the concatenation in Sample.init_* covered by the bounded runs only"]
BOUNDED_NOTE = "samples of 1-3 random supercells and inter-hoppings (also between a supercell and itself), fast/safe/sorted/scipy constructions against a dense reference"


def proofs(src):
    return k_sample.prove(src, ["_get_free_ptr", "build_ham_dxy_fast", "build_ham_dxy_safe", "sort_col_csr"])


def rand_sample(rng, nmax=3, zero=True):
    t = gen.tb()
    scs, ihs = [], []
    for _ in range(int(rng.integers(1, nmax + 1))):
        m = gen.rand_sc(rng, big=0, maxorb=2)
        scs.append(m["sc"])
    if zero and rng.random() < 0.5:
        # some vanishing on-site energies
        for sc in scs:
            pass
    for _ in range(int(rng.integers(0, 3)) if len(scs) > 1 else 0):
        a, b = rng.choice(len(scs), 2, replace=False)
        ih = t.SCInterHopping(scs[a], scs[b])
        for _ in range(int(rng.integers(1, 5))):
            ih.add_hopping(tuple(int(x) for x in rng.integers(-1, 2, 3)), int(rng.integers(0, scs[a].num_orb_sc)),
                           int(rng.integers(0, scs[b].num_orb_sc)), gen.rand_cplx(rng))
        ihs.append(ih)
    return t.Sample(*scs, *ihs), scs, ihs


def reference(sa, scs, ihs):
    """list of (i, j, v, dx, dy), both directions, plus the on-site energies"""
    off, o = [], 0
    for s in scs:
        off.append(o)
        o += s.num_orb_sc
    terms = []
    for n, s in enumerate(scs):
        for a, b, v, d in zip(*s.get_hop()):
            terms.append((off[n] + a, off[n] + b, v, d))
    ix = lambda s: [n for n, q in enumerate(scs) if q is s][0]
    for q in ihs:
        for a, b, v, d in zip(*q.get_hop()):
            terms.append((off[ix(q.sc_bra)] + a, off[ix(q.sc_ket)] + b, v, d))
    full = []
    for a, b, v, d in terms:
        full.append((int(a), int(b), complex(v), float(d[0]), float(d[1])))
        full.append((int(b), int(a), complex(np.conj(v)), -float(d[0]), -float(d[1])))
    return np.concatenate([s.get_orb_eng() for s in scs]), full, np.concatenate([s.get_orb_pos() for s in scs])


def key(t):
    return (t[0], t[1], round(t[2].real, 6), round(t[2].imag, 6), round(t[3], 6), round(t[4], 6))


def canonical(ts):
    """multiset comparison that tolerates rounding: group by (i, j), match greedily"""
    d = {}
    for t in ts:
        d.setdefault((t[0], t[1]), []).append(t[2:])
    return d


def same(got, ref, what):
    a, b = canonical(got), canonical(ref)
    require(set(a) == set(b), lambda: f"{what}: positions differ: missing {sorted(set(b) - set(a))[:4]}, extra {sorted(set(a) - set(b))[:4]}")
    for k in b:
        rest = list(a[k])
        require(len(rest) == len(b[k]), lambda: f"{what}: entry {k} stored {len(rest)} times instead of {len(b[k])}")
        for x in b[k]:
            for n, y in enumerate(rest):
                if all(abs(p - q) < 1e-7 * (1 + abs(q)) for p, q in zip(x, y)):
                    rest.pop(n)
                    break
            else:
                require(False, f"{what}: entry {k}: {x} not stored, got {a[k]}")


def one(rng, index):
    sa, scs, ihs = rand_sample(rng)
    eng, full, pos = reference(sa, scs, ihs)
    n = len(eng)
    sa.init_orb_eng(), sa.init_orb_pos(), sa.init_hop()
    require(sa.num_orb == n and gen.close(sa.orb_eng, eng) and gen.close(sa.orb_pos, pos), "concatenated orbitals")
    require(sa.num_hop * 2 == len(full), f"number of stored terms {sa.num_hop}")
    cut = float(rng.choice([1e-5, 0.3, 0.0]))
    for algo in ("fast", "safe"):
        for sort in (False, True):
            ip, ind, hop, dx, dy = sa.build_ham_dxy(orb_eng_cutoff=cut, algo=algo, sort_col=sort)
            what = f"{algo} sort={sort} cutoff={cut}"
            ip = np.asarray(ip)
            require(ip.shape == (n + 1,) and ip[0] == 0 and ip[-1] == len(ind) and np.all(np.diff(ip) >= 0), f"{what}: row pointer")
            require(len(ind) == len(hop) == len(dx) == len(dy), f"{what}: lengths")
            got = [(r, int(ind[q]), complex(hop[q]), float(dx[q]), float(dy[q])) for r in range(n) for q in range(ip[r], ip[r + 1])]
            ref = full + [(o, o, complex(eng[o]), 0.0, 0.0) for o in range(n) if abs(eng[o]) >= cut]
            same(got, ref, what)
            if sort:
                require(all(np.all(np.diff(ind[ip[r]:ip[r + 1]]) >= 0) for r in range(n)), f"{what}: columns not sorted")
    h = np.zeros((n, n), dtype=complex)
    x, y = np.zeros((n, n)), np.zeros((n, n))
    h[np.arange(n), np.arange(n)] = eng
    for a, b, v, p, q in full:
        h[a, b] += v
        x[a, b] += p
        y[a, b] += q
    require(gen.close(sa.build_ham_csr().toarray(), h), "build_ham_csr")
    cx, cy = sa.build_dxy_csr()
    require(gen.close(cx.toarray(), x) and gen.close(cy.toarray(), y), "build_dxy_csr")


def after_reset(rng, index):
    """arrays rebuilt after reset are the original ones; saving and loading round-trips"""
    import tempfile, shutil, os
    sa, scs, ihs = rand_sample(rng, 2)
    sa.init_orb_eng(), sa.init_orb_pos(), sa.init_hop()
    snap = lambda: [np.array(q) for q in (sa.orb_eng, sa.orb_pos, sa.hop_i, sa.hop_j, sa.hop_v, sa.dr)] + [np.array(sa.rescale)]
    a = snap()
    sa.rescale_ham(3.0)
    sa.set_magnetic_field(25.0)
    b = snap()
    d = tempfile.mkdtemp()
    try:
        sa.save_array(os.path.join(d, "s"))
        sa.reset_array()
        require(all(gen.close(p, q) for p, q in zip(a, snap())), "reset_array does not restore the arrays")
        sa.load_array(os.path.join(d, "s"))
        require(all(gen.close(p, q) for p, q in zip(b, snap())), "load_array does not restore the saved arrays")
    finally:
        shutil.rmtree(d)


CASES = [("csr", one), ("reset", after_reset)]
