"""P13: the rescaling factor bounds the spectrum"""
import numpy as np
from vk.search import require
from vk.sym import And, imp
from vk.contract import Lemma
from props import gen, k_sample, p11

ASSUMPTIONS = ["numpy.max: an attained upper bound", "Gershgorin: the spectral radius is at most the largest absolute row sum (textbook theorem, Mathlib eigenvalue_mem_ball)"]
BOUNDED_NOTE = "samples with on-site energies of either sign, sequences of rescalings with and without explicit factors, interleaved with fields"


def lemmas():
    return [Lemma("rescaling with f after g equals rescaling with f", [("e", "real"), ("g", "real"), ("f", "real")],
                  lambda p: [("positive", And(p.g > 0, p.f > 0))],
                  lambda p: [("composition", (p.e / p.g) * (p.g / p.f) == p.e / p.f)])]


def proofs(src):
    return k_sample.prove(src, ["get_rescale"]) + [("lemma " + x.name, x.verify) for x in lemmas()]


def make(rng):
    sa, scs, ihs = p11.rand_sample(rng, 2)
    sa.init_orb_eng(), sa.init_hop()
    if rng.random() < 0.5:
        # large on-site energies of one sign
        t = gen.tb()
        pc, tab = gen.rand_pc(rng, norb=2, nhop=2, dims=2)
        s = -1 if rng.random() < 0.7 else 1
        for i in range(pc.num_orb):
            pc.set_orbital(i, energy=float(s * rng.uniform(2, 20)))
        scs = [t.SuperCell(pc, dim=gen.rand_dims(rng, tab, 0), pbc=(True, True, False))]
        sa = t.Sample(*scs)
    return sa


def dense(sa):
    sa.init_orb_eng(), sa.init_hop()
    return sa.build_ham_csr().toarray()


def bound(rng, index):
    sa = make(rng)
    h = dense(sa)
    n = len(h)
    row = np.abs(np.diag(h)).copy()
    row[:] = np.abs(sa.orb_eng)
    for a, b, v in zip(sa.hop_i, sa.hop_j, sa.hop_v):
        row[a] += abs(v)
        row[b] += abs(v)
    sa.rescale_ham()
    f = sa.rescale
    require(abs(f - row.max()) < 1e-8 * (1 + row.max()), f"factor {f} instead of the largest absolute row sum {row.max()}")
    w = np.linalg.eigvalsh(dense(sa))
    require(w.min() >= -1 - 1e-9 and w.max() <= 1 + 1e-9, f"spectrum [{w.min()}, {w.max()}] outside [-1, 1]")
    require(gen.close(dense(sa) * f, h), "rescaled Hamiltonian is not H / factor")
    require(abs(sa.energy_range - 2 * f) < 1e-9, "energy_range")
    sa.rescale_ham()
    require(gen.close(dense(sa) * sa.rescale, h) and abs(sa.rescale - f) < 1e-8 * f, f"second automatic rescaling: factor {sa.rescale} instead of {f}")


def history(rng, index):
    sa = make(rng)
    h = dense(sa)
    log = []
    for _ in range(int(rng.integers(1, 5))):
        op = int(rng.integers(0, 4))
        f = float(rng.uniform(0.5, 30))
        log.append((op, f))
        if op == 0:
            sa.rescale_ham()
        elif op == 3:
            sa.reset_array()
        else:
            sa.rescale_ham(f)
            require(sa.rescale == f, "factor not recorded")
        require(gen.close(dense(sa) * sa.rescale, h, 1e-7), lambda: f"history {log}: H*rescale is not the original Hamiltonian")
        if op == 0:
            w = np.linalg.eigvalsh(dense(sa))
            require(abs(w).max() <= 1 + 1e-9, lambda: f"history {log}: spectrum outside [-1, 1]")
    k = rng.uniform(-0.5, 0.5, 3)
    sa.init_orb_pos()
    a = np.zeros_like(h)
    sa.set_ham_dense(k, a)
    sa.reset_array()
    b = np.zeros_like(h)
    sa.set_ham_dense(k, b)
    require(gen.close(a, b, 1e-7), lambda: f"history {log}: Bloch Hamiltonian depends on the rescaling")


CASES = [("bound", bound), ("history", history)]
