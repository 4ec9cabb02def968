"""P20 Lindhard and Kubo sums"""
import math
import numpy as np
from vk.search import require
from props import gen, k_lind

ASSUMPTIONS = ["exp, cos, sin: the mathematical functions (exp > 0); floats as real numbers",
               "the Fortran kernels (fortran/lindhard.f90) are proved for the calling convention of lindhard.py (arrays transposed, indices shifted by one); "
               "their parallel loops by the OpenMP data-sharing rules; the driver around the kernels and the Coulomb prefactors stay bounded"]
BOUNDED_NOTE = ("kernels: up to 6 k-points and 4 bands, random energies (degenerate ones included), states, maps, sub-ranges of k, Cython and "
                "Fortran; solver: random cells with up to 3 orbitals, meshes up to 3x3x2, on-mesh and arbitrary q, 2d and 3d, both implementations")
BUDGET = {"quick": 30, "thorough": 240}


def proofs(src):
    n = ["prod_dp", "prod_dp_arb", "dyn_pol", "ac_cond", "prod_ac"]
    return k_lind.tasks(src, n) + k_lind.f_tasks(src, n)


def fermi(e, beta, mu):
    return 1.0 / (1.0 + np.exp(np.clip(beta * (e - mu), -700, 700)))


def data(rng, norb=None, nk=None):
    nk = nk or int(rng.integers(1, 7))
    no = norb or int(rng.integers(1, 5))
    bands = rng.normal(size=(nk, no))
    if rng.random() < 0.3 and no > 1:
        bands[:, 1] = bands[:, 0]
    states = rng.normal(size=(nk, no, no)) + 1j * rng.normal(size=(nk, no, no))
    beta, mu = float(rng.uniform(0.1, 8)), float(rng.normal())
    lo = int(rng.integers(0, nk))
    hi = int(rng.integers(lo, nk))
    return nk, no, bands, states, beta, mu, lo, hi


def both(rng, nk, no):
    return (np.zeros((nk, no, no)), np.zeros((nk, no, no), dtype=complex))


def compare(got, ref, lo, hi, what):
    for g, r, nm in zip(got, ref, ("delta_eng", "prod_df")):
        for k in range(len(r)):
            w = r[k] if lo <= k <= hi else np.zeros_like(r[k])
            require(gen.close(g[k], w, 1e-9), f"{what}: {nm}[{k}] (range {lo}..{hi}) is {g[k].tolist()} instead of {w.tolist()}")


def polarisation_kernel(rng, index):
    from tbplas.cython import lindhard as core
    from tbplas.fortran import f2py
    nk, no, bands, states, beta, mu, lo, hi = data(rng)
    q, pos = rng.normal(size=3), rng.normal(size=(no, 3))
    kq = rng.permutation(nk).astype(np.int64)
    ph = np.exp(1j * pos @ q)
    for arb in (False, True):
        bq, sq = (rng.normal(size=(nk, no)), rng.normal(size=(nk, no, no)) + 1j * rng.normal(size=(nk, no, no))) if arb else (bands[kq], states[kq])
        m = np.einsum("klb,kjb,b->kjl", sq.conj(), states, ph)
        de = bands[:, :, None] - bq[:, None, :]
        pd = np.abs(m) ** 2 * (fermi(bands, beta, mu)[:, :, None] - fermi(bq, beta, mu)[:, None, :])
        d, p = both(rng, nk, no)
        if arb:
            core.prod_dp_arb(bands, states, bq, sq, beta, mu, q, pos, lo, hi, d, p)
        else:
            core.prod_dp(bands, states, kq.copy(), beta, mu, q, pos, lo, hi, d, p)
        compare((d, p), (de, pd), lo, hi, f"Cython prod_dp{'_arb' if arb else ''}")
        d, p = both(rng, nk, no)
        if arb:
            f2py.prod_dp_arb(bands.T, states.T, bq.T, sq.T, beta, mu, q, pos.T, lo + 1, hi + 1, d.T, p.T)
        else:
            f2py.prod_dp(bands.T, states.T, kq + 1, beta, mu, q, pos.T, lo + 1, hi + 1, d.T, p.T)
        compare((d, p), (de, pd), lo, hi, f"Fortran prod_dp{'_arb' if arb else ''}")


def sums_kernel(rng, index):
    from tbplas.cython import lindhard as core
    from tbplas.fortran import f2py
    nk, no, _, _, _, _, lo, hi = data(rng)
    de = rng.normal(size=(nk, no, no))
    pd = rng.normal(size=(nk, no, no)) + 1j * rng.normal(size=(nk, no, no))
    nw, nq = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    om, dl, iq = rng.uniform(-3, 3, size=nw), float(rng.uniform(0.05, 0.5)), int(rng.integers(0, nq))
    keep = rng.normal(size=(nq, nw)) + 0j
    ref = keep.copy()
    ref[iq] = [np.sum(pd[lo:hi + 1] / (de[lo:hi + 1] + w + 1j * dl)) for w in om]
    a = keep.copy()
    core.dyn_pol(de, pd, om, dl, lo, hi, iq, a)
    require(gen.close(a, ref), f"Cython dyn_pol: {a.tolist()} instead of {ref.tolist()}")
    a = keep.copy()
    f2py.dyn_pol_f(de.T, pd.T, om, dl, lo + 1, hi + 1, iq + 1, a.T)
    require(gen.close(a, ref), f"Fortran dyn_pol_f: {a.tolist()} instead of {ref.tolist()}")
    ref = np.array([np.sum(pd[lo:hi + 1] / (de[lo:hi + 1] - w - 1j * dl)) for w in om])
    a = np.zeros(nw, dtype=complex)
    core.ac_cond(de, pd, om, dl, lo, hi, a)
    require(gen.close(a, ref), f"Cython ac_cond: {a.tolist()} instead of {ref.tolist()}")
    a = np.zeros(nw, dtype=complex)
    f2py.ac_cond_f(de.T, pd.T, om, dl, lo + 1, hi + 1, a)
    require(gen.close(a, ref), f"Fortran ac_cond_f: {a.tolist()} instead of {ref.tolist()}")


def conductivity_kernel(rng, index):
    from tbplas.cython import lindhard as core
    from tbplas.fortran import f2py
    nk, no, bands, states, beta, mu, lo, hi = data(rng)
    nh = int(rng.integers(1, 7))
    hi_ = rng.integers(0, no, size=(nh, 2)).astype(np.int32)
    he = rng.normal(size=nh) + 1j * rng.normal(size=nh)
    dr, km = rng.normal(size=(nh, 3)), rng.normal(size=(nk, 3))
    comp = rng.integers(0, 3, size=2).astype(np.int32)
    de = bands[:, :, None] - bands[:, None, :]
    pd = np.zeros((nk, no, no), dtype=complex)
    f = fermi(bands, beta, mu)
    for k in range(nk):
        v = []
        for c in comp:
            m = np.zeros((no, no), dtype=complex)
            for h in range(nh):
                x = 1j * dr[h, c] * he[h] * np.exp(1j * km[k] @ dr[h])
                m[hi_[h, 0], hi_[h, 1]] += x
                m[hi_[h, 1], hi_[h, 0]] += x.conjugate()
            v.append(states[k].conj() @ m @ states[k].T)       # v[a, b] = <a|v|b>
        for a in range(no):
            for b in range(no):
                if abs(de[k, a, b]) >= 1e-7:
                    pd[k, a, b] = v[0][b, a] * v[1][a, b] * (f[k, a] - f[k, b]) / de[k, a, b]
    d, p = both(rng, nk, no)
    core.prod_ac(bands, states, hi_, he, dr, km, beta, mu, comp, lo, hi, d, p)
    compare((d, p), (de, pd), lo, hi, "Cython prod_ac")
    d, p = both(rng, nk, no)
    f2py.prod_ac(bands.T, states.T, (hi_ + 1).T, he, dr.T, km.T, beta, mu, comp + 1, lo + 1, hi + 1, d.T, p.T)
    compare((d, p), (de, pd), lo, hi, "Fortran prod_ac")


class Ref:
    """the same quantities from the hopping table, by the definition"""

    def __init__(self, rng, dim):
        t = gen.tb()
        self.pc, self.table = gen.rand_pc(rng, norb=int(rng.integers(1, 4)), nhop=int(rng.integers(1, 5)), origin=False, dims=dim)
        if rng.random() < 0.3:
            self.pc.extended = float(rng.integers(1, 4))
        self.mesh = tuple(int(x) for x in rng.integers(1, 4, size=2)) + (1 if dim == 2 else int(rng.integers(1, 3)),)
        self.kw = dict(energy_min=0.2, energy_max=3.0, energy_step=3, mu=float(rng.normal() * 0.5), temperature=float(rng.uniform(500, 9000)),
                       g_s=int(rng.integers(1, 3)), dimension=dim, delta=float(rng.uniform(0.05, 0.3)), back_epsilon=float(rng.uniform(1, 3)))
        self.s = t.Lindhard(self.pc, self.mesh, echo_details=False, **self.kw)
        self.dim = dim
        self.k = np.array([[a / self.mesh[0], b / self.mesh[1], c / self.mesh[2]] for a in range(self.mesh[0])
                           for b in range(self.mesh[1]) for c in range(self.mesh[2])])
        self.lat = self.pc.lat_vec.copy()
        self.rec = 2 * math.pi * np.linalg.inv(self.lat).T
        self.pos = self.pc.orb_pos.copy()
        self.beta = 1 / (8.617333262e-5 * self.kw["temperature"])
        self.om = np.linspace(0.2, 3.0, 4)
        self.ext = self.pc.extended

    def eig(self, k, conv):
        e, u = np.linalg.eigh(gen.ref_hk(self.pos, self.pc.orb_eng, self.table, k, conv))
        return e, u.T

    def dyn(self, qf):
        cart = self.pos @ self.lat
        ph = np.exp(1j * cart @ (qf @ self.rec))
        r = np.zeros(len(self.om), dtype=complex)
        for k in self.k:
            e, u = self.eig(k, 2)
            eq, uq = self.eig(k + qf, 2)
            m = np.einsum("lb,jb,b->jl", uq.conj(), u, ph)
            d = fermi(e, self.beta, self.kw["mu"])[:, None] - fermi(eq, self.beta, self.kw["mu"])[None, :]
            for w, o in enumerate(self.om):
                r[w] += np.sum(np.abs(m) ** 2 * d / (e[:, None] - eq[None, :] + o + 1j * self.kw["delta"]))
        g = self.rec / np.array(self.mesh)[:, None]
        dnk = np.linalg.norm(np.cross(g[0], g[1])) if self.dim == 2 else abs(np.linalg.det(g))
        return r * self.kw["g_s"] * dnk / (2 * math.pi) ** self.dim / self.ext

    def ac(self, comp):
        r = np.zeros(len(self.om), dtype=complex)
        for k in self.k:
            e, u = self.eig(k, 1)
            f = fermi(e, self.beta, self.kw["mu"])
            v = []
            for c in comp:
                m = np.zeros((len(e), len(e)), dtype=complex)
                for (rn, i, j), t in self.table.items():
                    d = np.array(rn) + self.pos[j] - self.pos[i]
                    x = 1j * (d @ self.lat)["xyz".index(c)] * t * np.exp(2j * math.pi * float(np.dot(k, d)))
                    m[i, j] += x
                    m[j, i] += x.conjugate()
                v.append(u.conj() @ m @ u.T)
            for a in range(len(e)):
                for b in range(len(e)):
                    de = e[a] - e[b]
                    if abs(de) >= 1e-7:
                        r += v[0][b, a] * v[1][a, b] * (f[a] - f[b]) / de / (de - self.om - 1j * self.kw["delta"])
        vol = np.linalg.norm(np.cross(self.lat[0], self.lat[1])) if self.dim == 2 else abs(np.linalg.det(self.lat))
        return r * self.kw["g_s"] * 1j / (vol * len(self.k)) / self.ext


def polarisation(rng, index):
    m = Ref(rng, 2 + int(rng.integers(0, 2)))
    nq = int(rng.integers(1, 4))
    g = rng.integers(-5, 6, size=(nq, 3))
    qa = rng.uniform(-1, 1, size=(nq, 3))
    if m.dim == 2:
        g[:, 2] = 0
        qa[:, 2] = 0
    ref = np.array([m.dyn(x / np.array(m.mesh)) for x in g])
    refa = np.array([m.dyn(x) for x in qa])
    for fort in (True, False):
        om, d = m.s.calc_dyn_pol_regular(g.copy(), use_fortran=fort)
        require(gen.close(om, m.om, 1e-12), "frequencies")
        require(gen.close(d, ref, 1e-6), f"calc_dyn_pol_regular(q={g.tolist()}, mesh={m.mesh}, fortran={fort}): {d.tolist()} instead of {ref.tolist()}")
        om, d = m.s.calc_dyn_pol_arbitrary(qa @ m.rec, use_fortran=fort)
        require(gen.close(d, refa, 1e-6), f"calc_dyn_pol_arbitrary(q={qa.tolist()}, mesh={m.mesh}, fortran={fort}): {d.tolist()} instead of {refa.tolist()}")
    om, d = m.s.calc_dyn_pol_regular(g.tolist())
    require(gen.close(d, ref, 1e-6), "list of q-points")
    # dielectric function
    qc = qa @ m.rec + 0.1
    eps = m.s.calc_epsilon(qc, d)
    e0 = 0.6944615417149689 * m.kw["back_epsilon"]
    nrm = np.linalg.norm(qc, axis=1)
    vq = 2 * math.pi / (e0 * nrm) if m.dim == 2 else 4 * math.pi / (e0 * nrm ** 2)
    require(gen.close(eps, 1 - vq[:, None] * d, 1e-8), "calc_epsilon")
    require(gen.close(m.s.calc_epsilon(qc.tolist(), d), eps, 1e-8), "calc_epsilon of a list")


def conductivity(rng, index):
    m = Ref(rng, 2 + int(rng.integers(0, 2)))
    comp = "xyz"[rng.integers(3)] + "xyz"[rng.integers(3)]
    ref = m.ac(comp)
    for fort in (True, False):
        om, a = m.s.calc_ac_cond(component=comp, use_fortran=fort)
        require(gen.close(a, ref, 1e-6), f"calc_ac_cond({comp}, mesh={m.mesh}, fortran={fort}): {a.tolist()} instead of {ref.tolist()}")
    if m.dim == 3:
        eps = m.s.calc_epsilon_q0(m.om, ref)
        require(gen.close(eps, 1 + 4j * math.pi * ref / (m.kw["back_epsilon"] * 0.6944615417149689 * m.om), 1e-8), "calc_epsilon_q0")
    for bad in ("xw", "x", "xyz"):
        try:
            m.s.calc_ac_cond(component=bad)
        except ValueError:
            continue
        require(False, f"component {bad} accepted")


CASES = [("polarisation_kernel", polarisation_kernel), ("sums_kernel", sums_kernel), ("conductivity_kernel", conductivity_kernel),
         ("polarisation", polarisation), ("conductivity", conductivity)]
