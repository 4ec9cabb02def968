"""P22 spectral sums, spin textures, topological phases"""
import math
import numpy as np
from vk.search import require
from props import gen

LEVEL = "exploration"
ASSUMPTIONS = ["LAPACK and ARPACK return eigenpairs of the matrices they are given (residuals are checked in the bounded runs)"]
BOUNDED_NOTE = "random cells with up to 5 orbitals, up to 5 k-points, Gaussian and Lorentzian broadening, random grids and projections, supercell samples, up to 4 occupied bands"
BUDGET = {"quick": 25, "thorough": 240}


def proofs(src):
    return []


def model(rng, norb=None):
    pc, table = gen.rand_pc(rng, norb=norb or int(rng.integers(1, 6)), nhop=int(rng.integers(1, 7)), origin=False)
    pos = np.array([o.position for o in pc.orbitals], dtype=float)
    eng = np.array([o.energy for o in pc.orbitals], dtype=float)
    return pc, lambda k, conv=1: gen.ref_hk(pos, eng, table, k, conv)


def bands(rng, index):
    t = gen.tb()
    pc, h = model(rng)
    n = pc.num_orb
    ks = rng.uniform(-1, 1, size=(int(rng.integers(1, 6)), 3))
    conv = int(rng.integers(1, 3))
    s = t.DiagSolver(pc, echo_details=False)
    orb = [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    r = s.calc_bands(ks, convention=conv, orbital_indices=orb if rng.random() < 0.7 else None)
    b, st = s.calc_states(ks, convention=conv)
    for i, k in enumerate(ks):
        m = h(k, conv)
        w = np.linalg.eigvalsh(m)
        require(gen.close(r.bands[i], w[::-1]), lambda: f"bands at k={k.tolist()} are {r.bands[i].tolist()} instead of {w[::-1].tolist()}")
        require(gen.close(b[i], w), lambda: f"calc_states: energies {b[i].tolist()} instead of {w.tolist()}")
        for a in range(n):
            require(np.abs(m @ st[i, a] - b[i, a] * st[i, a]).max() < 1e-8, f"state {a} at k={k.tolist()} is not an eigenvector of H(k) (convention {conv})")
        require(gen.close(st[i].conj() @ st[i].T, np.eye(n)), f"states at k={k.tolist()} are not orthonormal")
    d = np.concatenate([[0], np.cumsum(np.linalg.norm(np.diff(ks @ (2 * math.pi * np.linalg.inv(pc.lat_vec).T), axis=0), axis=1))])
    require(gen.close(r.k_len, d), f"k_len {r.k_len.tolist()} instead of {d.tolist()}")
    r2 = s.calc_bands(ks, convention=conv, orbital_indices=orb)
    for i, k in enumerate(ks):
        w, v = np.linalg.eigh(h(k, conv))
        if n > 1 and np.min(np.diff(w)) < 1e-4:
            continue
        p = (np.abs(v[orb]) ** 2).sum(axis=0)[::-1]
        require(gen.close(r2.proj[i], p, 1e-6), lambda: f"projections on {orb} at k={k.tolist()} are {r2.proj[i].tolist()} instead of {p.tolist()}")
    if n >= 4:
        kk = int(rng.integers(1, n - 2))
        ra = s.calc_bands(ks, convention=conv, solver="arpack", k=kk, which="LA")
        for i, k in enumerate(ks):
            w = np.linalg.eigvalsh(h(k, conv))[::-1][:kk]
            require(gen.close(ra.bands[i], w, 1e-6), lambda: f"arpack bands {ra.bands[i].tolist()} instead of {w.tolist()}")


def dos(rng, index):
    t = gen.tb()
    pc, h = model(rng)
    n = pc.num_orb
    ks = rng.uniform(-1, 1, size=(int(rng.integers(1, 6)), 3))
    s = t.DiagSolver(pc, echo_details=False)
    w = [np.linalg.eigh(h(k)) for k in ks]
    if n > 1 and min(np.min(np.diff(x[0])) for x in w) < 1e-4:
        return
    kw = dict(e_step=float(rng.uniform(0.05, 0.7)), sigma=float(rng.uniform(0.05, 0.5)), basis=("Gaussian", "Lorentzian")[int(rng.integers(0, 2))],
              g_s=int(rng.integers(1, 3)))
    if rng.random() < 0.6:
        kw.update(e_min=float(rng.uniform(-6, -2)), e_max=float(rng.uniform(1, 6)))
    orb = [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]] if rng.random() < 0.6 else None
    e, d = s.calc_dos(ks, **kw, **({"orbital_indices": orb} if orb else {}))
    lo = kw.get("e_min", min(x[0].min() for x in w))
    hi = kw.get("e_max", max(x[0].max() for x in w))
    num = (hi - lo) / kw["e_step"]
    require(abs(e[0] - lo) < 1e-9 and (len(e) == 1 or abs(e[-1] - hi) < 1e-9), lambda: f"energy grid {e[0]}..{e[-1]} instead of {lo}..{hi}")
    if abs(num - round(num)) > 1e-6:
        require(len(e) == int(num) + 1 and (len(e) < 2 or gen.close(np.diff(e), np.full(len(e) - 1, (hi - lo) / (len(e) - 1)))),
                lambda: f"energy grid of {len(e)} points for {lo}..{hi} in steps of {kw['e_step']}")
    sg = kw["sigma"]
    ref = np.zeros(len(e))
    for val, vec in w:
        for a in range(n):
            wt = 1.0 if orb is None else (np.abs(vec[orb, a]) ** 2).sum()
            x = e - val[a]
            ref += wt * (np.exp(-x ** 2 / (2 * sg * sg)) / (sg * math.sqrt(2 * math.pi)) if kw["basis"] == "Gaussian" else sg / math.pi / (x * x + sg * sg))
    ref *= kw["g_s"] / (n * len(ks))
    require(gen.close(d, ref, 1e-7), lambda: f"DOS with {kw}, orbitals {orb}: {d.tolist()} instead of {ref.tolist()}")


def overlap(rng, index):
    t = gen.tb()
    pc, h = model(rng, int(rng.integers(2, 5)))
    n = pc.num_orb
    ov = t.Overlap(pc)
    on = rng.uniform(1, 2, size=n)
    for i in range(n):
        ov.set_onsite(i, float(on[i]))
    terms = {}
    for rn, i, j, e in list(pc.hop_iter() if hasattr(pc, "hop_iter") else [(tuple(a[:3]), a[3], a[4], 0) for a in np.asarray(pc.hop_ind).tolist()]):
        v = complex(*rng.uniform(-0.05, 0.05, size=2))
        try:
            ov.add_offsite(tuple(int(x) for x in rn), int(i), int(j), v)
        except Exception:
            continue
        terms[(tuple(rn), int(i), int(j))] = v
    pos = np.array([o.position for o in pc.orbitals], dtype=float)
    ks = rng.uniform(-1, 1, size=(3, 3))
    s = t.DiagSolver(pc, ov, echo_details=False)
    r = s.calc_bands(ks)
    b, st = s.calc_states(ks)
    for q, k in enumerate(ks):
        m = h(k, 1)
        sm = np.diag(on).astype(complex)
        for (rn, i, j), v in terms.items():
            x = v * np.exp(2j * math.pi * np.dot(k, np.array(rn) + pos[j] - pos[i]))
            sm[i, j] += x
            sm[j, i] += x.conjugate()
        if np.linalg.eigvalsh(sm).min() < 0.1:
            return
        l = np.linalg.inv(np.linalg.cholesky(sm))
        w = np.linalg.eigvalsh(l @ m @ l.conj().T)
        require(gen.close(r.bands[q], w[::-1], 1e-6), lambda: f"generalised bands at k={k.tolist()} are {r.bands[q].tolist()} instead of {w[::-1].tolist()}")
        for a in range(n):
            require(np.abs(m @ st[q, a] - b[q, a] * sm @ st[q, a]).max() < 1e-7, f"generalised state {a} at k={k.tolist()} does not solve H c = E S c")


def edited(rng, index):
    """results follow edits of the model made between two calls"""
    t = gen.tb()
    pc, _ = gen.rand_pc(rng, norb=2, nhop=3, origin=False)
    s = t.DiagSolver(pc, echo_details=False)
    k = rng.uniform(-1, 1, size=(2, 3))
    e0 = s.calc_bands(k).bands
    shift = float(rng.uniform(0.5, 2))
    for i in range(2):
        pc.set_orbital(i, energy=pc.orbitals[i].energy + shift)
    require(gen.close(s.calc_bands(k).bands, e0 + shift), "bands do not follow an edit of the on-site energies")
    require(gen.close(np.sort(s.calc_states(k)[0], axis=1)[:, ::-1], e0 + shift), "calc_states does not follow an edit of the on-site energies")
    e, d = s.calc_dos(k, e_min=-3, e_max=3, e_step=0.5, sigma=0.3)
    ref = np.zeros(len(e))
    for x in (e0 + shift).ravel():
        ref += np.exp(-(e - x) ** 2 / 0.18) / (0.3 * math.sqrt(2 * math.pi)) / 4
    require(gen.close(d, ref), "DOS does not follow an edit of the on-site energies")


def spin(rng, index):
    t = gen.tb()
    n = 2 * int(rng.integers(1, 4))
    pc, h = model(rng, n)
    major = bool(rng.integers(0, 2))
    ks = rng.uniform(-1, 1, size=(int(rng.integers(1, 4)), 3))
    s = t.SpinTexture(pc, ks.copy(), spin_major=major, echo_details=False)
    sx, sy, sz = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])
    for turn in range(2):
        for c, p in (("x", sx), ("y", sy), ("z", sz)):
            got = s.eval(c)
            op = np.kron(p, np.eye(n // 2)) if major else np.kron(np.eye(n // 2), p)
            for i, k in enumerate(ks):
                w, v = np.linalg.eigh(h(k))
                if np.min(np.diff(w)) < 1e-4:
                    continue
                ref = [np.vdot(v[:, a], op @ v[:, a]).real for a in range(n)]
                require(gen.close(got[i], ref, 1e-6), lambda: f"sigma_{c} at k={k.tolist()} (spin-major {major}) is {got[i].tolist()} instead of {ref}")
        kc = ks @ (2 * math.pi * np.linalg.inv(pc.lat_vec).T)
        require(gen.close(s.k_cart, kc), f"k_cart {s.k_cart.tolist()} instead of {kc.tolist()}")
        ks = rng.uniform(-1, 1, size=(int(rng.integers(1, 4)), 3))
        s.k_grid = ks.copy()


def crossing(rng, index):
    from tbplas.diagonal.z2 import Z2
    ph = rng.integers(-4, 5, size=(int(rng.integers(1, 8)), int(rng.integers(1, 5)))) / 2.0 if rng.random() < 0.4 else rng.uniform(-3, 3, size=(int(rng.integers(1, 8)), int(rng.integers(1, 5))))
    ref = float(rng.choice([0.5, 0.0, -1.0, 1.25]))
    n = sum(1 for b in range(ph.shape[1]) for k in range(ph.shape[0] - 1)
            if (ph[k, b] < ref < ph[k + 1, b]) or (ph[k + 1, b] < ref < ph[k, b]))
    got = Z2.count_crossing(ph, ref)
    require(got == n, f"count_crossing({ph.tolist()}, {ref}) is {got} instead of {n}")


def phases(rng, index):
    t = gen.tb()
    n = int(rng.integers(2, 5))
    pc, h = model(rng, n)
    occ = int(rng.integers(1, n + 1))
    z = t.Z2(pc, num_occ=occ, echo_details=False)
    ka, kb, kc = np.linspace(-0.5, 0.5, int(rng.integers(3, 7))), rng.uniform(0, 0.5, size=int(rng.integers(1, 4))), float(rng.choice([0.0, 0.5]))
    gk, gp = z.calc_phases(ka, kb, kc)
    require(gen.close(gk, kb), "kb array changed")
    for i, b in enumerate(kb):
        vs = []
        for a in ka:
            w, v = np.linalg.eigh(h(np.array([a, b, kc])))
            if occ < n and w[occ] - w[occ - 1] < 1e-3:
                return
            vs.append(v[:, :occ])
        d = np.eye(occ, dtype=complex)
        for a in range(len(ka)):
            d = d @ (vs[a].conj().T @ vs[(a + 1) % len(ka)])
        ev = np.linalg.eigvals(d)
        if np.abs(ev).min() < 1e-3:
            return
        ref = np.exp(1j * np.sort(np.angle(ev)))
        got = np.exp(1j * gp[i])
        left = list(ref)
        for x in got:
            q = min(range(len(left)), key=lambda m: abs(left[m] - x))
            require(abs(left[q] - x) < 1e-4, lambda: f"phases at kb={b}: {gp[i].tolist()} instead of {np.angle(ref).tolist()} ({occ} of {n} bands occupied)")
            left.pop(q)
        require(np.all(np.diff(gp[i]) >= 0), f"phases at kb={b} are not sorted: {gp[i].tolist()}")


CASES = [("bands", bands), ("dos", dos), ("overlap", overlap), ("edited", edited), ("spin", spin), ("crossing", crossing), ("phases", phases)]
