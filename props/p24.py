"""P24 TBPM correlation functions and their analysis follow their definitions"""
import math
import numpy as np
from vk.search import require
from props import gen, fortdrv as fd
from props.fortdrv import I, D, P

ASSUMPTIONS = ["floating-point numbers are treated as real numbers, machine integers as mathematical integers",
               "the Fortran procedures are translated mechanically into the verified text on every run (vk/fort.py)",
               "the discrete Fourier transform used for the Fermi coefficients is an uninterpreted function of its input (fft1d_inplace assumed)",
               "wave functions are elements of a complex vector space; sparse products, propagation step and Fermi filter are used through their contracts (P21)"]
TRUSTED = ["random_state: an unspecified vector determined by its seed; norm and inner_prod: their definition"]
BOUNDED_NOTE = ("Hermitian CSR matrices up to 8x8, up to 3 random samples, ranks 0-2, up to 6 time steps, arbitrary real coefficients in place of the Bessel series; "
                "the random states are taken from random_state itself (its seed and normalisation are checked)")
BUDGET = {"quick": 30, "thorough": 240}


def proofs(src):
    from props import k_f90, k_tbpm
    return k_f90.tasks(src, k_f90.KERNELS) + k_tbpm.tasks(src, k_tbpm.TBPM)


def close(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b).max(initial=0))))


class Set:
    def __init__(self, rng):
        self.n = int(rng.integers(3, 9))
        self.c = fd.Csr(rng, self.n, scale=0.9)
        self.m = self.c.m
        dt = float(rng.uniform(0.3, 2.5))
        from scipy.special import jv
        self.bes = np.array([jv(k, dt) for k in range(int(rng.integers(20, 24)))])
        self.seed, self.ns, self.rank, self.nt = int(rng.integers(1, 2000)), int(rng.integers(1, 4)), int(rng.integers(0, 3)), int(rng.integers(2, 7))
        self.chk = int(rng.integers(0, 8))
        self.ham = (self.c.indptr, self.c.indices, self.c.values)
        nz = len(self.c.values)
        self.dx, self.dy = rng.normal(size=nz), rng.normal(size=nz)
        self.resc = float(rng.uniform(0.5, 4))

    def states(self, n=None):
        return [fd.random_state(n or self.n, self.seed * (i + self.rank * self.ns)) for i in range(1, self.ns + 1)]

    def current(self, d):
        m = np.zeros((self.n, self.n), dtype=complex)
        for i in range(self.n):
            for p in range(self.c.indptr[i], self.c.indptr[i + 1]):
                m[i, self.c.indices[p]] += 1j * self.resc * self.c.values[p] * d[p]
        return m

    def step(self, x, fwd=True):
        return fd.step(self.m, self.bes, x, fwd)

    def __str__(self):
        return f"H={self.m.tolist()} coefficients={self.bes.tolist()} seed={self.seed} samples={self.ns} rank={self.rank} steps={self.nt}"


def mean(f, states):
    return sum(f(w) for w in states) / len(states)


def random_states(rng, index):
    n, s = int(rng.integers(1, 30)), int(rng.integers(-5000, 5000))
    fd.threads(1)
    a = fd.random_state(n, s)
    require(abs(np.linalg.norm(a) - 1) < 1e-12, f"random state of {n} elements, seed {s}, has norm {np.linalg.norm(a)}")
    fd.random_state(n, s + 1)
    fd.threads(3)
    require(np.array_equal(a, fd.random_state(n, s)), f"random state of {n} elements with seed {s} is not reproducible")
    fd.threads(1)


def dos(rng, index):
    from tbplas.fortran import f2py
    s = Set(rng)
    got = f2py.tbpm_dos(s.bes, *s.ham, s.seed, s.nt, s.ns, "x", s.rank, s.chk, 1e-6)

    def one(w):
        cur, r = w, []
        for _ in range(s.nt + 1):
            r.append(np.vdot(w, cur))
            cur = s.step(cur)
        return np.array(r)
    ref = mean(one, s.states())
    require(close(got, ref), lambda: f"DOS correlation {got.tolist()} instead of {ref.tolist()} for {s}")
    sites = rng.integers(0, s.n, size=int(rng.integers(1, s.n + 1)))
    got = f2py.tbpm_ldos(sites, s.bes, *s.ham, s.seed, s.nt, s.ns, "x", s.rank, s.chk, 1e-6)
    mask = np.isin(np.arange(s.n), sites)
    ref = mean(one, [(w * mask) / np.linalg.norm(w * mask) for w in s.states()])
    require(close(got, ref), lambda: f"LDOS correlation {got.tolist()} instead of {ref.tolist()} for sites {sites.tolist()} of {s}")


def fermi_op(s, beta, mu, nf, eps):
    """exact coefficients: Chebyshev moments on the FFT grid, Jackson-damped"""
    out = []
    for omf in (False, True):
        e = np.cos(2 * np.pi * np.arange(nf) / nf)
        f = 1 / (1 + np.exp(np.clip(beta * (e - mu), -600, 600)))
        f = 1 - f if omf else f
        half = nf // 2
        mom = np.fft.fft(f).real[:half] / half
        q = np.pi / half
        k = np.arange(half)
        g = ((half - k) * np.cos(q * k) + np.cos(q) / np.sin(q) * np.sin(q * k)) / half
        g[0] = 0.5
        out.append(g * mom)
    return out


def apply_cheb(m, c, x):
    t = fd.cheb(m, x, len(c))
    return sum(a * b for a, b in zip(c, t))


def fermi_coefficients(rng, index):
    nf = 2 ** int(rng.integers(4, 8))
    beta, mu = float(rng.uniform(0.1, 30)), float(rng.uniform(-1.2, 1.2))
    eps = 1e-12
    ref = fermi_op(None, beta, mu, nf, eps)
    for omf in (0, 1):
        c, nc = np.zeros(nf), np.zeros(1, dtype=np.int32)
        fd.lib().vk_fermi_coef(I(nf), D(beta), D(mu), I(omf), D(eps), P(c), P(nc))
        k = int(nc[0])
        require(1 <= k <= nf // 2 and close(c[:k], ref[omf][:k], 1e-10) and np.all(np.abs(ref[omf][k + 1:k + 2]) < 1e-10),
                lambda: f"Fermi coefficients (1-F: {omf}) for beta={beta} mu={mu} n={nf}: {k} terms {c[:k].tolist()} instead of {ref[omf].tolist()}")
    x = rng.normal(size=nf) + 1j * rng.normal(size=nf)
    for sgn in (-1, 1):
        y = x.copy()
        fd.lib().vk_fft(I(nf), P(y), I(sgn))
        r = np.fft.fft(x) if sgn < 0 else np.fft.ifft(x) * nf
        require(close(y, r), f"fft1d_inplace of {nf} values, sign {sgn}")
    n = int(rng.integers(2, 40))
    g = np.zeros(n)
    fd.lib().vk_kernel(I(n), P(g))
    q, k = np.pi / n, np.arange(n)
    r = ((n - k) * np.cos(q * k) + np.cos(q) / np.sin(q) * np.sin(q * k)) / n
    r[0] = 0.5
    require(close(g, r, 1e-12), f"Jackson kernel of {n} terms: {g.tolist()} instead of {r.tolist()}")


def ac_and_pol(rng, index):
    from tbplas.fortran import f2py
    s = Set(rng)
    nf, beta, mu = 2 ** int(rng.integers(4, 8)), float(rng.uniform(0.1, 10)), float(rng.uniform(-1, 1))
    cf, co = fermi_op(s, beta, mu, nf, 1e-12)
    jx, jy = s.current(s.dx), s.current(s.dy)
    got = f2py.tbpm_accond(s.bes, beta, mu, *s.ham, s.resc, s.dx, s.dy, s.seed, s.nt, s.ns, nf, 1e-12, "x", s.rank, s.chk, 10.)

    def ac(w):
        px, py, p2 = apply_cheb(s.m, co, jx @ w), apply_cheb(s.m, co, jy @ w), apply_cheb(s.m, cf, w)
        r = []
        for _ in range(s.nt):
            r.append([np.vdot(p2, jx @ px), np.vdot(p2, jy @ px), np.vdot(p2, jx @ py), np.vdot(p2, jy @ py)])
            px, py, p2 = s.step(px), s.step(py), s.step(p2)
        return np.array(r).T
    ref = mean(ac, s.states())
    require(close(got, ref), lambda: f"AC correlation {got.tolist()} instead of {ref.tolist()} for beta={beta} mu={mu} dx={s.dx.tolist()} dy={s.dy.tolist()} "
                                     f"rescale={s.resc} nf={nf} {s}")
    pos = rng.normal(size=(s.n, 3))
    qs = rng.normal(size=(int(rng.integers(1, 3)), 3))
    got = f2py.tbpm_dyn_pol(s.bes, beta, mu, *s.ham, s.resc, s.dx, s.dy, pos[:, 0].copy(), pos[:, 1].copy(), pos[:, 2].copy(), s.seed, s.nt, s.ns, nf, 1e-12, qs,
                            "x", s.rank, s.chk, 10.)
    ref = []
    for q in qs:
        e = np.exp(1j * pos @ q)

        def dp(w):
            p1, p2, r = apply_cheb(s.m, co, e.conj() * w), apply_cheb(s.m, cf, w), []
            for _ in range(s.nt):
                r.append(np.vdot(p2, e * p1).imag)
                p1, p2 = s.step(p1), s.step(p2)
            return np.array(r)
        ref.append(mean(dp, s.states()))
    require(close(got, ref), lambda: f"polarisation correlation {got.tolist()} instead of {np.array(ref).tolist()} for q={qs.tolist()} positions {pos.tolist()} {s}")


def quasi(s, w, energies, dt):
    """windowed sum over both time directions"""
    out = []
    pos = neg = w
    acc = [w.copy() for _ in energies]
    for t in range(1, s.nt + 1):
        pos, neg = s.step(pos, True), s.step(neg, False)
        win = 0.5 * (1 + math.cos(math.pi * t / s.nt))
        for i, e in enumerate(energies):
            ph = np.exp(1j * e * t * dt)
            acc[i] = acc[i] + win * (ph * pos + ph.conjugate() * neg)
    for a in acc:
        out.append(a / np.linalg.norm(a))
    return out


def eigenstates_and_dc(rng, index):
    from tbplas.fortran import f2py
    s = Set(rng)
    dt = float(rng.uniform(0.2, 2))
    en = rng.uniform(-1, 1, size=int(rng.integers(1, 4)))
    got = f2py.tbpm_eigenstates(s.bes, *s.ham, s.seed, s.nt, s.ns, dt, en, s.rank, s.chk, 1e-6)
    ref = mean(lambda w: np.abs(np.array(quasi(s, w, en, dt))) ** 2, s.states())
    require(close(got, ref), lambda: f"quasi-eigenstates {got.tolist()} instead of {ref.tolist()} at {en.tolist()} dt={dt} for {s}")
    grid = np.sort(rng.uniform(-1, 1, size=5))
    ind = np.unique(rng.integers(0, 5, size=int(rng.integers(1, 4))))
    gd, gc = f2py.tbpm_dccond(s.bes, 1.0, 0.0, *s.ham, s.resc, s.dx, s.dy, s.seed, s.nt, s.ns, dt, grid, ind, "x", "y", s.rank, s.chk, 1e-6)
    jx, jy = s.current(s.dx), s.current(s.dy)

    def one(w):
        qe = quasi(s, w, grid[ind], dt)
        d, cur = [], w
        for _ in range(s.nt):
            cur = s.step(cur)
            d.append(np.vdot(w, cur))
        c = np.zeros((2, 5, s.nt), dtype=complex)
        for a, j in enumerate((jx, jy)):
            v = j @ w
            for t in range(s.nt):
                for i, p in enumerate(qe):
                    c[a, i, t] = np.vdot(v, j @ (p / abs(np.vdot(w, p))))
                v = s.step(v)
        return np.array(d), c
    rs = [one(w) for w in s.states()]
    rd, rc = sum(r[0] for r in rs) / s.ns, sum(r[1] for r in rs) / s.ns
    require(close(gd, rd), lambda: f"DC: DOS correlation {gd.tolist()} instead of {rd.tolist()} for {s}")
    if np.abs(rc).max() < 1e6:
        require(close(gc, rc, 1e-6), lambda: f"DC correlation {gc.tolist()} instead of {rc.tolist()} for energies {grid[ind].tolist()} dt={dt} {s}")


def hall(rng, index):
    from tbplas.fortran import f2py
    s = Set(rng)
    nk = int(rng.integers(2, 7))
    direction = int(rng.integers(1, 3))
    got = f2py.tbpm_kbdc(s.seed, *s.ham, s.resc, s.dx, s.dy, s.ns, nk, direction, s.rank)
    jx, jy = s.current(s.dx), s.current(s.dy)
    jb = jx if direction == 1 else jy
    q, k = np.pi / nk, np.arange(nk)
    g = ((nk - k) * np.cos(q * k) + np.cos(q) / np.sin(q) * np.sin(q * k)) / nk
    g[0] = 0.5

    def one(w):
        r = [jb @ t for t in fd.cheb(s.m, w, nk)]
        l = fd.cheb(s.m, jx @ w, nk)
        return np.array([[g[a] * g[b] * np.vdot(l[a], r[b]) for b in range(nk)] for a in range(nk)])
    ref = mean(one, s.states())
    require(close(got, ref), lambda: f"Hall moments {got.tolist()} instead of {ref.tolist()} for direction {direction}, {nk} kernel terms, {s}")
    ne, beta = int(rng.integers(2, 9)), float(rng.uniform(0.1, 5))
    mus = rng.uniform(-2, 2, size=int(rng.integers(1, 4)))
    mu_mn = rng.normal(size=(nk, nk)) + 1j * rng.normal(size=(nk, nk))
    got = f2py.cond_from_trace(mu_mn, mus, s.resc, beta, ne, 1e-12, 1)
    ref = []
    for mu in mus:
        tot = 0
        for e in np.arange(1, ne) * np.pi / ne:
            a, b = np.meshgrid(k, k, indexing="ij")
            gam = (np.cos(e) - 1j * b * np.sin(e)) * np.cos(a * e) * np.exp(1j * b * e) + (np.cos(e) + 1j * a * np.sin(e)) * np.cos(b * e) * np.exp(-1j * a * e)
            f = 1 / (1 + np.exp(beta * (np.cos(e) * s.resc - mu)))
            tot += np.sum((gam * mu_mn).real) * f * (np.pi / ne) / np.sin(e) ** 3
        ref.append(tot)
    require(close(got, ref), lambda: f"cond_from_trace {got.tolist()} instead of {ref} for mu={mus.tolist()} beta={beta} ne={ne} moments {mu_mn.tolist()}")


def haydock(rng, index):
    from tbplas.fortran import f2py
    s = Set(rng)
    depth, delta, er = int(rng.integers(1, 4)), float(rng.uniform(0.05, 0.5)), float(rng.uniform(1, 8))
    sites = rng.permutation(s.n)[:int(rng.integers(1, s.n + 1))]
    ref_a, ref_b = np.zeros(depth, dtype=complex), np.zeros(depth)
    h = s.resc * s.m
    for i in range(1, s.ns + 1):
        w = np.zeros(s.n, dtype=complex)
        w[sites] = fd.random_state(len(sites), s.seed * i)
        prev, cur, bi = np.zeros(s.n), w, 0.0
        for d in range(depth):
            ai = np.vdot(cur, h @ cur)
            m = h @ cur - ai * cur - bi * prev
            bi = np.linalg.norm(m)
            if bi < 1e-4:
                return
            ref_a[d] += ai / s.ns
            ref_b[d] += bi / s.ns
            prev, cur = cur, m / bi
    ge, gl = f2py.ldos_haydock(sites, delta, er, *s.ham, s.resc, s.seed, depth, s.nt, s.ns, "x")
    e = 0.5 * np.arange(-s.nt, s.nt + 1) * er / s.nt
    require(close(ge, e), f"Haydock energies {ge.tolist()} instead of {e.tolist()}")
    g = np.zeros(len(e), dtype=complex)
    for d in range(depth - 1, -1, -1):
        g = 1 / (e + 1j * delta - ref_a[d] - ref_b[d] ** 2 * g)
    ref = -g.imag / math.pi
    require(close(gl, ref, 1e-6), lambda: f"Haydock LDOS {gl.tolist()} instead of {ref.tolist()} for sites {sites.tolist()} depth {depth} delta {delta} range {er} factor {s.resc} {s}")


class FakeSample:
    def __init__(self, rng):
        self.rescale = float(rng.uniform(0.5, 5))
        self.energy_range = 2 * self.rescale
        self.nr_orbitals = int(rng.integers(1, 9))
        self.area_unit_cell, self.volume_unit_cell, self.extended = float(rng.uniform(0.1, 3)), float(rng.uniform(0.1, 3)), 1.0


def analysis(rng, index):
    import tbplas as tb
    s = FakeSample(rng)
    cfg = tb.Config()
    nt = int(rng.integers(2, 9))
    cfg.generic["nr_time_steps"] = nt
    cfg.generic["correct_spin"] = bool(rng.integers(0, 2))
    cfg.generic["beta"] = float(rng.uniform(0.1, 3))
    spin = 2 if cfg.generic["correct_spin"] else 1
    dim = int(rng.integers(2, 4))
    size = s.area_unit_cell if dim == 2 else s.volume_unit_cell
    lo = float(rng.uniform(-1, 0)) * s.rescale
    cfg.DC_conductivity["energy_limits"] = (lo, lo + float(rng.uniform(0.5, 1.5)) * s.rescale)
    if index % 3 == 0:
        # both limits exactly on grid points (powers of two: the grid is exact), which are part of the range
        nt, er = 2 ** int(rng.integers(1, 4)), 2. ** int(rng.integers(1, 5))
        cfg.generic["nr_time_steps"], s.energy_range, s.rescale = nt, er, er / 2
        a, b = sorted(int(x) for x in rng.integers(0, 2 * nt, size=2))
        lo = a * er / (2 * nt) - er / 2
        cfg.DC_conductivity["energy_limits"] = (lo, b * er / (2 * nt) - er / 2)
    qs = rng.normal(size=(int(rng.integers(1, 3)), 3))
    if rng.random() < 0.3:
        qs[0] = 0
    cfg.dyn_pol.update(q_points=qs.tolist(), coulomb_constant=float(rng.uniform(0.5, 2)), background_dielectric_constant=float(rng.uniform(1, 3)))
    an = tb.Analyzer(s, cfg, dimension=dim)
    hann = lambda k: 0.5 * (1 + np.cos(np.pi * k / nt))
    wexp = lambda k: np.exp(-2. * (k / nt) ** 2)
    wten = lambda k: 10. ** (-2. * (k / nt) ** 2)
    info = f"steps {nt} range {s.energy_range} dim {dim} spin {spin}"
    # DOS
    corr = rng.normal(size=nt + 1) + 1j * rng.normal(size=nt + 1)
    corr[0] = 1
    egrid = 0.5 * np.arange(2 * nt) * s.energy_range / nt - s.energy_range / 2
    de = 0.5 * s.energy_range / nt

    def dos_of(c):
        full = np.zeros(2 * nt, dtype=complex)
        full[nt - 1] = c[0]
        for t in range(1, nt):
            full[nt - 1 + t] = hann(t - 1) * c[t]
            full[nt - 1 - t] = hann(t - 1) * c[t].conjugate()
        full[2 * nt - 1] = hann(nt - 1) * c[nt]
        f = np.abs(np.array([np.sum(full * np.exp(2j * np.pi * np.arange(2 * nt) * m / (2 * nt))) for m in range(-nt, nt)]))
        return spin * f / (f.sum() * de)
    for fn in (an.calc_dos, an.calc_ldos):
        e, d = fn(corr.copy())
        r = dos_of(corr)
        require(close(e, egrid) and close(d, r), lambda: f"{fn.__name__}({corr.tolist()}) with {info}: {e.tolist()} {d.tolist()} instead of {r.tolist()}")
    # AC
    om = np.arange(nt) * s.energy_range / nt
    ts = math.pi / s.energy_range
    c = rng.normal(size=(4, nt)) + 1j * rng.normal(size=(4, nt))
    go, ga = an.calc_ac_cond(c.copy())
    k = np.arange(nt)
    re = np.zeros((4, nt))
    for i in range(1, nt):
        re[:, i] = s.nr_orbitals / size * ts * (2 * wexp(k + 1) * np.sin(om[i] * k * ts) * c.imag).sum(axis=1) * (math.exp(-cfg.generic["beta"] * om[i]) - 1) / om[i]
    require(close(go, om) and close(np.asarray(ga).real, spin * re), lambda: f"calc_ac_cond({c.tolist()}) with {info}: real part {np.real(ga).tolist()} instead of {(spin * re).tolist()}")
    # dynamical polarisation
    c = rng.normal(size=(len(qs), nt))
    gq, go, gd = an.calc_dyn_pol(c.copy())
    r = spin * 2 * s.nr_orbitals / size * ts * np.array([[np.sum(wten(k + 1) * row * np.exp(1j * k * ts * w)) for w in om] for row in c])
    require(close(gq, qs) and close(go, om) and close(gd, r), lambda: f"calc_dyn_pol({c.tolist()}) with {info}: {gd.tolist()} instead of {r.tolist()}")
    ge = an.calc_epsilon(gd)
    from tbplas.base import EPSILON0
    for i, q in enumerate(qs):
        n = np.linalg.norm(q)
        v = 0 if n == 0 else cfg.dyn_pol["coulomb_constant"] / (EPSILON0 * cfg.dyn_pol["background_dielectric_constant"]) * (2 * math.pi / n if dim == 2 else 4 * math.pi / n ** 2)
        require(close(ge[i], 1 - v * gd[i]), lambda: f"calc_epsilon at q={q.tolist()} {info}: {ge[i].tolist()} instead of {(1 - v * gd[i]).tolist()}")
    # DC
    sel = np.where((egrid >= lo) & (egrid <= cfg.DC_conductivity["energy_limits"][1]))[0]
    c = rng.normal(size=(2, 2 * nt, nt)) + 1j * rng.normal(size=(2, 2 * nt, nt))
    cd = rng.normal(size=nt) + 1j * rng.normal(size=nt)
    ge, gd = an.calc_dc_cond(cd.copy(), c.copy())
    td = 2 * math.pi / s.energy_range
    dd = dos_of(np.insert(cd, 0, 1.0))
    r = np.array([[spin * s.nr_orbitals / size * td * dd[j] * np.sum(wexp(k + 1) * (np.exp(-1j * k * td * egrid[j]) * c[a, n]).real) for n, j in enumerate(sel)] for a in range(2)])
    require(close(ge, egrid[sel]) and close(gd, r.reshape(2, len(sel))), lambda: f"calc_dc_cond with {info}: {gd.tolist()} instead of {r.tolist()}")
    try:
        gt, gf = an.calc_diff_coeff(c.copy())
    except AttributeError:
        gt = None
    if gt is not None:
        for a in range(2):
            for n, j in enumerate(sel):
                y = wexp(k + 1) * (np.exp(-1j * k * td * egrid[j]) * c[a, n]).real
                r = np.array([sum((y[t] + y[t + 1]) * td / 2 for t in range(m)) for m in range(nt)])
                require(close(gt, k * td) and close(gf[a, n], r), lambda: f"calc_diff_coeff at energy {egrid[j]} with {info}: {gf[a, n].tolist()} instead of {r.tolist()}")


class Recorder:
    """stands in for f2py and records the arguments of the Fortran calls"""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        def f(*a):
            self.calls.append((name, a))
            nt = 3
            return {"tbpm_dccond": (np.zeros(nt), np.zeros((2, 2, nt))), "ldos_haydock": (np.zeros(7), np.zeros(7))}.get(name, np.zeros((2, nt)))
        return f


def solver_calls(rng, index):
    """the Solver hands the current model, scaling, time step and configuration to the Fortran routine, each argument in its place"""
    import tempfile
    import tbplas as tb
    import tbplas.tbpm.solver as sm
    from scipy.special import jv
    m = gen.rand_sc(rng, maxorb=2, big=1)
    sample = tb.Sample(m['sc'])
    sample.rescale_ham(None if rng.random() < 0.5 else float(rng.uniform(5, 30)))
    cfg = tb.Config()
    g = cfg.generic
    g.update(nr_time_steps=int(rng.integers(3, 9)), nr_random_samples=int(rng.integers(1, 5)), seed=int(rng.integers(1, 999)), beta=float(rng.uniform(1, 40)),
             mu=float(rng.normal()), wfn_check_steps=int(rng.integers(1, 99)), wfn_check_thr=float(rng.uniform(1e-9, 1e-6)), nr_Fermi_fft_steps=2 ** int(rng.integers(4, 9)),
             Fermi_cheb_precision=float(rng.uniform(1e-12, 1e-10)))
    cfg.LDOS.update(site_indices=[int(x) for x in rng.integers(0, 4, size=2)], delta=float(rng.uniform(0.01, 0.1)), recursion_depth=int(rng.integers(3, 30)))
    cfg.dckb.update(n_kernel=int(rng.integers(4, 30)), direction=int(rng.integers(1, 3)))
    cfg.quasi_eigenstates["energies"] = rng.normal(size=3).tolist()
    cfg.dyn_pol["q_points"] = rng.normal(size=(2, 3)).tolist()
    lim = cfg.DC_conductivity["energy_limits"] = (-1.0, 2.0)
    if index % 3 == 0:
        sample = tb.Sample(m['sc'])
        sample.rescale_ham(2. ** int(rng.integers(3, 6)))
        N, er = 2 ** int(rng.integers(2, 4)), sample.energy_range
        g["nr_time_steps"] = N
        a, b = sorted(int(x) for x in rng.integers(0, 2 * N, size=2))
        lim = cfg.DC_conductivity["energy_limits"] = (a * er / (2 * N) - er / 2, b * er / (2 * N) - er / 2)
    rec, old = Recorder(), sm.f2py
    with tempfile.TemporaryDirectory() as d:
        sv = tb.Solver(sample, cfg, echo_details=False, directory=d, prefix="t")
        sm.f2py = rec
        try:
            sv.calc_corr_dos(), sv.calc_corr_ldos(), sv.calc_corr_ac_cond(), sv.calc_corr_dyn_pol(), sv.calc_corr_dc_cond(), sv.calc_hall_mu()
            sv.calc_quasi_eigenstates(), sv.calc_ldos_haydock()
            psi = rng.normal(size=len(sample.orb_eng)) + 1j * rng.normal(size=len(sample.orb_eng))
            tl, dts = [0, int(g["nr_time_steps"]), 1], float(rng.uniform(0.3, 1.5))
            sv.calc_psi_t(psi, tl, dt_scale=dts)
        finally:
            sm.f2py = old
    calls = dict(rec.calls)
    er, re = sample.energy_range, sample.rescale
    require(abs(er - 2 * re) < 1e-9 * re, f"energy range {er} is not twice the scaling factor {re}")
    h = sample.build_ham_csr()
    ip, ix, hop, dx, dy = sample.build_ham_dxy()

    def bes(t):
        out, k = [], 0
        while True:
            a, b = jv(k, t * re), jv(k + 1, t * re)
            if abs(a) <= g["Bessel_precision"] and abs(b) <= g["Bessel_precision"]:
                return np.array(out)
            out.append(a)
            k += 1
    t1 = 2 * math.pi / er
    ham = [h.indptr, h.indices, h.data]
    dxy = [ip, ix, hop]
    chk = [g["wfn_check_steps"], g["wfn_check_thr"]]
    br, mr = g["beta"] * re, g["mu"] / re
    S, N, R = g["seed"], g["nr_time_steps"], g["nr_random_samples"]
    eg = 0.5 * np.arange(2 * N) * er / N - er / 2
    sel = np.where((eg >= lim[0]) & (eg <= lim[1]))[0]
    pos = np.asarray(sample.orb_pos)
    want = {
        "tbpm_dos": [bes(t1)] + ham + [S, N, R, None, 0] + chk,
        "tbpm_ldos": [cfg.LDOS["site_indices"], bes(t1)] + ham + [S, N, R, None, 0] + chk,
        "tbpm_accond": [bes(t1 / 2), br, mr] + dxy + [re, dx, dy, S, N, R, g["nr_Fermi_fft_steps"], g["Fermi_cheb_precision"], None, 0] + chk,
        "tbpm_dyn_pol": [bes(t1 / 2), br, mr] + dxy + [re, dx, dy, pos[:, 0], pos[:, 1], pos[:, 2], S, N, R, g["nr_Fermi_fft_steps"], g["Fermi_cheb_precision"],
                                                       cfg.dyn_pol["q_points"], None, 0] + chk,
        "tbpm_dccond": [bes(t1), br, mr] + dxy + [re, dx, dy, S, N, R, t1, eg, sel, None, None, 0] + chk,
        "tbpm_kbdc": [S] + dxy + [re, dx, dy, R, cfg.dckb["n_kernel"], cfg.dckb["direction"], 0],
        "tbpm_eigenstates": [bes(t1)] + ham + [S, N, R, t1, cfg.quasi_eigenstates["energies"], 0] + chk,
        "ldos_haydock": [cfg.LDOS["site_indices"], cfg.LDOS["delta"], er] + ham + [re, S, cfg.LDOS["recursion_depth"], N, R, None],
        "tbpm_psi_t": [bes(t1 * dts)] + ham + [psi / np.linalg.norm(psi), sorted(set(tl)), N] + chk,
    }
    for name, w in want.items():
        if name not in calls:
            continue
        got = calls[name]
        if len(got) != len(w):
            continue
        for n, (a, b) in enumerate(zip(got, w)):
            if b is None:
                continue
            a, b = np.asarray(a), np.asarray(b)
            require(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12), lambda: f"{name}: argument {n} is {a.tolist()} instead of {b.tolist()} "
                                                                         f"(rescale {re}, config {g})")


CASES = [("random_states", random_states), ("dos", dos), ("fermi_coefficients", fermi_coefficients), ("ac_and_pol", ac_and_pol),
         ("eigenstates_and_dc", eigenstates_and_dc), ("hall", hall), ("haydock", haydock), ("analysis", analysis), ("solver_calls", solver_calls)]
