"""P14: parallel runs distribute every task exactly once"""
import contextlib
import io
import numpy as np
from vk.search import require
from props import gen, fakempi

LEVEL = "exploration"
ASSUMPTIONS = ["MPI collectives are replaced by an in-process stand-in with MPI's semantics (sum of the contributions of all ranks)"]
BOUNDED_NOTE = "task counts 0..40 and 1..9 processes exhaustively per index; distributed calculations with 1..5 ranks compared with the serial run"


def proofs(src):
    return []


def pieces(rng, index):
    from tbplas.utils import split_range, split_list
    from tbplas.parallel import MPIEnv
    n, g = int(rng.integers(0, 60)), int(rng.integers(1, 12))
    rs = [list(r) for r in split_range(n, num_group=g)]
    require(len(rs) == g and sum(rs, []) == list(range(n)), lambda: f"split_range({n}, {g}) = {rs}")
    require(max(map(len, rs)) - min(map(len, rs)) <= 1, lambda: f"split_range({n}, {g}): sizes {list(map(len, rs))}")
    if n >= g:
        raw = [f"t{i}" for i in range(n)]
        for alg in ("range", "remainder"):
            ls = split_list(raw, g, alg)
            require(len(ls) == g and sorted(sum(ls, [])) == sorted(raw), lambda: f"split_list({n}, {g}, {alg}) = {ls}")
            require(max(map(len, ls)) - min(map(len, ls)) <= 1, lambda: f"split_list({n}, {g}, {alg}): sizes")
            for x in ls:
                num = [int(y[1:]) for y in x]
                require(num == sorted(num), lambda: f"split_list({n}, {g}, {alg}): order of {x}")
            if alg == "range":
                require(sum(ls, []) == raw, lambda: f"split_list({n}, {g}, range) not contiguous: {ls}")

    def body():
        m = MPIEnv(enable_mpi=True)
        out = [m.rank, m.size, list(m.dist_range(n)), m.dist_bound(n)]
        if n >= g:
            out += [m.dist_list(list(range(n))), m.dist_list(list(range(n)), "remainder")]
        return out
    res = fakempi.run(g, body)
    require([r[0] for r in res] == list(range(g)) and all(r[1] == g for r in res), "rank and size")
    require(sum((r[2] for r in res), []) == list(range(n)), lambda: f"dist_range({n}) with {g} processes: {[r[2] for r in res]}")
    require(sum((list(range(r[3][0], r[3][1] + 1)) for r in res), []) == list(range(n)),
            lambda: f"dist_bound({n}) with {g} processes: {[r[3] for r in res]}")
    if n >= g:
        require(sum((r[4] for r in res), []) == list(range(n)), lambda: f"dist_list({n}) with {g} processes")
        require(sorted(sum((r[5] for r in res), [])) == list(range(n)), lambda: f"dist_list({n}, remainder) with {g} processes")


def reductions(rng, index):
    from tbplas.parallel import MPIEnv
    g = int(rng.integers(1, 6))
    shape = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(1, 4))))
    order = "CF"[int(rng.integers(0, 2))]
    cplx = bool(rng.integers(0, 2))
    data = [np.array(rng.normal(size=shape) + (1j * rng.normal(size=shape) if cplx else 0), order=order) for _ in range(g)]

    def body():
        m = MPIEnv(enable_mpi=True)
        d = data[m.rank].copy(order=order)
        b = d.copy(order=order)
        out = [m.all_reduce(d), m.all_average(d), m.reduce(d), m.average(d)]
        m.bcast(b)
        require(np.array_equal(d, data[m.rank]), "reduction changed its argument")
        return out + [b, m.is_master]
    res = fakempi.run(g, body)
    tot = sum(data)
    for r, x in enumerate(res):
        require(gen.close(x[0], tot), lambda: f"all_reduce with {g} processes, order {order}, shape {shape}")
        require(gen.close(x[1], tot / g), lambda: f"all_average with {g} processes, order {order}")
        if r == 0:
            require(gen.close(x[2], tot) and gen.close(x[3], tot / g), lambda: f"reduce/average with {g} processes, order {order}")
        require(gen.close(x[4], data[0]), "bcast")
        require(x[5] == (r == 0), "is_master")
    m = MPIEnv(enable_mpi=False)
    require(gen.close(m.all_reduce(data[0]), data[0]) and gen.close(m.all_average(data[0]), data[0]) and list(m.dist_range(7)) == list(range(7))
            and m.dist_bound(7) == (0, 6) and m.dist_list([1, 2, 3]) == [1, 2, 3] and m.size == 1 and m.rank == 0, "serial environment")


def agree(serial, par, what):
    for r, x in enumerate(par):
        for n, (a, b) in enumerate(zip(serial, x)):
            require(gen.close(np.asarray(b), np.asarray(a), 1e-7), lambda: f"{what}: result {n} on rank {r} of {len(par)} differs from the serial run: "
                    f"{np.asarray(b).ravel()[:6]} instead of {np.asarray(a).ravel()[:6]}")


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def bands(rng, index):
    t = gen.tb()
    pc, _ = gen.rand_pc(rng, norb=int(rng.integers(2, 4)), nhop=4)
    g = int(rng.integers(1, 6))
    k = rng.uniform(-0.5, 0.5, (int(rng.integers(1, 8)), 3))
    orb = [0]

    def calc(mpi):
        s = t.DiagSolver(pc, enable_mpi=mpi, echo_details=False)
        b = s.calc_bands(k, orbital_indices=orb)
        b2 = s.calc_bands(k)
        d = s.calc_dos(k, e_min=-5, e_max=5, e_step=0.5, sigma=0.3, orbital_indices=orb)
        st = s.calc_states(k)
        dens = np.abs(np.einsum("kbo,kbp->kop", st[1] * st[0][:, :, None], st[1].conj()))
        return [b.k_len, b.bands, b.proj, b2.bands, b2.proj, d[0], d[1], st[0], dens]
    agree(calc(False), fakempi.run(g, lambda: calc(True)), f"bands/DOS/states with {len(k)} k-points")


def response(rng, index):
    t = gen.tb()
    pc, _ = gen.rand_pc(rng, norb=2, nhop=3, dims=2)
    g = int(rng.integers(1, 5))
    mesh = (int(rng.integers(1, 4)), int(rng.integers(1, 4)), 1)
    q = rng.integers(-2, 3, (int(rng.integers(1, 4)), 3))
    q[:, 2] = 0
    qc = rng.uniform(0.1, 1, q.shape)
    fort = bool(index % 2)

    def calc(mpi):
        s = t.Lindhard(pc, mesh, energy_min=0.1, energy_max=3, energy_step=4, mu=0.1, temperature=3000.0, dimension=2, delta=0.1, enable_mpi=mpi, echo_details=False)
        return [s.calc_dyn_pol_regular(q, use_fortran=fort)[1], s.calc_dyn_pol_arbitrary(qc, use_fortran=fort)[1],
                s.calc_ac_cond("xy", use_fortran=fort)[1], s.calc_ac_cond("xx", use_fortran=fort)[1]]
    agree(calc(False), fakempi.run(g, lambda: calc(True)), f"Lindhard mesh={mesh} {len(q)} q-points fortran={fort}")


def textures(rng, index):
    t = gen.tb()
    pc, _ = gen.rand_pc(rng, norb=4, nhop=8, dims=2)
    g = int(rng.integers(1, 5))
    k = rng.uniform(-0.5, 0.5, (int(rng.integers(1, 6)), 3))
    na, nb = int(rng.integers(2, 6)), int(rng.integers(2, 6))

    def calc(mpi):
        s = t.SpinTexture(pc, k, spin_major=bool(index % 2), enable_mpi=mpi, echo_details=False)
        out = [s.eval(c) for c in ("x", "y", "z")]
        z = t.Z2(pc, num_occ=2, enable_mpi=mpi, echo_details=False)
        ph = z.calc_phases(np.linspace(-0.5, 0.5, na), np.linspace(0, 0.5, nb))[1]
        return [np.cos(ph).sum(axis=1), np.sin(ph).sum(axis=1)] + [np.asarray(x) for x in out]
    agree(calc(False), fakempi.run(g, lambda: calc(True)), f"spin texture / Z2 phases with {len(k)} k-points")


def samples(rng, index):
    """every process gets the same number of samples, at least as many in total as requested"""
    t = gen.tb()
    from tbplas.tbpm.solver import Solver
    from tbplas import Config
    m = gen.rand_sc(rng, big=0)
    sa = t.Sample(m["sc"])
    g, n = int(rng.integers(1, 7)), int(rng.integers(1, 20))

    def body():
        cfg = Config()
        cfg.generic["nr_random_samples"] = n
        s = Solver(sa, cfg, enable_mpi=True, echo_details=False)
        return s._dist_sample(), cfg.generic["nr_random_samples"], s.rank
    res = quiet(lambda: fakempi.run(g, body))
    c = [r[0] for r in res]
    require(len(set(c)) == 1 and n <= sum(c) < n + g, lambda: f"{n} samples over {g} processes: {c}")
    require(all(r[1] == sum(c) for r in res), lambda: f"nr_random_samples {[r[1] for r in res]} but {sum(c)} samples are run")


CASES = [("pieces", pieces), ("reductions", reductions), ("bands", bands), ("response", response), ("textures", textures), ("samples", samples)]
