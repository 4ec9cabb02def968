"""P19 k-mesh, k+q map and wrapping"""
import math
import numpy as np
from vk.search import require
from props import gen, k_lind, k_super

ASSUMPTIONS = ["wrap_grid, wrap_frac and the unit conversions of the solver stay bounded"]
BOUNDED_NOTE = "all meshes up to 6x6x6 in turn, q-points with components in -20..20, fractional coordinates in -5..5 including exact cell boundaries"


def proofs(src):
    return k_lind.tasks(src, ["build_kmesh_grid", "build_kq_map"]) + k_super.lemma_tasks()


def mesh(rng):
    return tuple(int(x) for x in rng.integers(1, 7, size=3))


def solver(rng, size):
    t = gen.tb()
    lat = gen.rand_lat(rng)
    pc = t.PrimitiveCell(lat, unit=t.NM)
    pc.add_orbital((0.0, 0.0, 0.0), 0.1)
    pc.add_hopping((1, 0, 0), 0, 0, -1.0)
    return t.Lindhard(pc, size, energy_step=2, echo_details=False), lat


def grid(rng, index):
    from tbplas.cython import lindhard as core
    n = mesh(rng)
    g = np.asarray(core.build_kmesh_grid(np.array(n, dtype=np.int64)))
    require(g.shape == (n[0] * n[1] * n[2], 3), f"mesh {n}: shape {g.shape}")
    for i, (a, b, c) in enumerate(g.tolist()):
        require((a * n[1] + b) * n[2] + c == i and 0 <= b < n[1] and 0 <= c < n[2], f"mesh {n}: point {i} is {(a, b, c)}")


def kq(rng, index):
    from tbplas.cython import lindhard as core
    n = mesh(rng)
    size = np.array(n, dtype=np.int64)
    g = np.array([[a, b, c] for a in range(n[0]) for b in range(n[1]) for c in range(n[2])], dtype=np.int64)
    q = rng.integers(-20, 21, size=3).astype(np.int64)
    g0, q0 = g.copy(), q.copy()
    m = np.asarray(core.build_kq_map(size, g, q))
    require(np.array_equal(g, g0) and np.array_equal(q, q0) and tuple(size) == n, "arguments changed")
    require(len(m) == len(g), "length of the map")
    require(sorted(m.tolist()) == list(range(len(g))), f"mesh {n}, q {q.tolist()}: not a permutation: {m.tolist()}")
    for i in range(len(g)):
        w = (g[i] + q) % size
        require(g[m[i]].tolist() == w.tolist(), f"mesh {n}, q {q.tolist()}: k {g[i].tolist()} is mapped to {g[m[i]].tolist()} instead of {w.tolist()}")


def wrapping(rng, index):
    n = mesh(rng)
    s, lat = solver(rng, n)
    num = int(rng.integers(1, 6))
    k = rng.integers(-25, 26, size=(num, 3))
    k0 = k.copy()
    w = s.wrap_grid(k)
    require(np.array_equal(k, k0), "argument changed")
    require(np.all(w >= 0) and np.all(w < np.array(n)) and np.all((w - k) % np.array(n) == 0), f"wrap_grid({k.tolist()}) on {n}: {w.tolist()}")
    require(np.array_equal(s.wrap_grid(k.tolist()), w), "list of grid points")
    x = rng.uniform(-5, 5, size=(num, 3))
    if rng.random() < 0.5:
        x = np.round(x * 4) / 4
    x0 = x.copy()
    y = s.wrap_frac(x)
    require(np.array_equal(x, x0), "argument changed")
    d = y - x
    require(np.all(y >= 0) and np.all(y < 1) and np.max(np.abs(d - np.round(d))) < 1e-9, f"wrap_frac({x.tolist()}): {y.tolist()}")
    require(np.allclose(s.wrap_frac(x.tolist()), y), "list of fractional points")


def units(rng, index):
    t = gen.tb()
    n = mesh(rng)
    s, lat = solver(rng, n)
    num = int(rng.integers(1, 6))
    g = rng.integers(-12, 13, size=(num, 3))
    f = s.grid2frac(g)
    require(gen.close(f, g / np.array(n), 1e-12), f"grid2frac({g.tolist()}) on {n}: {f.tolist()}")
    require(gen.close(s.grid2frac(g.tolist()), f, 1e-12), "list of grid points")
    rec = 2 * math.pi * np.linalg.inv(lat).T
    for unit, scale in ((t.NM, 1.0), (t.ANG, 0.1)):
        # reciprocal coordinates in 1/nm or 1/angstrom
        c = s.frac2cart(f, unit=unit)
        require(gen.close(c, f @ rec * scale, 1e-7), f"frac2cart: {c.tolist()} instead of {(f @ rec * scale).tolist()} (unit {unit})")
        require(gen.close(s.cart2frac(c, unit=unit), f, 1e-7), "cart2frac does not undo frac2cart")
        require(gen.close(s.grid2cart(g, unit=unit), c, 1e-7), "grid2cart")
        require(gen.close(s.frac2cart(f.tolist(), unit=unit), c, 1e-9) and gen.close(s.cart2frac(c.tolist(), unit=unit), f, 1e-7)
                and gen.close(s.grid2cart(g.tolist(), unit=unit), c, 1e-7), "lists of points")


CASES = [("grid", grid), ("kq", kq), ("wrapping", wrapping), ("units", units)]
