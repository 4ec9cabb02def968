"""P18 lattice, coordinate and k-point utilities"""
import math
import numpy as np
from vk.search import require
from props import k_base
from props.k_builder import as_tasks

ASSUMPTIONS = ["numpy.linalg.inv and numpy.linalg.solve: M inv(M) = 1, M solve(M, b) = b (assumed contracts)",
               "numpy.sqrt, cos, sin, arccos: the mathematical functions; floats as real numbers",
               "gen_kpath stays bounded (list-dependent reshaping)"]
BOUNDED_NOTE = ("random non-singular lattices (lengths 1e-2..1e2, left- and right-handed), 1..6 coordinates, shifted origins, random "
                "angles; meshes up to 5x5x5; paths with up to 5 vertices and 1..6 intermediate points")


def proofs(src):
    return as_tasks(k_base.lattice(src)) + as_tasks(k_base.kpoints(src))


def lattice(rng):
    while True:
        a = rng.normal(size=(3, 3)) * 10.0 ** rng.uniform(-1, 1)
        if rng.random() < 0.3:
            a = np.diag(rng.uniform(0.3, 3, size=3)) + np.triu(rng.normal(size=(3, 3)), 1) * (rng.random() < 0.5)
        if abs(np.linalg.det(a)) > 0.05 * np.prod(np.linalg.norm(a, axis=1)):
            return a


def near(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a.size == 0 or np.max(np.abs(a - b)) <= tol * max(1.0, np.max(np.abs(b))))


def conversions(rng, index):
    from tbplas.base import lattice as lt
    a = lattice(rng)
    n = int(rng.integers(1, 7))
    x = rng.normal(size=(n, 3)) * 3
    o = rng.normal(size=3) * (rng.random() < 0.7)
    a0, x0 = a.copy(), x.copy()
    c = lt.frac2cart(a, x, origin=o)
    require(near(c, x @ a + o), f"frac2cart: {c.tolist()} instead of {(x @ a + o).tolist()}; lattice {a.tolist()} coordinates {x.tolist()} origin {o.tolist()}")
    require(near(lt.cart2frac(a, c, origin=o), x, 1e-7), "cart2frac does not undo frac2cart")
    f = lt.cart2frac(a, x, origin=o)
    require(near(f @ a + o, x, 1e-7), f"cart2frac: {f.tolist()} for {x.tolist()} lattice {a.tolist()} origin {o.tolist()}")
    require(near(lt.frac2cart(a, f, origin=o), x, 1e-7), "frac2cart does not undo cart2frac")
    require(near(lt.frac2cart(a, x), x @ a), "frac2cart without origin")
    require(near(lt.cart2frac(a, x @ a), x, 1e-7), "cart2frac without origin")
    require(np.array_equal(a, a0) and np.array_equal(x, x0), "arguments changed")
    # sequences are accepted like arrays
    require(near(lt.cart2frac(a.tolist(), x.tolist()), lt.cart2frac(a, x)), "cart2frac of lists")
    require(near(lt.frac2cart(a.tolist(), x.tolist()), lt.frac2cart(a, x)), "frac2cart of lists")
    xi = rng.integers(-5, 6, size=(n, 3))
    require(near(lt.frac2cart(a, xi), xi @ a), "frac2cart of integer coordinates")
    require(near(lt.cart2frac(a, xi), np.linalg.solve(a.T, xi.T).T, 1e-7), "cart2frac of integer coordinates")


def reciprocal(rng, index):
    from tbplas.base import lattice as lt
    a = lattice(rng)
    b = lt.gen_reciprocal_vectors(a)
    require(near(a @ b.T, 2 * math.pi * np.eye(3), 1e-7), f"a_i.b_j = {(a @ b.T).tolist()} for lattice {a.tolist()}")
    v = lt.get_lattice_volume(a)
    require(abs(v - abs(np.linalg.det(a))) <= 1e-9 * abs(v), f"volume {v} of lattice {a.tolist()}, determinant {np.linalg.det(a)}")
    for d, (i, j) in (("a", (1, 2)), ("b", (2, 0)), ("c", (0, 1))):
        s = lt.get_lattice_area(a, d)
        w = math.sqrt(max(0.0, np.dot(a[i], a[i]) * np.dot(a[j], a[j]) - np.dot(a[i], a[j]) ** 2))
        require(abs(s - w) <= 1e-6 * w, f"area along {d}: {s}, expected {w} for {a.tolist()}")
    require(near(lt.get_lattice_area(a), lt.get_lattice_area(a, "c")), "default direction of the area")
    try:
        lt.get_lattice_area(a, "d")
    except ValueError:
        return
    require(False, "illegal direction accepted")


def lengths(rng, index):
    from tbplas.base import lattice as lt
    a, b, c = rng.uniform(0.05, 20, size=3)
    while True:
        al, be, ga = rng.uniform(25, 155, size=3) if rng.random() < 0.7 else rng.choice([60.0, 90.0, 120.0, 45.0], size=3)
        x, y, z = (math.cos(math.radians(q)) for q in (al, be, ga))
        if 1 + 2 * x * y * z - x * x - y * y - z * z > 1e-3:
            break
    v = lt.gen_lattice_vectors(a, b, c, al, be, ga)
    what = f"gen_lattice_vectors({a}, {b}, {c}, {al}, {be}, {ga})"
    g = v @ v.T
    want = np.array([[a * a, a * b * z, a * c * y], [a * b * z, b * b, b * c * x], [a * c * y, b * c * x, c * c]])
    require(np.max(np.abs(g - want)) < 1e-8 * np.max(want), f"{what}: metric {g.tolist()} instead of {want.tolist()}")
    require(np.linalg.det(v) > 0, f"{what}: left-handed")
    require(v[0, 1] == 0 and v[0, 2] == 0 and v[1, 2] == 0, f"{what}: orientation")


def rotation(rng, index):
    from tbplas.base import lattice as lt
    n = int(rng.integers(1, 6))
    x = rng.normal(size=(n, 3)) * 2
    if rng.random() < 0.3:
        x = rng.integers(-4, 5, size=(n, 3))
    ang, cen = rng.uniform(-7, 7), rng.normal(size=3)
    ax = "xyz"[rng.integers(3)]
    x0 = x.copy()
    r = lt.rotate_coord(x, angle=ang, axis=ax, center=cen)
    require(np.array_equal(x, x0), "argument changed")
    k = "xyz".index(ax)
    i, j = (k + 1) % 3, (k + 2) % 3
    d = x - cen
    w = np.zeros((n, 3))
    w[:, k] = d[:, k]
    w[:, i] = math.cos(ang) * d[:, i] - math.sin(ang) * d[:, j]
    w[:, j] = math.sin(ang) * d[:, i] + math.cos(ang) * d[:, j]
    require(near(r, w + cen), f"rotate_coord({x.tolist()}, {ang}, {ax}, {cen.tolist()}) = {r.tolist()} expected {(w + cen).tolist()}")
    for bad in ("w", "", "X"):
        try:
            lt.rotate_coord(x, axis=bad)
        except ValueError:
            continue
        require(False, f"axis {bad!r} accepted")


def meshes(rng, index):
    from tbplas.base import kpoints as kp
    g = tuple(int(q) for q in rng.integers(1, 6, size=3))
    m = kp.gen_kmesh(g)
    w = np.array([[i / g[0], j / g[1], k / g[2]] for i in range(g[0]) for j in range(g[1]) for k in range(g[2])])
    require(near(m, w, 1e-12), f"gen_kmesh({g}): {m.tolist()[:8]}")


def paths(rng, index):
    from tbplas.base import kpoints as kp
    nv = int(rng.integers(2, 6))
    v = rng.uniform(-1, 1, size=(nv, 3))
    ni = [int(q) for q in rng.integers(1, 7, size=nv - 1)]
    if rng.random() < 0.3:
        ni = tuple(ni)
    elif rng.random() < 0.3:
        ni = np.array(ni)
    k, idx = kp.gen_kpath(v, ni)
    n = [int(q) for q in ni]
    require(k.shape == (sum(n) + 1, 3), f"path of {k.shape} points for {n}")
    pos = 0
    require(len(idx) == nv, "number of vertices")
    for s in range(nv):
        require(int(idx[s]) == pos, f"vertex {s} at {idx[s]} instead of {pos} for {n}")
        require(near(k[pos], v[s], 1e-12), f"vertex {s} is {k[pos].tolist()} instead of {v[s].tolist()}")
        if s < nv - 1:
            for j in range(n[s]):
                require(near(k[pos + j], v[s] + (v[s + 1] - v[s]) * (j / n[s]), 1e-12), f"point {j} of segment {s} for {n}")
            pos += n[s]
    a = lattice(rng)
    d = kp.gen_kdist(a, k)
    b = 2 * math.pi * np.linalg.inv(a).T
    c = k @ b
    w = np.concatenate([[0.0], np.cumsum(np.linalg.norm(np.diff(c, axis=0), axis=1))])
    require(near(d, w, 1e-7), f"distances {d.tolist()} instead of {w.tolist()}")
    for bad in (n + [2], n[:-1]):
        try:
            kp.gen_kpath(v, bad)
        except ValueError:
            continue
        require(False, "wrong number of segments accepted")


CASES = [("conversions", conversions), ("reciprocal", reciprocal), ("lengths", lengths), ("rotation", rotation),
         ("meshes", meshes), ("paths", paths)]
