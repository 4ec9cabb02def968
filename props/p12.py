"""P12: a magnetic field only multiplies hoppings by the Peierls phase"""
import numpy as np
from vk.search import require
from vk.sym import And
from vk.contract import Lemma
from props import gen, k_sample, p11

ASSUMPTIONS = ["factor pi/4135.666734 = |e|/(2 hbar) in nm^-2 T^-1 (documented constant)"]
BOUNDED_NOTE = "random samples, three gauges, zero/opposite/repeated fields, flux through closed loops"
FACT = np.pi / 4135.666734


def lemmas():
    P = [(f"{c}{k}", "real") for k in (1, 2, 3) for c in "xy"]

    def ph(p, g, a, b):
        xa, ya, xb, yb = (getattr(p, f"x{a}"), getattr(p, f"y{a}"), getattr(p, f"x{b}"), getattr(p, f"y{b}"))
        dx, dy, sx, sy = xb - xa, yb - ya, xa + xb, ya + yb
        return [2 * (dx * sy), -2 * (dy * sx), dx * sy - dy * sx][g]

    def loop(p, g):
        return ph(p, g, 1, 2) + ph(p, g, 2, 3) + ph(p, g, 3, 1)

    def area2(p):
        return (p.x2 - p.x1) * (p.y3 - p.y1) - (p.x3 - p.x1) * (p.y2 - p.y1)
    L1 = Lemma("the phase around a triangle is the enclosed flux, in every gauge", P, lambda p: [],
               lambda p: [(f"gauge {g}", loop(p, g) == -2 * area2(p)) for g in range(3)])
    L2 = Lemma("reversing a bond reverses its phase", P, lambda p: [],
               lambda p: [(f"gauge {g}", ph(p, g, 1, 2) == -ph(p, g, 2, 1)) for g in range(3)])
    L3 = Lemma("a unimodular factor keeps the modulus", [("a", "real"), ("b", "real"), ("c", "real"), ("s", "real")],
               lambda p: [("unit", p.c * p.c + p.s * p.s == 1)],
               lambda p: [("modulus", (p.a * p.c - p.b * p.s) ** 2 + (p.a * p.s + p.b * p.c) ** 2 == p.a * p.a + p.b * p.b)])
    return [L1, L2, L3]


def proofs(src):
    return k_sample.prove(src, ["set_mag_field"]) + [("lemma " + x.name, x.verify) for x in lemmas()]


def arrays(sa):
    sa.init_orb_eng(), sa.init_orb_pos(), sa.init_hop()
    return {k: np.array(getattr(sa, k)) for k in ("orb_eng", "orb_pos", "hop_i", "hop_j", "dr", "hop_v")}


def phase(a, B, g):
    i, j = a["hop_i"], a["hop_j"]
    dx, dy = a["dr"][:, 0], a["dr"][:, 1]
    A = lambda q: [(B * a["orb_pos"][q, 1], 0 * dx), (0 * dx, -B * a["orb_pos"][q, 0]), (0.5 * B * a["orb_pos"][q, 1], -0.5 * B * a["orb_pos"][q, 0])][g]
    (ax, ay), (bx, by) = A(i), A(j)
    return FACT * (dx * (ax + bx) + dy * (ay + by))


def field(rng, index):
    sa, scs, ihs = p11.rand_sample(rng, 2)
    a = arrays(sa)
    g = index % 3
    B = float(rng.uniform(-4000, 4000)) if rng.random() < 0.8 else float(rng.choice([0.0, 1.0, -50.0]))
    if rng.random() < 0.3:
        sa.set_magnetic_field(B) if g == 0 else sa.set_magnetic_field(B, gauge=g)
    else:
        sa.set_magnetic_field(B, g)
    b = arrays(sa)
    for k in ("orb_eng", "orb_pos", "hop_i", "hop_j", "dr"):
        require(np.array_equal(a[k], b[k]), f"{k} changed by the field")
    ref = a["hop_v"] * np.exp(1j * phase(a, B, g))
    require(gen.close(b["hop_v"], ref), lambda: f"gauge {g} B={B}: {b['hop_v'].tolist()[:4]} vs {ref.tolist()[:4]}")
    require(gen.close(np.abs(b["hop_v"]), np.abs(a["hop_v"])), "modulus changed")
    sa.set_magnetic_field(-B, g)
    require(gen.close(arrays(sa)["hop_v"], a["hop_v"]), "opposite fields do not cancel")
    sa.set_magnetic_field(0.0, g)
    require(gen.close(arrays(sa)["hop_v"], a["hop_v"]), "zero field is not the identity")
    for bad in (3, -1, 7):
        try:
            sa.set_magnetic_field(B, bad)
        except ValueError:
            continue
        require(False, f"gauge {bad} accepted")
    require(gen.close(arrays(sa)["hop_v"], a["hop_v"]), "rejected gauge changed the hoppings")


def flux(rng, index):
    """phase around a triangle of an open flake equals -2 * factor * B * area in every gauge"""
    t = gen.tb()
    pos = rng.uniform(0, 0.9, (3, 3))
    pc = t.PrimitiveCell(np.eye(3) * 3.0, unit=t.NM)
    for q in pos:
        pc.add_orbital(tuple(float(x) for x in q), 0.0)
    for i, j in ((0, 1), (1, 2), (0, 2)):
        pc.add_hopping((0, 0, 0), i, j, 1.0)
    c = pos @ pc.lat_vec
    area = 0.5 * ((c[1, 0] - c[0, 0]) * (c[2, 1] - c[0, 1]) - (c[2, 0] - c[0, 0]) * (c[1, 1] - c[0, 1]))
    B = float(rng.uniform(1, 900))
    ref = np.exp(-1j * 2 * FACT * B * area)
    for g in range(3):
        sa = t.Sample(t.SuperCell(pc, dim=(1, 1, 1), pbc=(False,) * 3))
        sa.set_magnetic_field(B, g)
        h = sa.build_ham_csr().toarray()
        w = h[0, 1] * h[1, 2] * h[2, 0]
        require(abs(w - ref) < 1e-9, f"gauge {g}: loop phase {np.angle(w)} instead of {np.angle(ref)}")


def order(rng, index):
    """the phase refers to the current positions and commutes with rescaling"""
    sa, scs, ihs = p11.rand_sample(rng, 2)
    a = arrays(sa)
    g, B, f = int(rng.integers(0, 3)), float(rng.uniform(10, 900)), float(rng.uniform(2, 8))
    if rng.random() < 0.5:
        sa.rescale_ham(f)
        sa.set_magnetic_field(B, g)
    else:
        sa.set_magnetic_field(B, g)
        sa.rescale_ham(f)
    b = arrays(sa)
    require(gen.close(b["hop_v"] * f, a["hop_v"] * np.exp(1j * phase(a, B, g))), "field and rescaling do not commute")
    require(gen.close(b["orb_eng"] * f, a["orb_eng"]), "on-site energies")
    sa.reset_array()
    require(gen.close(arrays(sa)["hop_v"], a["hop_v"]), "reset keeps the field")


CASES = [("field", field), ("flux", flux), ("order", order)]
