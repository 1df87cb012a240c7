"""C16: interface-centred (enhanced) reconstruction."""
from fractions import Fraction as Fr

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Discard, Prop, close, require, same

PROP = Prop("C16")
PROP.assumptions = [
    "Distinct neighbour modes between 0 and the order; tolerance grows with the size of the reconstruction weights.",
]


@st.composite
def enh_case(draw, pmax=7, nmin=2):
    deep = draw(st.integers(0, 7)) == 7
    p = draw(st.integers(8, 12)) if deep else draw(gen.weighted_order(0, pmax))
    system = draw(st.sampled_from(['advection', 'euler']))
    key = draw(st.sampled_from([k for k in gen.IC_FOR if k[0] == system]))
    modes = draw(gen.modes_subset(p, 2 if deep else None))
    deg = draw(st.integers(0, p + len(modes)))
    nf = 3 if system == 'euler' else 1
    return {"system": system, "bc": key[1], "g": key[2], "p": p, "n": draw(st.integers(nmin, 6)), "riemann": '',
            "enh": modes, "co": [draw(gen.ints(deg + 1, -500, 500)) for _ in range(nf)],
            "x0": draw(st.integers(-20, 20)) / 10.0}


def weights(p, modes):
    aL, aR = ref.cached_face_weights(p, sorted(modes))
    return np.abs(aL).sum() + np.abs(aR).sum()


def poly_cells(co, n, p, x0):
    """Modes 0..p on cells of size 2 of the polynomial, and its values at the faces."""
    poly = [Fr(c, 500) / 6 ** k for k, c in enumerate(co)]
    out = np.zeros((n, p + 1))
    for e in range(n):
        loc = ref.pshift(poly, Fr(2 * e) - Fr(str(x0)))
        for m in range(p + 1):
            lm = ref.legendre_poly(m)
            out[e, m] = float(Fr(2 * m + 1, 2) * ref.pint(ref.pmul(loc, lm), -1, 1))
    faces = np.array([float(ref.peval(poly, Fr(2 * k - 1) - Fr(str(x0)))) for k in range(n + 1)])
    return out, faces


def faces_of(c, u, modes=None):
    s = sim.make_solution(dict(c, enh=c["enh"] if modes is None else modes), u)
    s.apply_bc()
    f = np.array(s.evaluate_faces())
    n, nf = c["n"], s.N_F
    return f.reshape(2, n + 2, nf)


@PROP.check("recovery", enh_case(), quick=1200, thorough=24000, shards=4,
            rule="non-trivial: degree above the order of the solution")
def recovery(c, ctx):
    """If neighbouring cells hold the moments of one polynomial of degree at most
    order + number of modes, both face values are that polynomial's value."""
    nf = len(c["co"])
    u = np.zeros((c["n"], nf, c["p"] + 1))
    want = np.zeros((c["n"] + 1, nf))
    for f in range(nf):
        u[:, f], want[:, f] = poly_cells(c["co"][f], c["n"], c["p"], c["x0"])
    v = faces_of(c, u)
    # interior faces only (ghost cells do not continue the polynomial)
    right_end = v[1, 1:-2]       # right face of cells 1..n-1
    left_end = v[0, 2:-1]        # left face of cells 2..n
    sc = (np.abs(u).max() + np.abs(want).max() + 1e-300) * weights(c["p"], c["enh"])
    tol = 1e-12 * 4.0 ** (c["p"] + len(c["enh"])) ** 1.0 if c["p"] + len(c["enh"]) < 10 else 1e-5
    tol = max(1e-11, min(tol, 1e-6))
    close(right_end, want[1:-1], tol, "value at the face seen from the left cell", scale=sc)
    close(left_end, want[1:-1], tol, "value at the face seen from the right cell", scale=sc)
    ctx.label("p%d" % c["p"], "modes%d" % len(c["enh"]), c["system"])
    ctx.nontrivial(len(c["co"][0]) - 1 > c["p"])


@st.composite
def any_case(draw):
    c = draw(gen.field_case(pmax=7, nmin=1, nmax=8, enh=False, deep=12))
    c["enh"] = draw(gen.modes_subset(c["p"], 2 if c["p"] > 7 else None))
    c["enh2"] = list(draw(st.permutations(c["enh"])))
    c["far"] = draw(st.integers(0, 7))
    return c


@PROP.check("weights_and_symmetry", any_case(), quick=600, thorough=12000, shards=6,
            rule="non-trivial: more than one mode, listed out of order")
def weights_and_symmetry(c, ctx):
    """Face values equal the exact rational weights, do not depend on the order in which the
    modes are listed, mirror correctly and use the two adjacent cells only."""
    u = gen.build_field(dict(c, enh=[]))
    v = faces_of(c, u)
    W = weights(c["p"], c["enh"])
    sc = np.abs(u).max() * W + 1e-300
    tol = 1e-10 if c["p"] + len(c["enh"]) < 10 else 1e-7
    L, R = sim.model(c).faces(sim.model(c).ghosts(u))
    close(v[1, :-1], L, tol, "left states of the faces", scale=sc)
    close(v[0, 1:], R, tol, "right states of the faces", scale=sc)
    close(faces_of(c, u, c["enh2"])[:, 1:-1], v[:, 1:-1], 1e-13, "face values with the modes listed in another order", scale=sc)
    sg = (-1.0) ** np.arange(c["p"] + 1)
    m = faces_of(c, u[::-1] * sg)
    close(m[0, ::-1][:-1], v[1, :-1], tol, "face values of the mirror image", scale=sc)
    close(m[1, ::-1][1:], v[0, 1:], tol, "face values of the mirror image", scale=sc)
    # changing one cell changes only its own faces and those of its neighbours
    if c["n"] >= 4:
        e = 1 + c["far"] % (c["n"] - 2)
        w = u.copy()
        w[e] *= 1.5
        d = faces_of(c, w)
        near = [e, e + 1, e + 2]      # indices with ghosts
        for j in range(1, c["n"] + 1):
            if j not in near:
                same(d[:, j], v[:, j], "faces of cell %d after changing cell %d" % (j, e + 1))
    ctx.label("p%d" % c["p"], "modes%d" % len(c["enh"]), c["system"], c["bc"])
    ctx.nontrivial(len(c["enh"]) > 1 and c["enh"] != sorted(c["enh"]))


@PROP.check("constant_and_plain", any_case(), quick=300, thorough=6000, shards=2,
            rule="non-trivial: every case")
def constant_and_plain(c, ctx):
    """A constant is reproduced; enhancement never changes the solution itself."""
    u = gen.build_field(dict(c, enh=[]))
    k = np.repeat(u[:1], c["n"], axis=0)
    k[:, :, 1:] = 0
    v = faces_of(c, k)
    sc = np.abs(k).max() * weights(c["p"], c["enh"]) + 1e-300
    tol = 1e-11 if c["p"] + len(c["enh"]) < 10 else 1e-8
    close(v[1, :-1], np.repeat(k[:1, :, 0], c["n"] + 1, axis=0), tol, "faces of a constant", scale=sc)
    close(v[0, 1:], np.repeat(k[:1, :, 0], c["n"] + 1, axis=0), tol, "faces of a constant", scale=sc)
    s = sim.make_solution(c, u)
    s.apply_bc()
    s.evaluate_faces()
    same(sim.cells(s), u, "solution after evaluating the faces")
    ctx.nontrivial(True)
