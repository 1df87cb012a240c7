"""C14: adaptive hierarchical-reconstruction limiting."""
from fractions import Fraction as Fr

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Discard, Prop, close, require, same

import dg1d.limiting as limiting

PROP = Prop("C14")
PROP.assumptions = [
    "Reference: hierarchical reconstruction re-derived with exact rational moments; sensor decisions closer than "
    "1e-9 to a threshold are skipped.",
]


def limited(c, u, thr, kind='adaptive_hr'):
    s = sim.make_solution(c, u, thr)
    s.apply_bc()
    limiting.Limiter(kind, s).limit(s)
    return s


def scale(u, p):
    """Rounding scale: the monomial transform amplifies with the order."""
    return (np.abs(u).sum(axis=2).max(axis=0) + 1e-300)[None, :, None] * 4.0 ** p


@st.composite
def lim_case(draw):
    c = draw(gen.field_case(pmax=7, nmin=1, nmax=14, enh=False, units=True, mixed=True, wide=200, deep=9))
    c["thr"] = [draw(st.sampled_from([-1.0, -1.0, 0.001, 0.01, 0.05, 0.2])) for _ in range(2)]
    return c


@PROP.check("reference", lim_case(), quick=1800, thorough=40000, shards=3,
            rule="non-trivial: the limiter changed the field")
def reference(c, ctx):
    u = gen.build_field(c)
    m = sim.model(c, c["thr"], True)
    a = m.ghosts(u)[:, :, 0]
    flags, mg = ref.sensor_margin(c["system"], a, c["thr"], c["g"])
    if mg < 1e-9:
        raise Discard()
    s = limited(c, u, c["thr"])
    v = sim.cells(s)
    close(v, m.limit(u), 1e-12, "limited field", scale=scale(u, c["p"]))
    sens = np.array(s.sensors.sensors)[1:-1]
    for e in range(c["n"]):
        if sens[e] == 0:
            same(v[e], u[e], "cell %d, which is not flagged" % e)
    ctx.label(c["system"], "p%d" % c["p"], c["bc"], "thr%g" % c["thr"][0])
    ctx.nontrivial(not np.allclose(u, v, rtol=1e-9))


@st.composite
def lin_case(draw):
    c = draw(gen.field_case(system='advection', pmax=7, nmin=2, nmax=8, enh=False))
    c["kind"] = draw(st.sampled_from(['rough', 'smooth']))
    c["k"] = draw(st.integers(-40, 40)) / 8.0
    c["off"] = draw(st.integers(-50, 50)) / 10.0
    return c


@PROP.check("scaling_and_mirror", lin_case(), quick=1000, thorough=20000, shards=2,
            rule="non-trivial: the limiter changed the field")
def scaling_and_mirror(c, ctx):
    """Limiting commutes with factors, constant offsets and mirror images (all cells flagged)."""
    u = gen.build_field(c)
    thr = [-1.0, -1.0]
    v = sim.cells(limited(c, u, thr))
    sc = scale(np.concatenate([u, np.full_like(u, c["off"] + c["k"])]), c["p"]) * (1 + abs(c["k"]))
    close(sim.cells(limited(c, c["k"] * u, thr)), c["k"] * v, 1e-12, "limiting a multiple", scale=sc)
    w = u.copy()
    w[:, :, 0] += c["off"]
    z = v.copy()
    z[:, :, 0] += c["off"]
    close(sim.cells(limited(c, w, thr)), z, 1e-12, "limiting with an offset", scale=sc)
    sg = (-1.0) ** np.arange(c["p"] + 1)
    close(sim.cells(limited(c, u[::-1] * sg, thr))[::-1] * sg, v, 1e-12, "limiting the mirror image", scale=sc)
    ctx.label("p%d" % c["p"], c["bc"])
    ctx.nontrivial(not np.allclose(u, v, rtol=1e-9))


@st.composite
def poly_case(draw):
    p = draw(gen.weighted_order(0, 7))
    return {"system": "advection", "bc": draw(st.sampled_from(['periodic', 'zerograd'])), "g": 1.4, "p": p,
            "n": draw(st.integers(3, 8)), "riemann": '', "enh": [], "co": draw(gen.ints(p + 1, -500, 500)),
            "x0": draw(st.integers(-20, 20)) / 10.0}


def global_poly(co, n, p, x0, width=2):
    """Legendre coefficients on n cells of size `width` of the polynomial sum co_k (x-x0)^k/4^k."""
    poly = [Fr(c, 500) / 4 ** k for k, c in enumerate(co)]
    out = np.zeros((n, 1, p + 1))
    for e in range(n):
        loc = ref.pshift(poly, Fr(2 * e) - Fr(str(x0)))
        for m in range(p + 1):
            lm = ref.legendre_poly(m)
            out[e, 0, m] = float(Fr(2 * m + 1, 2) * ref.pint(ref.pmul(loc, lm), -1, 1))
    return out


@PROP.check("polynomial_reproduction", poly_case(), quick=900, thorough=20000, shards=2,
            rule="non-trivial: degree at least one")
def polynomial_reproduction(c, ctx):
    """A polynomial of degree at most p is left alone (away from the domain ends)."""
    u = global_poly(c["co"], c["n"], c["p"], c["x0"])
    v = sim.cells(limited(c, u, [-1.0, -1.0]))
    close(v[1:-1], u[1:-1], 1e-11, "limited polynomial", scale=scale(u, c["p"]))
    ctx.label("p%d" % c["p"])
    ctx.nontrivial(c["p"] > 0 and any(c["co"][1:]))


@PROP.check("extremum_flattened", lin_case(), quick=600, thorough=10000, shards=1,
            rule="non-trivial: some flagged cell holds a strict extremum of the averages")
def extremum_flattened(c, ctx):
    """First order: at a strict local extremum of the averages the limited slope vanishes, and
    elsewhere it lies between zero and both one-sided slopes."""
    c = dict(c, p=1)
    u = gen.build_field(c)
    v = sim.cells(limited(c, u, [-1.0, -1.0]))
    a = sim.model(c).ghosts(u)[:, 0, 0]
    n = 0
    sc = np.abs(u).max() + 1e-300
    for e in range(c["n"]):
        l, r = 0.5 * (a[e + 1] - a[e]), 0.5 * (a[e + 2] - a[e + 1])
        if l * r <= 0:
            n += l * r < 0
            close(v[e, 0, 1], 0.0, 1e-12, "slope at an extremum", scale=sc)
        else:
            close(v[e, 0, 1], np.sign(l) * min(abs(l), abs(r)), 1e-12, "limited slope", scale=sc)
    ctx.nontrivial(n > 0)


@PROP.check("off", lim_case(), quick=400, thorough=6000, shards=1, rule="non-trivial: non-constant field")
def off(c, ctx):
    """Without a limiter nothing changes; zeroth order has nothing to limit."""
    u = gen.build_field(c)
    for kind in ('', 'none', 'hr'):
        same(sim.cells(limited(c, u, c["thr"], kind)), u, "field after the limiter %r" % kind)
    c0 = dict(c, p=0)
    u0 = u[:, :, :1].copy()
    close(sim.cells(limited(c0, u0, c["thr"])), u0, 1e-14, "limited zeroth-order field", scale=np.abs(u0).max() + 1e-300)
    ctx.label("p%d" % c["p"])
    ctx.nontrivial(np.ptp(u) > 0)
