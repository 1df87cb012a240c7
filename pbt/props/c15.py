"""C15: discontinuity sensors."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Discard, Prop, require, same

import dg1d.sensor as sensor

PROP = Prop("C15")
PROP.assumptions = [
    "Sensors act on cell averages, ghost cells included; comparisons closer than 1e-9 to a threshold are skipped.",
]


def flags_of(c, u, thr, s=None):
    s = s or sim.make_solution(c, u, thr)
    s.apply_bc()
    s.sensors.sensing(s)
    return np.array(s.sensors.sensors)[1:-1], s      # interior cells: what is printed and limited


def average_field(c):
    u = gen.build_field(c)
    for e in c.get("flat", []):
        if 0 < e < len(u):
            u[e] = u[e - 1]
    return u


@st.composite
def sens_case(draw):
    c = draw(gen.field_case(pmax=3, nmin=1, nmax=20, enh=False, kinds=('rough', 'rough', 'jump', 'smooth', 'near'), wide=1100, units=True))
    c["thr"] = [draw(st.one_of(st.sampled_from([0.0, 0.01, 0.1]), gen.logspan(1e-4, 0.5))) for _ in range(2)]
    c["again"] = draw(st.integers(0, 3))
    if draw(st.booleans()):
        # plateaus: cells exactly equal to their left neighbour
        c["flat"] = draw(st.lists(st.integers(1, 19), max_size=8))
    if draw(st.booleans()):
        # thresholds within a hair of the jump measures of some interface
        c["close"] = draw(st.lists(st.tuples(st.integers(0, 20), st.sampled_from([1, -1]), gen.logspan(1e-6, 1e-2)), min_size=2, max_size=2))
    return c


def thresholds(c, a):
    """The thresholds of a case on cell averages a."""
    if not c.get("close"):
        return c["thr"]
    thr = list(c["thr"])
    for k, (i, side, rel) in enumerate(c["close"]):
        m = ref.jump_measures(c["system"], a[i % (len(a) - 1)], a[i % (len(a) - 1) + 1], c["g"])
        if k < len(m) and 1e-6 < m[k] < 0.5:
            thr[k] = m[k] * (1 + side * rel)
    return thr


@PROP.check("reference", sens_case(), quick=2500, thorough=60000, shards=3,
            rule="non-trivial: flagged and unflagged cells, or both kinds of flag")
def reference(c, ctx):
    u = average_field(c)
    a = sim.model(c).ghosts(u)[:, :, 0]
    thr = thresholds(c, a)
    _, mg = ref.sensor_margin(c["system"], a, thr, c["g"])
    if mg < 1e-9:
        raise Discard()
    f, s = flags_of(c, u, thr)
    same(f, ref.sensor_ref(c["system"], a, thr, c["g"])[1:-1], "sensor flags")
    require(set(np.unique(f)) <= {0, 1, 2}, "flags other than 0, 1, 2")
    if c.get("again"):
        # the same field sensed again, later in the run
        s.t, s.n = c["again"] / 7.0, c["again"]
        s.sensors.sensing(s)
        same(np.array(s.sensors.sensors)[1:-1], f, "sensor flags of the same field, sensed again")
    ctx.label(c["system"], c["kind"], *(["close"] if thr != c["thr"] else []), *["has%d" % k for k in set(f.tolist())])
    ctx.nontrivial(len(set(f.tolist())) > 1)


@st.composite
def stale_case(draw):
    c = draw(sens_case())
    c["data2"] = draw(gen.ints(len(c["data"])))
    return c


@PROP.check("no_memory", stale_case(), quick=700, thorough=15000, shards=1,
            rule="non-trivial: the two fields have different flags")
def no_memory(c, ctx):
    """Sensing again after the field changed gives the flags of the new field only; the
    solution itself is not touched; higher modes do not matter."""
    u = gen.build_field(c)
    w = gen.build_field(dict(c, data=c["data2"]))
    f, s = flags_of(c, u, c["thr"])
    before = np.array(s.u)
    v = np.array(s.u)
    v[:, s.N_F:-s.N_F] = ref.from_cells(w)
    s.u = v
    g, s = flags_of(c, w, c["thr"], s)
    same(g, flags_of(c, w, c["thr"])[0], "flags after the field changed")
    z = w.copy()
    z[:, :, 1:] *= -3.0
    same(flags_of(c, z, c["thr"])[0], g, "flags when only the higher modes change")
    same(sim.cells(s), w, "solution after sensing")
    ctx.label(c["system"])
    ctx.nontrivial(not np.array_equal(f, g))


@st.composite
def euler_case(draw):
    c = draw(gen.field_case(system='euler', pmax=0, nmin=1, nmax=16, enh=False, kinds=('rough', 'jump', 'near')))
    c["thr"] = [draw(st.one_of(st.just(0.0), gen.logspan(1e-3, 0.3))) for _ in range(2)]
    c["a"], c["b"] = draw(st.integers(-8, 8)), draw(st.integers(-8, 8))
    c["up"] = draw(st.integers(0, 100)) / 100.0
    return c


@PROP.check("units_and_thresholds", euler_case(), quick=1000, thorough=20000, shards=1,
            rule="non-trivial: some cell flagged")
def units_and_thresholds(c, ctx):
    """Flags do not depend on units; raising the thresholds never flags more cells; a uniform
    gas is never flagged."""
    u = gen.build_field(c)
    a = sim.model(c).ghosts(u)[:, :, 0]
    _, mg = ref.sensor_margin('euler', a, c["thr"], c["g"])
    if mg < 1e-9:
        raise Discard()
    f, _ = flags_of(c, u, c["thr"])
    k, m = 2.0 ** c["a"], 2.0 ** c["b"]
    g, _ = flags_of(c, u * np.array([k, k * m, k * m * m])[None, :, None], c["thr"])
    same(g, f, "flags in other units")
    # thresholds at most 0.5: the sensor is monotone in the jump there
    hi = [t + (0.5 - t) * c["up"] for t in c["thr"]]
    h, _ = flags_of(c, u, hi)
    require(not np.any((f == 0) & (h != 0)), lambda: "raising the thresholds flags more cells: %r -> %r" % (f.tolist(), h.tolist()))
    q, _ = flags_of(c, np.repeat(u[:1], c["n"], axis=0), c["thr"])
    require(not np.any(q), "uniform gas is flagged")
    ctx.nontrivial(np.any(f))


@st.composite
def wave_case(draw):
    return {"g": draw(st.sampled_from([1.4, 3.0])), "kind": draw(st.sampled_from(['shock', 'rarefaction', 'contact'])),
            "side": draw(st.sampled_from([1, -1])), "q": draw(gen.logspan(1.05, 100)), "rho": draw(gen.logspan(1e-2, 1e2)),
            "p": draw(gen.logspan(1e-2, 1e2)), "v": draw(gen.span(-3, 3)), "n": draw(st.integers(4, 12)),
            "cut": draw(st.integers(1, 11)), "thr": [draw(gen.logspan(1e-3, 0.3)) for _ in range(2)]}


@PROP.check("waves", wave_case(), quick=2000, thorough=40000, shards=2,
            rule="non-trivial: the jump is above its threshold")
def waves(c, ctx):
    """A shock is flagged as a shock on both sides of its jump, a rarefaction never is, a
    contact is flagged as a contact; cells away from the jump are not flagged."""
    g, r, p, q = c["g"], c["rho"], c["p"], c["q"]
    a = math.sqrt(g * p / r)
    v = c["v"] * a
    b = (g - 1) / (g + 1)
    if c["kind"] == 'shock':
        r1, p1 = r * (q + b) / (q * b + 1), p * q
        M = math.sqrt((g + 1) / (2 * g) * q + (g - 1) / (2 * g))
        v1 = v + M * a * (1 - r / r1)
    elif c["kind"] == 'rarefaction':
        # gas behind a right-facing rarefaction running into (r, v, p): lower pressure
        p1 = p / q
        r1 = r * q ** (-1 / g)
        v1 = v + 2 / (g - 1) * (math.sqrt(g * p1 / r1) - a)
    else:
        r1, v1, p1 = r * q, v, p
    near, far = (r1, v1, p1), (r, v, p)
    if c["side"] < 0:
        near, far = (r, -v, p), (r1, -v1, p1)
    n, k = c["n"], 1 + c["cut"] % (c["n"] - 1)
    u = np.zeros((n, 3, 1))
    u[:k, :, 0] = ref.prim_to_cons(*near, g)
    u[k:, :, 0] = ref.prim_to_cons(*far, g)
    case = {"system": "euler", "bc": "zerograd", "g": g, "p": 0, "n": n, "riemann": "roe", "enh": []}
    cont, mg = ref.sensor_margin('euler', np.stack([ref.prim_to_cons(*near, g), ref.prim_to_cons(*far, g)]), c["thr"], g)
    if mg < 1e-9:
        raise Discard()
    f, _ = flags_of(case, u, c["thr"])
    rest = np.concatenate([f[:k - 1], f[k + 1:]])
    require(not np.any(rest), lambda: "cells away from the jump are flagged: %r" % f.tolist())
    x = abs(near[2] - far[2]) / (near[2] + far[2])
    strength = 2 * x / (1 + x) ** 2
    if c["kind"] == 'shock' and strength > c["thr"][1]:
        if g == 1.4:
            require(f[k - 1] == 2 and f[k] == 2, lambda: "shock of pressure ratio %g not flagged: %r" % (q, f.tolist()))
        ctx.nontrivial(True)
    elif c["kind"] == 'rarefaction':
        if g == 1.4:
            require(not np.any(f == 2), lambda: "rarefaction of pressure ratio %g flagged as a shock" % q)
        ctx.nontrivial(strength > c["thr"][1])
    elif c["kind"] == 'contact':
        x = abs(r1 - r) / (r1 + r)
        want = 1 if 2 * x / (1 + x) ** 2 > c["thr"][0] else 0
        require(f[k - 1] == want and f[k] == want, lambda: "contact of density ratio %g: flags %r" % (q, f.tolist()))
        ctx.nontrivial(want)
    ctx.label(c["kind"], "right" if c["side"] > 0 else "left", "g%g" % g)
