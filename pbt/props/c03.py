"""C03: the discretisation is equivariant: mirror images, periodic shifts, units, superposition."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Prop, Discard, close, require

import dg1d.dg as dgmod

PROP = Prop("C03")
PROP.assumptions = [
    "Up to rounding; Godunov up to its absolute 1e-6 pressure tolerance.",
    "Mirror symmetry is claimed for unlimited runs: the shock sensor is one-sided by design.",
]
TOL = {'rusanov': 1e-10, 'roe': 1e-10, 'godunov': 1e-7, '': 1e-11}


def residual(c, u, line=None):
    s = sim.make_solution(dict(c, line=line) if line else c, u)
    return ref.to_cells(dgmod.DG(s).residual(s), s.N_F, c["p"])


def scale_of(c, u, r):
    """Size of the terms a residual is made of, per field."""
    m = sim.model(c)
    cg = m.ghosts(u)
    L, R = m.faces(cg)
    F = np.maximum(np.abs(m.flux(L)).max(axis=0), np.abs(m.flux(R)).max(axis=0))
    if c["system"] == 'euler':
        r_, v, p = ref.cons_to_prim(np.concatenate([L, R]), c["g"])
        sp = (np.abs(v) + np.sqrt(c["g"] * p / r_)).max()
    else:
        sp = 1.0
    F = F + sp * np.maximum(np.abs(L).max(axis=0), np.abs(R).max(axis=0))
    k = (2 * c["p"] + 1) / gen.case_dx(c)
    return (F * k)[None, :, None] + 1e-300


def flip(u, odd=True):
    """Mirror image of a field (and of a residual)."""
    s = (-1.0) ** np.arange(u.shape[2])
    v = u[::-1] * s
    if u.shape[1] == 3 and odd:
        v = v * np.array([1.0, -1.0, 1.0])[None, :, None]
    return v


@PROP.check("mirror_residual", gen.field_case(system='euler', pmax=8, units=True, wide=300, deep=12), quick=1500, thorough=40000, shards=3,
            rule="non-trivial: the field is not its own mirror image")
def mirror_residual(c, ctx):
    u = gen.build_field(c)
    a = residual(c, u)
    b = residual(c, flip(u))
    close(flip(b), a, TOL[c["riemann"]], "residual of the mirrored field", scale=scale_of(c, u, a))
    ctx.label(c["riemann"], c["bc"], "enh" if c["enh"] else "noenh", "p%d" % c["p"], "g%g" % c["g"])
    ctx.nontrivial(np.max(np.abs(flip(u) - u)) > 1e-3 * np.abs(u).max())


@st.composite
def strong_case(draw):
    k = draw(st.sampled_from([1, 2, 3, 5]))
    n = draw(st.integers(2, 5))
    key = draw(st.sampled_from([x for x in gen.IC_FOR if x[0] == 'euler']))
    cells = [draw(gen.prim((10.0 ** -k, 10.0 ** k), (10.0 ** -k, 10.0 ** k), draw(st.sampled_from([0.5, 3.0, 8.0]))))
             for _ in range(n)]
    for e in range(1, n):
        keep = draw(st.integers(0, 5))          # sometimes part of the neighbour's state
        if keep < 3:
            cells[e][keep] = cells[e - 1][keep]
    return {"system": "euler", "bc": key[1], "g": key[2], "p": 0, "n": n, "enh": [],
            "riemann": draw(st.sampled_from(['rusanov', 'roe', 'roe'])), "states": cells}


@PROP.check("mirror_strong", strong_case(), quick=2500, thorough=60000, shards=2,
            rule="non-trivial: density or pressure ratio above a hundred")
def mirror_strong(c, ctx):
    """Cell averages of very different sizes: face by face, the mirrored problem has the mirrored residual."""
    prim = np.array([gen.prim_state(x, c["g"]) for x in c["states"]])
    u = ref.prim_to_cons(prim[:, 0], prim[:, 1], prim[:, 2], c["g"]).T[:, :, None]
    a, b = residual(c, u), flip(residual(c, flip(u)))
    w = np.concatenate([u[:1], u, u[-1:]]) if c["bc"] == 'zerograd' else np.concatenate([u[-1:], u, u[:1]])
    rho, v, p = ref.cons_to_prim(w[:, :, 0], c["g"])
    sp = np.abs(v) + np.sqrt(c["g"] * p / rho)
    for e in range(c["n"]):
        # sizes of the terms at the two faces of the cell
        top = w[e:e + 3, :, 0]
        s = sp[e:e + 3].max()
        vmax = np.abs(v[e:e + 3]).max() + s
        U = np.array([np.abs(top[:, 0]).max(), np.abs(top[:, 0] * vmax).max(), np.abs(top[:, 0] * vmax * vmax).max()])
        U[2] = max(U[2], np.abs(top[:, 2]).max())
        close(b[e, :, 0] / (U * s) * gen.case_dx(c), a[e, :, 0] / (U * s) * gen.case_dx(c), 1e-10,
              "residual of the mirrored states", scale=1.0)
    big = max(prim[:, 0].max() / prim[:, 0].min(), prim[:, 2].max() / prim[:, 2].min())
    ctx.label(c["riemann"], c["bc"], "strong" if big > 100 else "mild")
    ctx.nontrivial(big > 100)


@st.composite
def shift_case(draw):
    c = draw(gen.field_case(bc='periodic', pmax=8, nmin=2, units=True, wide=300, deep=12))
    c["shift"] = draw(st.integers(1, 12))
    return c


@PROP.check("shift_residual", shift_case(), quick=1200, thorough=30000, shards=2,
            rule="non-trivial: the shifted field differs from the field")
def shift_residual(c, ctx):
    u = gen.build_field(c)
    k = c["shift"]
    a = residual(c, u)
    b = residual(c, np.roll(u, k, axis=0))
    close(np.roll(b, -k, axis=0), a, TOL[c["riemann"]], "residual of the shifted field", scale=scale_of(c, u, a))
    ctx.label(c["system"], c["riemann"], "enh" if c["enh"] else "noenh", "p%d" % c["p"])
    ctx.nontrivial(np.max(np.abs(np.roll(u, k, axis=0) - u)) > 1e-6)


@st.composite
def unit_case(draw):
    c = draw(gen.field_case(system='euler', pmax=6, riem=draw(st.sampled_from(['rusanov', 'roe', 'rusanov', 'roe',
                                                                               'godunov']))))
    c["a"] = draw(st.one_of(st.integers(-6, 6), st.integers(-30, 30)))
    c["b"] = draw(st.one_of(st.integers(-5, 5), st.integers(-15, 15)))
    return c


@PROP.check("unit_residual", unit_case(), quick=1000, thorough=25000, shards=2,
            rule="non-trivial: at least one unit changes")
def unit_residual(c, ctx):
    """Density unit 2^a, velocity unit 2^b."""
    u = gen.build_field(c)
    k, m = 2.0 ** c["a"], 2.0 ** c["b"]
    f = np.array([k, k * m, k * m * m])[None, :, None]
    a = residual(c, u)
    b = residual(c, u * f)
    close(b / (f * m), a, TOL[c["riemann"]],
          "residual in other units", scale=scale_of(c, u, a))
    ctx.label(c["riemann"], c["bc"])
    ctx.nontrivial(c["a"] != 0 or c["b"] != 0)


@st.composite
def lin_case(draw):
    c = draw(gen.field_case(system='advection', pmax=8))
    c["kind"] = 'rough'
    c["data2"] = draw(gen.ints(len(c["data"])))
    c["al"] = draw(st.integers(-40, 40)) / 8.0
    c["be"] = draw(st.integers(-40, 40)) / 8.0
    return c


@PROP.check("superposition", lin_case(), quick=900, thorough=20000, shards=2,
            rule="non-trivial: two different fields, both factors non-zero")
def superposition(c, ctx):
    u = gen.build_field(c)
    v = gen.build_field(dict(c, data=c["data2"]))
    w = c["al"] * u + c["be"] * v
    a = c["al"] * residual(c, u) + c["be"] * residual(c, v)
    b = residual(c, w)
    sc = scale_of(c, np.abs(c["al"] * u) + np.abs(c["be"] * v), a)
    close(b, a, 1e-11, "residual of a linear combination (advection)", scale=sc)
    ctx.label(c["bc"], "enh" if c["enh"] else "noenh", "p%d" % c["p"])
    ctx.nontrivial(c["al"] != 0 and c["be"] != 0 and not np.array_equal(u, v))


# ------------------------------------------------------------------ whole runs
@st.composite
def run_case(draw):
    what = draw(st.sampled_from(['mirror', 'shift', 'units', 'linear']))
    system = {'mirror': 'euler', 'units': 'euler', 'linear': 'advection'}.get(what)
    bc = 'periodic' if what == 'shift' else None
    c = draw(gen.field_case(system=system, bc=bc, pmax=4, nmin=2, nmax=8, kinds=('smooth', 'jump', 'near'), maxenh=2))
    c["amp"] = min(c["amp"], 8)
    c["spread"] = min(c["spread"], 5) if c["system"] == 'euler' else 6
    c["what"] = what
    c["rk"] = draw(st.sampled_from(gen.RKS))
    c["steps"] = draw(st.integers(1, 5))
    c["nout"] = draw(st.integers(2, 3))
    c["shift"] = draw(st.integers(1, 7))
    c["a"] = draw(st.one_of(st.integers(-3, 3), st.integers(-25, 25)))
    c["b"] = draw(st.one_of(st.integers(-3, 3), st.integers(-12, 12)))
    c["limiter"] = draw(st.sampled_from(['', 'adaptive_hr'])) if what in ('shift', 'units') else ''
    c["thr"] = [0.013, 0.017]
    return c


@PROP.check("runs", run_case(), quick=500, thorough=8000, shards=6,
            rule="non-trivial: at least two steps")
def runs(c, ctx):
    u = gen.build_field(c)
    cfl = 0.2
    tf = c["steps"] * sim.model(c).dt(u, cfl) * 0.93

    def go(v, t):
        try:
            r = sim.integrate(c, v, c["rk"], t, cfl, c["nout"], c["thr"], c["limiter"], max_steps=300)
        except SystemExit:
            raise Discard()
        if not np.all(np.isfinite(r.end)):
            raise Discard()
        if c["system"] == 'euler':
            rho, _, p = ref.cons_to_prim(r.end[:, :, 0], c["g"])
            if rho.min() <= 0 or p.min() <= 0:
                raise Discard()
        return r

    if c["limiter"]:
        # a sensor value next to its threshold makes the decision a coin flip
        _, mg = ref.sensor_margin(c["system"], sim.model(c).ghosts(u)[:, :, 0], c["thr"], c["g"])
        if mg < 1e-7:
            raise Discard()
    base = go(u, tf)
    tol = 1e-8 if c["riemann"] != 'godunov' else 1e-6
    sc = np.abs(u).max(axis=(0, 2))
    if c["system"] == 'euler':
        sc[1] = max(sc[1], math.sqrt(sc[0] * sc[2]))
    sc = sc[None, :, None]
    if c["what"] == 'mirror':
        got = flip(go(flip(u), tf).end)
        want = base.end
    elif c["what"] == 'shift':
        got = np.roll(go(np.roll(u, c["shift"], axis=0), tf).end, -c["shift"], axis=0)
        want = base.end
    elif c["what"] == 'units':
        if c["system"] != 'euler':
            raise Discard()
        k, m = 2.0 ** c["a"], 2.0 ** c["b"]
        f = np.array([k, k * m, k * m * m])[None, :, None]
        got = go(u * f, tf / m).end / f
        want = base.end
    else:
        v = gen.build_field(dict(c, data=c["data"][::-1]))
        other = go(v, tf).end
        got = go(2.0 * u - 0.75 * v, tf).end
        want = 2.0 * base.end - 0.75 * other
        sc = 2 * np.abs(u).max() + np.abs(v).max()
    if c["limiter"] and np.max(np.abs(got - want) / (sc + 1e-300)) > tol:
        # chaotic only through the sensor decisions: confirm none was marginal
        if c["system"] != 'euler' or marginal(c, u, tf, cfl):
            raise Discard()
    close(got, want, tol, "%s of a whole run (%d steps)" % (c["what"], base.sol.n), scale=sc + 1e-300)
    ctx.label(c["what"], c["system"], c["riemann"], c["rk"], c["limiter"] or 'nolimit')
    ctx.nontrivial(base.sol.n >= 2)


def marginal(c, u, tf, cfl):
    """True if some sensor decision near this run is too close to call: the reference
    model's own decisions change under a relative perturbation of 1e-9."""
    m = sim.model(c, c["thr"], True)
    tab = ref.TABLEAUX.get(c["rk"], ref.RK4)
    try:
        a = m.run(m.limit(u), tf, cfl, 2, tab)[-1][2]
        if m.margin < 1e-9:
            return True
        for k in range(3):
            e = 1e-9 * np.cos(1.7 * k + np.arange(u.size)).reshape(u.shape)
            b = m.run(m.limit(u * (1 + e)), tf, cfl, 2, tab)[-1][2]
            if np.max(np.abs(a - b)) > 1e-6 * np.abs(u).max():
                return True
    except ArithmeticError:
        return True
    return False
