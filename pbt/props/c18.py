"""C18: discrete stability: energy, bounds, positivity and entropy."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Discard, Prop, close, require

import dg1d.dg as dgmod

PROP = Prop("C18")
PROP.assumptions = [
    "Energy statements: advection without enhancement.  Bounds: zeroth order, classical three and four stage schemes, "
    "CFL number at most one.  Positivity and entropy: zeroth-order Euler, half a CFL step.",
]


def euler_step(c, u):
    s = sim.make_solution(c, u)
    s.apply_bc()
    r = dgmod.DG(s).residual(s)
    return ref.to_cells(r, s.N_F, s.basis.p)


@st.composite
def adv_case(draw, pmax=7, nmax=14, wide=0, deep=0):
    c = draw(gen.field_case(system='advection', pmax=pmax, nmin=1, nmax=nmax, enh=False, wide=wide, deep=deep))
    if c["kind"] == 'jump':
        c["kind"] = 'rough'
    return c


@PROP.check("energy_identity", adv_case(wide=600, deep=16), quick=6000, thorough=120000, shards=3,
            rule="non-trivial: jumps between cells dissipate")
def energy_identity(c, ctx):
    """d/dt of the L2 norm is exactly minus half the sum of squared jumps (plus the fluxes
    through open ends): the scheme never feeds energy."""
    u = gen.build_field(c)
    r = euler_step(c, u)
    n = np.arange(c["p"] + 1)
    dx = gen.case_dx(c)
    rate = float(np.sum(u * r * (dx / (2 * n + 1))))
    left = u[:, 0].dot((-1.0) ** n)
    right = u[:, 0].sum(axis=1)
    if c["bc"] == 'periodic':
        inflow = right[-1]
        jumps = np.append(left[1:] - right[:-1], left[0] - right[-1])
        want = -0.5 * np.sum(jumps ** 2)
    else:
        inflow = right[0]
        jumps = np.append(left[1:] - right[:-1], left[0] - inflow)
        want = -0.5 * np.sum(jumps ** 2) + 0.5 * inflow ** 2 - 0.5 * right[-1] ** 2
    sc = float(np.sum(np.abs(u[:, 0]).sum(axis=1) ** 2)) * (c["p"] + 1) ** 2 + 1e-300
    close(rate, want, 1e-12, "rate of change of the energy", scale=sc)
    ctx.label("p%d" % c["p"], c["bc"])
    ctx.nontrivial(np.sum(jumps ** 2) > 1e-6 * sc)


@st.composite
def bound_case(draw):
    c = draw(adv_case(pmax=0, nmax=20, wide=130))
    c["rk"] = draw(st.sampled_from(['rk3', 'rk4', 'low_storage_rk4', '']))
    c["cfl"] = draw(st.sampled_from([1.0, 1.0, 0.9, 0.5, 0.13]))
    c["steps"] = draw(st.integers(1, 160)) / 10.0
    c["nout"] = draw(st.integers(2, 6))
    return c


@PROP.check("bounds", bound_case(), quick=3000, thorough=60000, shards=2,
            rule="non-trivial: several cells and steps")
def bounds(c, ctx):
    """Zeroth order: no new extrema and no growth of the total variation."""
    u = gen.build_field(c)
    tf = c["steps"] * sim.model(c).dt(u, c["cfl"])
    r = sim.integrate(c, u, c["rk"], tf, c["cfl"], nout=c["nout"])
    eps = 1e-12 * (np.abs(u).max() + 1e-300)

    def tv(a):
        return np.abs(np.diff(np.append(a, a[:1]) if c["bc"] == 'periodic' else a)).sum()

    lo, hi, var = u.min(), u.max(), tv(u[:, 0, 0])
    for k, o in enumerate(r.outs):
        a = o[5][:, 0, 0]
        require(a.min() >= lo - eps and a.max() <= hi + eps,
                lambda: "output %d leaves the initial range [%g, %g]: [%g, %g]" % (k, lo, hi, a.min(), a.max()))
        t = tv(a)
        require(t <= var + eps * c["n"], lambda: "total variation grows from %g to %g" % (var, t))
        lo, hi, var = a.min(), a.max(), t
    ctx.label(c["bc"], c["rk"] or 'default', "cfl%g" % c["cfl"])
    ctx.nontrivial(c["n"] > 2 and c["steps"] > 1)


@st.composite
def decay_case(draw):
    c = draw(adv_case(pmax=6, nmax=10))
    c["bc"] = 'periodic'
    c["cfl"] = draw(st.sampled_from([0.1, 0.05, 0.2]))
    c["steps"] = draw(st.integers(10, 250)) / 10.0
    c["nout"] = draw(st.integers(2, 6))
    return c


@PROP.check("energy_decay", decay_case(), quick=2000, thorough=40000, shards=2,
            rule="non-trivial: the energy decreases visibly")
def energy_decay(c, ctx):
    """Every order: the L2 norm of a periodic run (third-order time stepping) never grows and
    the mean is kept."""
    u = gen.build_field(c)
    tf = c["steps"] * sim.model(c).dt(u, c["cfl"])
    r = sim.integrate(c, u, 'rk3', tf, c["cfl"], nout=c["nout"])
    w = 1.0 / (2 * np.arange(c["p"] + 1) + 1)
    e0 = float(np.sum(u[:, 0] ** 2 * w))
    first = e0
    for k, o in enumerate(r.outs):
        e = float(np.sum(o[5][:, 0] ** 2 * w))
        require(e <= e0 * (1 + 1e-11) + 1e-300, lambda: "energy grows from %.15g to %.15g by output %d" % (e0, e, k))
        e0 = e
    ctx.label("p%d" % c["p"])
    ctx.nontrivial(e0 < 0.99 * first)


@st.composite
def gas_case(draw):
    c = draw(gen.field_case(system='euler', pmax=0, nmin=1, nmax=16, enh=False,
                            riem=draw(st.sampled_from(['rusanov', 'godunov'])), kinds=('rough', 'jump', 'near')))
    c["spread"] = draw(st.integers(4, 14))
    c["lam"] = draw(st.integers(1, 50)) / 100.0
    return c


@PROP.check("gas_positivity", gas_case(), quick=6000, thorough=120000, shards=3,
            rule="non-trivial: pressure ratio above two somewhere")
def gas_positivity(c, ctx):
    """A forward step of at most half a CFL number keeps density and pressure positive, and the
    exact Riemann solver (and Rusanov's, where its wave speed bounds the signals) never lowers the least specific entropy of a cell and its neighbours nor
    creates mathematical entropy."""
    g = c["g"]
    u = gen.build_field(c)
    m = sim.model(c)
    r = euler_step(c, u)
    rho, v, p = ref.cons_to_prim(u[:, :, 0], g)
    # fastest signal including the shocks of the exact solution
    a = np.sqrt(g * p / rho)
    gh = m.ghosts(u)[:, :, 0]
    R, V, P = ref.cons_to_prim(gh, g)
    smax = float(np.max(np.abs(v) + a))
    face = np.abs(V) + np.sqrt(g * P / R)
    inside = True                       # no signal outruns the dissipation speed of its face
    for i in range(len(gh) - 1):
        star = ref.exact_riemann((R[i], V[i], P[i]), (R[i + 1], V[i + 1], P[i + 1]), g)
        if star is None:
            raise Discard()
        for j, sg in ((i, -1), (i + 1, 1)):
            q = max(star[0] / P[j], 1.0)
            S = V[j] + sg * math.sqrt(g * P[j] / R[j]) * math.sqrt((g + 1) / (2 * g) * q + (g - 1) / (2 * g))
            inside &= abs(S) <= max(face[i], face[i + 1])
            if c["riemann"] == 'godunov':
                smax = max(smax, abs(S))
    w = u + c["lam"] * gen.case_dx(c) / smax * r
    rho1, v1, p1 = ref.cons_to_prim(w[:, :, 0], g)
    require(np.all(rho1 > 0) and np.all(p1 > 0),
            lambda: "density or pressure not positive after a step: rho %g p %g" % (rho1.min(), p1.min()))
    s0 = np.log(P) - g * np.log(R)
    if c["riemann"] == 'godunov' or inside:
        s1 = np.log(p1) - g * np.log(rho1)
        low = np.minimum(np.minimum(s0[:-2], s0[1:-1]), s0[2:])
        require(np.all(s1 >= low - 1e-10 * (1 + np.abs(low))),
                lambda: "entropy drops by %g below its neighbours" % float(np.max(low - s1)))
        if c["bc"] == 'periodic':
            e0, e1 = -np.sum(rho * s0[1:-1]), -np.sum(rho1 * s1)
            require(e1 <= e0 + 1e-10 * np.sum(rho * (1 + np.abs(s0[1:-1]))),
                    lambda: "total entropy decreases: %.15g -> %.15g" % (-e0, -e1))
    ctx.label(c["riemann"], c["kind"], c["bc"], c["riemann"] + ("-bounded" if inside else "-outrun"))
    ctx.nontrivial(P.max() / P.min() > 2)


@st.composite
def strong_case(draw):
    k = draw(st.sampled_from([1.0, 2.0, 4.0]))
    span = (10.0 ** -k, 10.0 ** k)
    n = draw(st.integers(1, 6))
    return {"system": "euler", "p": 0, "n": n, "bc": draw(st.sampled_from(['periodic', 'zerograd'])), "g": 1.4,
            "riemann": 'rusanov', "enh": [], "lam": draw(st.sampled_from([0.5, 0.5, 0.37, 0.1])),
            "states": [draw(gen.prim(span, span, draw(st.sampled_from([0.5, 3.0, 12.0])))) for _ in range(n)]}


@PROP.check("strong_positivity", strong_case(), quick=4000, thorough=80000, shards=2,
            rule="non-trivial: density or pressure ratio above fifty")
def strong_positivity(c, ctx):
    """The Rusanov flux keeps density and pressure positive across jumps of any strength."""
    g = c["g"]
    prim = np.array([gen.prim_state(x, g) for x in c["states"]])
    u = ref.prim_to_cons(prim[:, 0], prim[:, 1], prim[:, 2], g).T[:, :, None]
    r = euler_step(c, u)
    smax = float(np.max(np.abs(prim[:, 1]) + np.sqrt(g * prim[:, 2] / prim[:, 0])))
    w = u + c["lam"] * gen.case_dx(c) / smax * r
    with np.errstate(all='ignore'):
        rho, v, p = ref.cons_to_prim(w[:, :, 0], g)
    # pressures far below the kinetic energy drown in its rounding
    require(np.all(rho > 0) and np.all(p > -1e-11 * np.abs(w[:, 2, 0]) - 1e-14 * np.abs(u[:, 2, 0]).max()),
            lambda: "density or pressure not positive after a step: rho %g p %g" % (rho.min(), p.min()))
    big = max(prim[:, 0].max() / prim[:, 0].min(), prim[:, 2].max() / prim[:, 2].min())
    ctx.label(c["bc"], "strong" if big > 50 else "mild")
    ctx.nontrivial(big > 50)
