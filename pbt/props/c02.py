"""C02: uniform flow and velocity/pressure equilibrium are preserved."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Prop, Discard, close, require

import dg1d.dg as dgmod
import dg1d.limiting as limiting

PROP = Prop("C02")
PROP.assumptions = [
    "Up to rounding relative to the flux scale (Godunov: its fixed point stops at an absolute 1e-6 on pressure).",
]


@st.composite
def config(draw, system=None, pmax=8, nmax=10, maxenh=4, riem=None, bc=None):
    system = system or draw(st.sampled_from(['euler', 'euler', 'advection']))
    key = draw(st.sampled_from([k for k in gen.IC_FOR if k[0] == system and bc in (None, k[1])]))
    p = draw(gen.weighted_order(0, pmax))
    c = {"system": system, "bc": key[1], "g": key[2], "p": p, "n": draw(st.integers(1, nmax)),
         "riemann": (riem or draw(st.sampled_from(gen.RIEMANNS))) if system == 'euler' else '',
         "enh": draw(gen.modes_subset(p, maxenh)) if draw(st.integers(0, 2)) == 0 else []}
    return c


@st.composite
def uniform_case(draw):
    c = draw(config())
    c["state"] = draw(gen.prim((1e-2, 1e2), (1e-1, 1e2), 4.0))
    if c["g"] == 3 and draw(st.booleans()):
        c["state"] = draw(gen.round_prim())         # exactly sonic
    elif draw(st.integers(0, 2)) == 0:
        s = c["state"]
        c["state"] = [s[0] * 10.0 ** draw(st.integers(-8, 8)), s[1], s[2] * 10.0 ** draw(st.integers(-8, 8))]
    return c


def cons(c):
    if c["system"] != 'euler':
        return np.array([c["state"][1] * c["state"][2]])
    a = gen.prim_state(c["state"], c["g"])
    return ref.prim_to_cons(a[0], a[1], a[2], c["g"])


@PROP.check("uniform_residual", uniform_case(), quick=1500, thorough=40000, shards=2,
            rule="non-trivial: flow not at rest")
def uniform_residual(c, ctx):
    U = cons(c)
    u = np.zeros((c["n"], len(U), c["p"] + 1))
    u[:, :, 0] = U
    s = sim.make_solution(c, u)
    r = ref.to_cells(dgmod.DG(s).residual(s), s.N_F, c["p"])
    m = sim.model(c)
    F = np.abs(m.flux(U[None])[0]) + np.abs(U)
    if c["system"] == 'euler':
        a = gen.prim_state(c["state"], c["g"])
        speed = abs(a[1]) + math.sqrt(c["g"] * a[2] / a[0])
        F = F + speed * np.abs(U) + np.array([0.0, U[0] * speed * speed, 0.0])
    F = np.maximum(F, 1e-300)[None, :, None]          # the zero state
    close(r / (F * (2 * c["p"] + 1) / gen.case_dx(c)), np.zeros_like(r), 3e-11, "residual of a uniform state",
          scale=1.0)
    ctx.label(c["system"], c["riemann"], c["bc"], "enh" if c["enh"] else "noenh", "p%d" % c["p"])
    ctx.nontrivial(np.abs(c["state"][1]) > 1e-3)


@st.composite
def uniform_run_case(draw):
    c = draw(config(pmax=4, nmax=6, maxenh=2))
    c["state"] = draw(gen.prim((1e-1, 1e1), (1e-1, 1e1), 2.0))
    c["rk"] = draw(st.sampled_from(gen.RKS))
    c["steps"] = draw(st.integers(1, 6))
    c["nout"] = draw(st.integers(2, 3))
    c["limiter"] = draw(st.sampled_from(['', 'adaptive_hr']))
    c["thr"] = [draw(st.sampled_from([0.0, 0.01])), draw(st.sampled_from([0.0, 0.01]))]
    return c


@PROP.check("uniform_run", uniform_run_case(), quick=500, thorough=8000, shards=3,
            rule="non-trivial: at least two steps, flow not at rest")
def uniform_run(c, ctx):
    U = cons(c)
    u = np.zeros((c["n"], len(U), c["p"] + 1))
    u[:, :, 0] = U
    cfl = 0.3
    tf = c["steps"] * sim.model(c).dt(u, cfl) * 0.95
    r = sim.integrate(c, u, c["rk"], tf, cfl, c["nout"], c["thr"], c["limiter"], max_steps=100)
    sc = np.abs(U).max()
    for o in r.outs:
        close(o[5], u, 1e-9, "uniform state at t=%g" % o[1], scale=sc)
    close(r.end, u, 1e-9, "uniform state at the end", scale=sc)
    ctx.label(c["system"], c["riemann"], c["rk"], c["limiter"] or 'nolimit', "enh" if c["enh"] else "noenh")
    ctx.nontrivial(r.sol.n >= 2 and abs(c["state"][1]) > 1e-3)


# ------------------------------------------------- any density, constant u and p
@st.composite
def contact_case(draw, pmax=6, nmax=10, riem=None, run=False, maxenh=3):
    c = draw(config('euler', pmax, nmax, maxenh, riem))
    c["n"] = max(2, c["n"])
    c["state"] = [1.0, draw(gen.span(-2, 2)), draw(gen.logspan(1e-1, 1e1))]
    c["spread"] = draw(st.integers(0, 10))
    c["amp"] = draw(st.integers(0, 30))
    c["data"] = draw(gen.ints(min(c["n"] * (c["p"] + 1), 60)))
    c["units"] = [0, 0]
    if draw(st.integers(0, 2)) == 0:            # of density and velocity
        c["units"] = [draw(st.integers(-9, 9)), draw(st.integers(-5, 5))]
        unit = 10.0 ** c["units"][1]
        c["state"] = [1.0, c["state"][1] * unit, c["state"][2] * unit * unit * 10.0 ** c["units"][0]]
    return c


def contact_field(c):
    """Random positive density, constant velocity (state[1]) and pressure."""
    n, p, d = c["n"], c["p"], c["data"]
    v, pr, g = c["state"][1], c["state"][2], c["g"]
    rho = np.zeros((n, p + 1))
    i = 0
    for e in range(n):
        rho[e, 0] = 10.0 ** c.get("units", [0])[0] * 10 ** (c["spread"] / 10.0 * d[i % len(d)] / 1000.0 * 0.7)
        i += 1
        for k in range(1, p + 1):
            rho[e, k] = rho[e, 0] * c["amp"] / 100.0 * d[i % len(d)] / 1000.0 / k
            i += 1
    f = 1.0
    for _ in range(60):
        r = rho.copy()
        r[:, 1:] *= f
        u = np.stack([r, v * r, 0.5 * v * v * r], axis=1)
        u[:, 2, 0] += pr / (g - 1)
        if gen.admissible(u, c):
            return u
        f *= 0.6
        if f < 1e-3:
            rho[:, 0] = rho[:, 0].mean() + 0.5 * (rho[:, 0] - rho[:, 0].mean())
    raise Discard()


def check_equilibrium(c, u, tol, what):
    v, pr, g = c["state"][1], c["state"][2], c["g"]
    rho = u[:, 0, :]
    E = 0.5 * v * v * rho
    E = E.copy()
    E[:, 0] += pr / (g - 1)
    a = math.sqrt(g * pr / np.abs(rho[:, 0]).min())
    sc = np.abs(rho).max() * (abs(v) + a)
    close(u[:, 1, :], v * rho, tol, what + ": momentum is not velocity times density", scale=sc)
    close(u[:, 2, :], E, tol, what + ": energy is not that of constant velocity and pressure",
          scale=sc * (abs(v) + a))


@PROP.check("equilibrium_residual", contact_case(), quick=1200, thorough=30000, shards=2,
            rule="non-trivial: density varies and the velocity is not zero")
def equilibrium_residual(c, ctx):
    u = contact_field(c)
    s = sim.make_solution(c, u)
    r = ref.to_cells(dgmod.DG(s).residual(s), s.N_F, c["p"])
    v, g, pr = c["state"][1], c["g"], c["state"][2]
    a = math.sqrt(g * pr / u[:, 0, 0].min())
    k = (2 * c["p"] + 1) / gen.case_dx(c) * (abs(v) + a)
    tol = 1e-9 if c["riemann"] != 'godunov' else 1e-7
    sc = np.abs(u[:, 0]).max() * (abs(v) + a) * k
    close(r[:, 1], v * r[:, 0], tol, "momentum residual of a constant velocity/pressure field", scale=sc)
    close(r[:, 2], 0.5 * v * v * r[:, 0], tol, "energy residual of a constant velocity/pressure field",
          scale=sc * (abs(v) + a))
    ctx.label(c["riemann"], c["bc"], "enh" if c["enh"] else "noenh", "p%d" % c["p"])
    ctx.nontrivial(np.ptp(u[:, 0, 0]) > 1e-3 * np.abs(u[:, 0, 0]).max() and abs(v) > 1e-3 * 10.0 ** c["units"][1])


@st.composite
def contact_run_case(draw):
    c = draw(contact_case(pmax=4, nmax=8, maxenh=2))
    c["rk"] = draw(st.sampled_from(gen.RKS))
    c["steps"] = draw(st.integers(1, 8))
    c["limiter"] = draw(st.sampled_from(['', 'adaptive_hr']))
    c["thr"] = [draw(st.sampled_from([0.0, 0.01])), draw(st.sampled_from([0.0, 0.01]))]
    return c


@PROP.check("equilibrium_run", contact_run_case(), quick=500, thorough=8000, shards=4,
            rule="non-trivial: at least two steps, density varies, velocity not zero")
def equilibrium_run(c, ctx):
    u = contact_field(c)
    cfl = 0.2
    tf = c["steps"] * sim.model(c).dt(u, cfl) * 0.95
    try:
        r = sim.integrate(c, u, c["rk"], tf, cfl, 2, c["thr"], c["limiter"], max_steps=400)
    except SystemExit:
        raise Discard()
    if not np.all(np.isfinite(r.end)) or r.end[:, 0, 0].min() < 0.2 * u[:, 0, 0].min():
        raise Discard()     # unlimited oscillations left the positive states
    check_equilibrium(c, r.end, 1e-8 if c["riemann"] != 'godunov' else 1e-6, "t=%g" % tf)
    ctx.label(c["riemann"], c["rk"], c["limiter"] or 'nolimit', "enh" if c["enh"] else "noenh")
    ctx.nontrivial(r.sol.n >= 2 and np.ptp(u[:, 0, 0]) > 1e-3 * np.abs(u[:, 0, 0]).max()
                   and abs(c["state"][1]) > 1e-3 * 10.0 ** c["units"][1])


@PROP.check("equilibrium_limit", contact_case(), quick=1500, thorough=30000, shards=2,
            rule="non-trivial: the density is limited and the velocity is not zero")
def equilibrium_limit(c, ctx):
    """Limiting keeps constant velocity and pressure."""
    u = contact_field(c)
    s = sim.make_solution(c, u, [-1.0, -1.0])
    s.apply_bc()
    limiting.Limiter('adaptive_hr', s).limit(s)
    w = sim.cells(s)
    v, pr, g = c["state"][1], c["state"][2], c["g"]
    E = 0.5 * v * v * w[:, 0]
    E[:, 0] += pr / (g - 1)
    tol = 1e-12 * 4.0 ** c["p"]
    close(w[:, 1], v * w[:, 0], tol, "limited momentum of a constant velocity/pressure field",
          scale=abs(v) * np.abs(u[:, 0]).max() + 1e-300)
    close(w[:, 2], E, tol, "limited energy of a constant velocity/pressure field", scale=np.abs(u[:, 2]).max())
    ctx.label("p%d" % c["p"], c["bc"])
    ctx.nontrivial(not np.array_equal(w[:, 0], u[:, 0]) and abs(v) > 1e-3 * 10.0 ** c["units"][1])


# ------------------------------------------------------------- stationary contact
@st.composite
def still_case(draw):
    c = {"system": "euler", "bc": "zerograd", "g": 1.4, "p": draw(st.integers(0, 4)),
         "n": draw(st.integers(2, 12)), "riemann": draw(st.sampled_from(['roe', 'godunov'])), "enh": [],
         "rk": draw(st.sampled_from(gen.RKS)), "steps": draw(st.integers(1, 6)),
         "rl": draw(gen.logspan(1e-1, 1e1)), "rr": draw(gen.logspan(1e-1, 1e1)), "pr": draw(gen.logspan(1e-1, 1e2)),
         "limiter": draw(st.sampled_from(['', 'adaptive_hr'])), "face": draw(st.integers(0, 12))}
    return c


@PROP.check("stationary_contact", still_case(), quick=900, thorough=10000, shards=2,
            rule="non-trivial: density jump over 1% strictly inside the domain")
def stationary_contact(c, ctx):
    k = 1 + c["face"] % (c["n"] - 1)
    x0 = -1 + 2.0 * k / c["n"] + 1e-9
    c = dict(c, line="scktube %d %r %r 0.0 %r %r 0.0 %r" % (c["n"], x0 - 2e-9, c["rl"], c["pr"], c["rr"], c["pr"]))
    s = sim.make_solution(c)
    u = sim.cells(s)
    tf = c["steps"] * ref.Model('euler', c["p"], 2.0 / c["n"], 'zerograd').dt(u, 0.1) * 0.9
    r = sim.integrate(c, None, c["rk"], tf, 0.1, 2, [0.0, 0.0], c["limiter"], max_steps=100)
    sc = np.abs(u).max(axis=(0, 2))
    sc[1] = math.sqrt(sc[0] * sc[2])
    close(r.end, u, 1e-8, "stationary contact",
          scale=sc[None, :, None])
    ctx.label(c["riemann"], c["rk"], c["limiter"] or 'nolimit')
    ctx.nontrivial(0 < k < c["n"] and abs(c["rl"] - c["rr"]) > 0.01 * c["rl"])
