"""C01: discrete conservation of mass, momentum, energy (or the advected scalar)."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Prop, Discard, close, require
from pbt.props.c03 import scale_of

import dg1d.dg as dgmod
import dg1d.limiting as limiting

PROP = Prop("C01")
PROP.assumptions = [
    "Conservation is judged up to rounding: 1e-10 of the sum of |u| dx plus the time-integrated flux scale.",
    "Fields are admissible (positive density and pressure at nodes and faces).",
]


def res_of(c, u):
    s = sim.make_solution(c, u)
    d = dgmod.DG(s)
    r = d.residual(s)
    return ref.to_cells(r, s.N_F, c["p"]), s


@PROP.check("residual_balance", gen.field_case(pmax=8, units=True, wide=600, deep=14), quick=2400, thorough=60000, shards=3,
            rule="non-trivial: more than one cell and a non-constant field")
def residual_balance(c, ctx):
    u = gen.build_field(c)
    if c["bc"] == 'zerograd':
        # flat end cells: the boundary fluxes are then the physical fluxes of the end states
        u[0, :, 1:] = 0
        u[-1, :, 1:] = 0
        if c["system"] == 'euler' and not gen.admissible(u, c):
            raise Discard()
    m = sim.model(c)
    want = np.zeros(u.shape[1])
    if c["bc"] == 'zerograd':
        want = m.flux(u[:1, :, 0])[0] - m.flux(u[-1:, :, 0])[0]
    r, s = res_of(c, u)
    require(np.all(np.isfinite(r)), "residual is not finite")
    dx = gen.case_dx(c)
    got = sim.totals(r, dx)
    F = scale_of(c, u, r)[0, :, 0] * dx / (2 * c["p"] + 1)
    scale = np.abs(r[:, :, 0]).sum(axis=0) * dx + F + np.abs(want)
    tol = 1e-11 if c["riemann"] != 'godunov' or c["bc"] == 'periodic' else 1e-7
    close(got, want, tol, "sum of cell-average residuals (rate of change of the totals)", scale=scale)
    ctx.label(c["system"], c["bc"], c["riemann"], "p%d" % c["p"], "enh" if c["enh"] else "noenh")
    ctx.nontrivial(c["n"] > 1 and np.ptp(u[:, :, 0]) > 0)


@st.composite
def limit_case(draw):
    c = draw(gen.field_case(pmax=6, enh=False, nmin=1, nmax=12, units=True, mixed=True, wide=300, deep=9))
    c["thr"] = [draw(st.sampled_from([0.0, 0.0, 0.01, 0.05, 0.2])) for _ in range(2)]
    return c


@PROP.check("limiter_averages", limit_case(), quick=1200, thorough=30000, shards=2,
            rule="non-trivial: the limiter changed the field")
def limiter_averages(c, ctx):
    u = gen.build_field(c)
    s = sim.make_solution(c, u, c["thr"])
    s.apply_bc()
    limiting.Limiter('adaptive_hr', s).limit(s)
    v = sim.cells(s)
    scale = 1e-300 + np.abs(u).sum(axis=2).max(axis=0)
    close(v[:, :, 0], u[:, :, 0], 1e-11 * 4 ** c["p"], "cell averages after limiting", scale=scale)
    ctx.label(c["system"], "p%d" % c["p"])
    ctx.nontrivial(not np.array_equal(u, v))


@st.composite
def run_case(draw, bc='periodic'):
    c = draw(gen.field_case(bc=bc, pmax=4, nmin=2, nmax=8, kinds=('smooth', 'smooth', 'jump', 'rough', 'near'),
                            maxenh=2))
    c["amp"] = min(c["amp"], 10)
    c["rk"] = draw(st.sampled_from(gen.RKS + ['']))
    c["cfl"] = draw(st.sampled_from([0.1, 0.25, 0.4]))
    c["steps"] = draw(st.integers(1, 6))
    c["nout"] = draw(st.integers(2, 4))
    c["limiter"] = draw(st.sampled_from(['', '', 'adaptive_hr']))
    c["thr"] = [0.02, 0.02]
    return c


def run_time(c, u, steps):
    """A final time of about `steps` CFL steps."""
    m = sim.model(c)
    return steps * m.dt(u, c["cfl"]) * 0.97


@PROP.check("periodic_runs", run_case(), quick=700, thorough=12000, shards=6,
            rule="non-trivial: at least two steps and the field really moved")
def periodic_runs(c, ctx):
    u = gen.build_field(c)
    tf = run_time(c, u, c["steps"])
    try:
        r = sim.integrate(c, u, c["rk"], tf, c["cfl"], c["nout"], c["thr"], c["limiter"], max_steps=400)
    except SystemExit:
        raise Discard()     # the run left the admissible states (reported, not hidden)
    if not np.all(np.isfinite(r.end)):
        raise Discard()
    dx = gen.case_dx(c)
    t0 = sim.totals(u, dx)
    m = sim.model(c)
    scale = (np.abs(u[:, :, 0]).sum(axis=0) * dx).max() + tf * np.abs(
        m.flux(u[:, :, 0])).max()
    for k, o in enumerate(r.outs):
        close(sim.totals(o[5], dx), t0, 1e-10, "totals at output %d (t=%g)" % (k, o[1]), scale=scale)
    close(sim.totals(r.end, dx), t0, 1e-10, "totals at the end", scale=scale)
    ctx.label(c["system"], c["rk"] or 'default', c["riemann"], c["limiter"] or 'nolimit',
              "enh" if c["enh"] else "noenh")
    ctx.nontrivial(r.sol.n >= 2 and np.max(np.abs(r.end - u)) > 1e-6 * np.max(np.abs(u)))


@st.composite
def tube_case(draw):
    g = 1.4
    L, R = draw(gen.prim((0.2, 5), (0.2, 5), 0.8)), draw(gen.prim((0.2, 5), (0.2, 5), 0.8))
    n = draw(st.integers(14, 36))
    c = {"system": "euler", "bc": "zerograd", "g": g, "p": draw(st.integers(0, 3)), "n": n,
         "riemann": draw(st.sampled_from(gen.RIEMANNS)), "enh": [], "L": L, "R": R,
         "x0": draw(st.integers(-10, 10)) / 100.0,
         "rk": draw(st.sampled_from(['rk3', 'rk4', 'rk8', 'low_storage_rk4'])),
         "cfl": draw(st.sampled_from([0.2, 0.4])), "limiter": draw(st.sampled_from(['', 'adaptive_hr'])),
         "steps": draw(st.integers(2, 4))}
    return c


def tube_line(c):
    a = gen.prim_state(c["L"], 1.4)
    b = gen.prim_state(c["R"], 1.4)
    return "scktube %d %r %r %r %r %r %r %r" % ((c["n"], c["x0"]) + tuple(float(v) for v in a)
                                               + tuple(float(v) for v in b)), a, b


@PROP.check("shock_tube_balance", tube_case(), quick=320, thorough=6000, shards=3,
            rule="non-trivial: different end states and at least two steps")
def shock_tube_balance(c, ctx):
    line, a, b = tube_line(c)
    c = dict(c, line=line)
    s0 = sim.make_solution(c)
    u = sim.cells(s0)
    dx = 2.0 / c["n"]
    m = ref.Model('euler', c["p"], dx, 'zerograd')
    tf = c["steps"] * m.dt(u, c["cfl"]) * 0.9
    try:
        r = sim.integrate(c, None, c["rk"], tf, c["cfl"], 2, [0.02, 0.02], c["limiter"], max_steps=400)
    except SystemExit:
        raise Discard()
    UL, UR = ref.prim_to_cons(*a, 1.4), ref.prim_to_cons(*b, 1.4)
    if not np.all(np.isfinite(r.end)) or np.max(np.abs(r.end[0, :, 0] - UL)) > 1e-9 * np.abs(UL).max() \
            or np.max(np.abs(r.end[-1, :, 0] - UR)) > 1e-9 * np.abs(UR).max():
        raise Discard()
    FL, FR = ref.phys_flux(UL[None], 1.4)[0], ref.phys_flux(UR[None], 1.4)[0]
    want = sim.totals(u, dx) + tf * (FL - FR)
    scale = sim.totals(np.abs(u), dx).max() + tf * (np.abs(FL) + np.abs(FR)).max()
    close(sim.totals(r.end, dx), want, 1e-7 if c["riemann"] == 'godunov' else 1e-8,
          "totals of the shock tube", scale=scale)
    ctx.label(c["riemann"], c["rk"], c["limiter"] or 'nolimit')
    ctx.nontrivial(r.sol.n >= 2 and np.max(np.abs(UL - UR)) > 1e-3)
