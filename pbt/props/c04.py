"""C04: the residual is the Legendre-modal DG weak form (reference model)."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Prop, Discard, close, require
from pbt.props.c03 import scale_of

import dg1d.dg as dgmod
import dg1d.solution as solution

PROP = Prop("C04")
PROP.assumptions = [
    "Reference: independent weak-form implementation (own Gauss nodes, own fluxes, exact rational enhancement weights).",
    "Godunov compared with an exact Riemann solver to 1e-7 of the flux scale (its fixed point stops at a relative change of 1e-9).",
]


@PROP.check("residual", gen.field_case(pmax=9, nmax=16, units=True, mixed=True, wide=1100, deep=16), quick=2400, thorough=60000, shards=4,
            rule="non-trivial: non-constant field")
def residual(c, ctx):
    u = gen.build_field(c)
    s = sim.make_solution(c, u)
    r = ref.to_cells(dgmod.DG(s).residual(s), s.N_F, c["p"])
    m = sim.model(c)
    want = m.residual(u)
    # conditioning of the enhanced reconstruction grows with its degree
    amp = 1.0
    if c["enh"]:
        aL, aR = ref.cached_face_weights(c["p"], sorted(c["enh"]))
        amp = np.abs(aL).sum() + np.abs(aR).sum()
    tol = (1e-7 if c["riemann"] == 'godunov' else 1e-10) * (1 + 0.01 * amp)
    close(r, want, tol, "residual", scale=scale_of(c, u, r))
    ctx.label(c["system"], c["riemann"], c["bc"], "enh%d" % len(c["enh"]), "p%d" % c["p"], c["kind"], "g%g" % c["g"])
    ctx.nontrivial(np.ptp(u) > 0 and (np.ptp(u[:, :, 0], axis=0).max() > 0 or c["p"] > 0))


@st.composite
def reuse_case(draw):
    c = draw(gen.field_case(pmax=5, nmax=8, units=True, mixed=True))
    c["more"] = [draw(gen.ints(len(c["data"]))) for _ in range(2)]
    return c


@PROP.check("solver_reuse", reuse_case(), quick=500, thorough=10000, shards=2,
            rule="non-trivial: three different fields through one solver object")
def solver_reuse(c, ctx):
    """One solver object used on a sequence of fields: no memory of earlier calls."""
    s = sim.make_solution(c, gen.build_field(c))
    d = dgmod.DG(s)
    m = sim.model(c)
    tol = 3e-7 if c["riemann"] == 'godunov' else 1e-9
    for k, data in enumerate([c["data"]] + c["more"] + [c["data"]]):
        u = gen.build_field(dict(c, data=data))
        t = sim.make_solution(c, u)
        r = ref.to_cells(d.residual(t), t.N_F, c["p"])
        close(r, m.residual(u), tol, "residual number %d from one solver" % (k + 1), scale=scale_of(c, u, r))
        require(np.array_equal(sim.cells(t), u), "the residual changed the interior solution")
    ctx.label(c["system"], "p%d" % c["p"], "enh" if c["enh"] else "noenh")
    ctx.nontrivial(c["more"][0] != c["data"])


@st.composite
def collocate_case(draw):
    return draw(gen.field_case(pmax=10, nmax=6, enh=False, units=True, wide=300, deep=20))


@PROP.check("evaluation", collocate_case(), quick=600, thorough=15000, shards=1,
            rule="non-trivial: degree at least one")
def evaluation(c, ctx):
    """Nodal and face values are those of the polynomial the coefficients stand for."""
    u = gen.build_field(c)
    s = sim.make_solution(c, u)
    s.apply_bc()
    p = c["p"]
    x, _ = ref.gauss(p + 1)
    nodes = np.array(s.collocate())
    want = np.einsum('efn,ng->gef', u, ref.legendre(p, x)).reshape(p + 1, -1)
    sc = np.abs(u).sum(axis=2).max() + 1e-300
    close(nodes[:, s.N_F:-s.N_F], want, 1e-12 * (p + 1), "values at the Gauss nodes", scale=sc)
    faces = np.array(s.evaluate_faces())
    ends = np.einsum('efn,ng->gef', u, ref.legendre(p, np.array([-1.0, 1.0]))).reshape(2, -1)
    close(faces[:, s.N_F:-s.N_F], ends, 1e-12 * (p + 1), "values at the faces", scale=sc)
    ctx.label(c["system"], "p%d" % p)
    ctx.nontrivial(p > 0)
