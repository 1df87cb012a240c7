"""C10: a written output, loaded back, is the same solution."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Discard, Prop, close, require, same

import dg1d.constants as constants
import dg1d.deck as deckmod
import dg1d.dg as dgmod
import dg1d.limiting as limiting
import dg1d.rk as rk
import dg1d.solution as solution

PROP = Prop("C10")
PROP.assumptions = [
    "At least two cells (the loader infers the mesh from the first two centroids); gamma 1.4 (files do not store it).",
    "The loader is constructed for the same system and Riemann solver; enhancement and limiter are set-up options "
    "of a fresh solution, not stored in files: runs with them are continued by an object set up for the same run.",
]


@st.composite
def state_case(draw):
    c = draw(gen.field_case(pmax=9, nmin=2, nmax=30, enh=False, units=True, mixed=True, wide=1100, deep=20))
    if c["g"] != 1.4:
        c["g"], c["bc"] = 1.4, 'periodic'
        c.pop("bc_r", None)
    c["step"] = draw(st.one_of(st.integers(0, 12), st.integers(0, 9999999999)))
    c["t"] = draw(st.one_of(st.integers(0, 100), st.floats(0, 1e6), st.floats(1e-20, 1e-3)))
    c["nstep"] = draw(st.integers(0, 10 ** 7))
    c["wild"] = draw(st.integers(0, 4)) == 0
    c["extra"] = draw(st.lists(st.floats(allow_nan=False, allow_infinity=False), min_size=1, max_size=8))
    c["order0"] = draw(st.integers(0, 4))
    c["into"] = draw(st.sampled_from(['empty', 'empty', 'sinewave 3', 'simplew 40'] if c["system"] == 'advection' else
                                     ['empty', 'empty', 'entrpyw 3', 'shuoshe 40']))
    return c


def field_of(c):
    u = gen.build_field(c)
    if c["wild"]:
        # any double: subnormal, huge, signed zero ...
        k = np.arange(u.size) % len(c["extra"])
        u = np.array(c["extra"])[k].reshape(u.shape)
    return u


def loaded(c, step):
    t = solution.Solution(c.get("into", 'empty'), c["system"], c["order0"], c["riemann"])
    t.loader(step)
    return t


@PROP.check("round_trip", state_case(), quick=1500, thorough=40000, shards=4,
            rule="non-trivial: coefficients beyond the first mode or arbitrary doubles")
def round_trip(c, ctx):
    u = field_of(c)
    with sim.Scratch():
        s = sim.make_solution(c, u)
        s.t, s.n = c["t"], c["nstep"]
        ghosts = np.array(s.u)
        s.printer(c["step"], 0.1)
        same(s.u, ghosts, "the solution after printing")
        n, t, bl, br, xc, w = sim.read_output(c, c["step"])
        require(n == c["nstep"] and t == c["t"], lambda: "file says n=%r t=%r, solution n=%r t=%r" % (n, t, c["nstep"], c["t"]))
        require((bl, br) == (c["bc"], c.get("bc_r", c["bc"])), lambda: "file says boundaries %r" % ((bl, br),))
        same(w, u, "coefficients in the file")
        same(xc, s.xc, "centroids in the file")
        q = loaded(c, c["step"])
        same(q.u[:, q.N_F:-q.N_F], s.u[:, s.N_F:-s.N_F], "loaded coefficients")
        require(q.u.shape == s.u.shape, "loaded solution has no room for ghost cells")
        require((q.t, q.n, q.bc_l, q.bc_r) == (float(c["t"]), c["nstep"], c["bc"], c.get("bc_r", c["bc"])),
                lambda: "loaded header %r" % ((q.t, q.n, q.bc_l, q.bc_r),))
        require((q.N_E, q.N_F, q.basis.p) == (c["n"], s.N_F, c["p"]), "loaded sizes differ")
        same(q.xc, s.xc, "loaded centroids")
        L = abs(s.x[0]) + abs(s.x[-1])
        close(q.x, s.x, 1e-13 * c["n"], "loaded mesh", scale=L)
        close(q.dx, s.dx, 1e-12 * c["n"], "loaded cell size", scale=s.dx)
        # printing what was loaded gives the same bytes
        before = {f: open(f, 'rb').read() for f in os.listdir('.')}
        q.printer(c["step"], 0.7)
        after = {f: open(f, 'rb').read() for f in os.listdir('.')}
        require(before == after, lambda: "printing the loaded solution changes %r" % (
            [f for f in set(before) | set(after) if before.get(f) != after.get(f)],))
    ctx.label(c["system"], "p%d" % c["p"], "wild" if c["wild"] else "field")
    ctx.nontrivial(c["p"] > 0 or c["wild"])


@PROP.check("loaded_residual", state_case(), quick=900, thorough=20000, shards=3,
            rule="non-trivial: non-constant field, loader constructed with another order")
def loaded_residual(c, ctx):
    """The loaded solution is usable: same residual, wave speed, face and node values."""
    c = dict(c, wild=False)
    u = gen.build_field(c)
    with sim.Scratch():
        s = sim.make_solution(c, u)
        s.apply_bc()
        s.printer(c["step"], 0.0)
        R = np.array(dgmod.DG(s).residual(s))
        q = loaded(c, c["step"])
        q.apply_bc()
        same(q.u, s.u, "ghost cells of the loaded solution")
        big = np.abs(u).sum(axis=2).max() + 1e-300
        close(q.collocate(), s.collocate(), 1e-12, "node values of the loaded solution", scale=big)
        close(q.evaluate_faces(), s.evaluate_faces(), 1e-12, "face values of the loaded solution", scale=big)
        close(float(q.max_wave_speed()), float(s.max_wave_speed()), 1e-12, "fastest wave of the loaded solution")
        Q = np.array(dgmod.DG(q).residual(q))
        k = s.N_F
        close(Q[:, k:-k], R[:, k:-k], 1e-10 * c["n"], "residual of the loaded solution",
              scale=np.abs(R).max() + 1e-300)
    ctx.label(c["system"], c["riemann"], c["bc"], "p%d" % c["p"], "order0=%d" % c["order0"])
    ctx.nontrivial(np.ptp(u) > 0 and c["order0"] != c["p"])


@st.composite
def sensor_case(draw):
    c = draw(gen.field_case(pmax=3, nmin=1, nmax=16, enh=False, kinds=('jump', 'rough', 'smooth', 'near'), wide=1100))
    c["thr"] = [draw(st.sampled_from([0.0, 0.02, 0.1, 0.9])), draw(st.sampled_from([0.0, 0.02, 0.1]))]
    c["step"] = draw(st.integers(0, 99))
    return c


@PROP.check("sensor_file", sensor_case(), quick=500, thorough=10000, shards=1,
            rule="non-trivial: some but not all cells flagged")
def sensor_file(c, ctx):
    """The sensor file lists the flag of every interior cell next to its centroid."""
    u = gen.build_field(c)
    with sim.Scratch():
        s = sim.make_solution(c, u, c["thr"])
        s.apply_bc()
        s.sensors.sensing(s)
        flags = np.array(s.sensors.sensors)[1:-1]
        s.printer(c["step"], 0.0)
        name = 'sensor%010d.dat' % c["step"]
        require(os.path.isfile(name), "no sensor file")
        with open(name) as f:
            rows = [l for l in f if not l.startswith('#')]
        require(len(rows) == c["n"], "sensor file has %d rows for %d cells" % (len(rows), c["n"]))
        vals = [r.split(',') for r in rows]
        same([float(v[0]) for v in vals], s.xc, "centroids in the sensor file")
        # '%.0d' prints zero as an empty or '0' field
        same([int(v[1].strip() or '0') for v in vals], flags, "flags in the sensor file")
        # without sensors there is no such file
        t = sim.make_solution(c, u)
        t.printer(c["step"] + 1, 0.0)
        require(not os.path.exists('sensor%010d.dat' % (c["step"] + 1)), "sensor file without sensors")
    ctx.label(c["system"])
    ctx.nontrivial(0 < np.count_nonzero(flags) < c["n"])


@st.composite
def restart_case(draw):
    alike = draw(st.booleans())     # the receiving object was set up for the same run
    c = draw(gen.field_case(pmax=3, nmin=2, nmax=6, enh=alike, kinds=('smooth',)))
    c["alike"] = alike
    c["thr"] = draw(st.sampled_from([None, [0.01, 0.01], [0.05, 0.1]])) if alike else None
    if c["g"] != 1.4 and not alike:
        c["g"], c["bc"] = 1.4, 'periodic'
    c["amp"] = min(c["amp"], 6)
    c["spread"] = min(c["spread"], 4) if c["system"] == 'euler' else 6
    c["rk"] = draw(st.sampled_from(gen.RKS))
    c["nout"] = draw(st.integers(3, 5))
    c["from"] = draw(st.integers(1, 3))
    c["steps"] = draw(st.integers(2, 12))
    c["order0"] = draw(st.integers(0, 3))
    return c


@PROP.check("restart", restart_case(), quick=350, thorough=6000, shards=4,
            rule="non-trivial: steps on both sides of the restart")
def restart(c, ctx):
    """Continuing from a loaded output reproduces the uninterrupted run."""
    u = gen.build_field(c)
    cfl = 0.2
    tf = c["steps"] * sim.model(c).dt(u, cfl) * 0.97
    k = min(c["from"], c["nout"] - 2)
    with sim.Scratch():
        s = sim.make_solution(c, u, c["thr"])
        s.apply_bc()
        lim = 'adaptive_hr' if c["thr"] else ''
        d = sim.deck_of(c, c["rk"], tf, cfl, c["nout"], lim)
        try:
            rk.integrate(s, d, dgmod.DG(s), limiting.Limiter(lim, s))
        except SystemExit:
            raise Discard()
        if not np.all(np.isfinite(s.u)):
            raise Discard()
        full = [sim.read_output(c, i) for i in range(c["nout"])]
        if c["alike"]:
            q = sim.make_solution(c, None, c["thr"])
            q.loader(k)
        else:
            q = loaded(c, k)
        q.apply_bc()
        d.nout = c["nout"] - k
        rk.integrate(q, d, dgmod.DG(q), limiting.Limiter(lim, q))
        part = [sim.read_output(c, i) for i in range(d.nout)]
    sc = np.abs(u).max(axis=(0, 2))
    if c["system"] == 'euler':
        sc[1] = max(sc[1], math.sqrt(sc[0] * sc[2]))
    tol = 1e-8 if c["riemann"] != 'godunov' else 1e-6
    for i in range(d.nout):
        a, b = full[k + i], part[i]
        require(abs(a[1] - b[1]) <= 1e-12 * tf, lambda: "restarted output %d at t=%r, full run t=%r" % (i, b[1], a[1]))
        close(b[5], a[5], tol, "restarted output %d" % i, scale=sc[None, :, None] + 1e-300)
    ctx.label(c["system"], c["rk"], c["bc"], "enhanced" if c.get("enh") else "plain", lim or "unlimited")
    ctx.nontrivial(full[k][0] >= 1 and full[-1][0] > full[k][0])
