"""C09: time steps respect the CFL condition and outputs appear exactly when asked for."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Discard, Prop, Violation, close, fail, require

import dg1d.dg as dgmod
import dg1d.limiting as limiting
import dg1d.rk as rk

PROP = Prop("C09")
PROP.assumptions = [
    "At least two outputs (the initial state is output 0); positive final time.",
    "A step that would land exactly on an output time may be counted as reaching it or leave a zero-length step.",
]


@st.composite
def run_case(draw):
    c = draw(gen.field_case(pmax=3, nmin=1, nmax=6, kinds=('smooth', 'smooth', 'jump', 'near'), maxenh=1, wide=1023))
    c["amp"] = min(c["amp"], 8)
    c["spread"] = min(c["spread"], 5) if c["system"] == 'euler' else 6
    c["rk"] = draw(st.sampled_from(gen.RKS + ['']))
    c["cfl"] = draw(st.sampled_from([0.05, 0.1, 0.2, 0.3, 0.5, 1.0]))
    c["nout"] = draw(st.one_of(st.integers(2, 5), st.integers(2, 25)))
    c["steps"] = draw(st.one_of(st.integers(1, 60).map(lambda k: k / 20.0), st.integers(1, 10).map(float)))
    long = draw(st.integers(0, 39)) if c["n"] <= 6 else 0
    if long >= 38 and c["p"] <= 1:              # many steps
        c["steps"] = float(draw(st.integers(60, 350)))
        c["rk"] = 'rk3'
    elif long == 37:                            # many outputs
        c["nout"] = draw(st.integers(90, 130))
    elif c["n"] > 6:
        c["nout"] = min(c["nout"], 5)
    c["t0"] = draw(st.sampled_from([0, 0, 0, 0.25, 3.0]))
    c["n0"] = draw(st.sampled_from([0, 0, 0, 17]))
    return c


def expected_times(t0, tf, nout):
    return [t0 + (tf - t0) * k / (nout - 1) for k in range(nout)]


def steps_so_far(log, c, cfl, dx, tf):
    for (n, t, smax), (n1, t1, _) in zip(log, log[1:]):
        if not np.isfinite(smax) or not np.isfinite(t1):
            break
        lim = cfl * dx / (smax * (2 * c["p"] + 1))
        eps = 8 * np.finfo(float).eps * (abs(tf) + 1e-300)
        require(n1 == n + 1, lambda: "step counter goes from %d to %d" % (n, n1))
        require(-eps <= t1 - t <= lim * (1 + 1e-9) + eps,
                lambda: "step %d: dt=%.15g but the CFL limit is %.15g" % (n, t1 - t, lim))


@PROP.check("schedule", run_case(), quick=900, thorough=20000, shards=5,
            rule="non-trivial: some step ends at an output before the end, or several outputs fall in one CFL step")
def schedule(c, ctx):
    u = gen.build_field(c)
    dx = gen.case_dx(c)
    cfl = c["cfl"] if c["system"] != 'euler' or c["p"] == 0 else min(c["cfl"], 0.3)
    span = c["steps"] * sim.model(c).dt(u, cfl)
    t0, n0 = c["t0"], c["n0"]
    tf = t0 + span
    log = []
    with sim.Scratch():
        s = sim.make_solution(c, u)
        s.t, s.n = t0, n0
        s.apply_bc()
        dgs = sim.Recorder(s).watch(s, c, 60 + 20 * c["nout"] + 3 * int(c["steps"]))
        d = sim.deck_of(c, c["rk"], tf, cfl, c["nout"])
        try:
            rk.integrate(s, d, dgs, limiting.Limiter('', s))
        except SystemExit:
            # an unstable run; the steps up to there must still have been proper ones
            steps_so_far(dgs.log, c, cfl, dx, tf)
            raise Discard()
        import os
        files = sorted(f for f in os.listdir('.') if f.endswith('.dat'))
        outs = [sim.read_output(c, k) for k in range(c["nout"])]
    log = dgs.log
    if not np.all(np.isfinite(sim.cells(s))):
        steps_so_far(log, c, cfl, dx, tf)
        raise Discard()
    require(len(files) == c["nout"] * (3 if c["system"] == 'euler' else 1),
            lambda: "%d output files for %d outputs: %s" % (len(files), c["nout"], files[-4:]))
    want = expected_times(t0, tf, c["nout"])
    eps = 8 * np.finfo(float).eps * (abs(tf) + 1e-300)
    for k, o in enumerate(outs):
        require(abs(o[1] - want[k]) <= eps, lambda: "output %d is at t=%.17g instead of %.17g" % (k, o[1], want[k]))
    require(abs(s.t - tf) <= eps, lambda: "run ends at t=%.17g instead of %.17g" % (s.t, tf))
    require(np.array_equal(outs[0][5], u), "output 0 is not the initial state")
    require(np.array_equal(outs[-1][5], sim.cells(s)), "the last output is not the final state")
    # steps: log holds (n, t, smax) at the start of every step
    ns = [l[0] for l in log] + [s.n]
    ts = [l[1] for l in log] + [float(s.t)]
    require(ns == list(range(n0, n0 + len(log) + 1)), lambda: "step counter %r" % ns[:8])
    marks = want[1:]
    clipped = 0
    for i, (n, t, smax) in enumerate(log):
        dt = ts[i + 1] - ts[i]
        lim = cfl * dx / (smax * (2 * c["p"] + 1))
        slack = 1e-9 * lim + eps
        require(dt >= -eps, lambda: "time goes backwards at step %d" % i)
        require(dt <= lim + slack, lambda: "step %d: dt=%.15g exceeds the CFL limit %.15g" % (i, dt, lim))
        at = [m for m in marks if abs(ts[i + 1] - m) <= eps]
        if at:
            clipped += 1
        else:
            require(abs(dt - lim) <= slack, lambda: "step %d: dt=%.15g is not the CFL step %.15g although no output is due"
                    % (i, dt, lim))
        over = [m for m in marks if ts[i] + eps < m < ts[i + 1] - eps]
        require(not over, lambda: "step %d jumps over the output time %r" % (i, over))
    # every output carries the step number at which its time was reached
    for k in range(1, c["nout"]):
        i = outs[k][0] - n0
        require(0 < i < len(ts) and abs(ts[i] - want[k]) <= eps,
                lambda: "output %d has step number %d but that step ends at another time" % (k, outs[k][0]))
    ctx.label(c["system"], c["rk"] or 'default', "nout%d" % min(c["nout"], 6), "restart" if t0 else "from0",
              "dense" if c["nout"] - 1 > c["steps"] else "sparse")
    ctx.nontrivial(c["nout"] > 2)


@st.composite
def adjust_case(draw):
    return {"t": draw(st.integers(0, 1000)) / 64.0, "a": draw(st.integers(0, 1000)) / 256.0,
            "b": draw(st.sampled_from([0, 0, 1])) * draw(st.integers(1, 1000)) / 256.0,
            "dt": draw(st.one_of(st.integers(1, 2000).map(lambda k: k / 256.0), gen.logspan(1e-6, 10)))}


@PROP.check("next_step", adjust_case(), quick=3000, thorough=60000, shards=1,
            rule="non-trivial: the proposed step passes the next output time")
def next_step(c, ctx):
    """The clipped step for every relation of dt, t, next output time and final time."""
    t = c["t"]
    tout = t + c["a"]
    tf = tout + c["b"]
    dt, out, done = rk.adjust_for_output(c["dt"], t, tf, tout)
    gap = tout - t
    if c["dt"] < gap:
        require((dt, bool(out), bool(done)) == (c["dt"], False, False),
                lambda: "dt=%r before the next output changed to %r" % (c["dt"], (dt, out, done)))
    elif c["dt"] > gap:
        require(dt == gap and bool(out), lambda: "step %r over the output at distance %r gives %r" % (c["dt"], gap, (dt, out)))
        require(bool(done) == (tout == tf), lambda: "done=%r with %r left after the output" % (done, tf - tout))
    else:
        require(dt == gap and (not done or (out and tout == tf)), lambda: "exact hit gives %r" % ((dt, out, done),))
    ctx.label("pass" if c["dt"] > gap else "free", "final" if tout == tf else "inner")
    ctx.nontrivial(c["dt"] > gap)


@st.composite
def abort_case(draw):
    c = draw(gen.field_case(system='euler', pmax=2, nmin=2, nmax=5, enh=False, kinds=('smooth',), riem='rusanov'))
    c["how"] = draw(st.sampled_from(['nan', 'negative', 'tiny_cfl', 'huge_speed', 'inf', 'later', 'later']))
    c["after"] = draw(st.integers(1, 25))
    c["n0"] = draw(st.sampled_from([0, 0, 1, 5, 13, 999]))
    c["rk"] = draw(st.sampled_from(gen.RKS))
    c["cell"] = draw(st.integers(0, 4))
    c["field"] = draw(st.integers(0, 2))
    return c


class Poison(sim.Recorder):
    """Turns one cell into NaN from a given step on."""
    after, cell = None, 0

    def residual(self, sol):
        f = super().residual(sol)
        if self.after is not None and len(self.log) >= self.after:
            f = np.array(f)
            f[:, 3 * (1 + self.cell):3 * (2 + self.cell)] = np.nan
        return f


@PROP.check("abort", abort_case(), quick=300, thorough=4000, shards=1,
            rule="non-trivial: every case (a state from which no sane time step exists)")
def abort(c, ctx):
    """A NaN or vanishing time step stops the run with an error, at once."""
    u = gen.build_field(c)
    cfl, e = 0.3, c["cell"] % c["n"]
    if c["how"] == 'nan':
        u[e, c["field"], 0] = np.nan
    elif c["how"] == 'inf':
        u[e, 1, 0] = np.inf
    elif c["how"] == 'later':
        cfl = 0.1
    elif c["how"] == 'negative':
        u[e, 2, 0] = -abs(u[e, 2, 0]) - 10.0
    elif c["how"] == 'tiny_cfl':
        cfl = 1e-18
    else:
        u[e, 1, 0] *= 1.0
        u[e, 1, 0] = u[e, 0, 0] * 1e16
        u[e, 2, 0] = u[e, 0, 0] * 1e32
    with sim.Scratch():
        s = sim.make_solution(c, u)
        s.n = c["n0"]
        s.apply_bc()
        dgs = Poison(s).watch(s, c, 50)
        dgs.after, dgs.cell = c["after"] if c["how"] == 'later' else None, e
        d = sim.deck_of(c, c["rk"], 1.0, cfl, 3)
        if c["how"] == 'later':
            d.finaltime = 60 * sim.model(c).dt(u, cfl)
        try:
            rk.integrate(s, d, dgs, limiting.Limiter('', s))
        except SystemExit as ex:
            require(ex.code not in (0, None, ''), "the aborted run reports success")
            import os
            late = [f for f in os.listdir('.') if f.endswith('.dat') and not f.endswith('0000000000.dat')]
            if c["how"] == 'later':
                # the poisoned step itself may be complete, nothing comes after it
                require(s.n - c["n0"] <= c["after"] + 1, lambda: "%d steps after the state became invalid" % (s.n - c["n0"] - c["after"]))
                late = []
            require(not late, lambda: "a run without a time step wrote %r" % late)
        else:
            fail("the run went on from a state with no valid time step (%s)" % c["how"])
    ctx.label(c["how"], c["rk"])
    ctx.nontrivial(True)
