"""C22: solutions, solvers and limiters do not remember and do not leak (stateful)."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Discard, Prop, close, fail, require, same

import dg1d.constants as constants
import dg1d.dg as dgmod
import dg1d.limiting as limiting
import dg1d.rk as rk
import dg1d.solution as solution

PROP = Prop("C22")
PROP.assumptions = [
    "The ratio of specific heats is one process-wide setting, so solutions alive together share it (creating a "
    "solution with another value ends the life of the others).",
    "Order of two calls never matters except through the fields they are given; ghost columns are recomputed by "
    "whoever needs them and are not compared.",
]

OPS = ['new', 'copy', 'copy', 'load', 'run', 'copy_data', 'axpy', 'bc', 'residual', 'residual', 'limit', 'sense', 'save', 'load', 'scribble',
       'speed', 'nodes', 'clock', 'run']


@st.composite
def history_case(draw, nmax=26):
    pool = draw(st.lists(gen.field_case(pmax=3, nmin=2, nmax=5), min_size=1, max_size=3))
    for c in pool:
        c["thr"] = [draw(st.sampled_from([0.005, 0.05, -1.0])) for _ in range(2)]
        # Godunov's iteration needs well-behaved data after arbitrary updates: use the other two
        if c["riemann"] == 'godunov':
            c["riemann"] = 'rusanov'
    if draw(st.booleans()):
        pool.append(dict(pool[0], thr=[0.3, 0.3] if draw(st.booleans()) else [-1.0, -1.0]))     # same grid, other sensors
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 5), st.integers(0, 5), st.integers(-40, 40)),
                        min_size=6, max_size=nmax))
    return {"pool": pool, "ops": [list(o) for o in ops]}


def g_of(c):
    # the rarefaction problem sets its own ratio of specific heats whatever the system
    return 3 if c["bc"] == 'zerograd' and gen.IC_FOR[(c["system"], c["bc"], c["g"])] == 'simplew' else 1.4


class Live:
    """A solution under test with its model: the interior field it must hold."""

    def __init__(self, c, s, field):
        self.c, self.s, self.field = c, s, field
        self.flags = np.zeros(field.shape[0], dtype=int)
        self.t, self.n = 0, 0
        self.dgs, self.lim = dgmod.DG(s), limiting.Limiter('adaptive_hr', s)


def healthy(c, u):
    if not np.all(np.isfinite(u)) or np.abs(u).max() > 1e6:
        return False
    return c["system"] != 'euler' or gen.admissible(u, c, 0.02)


def fresh(l):
    s = sim.make_solution(l.c, l.field, l.c["thr"])
    s.t, s.n = l.t, l.n
    return s


def inner(s, r):
    return ref.to_cells(r, s.N_F, s.basis.p)


def agree(got, want, what):
    close(got, want, 1e-11, what, scale=1e-300 + np.abs(want).max())


@PROP.check("histories", history_case(), quick=2800, thorough=100000, shards=8,
            rule="non-trivial: at least four operations took effect on two or more live solutions")
def histories(case, ctx):
    live, saved, done, kinds = [], {}, 0, set()

    def create(c, u):
        s = sim.make_solution(c, u, c["thr"])
        if live and g_of(live[0].c) != g_of(c):
            del live[:]
            saved.clear()
        live.append(Live(c, s, u))
        require(constants.gamma == g_of(c), lambda: "ratio of specific heats is %r after creating a case with %r"
                % (constants.gamma, g_of(c)))

    with sim.Scratch():
        c0 = case["pool"][0]
        create(c0, gen.build_field(c0))
        for name, i, j, v in case["ops"]:
            a = live[i % len(live)]
            b = live[j % len(live)]
            c = a.c
            done += 1
            if name == 'new':
                c = case["pool"][j % len(case["pool"])]
                create(c, gen.build_field(c))
            elif name == 'copy':
                q = Live(c, a.s.copy(), a.field.copy())
                q.t, q.n, q.flags = a.t, a.n, a.flags.copy()
                live.append(q)
            elif name == 'copy_data' and a is not b and a.field.shape == b.field.shape and a.c["system"] == b.c["system"]:
                if not healthy(c, b.field):
                    continue
                a.s.copy_data_only(b.s)
                a.field = b.field.copy()
            elif name == 'axpy':
                x = np.array(a.s.u) * 0.01
                w = a.field + (v / 40.0) * (0.01 * a.field)
                if not healthy(c, w):
                    continue
                a.s.smart_axpy(v / 40.0, x)
                a.field = w
            elif name == 'bc':
                a.s.apply_bc()
            elif name == 'residual':
                f = fresh(a)
                want = inner(f, dgmod.DG(f).residual(f))
                got = a.dgs.residual(a.s)
                agree(inner(a.s, got), want, "residual within the history")
                if a is not b:
                    b.dgs.residual(b.s)
                    agree(inner(a.s, got), want, "residual of one solution after evaluating another")
                if a.field.shape == b.field.shape and a is not b and c["riemann"] == b.c["riemann"] \
                        and c["enh"] == b.c["enh"] and c["bc"] == b.c["bc"] and c["system"] == b.c["system"]:
                    # one solver object serving several solutions (as the time integrator does)
                    agree(inner(a.s, b.dgs.residual(a.s)), want, "residual by another solver object")
            elif name in ('limit', 'sense'):
                m = sim.model(c)
                if ref.sensor_margin(c["system"], m.ghosts(a.field)[:, :, 0], c["thr"], c["g"])[1] < 1e-9:
                    continue
                f = fresh(a)
                f.apply_bc()
                if name == 'limit':
                    limiting.Limiter('adaptive_hr', f).limit(f)
                    w = sim.cells(f)
                    if not healthy(c, w):
                        continue
                    a.s.apply_bc()
                    # a limiter made for another solution on the same grid is as good as its own
                    twin = b.field.shape == a.field.shape and b.c["system"] == c["system"] and v % 2
                    (b.lim if twin else a.lim).limit(a.s)
                    agree(sim.cells(a.s), w, "limited field within the history")
                    a.field = sim.cells(a.s)
                else:
                    f.sensors.sensing(f)
                    a.s.apply_bc()
                    a.s.sensors.sensing(a.s)
                a.flags = np.array(f.sensors.sensors)[1:-1]
            elif name == 'save':
                a.s.printer(abs(v), 0.1)
                saved[abs(v)] = (a, a.field.copy(), a.t, a.n)
            elif name == 'load':
                if not saved:
                    continue
                k = sorted(saved)[j % len(saved)]
                w, field, t, n = saved[k]
                # a later save under the same number by the other system leaves both sets of files
                q = solution.Solution('empty', w.c["system"], i % 4, w.c["riemann"])
                q.loader(k)
                same(sim.cells(q), field, "field loaded from step %d" % k)
                require((q.t, q.n) == (float(t), n), lambda: "loaded clock %r, saved %r" % ((q.t, q.n), (t, n)))
                require(constants.gamma == 1.4, "loading changes the ratio of specific heats")
                constants.gamma = g_of(w.c)         # files do not store it
                if not w.c["enh"] and healthy(w.c, field):
                    f = sim.make_solution(w.c, field)
                    agree(inner(q, dgmod.DG(q).residual(q)), inner(f, dgmod.DG(f).residual(f)), "residual of the loaded solution")
            elif name == 'scribble':
                nf, p1 = a.field.shape[1:]
                e, f, m = j % a.field.shape[0], abs(v) % nf, i % p1
                w = a.field.copy()
                w[e, f, m] *= 1.0 + v / 4000.0
                if not healthy(c, w):
                    continue
                a.s.u[m, (e + 1) * nf + f] = w[e, f, m]
                a.field = w
            elif name == 'clock':
                a.s.t, a.s.n = a.t, a.n = v / 8.0, abs(v)
            elif name == 'speed':
                if healthy(c, a.field):
                    f = fresh(a)
                    f.apply_bc()
                    a.s.apply_bc()
                    agree(a.s.max_wave_speed(), f.max_wave_speed(), "fastest wave within the history")
            elif name == 'nodes':
                f = fresh(a)
                f.apply_bc()
                a.s.apply_bc()
                agree(a.s.collocate(), f.collocate(), "nodal values within the history")
                got = a.s.evaluate_faces()
                want = np.array(f.evaluate_faces())
                agree(got, want, "face values within the history")
                if a is not b:
                    b.s.evaluate_faces()
                    agree(got, want, "face values of one solution after evaluating another")
            elif name == 'run':
                if not healthy(c, a.field) or c["n"] < 2:
                    continue
                f = fresh(a)
                d = sim.deck_of(c, ['rk4', 'rk3', 'low_storage_rk4', ''][i % 4], a.t + 0.004, 0.2, 2)
                try:
                    with np.errstate(all='raise'), sim.Scratch():
                        rk.integrate(f, d, sim.Recorder(f).watch(f, dict(c), 30), limiting.Limiter('', f))
                except (FloatingPointError, sim.Violation):
                    continue
                w = sim.cells(f)
                if not healthy(c, w):
                    continue
                with sim.Scratch():
                    rk.integrate(a.s, d, a.dgs, limiting.Limiter('', a.s))
                agree(sim.cells(a.s), w, "time integration within the history")
                require((a.s.t, a.s.n) == (f.t, f.n), "clock after time integration within the history")
                a.field, a.t, a.n = sim.cells(a.s), f.t, f.n
            else:
                done -= 1
                continue
            kinds.add(name)
            for k, l in enumerate(live):
                same(sim.cells(l.s), l.field, "field of solution %d after %s on solution %d" % (k, name, i % len(live)))
                require((l.s.t, l.s.n) == (l.t, l.n), lambda: "clock of solution %d after %s" % (k, name))
                same(np.array(l.s.sensors.sensors)[1:-1], l.flags, "sensors of solution %d after %s on solution %d"
                     % (k, name, i % len(live)))
    ctx.label(*sorted(kinds))
    ctx.label("live%d" % len(live))
    ctx.nontrivial(done >= 4 and len(live) >= 2)


@st.composite
def fresh_case(draw):
    a = draw(st.lists(gen.field_case(pmax=4, nmin=1, nmax=6, enh=True), min_size=0, max_size=3))
    c = draw(gen.field_case(pmax=4, nmin=1, nmax=6, enh=True))
    if c["system"] == 'euler' and c["riemann"] == 'godunov':
        c["riemann"] = 'roe'
    c["thr"] = [draw(st.sampled_from([0.005, 0.05])) for _ in range(2)]
    return {"past": a, "case": c}


@PROP.check("fresh_after_history", fresh_case(), quick=1500, thorough=30000, shards=2,
            rule="non-trivial: something with another ratio of specific heats or system ran before")
def fresh_after_history(case, ctx):
    """Whatever was created before, a new solution answers as the independent reference does."""
    c = case["case"]
    for b in case["past"]:
        s = sim.make_solution(b, gen.build_field(b))
        try:
            with np.errstate(all='ignore'):
                dgmod.DG(s).residual(s)
        except SystemExit:
            pass
    u = gen.build_field(c)
    s = sim.make_solution(c, u, c["thr"])
    require(constants.gamma == g_of(c), lambda: "ratio of specific heats %r, expected %r" % (constants.gamma, g_of(c)))
    got = inner(s, dgmod.DG(s).residual(s))
    m = sim.model(c, c["thr"], True)
    want = m.residual(u)
    dx = gen.case_dx(c)
    sc = (np.abs(u).max() + np.abs(m.flux(u[:, :, 0])).max()) * (c["p"] + 1) ** 3 / dx * (50.0 if c["enh"] else 1.0)
    close(got, want, 1e-9, "residual of a fresh solution", scale=sc)
    same(sim.cells(s), u, "solution after the residual")
    ctx.label("past%d" % len(case["past"]), c["system"])
    ctx.nontrivial(any((b["g"], b["system"]) != (c["g"], c["system"]) for b in case["past"]))
