"""C26: what a run says about itself is true."""
import contextlib
import io
import math
import os
import re
import shutil
import subprocess

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Discard, Prop, require
from pbt.props.c09 import Poison

import dg1d.limiting as limiting
import dg1d.rk as rk
import dg1d.solution as solution

PROP = Prop("C26")
PROP.assumptions = [
    "Only the numbers and key words of a line are judged, not its wording: the first whole number is the step, then time, then step "
    "size; a percentage stands before '%'.",
]
NUM = re.compile(r"(?<![\w.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)(?![\w])")


def numbers(line):
    return [float(x) for x in NUM.findall(line)]


def listen():
    return contextlib.redirect_stdout(io.StringIO())


def near(a, b, scale=0.0):
    return abs(a - b) <= 1.5e-6 * abs(b) + scale


def progress(text):
    """[(step, time, step size, percentage of sensors or None)] of a log"""
    out = []
    for line in text.split('\n'):
        if 'written' in line:
            v = numbers(line)
            require(len(v) == 3 and v[0] == int(v[0]), lambda: "progress line %r" % line)
            out.append([int(v[0]), v[1], v[2], None])
        elif '%' in line:
            v = [float(x) for x in re.findall(r"([-+.\deE]+|nan)\s*%", line)]
            require(len(v) == 1 and out and out[-1][3] is None, lambda: "sensor line %r" % line)
            out[-1][3] = v[0]
    return out


def judge(said, outs, steps, sens, eps):
    """outs: [(n, t)] read from the files; steps: {n: size of the step that ended at n}; sens: flags per output"""
    require(len(said) == len(outs), lambda: "%d outputs announced, %d written" % (len(said), len(outs)))
    for k, (line, (n, t)) in enumerate(zip(said, outs)):
        require(line[0] == n, lambda: "output %d: announced step %d, the file says %d" % (k, line[0], n))
        require(near(line[1], t, 1e-300), lambda: "output %d: announced time %r, the file says %.17g" % (k, line[1], t))
        if steps is not None:
            require(k == 0 or n in steps, lambda: "output %d belongs to step %d, which was not taken" % (k, n))
            dt = 0.0 if k == 0 else steps[n]
            require(near(line[2], dt, eps), lambda: "output %d: announced step size %r, the last step was %.17g" % (k, line[2], dt))
        require((line[3] is None) == (sens is None), "percentage of sensors %s" % ("missing" if sens is not None else "without sensors"))
        if sens is not None:
            p = 100.0 * np.count_nonzero(sens[k]) / len(sens[k])
            require(abs(line[3] - p) <= 0.00501, lambda: "output %d: announced %r%% sensors, %.4f%% in the file" % (k, line[3], p))


def flags(k):
    rows = open("sensor%010d.dat" % k).read().split('\n')
    rows = [r for r in rows if r.strip() and not r.startswith('#')]
    return [float(r.split(',')[1].strip() or 0) for r in rows]


@st.composite
def log_case(draw):
    c = draw(gen.field_case(pmax=3, nmin=1, nmax=9, kinds=('smooth', 'jump', 'jump', 'near'), maxenh=1))
    c["amp"] = min(c["amp"], 8)
    c["spread"] = min(c["spread"], 5) if c["system"] == 'euler' else 6
    c["rk"] = draw(st.sampled_from(gen.RKS + ['', 'rk7', 'RK3', 'euler']))
    c["cfl"] = draw(st.sampled_from([0.05, 0.1, 0.2, 0.3]))
    c["nout"] = draw(st.one_of(st.integers(2, 5), st.integers(2, 14)))
    c["steps"] = draw(st.integers(1, 160)) / 16.0
    c["t0"] = draw(st.sampled_from([0, 0, 0, 0.25, 3.0]))
    c["n0"] = draw(st.sampled_from([0, 0, 0, 17]))
    c["thr"] = draw(st.sampled_from([None, [0.005, 0.005], [0.05, 0.02], [-1.0, -1.0], [9e9, 9e9]]))
    c["limit"] = bool(c["thr"]) and draw(st.booleans())
    return c


@PROP.check("run_log", log_case(), quick=700, thorough=15000, shards=6,
            rule="non-trivial: at least three outputs, or sensors, or an aborted run")
def run_log(c, ctx):
    """Each output is announced with its step number, time and last step size, and with the share of cells its
    sensor file flags; a run that stops says at which step and time."""
    u = gen.build_field(c)
    span = c["steps"] * sim.model(c).dt(u, c["cfl"])
    tf = c["t0"] + span
    end = 0
    with sim.Scratch():
        s = sim.make_solution(c, u, c["thr"])
        s.t, s.n = c["t0"], c["n0"]
        s.apply_bc()
        dgs = sim.Recorder(s).watch(s, c, 60 + 20 * c["nout"])
        lim = limiting.Limiter('adaptive_hr' if c["limit"] else '', s)
        if c["limit"]:
            lim.limit(s)
        d = sim.deck_of(c, c["rk"], tf, c["cfl"], c["nout"], 'adaptive_hr' if c["limit"] else '')
        stop = None
        with listen() as out:
            try:
                rk.integrate(s, d, dgs, lim)
            except SystemExit as ex:
                stop = str(ex.code)
        text = out.getvalue()
        known = c["rk"] in gen.RKS
        told = re.search(r"unrecogni[sz]ed|unknown|default", text, re.I)
        require(bool(told) != known, lambda: "time scheme %r: the log %s" % (c["rk"], "calls it unknown" if known else "does not say it is unknown"))
        if not known:
            require(re.search(r"rk\s*4", text, re.I), "the log does not say which scheme replaces an unknown one")
        said = progress(text)
        outs = [sim.read_output(c, k) for k in range(len(said))]
        sens = [flags(k) for k in range(len(said))] if c["thr"] else None
    eps = 16 * np.finfo(float).eps * (abs(tf) + 1e-300)
    if stop is not None:
        if not re.search(r"step", stop, re.I):
            raise Discard()                     # another reason (an interface solver that gives up)
        v = numbers(stop)
        require(any(near(x, float(s.t), 1e-300) for x in v) and any(x == s.n for x in v),
                lambda: "stopped at step %d, t=%.9g, saying %r" % (s.n, s.t, stop))
    ts = [l[1] for l in dgs.log] + [float(s.t)]
    ns = [l[0] for l in dgs.log] + [s.n]
    steps = {n: b - a for n, a, b in zip(ns[1:], ts, ts[1:])}
    if stop is None and not all(math.isfinite(x) for x in ts):
        raise Discard()
    require(stop is not None or len(said) == c["nout"], lambda: "%d outputs announced of %d" % (len(said), c["nout"]))
    judge(said, [(o[0], o[1]) for o in outs], steps, sens, eps)
    ctx.label(c["system"], c["rk"] or 'default', "sensors" if c["thr"] else "plain", "limited" if c["limit"] else "free",
              "stopped" if stop else "finished")
    ctx.nontrivial(c["nout"] > 2 or bool(c["thr"]) or stop is not None)


@st.composite
def stop_case(draw):
    c = draw(gen.field_case(system='euler', pmax=2, nmin=2, nmax=5, enh=False, kinds=('smooth',), riem='rusanov'))
    c["how"] = draw(st.sampled_from(['nan', 'tiny_cfl', 'later', 'later']))
    c["rk"] = draw(st.sampled_from(gen.RKS))
    c["after"] = draw(st.integers(1, 6))
    c["t0"] = draw(st.sampled_from([0, 0.25, 3.0]))
    c["n0"] = draw(st.sampled_from([0, 17, 99999]))
    c["cell"] = draw(st.integers(0, 4))
    return c


@PROP.check("stop_log", stop_case(), quick=300, thorough=4000, shards=1,
            rule="non-trivial: every case (the run stops)")
def stop_log(c, ctx):
    """A run without a valid time step ends with an error that names the step, the time and the reason."""
    u = gen.build_field(c)
    cfl = 0.2
    with sim.Scratch():
        s = sim.make_solution(c, u)
        s.t, s.n = c["t0"], c["n0"]
        s.apply_bc()
        dgs = Poison(s).watch(s, c, 80)
        dgs.cell = c["cell"] % c["n"]
        tf = c["t0"] + 30 * sim.model(c).dt(u, cfl)
        if c["how"] == 'nan':
            s.u[0, 3 + 3 * dgs.cell] = np.nan
        elif c["how"] == 'tiny_cfl':
            cfl *= 1e-18
        else:
            dgs.after = c["after"]
        stop = None
        try:
            rk.integrate(s, sim.deck_of(c, c["rk"], tf, cfl, 3), dgs, limiting.Limiter('', s))
        except SystemExit as ex:
            stop = str(ex.code)
    require(stop is not None, "the run goes on without a valid time step")
    v = numbers(stop)
    require(any(near(x, float(s.t), 1e-300) for x in v) and any(x == s.n for x in v),
            lambda: "stopped at step %d, t=%.9g, saying %r" % (s.n, s.t, stop))
    if c["how"] == 'tiny_cfl':
        require(re.search("small", stop) and any(0 < x < 1e-14 for x in v), lambda: "too small a step reported as %r" % stop)
    else:
        require(re.search("nan", stop, re.I), lambda: "a NaN time step reported as %r" % stop)
    ctx.label(c["how"], c["rk"])
    ctx.nontrivial(True)


@st.composite
def setup_case(draw):
    c = draw(gen.field_case(pmax=3, nmin=2, nmax=5, kinds=('jump',), enh=False))
    c["name"] = draw(st.sampled_from(['adaptive_hr', 'adaptive_hr', '', '0', 'hr', 'Adaptive_HR', 'none']))
    c["bad"] = draw(st.sampled_from([None, None, 'name', 'cells', 'missing', 'number']))
    c["k"] = draw(st.integers(0, 50))
    return c


@PROP.check("setup_log", setup_case(), quick=500, thorough=8000, shards=1,
            rule="non-trivial: an unusable initial condition, or a limiter that limits")
def setup_log(c, ctx):
    """The log says whether limiting takes place, and whether the initial condition could be used."""
    with listen() as out:
        s = sim.make_solution(c, gen.build_field(c), [-1.0, -1.0])
        s.apply_bc()
    require(not re.search("invalid", out.getvalue(), re.I), lambda: "a valid setup is called invalid: %r" % out.getvalue())
    with listen() as out:
        lim = limiting.Limiter(c["name"], s)
    text = out.getvalue()
    no = bool(re.search(r"no limit", text, re.I))
    require(no or re.search(r"adaptive|reconstruction", text, re.I), lambda: "limiter %r: %r" % (c["name"], text))
    before = sim.cells(s)
    lim.limit(s)
    acts = not np.array_equal(before, sim.cells(s))
    require(not (acts and no), lambda: "limiter %r limits but the log says it does not" % c["name"])
    require(no != (c["name"] == 'adaptive_hr'), lambda: "limiter %r: %r" % (c["name"], text))
    if c["bad"]:
        words = gen.ic_line(c).split()
        if c["bad"] == 'name':
            words[0] = ['sine', 'sinwave', 'sod', 'Sinewave'][c["k"] % 4]
        elif c["bad"] == 'cells':
            words[1] = ['many', '', '2.5x', 'n=8'][c["k"] % 4] or 'x'
        elif c["bad"] == 'missing':
            words = words[:1]
        elif c["bad"] == 'number' and words[0] == 'scktube':
            words[2 + c["k"] % (len(words) - 2)] = 'one'
        else:
            raise Discard()
        with listen() as out:
            try:
                b = solution.Solution(' '.join(words), c["system"], c["p"])
            except SystemExit as ex:
                require(ex.code not in (0, None, ''), "the rejected setup reports success")
                ctx.label("rejected")
                ctx.nontrivial(True)
                return
        require(b.N_E == 0 and b.xc.size == 0, lambda: "%r gives a grid of %d cells" % (' '.join(words), b.N_E))
        require(re.search("invalid", out.getvalue(), re.I), lambda: "nothing is said about the unusable initial condition %r" % ' '.join(words))
    ctx.label(c["name"] or 'none', c["bad"] or 'valid', "acts" if acts else "idle")
    ctx.nontrivial(acts or bool(c["bad"]))


@st.composite
def halt_case(draw):
    from pbt.props import c20
    c = draw(c20.run_case(gen.RKS))
    c["how"] = draw(st.sampled_from(['vacuum', 'tiny_cfl', 'too_fast', 'too_fast']))
    c["k"] = draw(st.integers(0, 9))
    return c


@PROP.check("program_stop", halt_case(), quick=64, thorough=1200, shards=4,
            rule="non-trivial: the program stopped")
def program_stop(c, ctx):
    """A program run that finds no valid time step ends with a failure status and says where; one that reports
    success has written every output, and none of them is invalid."""
    from pbt.props import c20
    c = dict(c, omit=False, limiter='', thr=[], enh=[], nout=3)
    tf = 0.5
    if c["how"] == 'vacuum':
        c = dict(c, line="scktube 8 0.0 1.0 0.0 %r 1.0 0.0 1.0" % (-1.0 - c["k"]), system='euler', p=0)
    elif c["how"] == 'tiny_cfl':
        c = dict(c, cfl=1e-16 * 10.0 ** -c["k"])
    else:       # unstable steps on strong waves
        c = dict(c, line="scktube %d 0.0 1.0 0.0 1.0 0.125 0.0 %r" % (8 + c["k"], 10.0 ** -c["k"]), system='euler', p=1 + c["k"] % 2,
                 cfl=1.0 + c["k"])
    d = c20.workspace(c.get("plain"))
    try:
        c20.write_deck(c, tf, os.path.join(d, "deck.inp"))
        r = c20.program(d)
        said = progress(r.stdout)
        old = os.getcwd()
        os.chdir(d)
        try:
            outs = [sim.read_output(c, k) for k in range(len(said))]
        finally:
            os.chdir(old)
        require(c["how"] == 'too_fast' or r.returncode != 0, "no valid time step (%s), and the program reports success" % c["how"])
        if r.returncode == 0:
            require(len(outs) == c["nout"], lambda: "success with %d outputs of %d" % (len(outs), c["nout"]))
            require(math.isfinite(outs[-1][1]), "success at a time that is no number")
        else:
            text = r.stderr
            if re.search(r"godunov|converge", text, re.I):
                raise Discard()         # the interface solver gave up
            require(re.search(r"step", text, re.I), lambda: "the run stops saying %r" % text[-200:])
            v = numbers(text)
            require(any(x == int(x) and x >= outs[-1][0] for x in v if math.isfinite(x)), lambda: "no step number in %r" % text[-200:])
        judge(said, [(o[0], o[1]) for o in outs], None, None, 0.0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.label(c["how"], "stopped" if r.returncode else "finished")
    ctx.nontrivial(r.returncode != 0)


def program_cases():
    from pbt.props import c20
    return c20.run_case()


@PROP.check("program_log", program_cases(), quick=60, thorough=1200, shards=6,
            rule="non-trivial: every case (a run of the program that ends well)")
def program_log(c, ctx):
    """The log of the program agrees with the files it wrote."""
    from pbt.props import c20
    m, case, tf, outs = c20.reference(c, 0.0)
    d = c20.workspace(c.get("plain"))
    try:
        c20.write_deck(c, tf, os.path.join(d, "deck.inp"))
        r = c20.program(d)
        if r.returncode != 0:
            raise Discard()
        got, sens = c20.read_all(c, d)
        env = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null")
        v = subprocess.run(["git", "describe", "--always"], cwd=os.path.dirname(c20.MAIN), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, universal_newlines=True).stdout
        first = [l for l in r.stdout.split('\n') if 'version' in l]
        require(len(first) == 1 and v.strip() in first[0], lambda: "code version %r, git says %r" % (first, v))
        judge(progress(r.stdout), [(o[0], o[1]) for o in got], None, sens if c["thr"] else None, 0.0)
        require(bool(re.search(r"no limit", r.stdout, re.I)) == (not c["limiter"]), "the log is wrong about limiting")
        require(bool(re.search(r"unrecogni[sz]ed", r.stdout, re.I)) == (c["rk"] not in gen.RKS), "the log is wrong about the time scheme")
        require(not re.search("invalid", r.stdout, re.I), "the log calls a valid deck invalid")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.label(c["line"].split()[0], c["rk"] or 'default', "limited" if c["limiter"] else ("sensing" if c["thr"] else "plain"))
    ctx.nontrivial(True)
