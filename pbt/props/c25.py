"""C25: the convergence study runs the solver on what it says and plots the errors of those runs."""
import datetime
import io
import os
import re
import runpy
import shlex
import shutil
import subprocess
import sys
import time

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", os.environ.get("PBT_SCRATCH", "/tmp"))

import numpy as np
from hypothesis import strategies as st

from pbt import boot, gen, sim
from pbt.core import Discard, Prop, close, fail, require

import dg1d.deck as deckmod

PROP = Prop("C25")
PROP.assumptions = [
    "Launching the solver is replaced by a recorder of command, working directory and deck (the full study takes "
    "hours); what the program makes of a deck is C20.",
    "Errors are compared up to one common factor; figures are read from the drawn lines.",
]
STUDY = os.path.join(boot.REPO, "advection_convergence")


class Place(sim.Scratch):
    """A scratch copy of the study next to the real package; the working directory is the study."""

    def __enter__(self):
        top = super().__enter__()
        os.mkdir("study")
        os.symlink(os.path.join(boot.REPO, "dg1d"), "dg1d")
        os.chdir("study")
        return os.path.join(top, "study")


def settings(path):
    d = deckmod.Deck()
    d.parser(path)
    return {k: getattr(d, k) for k in ('system', 'rk', 'ic', 'nout', 'finaltime', 'cfl', 'order')}


@st.composite
def old_case(draw):
    name = st.sampled_from(['1', '2', '3', '4', '8', '16', '64', 'data', 'u0000000000.dat', 'deck.inp', 'logfile'])
    first = st.sampled_from(['4', '4', '4', '1', '2', '3', 'data', 'deck.inp'])
    return {"old": [[a] + b for a, b in draw(st.lists(st.tuples(first, st.lists(name, min_size=1, max_size=2)), max_size=6))]}


@PROP.check("decks", old_case(), quick=150, thorough=2000, shards=2,
            rule="non-trivial: results of an earlier study are in the way")
def decks(c, ctx):
    """Every run of the study starts the solver on a deck of that order and resolution, in a directory of its
    own that keeps what the solver prints, one run after another; results of other orders are left alone."""
    runs = []
    with Place() as top:
        old = {}
        for parts in c["old"]:
            path = os.path.join(top, *parts)
            if os.path.exists(path) or any(os.path.isfile(os.path.join(top, *parts[:i])) for i in range(1, len(parts))):
                continue
            os.makedirs(os.path.dirname(path), exist_ok=True)
            old[os.path.relpath(path, top)] = text = "old %r" % (parts,)
            with open(path, "w") as f:
                f.write(text)
        if any(os.path.isfile(os.path.join(top, str(k))) for k in range(1, 5)):
            raise Discard()

        class Run:
            """Stands for the solver's process: notes what it was started on and says so on its output."""
            going = []

            def __init__(self, cmd, *a, **k):
                require(not self.going, "a run is started before the one before it has ended")
                kw = k
                words = shlex.split(cmd) if isinstance(cmd, str) else [str(w) for w in cmd]
                here = os.path.realpath(k.get("cwd") or os.getcwd())
                k = [i for i, w in enumerate(words) if w in ('-d', '--deck')]
                deck = words[k[0] + 1] if k else 'deck.inp'
                prog = [w for w in words if w.endswith('main.py')]
                runs.append((os.path.realpath(os.path.join(here, prog[0])) if prog else None, here,
                             settings(os.path.join(here, deck))))
                self.returncode, self.args, self.pid, self.asked = None, cmd, 0, 0
                self.said = "Elapsed time %d\n" % len(runs)
                self.pipe = None
                out = kw.get("stdout")
                redirect = [w for w in words if w.startswith('>')]
                if redirect:
                    i = [j for j, w in enumerate(words) if w.startswith('>')][0]
                    with open(os.path.join(here, words[i].lstrip('>') or words[i + 1]), "a" if words[i][1:2] == '>' else "w") as f:
                        f.write(self.said)
                elif out == subprocess.PIPE:
                    text = kw.get("text") or kw.get("universal_newlines") or kw.get("encoding")
                    self.pipe = io.StringIO(self.said) if text else io.BytesIO(self.said.encode())
                elif out is not None and out != subprocess.DEVNULL:
                    os.write(out if isinstance(out, int) else out.fileno(), self.said.encode())
                self.stdout, self.stderr, self.stdin = self.pipe, None, None
                self.going.append(self)

            def poll(self):
                self.asked += 1
                if self.asked > 2:              # a run takes a while
                    self.wait()
                return self.returncode

            def wait(self, *a, **k):
                self.going[:] = []
                self.returncode = 0
                return 0

            def communicate(self, *a, **k):
                self.wait()
                return (self.pipe.read() if self.pipe else None), None

            def kill(self, *a):
                pass

            terminate = send_signal = kill

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.wait()

        def system(cmd):
            Run(cmd, shell=True).wait()
            return 0

        saved = subprocess.Popen, sys.argv, list(sys.path), os.system
        subprocess.Popen, os.system = Run, system
        mods = {k: sys.modules.pop(k, None) for k in ('deck',)}
        sys.argv = ['run.py']
        for k in list(sys.path_importer_cache):
            if not os.path.isabs(k):            # remembered for the directory of an earlier case
                del sys.path_importer_cache[k]
        try:
            runpy.run_path(os.path.join(STUDY, "run.py"), run_name='__main__')
        finally:
            subprocess.Popen, sys.argv, sys.path[:], os.system = saved
            for k, m in mods.items():
                sys.modules.pop(k, None)
                if m is not None:
                    sys.modules[k] = m
        main = os.path.realpath(os.path.join(boot.REPO, "dg1d", "main.py"))
        rt = os.path.realpath(top)
        seen = set()
        require(len(runs) >= 2, "the study starts %d runs" % len(runs))
        for prog, here, s in runs:
            require(prog == main, lambda: "the command starts %r from %s, the solver is %r" % (prog, os.path.relpath(here, rt), main))
            rel = os.path.relpath(here, rt).split(os.sep)
            require(len(rel) == 2, lambda: "run in %r, expected order/resolution" % (rel,))
            require(s["order"] == int(rel[0]) and s["ic"].split() == ['sinewave', rel[1]],
                    lambda: "deck of %r has order %r and %r" % (rel, s["order"], s["ic"]))
            require((s["system"], s["rk"], s["nout"], s["finaltime"], s["cfl"]) == ('advection', 'rk12', 11, 8.0, 0.5),
                    lambda: "deck of %r: %r" % (rel, s))
            require(os.path.isfile(os.path.join(here, 'deck.inp')), "no deck in the run's directory")
            seen.add(tuple(rel))
        for i, (prog, here, s) in enumerate(runs):
            log = os.path.join(here, 'logfile')
            require(os.path.isfile(log) and open(log).read() == "Elapsed time %d\n" % (i + 1),
                    lambda: "the logfile of %s does not hold what the solver printed" % os.path.relpath(here, rt))
        require(len(seen) == len(runs), "two runs share a directory")
        orders = {r[0] for r in seen}
        for f, text in old.items():
            if f.split(os.sep)[0] not in orders:
                require(os.path.isfile(f) and open(f).read() == text, lambda: "the study touches %s" % f)
            else:
                require(not os.path.isfile(f) or open(f).read() != text, lambda: "results of an old study remain: %s" % f)
        require(os.path.realpath(os.getcwd()) == rt, "the study ends in another directory")
    ctx.label("old%d" % len(old), "orders%s" % ",".join(sorted(orders)))
    ctx.nontrivial(any(f.split(os.sep)[0] in orders for f in old))


def figures(figs, want):
    """The two figures against want[order] = sorted (cells, error, seconds)."""
    require(len(figs) == 2, lambda: "%d figures" % len(figs))
    f1, f2 = (figs[k] for k in sorted(figs))
    marks = [[m for m in f if m != ''] for f in (f1, f2)]
    require(len(marks[0]) == 4 and sorted(marks[1]) == sorted(marks[0]), lambda: "curves %r" % marks)
    # which marker is which order: in the order drawn
    unit, left = None, list(want)
    for m in f1:
        if m == '':
            continue
        w = left.pop(0)
        x, y = f1[m]
        close(x, np.array([p[0] for p in w], float), 1e-12, "numbers of cells")
        r = y / np.array([p[1] for p in w])
        unit = r[0] if unit is None else unit
        close(r, np.full(len(r), unit), 1e-5, "plotted error over the L2 error", scale=abs(unit))
        require(unit > 0, "plotted error is not positive")
        close(f2[m][0], np.array([p[2] for p in w]), 1e-9, "elapsed times", scale=np.array([p[2] for p in w]))
        close(f2[m][1], y, 1e-12, "errors in the efficiency figure", scale=np.abs(y))
    x, y = f1.get('', np.zeros((2, 0)))
    i = 0
    for order, w in zip((1, 2, 3, 4), want):
        k = len(w)
        require(len(x) >= i + k, "theoretical lines missing")
        t = unit * w[0][1] * (float(w[0][0]) / np.array([p[0] for p in w])) ** (2 * order + 1)
        close(x[i:i + k], np.array([p[0] for p in w], float), 1e-12, "theoretical line: numbers of cells")
        close(y[i:i + k], t, 1e-5, "theoretical line of order %d" % order, scale=np.abs(t))
        i += k


@st.composite
def error_case(draw):
    out = []
    for order in (1, 2, 3, 4):
        res = draw(st.lists(st.sampled_from([2, 3, 4, 8, 10, 16, 32, 100]), min_size=2, max_size=4, unique=True))
        out.append([[r, draw(gen.logspan(1e-9, 1.0)), draw(gen.logspan(1e-2, 1e6)), draw(gen.ints(12))] for r in res])
    return {"runs": out, "extra": draw(st.integers(0, 3))}


@PROP.check("error_plot", error_case(), quick=400, thorough=6000, shards=8,
            rule="non-trivial: resolutions given out of order")
def error_plot(c, ctx):
    """The error figure shows the L2 difference between the first and the last cell averages against the number
    of cells, with a line of slope 2p+1; the efficiency figure shows it against the elapsed time."""
    from pbt.props.c21 import run_tool
    with Place() as top:
        want = []
        for order, runs in zip((1, 2, 3, 4), c["runs"]):
            pts = []
            for res, size, sec, data in runs:
                d = os.path.join(top, str(order), str(res))
                os.makedirs(d)
                x = -1 + (np.arange(res) + 0.5) * 2.0 / res
                base = np.array([data[i % 12] / 1000.0 for i in range(res)])
                e = size * np.array([1 + 0.3 * np.sin(i + data[i % 12]) for i in range(res)])
                for k, u in ((0, base), (10, base + e)):
                    m = np.stack([x, u] + [u * 0 + 7 + k] * c["extra"], axis=1)
                    np.savetxt(os.path.join(d, 'u%010d.dat' % k), m, fmt='%.18e', delimiter=',', header='n=%d\nxc, u0' % k)
                with open(os.path.join(d, 'logfile'), 'w') as f:
                    f.write("Code version:  x\nIntegrating the solution in time.\n")
                    f.write("Elapsed time %s (or %f seconds)\n" % (datetime.timedelta(seconds=sec), sec))
                pts.append((res, np.sqrt(np.mean((base - (base + e)) ** 2)), round(sec, 6)))
            want.append(sorted(pts))
        figs, _ = run_tool(os.path.join(STUDY, "plot.py"), [])
    figures(figs, want)
    ctx.nontrivial(any([r[0] for r in runs] != sorted(r[0] for r in runs) for runs in c["runs"]))


@st.composite
def study_case(draw):
    out = []
    for order in (1, 2, 3, 4):
        res = draw(st.lists(st.sampled_from([3, 4, 5, 6, 8, 11, 16]), min_size=2, max_size=2, unique=True))
        out.append(res)
    return {"res": out, "tf": draw(st.sampled_from([0.1, 0.25, 0.3])), "rk": draw(st.sampled_from(['rk3', 'rk4', 'rk12']))}


@PROP.check("study_end_to_end", study_case(), quick=12, thorough=240, shards=4,
            rule="non-trivial: every case (real runs, real logs)")
def study_end_to_end(c, ctx):
    """The figures made from real runs of the program: their errors and the times their logs announce."""
    from pbt.props.c20 import program, workspace
    from pbt.props.c21 import run_tool
    top = workspace()
    old = os.getcwd()
    try:
        os.chdir(top)
        want = []
        for order, runs in zip((1, 2, 3, 4), c["res"]):
            pts = []
            for res in runs:
                d = os.path.join(top, str(order), str(res))
                os.makedirs(d)
                os.chdir(d)
                deckmod.write_deck(d, [['PDE system', 'advection'], ['RK scheme', c["rk"]],
                                       ['initial condition', 'sinewave %d' % res], ['number of outputs', '11'],
                                       ['final time', repr(c["tf"])], ['Courant-Friedrichs-Lewy condition', '0.5'],
                                       ['order', str(order)], ['limiting', '0']])
                os.chdir(top)
                before = time.time()
                r = program(d, '-d', 'deck.inp')
                took = time.time() - before
                require(r.returncode == 0, lambda: "exit code %d on a deck of the study: %s" % (r.returncode, r.stderr[-300:]))
                with open(os.path.join(d, 'logfile'), 'w') as f:
                    f.write(r.stdout)
                said = re.findall(r"([-+.\d]+(?:[eE][-+]?\d+)?)\s*seconds", r.stdout)
                require(len(said) == 1, lambda: "the log announces %r seconds" % said)
                sec = float(said[0])
                require(0 < sec <= took + 0.5, lambda: "the log says %r seconds, the run took %.3f" % (said[0], took))
                a, b = (np.atleast_2d(np.loadtxt(os.path.join(d, 'u%010d.dat' % k), delimiter=','))[:, 1] for k in (0, 10))
                pts.append((res, float(np.sqrt(np.mean((a - b) ** 2))), sec))
            want.append(sorted(pts))
        if min(p[1] for w in want for p in w) < 1e-8:
            raise Discard()
        figs, _ = run_tool(os.path.join(STUDY, "plot.py"), [])
    finally:
        os.chdir(old)
        shutil.rmtree(top, ignore_errors=True)
    figures(figs, want)
    ctx.label(c["rk"])
    ctx.nontrivial(True)
