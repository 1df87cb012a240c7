"""Thin drivers around the public API of dg1d."""
import glob
import os
import re
import shutil
import tempfile

import numpy as np

from pbt import gen, ref
from pbt.core import Violation, require

import dg1d.constants as constants
import dg1d.deck as deckmod
import dg1d.dg as dgmod
import dg1d.limiting as limiting
import dg1d.rk as rk
import dg1d.solution as solution


def enh_str(modes):
    return ('icb ' + ' '.join(str(m) for m in modes)) if modes else ''


def make_solution(c, field=None, thresholds=None):
    """Real Solution for a case, with its interior replaced by `field`."""
    line = c.get("line") or gen.ic_line(c)
    s = solution.Solution(line, c["system"], c["p"], c.get("riemann", ''),
                          enh_str(c.get("enh")), list(thresholds) if thresholds else [])
    if field is not None:
        nf = s.N_F
        u = np.array(s.u, dtype=float)
        u[:, nf:-nf] = ref.from_cells(field)
        s.u = u
    if c.get("bc_r"):
        s.bc_r = c["bc_r"]
    return s


def model(c, thresholds=None, limit=False):
    return ref.Model(c["system"], c["p"], gen.case_dx(c), c["bc"], c["g"],
                     c.get("riemann") or 'roe', c.get("enh") or None, thresholds, limit,
                     c.get("bc_r"))


def cells(s):
    """Interior state [cell, field, mode] of a real Solution."""
    return ref.to_cells(s.u, s.N_F, s.basis.p)


class Scratch:
    """A private working directory, removed afterwards."""

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="case", dir=os.environ.get("PBT_SCRATCH"))
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


class Recorder(dgmod.DG):
    """DG solver that notes (n, t, fastest wave) at the start of each time step,
    whether the counters advance before or after the stages."""

    def watch(self, sol, c, limit):
        self.main, self.case, self.maxsteps, self.log = sol, c, limit, []
        self.began = [sol.n, float(sol.t)]      # counters before the first step
        self.early = None                       # [n, t] already advanced while the stages run?
        self.seen = None
        return self

    def residual(self, sol):
        if self.seen != self.main.n:
            self.seen = self.main.n
            now = [self.main.n, float(self.main.t)]
            if self.early is None:
                self.early = [a != b for a, b in zip(now, self.began)]
            at = [b if e else a for a, b, e in zip(now, self.began, self.early)]
            self.began = now
            if len(self.log) > self.maxsteps:
                raise Violation("time integration does not finish: more than %d steps (t=%r)"
                                % (self.maxsteps, self.main.t))
            u = cells(self.main)
            if self.case["system"] == 'euler':
                r, v, p = ref.cons_to_prim(u[:, :, 0], self.case["g"])
                with np.errstate(all='ignore'):
                    s = float(np.max(np.abs(v) + np.sqrt(self.case["g"] * p / r)))
            else:
                s = 1.0
            self.log.append((at[0], at[1], s))
        return super().residual(sol)


class Run:
    pass


def deck_of(c, rkname, tf, cfl, nout, limiter=''):
    d = deckmod.Deck()
    d.system, d.rk, d.finaltime, d.cfl, d.nout, d.order = c["system"], rkname, tf, cfl, nout, c["p"]
    d.limiting = limiter
    return d


def integrate(c, field, rkname, tf, cfl, nout=2, thresholds=None, limiter='', max_steps=5000,
              initial_limit=True):
    """The sequence of main.py, in process, in a scratch directory.  Returns a Run with
    the final Solution, the outputs read back from the files and the step log."""
    r = Run()
    with Scratch():
        s = make_solution(c, field, thresholds)
        s.apply_bc()
        dgs = Recorder(s).watch(s, c, max_steps)
        lim = limiting.Limiter(limiter, s)
        if initial_limit:
            lim.limit(s)
        r.start = cells(s)
        d = deck_of(c, rkname, tf, cfl, nout, limiter)
        rk.integrate(s, d, dgs, lim)
        r.sol, r.log = s, dgs.log
        r.end = cells(s)
        r.files = sorted(os.path.basename(f) for f in glob.glob('*'))
        r.outs = [read_output(c, k) for k in range(nout)]
    return r


def fields_of(system):
    return ['rho', 'rhou', 'E'] if system == 'euler' else ['u']


HEAD = re.compile(r"#\s*n=\s*(-?\d+),\s*t=\s*([-+.\deE]+|nan|inf|-inf),\s*bc_l=\s*(\w*),\s*bc_r=\s*(\w*)\s*$")


def read_output(c, k, p=None):
    """Independent reader of one output step: (n, t, bc_l, bc_r, xc, cells)."""
    p = c["p"] if p is None else p
    cols, head, xc = [], None, None
    for f in fields_of(c["system"]):
        name = "%s%010d.dat" % (f, k)
        if not os.path.isfile(name):
            raise Violation("output file %s is missing (have %s)" % (name, sorted(os.listdir('.'))[:12]))
        with open(name) as fh:
            h1, h2 = fh.readline(), fh.readline()
            rows = [[float(v) for v in l.split(',')] for l in fh]
        m = HEAD.match(h1.rstrip())
        if not m:
            raise Violation("%s: bad header %r" % (name, h1))
        want = '# xc' + ''.join(', u%d' % i for i in range(p + 1))
        require(h2.strip() == want, "%s: column header %r, expected %r" % (name, h2.strip(), want))
        hd = (int(m.group(1)), float(m.group(2)), m.group(3), m.group(4))
        require(head is None or hd == head, "%s: header differs between fields" % name)
        head = hd
        a = np.array(rows)
        require(a.ndim == 2 and a.shape[1] == p + 2, "%s: expected %d columns, got shape %r" % (name, p + 2, a.shape))
        if xc is not None:
            require(np.array_equal(xc, a[:, 0]), "%s: centroids differ between fields" % name)
        xc = a[:, 0]
        cols.append(a[:, 1:])
    return head + (xc, np.stack(cols, axis=1))


def totals(field, dx):
    """Domain integral of each conserved variable (exactly summed)."""
    import math
    return np.array([dx * math.fsum(field[:, f, 0]) for f in range(field.shape[1])])
