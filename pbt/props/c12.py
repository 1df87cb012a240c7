"""C12: named initial conditions set up the documented problem."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Discard, Prop, close, fail, require

import dg1d.constants as constants
import dg1d.solution as solution

PROP = Prop("C12")
PROP.assumptions = [
    "Profiles re-derived from the cited definitions; compared at the Gauss nodes and as coefficients (1e-9).",
]


@st.composite
def ic_case(draw):
    name = draw(st.sampled_from(['sinewave', 'ictest', 'entrpyw', 'acsticw', 'simplew', 'shuoshe', 'scktube', 'scktube']))
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 60)))
    p = draw(gen.weighted_order(0, 9))
    size = draw(st.integers(0, 15))
    if size == 15:
        n, p = draw(st.sampled_from(gen.WIDTHS)) + draw(st.integers(0, 2)), min(p, 1)
    elif size == 14:
        p = draw(st.integers(10, 18))
    c = {"p": p, "n": n, "name": name, "bc": ref.ic_spec(name + ' 1 0 1 0 1 1 0 1')[2]}
    if name == 'scktube':
        def num(lo, hi):
            return draw(st.integers(lo, hi)) / 100.0
        x0 = num(-99, 99)
        c["line"] = "scktube %d %r %r %r %r %r %r %r" % (n, x0, abs(num(1, 900)), num(-500, 500), num(1, 9000),
                                                        abs(num(1, 900)), num(-500, 500), num(1, 9000))
    else:
        c["line"] = "%s %d" % (name, n)
    c["system"] = ref.ic_spec(c["line"])[4]
    c["riemann"] = draw(st.sampled_from(gen.RIEMANNS + ['']))
    c["enh"] = draw(gen.modes_subset(c["p"], 2)) if p < 10 and draw(st.integers(0, 4)) == 4 else []
    c["thr"] = draw(st.sampled_from([[], [0.1, 0.2]]))
    return c


@PROP.check("profile", ic_case(), quick=1500, thorough=40000, shards=4,
            rule="non-trivial: the profile is not constant")
def profile(c, ctx):
    f, (A, B), bc, g, system = ref.ic_spec(c["line"])
    s = solution.Solution(c["line"], system, c["p"], c["riemann"], sim.enh_str(c["enh"]), list(c["thr"]))
    n, p = c["n"], c["p"]
    nf = 3 if system == 'euler' else 1
    dx = (B - A) / n
    require((s.N_E, s.N_F, s.basis.p) == (n, nf, p), lambda: "sizes %r" % ((s.N_E, s.N_F, s.basis.p),))
    require(np.asarray(s.u).shape == (p + 1, (n + 2) * nf), lambda: "solution array has shape %r" % (np.asarray(s.u).shape,))
    require(s.t == 0 and s.n == 0, "does not start at time and step zero")
    require((s.bc_l, s.bc_r) == (bc, bc), lambda: "boundaries %r" % ((s.bc_l, s.bc_r),))
    close(float(constants.gamma), g, 1e-14, "ratio of specific heats")
    close(s.dx, dx, 1e-13, "cell size", scale=dx)
    edges = A + dx * np.arange(n + 1)
    close(s.x, edges, 1e-13, "cell edges", scale=abs(A) + abs(B))
    close(s.xc, 0.5 * (edges[1:] + edges[:-1]), 1e-13, "cell centroids", scale=abs(A) + abs(B))
    close(s.scaled_minv, (2 * np.arange(p + 1) + 1) / dx, 1e-13 * 10, "scaled inverse mass matrix", scale=(2 * p + 1) / dx)
    # values at the Gauss nodes: the polynomial interpolates the profile there
    x, _ = ref.gauss(p + 1)
    P = ref.legendre(p, x)
    u = sim.cells(s)
    nodes = np.einsum('efn,ng->egf', u, P)
    x0 = float(c["line"].split()[2]) if c["name"] == 'scktube' else (1.0 if c["name"] == 'shuoshe' else None)
    want = np.zeros_like(nodes)
    skip = np.zeros(n, dtype=bool)
    for e in range(n):
        for k in range(p + 1):
            xx = A + (e + 0.5) * dx + 0.5 * dx * x[k]
            if x0 is not None and abs(xx - x0) < 1e-9:
                skip[e] = True
            v = f(xx)
            want[e, k] = ref.prim_to_cons(v[0], v[1], v[2], g) if nf == 3 else v
    sc = np.abs(want).max(axis=(0, 1)) + 1e-300
    if nf == 3:
        sc[1] = max(sc[1], math.sqrt(sc[0] * sc[2]) * 1e-3)
    close(nodes[~skip], want[~skip], 1e-10, "%s at the Gauss nodes" % c["name"], scale=sc)
    # small perturbations must survive on their own scale
    if c["name"] == 'acsticw':
        close((nodes - [1, 0, 1 / 1.4 / 0.4]) * 1e4, (want - [1, 0, 1 / 1.4 / 0.4]) * 1e4, 1e-8, "acoustic perturbation")
    ctx.label(c["name"], "p%d" % p)
    ctx.nontrivial(np.ptp(want[:, :, 0]) > 0)


@PROP.check("fine_meshes", st.tuples(st.sampled_from(['sinewave', 'ictest', 'simplew', 'shuoshe']), st.integers(60, 3000),
                                    st.integers(0, 1)).map(list), quick=60, thorough=1500, shards=2,
            rule="non-trivial: every case (meshes of 60 to 3000 cells)")
def fine_meshes(c, ctx):
    """Edges, centroids and cell size of fine meshes; values at a few cells."""
    name, n, p = c
    line = "%s %d" % (name, n)
    f, (A, B), bc, g, system = ref.ic_spec(line)
    s = solution.Solution(line, system, p)
    dx = (B - A) / n
    require(s.N_E == n and len(s.x) == n + 1 and len(s.xc) == n and np.asarray(s.u).shape == (p + 1, (n + 2) * s.N_F),
            "wrong number of cells")
    edges = A + dx * np.arange(n + 1)
    close(s.dx, dx, 1e-13, "cell size", scale=dx)
    close(s.x, edges, 1e-13, "cell edges", scale=abs(A) + abs(B))
    close(s.xc, 0.5 * (edges[1:] + edges[:-1]), 1e-13, "cell centroids", scale=abs(A) + abs(B))
    u = sim.cells(s)
    x, _ = ref.gauss(p + 1)
    nodes = np.einsum('efn,ng->egf', u, ref.legendre(p, x))
    for e in sorted({0, n - 1, n // 2, n // 3, (7 * n) // 11}):
        for k in range(p + 1):
            xx = A + (e + 0.5) * dx + 0.5 * dx * x[k]
            if name == 'shuoshe' and abs(xx - 1) < 1e-9:
                continue
            v = f(xx)
            want = ref.prim_to_cons(v[0], v[1], v[2], g) if system == 'euler' else np.array(v)
            close(nodes[e, k], want, 1e-10, "%s in cell %d" % (name, e), scale=max(1.0, np.abs(want).max()))
    ctx.label(name)
    ctx.nontrivial(True)


@PROP.check("diaphragm", st.tuples(st.integers(0, 4), st.integers(0, 4), st.integers(0, 100), st.integers(0, 2)).map(list),
            quick=300, thorough=6000, rule="non-trivial: every case (diaphragm exactly on or just beside a Gauss node)")
def diaphragm(c, ctx):
    """Left of the diaphragm the left state, at the diaphragm and right of it the right state."""
    h, m, k, side = c
    # even order and a binary number of cells: cell centres are nodes without any rounding
    p, n = 2 * h, 2 ** m
    dx = 2.0 / n
    x0 = -1 + (k % n + 0.5) * dx + [0.0, 1e-9, -1e-9][side]
    xs = (-1 + (np.arange(n)[:, None] + 0.5) * dx + 0.5 * dx * ref.gauss(p + 1)[0]).reshape(-1)
    xs[p // 2::p + 1] = -1 + (np.arange(n) + 0.5) * dx
    s = solution.Solution('scktube %d %r 2.0 0.0 1.0 0.5 0.0 1.0' % (n, float(x0)), 'euler', p)
    nodes = np.einsum('efn,ng->egf', sim.cells(s), ref.legendre(p, ref.gauss(p + 1)[0]))[:, :, 0].reshape(-1)
    want = np.where(xs < x0, 2.0, 0.5)
    close(nodes, want, 1e-10, "density at the Gauss nodes around the diaphragm", scale=2.0)
    ctx.label("p%d" % p, ["on", "left of it", "right of it"][side])
    ctx.nontrivial(True)


@st.composite
def poly_case(draw):
    p = draw(st.integers(0, 9))
    return {"p": p, "n": draw(st.integers(1, 8)), "c": draw(gen.ints(p + 1)), "A": draw(st.integers(-40, 40)) / 4.0,
            "L": draw(st.integers(1, 40)) / 4.0}


@PROP.check("sizes_and_systems", st.tuples(st.sampled_from(['sinewave', 'entrpyw', 'simplew', 'shuoshe', 'acsticw', 'ictest']),
                                           st.integers(1, 40), st.integers(0, 6)).map(list), quick=400, thorough=5000,
            rule="non-trivial: every case")
def sizes_and_systems(c, ctx):
    """A problem set up after another one does not inherit its gas (gamma)."""
    name, n, p = c
    solution.Solution('simplew 2', 'euler', 0)
    require(float(constants.gamma) == 3.0, "simple wave does not use gamma 3")
    sysname = ref.ic_spec(name + ' 1')[4]
    solution.Solution('%s %d' % (name, n), sysname, p)
    close(float(constants.gamma), ref.ic_spec(name + ' 1')[3], 1e-14, "gamma after another problem")
    a = solution.Solution('%s %d' % (name, n), sysname, p)
    b = solution.Solution('%s %d' % (name, n), sysname, p)
    require(a.u is not b.u and np.array_equal(a.u, b.u), "set-up is not reproducible")
    ctx.label(name)
    ctx.nontrivial(True)


@st.composite
def bad_case(draw):
    k = draw(st.integers(0, 12))
    return {"params": [str(draw(st.integers(1, 9))) for _ in range(k)], "p": draw(st.integers(0, 3)),
            "name": draw(st.sampled_from(['scktube', 'nosuchic', 'sine', 'SINEWAVE', 'empty'])),
            "system": draw(st.sampled_from(['euler', 'advection']))}


@PROP.check("rejects", bad_case(), quick=500, thorough=8000, shards=1,
            rule="non-trivial: every rejected case")
def rejects(c, ctx):
    """A shock tube without exactly its eight parameters stops with an error; an unknown
    name gives an empty solution."""
    line = ' '.join([c["name"]] + c["params"])
    if c["name"] == 'scktube':
        if len(c["params"]) == 8:
            raise Discard()
        try:
            solution.Solution(line, 'euler', c["p"])
        except SystemExit as e:
            require(e.code not in (0, None, ''), "bad shock tube exits with success")
        else:
            fail("shock tube accepts %d parameters" % len(c["params"]))
    else:
        s = solution.Solution(line, c["system"], c["p"])
        require(s.N_E == 0 and np.asarray(s.u).size == 0, "unknown initial condition is not empty")
    ctx.label(c["name"])
    ctx.nontrivial(True)
