"""C08: every time integration scheme has its stated order (all rooted-tree order conditions)."""
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Discard, Prop, close, require

import dg1d.deck as deckmod
import dg1d.limiting as limiting
import dg1d.rk as rk
import dg1d.solution as solution

PROP = Prop("C08")
PROP.assumptions = [
    "The scheme is driven through the real time loop on ordinary differential equations (a solver stand-in "
    "returns the right-hand side); order conditions hold to 1e-12 (published coefficients are rounded).",
    "Schemes named by their order: rk3..rk14, low_storage_rk4; any other name means the fourth-order scheme.",
]


class Flat(solution.Solution):
    """A Solution whose interior is a plain vector of unknowns; nothing is written."""

    def printer(self, nout, dt):
        self.printed = getattr(self, 'printed', 0) + 1


class Rhs:
    """Stand-in for the DG solver."""

    def __init__(self, f):
        self.f = f
        self.calls = 0

    def residual(self, sol):
        self.calls += 1
        out = np.zeros_like(sol.u)
        out[0, 1:-1] = self.f(sol.u[0, 1:-1])
        return out


def drive(name, f, y0, h, steps=1):
    """y after `steps` steps of size h of the named scheme for y' = f(y)."""
    s = Flat('sinewave 2', 'advection', 0)
    s.u = np.zeros((1, len(y0) + 2))
    s.u[0, 1:-1] = y0
    s.N_E = len(y0)
    s.bc_l = s.bc_r = 'periodic'
    d = deckmod.Deck()
    d.rk, d.nout, d.order, d.system = name, 2, 0, 'advection'
    # dt = cfl*dx for p = 0 advection; a final time just below a multiple of it
    d.cfl = h / s.dx
    d.finaltime = h * steps
    if steps == 1:
        d.cfl *= 4.0      # clipped to the final time: one step of exactly h
    r = Rhs(f)
    rk.integrate(s, d, r, limiting.Limiter('', s))
    return s.u[0, 1:-1].copy(), r.calls, s


_TREES = {}


def trees(order):
    """All rooted trees up to an order: (children ids, order, density) arrays."""
    if order in _TREES:
        return _TREES[order]
    lst, o = [()], [1]
    for n in range(2, order + 1):
        new = []

        def rec(rem, top, acc):
            if rem == 0:
                new.append(tuple(acc))
                return
            for i in range(min(top, len(lst) - 1), -1, -1):
                if o[i] <= rem:
                    rec(rem - o[i], i, acc + [i])
        rec(n - 1, len(lst) - 1, [])
        lst.extend(new)
        o.extend([n] * len(new))
    gam = np.zeros(len(lst))
    for i, t in enumerate(lst):
        g = float(o[i])
        for c in t:
            g *= gam[c]
        gam[i] = g
    w = max(max(len(t) for t in lst), 1)
    ch = np.full((len(lst), w), len(lst), dtype=int)
    for i, t in enumerate(lst):
        ch[i, :len(t)] = t
    _TREES[order] = (ch, np.array(o), gam)
    return _TREES[order]


def tree_rhs(ch):
    def f(y):
        e = np.append(y, 1.0)
        out = e[ch[:, 0]]
        for j in range(1, ch.shape[1]):
            out = out * e[ch[:, j]]
        return out
    return f


def scheme_cases(tier):
    out = []
    for name in gen.RKS + ['', 'rk9', 'RK4']:
        for q in range(1, gen.RK_ORDER.get(name, 4) + 1):
            out.append({"rk": name, "tree_order": q})
    return out


_DONE = {}


@PROP.enumerate("order_conditions", scheme_cases,
                rule="every scheme and every order up to its own: all rooted trees of that order (non-trivial: all)")
def order_conditions(c, ctx):
    """One step h=1 from 0 of the tree system y_t' = prod y_children gives the elementary
    weight of every tree; it must be 1/density for every tree up to the scheme's order."""
    q = gen.RK_ORDER.get(c["rk"], 4)
    if c["rk"] not in _DONE:
        ch, o, gam = trees(q)
        _DONE[c["rk"]] = drive(c["rk"], tree_rhs(ch), np.zeros(len(o)), 1.0)[0]
    y = _DONE[c["rk"]]
    ch, o, gam = trees(q)
    sel = o == c["tree_order"]
    require(sel.any(), "no trees")
    err = np.abs(y[sel] - 1 / gam[sel])
    k = int(np.argmax(err))
    require(np.all(err <= 1e-12), lambda: "%s: order condition of order %d violated for tree %d: weight %.15g, expected "
            "%.15g" % (c["rk"] or 'default', c["tree_order"], k, y[sel][k], (1 / gam[sel])[k]))
    ctx.label(c["rk"] or 'default', "trees=%d" % sel.sum())
    ctx.nontrivial(True)


@st.composite
def ode_case(draw):
    n = draw(st.integers(1, 4))
    return {"rk": draw(st.sampled_from(gen.RKS + ['', 'nosuch'])), "n": n,
            "A": draw(gen.ints(n * n, -500, 500)), "B": draw(gen.ints(n ** 3, -300, 300)), "c": draw(gen.ints(n, -500, 500)),
            "y0": draw(gen.ints(n, -500, 500)), "steps": draw(st.integers(1, 5)), "h": draw(st.integers(1, 6))}


def taylor(A, B, c, y0, h, N=40):
    """y(h) by its power series (quadratic right-hand side)."""
    Y = [y0]
    for k in range(N):
        s = A.dot(Y[k])
        for i in range(k + 1):
            s = s + np.einsum('ijk,j,k->i', B, Y[i], Y[k - i])
        if k == 0:
            s = s + c
        Y.append(s / (k + 1))
    return sum(y * h ** k for k, y in enumerate(Y)), Y


@PROP.check("random_systems", ode_case(), quick=900, thorough=20000, shards=3,
            rule="non-trivial: several steps of a non-linear system")
def random_systems(c, ctx):
    """Random quadratic systems against their power series, several steps.  The error of a
    scheme of order q over one step is O(h^(q+1)); compare with a generous multiple."""
    n = c["n"]
    A = np.array(c["A"]).reshape(n, n) / 1000.0
    B = np.array(c["B"]).reshape(n, n, n) / 1000.0
    k = np.array(c["c"]) / 1000.0
    y0 = np.array(c["y0"]) / 1000.0
    h = c["h"] / 20.0
    q = gen.RK_ORDER.get(c["rk"], 4)

    def f(y):
        return A.dot(y) + np.einsum('ijk,j,k->i', B, y, y) + k

    y, calls, s = drive(c["rk"], f, y0, h, c["steps"])
    # reference: Taylor steps; bound: local error terms of order > q with a wide factor
    z = y0
    bound = 0.0
    M = np.abs(A).sum(axis=1).max() + 2 * np.abs(B).sum(axis=(1, 2)).max() * 2.0
    lam = np.abs(A).sum(axis=1).max() + 2 * np.abs(B).sum(axis=(1, 2)).max() * 1.5 + 1e-12
    sz = lam * (1.0 + np.abs(y0).max()) + np.abs(k).max()
    for _ in range(c["steps"]):
        z, Y = taylor(A, B, k, z, h)
    if np.abs(z).max() > 1.2:
        raise Discard()
    bound = 30 * c["steps"] * sz / max(lam, 1e-12) * (h * lam) ** (q + 1) + 1e-11
    close(y, z, 1.0, "%s after %d steps of %g" % (c["rk"] or 'default', c["steps"], h), scale=bound)
    ctx.label(c["rk"] or 'default', "steps%d" % c["steps"])
    ctx.nontrivial(c["steps"] > 1 and np.any(B))


@st.composite
def same_case(draw):
    c = draw(ode_case())
    c["h"] = draw(st.integers(1, 40))
    return c


@PROP.check("equivalent_forms", same_case(), quick=500, thorough=10000, shards=2,
            rule="non-trivial: several steps of a non-linear system")
def equivalent_forms(c, ctx):
    """The low-storage form and the default scheme are the classical fourth-order scheme;
    N steps in one call are N one-step calls."""
    n = c["n"]
    A = np.array(c["A"]).reshape(n, n) / 1000.0
    B = np.array(c["B"]).reshape(n, n, n) / 1000.0
    k = np.array(c["c"]) / 1000.0
    y0 = np.array(c["y0"]) / 1000.0
    h = c["h"] / 20.0

    def f(y):
        return A.dot(y) + np.einsum('ijk,j,k->i', B, y, y) + k

    def classic(y):
        k1 = h * f(y)
        k2 = h * f(y + 0.5 * k1)
        k3 = h * f(y + 0.5 * k2)
        k4 = h * f(y + k3)
        return y + (k1 + 2 * k2 + 2 * k3 + k4) / 6

    want = y0
    for _ in range(c["steps"]):
        want = classic(want)
    if not np.all(np.abs(want) < 50):
        raise Discard()
    for name in ('rk4', 'low_storage_rk4', '', 'unknown'):
        got = drive(name, f, y0, h, c["steps"])[0]
        close(got, want, 1e-10, "%s against the classical scheme" % (name or 'default'))
    h = min(h, 0.3)     # the stages of the high-order schemes reach far outside one step
    one = y0
    for _ in range(c["steps"]):
        one = drive(c["rk"], f, one, h, 1)[0]
    close(drive(c["rk"], f, y0, h, c["steps"])[0], one, 1e-9, "%s: %d steps at once or one by one" % (c["rk"], c["steps"]))
    ctx.label(c["rk"] or 'default')
    ctx.nontrivial(c["steps"] > 1 and np.any(B))


class Forced(Rhs):
    """Stand-in whose right-hand side depends on the time of the state it is given."""

    def residual(self, sol):
        self.calls += 1
        out = np.zeros_like(sol.u)
        out[0, 1:-1] = self.f(sol.t, sol.u[0, 1:-1])
        return out


@st.composite
def forced_case(draw):
    c = draw(ode_case())
    c["t0"] = draw(st.integers(-20, 20)) / 10.0
    c["force"] = [draw(gen.ints(c["n"], -500, 500)) for _ in range(draw(st.integers(1, 5)))]
    return c


@PROP.check("forced_systems", forced_case(), quick=700, thorough=15000, shards=2,
            rule="non-trivial: a forcing that varies in time, several steps")
def forced_systems(c, ctx):
    """A right-hand side that reads the time of the state it is given is integrated like the autonomous
    system with the time as one more unknown."""
    n = c["n"]
    A = np.array(c["A"]).reshape(n, n) / 1000.0
    B = np.array(c["B"]).reshape(n, n, n) / 1000.0
    P = np.array(c["force"]) / 1000.0
    y0 = np.array(c["y0"]) / 1000.0
    h = min(c["h"] / 20.0, 0.3)

    def f(t, y):
        return A.dot(y) + np.einsum('ijk,j,k->i', B, y, y) + sum(q * t ** i for i, q in enumerate(P))

    def g(z):
        return np.append(f(z[n], z[:n]), 1.0)

    s = Flat('sinewave 2', 'advection', 0)
    s.N_E = n
    s.u = np.zeros((1, n + 2))
    s.u[0, 1:-1] = y0
    s.bc_l = s.bc_r = 'periodic'
    s.t = c["t0"]
    d = deckmod.Deck()
    d.rk, d.nout, d.order, d.system = c["rk"], 2, 0, 'advection'
    d.cfl = h / s.dx * (4.0 if c["steps"] == 1 else 1.0)
    d.finaltime = c["t0"] + h * c["steps"]
    r = Forced(f)
    rk.integrate(s, d, r, limiting.Limiter('', s))
    z, _, _ = drive(c["rk"], g, np.append(y0, c["t0"]), h, c["steps"])
    if not np.all(np.abs(z) < 50):
        raise Discard()
    close(s.u[0, 1:-1], z[:n], 1e-11, "%s with a forcing" % (c["rk"] or 'default'), scale=1.0)
    require(abs(s.t - d.finaltime) <= 1e-13 * (1 + abs(d.finaltime)), "the run ends at another time")
    ctx.label(c["rk"] or 'default', "steps%d" % c["steps"])
    ctx.nontrivial(c["steps"] > 1 and np.any(P[1:]))
