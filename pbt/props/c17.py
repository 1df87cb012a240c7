"""C17: Legendre basis, Gauss quadrature and projection."""
from fractions import Fraction as Fr

import numpy as np
from hypothesis import strategies as st
from numpy.polynomial import Legendre

from pbt import gen, ref
from pbt.core import Prop, close, require

import dg1d.basis as basis

PROP = Prop("C17")
PROP.assumptions = ["Orders 0 to 20; exact rational arithmetic as the oracle where the result is rational."]


def orders(tier):
    return [{"p": p} for p in range(0, 21 if tier == 'quick' else 41)]


@PROP.enumerate("tables", orders, rule="every order up to 20 (thorough: 40); non-trivial: all")
def tables(c, ctx):
    """Nodes, weights, basis values, weighted derivatives, edge values and mass matrix."""
    p = c["p"]
    b = basis.Basis(p)
    x, w = ref.gauss(p + 1)
    require((b.p, b.N_s, b.N_G) == (p, p + 1, p + 1), "sizes")
    close(b.x, x, 1e-14, "Gauss nodes")
    close(b.w, w, 1e-13, "Gauss weights")
    close(b.phi, ref.legendre(p, x).T, 1e-12, "basis at the nodes")
    close(b.dphi_w, ref.dlegendre(p, x) * w, 1e-12, "weighted derivatives", scale=1 + p * p)
    close(b.psi, [[(-1.0) ** k for k in range(p + 1)], [1.0] * (p + 1)], 1e-14, "basis at the edges")
    k = np.arange(p + 1)
    close(b.m, 2.0 / (2 * k + 1), 1e-14, "mass matrix")
    close(b.minv, (2 * k + 1) / 2.0, 1e-14, "inverse mass matrix", scale=p + 1)
    # derivative matrix: exact integrals of L_n' L_j
    D = b.dphi_w.dot(b.phi)
    want = np.array([[2.0 if n > j and (n - j) % 2 else 0.0 for j in range(p + 1)] for n in range(p + 1)])
    close(D, want, 1e-11, "integrals of derivative times basis", scale=1 + p)
    ctx.label("p%d" % p)
    ctx.nontrivial(True)


@st.composite
def quad_case(draw):
    p = draw(st.integers(0, 20))
    d = draw(st.integers(0, 2 * p + 1))
    return {"p": p, "co": draw(gen.ints(d + 1, -500, 500))}


@PROP.check("quadrature_exact", quad_case(), quick=800, thorough=20000, shards=1,
            rule="non-trivial: degree above p")
def quadrature_exact(c, ctx):
    b = basis.Basis(c["p"])
    poly = [Fr(k, 500) for k in c["co"]]
    exact = float(ref.pint(poly, -1, 1))
    got = sum(float(w) * float(ref.peval([float(q) for q in poly], float(x))) for x, w in zip(b.x, b.w))
    close(got, exact, 1e-12, "integral of a polynomial of degree %d with order %d" % (len(poly) - 1, c["p"]),
          scale=1 + sum(abs(float(q)) for q in poly))
    ctx.nontrivial(len(poly) - 1 > c["p"])


@st.composite
def proj_case(draw):
    p = draw(st.integers(0, 16))
    return {"p": p, "deg": draw(st.integers(0, p + 3)), "co": draw(gen.ints(p + 4, -500, 500)),
            "a": draw(st.integers(-400, 400)) / 16.0, "h": draw(gen.logspan(1e-3, 1e2)), "nc": draw(st.integers(1, 3)),
            "comp": draw(st.integers(0, 2)), "kind": draw(st.sampled_from(['poly', 'poly', 'sin', 'step', 'ints']))}


@PROP.check("projection", proj_case(), quick=1500, thorough=30000, shards=2,
            rule="non-trivial: degree at least one or not a polynomial")
def projection(c, ctx):
    """The projection agrees with the function at the Gauss nodes, is exact for polynomials of
    degree at most p, uses the requested component and preserves means of degree 2p+1."""
    p = c["p"]
    b = basis.Basis(p)
    a, h = c["a"], c["h"]
    hi = a + h
    co = [k / 500.0 for k in c["co"]][:c["deg"] + 1]
    comp = c["comp"] % c["nc"]

    def g(x):
        z = 2 * (x - a) / h - 1
        if c["kind"] == 'sin':
            return np.sin(3 * z + co[0])
        if c["kind"] == 'step':
            return 1.0 if z > 0.05 else -0.5
        if c["kind"] == 'ints':         # a plateau given by an integer, as in the simple wave problem
            return c["co"][0] if z < co[-1] else c["co"][0] * (1 + 0.37 * (z - co[-1]))
        return float(ref.peval(co, z))

    def f(x):
        return [g(x) if k == comp else 1e6 + k for k in range(c["nc"])]

    u = np.asarray(b.projection(a, hi, f, comp))
    x, w = ref.gauss(p + 1)
    vals = np.array([g(0.5 * h * q + 0.5 * (a + hi)) for q in x])
    cond = 1 + abs(a) / h * 1e-3
    sc = np.abs(vals).max() + sum(abs(q) for q in co) + 1
    close(ref.legendre(p, x).T.dot(u), vals, 1e-11 * cond * (1 + p), "projection at the nodes", scale=sc)
    want = np.array([(2 * n + 1) / 2.0 * (w * ref.legendre(p, x)[n]).dot(vals) for n in range(p + 1)])
    close(u, want, 1e-11 * cond * (1 + p), "projection coefficients", scale=sc)
    if c["kind"] == 'poly' and c["deg"] <= p:
        exact = [float(Fr(2 * n + 1, 2) * ref.pint(ref.pmul([Fr(q).limit_denominator(500) for q in co],
                                                             ref.legendre_poly(n)), -1, 1)) for n in range(p + 1)]
        close(u, exact, 1e-11 * cond * (1 + p), "projection of a polynomial", scale=sc)
    if comp == 0:
        close(b.projection(a, hi, f), u, 1e-14, "default component", scale=sc)
    ctx.label(c["kind"], "p%d" % p)
    ctx.nontrivial(c["kind"] != 'poly' or any(co[1:]))


@st.composite
def shift_case(draw):
    top = draw(st.sampled_from([12, 12, 30]))
    n = draw(st.integers(0, top))
    m = draw(st.integers(0, top))
    return {"a": draw(gen.ints(n + 1, -500, 500)), "b": draw(gen.ints(m + 1, -500, 500)),
            "s": draw(st.sampled_from([2, -2, 0, 1, -1])) * draw(st.sampled_from([1, 1, 0.5, 0.25])),
            "x": draw(st.integers(-100, 100)) / 100.0, "basis": draw(st.integers(0, 1))}


def leg_poly(co):
    out = [Fr(0)] * len(co)
    for n, k in enumerate(co):
        for i, q in enumerate(ref.legendre_poly(n)):
            out[i] += Fr(k, 500) * q
    return out


@PROP.check("shift_and_products", shift_case(), quick=1500, thorough=30000, shards=2,
            rule="non-trivial: two polynomials of degree at least one")
def shift_and_products(c, ctx):
    """l(x+s) and the integral of a product over [-1,1], against exact arithmetic."""
    A, B = leg_poly(c["a"]), leg_poly(c["b"])
    la = Legendre([k / 500.0 for k in c["a"]])
    lb = Legendre([k / 500.0 for k in c["b"]])
    got = basis.integrate_legendre_product(la, lb)
    sc = sum(abs(k) for k in c["a"]) * sum(abs(k) for k in c["b"]) / 250000.0 + 1e-12
    close(float(got), float(ref.pint(ref.pmul(A, B), -1, 1)), 1e-11, "integral of a product", scale=sc)
    ls = basis.shift_legendre_polynomial(la, c["s"])
    want = float(ref.peval(ref.pshift(A, Fr(str(c["s"]))), Fr(str(c["x"]))))
    big = float(ref.peval([abs(k) for k in ref.pshift([abs(q) for q in A], abs(Fr(str(c["s"]))))], 1))
    close(float(ls(c["x"])), want, 1e-9, "shifted polynomial at %g" % c["x"], scale=big + 1e-12)
    ctx.nontrivial(any(c["a"][1:]) and any(c["b"][1:]))
