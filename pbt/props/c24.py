"""C24: the stability analysis scripts describe the schemes the solver really uses."""
import contextlib
import io
import os
import sys
import types

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", os.environ.get("PBT_SCRATCH", "/tmp"))

import numpy as np
from hypothesis import strategies as st

from pbt import boot, gen, ref, sim
from pbt.core import Discard, Prop, Violation, close, fail, require
from pbt.props.c08 import drive

PROP = Prop("C24")
PROP.assumptions = [
    "The scripts are executed as they are, with their figures kept in memory; np.complex and the list of contour "
    "collections, which the installed numpy and matplotlib no longer have, are supplied by the harness.",
    "Contours are drawn on the script's own grid: a boundary point is accepted when the amplification factor "
    "passes one within one grid spacing of it.",
]
_SPACE = {}


class Stop(Exception):
    pass


def script(name):
    """The names a script of analysis/ defines (its functions), by running it."""
    if name in _SPACE:
        return _SPACE[name]
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.contour as mc
    import matplotlib.pyplot as plt
    if not hasattr(np, "complex"):
        np.complex = complex
    if not hasattr(mc.ContourSet, "collections"):
        mc.ContourSet.collections = property(lambda self: [self])
    try:
        import scipy  # noqa: F401
    except ImportError:
        sys.modules["scipy"] = types.ModuleType("scipy")
    here = os.path.join(boot.REPO, "analysis")
    from matplotlib.axes import Axes
    from matplotlib.backend_bases import FigureCanvasBase
    from matplotlib.figure import Figure
    old = sys.argv, list(sys.path), Figure.savefig, Axes.contour, os.getcwd(), FigureCanvasBase.draw_idle
    FigureCanvasBase.draw_idle = lambda *a, **k: None           # drawing needs LaTeX
    sys.argv, sys.path[:] = [name], [here] + sys.path
    Figure.savefig = lambda *a, **k: None

    def contour(*a, **k):
        raise Stop()            # the rest of the Runge-Kutta script only draws all schemes (slowly)
    Axes.contour = contour
    ns = {"__name__": "__main__", "__file__": os.path.join(here, name)}
    out = io.StringIO()
    try:
        os.chdir(here)
        with open(name) as f, contextlib.redirect_stdout(out):
            exec(compile(f.read(), os.path.join(here, name), 'exec'), ns)
    except Stop:
        pass
    finally:
        sys.argv, sys.path[:] = old[0], old[1]
        Figure.savefig, Axes.contour, FigureCanvasBase.draw_idle = old[2], old[3], old[5]
        os.chdir(old[4])
        plt.rc('text', usetex=False)
    ns["_printed"] = out.getvalue()
    _SPACE[name] = ns
    return ns


# ---------------------------------------------------------------- space discretisation
_BLOCKS = {}


def blocks(p, K):
    """The solver's own operator for advection: the block acting on the neighbour at every offset."""
    import dg1d.dg as dg
    key = (p, tuple(K))
    if key not in _BLOCKS:
        n = 7
        c = {"system": "advection", "bc": "periodic", "g": 1.4, "p": p, "n": n, "riemann": "", "enh": list(K)}
        B = np.zeros((n, p + 1, p + 1))
        for m in range(p + 1):
            u = np.zeros((n, 1, p + 1))
            u[3, 0, m] = 1.0
            s = sim.make_solution(c, u)
            r = ref.to_cells(dg.DG(s).residual(s), 1, p)
            B[:, :, m] = r[:, 0, :] / n          # cells of size two, as in the analysis
        _BLOCKS[key] = {3 - e: B[e] for e in range(n)}
    return _BLOCKS[key]


def symbol(p, K, beta):
    return sum(b * np.exp(1j * k * beta) for k, b in blocks(p, K).items())


@st.composite
def space_case(draw):
    p = draw(st.integers(0, 6))
    K = sorted(draw(gen.modes_subset(p))) if draw(st.integers(0, 4)) else []
    return {"p": p, "K": K, "beta": draw(st.integers(-1000, 1000)) / 1000.0 * np.pi}


def matrices(ns, p, K):
    import sympy
    T = sympy.Symbol('T')
    with contextlib.redirect_stdout(io.StringIO()):
        m = ns["icb_matrices"](p, list(K), T) if K else ns["dg_matrices"](p, T)
    return m + (T,)


@PROP.check("symbol", space_case(), quick=300, thorough=4000, shards=4,
            rule="non-trivial: neighbour modes are used and the order is above zero")
def symbol_check(c, ctx):
    """The Fourier matrix of the analysis is the solver's residual acting on a Fourier mode."""
    Minv, F, G0, G1, T = matrices(script("dg_stability.py"), c["p"], c["K"])
    tb = complex(np.exp(1j * c["beta"]))
    g0 = np.array(G0.subs(T, tb).tolist()).astype(complex)
    g1 = np.array(G1.subs(T, tb).tolist()).astype(complex)
    got = np.asarray(Minv, float).dot(np.asarray(F, float) - (g1 - g0))
    want = symbol(c["p"], c["K"], c["beta"])
    close(np.stack([got.real, got.imag]), np.stack([want.real, want.imag]), 1e-9, "Fourier matrix", scale=1 + np.abs(want).max())
    ctx.label("p%d" % c["p"], "modes%d" % len(c["K"]))
    ctx.nontrivial(bool(c["K"]) and c["p"] > 0)


def on_spectrum(lam, p, K, what):
    betas = np.linspace(-np.pi, np.pi, 50)
    S = np.array([symbol(p, K, b) for b in betas])
    N = p + 1
    require(np.all(np.isfinite(lam)) and len(lam) == 50 * N, lambda: "%s: %d values, expected %d" % (what, len(lam), 50 * N))
    sc = np.abs(S).max() + 1.0
    A = S[None] - np.asarray(lam)[:, None, None, None] * np.eye(N)
    dist = np.linalg.svd(A, compute_uv=False)[..., -1].min(axis=1)
    k = int(np.argmax(dist))
    require(dist[k] <= 1e-9 * sc, lambda: "%s: %r is not an eigenvalue for any wave number (distance %.2g)" % (what, lam[k], dist[k]))
    P, q = np.eye(N)[None], np.ones(len(lam), dtype=complex)
    for k in (1, 2, 3):
        P, q = P @ S, q * lam
        t = np.trace(P, axis1=1, axis2=2).sum()
        require(abs(t - q.sum()) <= 1e-9 * len(lam) * sc ** k,
                lambda: "%s: power sum %d is %r, the spectrum gives %r" % (what, k, q.sum(), t))
    return np.array([np.linalg.eigvals(s) for s in S])


@PROP.check("spectrum", space_case(), quick=60, thorough=800, shards=4,
            rule="non-trivial: neighbour modes are used and the order is above zero")
def spectrum(c, ctx):
    """The plotted curve consists of exactly the eigenvalues of the solver's operator, and stable
    schemes (no enhancement) stay in the left half plane."""
    ns = script("dg_stability.py")
    x, y = ns["get_eigenvalue"](*matrices(ns, c["p"], c["K"]))
    x, y = np.asarray(x), np.asarray(y)
    on_spectrum(x + 1j * y, c["p"], c["K"], "eigenvalues")
    if not c["K"]:
        require(x.max() <= 1e-9, lambda: "the plain scheme has a growing mode %r" % x.max())
    ctx.label("p%d" % c["p"], "modes%d" % len(c["K"]))
    ctx.nontrivial(bool(c["K"]) and c["p"] > 0)


# ---------------------------------------------------------------- time discretisation
def amplification(coeffs, B, z):
    """R(z) by stepping through the stages, vectorised over z."""
    z = np.asarray(z, dtype=complex)
    K = []
    for i in range(len(coeffs)):
        K.append(z * (1 + sum(B[i, j] * K[j] for j in range(i) if B[i, j] != 0)))
    return 1 + sum(c * k for c, k in zip(coeffs, K))


@st.composite
def z_case(draw):
    return {"rk": draw(st.sampled_from([r for r in gen.RKS if r != 'low_storage_rk4'] + ['rk7'])),
            "re": draw(st.integers(-600, 300)) / 100.0, "im": draw(st.integers(-600, 600)) / 100.0}


@PROP.check("tables", z_case(), quick=600, thorough=10000, shards=2,
            rule="non-trivial: the factor has an imaginary part")
def tables(c, ctx):
    """The tables used for the analysis give the amplification factor of the real time loop."""
    with contextlib.redirect_stdout(io.StringIO()):
        co, B = script("rk_stability.py")["get_formatted_rk_coeffs"](c["rk"])
    co, B = np.asarray(co), np.asarray(B)
    require(B.shape == (len(co), len(co)), lambda: "table of shape %r for %d stages" % (B.shape, len(co)))
    require(not np.any(np.triu(B)), "the table is not explicit")
    a, b = c["re"], c["im"]
    y = drive(c["rk"], lambda u: np.array([a * u[0] - b * u[1], b * u[0] + a * u[1]]), np.array([1.0, 0.0]), 1.0)[0]
    r = complex(amplification(co, B, a + 1j * b))
    sc = float(amplification(np.abs(co), np.abs(B), abs(a) + abs(b)).real)
    close(y, np.array([r.real, r.imag]), 1e-12, "amplification factor of %s" % c["rk"], scale=sc)
    ctx.label(c["rk"])
    ctx.nontrivial(b != 0)


@st.composite
def table_case(draw):
    s = draw(st.integers(1, 5))
    rows = [[draw(st.integers(-20, 30)) / 20.0 for _ in range(i)] for i in range(s)]
    co = [draw(st.integers(1, 20)) for _ in range(s)]
    return {"rk": "", "rows": rows, "co": co}


def table_of(c):
    if c["rk"]:
        with contextlib.redirect_stdout(io.StringIO()):
            co, B = script("rk_stability.py")["get_formatted_rk_coeffs"](c["rk"])
        return np.asarray(co, float), np.asarray(B, float)
    s = len(c["rows"])
    B = np.zeros((s, s))
    for i, r in enumerate(c["rows"]):
        B[i, :i] = r
    co = np.array(c["co"], float)
    return co / co.sum(), B


def polynomial(co, B):
    v, p = np.ones(len(co)), [1.0]
    for _ in range(len(co)):
        p.append(float(co.dot(v)))
        v = B.dot(v)
    return np.array(p)          # ascending powers


@PROP.enumerate("exact_boundary", lambda tier: [{"rk": "rk3"}, {"rk": "rk4"}],
                rule="all: the schemes of at most four stages (the function announces that it fails beyond)")
def exact_boundary(c, ctx):
    """Every point of the exact stability boundary has an amplification factor of modulus one, and all
    of them are found."""
    import matplotlib.pyplot as plt
    co, B = table_of(c)
    p = polynomial(co, B)
    x, y = script("rk_stability.py")["exact_stability_boundary"](co, B)
    plt.close('all')
    z = np.asarray(x) + 1j * np.asarray(y)
    r = np.abs(amplification(co, B, z))
    cond = np.array([np.abs(p).dot(abs(q) ** np.arange(len(p))) for q in z])
    k = int(np.argmax(np.abs(r - 1) / cond))
    require(np.all(np.abs(r - 1) <= 1e-7 * cond), lambda: "|R| = %r at %r" % (r[k], z[k]))
    deg = len(p) - 1
    require(len(z) == 100 * deg, lambda: "%d points for a polynomial of degree %d" % (len(z), deg))
    # all roots for all angles: their sum and sum of squares (Vieta)
    th = np.linspace(0, 2 * np.pi, 100)
    s1 = -p[deg - 1] / p[deg] * 100 if deg > 1 else -np.sum(1 + np.exp(1j * th)) / p[deg]
    require(abs(z.sum() - s1) <= 1e-6 * np.sum(np.abs(z)), lambda: "sum of the boundary points %r, expected %r" % (z.sum(), s1))
    ctx.label(c["rk"] or "random", "deg%d" % deg)
    ctx.nontrivial(len(co) > 1)


def contour_points(c, ctx):
    import matplotlib.pyplot as plt
    co, B = table_of(c)
    try:
        x, y, _ = script("rk_stability.py")["approximate_stability_bndry"](co, B)
    finally:
        plt.close('all')
    hx, hy = 9.0 / 199, 6.0 / 199
    z = np.asarray(x) + 1j * np.asarray(y)
    require(len(z) >= 3, "no boundary found")
    lo, hi = np.full(len(z), np.inf), np.zeros(len(z))
    for t in np.linspace(-1, 1, 41):
        for d in (hx * t, 1j * hy * t):
            r = np.abs(amplification(co, B, z + d))
            lo, hi = np.minimum(lo, r), np.maximum(hi, r)
    bad = (lo > 1 + 1e-6) | (hi < 1 - 1e-6)
    k = int(np.argmax(bad))
    require(not bad.any(), lambda: "point %r is off the boundary: |R| between %g and %g around it" % (z[k], lo[k], hi[k]))
    # every consistent scheme has the origin on its boundary
    require(np.abs(z).min() <= 2 * (hx + hy), lambda: "the boundary misses the origin by %g" % np.abs(z).min())
    ctx.label(c["rk"] or "random")
    ctx.nontrivial(len(co) > 1)


PROP.check("contour", table_case(), quick=40, thorough=400, shards=8, rule="non-trivial: two stages or more")(contour_points)


@PROP.enumerate("contour_of_schemes", lambda tier: [{"rk": r} for r in gen.RKS if r != 'low_storage_rk4'],
                rule="all: every scheme of the solver")
def contour_of_schemes(c, ctx):
    contour_points(c, ctx)
    ctx.nontrivial(True)


# ---------------------------------------------------------------- the figures the scripts make
def whole(name):
    """Run a script to its end; (names it defines, what it printed, calls of legend, saved names, collections in the saved figure)."""
    script("dg_stability.py")            # supplies what the installed libraries lack
    import matplotlib.pyplot as plt
    here = os.path.join(boot.REPO, "analysis")
    from matplotlib.axes import Axes
    from matplotlib.backend_bases import FigureCanvasBase
    from matplotlib.figure import Figure
    old = sys.argv, list(sys.path), Figure.savefig, Axes.legend, os.getcwd(), FigureCanvasBase.draw_idle
    FigureCanvasBase.draw_idle = lambda *a, **k: None           # drawing needs LaTeX
    sys.argv, sys.path[:] = [name], [here] + sys.path
    saved, legends, drawn, out = [], [], [], io.StringIO()

    def keep(fig, f, *a, **k):
        saved.append(str(f))
        drawn.extend(col for ax in fig.get_axes() for col in ax.collections)
    Figure.savefig = keep
    Axes.legend = lambda ax, *a, **k: legends.append((a, k))
    plt.close('all')
    try:
        os.chdir(here)
        with open(name) as f, contextlib.redirect_stdout(out):
            exec(compile(f.read(), os.path.join(here, name), 'exec'), {"__name__": "__main__", "__file__": os.path.join(here, name)})
        return out.getvalue(), legends, saved, drawn
    finally:
        sys.argv, sys.path[:] = old[0], old[1]
        Figure.savefig, Axes.legend, FigureCanvasBase.draw_idle = old[2], old[3], old[5]
        os.chdir(old[4])
        plt.rc('text', usetex=False)
        plt.close('all')


def vertices(col):
    v = [p.vertices for p in col.get_paths() if len(p.vertices)]
    v = np.concatenate(v) if v else np.zeros((0, 2))
    return v[:, 0] + 1j * v[:, 1]


@PROP.enumerate("figures", lambda tier: [{"script": "rk_stability.py"}, {"script": "dg_stability.py"}],
                rule="all: the figure of each script")
def figures(c, ctx):
    """The finished figures: each curve belongs to the scheme its legend names; the printed numbers are those
    of the plotted spectrum."""
    import re
    printed, legends, saved, drawn = whole(c["script"])
    require(len(saved) == 1, lambda: "figures saved: %r" % saved)
    if c["script"].startswith("rk"):
        require(len(legends) == 1, "one legend expected")
        a, k = legends[0]
        handles, labels = (list(a) + [k.get("handles"), k.get("labels")])[:2]
        names = [str(x).lower() for x in labels]
        require(sorted(names) == sorted(r for r in gen.RKS if r.startswith('rk')), lambda: "curves for %r" % names)
        hx, hy = 9.0 / 199, 6.0 / 199
        for h, name in zip(handles, names):
            co, B = table_of({"rk": name})
            colour = np.ravel(h.get_edgecolor())[:3]
            mine = [col for col in drawn if np.allclose(np.ravel(col.get_edgecolor())[:3], colour)]
            require(any(col is h for col in drawn), "the legend names a curve that is not drawn")
            z = np.concatenate([vertices(col) for col in mine])
            require(len(z) > 10 and z.imag.min() < -0.5 and z.imag.max() > 0.5, lambda: "%s: both halves of the boundary are drawn" % name)
            lo, hi = np.full(len(z), np.inf), np.zeros(len(z))
            for t in np.linspace(-1, 1, 41):
                for d in (hx * t, 1j * hy * t):
                    r = np.abs(amplification(co, B, z + d))
                    lo, hi = np.minimum(lo, r), np.maximum(hi, r)
            bad = (lo > 1 + 1e-6) | (hi < 1 - 1e-6)
            require(not bad.any(), lambda: "the curve called %s is not its stability boundary" % name)
    else:
        m = re.search(r"p\s*=\s*(\d+)", printed)
        require(m, lambda: "the order is not announced: %r" % printed)
        p = int(m.group(1))
        numbers = [float(x) for x in re.findall(r"-?\d+\.\d+(?:e[-+]?\d+)?", printed)]
        z = np.concatenate([vertices(col) for col in drawn])
        z = z[:-1] if len(z) % (50 * (p + 1)) == 1 else z        # a closed polygon repeats its first point
        modes = [[k for k in range(p + 1) if b >> k & 1] for b in range(2 ** (p + 1))]
        fits = []
        for K in modes:
            try:
                on_spectrum(z, p, K, "plotted spectrum")
                fits.append(K)
            except Violation as e:
                last = e
        require(fits, lambda: "the plotted curve is not the spectrum of order %d with any set of modes" % p)
        require(len(numbers) == 2, lambda: "printed: %r" % printed)
        require(abs(numbers[0] - z.real.min()) <= 1e-5 and abs(numbers[1] - z.real.max()) <= 1e-9,
                lambda: "printed %r, the spectrum reaches from %r to %r" % (numbers, z.real.min(), z.real.max()))
    ctx.label(c["script"])
    ctx.nontrivial(True)
