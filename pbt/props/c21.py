"""C21: the plotting tools show the saved solution, and nothing else."""
import os
import runpy
import sys

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", os.environ.get("PBT_SCRATCH", "/tmp"))

import numpy as np
from hypothesis import strategies as st

from pbt import boot, gen, ref, sim
from pbt.core import Discard, Prop, close, fail, require

PROP = Prop("C21")
PROP.assumptions = [
    "Figures are read from the drawn lines (markers 'o' at nodes and centroids, 's' at cell edges); rendering to a "
    "file is replaced by a recorder because this sandbox has no LaTeX.",
    "Primitive variables use gamma 1.4, as the tools say; at least two cells; sensor files for all steps or for none.",
]


def run_tool(path, args):
    """Run a plotting script in this process; returns {figure: {marker: [(x, y), ...]}} and
    the names it saved."""
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    plt.close('all')
    from matplotlib.backend_bases import FigureCanvasBase
    from matplotlib.figure import Figure

    def content(fig):
        d = {}
        for ax in fig.get_axes():
            for line in ax.get_lines():
                m = line.get_marker()
                m = '' if m in (None, 'None', ' ') else m
                d.setdefault(m, []).append(np.array([np.asarray(line.get_xdata(), float).ravel(),
                                                     np.asarray(line.get_ydata(), float).ravel()]))
        return {m: np.concatenate(v, axis=1) for m, v in d.items()}
    kept = []           # what was in a figure when it was saved
    old = (sys.argv, list(sys.path), Figure.savefig, plt.show, os.getcwd(), FigureCanvasBase.draw_idle)
    sys.argv = [path] + args
    Figure.savefig = lambda fig, f, *a, **k: kept.append((fig, str(f), content(fig)))
    FigureCanvasBase.draw_idle = lambda *a, **k: None           # drawing needs LaTeX
    plt.show = lambda *a, **k: None
    try:
        runpy.run_path(path, run_name='__main__')
        open_ = {num: plt.figure(num) for num in plt.get_fignums()}
        figs = {num: content(fig) for num, fig in open_.items()}
        saved = []
        for i, (fig, name, lines) in enumerate(kept):
            key = next((num for num, f in open_.items() if f is fig), 1000 + i)
            figs[key] = lines
            saved.append((key, name))
        return figs, saved
    finally:
        sys.argv, sys.path[:] = old[0], old[1]
        Figure.savefig, plt.show, FigureCanvasBase.draw_idle = old[2], old[3], old[5]
        os.chdir(old[4])
        plt.close('all')


def points(got, x, y, dx, what, ytol, size=None):
    """The drawn points are exactly (x, y), in any order."""
    require(got is not None, "%s: nothing drawn" % what)
    require(got.shape[1] == len(x), lambda: "%s: %d points drawn, expected %d" % (what, got.shape[1], len(x)))
    sc = (1.0 if size is None else size) + np.max(np.abs(y))

    def order(a, b):
        # by position, points closer than rounding together and by value among themselves
        k = np.argsort(a, kind='stable')
        group = np.concatenate([[0], np.cumsum(np.diff(a[k]) > 1e-6 * dx)])
        return k[np.lexsort((b[k], group))]
    i, j = order(got[0], got[1]), order(np.asarray(x), np.asarray(y))
    close(got[0][i], np.asarray(x)[j], 1e-10, what + ": positions", scale=dx * (1 + np.max(np.abs(x)) / dx))
    close(got[1][i], np.asarray(y)[j], ytol, what + ": values", scale=sc)


@st.composite
def plot_case(draw):
    c = draw(gen.field_case(pmax=6, nmin=2, nmax=12, enh=False, units=True, wide=520))
    if c["g"] != 1.4:
        c["g"], c["bc"] = 1.4, 'periodic'
    c["step"] = draw(st.integers(0, 12))
    c["sens"] = draw(st.booleans())
    c["thr"] = [draw(gen.logspan(1e-3, 0.3)) for _ in range(2)]
    c["data2"] = draw(gen.ints(len(c["data"])))
    c["noise"] = draw(st.booleans())
    return c


def saved_solution(c):
    """Write the case's field at its step (and another field at step 0)."""
    u = gen.build_field(c)
    first = gen.build_field(dict(c, data=c["data2"]))
    for k, w in ((0, first), (c["step"], u)):
        s = sim.make_solution(c, w, c["thr"] if c["sens"] else None)
        s.apply_bc()
        if c["sens"]:
            s.sensors.sensing(s)
        s.printer(k, 0.1)
    return u, s


def sizes(c, u):
    """Size of the terms every plotted value is computed from."""
    if c["system"] != 'euler':
        return [1e-300]
    r, m, E = np.abs(u).sum(axis=2).max(axis=0)
    return [1e-300, 1e-300 + 4 * m / np.abs(u[:, 0, 0]).min(), 4 * E]


def primitive(c, U):
    if c["system"] != 'euler':
        return U
    r, v, p = ref.cons_to_prim(U, 1.4)
    return np.stack([r, v, p], axis=-1)


@PROP.check("profile_plot", plot_case(), quick=900, thorough=20000, shards=8,
            rule="non-trivial: order above zero and cells that differ")
def profile_plot(c, ctx):
    with sim.Scratch():
        u, s = saved_solution(c)
        fl = np.array(s.sensors.sensors)[1:-1] if c["sens"] else None
        before = {f: open(f, 'rb').read() for f in os.listdir('.')}
        figs, _ = run_tool(os.path.join(boot.REPO, "dg1d", "plot.py"), ["-f", str(c["step"]), "-t", c["system"]])
        require(all(os.path.isfile(f) and open(f, 'rb').read() == b for f, b in before.items()),
                "plotting changes the saved data")
    nf, n, p = u.shape[1], c["n"], c["p"]
    require(len(figs) == nf + (1 if c["sens"] else 0), lambda: "%d figures, expected %d" % (len(figs), nf + c["sens"]))
    dx = gen.case_dx(c)
    edges = np.asarray(s.x)
    xg = np.array(ref.gauss(p + 1)[0], dtype=float)
    P = np.polynomial.legendre.legvander(xg, p)
    nodes = primitive(c, np.einsum('efn,gn->egf', u, P))
    k = np.arange(p + 1)
    ends = primitive(c, np.stack([u.dot((-1.0) ** k), u.sum(axis=2)], axis=1))
    px = (0.5 * (edges[1:] + edges[:-1])[:, None] + 0.5 * dx * xg[None, :]).ravel()
    ex = np.stack([edges[:-1], edges[1:]], axis=1).ravel()
    order, sz = sorted(figs), sizes(c, u)
    for f in range(nf):
        d = figs[order[f]]
        points(d.get('o'), px, nodes[:, :, f].ravel(), dx, "field %d at the nodes" % f, 1e-10, sz[f])
        points(d.get('s'), ex, ends[:, :, f].ravel(), dx, "field %d at the cell edges" % f, 1e-10, sz[f])
        if c["system"] == 'advection':
            require('' in d, "exact solution not drawn")
            close(d[''][1], np.sin(2 * np.pi * d[''][0]), 1e-12, "exact solution")
        require(set(d) <= {'o', 's'} | ({''} if c["system"] == 'advection' else set()), "unexpected curves %r" % sorted(d))
    if c["sens"]:
        points(figs[order[nf]].get('o'), np.asarray(s.xc), fl.astype(float), dx, "sensor", 1e-12)
    ctx.label(c["system"], "p%d" % p, "sens" if c["sens"] else "plain")
    ctx.nontrivial(p > 0 and np.ptp(u[:, 0, 0]) > 0)


@st.composite
def regress_case(draw):
    c = draw(gen.field_case(system='euler', pmax=5, nmin=2, nmax=20, enh=False, units=True, wide=1100))
    if c["g"] != 1.4:
        c["g"], c["bc"] = 1.4, 'periodic'
    c["step"] = draw(st.integers(0, 12))
    c["sens"] = draw(st.booleans())
    c["thr"] = [draw(gen.logspan(1e-3, 0.3)) for _ in range(2)]
    c["data2"] = draw(gen.ints(len(c["data"])))
    c["exact"] = draw(st.lists(st.tuples(*[st.integers(-1000, 1000)] * 4), min_size=2, max_size=9, unique_by=lambda r: r[0]))
    return c


@PROP.check("regression_plot", regress_case(), quick=500, thorough=10000, shards=4,
            rule="non-trivial: order above zero and cells that differ")
def regression_plot(c, ctx):
    """The regression figures: cell averages of density, velocity, pressure against the exact curve."""
    ex = np.array(c["exact"], dtype=float) / 100.0
    with sim.Scratch() as top:
        os.mkdir("case")
        os.chdir("case")
        u, s = saved_solution(c)
        fl = np.array(s.sensors.sensors)[1:-1] if c["sens"] else None
        np.savetxt("exact.txt", ex, delimiter=',')
        os.chdir(top)
        figs, saved = run_tool(os.path.join(boot.REPO, "regressions", "plot.py"), ["-f", str(c["step"]), "-d", "case"])
    want = primitive(c, u[:, :, 0])
    names = {os.path.basename(str(f)): num for num, f in saved}
    dx = gen.case_dx(c)
    for k, name in enumerate(['density.png', 'velocity.png', 'pressure.png']):
        require(name in names, "figure %s not saved (saved %r)" % (name, sorted(names)))
        d = figs[names[name]]
        points(d.get('o'), np.asarray(s.xc), want[:, k], dx, name, 1e-10, sizes(c, u)[k])
        points(d.get(''), ex[:, 0], ex[:, k + 1], 0.01, name + " exact curve", 1e-9)
    require(('sensors.png' in names) == bool(c["sens"]), "sensor figure saved: %r, sensors on: %r" % (sorted(names), c["sens"]))
    if c["sens"]:
        points(figs[names['sensors.png']].get('o'), np.asarray(s.xc), fl.astype(float), dx, "sensor", 1e-12)
    ctx.label("p%d" % c["p"], "sens" if c["sens"] else "plain")
    ctx.nontrivial(c["p"] > 0 and np.ptp(u[:, 0, 0]) > 0)
