"""C13: ghost cells follow the boundary conditions, for every way a solution comes about."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Discard, Prop, close, fail, require, same

import dg1d.dg as dgmod
import dg1d.limiting as limiting
import dg1d.solution as solution

PROP = Prop("C13")
PROP.assumptions = ["Boundary types periodic and zerograd, on each side on its own."]


@st.composite
def bc_case(draw):
    c = draw(gen.field_case(pmax=6, nmin=1, nmax=10, wide=300, deep=12))
    c["bl"] = draw(st.sampled_from(['periodic', 'zerograd']))
    c["br"] = draw(st.sampled_from(['periodic', 'zerograd']))
    c["how"] = draw(st.sampled_from(['direct', 'copy', 'built', 'loaded']))
    c["garbage"] = draw(st.integers(-5, 5))
    c["touch"] = draw(st.lists(st.tuples(st.integers(0, 15), st.integers(0, 2), st.booleans()), min_size=1, max_size=2))
    c["into"] = draw(st.sampled_from(['empty', 'sinewave 3', 'simplew 4'] if c["system"] == 'advection' else
                                     ['empty', 'entrpyw 3', 'shuoshe 4', 'simplew 2']))
    return c


def text(s):
    """The same string as a different object."""
    return ''.join([s[:3], s[3:]])


def judge(w, nf, interior, c, when):
    first, last = w[:, nf:2 * nf], w[:, -2 * nf:-nf]
    same(w[:, nf:-nf], interior, "interior after applying the boundary conditions" + when)
    same(w[:, :nf], last if c["bl"] == 'periodic' else first, "left ghost cell (%s)%s" % (c["bl"], when))
    same(w[:, -nf:], first if c["br"] == 'periodic' else last, "right ghost cell (%s)%s" % (c["br"], when))


@PROP.check("ghosts", bc_case(), quick=2000, thorough=50000, shards=2,
            rule="non-trivial: first and last cell differ")
def ghosts(c, ctx):
    u = gen.build_field(c)
    with sim.Scratch():
        s = sim.make_solution(c, u)
        s.bc_l, s.bc_r = (text(c["bl"]), text(c["br"])) if c["how"] == 'built' else (c["bl"], c["br"])
        if c["how"] == 'copy':
            s = s.copy()
        elif c["how"] == 'loaded':
            if c["n"] < 2:
                raise Discard()
            s.printer(3, 0.0)
            s = solution.Solution(c["into"], c["system"], 0)
            if c["into"] != 'empty':
                s.apply_bc()            # an object that has been used before, with its own ends
            s.loader(3)
        nf = s.N_F
        v = np.array(s.u)
        v[:, :nf] = c["garbage"]
        v[:, -nf:] = c["garbage"] + 1
        s.u = v
        s.apply_bc()
        judge(np.array(s.u), nf, ref.from_cells(u), c, "")
        # change single coefficients of the outer cells only, and ask again
        v = np.array(s.u)
        for m, f, right in c["touch"]:
            k = (-2 * nf if right else nf) + f % nf
            v[m % (c["p"] + 1), k] += 0.125 * abs(v[0, k]) + 1e-3
        s.u = np.array(v)
        s.apply_bc()
        w = np.array(s.u)
        judge(w, nf, v[:, nf:-nf], c, " after a change of single coefficients")
    first, last = w[:, nf:2 * nf], w[:, -2 * nf:-nf]
    ctx.label(c["bl"] + '-' + c["br"], c["how"], c["system"], "n1" if c["n"] == 1 else "n2+")
    ctx.nontrivial(not np.array_equal(first, last))


@PROP.check("used_by_residual", bc_case(), quick=900, thorough=20000, shards=2,
            rule="non-trivial: boundaries of different type or first and last cell different")
def used_by_residual(c, ctx):
    """The residual never depends on what the ghost cells held before."""
    u = gen.build_field(c)
    r = []
    for k in range(2):
        s = sim.make_solution(c, u)
        if k:
            v = np.array(s.u)
            v[:, :s.N_F] = v[:, 2 * s.N_F - 1:s.N_F - 1:-1] * 1.5 + 1
            v[:, -s.N_F:] = 7.0
            s.u = v
        r.append(ref.to_cells(dgmod.DG(s).residual(s), s.N_F, c["p"]))
    close(r[1], r[0], 1e-11, "residual with other data in the ghost cells", scale=np.abs(r[0]).max() + 1e-300)
    ctx.label(c["bc"], c["system"])
    ctx.nontrivial(np.ptp(u[:, 0, 0]) > 0)


@st.composite
def lim_case(draw):
    c = draw(gen.field_case(pmax=5, nmin=1, nmax=8, enh=False, kinds=('rough', 'jump', 'near')))
    c["thr"] = [0.0, 0.0]
    return c


@PROP.check("used_by_limiter", lim_case(), quick=600, thorough=15000, shards=1,
            rule="non-trivial: the limiter changed the field")
def used_by_limiter(c, ctx):
    """Same for limiting, and the ghost cells are consistent afterwards."""
    u = gen.build_field(c)
    out = []
    for k in range(2):
        s = sim.make_solution(c, u, c["thr"])
        v = np.array(s.u)
        v[:, :s.N_F] = v[:, s.N_F:2 * s.N_F] * (1 + 0.5 * k)
        v[:, -s.N_F:] = v[:, s.N_F:2 * s.N_F] * (2 - k)
        s.u = v
        limiting.Limiter('adaptive_hr', s).limit(s)
        out.append(sim.cells(s))
        nf = s.N_F
        w = np.array(s.u)
        a, b = w[:, nf:2 * nf], w[:, -2 * nf:-nf]
        same(w[:, :nf], b if c["bc"] == 'periodic' else a, "left ghost cell after limiting")
        same(w[:, -nf:], a if c["bc"] == 'periodic' else b, "right ghost cell after limiting")
    close(out[1], out[0], 1e-11, "limited field with other data in the ghost cells", scale=np.abs(u).max() + 1e-300)
    ctx.label(c["bc"], c["system"])
    ctx.nontrivial(not np.array_equal(out[0], u))


@st.composite
def unknown_case(draw):
    c = draw(gen.field_case(pmax=3, nmin=2, nmax=6, enh=False))
    name = st.one_of(st.sampled_from(['', 'wall', 'Periodic', 'periodic2', 'zero', 'zerogradient', 'periodi', 'outflow', 'None', 'zero grad']),
                     st.text(st.sampled_from('abcdeinoprz'), max_size=9))
    good = st.sampled_from(['periodic', 'zerograd'])
    name = name.filter(lambda w: w not in ('periodic', 'zerograd'))
    side = draw(st.sampled_from(['left', 'right', 'both']))
    c["bl"] = draw(good if side == 'right' else name)
    c["br"] = draw(good if side == 'left' else name)
    c["by"] = draw(st.sampled_from(['apply_bc', 'residual', 'limiter']))
    c["loaded"] = draw(st.booleans())
    return c


@PROP.check("unknown_type", unknown_case(), quick=300, thorough=6000, shards=1,
            rule="non-trivial: the type comes from a file, or one end is valid")
def unknown_type(c, ctx):
    """A boundary type that is not known is refused, not ignored."""
    with sim.Scratch():
        s = sim.make_solution(c, gen.build_field(c), [0.0, 0.0])
        s.bc_l, s.bc_r = c["bl"], c["br"]
        if c["loaded"]:
            s.printer(0, 0.0)
            s = solution.Solution('empty', c["system"], 0, '', '', [0.0, 0.0])
        try:
            if c["loaded"]:
                s.loader(0)
            if c["by"] == 'apply_bc' or c["loaded"]:
                s.apply_bc()
            elif c["by"] == 'residual':
                dgmod.DG(s).residual(s)
            else:
                limiting.Limiter('adaptive_hr', s).limit(s)
        except SystemExit as ex:
            require(ex.code not in (None, 0, ''), "stops on an unknown boundary type and reports success")
        except Exception:
            pass
        else:
            fail("boundary types %r and %r are accepted (%s)" % (c["bl"], c["br"], c["by"]))
    ctx.label(c["by"], "file" if c["loaded"] else "direct")
    ctx.nontrivial(c["loaded"] or c["bl"] in ('periodic', 'zerograd') or c["br"] in ('periodic', 'zerograd'))
