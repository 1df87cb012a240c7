"""C23: small helpers: directory creation, Kronecker delta, angular sorting of roots."""
import os
import sys

import numpy as np
from hypothesis import strategies as st

from pbt import boot, sim
from pbt.core import Discard, Prop, close, fail, require, same

sys.path.append(os.path.join(boot.REPO, "analysis"))
import aux_functions as aux  # noqa: E402

import dg1d.helpers as helpers  # noqa: E402

PROP = Prop("C23")
PROP.assumptions = ["Roots are compared up to the order of exactly equal points."]

NAMES = st.sampled_from(['a', 'b', 'run 1', 'p=2', 'x.y', '-n', 'ä', '.h'])


@st.composite
def dir_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        ops.append([draw(st.sampled_from(['dir', 'dir', 'again', 'fill', 'over'])),
                    draw(st.lists(NAMES, min_size=1, max_size=4)), draw(st.sampled_from(['', '/', '/.', '//']))])
    return {"ops": ops, "abs": draw(st.booleans())}


def tree(top):
    out = {}
    for d, dirs, files in os.walk(top):
        for n in dirs:
            out[os.path.relpath(os.path.join(d, n), top)] = None
        for n in files:
            with open(os.path.join(d, n), 'rb') as f:
                out[os.path.relpath(os.path.join(d, n), top)] = f.read()
    return out


@PROP.check("makedir", dir_case(), quick=4000, thorough=60000, shards=1,
            rule="non-trivial: a nested or already existing directory was asked for")
def makedir(c, ctx):
    """After asking, the directory exists; everything that was there is untouched; asking again
    is harmless."""
    with sim.Scratch() as top:
        model, nontriv = {}, False
        for op, path, tail in c["ops"]:
            rel = os.path.join(*path)
            if op == 'fill':
                ds = sorted(k for k, v in model.items() if v is None)
                if ds:
                    name = os.path.join(ds[len(path) % len(ds)], 'f%d.txt' % len(model))
                    model[name] = b'data'
                    with open(os.path.join(top, name), 'wb') as f:
                        f.write(b'data')
                continue
            if op == 'over':        # a file is in the way: it cannot be done, and nothing may be lost
                fs = sorted(k for k, v in model.items() if v is not None)
                if fs:
                    name = os.path.join(fs[len(path) % len(fs)], *path[1:])
                    try:
                        helpers.makedir(os.path.join(top, name) if c["abs"] else name)
                    except (Exception, SystemExit):
                        pass
                    nontriv = True
                    require(tree(top) == model, lambda: "directory tree %r after asking for %r, expected %r" % (
                        sorted(tree(top)), name, sorted(model)))
                continue
            parts = [os.path.join(*path[:i + 1]) for i in range(len(path))]
            nontriv |= len(path) > 1 or rel in model
            for q in parts:
                model.setdefault(q, None)
            arg = os.path.join(top, rel) if c["abs"] else rel
            helpers.makedir(arg + tail)
            if op == 'again':
                helpers.makedir(arg + tail)
            require(tree(top) == model, lambda: "directory tree %r, expected %r" % (sorted(tree(top)), sorted(model)))
    ctx.label(*[o[0] for o in c["ops"]])
    ctx.nontrivial(nontriv)


INTS = st.one_of(st.integers(-4, 4), st.integers(-10 ** 20, 10 ** 20), st.booleans())
OTHER = st.one_of(st.floats(allow_nan=False), st.sampled_from(['1', '', None, [1], 2.0, 0.0]))


@PROP.check("delta", st.fixed_dictionaries({"i": st.one_of(INTS, INTS, OTHER), "j": st.one_of(INTS, INTS, OTHER),
                                            "eq": st.booleans(), "off": st.sampled_from([0, 0, 0, 1, -1, 2, 2 ** 32, 2 ** 64])}),
            quick=6000, thorough=100000, shards=1, rule="non-trivial: equal arguments, or one that is no integer")
def delta(c, ctx):
    i, j = c["i"], (c["i"] if c["eq"] else c["j"])
    if c["off"] and c["eq"] and type(i) is int:
        j = i + c["off"]                # neighbours, also far from zero
    whole = isinstance(i, int) and isinstance(j, int)
    try:
        got = aux.delta(i, j)
    except SystemExit as e:
        require(not whole, "refuses the integers %r and %r" % (i, j))
        require(e.code not in (0, None), "refusal without an error status")
        got = None
    if not whole:
        require(got is None, lambda: "accepts %r, %r: returns %r" % (i, j, got))
    else:
        require(got == (1 if i == j else 0), lambda: "delta(%r, %r) = %r" % (i, j, got))
    ctx.label("integers" if whole else "other", "equal" if whole and i == j else "different")
    ctx.nontrivial(not whole or i == j)


@st.composite
def root_case(draw):
    m, n = draw(st.integers(1, 12)), draw(st.integers(1, 5))
    k = draw(st.sampled_from([3, 50, 1000]))
    return {"shape": [m, n] if draw(st.booleans()) else [m * n],
            "re": draw(st.lists(st.integers(-k, k), min_size=m * n, max_size=m * n)),
            "im": draw(st.lists(st.integers(-k, k), min_size=m * n, max_size=m * n)),
            "real": draw(st.integers(0, 4)) == 0, "q": draw(st.sampled_from([1.0, 8.0, 7.0]))}


@PROP.check("sort_roots", root_case(), quick=6000, thorough=100000, shards=1,
            rule="non-trivial: three or more distinct points")
def sort_roots(c, ctx):
    """The result is the same cloud of points, in counter-clockwise order about its mean."""
    z = np.array(c["re"]) / c["q"] + (0 if c["real"] else 1j * np.array(c["im"]) / c["q"])
    z = z.reshape(c["shape"])
    keep = z.copy()
    x, y = aux.sort_roots_angle(z)
    same(z, keep, "the roots themselves")
    require(np.shape(x) == (z.size,) and np.shape(y) == (z.size,), "%r and %r values for %d roots" % (np.shape(x), np.shape(y), z.size))
    key = lambda p: (p[0], p[1])
    got, want = sorted(zip(x.tolist(), y.tolist()), key=key), sorted(((float(v.real), float(v.imag)) for v in z.ravel()), key=key)
    require(got == want, lambda: "points %r, expected %r" % (got[:4], want[:4]))
    dx, dy = x - np.mean(z.real), y - np.mean(z.imag)
    far = np.hypot(dx, dy) > 1e-9          # the mean itself has no angle
    ang = np.arctan2(dy, dx)[far]
    # angles at the branch cut (due left) may carry either sign by rounding
    d = np.diff(ang[np.abs(np.abs(ang) - np.pi) > 1e-9])
    require(np.all(d >= -1e-9), lambda: "angles decrease: %r" % ang.tolist()[:8])
    ctx.label("n%d" % min(z.size, 10), "real" if c["real"] else "complex")
    ctx.nontrivial(len(set(got)) >= 3)
