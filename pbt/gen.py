"""Generators.  Every case is a JSON-able dict of plain numbers and strings; the
floats are decoded from integers so that shrinking moves towards simple values."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import ref

RKS = ['rk3', 'rk4', 'rk5', 'rk6', 'rk8', 'rk10', 'rk12', 'rk14', 'low_storage_rk4']
RK_ORDER = {'rk3': 3, 'rk4': 4, 'rk5': 5, 'rk6': 6, 'rk8': 8, 'rk10': 10, 'rk12': 12,
            'rk14': 14, 'low_storage_rk4': 4, '': 4}
RIEMANNS = ['rusanov', 'godunov', 'roe']


def unit():
    """Float in [0,1]; the simplest value is the middle.  (Hypothesis draws ranges up to
    a thousand nearly uniformly, larger ranges mostly near their simplest value.)"""
    return st.integers(-500, 500).map(lambda k: 0.5 + k / 1000.0)


def signed():
    return st.integers(-600, 600).map(lambda k: k / 600.0)


def span(lo, hi):
    return unit().map(lambda s: lo + (hi - lo) * s)


def logspan(lo, hi):
    a, b = math.log10(lo), math.log10(hi)
    return unit().map(lambda s: float('%.12g' % 10 ** (a + (b - a) * s)))


def ints(n, lo=-1000, hi=1000):
    return st.lists(st.integers(lo, hi), min_size=n, max_size=n)


@st.composite
def prim(draw, rho=(1e-2, 1e2), p=(1e-2, 1e3), mach=4.0):
    """Primitive state as (rho, Mach, p)."""
    return [draw(logspan(*rho)), draw(span(-mach, mach)), draw(logspan(*p))]


@st.composite
def round_prim(draw):
    """(rho, Mach, p) that are at rest or exactly sonic for gamma 3, without any rounding anywhere."""
    k, m = draw(st.integers(-6, 6)), draw(st.integers(-3, 3))
    return [3 * 2.0 ** k, float(draw(st.sampled_from([-1, -1, 0, 1, 1]))), 2.0 ** k * 4.0 ** m]


def prim_state(s, g):
    rho, m, p = s
    return np.array([rho, m * math.sqrt(g * p / rho), p])


@st.composite
def modes_subset(draw, p, max_len=None):
    """Non-empty list of distinct neighbour modes (unsorted), or []"""
    k = draw(st.integers(1, min(p + 1, max_len or p + 1)))
    perm = draw(st.permutations(list(range(p + 1))))
    return list(perm[:k])


def weighted_order(lo=0, hi=8):
    """Orders: mostly small, but the tail is visited."""
    return st.one_of(st.integers(lo, min(4, hi)), st.integers(lo, hi))


# ------------------------------------------------------------------- states
WIDTHS = [40, 63, 99, 127, 199, 255, 399, 511, 799, 1023]
IC_FOR = {
    ('euler', 'periodic', 1.4): 'entrpyw',
    ('euler', 'zerograd', 1.4): 'shuoshe',
    ('euler', 'zerograd', 3.0): 'simplew',
    ('advection', 'periodic', 1.4): 'sinewave',
    ('advection', 'zerograd', 1.4): 'simplew',
}


@st.composite
def field_case(draw, system=None, pmin=0, pmax=6, nmin=1, nmax=14, enh=True, riem=None,
               kinds=('smooth', 'rough', 'jump', 'near'), bc=None, maxenh=4, units=False, mixed=False, wide=0, deep=0):
    """A configuration plus a random polynomial field on it.  units: sometimes far from one
    in density and velocity; mixed: sometimes another boundary type on the right; wide: sometimes
    a low order on many cells (up to that number); deep: sometimes an order up to that."""
    system = system or draw(st.sampled_from(['euler', 'euler', 'advection']))
    keys = [k for k in IC_FOR if k[0] == system and (bc is None or k[1] == bc)]
    key = draw(st.sampled_from(keys))
    p = draw(weighted_order(pmin, pmax))
    n = draw(st.integers(nmin, nmax))
    size = draw(st.integers(0, 15)) if wide or deep else 0
    if wide and size == 15:
        n, p = draw(st.sampled_from([w for w in WIDTHS if w <= wide])) + draw(st.integers(0, 2)), max(pmin, min(p, 2))
    elif deep and size == 14:
        n, p = max(nmin, min(n, 4)), draw(st.integers(pmax + 1, deep))
    c = {"system": system, "bc": key[1], "g": key[2], "p": p, "n": n,
         "kind": draw(st.sampled_from(list(kinds))),
         "amp": draw(st.integers(0, 40)),
         "mach": draw(st.integers(0, 20)),
         "spread": draw(st.integers(0, 12)),
         "data": draw(ints(min(3 * n * (p + 1) if system == 'euler' else n * (p + 1), 97)))}
    if system == 'euler':
        c["riemann"] = riem or draw(st.sampled_from(RIEMANNS))
    else:
        c["riemann"] = riem or draw(st.sampled_from(['', 'roe', 'rusanov']))
    c["enh"] = draw(modes_subset(p, maxenh)) if enh and p <= pmax and draw(st.integers(0, 3)) == 3 else []
    if units and draw(st.integers(0, 2)) == 2:
        c["units"] = [draw(st.integers(-8, 8)), draw(st.integers(-5, 5))]
    if mixed and draw(st.integers(0, 3)) == 3:
        c["bc_r"] = 'zerograd' if c["bc"] == 'periodic' else 'periodic'
    return c


def ic_line(c):
    ic = IC_FOR[(c["system"], c["bc"], c["g"])]
    return "%s %d" % (ic, c["n"])


DOMAIN = {'sinewave': (-1, 1), 'entrpyw': (-1, 1), 'shuoshe': (0, 10), 'simplew': (-4, 4),
          'ictest': (-1, 1), 'acsticw': (-1, 1), 'scktube': (-1, 1)}


def case_dx(c):
    A, B = DOMAIN[IC_FOR[(c["system"], c["bc"], c["g"])]]
    return (B - A) / c["n"]


def build_field(c):
    """Case -> admissible state, in the units of the case."""
    u = build_unit_field(c)
    if c.get("units"):
        r, v = 10.0 ** c["units"][0], 10.0 ** c["units"][1]
        u = u * (np.array([r, r * v, r * v * v])[:u.shape[1]])[None, :, None]
    return u


def build_unit_field(c):
    """Case -> admissible state [cell, field, mode] (positive density and pressure at
    all Gauss nodes and faces, by scaling the higher modes down)."""
    n, p = c["n"], c["p"]
    d = c["data"]
    m = len(d)

    def val(i):
        # reuse the data with a shifted weight once exhausted: still a pure function
        return d[i % m] / 1000.0 * (1.0 if i < m else math.cos(0.7 * (i // m) + 0.1 * i))

    def near(i, last):
        # the value of the neighbour, one very close to it, or another one
        q = abs(d[i % m]) % 4
        return last if q == 0 else last + 10.0 ** -(2 + abs(d[i % m]) % 11) * val(i) if q == 1 else val(i)

    if c["system"] != 'euler':
        out = np.zeros((n, 1, p + 1))
        i = 0
        if c["kind"] == 'near':
            small = 10.0 ** -(abs(d[0]) % 9)
            for e in range(n):
                out[e, 0, 0] = near(e, out[e - 1, 0, 0] if e else val(0))
                for k in range(1, p + 1):
                    out[e, 0, k] = small * val(n + e * p + k)
            return out
        for e in range(n):
            for k in range(p + 1):
                out[e, 0, k] = val(i) * (1.0 if k == 0 or c["kind"] == 'rough' else 0.3)
                i += 1
        return out * (10.0 ** (c["spread"] - 6) if c["kind"] == 'jump' else 1.0)
    g = c["g"]
    out = np.zeros((n, 3, p + 1))
    sp = c["spread"] / 10.0      # log10 spread of rho and p
    mach = c["mach"] / 10.0
    i = 0
    a = b = v = 0.0
    for e in range(n):
        if c["kind"] == 'near':
            a, b, v = near(i, a), near(i + 1, b), near(i + 2, v)
            i += 3
        elif c["kind"] == 'jump':
            j = 0 if e < (n + 1) // 2 else 3
            a, b, v = val(j), val(j + 1), val(j + 2)
        elif c["kind"] == 'smooth':
            ph = 2 * math.pi * e / n
            a = val(0) * math.sin(ph) + val(1) * math.cos(ph)
            b = val(2) * math.sin(ph) + val(3) * math.cos(ph)
            v = val(4) * math.sin(ph) + val(5)
        else:
            a, b, v = val(i), val(i + 1), val(i + 2)
            i += 3
        rho = 10 ** (0.5 * sp * a)
        pr = 10 ** (sp * b)
        out[e, :, 0] = ref.prim_to_cons(rho, mach * v * math.sqrt(g * pr / rho), pr, g)
    if p > 0:
        amp = c["amp"] / 100.0 * (10.0 ** -(abs(d[0]) % 9) if c["kind"] == 'near' else 1.0)
        hi = np.zeros_like(out)
        i += 7
        for e in range(n):
            rho, mom, E = out[e, :, 0]
            for k in range(1, p + 1):
                s = amp / k
                hi[e, 0, k] = s * rho * val(i)
                hi[e, 1, k] = s * (abs(mom) + 0.3 * math.sqrt(rho * E)) * val(i + 1)
                hi[e, 2, k] = s * E * val(i + 2)
                i += 3
        f = 1.0
        for _ in range(60):
            if admissible(out + f * hi, c):
                break
            f *= 0.5
        else:
            f = 0.0
        out = out + f * hi
    if not admissible(out, c):
        # an enhanced face value of piecewise-constant data can overshoot: damp the field
        mean = out.mean(axis=0)
        for _ in range(60):
            out = mean + 0.5 * (out - mean)
            if admissible(out, c):
                break
    return out


def admissible(c, case, floor=0.05):
    """Positive density and pressure (relative to the cell mean) at nodes and faces."""
    g = case["g"]
    p = c.shape[2] - 1
    mod = ref.Model('euler', p, 1.0, case["bc"], g, modes=case.get("enh") or None, bc_r=case.get("bc_r"))
    cg = mod.ghosts(c)
    L, R = mod.faces(cg)
    nodes = np.einsum('efn,ng->egf', c, mod.P)
    rho0, _, p0 = ref.cons_to_prim(c[:, :, 0], g)
    if np.min(rho0) <= 0 or np.min(p0) <= 0:
        return False
    rmin, pmin = floor * rho0.min(), floor * p0.min()
    for U in (L, R, nodes.reshape(-1, 3)):
        r, v, q = ref.cons_to_prim(U, g)
        if not (np.all(r > rmin) and np.all(q > pmin)):
            return False
        if np.any(np.abs(v) > 50 * np.sqrt(g * q / r)):
            return False
    # no vacuum / extreme rarefaction at any face (Godunov's fixed point)
    rl, vl, pl = ref.cons_to_prim(L, g)
    rr, vr, pr = ref.cons_to_prim(R, g)
    al, ar = np.sqrt(g * pl / rl), np.sqrt(g * pr / rr)
    z = (g - 1) / (2 * g)
    base = (0.5 * (vl - vr) * (g - 1) + al + ar) / (al * pl ** -z + ar * pr ** -z)
    if np.any(base <= 0):
        return False
    pstar = base ** (1 / z)
    if np.any(pstar < 0.45 * np.maximum(pl, pr)):
        return False if case.get("riemann") == 'godunov' else bool(np.all(pstar > 1e-3 * np.maximum(pl, pr)))
    # Roe average sound speed must be real
    sl, sr = np.sqrt(rl), np.sqrt(rr)
    v = (sl * vl + sr * vr) / (sl + sr)
    H = (sl * (L[:, 2] + pl) / rl + sr * (R[:, 2] + pr) / rr) / (sl + sr)
    return bool(np.all(H - 0.5 * v * v > 0))
