"""C05: Rusanov and Roe interface fluxes, physical flux and fastest wave."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Prop, Discard, close, require

import dg1d.advection_physics as advection_physics
import dg1d.constants as constants
import dg1d.euler_physics as euler_physics

PROP = Prop("C05")
PROP.assumptions = [
    "Positive densities and pressures; ratio of specific heats between 1.1 and 3; Roe average sound speed real.",
]

FLUX = {'rusanov': lambda: euler_physics.riemann_rusanov, 'roe': lambda: euler_physics.riemann_roe}


class gas:
    """Set the ratio of specific heats for a block."""

    def __init__(self, g):
        self.g = g

    def __enter__(self):
        constants.init()
        constants.gamma = self.g

    def __exit__(self, *a):
        constants.init()


def gamma():
    return st.one_of(st.sampled_from([1.4, 1.4, 5 / 3, 3.0, 1.2]), gen.span(1.1, 3.0))


@st.composite
def states(draw, k=None, close_pairs=True):
    """k pairs of primitive states, from far apart to nearly equal."""
    g = draw(gamma())
    k = k or draw(st.integers(1, 6))
    pairs = []
    for _ in range(k):
        if g == 3.0 and draw(st.booleans()):
            # exactly sonic: characteristic speeds of exactly zero
            L = draw(gen.round_prim())
            pairs.append([L, draw(st.one_of(gen.round_prim(), st.just(list(L))))])
            continue
        L = draw(gen.prim((1e-3, 1e3), (1e-3, 1e3), 5.0))
        if draw(st.integers(0, 3)) == 0:
            L = [L[0] * 10.0 ** draw(st.integers(-8, 8)), L[1], L[2] * 10.0 ** draw(st.integers(-8, 8))]
        how = draw(st.integers(0, 3))
        if how == 0 and close_pairs:
            R = [L[0] * (1 + draw(gen.signed()) * 1e-3), L[1] + draw(gen.signed()) * 1e-3,
                 L[2] * (1 + draw(gen.signed()) * 1e-3)]
        elif how == 1:
            R = [L[0] * draw(gen.logspan(0.2, 5)), L[1] + draw(gen.signed()), L[2] * draw(gen.logspan(0.2, 5))]
        else:
            R = draw(gen.prim((1e-3, 1e3), (1e-3, 1e3), 5.0))
        pairs.append([L, R])
    return {"g": g, "pairs": pairs}


def conserved(c):
    g = c["g"]
    L = np.array([ref.prim_to_cons(*gen.prim_state(a, g), g) for a, b in c["pairs"]])
    R = np.array([ref.prim_to_cons(*gen.prim_state(b, g), g) for a, b in c["pairs"]])
    return L, R


def roe_ok(L, R, g):
    rl, vl, pl = ref.cons_to_prim(L, g)
    rr, vr, pr = ref.cons_to_prim(R, g)
    sl, sr = np.sqrt(rl), np.sqrt(rr)
    v = (sl * vl + sr * vr) / (sl + sr)
    H = (sl * (L[:, 2] + pl) / rl + sr * (R[:, 2] + pr) / rr) / (sl + sr)
    a2 = (g - 1) * (H - 0.5 * v * v)
    return a2 > 1e-6 * (g - 1) * np.maximum(np.abs(H), 1e-300)


def fscale(L, R, g):
    """Size of the terms of a flux, per face and field."""
    out = np.zeros_like(L)
    for U in (L, R):
        r, v, p = ref.cons_to_prim(U, g)
        s = np.abs(v) + np.sqrt(g * p / r)
        f = np.stack([r * s, r * s * s, (np.abs(U[:, 2]) + p) * s], axis=1)
        out = np.maximum(out, f)
    rl, vl, pl = ref.cons_to_prim(L, g)
    rr, vr, pr = ref.cons_to_prim(R, g)
    s = np.maximum(np.abs(vl) + np.sqrt(g * pl / rl), np.abs(vr) + np.sqrt(g * pr / rr))
    r = np.maximum(rl, rr)
    E = np.maximum(L[:, 2] + pl, R[:, 2] + pr)
    return out + np.stack([r * s, r * s * s, np.maximum(E, r * s * s) * s], axis=1)


def call(name, L, R, g):
    with gas(g):
        f = FLUX[name]()(L.reshape(-1).copy(), R.reshape(-1).copy())
    return np.asarray(f, dtype=float).reshape(L.shape)


@st.composite
def named(draw, **kw):
    c = draw(states(**kw))
    c["flux"] = draw(st.sampled_from(['rusanov', 'roe']))
    return c


def setup(c):
    L, R = conserved(c)
    if c["flux"] == 'roe' and not np.all(roe_ok(L, R, c["g"])):
        raise Discard()
    return L, R, c["g"]


@PROP.check("reference", named(), quick=3000, thorough=100000, shards=2,
            rule="non-trivial: some pair of states differs by over 1%")
def reference(c, ctx):
    L, R, g = setup(c)
    F = call(c["flux"], L, R, g)
    want = ref.rusanov(L, R, g) if c["flux"] == 'rusanov' else ref.roe(L, R, g)
    close(F, want, 1e-9, "%s flux" % c["flux"], scale=fscale(L, R, g))
    ctx.label(c["flux"], "g%.1f" % g)
    ctx.nontrivial(np.max(np.abs(L - R) / np.abs(L + R + 1e-300)) > 0.01)


@PROP.check("consistency", named(), quick=1200, thorough=30000, shards=1,
            rule="non-trivial: moving gas")
def consistency(c, ctx):
    """F(u, u) is the physical flux, and the interior flux is that same flux."""
    L, R = conserved(c)
    g = c["g"]
    for U in (L, R):
        F = call(c["flux"], U, U, g)
        close(F, ref.phys_flux(U, g), 1e-12, "flux between equal states", scale=fscale(U, U, g))
        with gas(g):
            I = euler_physics.interior_flux(np.vstack([U.reshape(1, -1)] * 3) * 1.0)
        for k in range(3):
            close(I[k].reshape(-1, 3), ref.phys_flux(U, g), 1e-12, "interior flux", scale=fscale(U, U, g))
    ctx.label(c["flux"])
    ctx.nontrivial(abs(c["pairs"][0][0][1]) > 1e-3)


@PROP.check("mirror", named(), quick=1200, thorough=30000, shards=1,
            rule="non-trivial: distinct states")
def mirror(c, ctx):
    L, R, g = setup(c)
    s = np.array([1.0, -1.0, 1.0])
    close(call(c["flux"], R * s, L * s, g) * -s, call(c["flux"], L, R, g), 1e-10,
          "flux of the mirrored pair", scale=fscale(L, R, g))
    ctx.label(c["flux"])
    ctx.nontrivial(not np.array_equal(L, R))


@st.composite
def batch_case(draw):
    c = draw(named(k=draw(st.integers(2, 7))))
    c["perm"] = list(draw(st.permutations(range(len(c["pairs"])))))
    c["reps"] = draw(st.sampled_from([1, 2, 3, 1, 20, 43, 86, 171, 342, 700]))
    return c


@PROP.check("faces_independent", batch_case(), quick=800, thorough=20000, shards=1,
            rule="non-trivial: the order of the faces really changes")
def faces_independent(c, ctx):
    """A face's flux depends on that face's two states only, and inputs are not modified."""
    L, R, g = setup(c)
    all_ = call(c["flux"], L, R, g)
    p = c["perm"]
    close(call(c["flux"], L[p], R[p], g), all_[p], 1e-13, "fluxes of permuted faces", scale=fscale(L, R, g)[p])
    for i in range(len(L)):
        close(call(c["flux"], L[i:i + 1], R[i:i + 1], g), all_[i:i + 1], 1e-13, "flux of a face on its own",
              scale=fscale(L, R, g)[i:i + 1])
    t = np.tile(np.arange(len(L)), c["reps"])
    close(call(c["flux"], L[t], R[t], g), all_[t], 1e-13, "fluxes of %d faces" % len(t), scale=fscale(L, R, g)[t])
    a, b = L.reshape(-1).copy(), R.reshape(-1).copy()
    with gas(g):
        FLUX[c["flux"]]()(a, b)
    require(np.array_equal(a, L.reshape(-1)) and np.array_equal(b, R.reshape(-1)), "the flux modified its inputs")
    ctx.label(c["flux"])
    ctx.nontrivial(p != sorted(p))


@st.composite
def jump_case(draw):
    return {"g": draw(gamma()), "rho": draw(gen.logspan(1e-2, 1e2)), "p": draw(gen.logspan(1e-2, 1e2)),
            "ratio": draw(gen.logspan(1.02, 1e3)), "v": draw(gen.span(-3, 3)), "side": draw(st.sampled_from([1, -1])),
            "kind": draw(st.sampled_from(['shock', 'contact', 'super']))}


@PROP.check("roe_resolves_waves", jump_case(), quick=1500, thorough=30000, shards=1,
            rule="non-trivial: every case (a single shock, contact or supersonic jump)")
def roe_resolves_waves(c, ctx):
    """Roe: exact on an isolated shock or contact (jump condition), upwind when supersonic."""
    g, r, p = c["g"], c["rho"], c["p"]
    a = math.sqrt(g * p / r)
    if c["kind"] == 'contact':
        L = ref.prim_to_cons(r, c["v"] * a, p, g)
        R = ref.prim_to_cons(r * c["ratio"], c["v"] * a, p, g)
        S = c["v"] * a
    elif c["kind"] == 'shock':
        q = c["ratio"]
        M = math.sqrt((g + 1) / (2 * g) * q + (g - 1) / (2 * g))
        b = (g - 1) / (g + 1)
        v0 = c["v"] * a
        r1 = r * (q + b) / (q * b + 1)
        S = v0 + M * a          # right-facing shock into (r, v0, p)
        v1 = S - (S - v0) * r / r1
        L, R = ref.prim_to_cons(r1, v1, q * p, g), ref.prim_to_cons(r, v0, p, g)
    else:
        q = min(c["ratio"], 3.0)
        L = ref.prim_to_cons(r, 3.2 * a, p, g)
        R = ref.prim_to_cons(r * q, 3.2 * a, p * q, g)
        S = None
    if c["side"] < 0:
        s = np.array([1.0, -1.0, 1.0])
        L, R = R * s, L * s
        S = None if S is None else -S
    F = call('roe', L[None], R[None], g)
    fl, fr = ref.phys_flux(L[None], g), ref.phys_flux(R[None], g)
    sc = fscale(L[None], R[None], g)
    if S is None:
        want = fl if c["side"] > 0 else fr
    else:
        close(fr - fl, S * (R - L)[None], 1e-9, "generator: jump condition", scale=sc)
        # no entropy correction may act on a single compressive wave or contact
        want = fl if S > 0 else fr
        ws = abs(S)
        want = 0.5 * (fl + fr) - 0.5 * ws * (R - L)[None]
    close(F, want, 1e-9, "Roe flux of a single %s" % c["kind"], scale=sc)
    ctx.label(c["kind"], "left" if c["side"] < 0 else "right")
    ctx.nontrivial(True)


@st.composite
def entropy_case(draw):
    return {"g": draw(gamma()), "rho": draw(gen.logspan(1e-1, 1e1)), "p": draw(gen.logspan(1e-1, 1e1)),
            "dv": draw(gen.span(0.2, 1.2)), "side": draw(st.sampled_from([1, -1]))}


@PROP.check("sonic_dissipation", entropy_case(), quick=500, thorough=10000, shards=1,
            rule="non-trivial: every case (a sonic expansion)")
def sonic_dissipation(c, ctx):
    """An expansion shock is never a steady solution: Roe's flux differs from the common flux."""
    g, r, p = c["g"], c["rho"], c["p"]
    # stationary jump satisfying Rankine-Hugoniot, in the entropy-violating direction
    a = math.sqrt(g * p / r)
    q = 1 + c["dv"]
    M = math.sqrt((g + 1) / (2 * g) * q + (g - 1) / (2 * g))
    b = (g - 1) / (g + 1)
    r1 = r * (q + b) / (q * b + 1)
    v0 = M * a
    v1 = v0 * r / r1
    # physical shock: (r,v0,p) -> (r1,v1,qp) to the right; swapped it is an expansion shock
    L, R = ref.prim_to_cons(r1, v1, q * p, g), ref.prim_to_cons(r, v0, p, g)
    if c["side"] < 0:
        s = np.array([1.0, -1.0, 1.0])
        L, R = R * s, L * s
    F = call('roe', L[None], R[None], g)
    f = ref.phys_flux(L[None], g)
    sc = fscale(L[None], R[None], g)
    require(np.max(np.abs(F - f) / sc) > 1e-3 * c["dv"] ** 2,
            lambda: "Roe's flux keeps a stationary expansion shock (pressure ratio %g) steady" % q)
    ctx.nontrivial(True)


@st.composite
def wave_case(draw):
    c = draw(states())
    c["p"] = draw(st.integers(0, 3))
    c["width"] = draw(st.one_of(st.just(0), st.integers(2, 1100), st.sampled_from([128, 255, 257, 511, 513, 1000, 1025])))
    c["at"] = draw(st.sampled_from([0.0, 1.0, draw(st.integers(0, 1000)) / 1000.0]))
    return c


@PROP.check("max_wave_speed", wave_case(), quick=800, thorough=20000, shards=1,
            rule="non-trivial: more than one cell")
def max_wave_speed(c, ctx):
    """Fastest |v|+a over the cell averages; 1 for advection; high modes do not matter."""
    L, R = conserved(c)
    g = c["g"]
    U = np.concatenate([L, R])
    if c["width"]:
        # one fast state on a wide mesh of slow ones
        r, v, p = ref.cons_to_prim(U, g)
        s = np.abs(v) + np.sqrt(g * p / r)
        fast = U[np.argmax(s)].copy()
        U = np.tile(U[np.argmin(s)], (c["width"], 1))
        U[int(round(c["at"] * (c["width"] - 1)))] = fast
    m = np.zeros((c["p"] + 1, U.size))
    m[0] = U.reshape(-1)
    for k in range(1, c["p"] + 1):
        m[k] = 0.1 * np.roll(U.reshape(-1), k)
    r, v, p = ref.cons_to_prim(U, g)
    want = (np.abs(v) + np.sqrt(g * p / r)).max()
    with gas(g):
        got = float(euler_physics.max_wave_speed(m))
    # cancellation in the pressure of the fastest cell
    close(got, want, 1e-9, "fastest wave", scale=want)
    require(float(advection_physics.max_wave_speed(m)) == 1.0, "fastest wave of advection is not 1")
    require(np.array_equal(advection_physics.interior_flux(m * 1.0), m), "advection flux is not u")
    require(np.array_equal(advection_physics.riemann_upwinding(m[0] * 1.0, m[0] * 2.0), m[0]),
            "advection upwind flux is not the left state")
    ctx.nontrivial(len(U) > 2)
