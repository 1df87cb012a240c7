"""Independent reference models (the oracles).

Nothing here imports dg1d.  Everything is written from the mathematics in the
docstrings/papers the code cites: Legendre-modal DG with (p+1)-point Gauss
quadrature, Rusanov/Roe/exact Riemann fluxes, hierarchical reconstruction,
discontinuity sensors, interface-centred (enhanced) reconstruction, explicit
Runge-Kutta tableaux, named initial conditions.
"""
import math
from fractions import Fraction as Fr
from functools import lru_cache

import numpy as np


# ------------------------------------------------------------ Legendre / Gauss
def legendre(n, x):
    """P_0..P_n at x by the three-term recurrence: array (n+1,)+x.shape."""
    x = np.asarray(x, dtype=float)
    out = np.zeros((n + 1,) + x.shape)
    out[0] = 1.0
    if n > 0:
        out[1] = x
    for k in range(1, n):
        out[k + 1] = ((2 * k + 1) * x * out[k] - k * out[k - 1]) / (k + 1)
    return out


def dlegendre(n, x):
    """P_0'..P_n' at x, from P'_{k+1} = P'_{k-1} + (2k+1) P_k."""
    x = np.asarray(x, dtype=float)
    P = legendre(n, x)
    out = np.zeros_like(P)
    if n > 0:
        out[1] = 1.0
    for k in range(1, n):
        out[k + 1] = out[k - 1] + (2 * k + 1) * P[k]
    return out


@lru_cache(maxsize=None)
def gauss(n):
    """n-point Gauss-Legendre nodes/weights on [-1,1] by Newton iteration."""
    i = np.arange(1, n + 1)
    x = -np.cos(np.pi * (i - 0.25) / (n + 0.5))
    for _ in range(100):
        P = legendre(n, x)[n]
        dP = dlegendre(n, x)[n]
        d = P / dP
        x = x - d
        if np.max(np.abs(d)) < 1e-16:
            break
    x = 0.5 * (x - x[::-1])
    w = 2.0 / ((1 - x * x) * dlegendre(n, x)[n] ** 2)
    x.setflags(write=False)
    w.setflags(write=False)
    return x, w


# exact rational polynomials: lists of Fractions, ascending powers
@lru_cache(maxsize=None)
def legendre_poly(n):
    if n == 0:
        return (Fr(1),)
    if n == 1:
        return (Fr(0), Fr(1))
    a = legendre_poly(n - 1)
    b = legendre_poly(n - 2)
    out = [Fr(0)] * (n + 1)
    for i, c in enumerate(a):
        out[i + 1] += Fr(2 * n - 1, n) * c
    for i, c in enumerate(b):
        out[i] -= Fr(n - 1, n) * c
    return tuple(out)


def pmul(a, b):
    out = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                out[i + j] += x * y
    return out


def pshift(a, s):
    """a(x+s)"""
    out = [Fr(0)] * len(a)
    for n, c in enumerate(a):
        for k in range(n + 1):
            out[k] += c * math.comb(n, k) * Fr(s) ** (n - k)
    return out


def pint(a, lo, hi):
    lo, hi = Fr(lo), Fr(hi)
    return sum(c * (hi ** (i + 1) - lo ** (i + 1)) / (i + 1) for i, c in enumerate(a))


def peval(a, x):
    r = 0
    for c in reversed(list(a)):
        r = r * x + c
    return r


# ------------------------------------------------------------------ Euler gas
def prim_to_cons(rho, v, p, g):
    return np.array([rho, rho * v, p / (g - 1) + 0.5 * rho * v * v])


def cons_to_prim(U, g):
    """U (..., 3) -> rho, v, p"""
    rho = U[..., 0]
    v = U[..., 1] / rho
    p = (g - 1) * (U[..., 2] - 0.5 * rho * v * v)
    return rho, v, p


def phys_flux(U, g):
    """Euler flux, U (...,3)."""
    rho, v, p = cons_to_prim(U, g)
    F = np.empty_like(U)
    F[..., 0] = U[..., 1]
    F[..., 1] = U[..., 1] * v + p
    F[..., 2] = (U[..., 2] + p) * v
    return F


def rusanov(UL, UR, g):
    rl, vl, pl = cons_to_prim(UL, g)
    rr, vr, pr = cons_to_prim(UR, g)
    s = np.maximum(np.abs(vl) + np.sqrt(g * pl / rl), np.abs(vr) + np.sqrt(g * pr / rr))
    return 0.5 * (phys_flux(UL, g) + phys_flux(UR, g)) - 0.5 * s[..., None] * (UR - UL)


def roe(UL, UR, g):
    """Roe flux in matrix form, |A| from the eigenvectors of the Roe Jacobian, with
    Harten's correction on the acoustic eigenvalues (width 4*max(0, jump))."""
    UL = np.atleast_2d(UL)
    UR = np.atleast_2d(UR)
    out = np.empty_like(UL)
    for i in range(UL.shape[0]):
        rl, vl, pl = cons_to_prim(UL[i], g)
        rr, vr, pr = cons_to_prim(UR[i], g)
        al, ar = math.sqrt(g * pl / rl), math.sqrt(g * pr / rr)
        sl, sr = math.sqrt(rl), math.sqrt(rr)
        v = (sl * vl + sr * vr) / (sl + sr)
        Hl, Hr = (UL[i, 2] + pl) / rl, (UR[i, 2] + pr) / rr
        H = (sl * Hl + sr * Hr) / (sl + sr)
        a = math.sqrt((g - 1) * (H - 0.5 * v * v))
        R = np.array([[1, 1, 1], [v - a, v, v + a], [H - v * a, 0.5 * v * v, H + v * a]])
        w = np.linalg.solve(R, UR[i] - UL[i])
        lam = np.abs([v - a, v, v + a])
        for k, jump in ((0, (vr - ar) - (vl - al)), (2, (vr + ar) - (vl + al))):
            d = max(0.0, 4 * jump)
            if lam[k] < 0.5 * d:
                lam[k] = lam[k] ** 2 / d + 0.25 * d
        out[i] = 0.5 * (phys_flux(UL[i], g) + phys_flux(UR[i], g)) - 0.5 * R.dot(lam * w)
    return out


def _fk(p, r, pk, a, g):
    """Velocity change across the wave joining state k to pressure p."""
    if p > pk:
        return (p - pk) * math.sqrt(2 / ((g + 1) * r) / (p + (g - 1) / (g + 1) * pk))
    # expm1 form keeps small changes accurate
    return 2 * a / (g - 1) * math.expm1((g - 1) / (2 * g) * math.log(p / pk))


def exact_riemann(L, R, g):
    """Star pressure and velocity for primitive states (rho, v, p); None if vacuum."""
    rl, vl, pl = L
    rr, vr, pr = R
    al, ar = math.sqrt(g * pl / rl), math.sqrt(g * pr / rr)
    if 2 / (g - 1) * (al + ar) <= vr - vl:
        return None

    def F(p):
        return _fk(p, rl, pl, al, g) + _fk(p, rr, pr, ar, g) + vr - vl

    hi = max(pl, pr)
    while F(hi) < 0:
        hi *= 2
    lo = hi
    while F(lo) > 0:
        lo *= 0.5
        if lo < 1e-290:
            return None
    for _ in range(300):
        m = math.sqrt(lo) * math.sqrt(hi)
        if not (lo < m < hi):
            break
        if F(m) < 0:
            lo = m
        else:
            hi = m
    p = math.sqrt(lo) * math.sqrt(hi)
    u = 0.5 * (vl + vr) + 0.5 * (_fk(p, rr, pr, ar, g) - _fk(p, rl, pl, al, g))
    return p, u


def sample_riemann(L, R, star, xi, g):
    """Primitive state of the exact solution at speed xi = x/t."""
    p, u = star

    def side(r, v, pk, us, s):
        # wave facing left, evaluated at speed s <= us
        a = math.sqrt(g * pk / r)
        if p > pk:
            S = v - a * math.sqrt((g + 1) / (2 * g) * p / pk + (g - 1) / (2 * g))
            if s <= S:
                return r, v, pk
            q, b = p / pk, (g - 1) / (g + 1)
            return r * (q + b) / (q * b + 1), us, p
        if s <= v - a:
            return r, v, pk
        rs = r * (p / pk) ** (1 / g)
        as_ = a * (p / pk) ** ((g - 1) / (2 * g))
        if s >= us - as_:
            return rs, us, p
        c = 2 / (g + 1) * (a + (g - 1) / 2 * (v - s))
        return r * (c / a) ** (2 / (g - 1)), c + s, pk * (c / a) ** (2 * g / (g - 1))

    if xi <= u:
        return side(L[0], L[1], L[2], u, xi)
    r, v, q = side(R[0], -R[1], R[2], -u, -xi)
    return r, -v, q


def godunov(L, R, g):
    """Flux of the exact Riemann solution at x/t = 0 (None if vacuum forms)."""
    star = exact_riemann(L, R, g)
    if star is None:
        return None
    r, v, p = sample_riemann(L, R, star, 0.0, g)
    return phys_flux(prim_to_cons(r, v, p, g), g)


# ----------------------------------------------------------- DG discretisation
def face_weights(p, modes):
    """Exact rational weights (aL, aR) such that the interface-centred polynomial of
    degree p+len(modes), which matches all p+1 modes of the left cell and the given
    modes of the right cell, takes the value aL.uL + aR.uR at the shared face."""
    n = p + len(modes) + 1
    A = []
    for i in range(p + 1):
        A.append([Fr(int(i == j)) for j in range(n)])
    for m in modes:
        row = []
        lm = legendre_poly(m)
        norm = pint(pmul(lm, lm), -1, 1)
        for j in range(n):
            # enhanced basis lives in the left cell; the right cell is at xi+2
            row.append(pint(pmul(lm, pshift(legendre_poly(j), 2)), -1, 1) / norm)
        A.append(row)
    # value at xi=+1 is sum_j c_j; solve A^T y = 1
    y = _solve([list(r) for r in zip(*A)], [Fr(1)] * n)
    aL = np.array([float(v) for v in y[:p + 1]])
    aR = np.zeros(p + 1)
    for m, v in zip(modes, y[p + 1:]):
        aR[m] = float(v)
    return aL, aR


def _solve(A, b):
    n = len(A)
    M = [list(A[i]) + [b[i]] for i in range(n)]
    for i in range(n):
        k = next(r for r in range(i, n) if M[r][i] != 0)
        M[i], M[k] = M[k], M[i]
        inv = 1 / M[i][i]
        M[i] = [v * inv for v in M[i]]
        for r in range(n):
            if r != i and M[r][i] != 0:
                f = M[r][i]
                M[r] = [a - f * c for a, c in zip(M[r], M[i])]
    return [M[i][n] for i in range(n)]


_FW = {}


def cached_face_weights(p, modes):
    k = (p, tuple(modes))
    if k not in _FW:
        _FW[k] = face_weights(p, modes)
    return _FW[k]


class Model:
    """Reference DG solver.  State: array c[cell, field, mode] of the interior cells."""

    def __init__(self, system, p, dx, bc, g=1.4, riemann='roe', modes=None,
                 thresholds=None, limit=False, bc_r=None):
        self.system, self.p, self.dx, self.bc, self.g = system, p, dx, bc, g
        self.bc_r = bc_r or bc
        self.riem, self.modes = riemann, modes
        self.thr, self.limit_on = thresholds, limit
        self.flags = None
        self.margin = np.inf          # closest any sensor decision (or step count) has come to its threshold
        self.x, self.w = gauss(p + 1)
        self.P = legendre(p, self.x)
        self.dP = dlegendre(p, self.x)
        self.sgn = (-1.0) ** np.arange(p + 1)
        self.nf = 3 if system == 'euler' else 1

    def flux(self, U):
        return phys_flux(U, self.g) if self.system == 'euler' else U

    def numflux(self, L, R):
        if self.system != 'euler':
            return L.copy()
        if self.riem == 'rusanov':
            return rusanov(L, R, self.g)
        if self.riem == 'godunov':
            out = np.empty_like(L)
            for i in range(len(L)):
                f = godunov([float(a) for a in cons_to_prim(L[i], self.g)],
                            [float(a) for a in cons_to_prim(R[i], self.g)], self.g)
                if f is None:
                    raise ArithmeticError("vacuum")
                out[i] = f
            return out
        return roe(L, R, self.g)

    def ghosts(self, c):
        left = c[-1:] if self.bc == 'periodic' else c[:1]
        right = c[:1] if self.bc_r == 'periodic' else c[-1:]
        return np.concatenate([left, c, right])

    def faces(self, cg):
        """States left/right of each of the N+1 faces."""
        if self.modes:
            aL, aR = cached_face_weights(self.p, sorted(self.modes))
            left = cg[:-1].dot(aL) + cg[1:].dot(aR)
            # mirror image for the value seen from the right cell
            right = cg[1:].dot(aL * self.sgn) + cg[:-1].dot(aR * self.sgn)
            return left, right
        return cg[:-1].sum(axis=2), cg[1:].dot(self.sgn)

    def residual(self, c):
        cg = self.ghosts(c)
        L, R = self.faces(cg)
        q = self.numflux(L, R)
        U = np.einsum('efn,ng->egf', c, self.P)
        F = self.flux(U)
        vol = np.einsum('egf,ng,g->efn', F, self.dP, self.w)
        n = np.arange(self.p + 1)
        surf = q[1:, :, None] - q[:-1, :, None] * self.sgn
        return (vol - surf) * (2 * n + 1) / self.dx

    # -------------------------------------------------- sensors and limiting
    def sensors(self, c):
        a = self.ghosts(c)[:, :, 0]
        self.margin = min(self.margin, sensor_margin(self.system, a, self.thr, self.g)[1])
        return sensor_ref(self.system, a, self.thr, self.g)

    def limit(self, c):
        if not self.limit_on:
            return c
        s = self.sensors(c)
        self.flags = s[1:-1]
        cg = self.ghosts(c)
        out = c.copy()
        for e in range(1, len(cg) - 1):
            if s[e]:
                for f in range(self.nf):
                    out[e - 1, f] = hr_ref(cg[e, f], cg[e - 1, f], cg[e + 1, f])
        return out

    def max_speed(self, c):
        if self.system != 'euler':
            return 1.0
        rho, v, p = cons_to_prim(c[:, :, 0], self.g)
        return float(np.max(np.abs(v) + np.sqrt(self.g * p / rho)))

    def dt(self, c, cfl):
        return cfl * self.dx / (self.max_speed(c) * (2 * self.p + 1))

    def step(self, c, dt, tab):
        b, A = tab
        K = []
        for i in range(len(b)):
            y = c.copy()
            for j in range(i):
                if A[i][j]:
                    y = y + A[i][j] * K[j]
            if i > 0:
                y = self.limit(y)
            K.append(dt * self.residual(y))
        out = c.copy()
        for bi, k in zip(b, K):
            out = out + bi * k
        return self.limit(out)

    def run(self, c, tf, cfl, nout, tab, max_steps=4000):
        """Returns list of (t, n, state) at the nout requested times."""
        t, n = 0.0, 0
        outs = [(t, n, c.copy())]
        self.out_flags = [self.flags]       # of the last limiting before each output
        for k in range(1, nout):
            tout = tf * k / (nout - 1)
            while t < tout:
                dt = self.dt(c, cfl)
                if not dt > 1e-14:
                    raise ArithmeticError("dt")
                if self.limit_on and abs(tout - t - dt) < 1e-6 * dt:
                    self.margin = 0.0    # rounding decides whether one more (empty but limited) step is made
                last = dt > tout - t
                if last:
                    dt = tout - t
                c = self.step(c, dt, tab)
                n += 1
                t = tout if last else t + dt
                if n > max_steps:
                    raise ArithmeticError("steps")
            outs.append((t, n, c.copy()))
            self.out_flags.append(self.flags)
        return outs


RK4 = ([1 / 6, 1 / 3, 1 / 3, 1 / 6],
       [[0, 0, 0, 0], [.5, 0, 0, 0], [0, .5, 0, 0], [0, 0, 1., 0]])
RK3 = ([1 / 6, 2 / 3, 1 / 6], [[0, 0, 0], [.5, 0, 0], [-1., 2., 0]])
TABLEAUX = {'rk3': RK3, 'rk4': RK4, 'low_storage_rk4': RK4, '': RK4}


def to_cells(u, nf, p):
    """dg1d layout (modes, (N+2)*nf) -> interior [cell, field, mode]."""
    u = np.asarray(u)
    n = u.shape[1] // nf
    return u.reshape(p + 1, n, nf).transpose(1, 2, 0)[1:-1].copy()


def from_cells(c):
    """[cell, field, mode] -> (modes, N*nf)"""
    n, nf, m = c.shape
    return c.transpose(2, 0, 1).reshape(m, n * nf)


# --------------------------------------------------------------------- sensor
def jump_measures(system, L, R, g):
    """What the sensor compares with its thresholds at one interface."""
    if system != 'euler':
        d = abs(R[0] - L[0])
        return [2 * d / (1 + d) ** 2]
    rl, vl, pl = (float(z) for z in cons_to_prim(L, g))
    rr, vr, pr = (float(z) for z in cons_to_prim(R, g))
    sl, sr = math.sqrt(rl), math.sqrt(rr)
    v = (sl * vl + sr * vr) / (sl + sr)
    H = (sl * (L[2] + pl) / rl + sr * (R[2] + pr) / rr) / (sl + sr)
    xi = abs((rr - rl) - (pr - pl) / ((g - 1) * (H - 0.5 * v * v))) / (rl + rr)
    ph = abs(pr - pl) / (pl + pr)
    return [2 * xi / (1 + xi) ** 2, 2 * ph / (1 + ph) ** 2]


def sensor_margin(system, a, thr, g):
    """Per interface: (flag 0/1/2 contributions, distance of each test from its threshold)."""
    n = len(a)
    flags = []
    margin = np.inf
    for i in range(n - 1):
        L, R = a[i], a[i + 1]
        f = 0
        if np.array_equal(L, R) and min(thr) >= 0:
            flags.append(0)         # no discontinuity at all, whatever the rounding
            continue
        if system != 'euler':
            d = abs(R[0] - L[0])
            s = 2 * d / (1 + d) ** 2
            if s > thr[0]:
                f = 1
            margin = min(margin, abs(s - thr[0]))
        else:
            rl, vl, pl = (float(z) for z in cons_to_prim(L, g))
            rr, vr, pr = (float(z) for z in cons_to_prim(R, g))
            al, ar = math.sqrt(g * pl / rl), math.sqrt(g * pr / rr)
            sl, sr = math.sqrt(rl), math.sqrt(rr)
            v = (sl * vl + sr * vr) / (sl + sr)
            H = (sl * (L[2] + pl) / rl + sr * (R[2] + pr) / rr) / (sl + sr)
            a2 = (g - 1) * (H - 0.5 * v * v)
            aa = math.sqrt(a2)
            xi = abs((rr - rl) - (pr - pl) / a2) / (rl + rr)
            X = 2 * xi / (1 + xi) ** 2
            margin = min(margin, abs(X - thr[0]))
            if X > thr[0]:
                f = 1
            ph = abs(pr - pl) / (pl + pr)
            PH = 2 * ph / (1 + ph) ** 2
            margin = min(margin, abs(PH - thr[1]))
            if PH > thr[1]:
                c = v - aa
                d1, d2 = (vl - al) - c, c - (vr - ar)
                sc = abs(vl) + abs(vr) + al + ar
                margin = min(margin, abs(d1) / sc, abs(d2) / sc)
                if d1 > 0 and d2 > 0:
                    f = 2 if f == 0 else 3      # both
        flags.append(f)
    return flags, margin


def sensor_ref(system, a, thr, g):
    flags, _ = sensor_margin(system, a, thr, g)
    s = np.zeros(len(a), dtype=int)
    for i, f in enumerate(flags):
        if f in (1, 3):
            s[i] = s[i + 1] = 1
    for i, f in enumerate(flags):
        if f in (2, 3):
            s[i] = s[i + 1] = 2
    return s


# ------------------------------------------------- hierarchical reconstruction
@lru_cache(maxsize=None)
def _leg2mono(p):
    """Matrix: Legendre modes -> Taylor coefficients n! c_n, in floats from exact."""
    M = np.zeros((p + 1, p + 1))
    for j in range(p + 1):
        for i, c in enumerate(legendre_poly(j)):
            M[i, j] = float(c * math.factorial(i))
    return M


@lru_cache(maxsize=None)
def _mono2leg(p):
    M = np.zeros((p + 1, p + 1))
    for n in range(p + 1):
        xn = [Fr(0)] * n + [Fr(1, math.factorial(n))]
        for m in range(n + 1):
            lm = legendre_poly(m)
            M[m, n] = float(Fr(2 * m + 1, 2) * pint(pmul(xn, lm), -1, 1))
    return M


@lru_cache(maxsize=None)
def _avg(k, n, lo, hi):
    """Average over [lo,hi] (length 2) of the k-th derivative of x^n/n!."""
    q = n - k + 1
    return float(Fr(hi ** q - lo ** q, 2 * math.factorial(q)))


def minmod(a, b):
    if a > 0 and b > 0:
        return min(a, b)
    if a < 0 and b < 0:
        return max(a, b)
    return 0.0


def hr_mono_ref(ac, al, ar):
    p = len(ac) - 1
    lim = np.zeros(p + 1)
    for m in range(p, 0, -1):
        k = m - 1
        dl = dc = dr = 0.0
        for n in range(k, p + 1):
            A = _avg(k, n, -1, 1)
            dl += al[n] * A
            dc += ac[n] * A
            dr += ar[n] * A
        for n in range(m + 1, p + 1):
            dl -= lim[n] * _avg(k, n, -3, -1)
            dc -= lim[n] * _avg(k, n, -1, 1)
            dr -= lim[n] * _avg(k, n, 1, 3)
        lim[m] = minmod(0.5 * (dc - dl), 0.5 * (dr - dc))
    # keep the cell average
    avg = sum(ac[n] * _avg(0, n, -1, 1) for n in range(p + 1))
    lim[0] = avg - sum(lim[n] * _avg(0, n, -1, 1) for n in range(1, p + 1))
    return lim


def hr_ref(uc, ul, ur):
    p = len(uc) - 1
    T = _leg2mono(p)
    return _mono2leg(p).dot(hr_mono_ref(T.dot(uc), T.dot(ul), T.dot(ur)))


# ---------------------------------------------------------- initial conditions
def _simplew(x):
    g = 3.0
    u0 = 2.0 / g
    if x <= -1.5:
        u = -u0
    elif x < -0.5:
        u = -(1 - math.tanh((x + 1) / (0.25 - (x + 1) ** 2))) / g
    elif x <= 0.5:
        u = 0.0
    elif x < 1.5:
        u = (1 + math.tanh((x - 1) / (0.25 - (x - 1) ** 2))) / g
    else:
        u = u0
    a = 1 - (g - 1) / 2 * abs(u)
    rho = g * a ** (2 / (g - 1))
    return rho, u, rho * a * a / g


def ic_spec(line):
    """(primitive or scalar function, (A,B), bc, gamma, system) of a named initial condition."""
    w = line.split()
    name = w[0]
    if name == 'sinewave':
        return (lambda x: (math.sin(2 * math.pi * x),)), (-1, 1), 'periodic', 1.4, 'advection'
    if name == 'ictest':
        return (lambda x: (math.sin(x - math.pi / 3) ** 3 + 1,)), (-1, 1), 'periodic', 1.4, 'advection'
    if name == 'entrpyw':
        return (lambda x: (1 + 0.2 * math.sin(math.pi * x), 1.0, 1.0)), (-1, 1), 'periodic', 1.4, 'euler'
    if name == 'acsticw':
        def f(x):
            h = 1e-4 * math.cos(0.5 * math.pi * x) ** 8
            return 1 + h, 0.0, 1 / 1.4 + h
        return f, (-1, 1), 'periodic', 1.4, 'euler'
    if name == 'simplew':
        return _simplew, (-4, 4), 'zerograd', 3.0, 'euler'
    if name == 'shuoshe':
        def f(x):
            if x < 1:
                return 3.857143, 2.629369, 10.333333
            return 1 + 0.2 * math.sin(5 * (x - 5)), 0.0, 1.0
        return f, (0, 10), 'zerograd', 1.4, 'euler'
    if name == 'scktube':
        x0, rl, ul, pl, rr, ur, pr = (float(v) for v in w[2:9])
        return (lambda x: (rl, ul, pl) if x < x0 else (rr, ur, pr)), (-1, 1), 'zerograd', 1.4, 'euler'
    raise KeyError(name)


def ic_cells(line, p):
    """Reference projected initial condition: interpolant at the p+1 Gauss nodes."""
    f, (A, B), bc, g, system = ic_spec(line)
    n = int(line.split()[1])
    dx = (B - A) / n
    xg, wg = gauss(p + 1)
    P = legendre(p, xg)
    nf = 3 if system == 'euler' else 1
    c = np.zeros((n, nf, p + 1))
    for e in range(n):
        xm = A + (e + 0.5) * dx
        vals = []
        for x in xg:
            s = f(xm + 0.5 * dx * x)
            vals.append(prim_to_cons(s[0], s[1], s[2], g) if nf == 3 else [s[0]])
        vals = np.array(vals)
        for m in range(p + 1):
            c[e, :, m] = (2 * m + 1) / 2 * (wg * P[m]).dot(vals)
    return c, dx, bc, g, system
