"""Required behaviour, as terms over the inputs.

Everything here is written from the documented equations of the library, with
NumPy object arrays of value numbers.  Nothing is taken from the analysed
source.
"""
from fractions import Fraction

import numpy as np

from . import terms as T
from .terms import P

HALF = Fraction(1, 2)
ALPHA_Z = T.log_(P(100))          # -log(0.01)


def vec(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = P(x)
    return a


def zeros(*shape):
    a = np.empty(shape, dtype=object)
    a[...] = T.ZERO
    return a


def eye(n):
    a = zeros(n, n)
    for i in range(n):
        a[i, i] = T.ONE
    return a


def dot(a, b):
    """Matrix product."""
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.ndim == 1 and b.ndim == 1:
        s = T.ZERO
        for x, y in zip(a, b):
            s = s + x * y
        return s
    if a.ndim == 1:
        return vec([dot(a, b[:, j]) for j in range(b.shape[1])])
    if b.ndim == 1:
        return vec([dot(a[i], b) for i in range(a.shape[0])])
    o = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(o.shape[0]):
        for j in range(o.shape[1]):
            o[i, j] = dot(a[i], b[:, j])
    return o


def matfn(name, m):
    """Element-wise value numbers of a matrix function."""
    flat = tuple(P(x) for x in m.reshape(-1))
    o = np.empty(m.shape, dtype=object)
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            o[i, j] = T.Poly.atom(T.Atom("fn", name, (
                flat, m.shape, i, j)))
    return o


# -- canonical system and forcing term --------------------------------------
def phase(t, tau, start=0):
    return T.exp_(-ALPHA_Z * (P(t) - start) / tau)


def rbf(n, step_fraction, overlap):
    """Centers and widths of n basis functions spaced evenly in time."""
    c = [T.exp_(-ALPHA_Z * step_fraction * i) for i in range(n)]
    log_overlap = -T.log_(P(overlap))
    w = [log_overlap / (c[i + 1] - c[i]) ** 2 for i in range(n - 1)]
    w.append(w[-1] if w else T.ZERO)
    return c, w


def activations(z, c, w):
    e = [T.exp_(-wi * (z - ci) ** 2) for ci, wi in zip(c, w)]
    s = T.ZERO
    for x in e:
        s = s + x
    return [x / s for x in e]


def forcing(z, W):
    """Phase-weighted normalised mixture of the weights (one per dim)."""
    n = W.shape[1]
    c, w = rbf(n, Fraction(1, n - 1), Fraction(4, 5))
    psi = activations(z, c, w)
    return vec([z * dot(W[d], vec(psi)) for d in range(W.shape[0])])


# -- integrators --------------------------------------------------------------
def substeps(last_t, n_full, rest, h):
    """(end of the sub-step, length) for dt = n_full * h + rest * h."""
    out = []
    t = P(last_t)
    for _ in range(n_full):
        t = t + h
        out.append((t, P(h)))
    if rest:
        d = P(h) * rest
        t = t + d
        out.append((t, d))
    return out


def acc(y, v, s, alpha, beta, g, z, tau, f, cdd, smooth):
    """tau^2 * acceleration of the transformation system."""
    a = alpha * (beta * (g - y) - tau * v)
    if smooth:
        a = a - alpha * beta * (g - s) * z
    return (a + f + cdd) / tau ** 2


def euler(y, v, s, g, alpha, beta, tau, W, steps, start=0, smooth=False,
          coupling=None, tracking=None, p_gain=0):
    y, v = y.copy(), v.copy()
    n = len(y)
    for t, dt in steps:
        cd, cdd = coupling(y, v) if coupling else (zeros(n), zeros(n))
        if tracking is not None:
            cdd = cdd + p_gain * tracking / dt
        z = phase(t, tau, start)
        a = acc(y, v, s, alpha, beta, g, z, tau, forcing(z, W), cdd, smooth)
        v = v + dt * a + cd / tau
        y = y + dt * v
    return y, v


def rk4(y, v, s, g, alpha, beta, tau, W, t, dt, start=0, smooth=False,
        coupling=None, tracking=None, p_gain=0):
    """One step of the classical Runge-Kutta method of length dt ending at
    t; phase and forcing term are taken at t, t + dt / 2 and t + dt."""
    n = len(y)
    dt = P(dt)
    half = dt * HALF
    z = [phase(x, tau, start) for x in (t, t + half, t + dt)]
    f = [forcing(x, W) for x in z]
    extra = zeros(n)
    if tracking is not None:
        extra = p_gain * tracking / dt

    def a(Y, V, i):
        cdd = coupling(Y, V)[1] if coupling else zeros(n)
        return acc(Y, V, s, alpha, beta, g, z[i], tau, f[i], cdd + extra,
                   smooth)
    k0 = a(y, v, 0)
    c1 = v + half * k0
    k1 = a(y + half * v, c1, 1)
    c2 = v + half * k1
    k2 = a(y + half * c1, c2, 1)
    c3 = v + dt * k2
    k3 = a(y + dt * c2, c3, 2)
    y2 = y + dt * (v + 2 * c1 + 2 * c2 + c3) / 6
    v2 = v + dt * (k0 + 2 * k1 + 2 * k2 + k3) / 6
    cd = coupling(y2, v2)[0] if coupling else zeros(n)
    return y2, v2 + cd / tau


def qdiff(a, b):
    """Rotation vector that moves orientation b to orientation a."""
    return vec(T.qlog_(T.qmul_(list(a), T.qconj_(list(b)))))


def qadd(v, q):
    return vec(T.qmul_(T.qexp_(list(v)), list(q)))


def quaternion(q, w, s, g, alpha, beta, tau, W, steps, start=0, smooth=False,
               coupling=None, extra=None):
    q, w = q.copy(), w.copy()
    for t, dt in steps:
        cd, cdd = coupling(q, w) if coupling else (zeros(3), zeros(3))
        if extra is not None:
            cdd = cdd + extra / dt
        z = phase(t, tau, start)
        a = alpha * (beta * qdiff(g, q) - tau * w)
        if smooth:
            a = a - alpha * beta * z * qdiff(g, s)
        a = (a + forcing(z, W) + cdd) / tau ** 2
        w = w + dt * a + cd / tau
        q = qadd(dt * w, q)
    return q, w


# position components of a dual-arm state and their velocity components
DUAL_POS = [(0, 0), (1, 1), (2, 2), (7, 6), (8, 7), (9, 8)]
DUAL_ORI = [(slice(3, 7), slice(3, 6)), (slice(10, 14), slice(9, 12))]


def dual(y, v, s, g, alpha, beta, tau, W, steps, start=0, smooth=False,
         coupling=None, tracking=None, p_gain=0):
    """tracking: 12 components (position errors and rotation vectors)."""
    y, v = y.copy(), v.copy()
    for t, dt in steps:
        cd, cdd = coupling(y, v) if coupling else (zeros(12), zeros(12))
        if tracking is not None:
            cdd = cdd + p_gain * tracking / dt
        z = phase(t, tau, start)
        f = forcing(z, W)
        a = zeros(12)
        for p, k in DUAL_POS:
            a[k] = alpha[k] * (beta[k] * (g[p] - y[p]) - tau * v[k])
            if smooth:
                a[k] = a[k] - alpha[k] * beta[k] * (g[p] - s[p]) * z
        for p, k in DUAL_ORI:
            a[k] = alpha[k] * (beta[k] * qdiff(g[p], y[p]) - tau * v[k])
            if smooth:
                a[k] = a[k] - alpha[k] * beta[k] * z * qdiff(g[p], s[p])
        a = (a + f + cdd) / tau ** 2
        v = v + dt * a + cd / tau
        for p, k in DUAL_POS:
            y[p] = y[p] + dt * v[k]
        for p, k in DUAL_ORI:
            y[p] = qadd(dt * v[k], y[p])
    return y, v


def quintic(t, t0, t1, y0, v0, a0, y1, v1, a1):
    """Position, velocity and acceleration at t of the fifth-order polynomial
    with the given boundary states (Hermite form)."""
    T_ = P(t1) - t0
    x = (P(t) - t0) / T_
    def h(p, d):
        """d-th derivative of sum p_i x^i with respect to x."""
        r = T.ZERO
        for i, c in enumerate(p):
            if i < d:
                continue
            k = 1
            for j in range(d):
                k *= i - j
            r = r + P(c) * k * x ** (i - d)
        return r
    half = HALF
    basis = [
        ([1, 0, 0, -10, 15, -6], y0, 0),
        ([0, 1, 0, -6, 8, -3], v0, 1),
        ([0, 0, half, -3 * half, 3 * half, -half], a0, 2),
        ([0, 0, 0, 10, -15, 6], y1, 0),
        ([0, 0, 0, -4, 7, -3], v1, 1),
        ([0, 0, 0, half, -1, half], a1, 2)]
    out = []
    for d in range(3):
        r = T.ZERO
        for p, val, order in basis:
            r = r + h(p, d) * val * T_ ** (order - d)
        out.append(r)
    return out


def final_velocity(y, v, s, sd, sdd, g, gd, gdd, alpha, beta, tau, W, steps,
                   start=0, past_goal=False, coupling=None, tracking=None,
                   p_gain=0):
    y, v = y.copy(), v.copy()
    n = len(y)
    for t, dt in steps:
        cd, cdd = coupling(y, v) if coupling else (zeros(n), zeros(n))
        if tracking is not None:
            cdd = cdd + p_gain * tracking / dt
        z = phase(t, tau, start)
        f = forcing(z, W)
        if past_goal:
            r, rd, rdd = g, zeros(n), zeros(n)
        else:
            q = [quintic(t, start, start + tau, s[d], sd[d], sdd[d], g[d],
                         gd[d], gdd[d]) for d in range(n)]
            r, rd, rdd = (vec([x[i] for x in q]) for i in range(3))
        a = (alpha * (beta * (r - y) + tau * (rd - v)) + f + cdd) \
            / tau ** 2 + rdd
        v = v + dt * a + cd / tau
        y = y + dt * v
    return y, v


def state_following(y, v, via, alpha, beta, tau, steps, start=0,
                    coupling=None):
    y, v = y.copy(), v.copy()
    n, k = via.shape[1], via.shape[0]
    c, w = rbf(k, Fraction(1, k), Fraction(1, 10))
    tau2 = P(tau) * HALF
    for t, dt in steps:
        cd, cdd = coupling(y, v) if coupling else (zeros(n), zeros(n))
        h = activations(phase(t, tau, start), c, w)
        a = zeros(n)
        for d in range(n):
            for i in range(k):
                a[d] = a[d] + h[i] * alpha[d] * (
                    beta[d] * (via[i, d] - y[d]) - tau2 * v[d])
        a = (a + cdd) / tau2 ** 2
        v = v + dt * a + cd / tau2
        y = y + dt * v
    return y, v


def spring(y, v, g, k, c, steps, coupling=None, quat=False):
    y, v = y.copy(), v.copy()
    n = len(v)
    for _, dt in steps:
        cd, cdd = coupling(y, v) if coupling else (zeros(n), zeros(n))
        e = qdiff(g, y) if quat else g - y
        v = v + dt * (k * e - c * v + cdd) + cd
        y = qadd(dt * v, y) if quat else y + dt * v
    return y, v
