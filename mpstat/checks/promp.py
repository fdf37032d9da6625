"""Probabilistic movement primitives."""
from fractions import Fraction

import numpy as np

from .. import spec, termeval
from .. import terms as T
from ..kit import arr, cp, sy, meth, new
from ..npmodel import Rng, inverse, mat_atoms
from ..terms import P
from ..values import Arr, Obj, Undecided

F = Fraction
PROMP = "movement_primitives.promp"
GRIDS = {"unit": [F(0), F(1, 3), F(1)], "late": [F(1, 2), F(3, 4), F(2)],
         "short": [F(0), F(1, 7), F(2, 5)],
         "unordered": [F(3, 4), F(0), F(1, 2)]}


# -- specification ----------------------------------------------------------------
def basis_1d(k, t):
    """Normalised basis functions and their derivatives at the relative time
    t; neighbouring functions overlap at 0.7."""
    h = -1 / (8 * k ** 2 * T.log_(P(F(7, 10))))
    c = [P(F(i, k - 1)) if k > 1 else T.ZERO for i in range(k)]
    e = [T.exp_(-(P(t) - ci) ** 2 / (2 * h)) for ci in c]
    de = [(ci - P(t)) / h * ei for ci, ei in zip(c, e)]
    s, ds = sum(e, T.ZERO), sum(de, T.ZERO)
    return ([x / s for x in e],
            [(dx * s - x * ds) / (s * s) for x, dx in zip(e, de)])


def block(cols, n):
    """Columns of one dimension on the diagonal, dimension-major."""
    k, m = len(cols[0]), len(cols)
    o = spec.zeros(k * n, m * n)
    for d in range(n):
        for j, col in enumerate(cols):
            for i, x in enumerate(col):
                o[d * k + i, d * m + j] = x
    return o


def basis(k, times, n, scale=None):
    top = scale if scale is not None else max(times)
    return block([basis_1d(k, P(t) / top)[0] for t in times], n)


def derivative(k, times, n):
    top = max(times)
    return block([[x / top for x in basis_1d(k, P(t) / top)[1]]
                  for t in times], n)


def by_time(flat, n):
    return np.asarray(flat, dtype=object).reshape(n, -1).T


def diagonal(m, n):
    d = [T.max_(m[i, i], T.ZERO) for i in range(len(m))]
    return by_time(spec.vec(d), n)


def conditioned(mean, cov, psi, y, noise):
    """Gaussian conditioning on psi' w = y with the given noise."""
    gain = spec.dot(spec.dot(cov, psi), inverse(
        noise + spec.dot(spec.dot(psi.T, cov), psi)))
    return (mean + spec.dot(gain, y - spec.dot(psi.T, mean)),
            cov - spec.dot(gain, spec.dot(psi.T, cov)))


# -- analysed object ----------------------------------------------------------------
def covariance(m, name="C", blocks=1):
    """Symmetric matrix of symbols; zero between blocks."""
    a = spec.zeros(m, m)
    for i in range(m):
        for j in range(m):
            if i * blocks // m == j * blocks // m:
                a[i, j] = T.sym("%s[%d,%d]" % (name, min(i, j), max(i, j)),
                                "+" if i == j else None)
    return arr(a)


def make(c, n, k, blocks=1):
    ip = c.interp()
    o = new(ip, c.anchor(ip, PROMP, "ProMP"), n_dims=n, n_weights_per_dim=k)
    mean, cov = sy("mu", n * k), covariance(n * k, blocks=blocks)
    meth(ip, o, "from_weight_distribution", cp(mean), cp(cov))
    return ip, o, mean.a, cov.a


def times(ts):
    return arr(spec.vec(ts))


def same_distribution(c, ip, o, n, k, mean, cov, what):
    if not isinstance(o, Obj):
        c.fail("%s is not a ProMP" % what)
    ts = GRIDS["unit"][:k] if k < 3 else GRIDS["unit"]
    ts = [F(0), F(1)] if k == 2 else ts
    b = basis(k, ts, n, 1)
    c.same(meth(ip, o, "mean_trajectory", times(ts)),
           by_time(spec.dot(b.T, mean), n), "mean of %s" % what)
    c.same(meth(ip, o, "cov_trajectory", times(ts)),
           spec.dot(spec.dot(b.T, cov), b), "covariance of %s" % what)


# -- M01 ------------------------------------------------------------------------------
SIZES = ((1, 2), (1, 3), (2, 2))
CASES = (("start", dict()), ("inside", dict(t=F(1, 3))),
         ("end", dict(t=F(1))), ("scaled", dict(t=F(1, 2), t_max=F(2))),
         ("any", dict(t=T.sym("t", "+"), t_max=T.sym("tmax", "+"))))


def relative(kw):
    return P(kw.get("t", 0)) / P(kw.get("t_max", 1))


def noise_of(kind, n):
    if kind == "none":
        return None, spec.zeros(n, n)
    if kind == "matrix":
        m = covariance(n, "R")
        return m, m.a
    s = T.sym("r", "+")
    return s, spec.zeros(n, n) + s


def m01(c):
    for n, k in SIZES:
        for nm, kw in CASES:
            for kind in ("none", "matrix") + (("number",) if n == 1 else ()):
                c.obligation("condition %dx%d %s noise=%s" % (n, k, nm, kind),
                             condition, c, n, k, kw, kind)
    for n, k in SIZES:
        for nm, kw in CASES:
            c.obligation("exact %dx%d %s" % (n, k, nm), exact, c, n, k, kw)
    for n, k in SIZES:
        c.obligation("expected observation %dx%d" % (n, k), expected, c, n, k)
        c.obligation("covariance ignores the observed value %dx%d" % (n, k),
                     value_free, c, n, k)
        c.obligation("time scale %dx%d" % (n, k), time_scale, c, n, k)
        c.obligation("original %dx%d" % (n, k), original, c, n, k)
    for n, k in ((3, 1), (3, 2), (7, 1), (1, 5)):
        for nm, kw in CASES[:4]:
            c.obligation("condition %dx%d %s" % (n, k, nm), condition, c, n, k,
                         kw, "none")
    for nm, kw in CASES:
        c.obligation("original after condition %s" % nm, original, c, 2, 2, kw)
    c.obligation("original after several conditions", original_many, c)
    for t in (F(0), F(2, 5)):
        c.obligation("independent dimensions t=%s" % t, independent, c, t)
    for k in (2, 3):
        for kind in ("none", "numbers"):
            for m in (1, 2):
                c.obligation("via points k=%d noise=%s points=%d" % (
                    k, kind, m), via, c, 1, k, m, kind)
    c.obligation("via points 2x2", via, c, 2, 2, 1, "none")
    for m in (3, 4):
        c.obligation("many via points k=1 points=%d" % m, via, c, 1, 1, m,
                     "numbers")
    c.obligation("three via points k=2", via, c, 1, 2, 3, "numbers")
    c.obligation("late via points", via, c, 1, 2, 2, "numbers",
                 [F(1, 3), F(3, 2)])
    c.obligation("original after via points", original_via, c)
    for n, k in ((1, 2), (2, 2)):
        c.obligation("repeated conditions %dx%d" % (n, k), repeated, c, n, k)


def condition(c, n, k, kw, kind):
    ip, o, mean, cov = make(c, n, k)
    given, noise = noise_of(kind, n)
    y = sy("y", n)
    args = dict(kw)
    if given is not None:
        args["y_cov"] = given
    r = meth(ip, o, "condition_position", cp(y), **args)
    psi = block([basis_1d(k, relative(kw))[0]], n)
    same_distribution(c, ip, r, n, k, *conditioned(mean, cov, psi, y.a, noise),
                      what="the conditioned distribution")


def at(c, ip, o, n, k, u):
    """Mean and covariance at the relative time u."""
    ts = times([u, T.ONE]) if not (u.is_const() and u.const_value() == 1) \
        else times([T.ONE])
    m = len(ts.a)
    mean = meth(ip, o, "mean_trajectory", ts).a[0].copy()
    cov = meth(ip, o, "cov_trajectory", ts).a[::m, ::m].copy()
    return arr(mean), arr(cov)


def exact(c, n, k, kw):
    ip, o, mean, cov = make(c, n, k, blocks=n)
    y = sy("y", n)
    r = meth(ip, o, "condition_position", cp(y), **kw)
    u = relative(kw)
    if not u.is_const():
        # the largest time of a trajectory is its end
        u = P(F(3, 7))
        r = meth(ip, o, "condition_position", cp(y), t=u * T.sym("tmax", "+"),
                 t_max=T.sym("tmax", "+"))
    m, s = at(c, ip, r, n, k, u)
    c.same(m, y.a, "mean at the time of an observation without noise")
    c.same(s, spec.zeros(n, n), "covariance at the time of an observation "
           "without noise")


def expected(c, n, k):
    ip, o, mean, cov = make(c, n, k)
    psi = block([basis_1d(k, F(1, 3))[0]], n)
    r = meth(ip, o, "condition_position", arr(spec.dot(psi.T, mean)),
             y_cov=covariance(n, "R"), t=F(1, 3))
    ts = times(GRIDS["unit"])
    c.same(meth(ip, r, "mean_trajectory", ts), meth(
        ip, o, "mean_trajectory", ts), "mean after the expected observation")


def symbols(a):
    return {x.name for p in a.a.reshape(-1) for x in P(p).atoms(True)
            if x.kind == "sym"}


def value_free(c, n, k):
    ip, o, mean, cov = make(c, n, k)
    r = meth(ip, o, "condition_position", sy("y", n), t=F(1, 3))
    found = symbols(meth(ip, r, "cov_trajectory", times(GRIDS["unit"])))
    bad = [x for x in found if x.startswith(("y[", "mu["))]
    c.require(not bad, "the covariance depends on %s" % sorted(bad))
    found = symbols(meth(ip, r, "mean_trajectory", times(GRIDS["unit"])))
    c.require(any(x.startswith("y[") for x in found),
              "the mean does not depend on the observation")


def time_scale(c, n, k):
    a = T.sym("a", "+")
    out = []
    for f in (T.ONE, a):
        ip, o, mean, cov = make(c, n, k)
        r = meth(ip, o, "condition_position", sy("y", n), t=f / 3, t_max=f)
        ts = times(GRIDS["unit"])
        out.append((meth(ip, r, "mean_trajectory", ts),
                    meth(ip, r, "cov_trajectory", ts)))
    c.same(out[1][0], out[0][0], "mean with scaled times")
    c.same(out[1][1], out[0][1], "covariance with scaled times")


def original(c, n, k, kw=None):
    ip, o, mean, cov = make(c, n, k)
    meth(ip, o, "condition_position", sy("y", n),
         **(dict(t=F(1, 3)) if kw is None else kw))
    same_distribution(c, ip, o, n, k, mean, cov, "the original")


def original_many(c):
    """Each distribution remains as it was when others are derived."""
    ip, o, mean, cov = make(c, 1, 2)
    y, R = sy("y", 1), T.sym("r", "+")
    a = meth(ip, o, "condition_position", cp(y), t=F(1, 3), y_cov=R)
    meth(ip, a, "condition_position", sy("x", 1), t=F(1))
    meth(ip, o, "condition_position", sy("x", 1), t=F(0))
    psi = block([basis_1d(2, F(1, 3))[0]], 1)
    same_distribution(c, ip, o, 1, 2, mean, cov, "the original")
    same_distribution(c, ip, a, 1, 2, *conditioned(
        mean, cov, psi, y.a, spec.zeros(1, 1) + R),
        what="the conditioned distribution")


def repeated(c, n, k):
    """The same object conditioned with other times, noise and values."""
    ip, o, mean, cov = make(c, n, k)
    t, top, y = T.sym("t", "+"), T.sym("tmax", "+"), sy("y", n)
    for kw in (dict(t=t, t_max=top), dict(t=t, t_max=2 * top),
               dict(t=t, t_max=2 * top, y_cov=covariance(n, "R")),
               dict(t=t, t_max=2 * top), dict(t=2 * t, t_max=2 * top)):
        noise = kw["y_cov"].a if "y_cov" in kw else spec.zeros(n, n)
        r = meth(ip, o, "condition_position", cp(y), **{
            q: cp(v) if isinstance(v, Arr) else v for q, v in kw.items()})
        psi = block([basis_1d(k, relative(kw))[0]], n)
        same_distribution(c, ip, r, n, k, *conditioned(
            mean, cov, psi, y.a, noise), what="a conditioned distribution")
    meth(ip, o, "from_weight_distribution", sy("m2", n * k),
         covariance(n * k, "D"))
    r = meth(ip, o, "condition_position", cp(y), t=t, t_max=top)
    psi = block([basis_1d(k, t / top)[0]], n)
    same_distribution(c, ip, r, n, k, *conditioned(
        sy("m2", n * k).a, covariance(n * k, "D").a, psi, y.a,
        spec.zeros(n, n)), what="the distribution conditioned after a change")


def original_via(c):
    ip, o, mean, cov = make(c, 1, 2)
    ip.call(c.anchor(ip, PROMP, "via_points"), [
        o, times([F(0), F(1)]), sy("y", 2), sy("r", 2, "+")], {})
    same_distribution(c, ip, o, 1, 2, mean, cov, "the original")


def independent(c, t):
    """Observation of one dimension tells nothing about an independent
    one."""
    ip, o, mean, cov = make(c, 2, 2, blocks=2)
    R = arr(np.diag(spec.vec([T.sym("r0", "+"), T.sym("r1", "+")])))
    for i in (0, 1):
        for j in (0, 1):
            R.a[i, j] = P(R.a[i, j])
    r = meth(ip, o, "condition_position", sy("y", 2), y_cov=R, t=t)
    m = meth(ip, r, "mean_trajectory", times([F(0), F(1)]))
    for d in (0, 1):
        found = symbols(arr(m.a[:, d]))
        other = 1 - d
        bad = [x for x in found if x in ("y[%d]" % other, "r%d" % other)
               or x in ("mu[%d]" % (2 * other), "mu[%d]" % (2 * other + 1))]
        c.require(not bad, "dimension %d depends on %s" % (d, sorted(bad)))


def via(c, n, k, m, kind, ts=(F(1, 3), F(3, 4), F(1, 2), F(0))):
    ip, o, mean, cov = make(c, n, k)
    f = c.anchor(ip, PROMP, "via_points")
    ts = ts[:m]
    if n == 1:
        y = sy("y", m)
        ys = [spec.vec([x]) for x in y.a]
    else:
        y = sy("y", (m, n))
        ys = list(y.a)
    args = [o, times(ts), cp(y)]
    r = sy("r", m, "+")
    if kind == "numbers":
        args.append(cp(r))
    got = ip.call(f, args, {})
    for i in range(m):
        noise = spec.zeros(n, n)
        if kind == "numbers":
            noise = noise + r.a[i]
        psi = block([basis_1d(k, ts[i])[0]], n)
        mean, cov = conditioned(mean, cov, psi, ys[i], noise)
    same_distribution(c, ip, got, n, k, mean, cov, "the ProMP through points")


# -- M02 ------------------------------------------------------------------------------
WHAT = ("mean", "cov", "var", "mean velocity", "cov velocity", "var velocity",
        "weights", "samples")


def m02(c):
    for n, k in ((1, 2), (1, 4), (2, 2), (2, 3), (3, 2), (2, 1)):
        for g in GRIDS:
            for what in WHAT:
                c.obligation("%s %dx%d %s" % (what, n, k, g), moments, c, n,
                             k, GRIDS[g], what)
    for n, k in ((5, 1), (7, 1), (5, 2), (1, 10)):
        for what in WHAT:
            if n * k > 7 and what == "samples":
                continue
            c.obligation("%s %dx%d" % (what, n, k), moments, c, n, k,
                         GRIDS["unit"], what)
    for g, ts in (("two times", [F(0), F(1)]), ("one time", [F(1)]),
                  ("many times", [F(i, 11) for i in range(12)])):
        for what in WHAT:
            c.obligation("%s 2x2 %s" % (what, g), moments, c, 2, 2, ts, what)
    for n, k in ((1, 2), (2, 3)):
        for what in WHAT:
            c.obligation("%s %dx%d after other times" % (what, n, k),
                         moments, c, n, k, GRIDS["unit"], what, before=True)
    for m in (1, 3, 7):
        c.obligation("%d samples" % m, moments, c, 2, 2, GRIDS["unit"],
                     "samples", m)
    for k in (2, 3):
        c.obligation("velocity with scaled times k=%d" % k, velocity_scale, c,
                     k)
        c.obligation("velocity with shortened times k=%d" % k, velocity_scale,
                     c, k, P(F(2, 7)))
    c.obligation("initial distribution", initial, c)
    c.obligation("distribution is replaced", replaced, c)


def earlier(ip, o, n, k, ts):
    """Use of an object with as many times from the same first to the same
    last one, and with another distribution at the same times."""
    other = [ts[0]] + [t + (ts[-1] - t) * F(1, 3) for t in ts[1:-1]] + [ts[-1]]
    for grid in (other, ts):
        t = times(grid)
        for m in ("mean_trajectory", "cov_trajectory", "var_trajectory",
                  "mean_velocities", "cov_velocities", "var_velocities"):
            meth(ip, o, m, cp(t))
        meth(ip, o, "trajectory_from_weights", cp(t), sy("ow", n * k))
        meth(ip, o, "weights", cp(t), sy("oy", (len(grid), n)))
        meth(ip, o, "from_weight_distribution", sy("om", n * k),
             covariance(n * k, "OC"))
    for m in ("mean_trajectory", "cov_trajectory", "var_trajectory",
              "mean_velocities", "cov_velocities", "var_velocities"):
        meth(ip, o, m, times(ts))


def moments(c, n, k, ts, what, m=2, before=False):
    ip, o, mean, cov = make(c, n, k)
    if before:
        earlier(ip, o, n, k, ts)
        meth(ip, o, "from_weight_distribution", arr(mean), arr(cov))
    b = basis(k, ts, n)
    d = derivative(k, ts, n)
    t = times(ts)
    if what == "mean":
        c.same(meth(ip, o, "mean_trajectory", t),
               by_time(spec.dot(b.T, mean), n), "mean trajectory")
    elif what == "cov":
        c.same(meth(ip, o, "cov_trajectory", t),
               spec.dot(spec.dot(b.T, cov), b), "covariance of trajectories")
    elif what == "var":
        c.same(meth(ip, o, "var_trajectory", t), diagonal(
            spec.dot(spec.dot(b.T, cov), b), n), "variance of trajectories")
    elif what == "mean velocity":
        c.same(meth(ip, o, "mean_velocities", t),
               by_time(spec.dot(d.T, mean), n), "mean velocity")
    elif what == "cov velocity":
        c.same(meth(ip, o, "cov_velocities", t),
               spec.dot(spec.dot(d.T, cov), d), "covariance of velocities")
    elif what == "var velocity":
        c.same(meth(ip, o, "var_velocities", t), diagonal(
            spec.dot(spec.dot(d.T, cov), d), n), "variance of velocities")
    elif what == "weights":
        w = sy("w", n * k)
        c.same(meth(ip, o, "trajectory_from_weights", t, cp(w)),
               by_time(spec.dot(b.T, w.a), n), "trajectory of weights")
    else:
        samples(c, ip, o, n, k, mean, cov, b, t, m)


def samples(c, ip, o, n, k, mean, cov, b, t, m):
    state = Rng(ip, "state")
    got = meth(ip, o, "sample_trajectories", t, m, state)
    draws = [e for e in ip.events if e["kind"] in ("random", "unseeded",
                                                   "seed")]
    names = {e["name"] for e in draws}
    c.require(names <= {"state"}, "samples use %s instead of the given random "
              "state" % sorted(names - {"state"}))
    c.require(bool(draws), "samples are not random")
    if len(draws) != 1 or draws[0]["args"][0] != "mvn":
        raise Undecided("way of sampling")
    ref = ip.call(ip.getattr(Rng(ip, "state"), "multivariate_normal"),
                  [arr(mean), arr(cov), m], {})
    want = np.empty((m, len(t.a), n), dtype=object)
    for i in range(m):
        want[i] = by_time(spec.dot(b.T, ref.a[i]), n)
    c.same(got, want, "sampled trajectories")


def velocity_scale(c, k, x=P(3)):
    ip, o, mean, cov = make(c, 2, k)
    ts = GRIDS["unit"]
    v = meth(ip, o, "mean_velocities", times(ts))
    w = meth(ip, o, "mean_velocities", times([x * t for t in ts]))
    c.same(w, v.a / x, "velocity of a slower trajectory")
    p = meth(ip, o, "mean_trajectory", times(ts))
    q = meth(ip, o, "mean_trajectory", times([x * t for t in ts]))
    c.same(q, p, "positions of a slower trajectory")


def initial(c):
    ip = c.interp()
    o = new(ip, c.anchor(ip, PROMP, "ProMP"), n_dims=2, n_weights_per_dim=2)
    same_distribution(c, ip, o, 2, 2, spec.zeros(4), spec.eye(4),
                      "a new ProMP")


def replaced(c):
    ip, o, mean, cov = make(c, 2, 2)
    m, C = sy("nu", 4), covariance(4, "D")
    r = meth(ip, o, "from_weight_distribution", cp(m), cp(C))
    same_distribution(c, ip, o, 2, 2, m.a, C.a, "the new distribution")
    same_distribution(c, ip, r, 2, 2, m.a, C.a, "the returned ProMP")


# -- M03 ------------------------------------------------------------------------------
def m03(c):
    for n, k in ((1, 2), (1, 3), (2, 2), (2, 3), (3, 4), (2, 1)):
        for g in GRIDS:
            c.obligation("constant %dx%d %s" % (n, k, g), constant, c, n, k,
                         GRIDS[g])
            c.obligation("own dimension %dx%d %s" % (n, k, g), own, c, n, k,
                         GRIDS[g])
            c.obligation("linear %dx%d %s" % (n, k, g), linear, c, n, k,
                         GRIDS[g])
    for n, k in ((1, 2), (2, 2), (1, 3), (2, 3)):
        for lam in ("default", "given"):
            for g in GRIDS:
                c.obligation("weights %dx%d lambda=%s %s" % (n, k, lam, g),
                             regression, c, n, k, lam, GRIDS[g])
    for n, k in ((1, 2), (2, 3)):
        c.obligation("weights %dx%d after other times" % (n, k), regression,
                     c, n, k, "given", GRIDS["unit"], before=True)
    for n, k, ts in ((3, 2, GRIDS["unit"]), (2, 2, [F(0), F(1)]),
                     (2, 1, [F(1, 2), F(1)]), (1, 1, [F(1)]),
                     (5, 1, GRIDS["late"]),
                     (1, 2, [F(i, 8) for i in range(9)])):
        c.obligation("weights %dx%d of %d samples" % (n, k, len(ts)),
                     regression, c, n, k, "given", ts)
    for n, k in ((1, 10), (2, 9), (7, 2), (1, 20)):
        for nm, f in (("constant", constant), ("own dimension", own),
                      ("linear", linear), ("definition", definition)):
            c.obligation("%s %dx%d" % (nm, n, k), f, c, n, k, GRIDS["unit"])
    c.obligation("weights do not train", not_training, c)
    for k in (2, 3, 5):
        c.obligation("symmetric basis k=%d" % k, symmetric, c, k)


def constant(c, n, k, ts):
    """The basis functions sum up to one."""
    ip, o, _, _ = make(c, n, k)
    a = sy("a", n)
    w = arr(np.repeat(a.a, k))
    got = meth(ip, o, "trajectory_from_weights", times(ts), w)
    want = np.empty((len(ts), n), dtype=object)
    want[...] = a.a
    c.same(got, want, "trajectory of equal weights")
    meth(ip, o, "from_weight_distribution", cp(w), covariance(n * k))
    c.same(meth(ip, o, "mean_velocities", times(ts)),
           spec.zeros(len(ts), n), "velocity with equal weights")


def definition(c, n, k, ts):
    ip, o, _, _ = make(c, n, k)
    w = sy("w", n * k)
    c.same(meth(ip, o, "trajectory_from_weights", times(ts), cp(w)), by_time(
        spec.dot(basis(k, ts, n).T, w.a), n), "trajectory of weights")


def own(c, n, k, ts):
    ip, o, _, _ = make(c, n, k)
    w = sy("w", n * k)
    got = meth(ip, o, "trajectory_from_weights", times(ts), cp(w))
    for d in range(n):
        found = symbols(arr(got.a[:, d]))
        want = {"w[%d]" % i for i in range(d * k, d * k + k)}
        c.require(found == want, "dimension %d depends on %s, required: %s" % (
            d, sorted(found), sorted(want)))


def linear(c, n, k, ts):
    ip, o, _, _ = make(c, n, k)
    w, x = sy("w", n * k), sy("x", n * k)
    a = T.sym("a")
    f = [meth(ip, o, "trajectory_from_weights", times(ts), arr(u)).a
         for u in (w.a, x.a, a * w.a + x.a)]
    c.same(arr(f[2]), a * f[0] + f[1], "trajectory of combined weights")


def pinv(m):
    x = [P(m[i, j]) for i in range(len(m)) for j in range(len(m)) if i != j]
    return mat_atoms("pinv", m) if any(v.t for v in x) else inverse(m)


def regression(c, n, k, lam, ts, before=False):
    ip, o, _, _ = make(c, n, k)
    if before:
        earlier(ip, o, n, k, ts)
    y = sy("y", (len(ts), n))
    if lam == "given":
        l = T.sym("lambda", "+")
        got = meth(ip, o, "weights", times(ts), cp(y), l)
    else:
        l = P(F(1, 10 ** 12))
        got = meth(ip, o, "weights", times(ts), cp(y))
    b = basis(k, ts, n)
    gram = spec.dot(b, b.T) + l * spec.eye(n * k)
    want = spec.dot(pinv(gram), spec.dot(b, y.a.T.reshape(-1)))
    c.same(got, want, "weights of a trajectory")


def not_training(c):
    ip, o, mean, cov = make(c, 2, 2)
    meth(ip, o, "weights", times(GRIDS["unit"]), sy("y", (3, 2)))
    same_distribution(c, ip, o, 2, 2, mean, cov, "the ProMP after computing "
                      "weights")


def symmetric(c, k):
    """Reversed weights give the reversed trajectory."""
    ip, o, _, _ = make(c, 1, k)
    w = sy("w", k)
    ts = [F(0), F(1, 4), F(1, 2), F(3, 4), F(1)]
    a = meth(ip, o, "trajectory_from_weights", times(ts), cp(w))
    b = meth(ip, o, "trajectory_from_weights", times(ts), arr(
        w.a[::-1].copy()))
    c.same(b, a.a[::-1].copy(), "trajectory of reversed weights")


# -- M04 ------------------------------------------------------------------------------
def smoothing(m, n):
    """Differences x_i - 0.7 x_{i+1} of each dimension."""
    o = spec.eye(m * n)
    for d in range(n):
        for i in range(m - 1):
            o[d * m + i, d * m + i + 1] = P(F(-7, 10))
    return o


def em(k, n, Ts, Ys, mean, cov, iterations):
    var = T.ONE
    data = []
    for ts, y in zip(Ts, Ys):
        H = smoothing(len(ts), n)
        r = spec.dot(H, y.T.reshape(-1))
        A = spec.dot(basis(k, ts, n), H.T)
        data.append((spec.dot(r, r), spec.dot(A, r), spec.dot(A, A.T)))
    M = len(data)
    for _ in range(iterations):
        prec = pinv(cov)
        posts = []
        for rr, ar, aa in data:
            s = pinv(aa / var + prec)
            posts.append((spec.dot(s, ar / var + spec.dot(prec, mean)), s))
        mean = sum(p[0] for p in posts) / P(M)
        cov = spec.zeros(n * k, n * k)
        for m, s in posts:
            d = m - mean
            cov = cov + np.outer(d, d) + s
        cov = cov / P(M)
        var = T.ZERO
        size = T.ZERO
        for (rr, ar, aa), (m, s) in zip(data, posts):
            var = var + np.trace(spec.dot(aa, s)) + rr \
                - 2 * spec.dot(ar, m) + spec.dot(m, spec.dot(aa, m))
            size = size + spec.dot(m, m)
        var = var / (T.sqrt_(size) * M * n * sum(map(len, Ts)) + 2)
    return mean, cov


def demos(n, steps, uneven=False):
    return [[F(i, m - 1) ** (1 + j * uneven) if m > 1 else F(1)
             for i in range(m)] for j, m in enumerate(steps)], [sy("y%d" % j, (m, n))
                              for j, m in enumerate(steps)]


def train(c, n, k, Ts, Ys, prior, **kw):
    ip = c.interp()
    o = new(ip, c.anchor(ip, PROMP, "ProMP"), n_dims=n, n_weights_per_dim=k)
    mean, cov = spec.zeros(n * k), spec.eye(n * k)
    if prior == "diagonal":
        mean = sy("mu", n * k).a
        cov = np.diag(sy("s", n * k, "+").a)
        cov = spec.zeros(n * k, n * k) + cov
    elif prior:
        mean, cov = sy("mu", n * k).a, covariance(n * k).a
    if prior:
        meth(ip, o, "from_weight_distribution", arr(mean), arr(cov))
    meth(ip, o, "imitate", [times(t) for t in Ts],
         [y if not isinstance(y, Arr) else cp(y) for y in Ys], **kw)
    return ip, o, mean, cov


def m04(c):
    for n, k in ((1, 2), (2, 1), (2, 2), (1, 3)):
        for steps in ((2,), (3, 2), (2, 2, 2)):
            for prior in (False, True):
                if prior and n * k > 3 and len(steps) > 1:
                    continue
                c.obligation("training %dx%d steps=%s prior=%s" % (
                    n, k, steps, prior), one, c, n, k, steps, prior, 1)
    for steps in ((2, 3, 3), (3, 3, 2), (3, 2, 3)):
        c.obligation("training steps=%s" % (steps,), one, c, 1, 1, steps,
                     False, 1)
    for n, k in ((1, 2), (2, 1), (1, 3)):
        c.obligation("differently spaced times %dx%d" % (n, k), one, c, n, k,
                     (3, 3), False, 1, uneven=True)
    for m in (4, 5, 8):
        c.obligation("training with %d demonstrations" % m, one, c, 1, 1,
                     (2,) * m, False, 1)
    for n, k in ((1, 1), (2, 1), (1, 2)):
        for steps in ((2,), (2, 2)):
            c.obligation("second iteration %dx%d steps=%s" % (n, k, steps),
                         one, c, n, k, steps, False, 2)
    for n in (1, 2):
        for steps in ((3, 2), (2, 3), (2, 4), (2, 3, 4))[:5 - n]:
            c.obligation("second iteration %dx1 steps=%s" % (n, steps), one,
                         c, n, 1, steps, False, 2)
    for n, k in ((1, 2), (2, 1)):
        c.obligation("order of demonstrations %dx%d" % (n, k), order, c, n, k)
    c.obligation("single posterior", single, c)
    c.obligation("stops when converged", stops, c)
    for m in (1, 2, 3):
        c.obligation("stops after iteration %d" % m, stops_after, c, m)
    c.obligation("at most n_iter iterations", zero, c)
    c.obligation("training again", again, c)
    c.obligation("time scale of demonstrations", demo_scale, c)


def one(c, n, k, steps, prior, iterations, uneven=False):
    Ts, Ys = demos(n, steps, uneven)
    ip, o, mean, cov = train(c, n, k, Ts, Ys, prior, n_iter=iterations,
                             min_delta=0)
    same_distribution(c, ip, o, n, k, *em(
        k, n, Ts, [y.a for y in Ys], mean, cov, iterations),
        what="the trained distribution")


def same_promp(c, a, b, n, k, what):
    ts = [F(0), F(1)]
    for m in ("mean_trajectory", "cov_trajectory"):
        c.same(meth(a[0], a[1], m, times(ts)), meth(b[0], b[1], m, times(ts)),
               "%s %s" % (m, what))


def order(c, n, k):
    Ts, Ys = demos(n, (2, 3))
    a = train(c, n, k, Ts, Ys, False, n_iter=1)
    b = train(c, n, k, Ts[::-1], Ys[::-1], False, n_iter=1)
    same_promp(c, a, b, n, k, "with another order of demonstrations")


def single(c):
    """The mean of one demonstration is its posterior mean."""
    Ts, Ys = demos(1, (3,))
    a = train(c, 1, 2, Ts, Ys, False, n_iter=1)
    b = train(c, 1, 2, Ts * 2, Ys * 2, False, n_iter=1)
    same_promp(c, a, b, 1, 2, "of a repeated demonstration")


def stops(c):
    """Without change of the mean there is one iteration only."""
    Ts, _ = demos(1, (2, 3))
    Ys = [arr(spec.zeros(m, 1)) for m in (2, 3)]
    a = train(c, 1, 2, Ts, Ys, False, n_iter=5)
    b = train(c, 1, 2, Ts, Ys, False, n_iter=1, min_delta=0)
    same_promp(c, a, b, 1, 2, "after convergence")
    d = train(c, 1, 2, Ts, Ys, False, n_iter=2, min_delta=0)
    x, y = (meth(r[0], r[1], "cov_trajectory", times([F(0), F(1)])).a[0, 0]
            for r in (a, d))
    c.require(not T.is_zero(x - y), "the second iteration does nothing")


def stops_after(c, m):
    """The first iteration that changes the mean by less than the limit is
    the last one."""
    Ts, _ = demos(1, (2,))
    Ys = [arr(np.array([[P(1)], [P(1)]], dtype=object))]
    means = [spec.zeros(1)]
    for i in range(1, m + 1):
        means.append(em(1, 1, Ts, [y.a for y in Ys], spec.zeros(1),
                        spec.eye(1), i)[0])
    change = [abs(termeval.Valuation(1).poly(P(b[0] - a[0]))) for a, b in zip(
        means, means[1:])]
    limit = change[-1] * 1.25
    if any(x <= 1.25 * limit for x in change[:-1]):
        raise Undecided("example converges too slowly: %s" % change)
    a = train(c, 1, 1, Ts, Ys, False, n_iter=m + 2,
              min_delta=F(limit).limit_denominator(10 ** 9))
    b = train(c, 1, 1, Ts, Ys, False, n_iter=m, min_delta=0)
    same_promp(c, a, b, 1, 1, "after %d iterations" % m)


def zero(c):
    Ts, Ys = demos(1, (2,))
    ip, o, mean, cov = train(c, 1, 2, Ts, Ys, True, n_iter=0)
    same_distribution(c, ip, o, 1, 2, mean, cov,
                      "the distribution without iterations")


def again(c):
    """Training continues from the current distribution and forgets the
    noise of the last training."""
    Ts, Ys = demos(1, (2,))
    ip, o, mean, cov = train(c, 1, 1, Ts, Ys, "diagonal", n_iter=1)
    Ys2 = [sy("z", (2, 1))]
    meth(ip, o, "imitate", [times(t) for t in Ts], [cp(y) for y in Ys2],
         n_iter=1)
    mean, cov = em(1, 1, Ts, [y.a for y in Ys], mean, cov, 1)
    mean, cov = em(1, 1, Ts, [y.a for y in Ys2], mean, cov, 1)
    same_distribution(c, ip, o, 1, 1, mean, cov,
                      "the distribution of a second training")


def demo_scale(c):
    Ts, Ys = demos(1, (2, 3))
    a = train(c, 1, 2, Ts, Ys, False, n_iter=1)
    b = train(c, 1, 2, [[5 * t for t in Ts[0]], [2 * t for t in Ts[1]]], Ys,
              False, n_iter=1)
    same_promp(c, a, b, 1, 2, "with demonstrations of other durations")
