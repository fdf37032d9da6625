"""Generated trajectories and distributions of trajectories."""
from fractions import Fraction

import numpy as np

from .. import kit, spec
from .. import terms as T
from ..kit import arr, cp, sy, meth, new, DMP, rejects
from ..npmodel import Rng, mat_atoms, inverse, MISSING, as_arr
from ..terms import P
from ..values import Arr, Cls, Func, Native, Obj, Undecided
from .state import uninitialised

F = Fraction
DATA = "movement_primitives.data"
MJM = "movement_primitives.minimum_jerk_trajectory"
SPACE = "movement_primitives.dmp_to_state_space_distribution"
DT = T.sym("dt", "+")
RATIOS = (F(2), F(3), F(4), F(5), F(7), F(5, 2), F(13, 4), F(29, 5))


# -- T01 ---------------------------------------------------------------------------
def quintic(s, g, m, i):
    """Sample i of the movement from s to g in m time steps."""
    u = F(min(i, m), m)
    a = P(10 * u ** 3 - 15 * u ** 4 + 6 * u ** 5)
    v = P(30 * u ** 2 - 60 * u ** 3 + 30 * u ** 4) / (m * DT)
    w = P(60 * u - 180 * u ** 2 + 120 * u ** 3) / (m * DT) ** 2
    return s + (g - s) * a, (g - s) * v, (g - s) * w


def samples(s, g, ratio):
    n = int(ratio) + 1
    q = [quintic(s, g, n - 2, i) for i in range(n)]
    return [np.array([x[k] for x in q], dtype=object) for k in range(3)]


def t01(c):
    for r in RATIOS:
        for n in (1, 2, 7, 14):
            c.obligation("samples n_dims=%d T=%s dt" % (n, r), jerk, c, n, r)
        c.obligation("ends T=%s dt" % r, ends, c, r)
        c.obligation("steps T=%s dt" % r, stepping, c, r)
    c.obligation("default arguments", jerk_defaults, c)
    c.obligation("steps with default time step", jerk_default_steps, c)
    c.obligation("lists", jerk_lists, c)
    c.obligation("integers", jerk_integers, c)
    c.obligation("arguments", jerk_arguments, c)
    c.obligation("shapes", jerk_shapes, c)
    for again in ("reset", "configure"):
        c.obligation("steps after %s" % again, restart, c, again)
    c.obligation("ownership", jerk_ownership, c)
    c.obligation("several steps at once", jerk_open_loop, c)


def generate(c, *args, **kw):
    ip = c.interp()
    return ip.call(c.anchor(ip, DATA, "generate_minimum_jerk"), list(args),
                   kw)


NAMES = ("positions", "velocities", "accelerations")


def compare(c, got, want):
    c.require(isinstance(got, tuple) and len(got) == 3,
              "positions, velocities and accelerations are not returned")
    for x, w, name in zip(got, want, NAMES):
        c.same(x, w, name)


def jerk(c, n, r):
    s, g = sy("s", n), sy("g", n)
    compare(c, generate(c, cp(s), cp(g), execution_time=r * DT, dt=DT),
            samples(s.a, g.a, r))


def ends(c, r):
    s, g = sy("s", 2), sy("g", 2)
    X, V, A = generate(c, cp(s), cp(g), r * DT, DT)
    c.require(len(X.a) == int(r) + 1, "%d samples" % len(X.a))
    c.same(arr(X.a[0]), s, "first position")
    c.same(arr(X.a[-1]), g, "last position")
    z = arr(spec.zeros(2))
    for x, name in ((V, "velocity"), (A, "acceleration")):
        for i, at in ((0, "first"), (-1, "last")):
            c.same(arr(x.a[i]), z, "%s %s" % (at, name))


def jerk_defaults(c):
    s, g = sy("s", 1), sy("g", 1)
    a = generate(c, cp(s), cp(g))
    b = generate(c, cp(s), cp(g), execution_time=P(1), dt=P(F(1, 100)))
    compare(c, a, [x.a for x in b])
    c.require(len(a[0].a) == 101, "%d samples" % len(a[0].a))


def jerk_default_steps(c):
    ip = c.interp()
    s, g = sy("s", 1), sy("g", 1)
    m = new(ip, c.anchor(ip, MJM, "MinimumJerkTrajectory"), n_dims=1,
            execution_time=P(F(1, 20)))
    meth(ip, m, "configure", start_y=cp(s), goal_y=cp(g))
    X, V, _ = generate(c, cp(s), cp(g), P(F(1, 20)), P(F(1, 100)))
    for i in range(6):
        y, v = meth(ip, m, "step", cp(s), cp(g))
        c.same(y, arr(X.a[i]), "position %d" % i)
        c.same(v, arr(V.a[i]), "velocity %d" % i)


def jerk_lists(c):
    s, g = sy("s", 2), sy("g", 2)
    compare(c, generate(c, list(s.a), list(g.a), 3 * DT, DT),
            samples(s.a, g.a, F(3)))


def jerk_integers(c):
    """Positions given as integers are not rounded."""
    s, g = spec.vec([P(0), P(3)]), spec.vec([P(1), P(5)])
    a = [Arr(x.copy(), "i") for x in (s, g)]
    compare(c, generate(c, a[0], a[1], 4 * DT, DT), samples(s, g, F(4)))


def jerk_arguments(c):
    ip = c.interp()
    s, g = sy("s", 2), sy("g", 2)
    a, b = cp(s), cp(g)
    X, _, _ = ip.call(c.anchor(ip, DATA, "generate_minimum_jerk"), [a, b], {
        "execution_time": 3 * DT, "dt": DT})
    c.same(a, s, "start after the call")
    c.same(b, g, "goal after the call")
    X.a[...] = T.sym("garbage")
    c.same(a, s, "start after the result was changed")
    c.same(b, g, "goal after the result was changed")


def jerk_shapes(c):
    ip = c.interp()
    f = c.anchor(ip, DATA, "generate_minimum_jerk")
    for n, m in ((1, 2), (3, 2)):
        rejects(c, ip, lambda: ip.call(f, [sy("s", n), sy("g", m)], {}),
                "start of length %d with goal of length %d" % (n, m),
                names=("ValueError",))


def trajectory(c, r, n=2):
    ip = c.interp()
    s, g = sy("s", n), sy("g", n)
    m = new(ip, c.anchor(ip, MJM, "MinimumJerkTrajectory"), n_dims=n,
            execution_time=P(r * DT), dt=DT)
    meth(ip, m, "configure", start_y=cp(s), goal_y=cp(g))
    return ip, m, s, g


def stepping(c, r):
    ip, m, s, g = trajectory(c, r)
    X, V, _ = samples(s.a, g.a, r)
    for i in range(len(X)):
        y, v = meth(ip, m, "step", sy("y%d" % i, 2), sy("v%d" % i, 2))
        c.same(y, X[i], "position after %d steps" % (i + 1))
        c.same(v, V[i], "velocity after %d steps" % (i + 1))


def restart(c, again):
    ip, m, s, g = trajectory(c, F(3))
    for i in range(2):
        meth(ip, m, "step", sy("y", 2), sy("v", 2))
    if again == "configure":
        s, g = sy("s'", 2), sy("g'", 2)
        meth(ip, m, "configure", start_y=cp(s), goal_y=cp(g))
    meth(ip, m, "reset")
    X, V, _ = samples(s.a, g.a, F(3))
    for i in range(4):
        y, v = meth(ip, m, "step", sy("y", 2), sy("v", 2))
        c.same(y, X[i], "position %d after %s" % (i, again))
        c.same(v, V[i], "velocity %d after %s" % (i, again))


def jerk_ownership(c):
    ip, m, s, g = trajectory(c, F(4))
    X, V, _ = samples(s.a, g.a, F(4))
    for rounds in range(2):
        for i in range(5):
            y0, v0 = sy("y", 2), sy("v", 2)
            a, b = cp(y0), cp(v0)
            y, v = meth(ip, m, "step", a, b)
            c.same(a, y0, "argument after a step")
            c.same(b, v0, "argument after a step")
            c.same(y, X[i], "position %d" % i)
            c.same(v, V[i], "velocity %d" % i)
            y.a[...] = T.sym("garbage")
            v.a[...] = T.sym("garbage")
        meth(ip, m, "reset")


def jerk_open_loop(c):
    ip, m, s, g = trajectory(c, F(4))
    X, V, _ = samples(s.a, g.a, F(4))
    y, v = meth(ip, m, "n_steps_open_loop", sy("y", 2), sy("v", 2), 3)
    c.same(y, X[2], "position after three steps")
    c.same(v, V[2], "velocity after three steps")


# -- T02 ---------------------------------------------------------------------------
def t02(c):
    for demos, steps in ((1, 2), (1, 3), (2, 3), (2, 4), (3, 5), (5, 3),
                         (1, 12)):
        c.obligation("n_demos=%d n_steps=%d" % (demos, steps), toy, c, demos,
                     steps, {})
    for off in ("initial", "final", "noise", "initial final",
                "initial final noise"):
        c.obligation("without %s" % off, toy, c, 2, 3, {
            k: 0 for k in off.split()})
    c.obligation("default ranges", toy_defaults, c)
    c.obligation("default state", toy_reproducible, c)
    c.obligation("given state", toy_given, c)
    c.obligation("times", toy_times, c)


RANGES = dict(initial="initial_offset_range", final="final_offset_range",
              noise="noise_per_step_range")


def toy_call(c, ip, demos, steps, **kw):
    f = c.anchor(ip, DATA, "generate_1d_trajectory_distribution")
    return ip.call(f, [demos, steps], kw)


def differences(n):
    """Second differences of n values with zeros before and after them."""
    a = spec.zeros(n + 2, n)
    for i in range(n):
        for k, x in ((0, 1), (1, -2), (2, 1)):
            a[i + k, i] = P(x * (n - 1) ** 2)
    return a


def toy(c, demos, steps, off):
    ip = c.interp()
    rng = Rng(ip, "state")
    r = {k: off.get(k, T.sym("r" + k, "+")) for k in RANGES}
    t, y = toy_call(c, ip, demos, steps, random_state=rng,
                    **{RANGES[k]: v for k, v in r.items()})
    c.require(isinstance(y, Arr) and y.a.shape == (demos, steps, 1),
              "trajectories have shape %s" % (getattr(y, "shape", None),))
    times = [F(i, steps - 1) for i in range(steps)]
    c.same(t, spec.vec(times), "times")
    a = differences(steps)
    cov = inverse(a.T.dot(a))
    low = mat_atoms("cholesky", cov)
    k = 0
    for d in range(demos):
        want = [T.cos_(2 * T.PI * u) for u in times]
        if not ("initial" in off and "final" in off):
            a0, a1 = [r[x] * (T.sym("U(state,%d)" % (k + j), "0+")
                              - F(1, 2))
                      for j, x in enumerate(("initial", "final"))]
            k += 2
            want = [w + a0 + (a1 - a0) * u for w, u in zip(want, times)]
        if "noise" not in off:
            e = spec.vec([T.sym("N(state,%d)" % (k + j))
                          for j in range(steps)])
            k += steps
            want = [w + r["noise"] * x for w, x in zip(want, low.dot(e))]
        c.same(arr(y.a[d, :, 0]), spec.vec(want), "demonstration %d" % d)
    others = sorted({e["name"] for e in ip.events if e["kind"] == "random"
                     and e["name"] != "state"})
    c.require(not others, "random numbers come from %s" % ", ".join(others))


def toy_defaults(c):
    out = []
    for kw in ({}, dict(initial_offset_range=P(3),
                        final_offset_range=P(F(1, 10)),
                        noise_per_step_range=P(20))):
        ip = c.interp()
        t, y = toy_call(c, ip, 1, 3, random_state=Rng(ip, "state"), **kw)
        out.append(y)
    c.same(out[0], out[1], "trajectories with default ranges")


def toy_reproducible(c):
    ip = c.interp()
    r = [toy_call(c, ip, 2, 3)[1] for _ in range(3)]
    for e in ip.events:
        if e["kind"] in ("random", "seed", "unseeded"):
            c.require(e["kind"] == "random" and e["name"] != "np.random"
                      and not e["name"].startswith("unseeded"),
                      "a call without random state uses %s" % e["name"],
                      e["where"])
    for x in r[1:]:
        c.same(x, r[0], "trajectories of a later call without random state")


def toy_given(c):
    """Consecutive calls continue the given state and nothing else."""
    ip = c.interp()
    rng = Rng(ip, "state")
    a = toy_call(c, ip, 1, 3, random_state=rng)[1]
    b = toy_call(c, ip, 1, 3, random_state=rng)[1]
    ip2 = c.interp()
    both = toy_call(c, ip2, 2, 3, random_state=Rng(ip2, "state"))[1]
    c.same(arr(a.a[0]), arr(both.a[0]), "first call")
    c.same(arr(b.a[0]), arr(both.a[1]), "second call")
    for e in ip.events:
        if e["kind"] in ("random", "seed", "unseeded"):
            c.require(e["name"] == "state", "a call with random state uses "
                      "%s" % e["name"], e["where"])


def toy_times(c):
    ip = c.interp()
    t, y = toy_call(c, ip, 1, 3)
    t.a[...] = T.sym("garbage")
    t2, _ = toy_call(c, ip, 1, 3)
    c.same(t2, spec.vec([F(0), F(1, 2), F(1)]),
           "times after the first result was changed")


# -- T03 ---------------------------------------------------------------------------
class Normals:
    """Stands for the multivariate normal distributions of gmr: whatever is
    estimated is recorded, sigma points are the given ones."""

    def __init__(self, ip, points):
        self.ip = ip
        self.points = points
        self.samples = []
        self.sigma = []
        self.estimates = []
        self.cls = Cls("MVN", [], {}, None)
        ip.ext_hook = self.hook

    def make(self):
        o = Obj(self.cls)
        for name, f in (("from_samples", self.from_samples),
                        ("sigma_points", self.sigma_points),
                        ("estimate_from_sigma_points", self.estimate)):
            o.d[name] = Native(
                lambda ip, a, k, f=f: f(ip, [o] + list(a), k), name)
        return o

    def hook(self, ip, path, args, kwargs):
        if path.startswith("gmr.") and path.endswith(".MVN"):
            o = self.make()
            names = ("mean", "covariance", "verbose", "random_state")
            o.d.update(dict.fromkeys(names))
            o.d.update(zip(names, args))
            o.d.update(kwargs)
            return o
        if path.startswith("tqdm"):
            return args[0]
        return MISSING

    def from_samples(self, ip, args, kwargs):
        x = as_arr(ip, args[1])
        self.samples.append((args[0], x))
        args[0].d["samples"] = x
        return args[0]

    def sigma_points(self, ip, args, kwargs):
        a = dict(zip(("alpha", "kappa"), args[1:]))
        a.update(kwargs)
        self.sigma.append((args[0], a))
        return cp(self.points)

    def estimate(self, ip, args, kwargs):
        a = dict(zip(("transformed_sigma_points", "alpha", "beta", "kappa"),
                     args[1:]))
        a.update(kwargs)
        o = self.make()
        o.d["estimate"] = a
        self.estimates.append((args[0], a, o))
        return o


LENGTHS = (F(1), F(2), F(6), F(5, 3), F(4))


def dataset(n=2, samples=3):
    out = []
    for i in range(n):
        t = arr(spec.vec([LENGTHS[i] * F(k, samples - 1)
                          for k in range(samples)]))
        p = np.stack([kit.dual_pose("d%dp%d" % (i, k)).a
                      for k in range(samples)])
        out.append((t, Arr(p, "f")))
    return out


def propagate(c, ip, data, weights=2, **kw):
    f = c.anchor(ip, SPACE, "propagate_weight_distribution_to_state_space")
    recorded(c, ip, weights)
    kw = dict(dict(alpha=T.sym("al", "+"), kappa=T.sym("ka", "+"),
                   dt=P(F(3, 4)), int_dt=P(F(1, 4))), **kw)
    return ip.call(f, [data, weights], kw)


def points(n, weights=2):
    k = 12 * weights
    rows = []
    for i in range(n):
        rows.append(np.concatenate([
            sy("w%d" % i, k).a, kit.dual_pose("s%d" % i).a,
            kit.dual_pose("g%d" % i).a, [T.sym("T%d" % i, "+")]]))
    return Arr(np.array(rows, dtype=object), "f")


def recorded(c, ip, weights=2):
    """Imitation and execution of dual-arm DMPs as functions of everything
    they depend on; other properties decide what these functions are."""
    cls = c.anchor(ip, DMP, "DualCartesianDMP")

    def state(v, out):
        """All numbers in the attributes of an object."""
        if isinstance(v, Obj):
            for k in sorted(v.d):
                if k != "_weights":
                    state(v.d[k], out)
        elif isinstance(v, Arr):
            for x in v.a.reshape(-1):
                if not uninitialised(x):
                    state(x, out)
        elif isinstance(v, (tuple, list)):
            for x in v:
                state(x, out)
        elif isinstance(v, (int, Fraction, T.Poly)):
            out.append(P(v))
        return out

    def imitate(ip, args, kwargs):
        o, rest = args[0], list(args[1:])
        a = dict(zip(("T", "Y", "regularization_coefficient",
                      "allow_final_velocity"), rest), **kwargs)
        t, y = as_arr(ip, a["T"]), as_arr(ip, a["Y"])
        k = [tuple(state(o, []))]
        n = weights
        reg = P(a.get("regularization_coefficient", 0))
        fin = P(int(bool(a.get("allow_final_velocity", False))))
        full = (tuple(P(x) for x in t.a.reshape(-1)),
                tuple(P(x) for x in y.a.reshape(-1)), reg, fin)
        o.d["_weights"] = Arr(spec.vec([
            T.fn("weight", P(i), P(n), *(k + list(full)))
            for i in range(12 * n)]), "f")

    def weights_of(o):
        # initially no force
        if "_weights" not in o.d:
            n = 12 * weights
            o.d["_weights"] = Arr(spec.vec([P(0)] * n), "f")
        return o.d["_weights"]

    def get_weights(ip, args, kwargs):
        return cp(weights_of(args[0]))

    def set_weights(ip, args, kwargs):
        w = args[1] if len(args) > 1 else list(kwargs.values())[0]
        args[0].d["_weights"] = cp(as_arr(ip, w))

    def open_loop(ip, args, kwargs):
        o, rest = args[0], list(args[1:])
        a = dict(zip(("run_t", "coupling_term"), rest), **kwargs)
        w = weights_of(o)
        if a.get("coupling_term") is not None:
            raise Undecided("execution")
        run = a.get("run_t")
        k = [tuple(state(o, [])),
             P(ip.getattr(o, "execution_time_") if run is None else run),
             tuple(P(x) for x in w.a.reshape(-1))]
        y = np.empty((3, 14), dtype=object)
        for i in np.ndindex(*y.shape):
            y[i] = T.fn("pose", P(i[0]), P(i[1]), *k)
        return Arr(spec.vec([T.fn("time", P(i)) for i in range(3)]), "f"), \
            Arr(y, "f")
    for name, f in (("imitate", imitate), ("get_weights", get_weights),
                    ("set_weights", set_weights), ("open_loop", open_loop)):
        m, _ = cls.lookup(name)
        if not isinstance(m, Func):
            raise Undecided("no method %s" % name)
        ip.summaries[id(m.node)] = f


def dual(c, ip, T_, dt, weights, int_dt):
    return new(ip, c.anchor(ip, DMP, "DualCartesianDMP"), execution_time=T_,
               dt=dt, n_weights_per_dim=weights, int_dt=int_dt)


def t03(c):
    for demos in (1, 2, 3, 5):
        c.obligation("parameters of %d demonstrations" % demos, parameters, c,
                     demos)
    for k in (3, 10):
        c.obligation("parameters weights per dimension=%d" % k, parameters,
                     c, 1, k)
    for m in (2, 4, 7):
        c.obligation("parameters of demonstrations with %d samples" % m,
                     parameters, c, 2, 2, m)
    c.obligation("dense demonstrations", dense, c)
    c.obligation("unevenly sampled demonstrations", uneven, c)
    for n in (1, 3):
        c.obligation("execution of %d sigma points" % n, sigma, c, n)
    for demos in (1, 3, 5):
        c.obligation("execution after %d demonstrations" % demos, sigma, c, 1,
                     demos)
    for k in (3, 10):
        c.obligation("execution weights per dimension=%d" % k, sigma, c, 2,
                     2, k)
    c.obligation("estimate", estimated, c)
    c.obligation("verbose", verbose, c)
    c.obligation("arguments", propagate_arguments, c)
    for v in (0, 1):
        c.obligation("cache is written verbose=%d" % v, cache_written, c, v)
    c.obligation("cache is read", cache_read, c)
    c.obligation("without cache", no_cache, c)
    c.obligation("default arguments", space_defaults, c)


def parameters(c, demos, weights=2, samples=3):
    ip = c.interp()
    N = Normals(ip, points(1, weights))
    data = dataset(demos, samples)
    propagate(c, ip, data, weights)
    c.require(len(N.samples) == 1, "%d distributions are estimated"
              % len(N.samples))
    x = N.samples[0][1]
    c.require(x.a.shape == (demos, 12 * weights + 29),
              "samples have shape %s" % (x.a.shape,))
    ip = c.interp()
    recorded(c, ip, weights)
    for row, (t, p) in zip(x.a, dataset(demos, samples)):
        dmp = dual(c, ip, t.a[-1], P(t.a[1] - t.a[0]), weights, P(F(1, 4)))
        meth(ip, dmp, "imitate", cp(t), cp(p))
        w = meth(ip, dmp, "get_weights")
        c.same(arr(row[:12 * weights]), w, "weights of a demonstration")
        c.same(arr(row[12 * weights:-1]), np.concatenate([p.a[0], p.a[-1]]),
               "start and goal of a demonstration")
        c.same(row[-1], t.a[-1], "execution time of a demonstration")


def dense(c):
    """Demonstrations sampled with less than 5 ms are left out."""
    ip = c.interp()
    N = Normals(ip, points(1))
    data = dataset(3)
    t = arr(spec.vec([F(0), F(1, 1000), F(2, 1000)]))
    propagate(c, ip, [data[0], (t, data[1][1]), data[2]])
    x = N.samples[0][1]
    c.require(x.a.shape[0] == 2, "%d of 2 demonstrations are used"
              % x.a.shape[0])
    c.same(x.a[1, -1], P(6), "execution time of the last demonstration")
    s, a = N.sigma[0]
    c.require(s.d.get("samples") is x, "sigma points belong to another "
              "distribution")


def uneven(c):
    """The mean time between samples counts."""
    ip = c.interp()
    N = Normals(ip, points(1))
    ts = [arr(spec.vec(t)) for t in (
        [F(0), F(1, 1000), F(1)], [F(0), F(1), F(1001, 1000)],
        [F(0), F(6, 1000), F(7, 1000)], [F(0), F(1, 1000), F(8, 1000)])]
    data = dataset(4)
    propagate(c, ip, [(t, p) for t, (_, p) in zip(ts, data)])
    x = N.samples[0][1]
    c.require(x.a.shape[0] == 2, "%d of 2 demonstrations are used"
              % x.a.shape[0])
    c.same(arr(x.a[:, -1]), spec.vec([F(1), F(1001, 1000)]),
           "execution times of the demonstrations")


def sigma(c, n, demos=2, weights=2):
    ip = c.interp()
    pts = points(n, weights)
    N = Normals(ip, pts)
    propagate(c, ip, dataset(demos), weights)
    mean = P(sum(LENGTHS[:demos]) / demos)
    c.require(len(N.estimates) == 1, "%d estimates" % len(N.estimates))
    x = as_arr(ip, N.estimates[0][1]["transformed_sigma_points"])
    c.require(x.a.ndim == 2 and len(x.a) == n, "%s trajectories of %d sigma "
              "points" % (x.a.shape, n))
    ip = c.interp()
    recorded(c, ip, weights)
    for i in range(n):
        dmp = dual(c, ip, mean, P(F(3, 4)), weights, P(F(1, 4)))
        meth(ip, dmp, "configure", start_y=kit.dual_pose("s%d" % i),
             goal_y=kit.dual_pose("g%d" % i))
        meth(ip, dmp, "set_weights", sy("w%d" % i, 12 * weights))
        y = meth(ip, dmp, "open_loop", run_t=mean)[1]
        c.same(arr(x.a[i]), y.a.reshape(-1), "trajectory of sigma point %d"
               % i)


def estimated(c):
    ip = c.interp()
    N = Normals(ip, points(2))
    r = propagate(c, ip, dataset(2))
    mvn, a, o = N.estimates[0]
    c.require(r is o, "the estimate is not returned")
    first, b = N.sigma[0]
    c.require(first is N.samples[0][0], "sigma points belong to another "
              "distribution")
    for k, v in (("alpha", "al"), ("kappa", "ka")):
        for x, what in ((b, "of the sigma points"), (a, "of the estimate")):
            c.require(x.get(k) is not None, "%s %s is not given" % (k, what))
            c.same(x[k], T.sym(v, "+"), "%s %s" % (k, what))
    c.require(mvn is not first, "the estimate changes the distribution of "
              "parameters")
    mean, cov = mvn.d.get("mean"), mvn.d.get("covariance")
    n = 24 + 29
    c.same(mean, spec.zeros(n), "initial mean of the estimate")
    c.same(cov, np.array(spec.eye(n)), "initial covariance of the estimate")


def trajectories_of(N):
    return N.estimates[-1][1]["transformed_sigma_points"]


def verbose(c):
    out = []
    for v in (0, 1):
        ip = c.interp()
        N = Normals(ip, points(2))
        propagate(c, ip, dataset(2), verbose=v)
        out.append((N.samples[0][1], trajectories_of(N)))
    c.same(out[1][0], out[0][0], "parameters with messages")
    c.same(out[1][1], out[0][1], "trajectories with messages")


def propagate_arguments(c):
    ip = c.interp()
    Normals(ip, points(1))
    data = dataset(2)
    propagate(c, ip, data)
    c.require(len(data) == 2, "the dataset has another length")
    for (t, p), (t0, p0) in zip(data, dataset(2)):
        c.same(t, t0, "times of the dataset")
        c.same(p, p0, "poses of the dataset")


def cache_written(c, verbose=0):
    ip = c.interp()
    N = Normals(ip, points(2))
    propagate(c, ip, dataset(2), cache_filename="cache.txt", verbose=verbose)
    c.require(list(ip.files) == ["cache.txt"], "files written: %s"
              % sorted(ip.files))
    c.same(ip.files["cache.txt"][2], trajectories_of(N), "cache")
    data = [(sy("other", 3), Arr(sy("o", (3, 14)).a, "f"))]
    before = cp(trajectories_of(N))
    n = len(N.samples)
    propagate(c, ip, data, cache_filename="cache.txt")
    c.require(len(N.samples) == n, "the dataset is used although there is a "
              "cache")
    c.require(len(N.estimates) == 2, "%d estimates" % len(N.estimates))
    c.same(trajectories_of(N), before, "trajectories of the second call")


def cache_read(c):
    ip = c.interp()
    N = Normals(ip, points(2))
    kept = sy("c", (3, 28))
    ip.files["cache.txt"] = ("text", False, cp(kept))
    propagate(c, ip, dataset(1), cache_filename="cache.txt")
    c.require(not N.samples, "the dataset is used although there is a cache")
    c.same(trajectories_of(N), kept, "trajectories")
    c.same(ip.files["cache.txt"][2], kept, "cache")
    mvn, a, _ = N.estimates[0]
    for k, v in (("alpha", "al"), ("kappa", "ka")):
        c.same(a.get(k), T.sym(v, "+"), "%s of the estimate" % k)


def no_cache(c):
    ip = c.interp()
    Normals(ip, points(1))
    ip.files["cache.txt"] = ("text", False, sy("c", (3, 28)))
    propagate(c, ip, dataset(1))
    c.require(list(ip.files) == ["cache.txt"], "files written: %s"
              % sorted(ip.files))
    c.require(not [e for e in ip.events if e["kind"] in ("open", "write")],
              "a file is opened")


def space_defaults(c):
    out = []
    d = dict(alpha=P(F(1, 1000)), kappa=P(10))
    for kw in ({}, d):
        ip = c.interp()
        N = Normals(ip, points(1))
        f = c.anchor(ip, SPACE,
                     "propagate_weight_distribution_to_state_space")
        recorded(c, ip)
        ip.call(f, [dataset(1), 2], dict(
            kw, dt=P(F(3, 4)), int_dt=P(F(3, 4))))
        out.append([N.sigma[0][1], N.estimates[0][1]])
    for x, y in zip(*out):
        for k in d:
            c.same(x.get(k), y.get(k), "default %s" % k)
