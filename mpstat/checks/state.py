"""Uninitialised memory, rejected arguments, weights."""
from fractions import Fraction

import numpy as np

from .. import spec, kit
from .. import terms as T
from ..kit import Setup, arr, cp, sy, meth, get, new, DMP, rejects, TAU
from ..terms import P
from ..values import Arr, Obj, InterpRaise, is_num
from . import imitation, ownership
from .execution import KINDS, concrete, variants, DT, MJ, small
from .ownership import probe_movement, compare_probes

F = Fraction
LEARNING = ("DMP", "DMPWithFinalVelocity", "CartesianDMP", "DualCartesianDMP")


# -- U01 -------------------------------------------------------------------------
def uninitialised(x):
    if isinstance(x, Arr):
        for i in np.ndindex(*x.a.shape):
            n = uninitialised(x.a[i])
            if n:
                return "%s at index %s" % (n, list(i))
        return None
    if isinstance(x, (list, tuple)):
        for y in x:
            n = uninitialised(y)
            if n:
                return n
        return None
    if is_num(x):
        for a in P(x).atoms(True):
            if getattr(a, "kind", None) == "sym" \
                    and str(a.name).startswith("uninit"):
                return "uninitialised memory"
    return None


def initialised(c, x, what):
    c.comparisons += 1
    n = uninitialised(x)
    if n:
        c.fail("%s depends on %s" % (what, n))


def u01(c):
    for name, run in ownership.scenarios():
        c.obligation(name, all_initialised, c, run)
    for kind in KINDS:
        c.obligation("%s new object" % kind, new_object, c, kind)
        for k in (1, 2, 4):
            if kind == "StateFollowingDMP" or (
                    kind in LEARNING and k > 1):
                c.obligation("%s %d weights" % (kind, k), minimal, c, kind,
                             k)
    for kind in LEARNING:
        for final in (False, True):
            if kind == "DMPWithFinalVelocity" and final:
                continue
            for m in (2, 3):
                c.obligation("%s imitation of %d samples final=%s" % (
                    kind, m, final), learned, c, kind, m, final)
    for n in (1, 2, 5):
        c.obligation("generate_minimum_jerk %d steps" % n, jerk, c, n)
    c.obligation("ProMP one weight", one_weight, c)
    for m in (1, 3):
        c.obligation("ProMP %d samples" % m, sampled, c, m)
        c.obligation("generate_1d_trajectory_distribution %d" % m, toy, c, m)
    for m in (1, 5):
        for nm, make, kw in (
                ("forward_trajectory", lambda k, m=m: dict(Q=sy("q", (m, 2))),
                 None),
                ("inverse_trajectory", lambda k, m=m: dict(
                    H=k.poses(m), initial_joint_angles=sy("q", 2)),
                 dict(random_restarts=False))):
            c.obligation("Chain.%s of %d poses" % (nm, m), all_initialised,
                         c, ownership.s_chain(nm, make, kw))
        for r in (False, True):
            c.obligation("optimisations of %d poses restarts=%s" % (m, r),
                         optimised, c, m, r)


def all_initialised(c, run):
    g = run(c)
    ins = next(g)
    outs = next(g)
    for k, x in list(ins.items()) + list(outs.items()):
        initialised(c, x, k)
    for k, x in next(g)():
        initialised(c, x, k)


def optimised(c, m, restarts):
    """Bounds and first guesses of all optimisations."""
    from . import kinematics as kin
    ip, ch, robot, joints = kin.make(c, "planar")
    kin.script(ip, [1])
    meth(ip, ch, "inverse_trajectory", kin.poses(m),
         initial_joint_angles=sy("q", 2), random_restarts=restarts,
         random_state=kin.rng(ip))
    found = kin.minimisations(ip)
    c.require(len(found) >= m, "%d optimisations" % len(found))
    for e in found:
        initialised(c, kin.bounds_of(ip, e), "bounds of an optimisation")
        initialised(c, e["args"][1], "first guess of an optimisation")


def new_object(c, kind):
    """Nothing but the constructor was called."""
    ip = c.interp()
    spring = kind.startswith("Spring")
    cls = c.anchor(ip, kit.SD if spring else DMP, kind)
    kw = {}
    if kind not in ("CartesianDMP", "DualCartesianDMP",
                    "SpringDamperOrientation"):
        kw["n_dims"] = 2
    if kind == "StateFollowingDMP":
        kw["execution_time"] = F(3, 10)
    o = new(ip, cls, **kw)
    for nm in ("start_y", "start_yd", "start_ydd", "goal_y", "goal_yd",
               "goal_ydd", "current_y", "current_yd", "t"):
        initialised(c, ip.getattr(o, nm), nm)
    if kind in LEARNING:
        initialised(c, meth(ip, o, "get_weights"), "weights")


def minimal(c, kind, k):
    S = Setup(c, kind, True, n=2, k=k, full=1, rest=F(1, 2), last_t=0,
              h=DT, tau=F(3, 10), warm=False)
    S.configure()
    y, v = S.step(S.state("y"), S.vel("v"))
    initialised(c, y, "position after a step")
    initialised(c, v, "velocity after a step")
    ts, ys = meth(S.ip, S.obj, "open_loop", run_t=DT)
    initialised(c, ts, "times")
    initialised(c, ys, "trajectory")


def learned(c, kind, m, final):
    ip, o = imitation.primitive(c, kind, k=2)
    kw = dict(allow_final_velocity=True) if final else {}
    meth(ip, o, "imitate", imitation.times([F(i, m - 1) for i in range(m)]),
         imitation.demo(kind, m), regularization_coefficient=imitation.LAM,
         **kw)
    initialised(c, meth(ip, o, "get_weights"), "weights")
    for nm in ("start_y", "start_yd", "start_ydd", "goal_y", "goal_yd",
               "goal_ydd"):
        initialised(c, ip.getattr(o, nm), nm)


def jerk(c, n):
    ip = c.interp()
    f = c.anchor(ip, "movement_primitives.data", "generate_minimum_jerk")
    for nm, x in zip(("positions", "velocities", "accelerations"), ip.call(
            f, [sy("s", 2), sy("g", 2), P(1), P(F(1, n))], {})):
        initialised(c, x, nm)


def one_weight(c):
    ip, o, mean, cov = ownership.promp(c, 1, 1)
    meth(ip, o, "from_weight_distribution", mean, cov)
    for m in ("mean_trajectory", "cov_trajectory", "var_trajectory",
              "mean_velocities", "cov_velocities", "var_velocities"):
        initialised(c, meth(ip, o, m, ownership.ptimes()), m)


def sampled(c, m):
    ip, o, mean, cov = ownership.promp(c)
    meth(ip, o, "from_weight_distribution", mean, cov)
    initialised(c, meth(ip, o, "sample_trajectories", ownership.ptimes(), m,
                        ownership.rng(ip)), "samples")


def toy(c, m):
    ip = c.interp()
    f = c.anchor(ip, "movement_primitives.data",
                 "generate_1d_trajectory_distribution")
    for kw in ({}, dict(initial_offset_range=P(0), final_offset_range=P(0),
                        noise_per_step_range=P(0))):
        t, y = ip.call(f, [m, 4], dict(kw))
        initialised(c, t, "times")
        initialised(c, y, "trajectories")


# -- V01 -------------------------------------------------------------------------
def v01(c):
    for kind in KINDS:
        for nm in ("start_y", "start_yd", "start_ydd", "goal_y", "goal_yd",
                   "goal_ydd"):
            for d in (-1, 1) if kind in ("DMP", "SpringDamper") \
                    else (-1, 1, 0):
                c.obligation("%s.configure %s of length %+d" % (kind, nm, d),
                             bad_configure, c, kind, nm, d)
        for label, ext, skw, okw in variants(kind):
            if label.startswith("default"):
                continue
            for which in ("position", "velocity"):
                c.obligation("%s[%s].step %s of wrong length" % (
                    kind, label, which), bad_step, c, kind, ext, skw, which)
        if kind in LEARNING:
            c.obligation("%s execution time not positive" % kind,
                         bad_duration, c, kind)
            c.obligation("%s negative regularisation" % kind, bad_imitation,
                         c, kind)
            for k in (1, 0, -1):
                c.obligation("%s with %d weights" % (kind, k), bad_number, c,
                             kind, k)
            c.obligation("%s weight vectors of wrong length" % kind,
                         bad_weights, c, kind)
        if kind == "StateFollowingDMP":
            for k in (0, -1):
                c.obligation("%s with %d via-points" % (kind, k), bad_number,
                             c, kind, k)
        if not kind.startswith("Spring"):
            for nm in ("alpha_y", "beta_y"):
                c.obligation("%s %s of wrong length" % (kind, nm), bad_gain,
                             c, kind, nm)
            c.obligation("%s constructed with execution time not positive"
                         % kind, bad_new_duration, c, kind)
    for kind, call, kw in (
            ("DMP", "step", "step_function"),
            ("DMP", "open_loop", "step_function"),
            ("CartesianDMP", "open_loop", "step_function"),
            ("CartesianDMP", "open_loop", "quaternion_step_function"),
            ("DualCartesianDMP", "open_loop", "step_function")):
        c.obligation("%s.%s unknown %s" % (kind, call, kw), bad_name, c,
                     kind, call, kw)
    c.obligation("ensure_1d_array", ensure, c)
    c.obligation("check_1d_array_length", check_length, c)
    c.obligation("generate_minimum_jerk different shapes", bad_jerk, c)
    c.obligation("MinimumJerkTrajectory.configure", bad_jerk_configure, c)
    for kind in KINDS:
        c.obligation("%s valid arguments" % kind, valid, c, kind)


def unchanged_after(c, S, bad, what, names=("ValueError",)):
    """The rejected call changes nothing observable."""
    want = reference(c, S)
    rejects(c, S.ip, bad, what, names)
    compare_probes(c, probe_movement(S)(), want, what + " was rejected")


def reference(c, S):
    S2 = concrete(c, S.kind, S.ip.ext_available if hasattr(
        S.ip, "ext_available") else True)
    return probe_movement(S2)()


def bad_configure(c, kind, nm, d):
    S = concrete(c, kind, True)
    good = dict(t=P(F(7, 10)), start_y=S.state("x1"), goal_y=S.state("x2"),
                start_yd=S.vel("x3"), goal_yd=S.vel("x4"),
                start_ydd=S.vel("x5"), goal_ydd=S.vel("x6"))
    n = len(good[nm].a) + d if d else 1
    good[nm] = sy("bad", n)
    unchanged_after(c, S, lambda: meth(S.ip, S.obj, "configure", **good),
                    "%s with %d components" % (nm, n))


def bad_step(c, kind, ext, skw, which):
    S = concrete(c, kind, ext)
    y, v = S.state("y"), S.vel("v")
    for d in (1, -1):
        S = concrete(c, kind, ext)
        if which == "position":
            y = sy("bad", S.n + d)
        else:
            v = sy("bad", S.nv + d)
        unchanged_after(c, S, lambda: S.step(y, v, **skw),
                        "last %s of wrong length" % which,
                        ("AssertionError", "ValueError"))


def bad_duration(c, kind):
    for value in (P(0), -TAU):
        S = concrete(c, kind, True)
        rejects(c, S.ip, lambda: S.ip.setattr(
            S.obj, "execution_time_", value), "execution time %s" % value)
        c.same(get(S.ip, S.obj, "execution_time_"), P(F(3, 10)),
               "execution time after an invalid one was rejected")
        S = concrete(c, kind, True)
        unchanged_after(c, S, lambda: S.ip.setattr(
            S.obj, "execution_time_", value), "execution time %s" % value)


def bad_imitation(c, kind):
    for reg in (-imitation.LAM, P(-F(1, 1000)), P(-1000)):
        S = concrete(c, kind, True)
        unchanged_after(c, S, lambda: meth(
            S.ip, S.obj, "imitate", imitation.times(imitation.UNEVEN),
            imitation.demo(kind, 5), regularization_coefficient=reg),
            "negative regularisation")


def bad_weights(c, kind):
    S = concrete(c, kind, True)
    n = len(meth(S.ip, S.obj, "get_weights").a)
    for m in sorted({n - 1, n + 1, n // 2, n // 2 + 3, n - 3, n + 3, 2 * n,
                     1, 3, 0} - {n}):
        S = concrete(c, kind, True)
        unchanged_after(c, S, lambda: meth(
            S.ip, S.obj, "set_weights", sy("nw", m)),
            "%d instead of %d weights" % (m, n))


def ctor(c, kind, **kw):
    ip = c.interp()
    cls = c.anchor(ip, DMP, kind)
    kw.setdefault("execution_time", F(3, 10))
    if kind not in ("CartesianDMP", "DualCartesianDMP"):
        kw["n_dims"] = 2
    return ip, lambda: new(ip, cls, **kw)


def bad_number(c, kind, k):
    nm = "n_viapoints" if kind == "StateFollowingDMP" else "n_weights_per_dim"
    ip, f = ctor(c, kind, **{nm: k})
    rejects(c, ip, f, "%d weights or via-points" % k)


def bad_gain(c, kind, nm):
    n = {"CartesianDMP": 6, "DualCartesianDMP": 12}.get(kind, 2)
    for m in [m for m in range(2, n + 3) if m != n] + [2 * n]:
        ip, f = ctor(c, kind, **{nm: sy("gain", m, "+")})
        rejects(c, ip, f, "%s with %d components" % (nm, m))
    # one value for all dimensions
    S = concrete(c, kind, True)
    kw = {nm: T.sym("gain", "+")}
    ip, f = ctor(c, kind, **kw)
    o = f()
    c.same(get(ip, o, nm), spec.vec([T.sym("gain", "+")] * n),
           "%s given as a number" % nm)


def bad_new_duration(c, kind):
    for value in (P(0), -TAU):
        ip, f = ctor(c, kind, execution_time=value)
        rejects(c, ip, f, "execution time %s" % value)


def bad_name(c, kind, call, kw):
    S = concrete(c, kind, True)
    args = (S.state("y"), S.vel("v")) if call == "step" else ()
    unchanged_after(c, S, lambda: meth(
        S.ip, S.obj, call, *args, **{kw: "no such integrator"}),
        "an unknown integrator")


def ensure(c):
    ip = c.interp()
    f = c.anchor(ip, "movement_primitives.utils", "ensure_1d_array")
    for n in (1, 3, 6, 12):
        for m in [m for m in range(2, n + 3) if m != n] + [2 * n]:
            if m != n:
                rejects(c, ip, lambda: ip.call(f, [sy("x", m), n, "x"], {}),
                        "%d instead of %d elements" % (m, n))
    for shape in ((3,), (1, 2), (2, 1), (2, 2)):
        rejects(c, ip, lambda: ip.call(f, [sy("x", shape), 2, "x"], {}),
                "array of shape %s" % (shape,))
    c.same(ip.call(f, [sy("x", 2), 2, "x"], {}), sy("x", 2), "array")
    x = T.sym("x")
    c.same(ip.call(f, [x, 3, "x"], {}), spec.vec([x, x, x]), "number")
    c.same(ip.call(f, [sy("x", 1), 2, "x"], {}),
           spec.vec([sy("x", 1).a[0]] * 2), "array with one element")
    c.same(ip.call(f, [[P(1), P(2)], 2, "x"], {}), spec.vec([1, 2]), "list")


def check_length(c):
    ip = c.interp()
    f = c.anchor(ip, "movement_primitives.utils", "check_1d_array_length")
    for n, m in ((3, 2), (1, 2), (0, 1), (2, 1)):
        rejects(c, ip, lambda: ip.call(f, [sy("x", n), "x", m], {}),
                "%d instead of %d elements" % (n, m))
    for n in (1, 2, 7):
        ip.call(f, [sy("x", n), "x", n], {})
        ip.call(f, [[P(0)] * n, "x", n], {})
        c.comparisons += 1


def bad_jerk(c):
    ip = c.interp()
    f = c.anchor(ip, "movement_primitives.data", "generate_minimum_jerk")
    rejects(c, ip, lambda: ip.call(f, [sy("s", 2), sy("g", 3)], {}),
            "start and goal of different lengths")


def bad_jerk_configure(c):
    ip = c.interp()
    o = new(ip, c.anchor(ip, MJ, "MinimumJerkTrajectory"), n_dims=2,
            execution_time=1, dt=F(1, 4))
    meth(ip, o, "configure", start_y=sy("s", 2), goal_y=sy("g", 2))
    rejects(c, ip, lambda: meth(ip, o, "configure", start_y=sy("s2", 2),
                                goal_y=sy("g", 3)), "goal of wrong length")
    c.same(get(ip, o, "start_y"), sy("s", 2), "start")
    c.same(get(ip, o, "goal_y"), sy("g", 2), "goal")


def valid(c, kind):
    """Admissible arguments are accepted and stored."""
    S = concrete(c, kind, True)
    good = dict(t=T.sym("t", "+"), start_y=S.state("x1"),
                goal_y=S.state("x2"), start_yd=S.vel("x3"),
                goal_yd=S.vel("x4"), start_ydd=S.vel("x5"),
                goal_ydd=S.vel("x6"))
    for nm, x in good.items():
        S = concrete(c, kind, True)
        before = {k: S.ip.getattr(S.obj, k) for k in good}
        before = {k: cp(v) if isinstance(v, Arr) else v
                  for k, v in before.items()}
        meth(S.ip, S.obj, "configure", **{nm: x})
        for k in good:
            c.same(S.ip.getattr(S.obj, k), x if k == nm else before[k],
                   "%s after %s was configured" % (k, nm))
    S = concrete(c, kind, True)
    meth(S.ip, S.obj, "configure", **good)
    for k, x in good.items():
        c.same(S.ip.getattr(S.obj, k), x, "%s after configuration" % k)
    # zero is a value like any other
    S = concrete(c, kind, True)
    meth(S.ip, S.obj, "configure", **good)
    zero = {k: P(0) if k == "t" else arr(spec.zeros(len(x.a)))
            for k, x in good.items()}
    for k, x in zero.items():
        meth(S.ip, S.obj, "configure", **{k: x})
        c.same(S.ip.getattr(S.obj, k), x, "%s set to zero" % k)
    # plain lists
    S = concrete(c, kind, True)
    meth(S.ip, S.obj, "configure", start_y=[P(x) for x in good["start_y"].a])
    c.same(get(S.ip, S.obj, "start_y"), good["start_y"], "start given as "
           "list")


# -- W01 -------------------------------------------------------------------------
def w01(c):
    for kind in LEARNING:
        for k in (2, 3, 4, 5, 6, 7, 8, 10, 12, 20):
            c.obligation("%s round trip %d" % (kind, k), round_trip, c, kind,
                         k)
        if kind in ("DMP", "DMPWithFinalVelocity"):
            for n in (1, 3, 4, 6, 7):
                for k in (2, 3, 4, 6, 10, 12):
                    c.obligation("%s round trip %dx%d" % (kind, n, k),
                                 round_trip, c, kind, k, n)
        c.obligation("%s duration" % kind, duration, c, kind)
        c.obligation("%s learned weights and duration" % kind, duration, c,
                     kind, True)
        c.obligation("%s transfer" % kind, transfer, c, kind)
        c.obligation("%s zero weights" % kind, initially, c, kind)
        c.obligation("%s configuration keeps weights" % kind, keeps, c, kind)
    for kind in ("DMP", "DMPWithFinalVelocity", "DualCartesianDMP"):
        c.obligation("%s n_weights" % kind, number, c, kind)


def primitive(c, kind, k=3, n=2):
    ip, o = imitation.primitive(c, kind, n=n, k=k)
    nw = {"CartesianDMP": 6, "DualCartesianDMP": 12}.get(kind, n) * k
    return ip, o, sy("w", nw)


def round_trip(c, kind, k, n=2):
    ip, o, w = primitive(c, kind, k, n)
    c.same(meth(ip, o, "get_weights"), spec.zeros(len(w.a)),
           "weights of a new object")
    meth(ip, o, "set_weights", cp(w))
    c.same(meth(ip, o, "get_weights"), w, "weights that were set")
    w2 = sy("v", len(w.a))
    meth(ip, o, "set_weights", cp(w2))
    c.same(meth(ip, o, "get_weights"), w2, "weights that were set again")
    meth(ip, o, "set_weights", meth(ip, o, "get_weights"))
    c.same(meth(ip, o, "get_weights"), w2, "weights set to themselves")


RATES = ("start_yd", "start_ydd", "goal_yd", "goal_ydd")


def duration(c, kind, learn=False):
    ip, o, w = primitive(c, kind)
    if learn:
        meth(ip, o, "imitate", imitation.times(imitation.UNEVEN),
             imitation.demo(kind, 5),
             regularization_coefficient=imitation.LAM)
        w = cp(meth(ip, o, "get_weights"))
    else:
        meth(ip, o, "set_weights", cp(w))
        Y = imitation.demo(kind, 2)
        meth(ip, o, "configure", start_y=arr(Y.a[0]), goal_y=arr(Y.a[1]),
             **{nm: sy(nm, len(get(ip, o, nm).a)) for nm in RATES})
    before = {nm: cp(get(ip, o, nm)) for nm in (
        "start_y", "goal_y", "alpha_y", "beta_y") + RATES}
    for x in (TAU, T.sym("shorter", "+")):
        ip.setattr(o, "execution_time_", x)
        c.same(get(ip, o, "execution_time_"), x, "execution time")
        c.same(meth(ip, o, "get_weights"), w, "weights after the execution "
               "time was changed")
        for nm, y in before.items():
            c.same(get(ip, o, nm), y, nm + " after the execution time was "
                   "changed")


def transfer(c, kind):
    """Weights of one object make another one move alike."""
    S1, S2 = concrete(c, kind, True), concrete(c, kind, True)
    meth(S2.ip, S2.obj, "set_weights", sy("other", S2.W.a.size))
    meth(S2.ip, S2.obj, "set_weights", meth(S1.ip, S1.obj, "get_weights"))
    a = meth(S1.ip, S1.obj, "open_loop", run_t=2 * DT)
    b = meth(S2.ip, S2.obj, "open_loop", run_t=2 * DT)
    c.same(b[1], a[1], "trajectory with the weights of another object")


def initially(c, kind):
    """Without weights the movement is the spring-damper alone."""
    S1 = concrete(c, kind, True)
    meth(S1.ip, S1.obj, "set_weights", arr(spec.zeros(S1.W.a.size)))
    S2 = concrete(c, kind, True)
    S2.W.a[...] = T.ZERO
    y, v = S1.step(cp(S1.s), cp(S1.sd))
    wy, wv = S2.expected(S2.s, S2.sd, "rk4")
    c.same(y, wy, "position with zero weights")
    c.same(v, wv, "velocity with zero weights")


def keeps(c, kind):
    ip, o, w = primitive(c, kind)
    meth(ip, o, "set_weights", cp(w))
    Y = imitation.demo(kind, 2)
    meth(ip, o, "configure", start_y=arr(Y.a[0]), goal_y=arr(Y.a[1]))
    meth(ip, o, "reset")
    c.same(meth(ip, o, "get_weights"), w, "weights after configuration and "
           "reset")


def number(c, kind):
    ip, o, w = primitive(c, kind)
    c.same(get(ip, o, "n_weights"), P(len(w.a)), "number of weights")
