"""Coupling terms and potential field."""
from fractions import Fraction

import numpy as np

from .. import spec, kit
from .. import terms as T
from ..kit import Setup, arr, cp, sy, meth, get, new, DMP, TAU
from ..npmodel import as_arr, qmat
from ..terms import P
from ..values import Arr, Cls, Native, Obj, Undecided
from .execution import concrete, DT

F = Fraction
FIELD = "movement_primitives.dmp_potential_field"
K, C1, C2 = (T.sym(x, "+") for x in ("k", "c1", "c2"))
L = (T.sym("l0"), T.sym("l1"))
GAMMA, BETA = T.sym("gamma", "+"), T.sym("beta", "+")


# -- specification ----------------------------------------------------------------
def cross(a, b):
    return spec.vec([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                     a[0] * b[1] - a[1] * b[0]])


def norm(a):
    return T.sqrt_(spec.dot(a, a))


def obstacle(y, v, o, gamma, beta):
    """Acceleration perpendicular to the velocity, in the plane of velocity
    and obstacle, away from the obstacle."""
    d = o - y
    cos = spec.dot(d, v) / (norm(d) * norm(v) + F(1, 10 ** 10))
    theta = T.acos_(cos)
    if len(y) == 2:
        z = d[0] * v[1] - d[1] * v[0]
        turned = spec.vec([-v[1], v[0]]) * (z / T.abs_(z))
    else:
        r = cross(d, v)
        turned = cross(r, v) / norm(r)
    return gamma * theta * T.exp_(-beta * theta) * turned


def pos_coupling(kind, y, d, lf, k, c1, c2):
    if kind == "CouplingTermPos1DToPos1D":
        f = k * (-d - (y[0] - y[1]))
        cd = spec.vec([c1 * f * lf[0], -c1 * f * lf[1]])
        return cd, c2 * cd
    if kind == "CouplingTermPos3DToPos3D":
        f = k * (-d - (y[:3] - y[3:6]))
        return tuple(np.concatenate([c * f * lf[0], -c * f * lf[1]])
                     for c in (c1, c2))
    a = y[:3] - y[7:10]
    f = k * (T.abs_(d) * a / norm(a) - a)
    z = spec.zeros(3)
    return tuple(np.concatenate([c * f * lf[0], z, -c * f * lf[1], z])
                 for c in (c1, c2))


def rotation(q):
    a = np.empty((3, 3), dtype=object)
    a[...] = qmat([P(x) for x in q])
    return a


def quat_of(R):
    flat = tuple(P(R[i, j]) for i in range(3) for j in range(3))
    return [T.Poly.atom(T.Atom("qmat", "qmat", (flat, i)))
            for i in range(4)]


def relative(y):
    """Pose of the right in the left effector."""
    Rl, Rr = rotation(y[3:7]), rotation(y[10:14])
    return (spec.dot(Rl.T, y[7:10] - y[:3]), spec.dot(Rl.T, Rr))


def pose_coupling(y, v, dpos, drot, lf, k, c1, c2, position=True,
                  orientation=True):
    Rl = rotation(y[3:7])
    p, R = relative(y)
    error = np.concatenate([
        spec.dot(Rl, dpos - p),
        spec.dot(Rl, spec.vec(T.qlog_(T.qmul_(
            quat_of(drot), T.qconj_(quat_of(R))))))])
    damping = 2 * T.sqrt_(k * c2)
    cd, cdd = [], []
    for arm, sign in ((0, -1), (1, 1)):
        f = sign * k * error
        on = np.concatenate([spec.vec([int(position)] * 3),
                             spec.vec([int(orientation)] * 3)])
        cd.append(lf[arm] * c1 * f * on)
        cdd.append(lf[arm] * (c2 * f - damping * v[6 * arm:6 * arm + 6])
                   * on)
    return np.concatenate(cd), np.concatenate(cdd)


# -- analysed terms ------------------------------------------------------------------
POS = ("CouplingTermPos1DToPos1D", "CouplingTermPos3DToPos3D",
       "CouplingTermDualCartesianDistance")
POSE = "CouplingTermDualCartesianPose"
TRAJ = "CouplingTermDualCartesianTrajectory"
N = {POS[0]: 2, POS[1]: 6, POS[2]: 14}


def distance(kind):
    return {POS[0]: T.sym("d"), POS[1]: sy("d", 3),
            POS[2]: T.sym("dist", "+")}[kind]


def state(kind):
    if kind in POS[:2]:
        return sy("y", N[kind]), sy("v", N[kind])
    return kit.dual_pose("y"), sy("v", 12)


def transform(R, p):
    a = spec.zeros(4, 4)
    a[:3, :3] = R
    a[:3, 3] = p
    a[3, 3] = T.ONE
    return arr(a)


def make(c, kind, ext=True, **kw):
    ip = c.interp(ext)
    return ip, new(ip, c.anchor(ip, DMP, kind), **kw)


def same2(c, got, want, what):
    for g, w, nm in zip(got, want, ("velocity", "acceleration")):
        c.same(g, w, "%s coupling %s" % (nm, what))


# -- C01 -----------------------------------------------------------------------------
def c01(c):
    for kind in POS:
        for given in (True, False):
            c.obligation("%s spring gains=%s" % (kind, given), spring, c,
                         kind, given)
        for lf in ((0, 1), (1, 0), (1, 1), (0, 0)):
            c.obligation("%s leader %s" % (kind, lf), leader, c, kind, lf)
        c.obligation("%s at rest in the desired distance" % kind, at_rest, c,
                     kind)
    c.obligation("%s with distance of any sign" % POS[2], any_distance, c)
    for pos in (True, False):
        for ori in (True, False):
            for lf in ((0, 1), (1, 0), (1, 1), None):
                c.obligation("%s position=%s orientation=%s leader=%s" % (
                    POSE, pos, ori, lf), pose_term, c, pos, ori, lf)
    c.obligation("%s default arguments" % POSE, pose_defaults, c)
    c.obligation("%s depends on own parts" % POSE, pose_parts, c)
    for n in (1, 2, 4):
        c.obligation("%s call %d" % (TRAJ, n), trajectory, c, n)
    for n in (1, 2, 3, 5):
        c.obligation("%s call %d of a long demonstration" % (TRAJ, n),
                     trajectory, c, n, True, False, F(3, 4), 3)
    for n in (1, 2):
        for part in ((True, True), (False, True)):
            c.obligation("%s offset of poses, call %d, position=%s" % (
                TRAJ, n, part[0]), trajectory, c, n, *part, full=True)
    for part in ((True, False), (False, True)):
        c.obligation("%s position=%s orientation=%s" % ((TRAJ,) + part),
                     trajectory, c, 1, *part)
    c.obligation("%s imitates again" % TRAJ, trajectory_again, c)
    c.obligation("DMP with leader", dmp_leader, c)
    c.obligation("DualCartesianDMP with leader", dual_leader, c)


def spring(c, kind, given):
    kw = dict(k=K, c1=C1, c2=C2) if given else {}
    d = distance(kind)
    ip, o = make(c, kind, desired_distance=d, lf=L, **kw)
    y, v = state(kind)
    k, c1, c2 = (K, C1, C2) if given else (
        P(1), P(100 if kind == POS[0] else 1), P(30))
    want = pos_coupling(kind, y.a, d.a if isinstance(d, Arr) else d, L, k,
                        c1, c2)
    same2(c, meth(ip, o, "coupling", cp(y), cp(v)), want, "")
    if kind == POS[2]:
        return
    same2(c, meth(ip, o, "coupling", cp(y)), want, "without velocity")


def any_distance(c):
    d = T.sym("distance")
    ip, o = make(c, POS[2], desired_distance=d, lf=L, k=K, c1=C1, c2=C2)
    y, v = state(POS[2])
    same2(c, meth(ip, o, "coupling", cp(y), cp(v)),
          pos_coupling(POS[2], y.a, d, L, K, C1, C2), "")


def leader(c, kind, lf):
    """Leaders are not moved; two followers move against each other."""
    ip, o = make(c, kind, desired_distance=distance(kind), lf=lf, k=K, c1=C1,
                 c2=C2)
    y, v = state(kind)
    out = meth(ip, o, "coupling", cp(y), cp(v))
    for x, nm in zip(out, ("velocity", "acceleration")):
        n = len(x.a) // 2
        for arm in (0, 1):
            if not lf[arm]:
                c.same(arr(x.a[arm * n:arm * n + n]), spec.zeros(n),
                       "%s coupling of a leader" % nm)
        if lf == (1, 1):
            c.same(arr(x.a[:n]), -x.a[n:], "%s coupling of the first "
                   "(required: opposite to the second)" % nm)


def at_rest(c, kind):
    y, v = state(kind)
    d = distance(kind)
    if kind == POS[0]:
        y.a[1] = y.a[0] + d
    elif kind == POS[1]:
        y.a[3:6] = y.a[:3] + d.a
    else:
        # any direction
        e = T.unit_quaternion("e")
        R = rotation(e)
        y.a[7:10] = y.a[:3] + d * R[:, 0]
    ip, o = make(c, kind, desired_distance=d, lf=L, k=K, c1=C1, c2=C2)
    out = meth(ip, o, "coupling", y, v)
    for x, nm in zip(out, ("velocity", "acceleration")):
        c.same(x, spec.zeros(len(x.a)), "%s coupling in the desired distance"
               % nm)


def desired():
    R = rotation(T.unit_quaternion("d"))
    return R, sy("dp", 3).a


def pose_term(c, pos, ori, lf):
    R, p = desired()
    lf = L if lf is None else lf
    ip, o = make(c, POSE, desired_distance=transform(R, p), lf=lf,
                 couple_position=pos, couple_orientation=ori, k=K, c1=C1,
                 c2=C2)
    y, v = state(POSE)
    same2(c, meth(ip, o, "coupling", cp(y), cp(v)), pose_coupling(
        y.a, v.a, p, R, tuple(map(P, lf)), K, C1, C2, pos, ori), "of poses")


def pose_defaults(c):
    R, p = desired()
    ip, o = make(c, POSE, desired_distance=transform(R, p), lf=L)
    y, v = state(POSE)
    same2(c, meth(ip, o, "coupling", cp(y), cp(v)), pose_coupling(
        y.a, v.a, p, R, L, P(1), P(1), P(30)), "of poses")


def pose_parts(c):
    """Without velocity and error nothing moves."""
    y, v = state(POSE)
    p, R = relative(y.a)
    ip, o = make(c, POSE, desired_distance=transform(R, p), lf=L, k=K, c1=C1,
                 c2=C2)
    out = meth(ip, o, "coupling", cp(y), arr(spec.zeros(12)))
    for x, nm in zip(out, ("velocity", "acceleration")):
        c.same(x, spec.zeros(12), "%s coupling in the desired pose" % nm)


def demonstration(n, name="demo"):
    a = np.empty((n, 14), dtype=object)
    for i in range(n):
        a[i] = kit.dual_pose("%s%d" % (name, i)).a
    return Arr(a, "f")


def desired_at(Y, times, t, offset):
    """Interpolated relative pose with offset."""
    rows = []
    for i in range(len(Y)):
        p, R = relative(Y[i])
        rows.append(np.concatenate([p, spec.vec(quat_of(R))]))
    i = 0
    while i < len(times) - 2 and t > times[i + 1]:
        i += 1
    u = (t - times[i]) / (times[i + 1] - times[i])
    x = (1 - u) * rows[i] + u * rows[i + 1] + offset
    q = x[3:]
    n = T.power(spec.dot(q, q), F(-1, 2))
    return rotation([e * n for e in q]), x[:3]


def trajectory(c, n, pos=True, ori=True, dt=F(1, 4), duration=1, full=False):
    times = [duration * t for t in (F(0), F(1, 2), F(1))]
    off = arr(spec.zeros(7))
    off.a[:3] = sy("off", 3).a
    if full:
        off.a[3:] = sy("turn", 4).a
    ip, o = make(c, TRAJ, offset=cp(off), lf=L, dt=dt, k=K, c1=C1, c2=C2,
                 couple_position=pos, couple_orientation=ori, verbose=0)
    Y = demonstration(3)
    meth(ip, o, "imitate", arr(spec.vec(times)), cp(Y))
    for _ in range(n):
        y, v = state(TRAJ)
        got = meth(ip, o, "coupling", y, v)
    R, p = desired_at(Y.a, times, dt * (n - 1), off.a)
    y, v = state(TRAJ)
    same2(c, got, pose_coupling(y.a, v.a, p, R, L, K, C1, C2, pos, ori),
          "of trajectories in call %d" % n)


def trajectory_again(c):
    """Imitation begins a new trajectory at time zero."""
    out = []
    for used in (False, True):
        ip, o = make(c, TRAJ, offset=arr(spec.zeros(7)), lf=L, dt=F(1, 4),
                     verbose=0, couple_orientation=False)
        if used:
            meth(ip, o, "imitate", arr(spec.vec([0, F(1, 3)])),
                 demonstration(2, "old"))
            y, v = state(TRAJ)
            meth(ip, o, "coupling", y, v)
        meth(ip, o, "imitate", arr(spec.vec([0, F(1, 2)])), demonstration(2))
        y, v = state(TRAJ)
        out.append(meth(ip, o, "coupling", y, v))
    same2(c, out[1], out[0], "after a second imitation")


def dmp_leader(c):
    """The leader moves as without coupling."""
    for method in ("rk4", "euler"):
        runs = []
        for coupled in (False, True):
            S = concrete(c, "DMP", True, full=1)
            ct = None
            if coupled:
                ct = new(S.ip, c.anchor(S.ip, DMP, POS[0]),
                         desired_distance=T.sym("d"), lf=(0, 1), k=K)
            runs.append(S.step(cp(S.s), cp(S.sd), step_function=method,
                               coupling_term=ct))
        for j, nm in ((0, "position"), (1, "velocity")):
            c.same(runs[1][j].a[0], runs[0][j].a[0],
                   "%s of the leader" % nm)
            c.require(not T.is_zero(runs[1][j].a[1] - runs[0][j].a[1]),
                      "the follower is not coupled")


def dual_leader(c):
    runs = []
    for coupled in (False, True):
        S = concrete(c, "DualCartesianDMP", True, full=1)
        ct = None
        if coupled:
            ct = new(S.ip, c.anchor(S.ip, DMP, POS[2]),
                     desired_distance=T.sym("dist", "+"), lf=(1, 0), k=K)
        runs.append(S.step(cp(S.s), cp(S.sd), coupling_term=ct))
    c.same(arr(runs[1][0].a[7:]), runs[0][0].a[7:], "pose of the leader")
    c.same(arr(runs[1][1].a[6:]), runs[0][1].a[6:], "velocity of the leader")
    c.require(not T.is_zero(runs[1][0].a[0] - runs[0][0].a[0]),
              "the follower is not coupled")


# -- C02 -----------------------------------------------------------------------------
def c02(c):
    for fast in (False, True):
        for ext in (True, False):
            c.obligation("CouplingTermObstacleAvoidance2D fast=%s compiled=%s"
                         % (fast, ext), avoidance_term, c, 2, ext,
                         dict(fast=fast))
    c.obligation("CouplingTermObstacleAvoidance3D", avoidance_term, c, 3,
                 True, {})
    for n in (2, 3):
        for given in (True, False):
            c.obligation("function %dD gains=%s" % (n, given), avoidance, c,
                         DMP, n, given)
        c.obligation("perpendicular %dD" % n, perpendicular, c, n)
        c.obligation("linear in gamma %dD" % n, linear, c, n)
        c.obligation("away from the obstacle %dD" % n, away, c, n)
    c.obligation("compiled function 2D", avoidance, c, kit.FAST, 2, True)
    for shape in ((3,), (2, 2), (1,), (2,), (7,), (1, 1), (1, 3), (3, 1),
                  (2, 3), (3, 2)):
        c.obligation("many states %s" % (shape,), batch, c, shape)
    c.obligation("2D is the planar case of 3D", planar, c)
    c.obligation("no velocity", no_velocity, c)


def call2(c, module, n, y, v, o, **kw):
    ip = c.interp()
    f = c.anchor(ip, module, "obstacle_avoidance_acceleration_%dd" % n)
    return ip.call(f, [arr(y), arr(v), arr(o)], kw)


def avoidance_term(c, n, ext, kw):
    for given in ((GAMMA, BETA), (P(0), BETA), (GAMMA, P(0)), None):
        g = dict(gamma=given[0], beta=given[1]) if given else {}
        ip, o = make(c, "CouplingTermObstacleAvoidance%dD" % n, ext,
                     obstacle_position=sy("o", n), **g, **kw)
        y, v = sy("y", n), sy("v", n)
        out = meth(ip, o, "coupling", cp(y), cp(v))
        want = obstacle(y.a, v.a, sy("o", n).a,
                        *(given or DEFAULT))
        same2(c, out, (spec.zeros(n), want), "of obstacle avoidance")


DEFAULT = (P(1000), P(20) / T.PI)


def avoidance(c, module, n, given):
    y, v, o = sy("y", n).a, sy("v", n).a, sy("o", n).a
    kw = dict(gamma=GAMMA, beta=BETA) if given else {}
    c.same(call2(c, module, n, y, v, o, **kw), obstacle(
        y, v, o, *((GAMMA, BETA) if given else DEFAULT)), "acceleration")


def perpendicular(c, n):
    y, v, o = sy("y", n).a, sy("v", n).a, sy("o", n).a
    a = call2(c, DMP, n, y, v, o, gamma=GAMMA, beta=BETA).a
    c.same(spec.dot(a, v), P(0), "component of the acceleration along the "
           "velocity")


def linear(c, n):
    y, v, o = sy("y", n).a, sy("v", n).a, sy("o", n).a
    f = T.sym("f", "+")
    a = call2(c, DMP, n, y, v, o, gamma=GAMMA, beta=BETA)
    b = call2(c, DMP, n, y, v, o, gamma=f * GAMMA, beta=BETA)
    c.same(b, f * a.a, "acceleration with larger gamma")


def away(c, n):
    """The acceleration does not point towards the obstacle."""
    y, v, o = sy("y", n).a, sy("v", n).a, sy("o", n).a
    a = call2(c, DMP, n, y, v, o, gamma=GAMMA, beta=BETA).a
    d = o - y
    want = obstacle(y, v, o, GAMMA, BETA)
    c.same(spec.dot(a, d), spec.dot(want, d), "component of the acceleration "
           "towards the obstacle")


def batch(c, shape):
    full = shape + (2,)
    Y, V = sy("y", full).a, sy("v", full).a
    o = sy("o", 2).a
    A = call2(c, DMP, 2, Y, V, o, gamma=GAMMA, beta=BETA)
    c.require(A.a.shape == full, "accelerations of many states have shape %s"
              % (A.a.shape,))
    for i in np.ndindex(*shape):
        c.same(arr(A.a[i]), obstacle(Y[i], V[i], o, GAMMA, BETA),
               "acceleration of state %s" % (i,))


def planar(c):
    z = [T.ZERO]
    y, v, o = sy("y", 2).a, sy("v", 2).a, sy("o", 2).a
    a2 = call2(c, DMP, 2, y, v, o, gamma=GAMMA, beta=BETA).a
    a3 = call2(c, DMP, 3, *(np.concatenate([x, z]) for x in (y, v, o)),
               gamma=GAMMA, beta=BETA).a
    c.same(arr(a3[:2]), a2, "acceleration in the plane")
    c.same(a3[2], P(0), "acceleration out of the plane")


def no_velocity(c):
    for n in (2, 3):
        a = call2(c, DMP, n, sy("y", n).a, spec.zeros(n), sy("o", n).a,
                  gamma=GAMMA, beta=BETA)
        c.same(a, spec.zeros(n), "acceleration without velocity")


# -- P01 -----------------------------------------------------------------------------
def p01(c):
    for smooth in (False, True):
        for obst in (False, True):
            for ticks in (2, 3):
                c.obligation("smooth=%s obstacle=%s ticks=%d" % (
                    smooth, obst, ticks), field, c, smooth, obst, ticks)
        c.obligation("larger field smooth=%s" % smooth, field, c, smooth,
                     True, 6)
        for steps in (3, 5):
            for obst in (False, True):
                c.obligation("after %d steps smooth=%s obstacle=%s" % (
                    steps, smooth, obst), field, c, smooth, obst, 2, steps)
    c.obligation("field moves with the goal", field_goal, c)


def field(c, smooth, obst, ticks, steps=1):
    S = Setup(c, "DMP", n=2, k=3, full=1, rest=0, smooth=smooth, last_t=0,
              h=DT, tau=F(3, 10), warm=False)
    S.configure(goal_yd=arr(spec.zeros(2)), goal_ydd=arr(spec.zeros(2)))
    for _ in range(steps):
        S.step(S.state("a"), S.vel("b"))
    S.arbitrary_state(v=S.vel("v"))
    ip, o = S.ip, S.obj
    f = c.anchor(ip, FIELD, "potential_field_2d")
    xr, yr = sy("xr", 2), sy("yr", 2)
    ob = sy("o", 2)
    args = [o, cp(xr), cp(yr), ticks] + ([cp(ob)] if obst else [])
    # other fields with the same first and last corner and the same velocity
    ip.call(f, [o, arr([xr.a[0], xr.a[1] + 1]), arr([yr.a[0], yr.a[1] + 2]),
                ticks] + ([sy("p", 2)] if obst else []), {})
    ip.call(f, [o, arr([xr.a[0] - 1, xr.a[1]]), arr([yr.a[0] - 2, yr.a[1]]),
                ticks], {})
    xx, yy, ft, ts, ct, acc = ip.call(f, args, {})
    v = ip.getattr(o, "current_yd").a
    t = P(get(ip, o, "t"))
    z = spec.phase(t, S.tau)
    force = spec.forcing(z, S.W.a if hasattr(S.W, "a") else S.W) \
        / P(S.tau) ** 2
    for i in range(ticks):
        for j in range(ticks):
            x = spec.vec([
                xr.a[0] + (xr.a[1] - xr.a[0]) * F(j, ticks - 1),
                yr.a[0] + (yr.a[1] - yr.a[0]) * F(i, ticks - 1)])
            c.same(xx.a[i, j], x[0], "x of grid point %d, %d" % (i, j))
            c.same(yy.a[i, j], x[1], "y of grid point %d, %d" % (i, j))
            spring = spec.acc(x, v, S.s.a, S.alpha.a, S.beta.a, S.g.a, z,
                              S.tau, 0, 0, smooth)
            avoid = spec.zeros(2)
            if obst:
                avoid = obstacle(x, v, ob.a, *DEFAULT) / P(S.tau) ** 2
            for got, want, nm in (
                    (ft, force, "forcing term"), (ts, spring, "attractor"),
                    (ct, avoid, "obstacle avoidance"),
                    (acc, force + spring + avoid, "sum")):
                c.same(arr(got.a[i, j]), want, "%s at grid point %d, %d" % (
                    nm, i, j))


def p02(c):
    for obst in (False, True):
        for factor in (None, F(2), T.sym("factor", "+")):
            c.obligation("obstacle=%s factor=%s" % (obst, factor), field_plot,
                         c, obst, factor)


COLORS = {"g": "attractor", "r": "forcing term", "y": "obstacle avoidance",
          "k": "sum"}


def field_plot(c, obst, factor):
    S = Setup(c, "DMP", n=2, k=3, full=1, rest=0, smooth=False, last_t=0,
              h=DT, tau=F(3, 10), warm=False)
    S.step(S.state("a"), S.vel("b"))
    S.arbitrary_state(v=S.vel("v"))
    ip, o = S.ip, S.obj
    args = [o, sy("xr", 2), sy("yr", 2), 2] + ([sy("o", 2)] if obst else [])
    xx, yy, ft, ts, ct, acc = [cp(x) for x in ip.call(
        c.anchor(ip, FIELD, "potential_field_2d"), [
            cp(a) if isinstance(a, Arr) else a for a in args], {})]
    calls = []
    ax = Obj(Cls("Axes", [], {}, None))
    for name in ("quiver", "set_xlim", "set_ylim", "set", "grid"):
        ax.d[name] = Native(lambda ip, a, k, n=name: calls.append(
            (n, list(a), dict(k), ip.where())), name)
    kw = {} if factor is None else dict(exaggerate_arrows=factor)
    ip.call(c.anchor(ip, FIELD, "plot_potential_field_2d"), [ax] + args, kw)
    f = P(25 if factor is None else factor)
    found = {}
    for n, a, k, where in calls:
        if n != "quiver":
            continue
        if len(a) != 4 or not isinstance(k.get("color"), str):
            raise Undecided("arguments of quiver")
        color = {"green": "g", "red": "r", "yellow": "y", "black": "k"}.get(
            k["color"], k["color"])
        c.require(color in COLORS and color not in found,
                  "arrows with color %r" % color, where)
        found[color] = a, k, where
    c.require(len(found) == 4, "%d of 4 fields of arrows" % len(found))
    for color, want in (("g", ts), ("r", ft), ("y", ct), ("k", acc)):
        a, k, where = found[color]
        a = [as_arr(ip, x) for x in a]
        what = "%%s of the arrows of the %s" % COLORS[color]
        for got, w, nm in ((a[0], xx.a, "x"), (a[1], yy.a, "y"),
                           (a[2], want.a[:, :, 0] * f, "x component"),
                           (a[3], want.a[:, :, 1] * f, "y component")):
            c.same(arr(got.a.reshape(-1)), w.reshape(-1), what % nm, where)
        s0, s1 = k.get("scale"), found["k"][1].get("scale")
        c.require((s0 is None) == (s1 is None), "scales differ", where)
        if s0 is not None:
            c.same(P(s0), P(s1), what % "scale", where)


def field_goal(c):
    """At the goal without velocity and weights the field vanishes."""
    S = Setup(c, "DMP", n=2, k=3, full=1, rest=0, last_t=0, h=DT,
              tau=F(3, 10), warm=False)
    S.configure(goal_yd=arr(spec.zeros(2)), goal_ydd=arr(spec.zeros(2)))
    S.step(S.state("a"), S.vel("b"))
    meth(S.ip, S.obj, "set_weights", arr(spec.zeros(6)))
    S.ip.setattr(S.obj, "current_yd", arr(spec.zeros(2)))
    f = c.anchor(S.ip, FIELD, "potential_field_2d")
    g = S.g.a
    out = S.ip.call(f, [S.obj, arr([g[0], g[0] + 1]), arr([g[1], g[1] + 1]),
                        2], {})
    for x in out[2:]:
        c.same(arr(x.a[0, 0]), spec.zeros(2), "field at the goal")
