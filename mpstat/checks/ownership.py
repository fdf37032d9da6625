"""Who may see changes of which array."""
from fractions import Fraction

import numpy as np

from .. import spec, kit
from .. import terms as T
from ..kit import Setup, arr, cp, sy, uq, meth, get, new, DMP, SD
from ..terms import P
from ..values import Arr, Obj, Undecided, symarr, fromlist
from . import imitation
from .execution import MJ, KINDS, concrete, DT

F = Fraction
PROMP = "movement_primitives.promp"
DATA = "movement_primitives.data"
FIELD = "movement_primitives.dmp_potential_field"

ORIENTED = ("CartesianDMP", "DualCartesianDMP", "SpringDamperOrientation")


def variants(kind):
    return {"DMP": [("euler", True), ("euler-cython", True), ("rk4", True),
                    ("rk4-cython", True)],
            "CartesianDMP": [("", True), ("", False)],
            "DualCartesianDMP": [("", True), ("", False)]}.get(
                kind, [("", True)])


def probe_movement(S, skw=None, okw=None, learn=False):
    """Observable behaviour of a movement."""
    skw, okw = skw or {}, okw or {}

    def probe():
        out = []
        ip, o = S.ip, S.obj
        for nm in ("start_y", "goal_y", "start_yd", "goal_yd", "start_ydd",
                   "goal_ydd", "t"):
            x = ip.getattr(o, nm)
            out.append((nm, cp(x) if isinstance(x, Arr) else x))
        if hasattr(S, "W"):
            out.append(("weights", cp(meth(ip, o, "get_weights"))))
        y, v = S.step(S.state("py"), S.vel("pv"), **skw)
        out += [("position of a later step", cp(y)),
                ("velocity of a later step", cp(v))]
        t, Y = meth(ip, o, "open_loop", run_t=DT, **okw)
        out.append(("later open loop execution", cp(Y)))
        return out
    return probe


# Scenarios are generators: inputs, outputs, probe.
def s_step(kind, method, ext, before=0, coup=False, **setup):
    def run(c):
        S = concrete(c, kind, ext, **setup)
        kw = {"step_function": method} if method else {}
        probe = probe_movement(S, kw, kw)
        ins, outs = {}, {}
        nv = 3 if kind == "CartesianDMP" else S.nv
        for i in range(before + 1):
            ins["last position %d" % i] = S.state("y%d" % i)
            ins["last velocity %d" % i] = S.vel("v%d" % i)
        yield ins
        for i in range(before + 1):
            k = dict(kw)
            if coup:
                k["coupling_term"] = kit.coupling_object(S.ip, "c", nv)
            r = S.step(ins["last position %d" % i],
                       ins["last velocity %d" % i], **k)
            outs["position %d" % i] = r[0]
            outs["velocity %d" % i] = r[1]
        yield outs
        yield probe
    return run


def s_open_loop(kind, method, ext):
    def run(c):
        S = concrete(c, kind, ext)
        kw = {"step_function": method} if method else {}
        yield {}
        r = meth(S.ip, S.obj, "open_loop", run_t=2 * DT, **kw)
        yield {"times": r[0], "trajectory": r[1]}
        yield probe_movement(S, kw, kw)
    return run


def s_configure(kind):
    def run(c):
        S = concrete(c, kind, True)
        a = dict(start_y=S.state("s2"), goal_y=S.state("g2"),
                 start_yd=S.vel("sd2"), goal_yd=S.vel("gd2"),
                 start_ydd=S.vel("sdd2"), goal_ydd=S.vel("gdd2"))
        yield a
        meth(S.ip, S.obj, "configure", **a)
        yield {}
        yield probe_movement(S)
    return run


def s_weights(kind):
    def run(c):
        S = concrete(c, kind, True)
        w = sy("w2", S.W.a.size)
        yield {"weights": w}
        meth(S.ip, S.obj, "set_weights", w)
        yield {"returned weights": meth(S.ip, S.obj, "get_weights")}
        yield probe_movement(S)
    return run


def s_constructor(kind):
    def run(c):
        S = concrete(c, kind, True)
        a = dict(alpha_y=sy("alpha2", S.nv, "+"), beta_y=sy("beta2", S.nv,
                                                            "+"))
        yield a
        kw = {"n_dims": S.n} if kind not in ("CartesianDMP",
                                             "DualCartesianDMP") else {}
        kw["n_viapoints" if kind == "StateFollowingDMP"
           else "n_weights_per_dim"] = 3
        S.obj = new(S.ip, S.obj.cls, execution_time=F(3, 10), dt=DT,
                    int_dt=DT, **kw, **a)
        S.configure()
        if hasattr(S, "W"):
            meth(S.ip, S.obj, "set_weights", arr(S.W.a.reshape(-1).copy()))
        yield {}
        yield probe_movement(S)
    return run


def s_imitate(kind):
    def run(c):
        S = concrete(c, kind, True)
        a = dict(T=imitation.times(imitation.UNEVEN),
                 Y=imitation.demo(kind, 5))
        yield a
        meth(S.ip, S.obj, "imitate", a["T"], a["Y"],
             regularization_coefficient=imitation.LAM)
        yield {"weights": meth(S.ip, S.obj, "get_weights")}

        def probe():
            o = S.obj
            return [("weights", cp(meth(S.ip, o, "get_weights")))] + [
                (nm, cp(get(S.ip, o, nm))) for nm in (
                    "start_y", "goal_y", "goal_yd", "goal_ydd", "start_yd",
                    "start_ydd")]
        yield probe
    return run


# -- minimum jerk --------------------------------------------------------------
def s_min_jerk(c):
    ip = c.interp()
    f = c.anchor(ip, DATA, "generate_minimum_jerk")
    a = dict(start=sy("s", 2), goal=sy("g", 2))
    yield a
    r = ip.call(f, [a["start"], a["goal"], P(1), P(F(1, 4))], {})
    yield dict(positions=r[0], velocities=r[1], accelerations=r[2])

    def probe():
        r = ip.call(f, [sy("s", 2), sy("g", 2), P(1), P(F(1, 4))], {})
        return [("later trajectory", r[0])]
    yield probe


def s_min_jerk_step(c):
    ip = c.interp()
    o = new(ip, c.anchor(ip, MJ, "MinimumJerkTrajectory"), n_dims=2,
            execution_time=1, dt=F(1, 4))
    a = dict(start_y=sy("s", 2), goal_y=sy("g", 2), last_y=sy("y", 2),
             last_yd=sy("v", 2))
    yield a
    meth(ip, o, "configure", start_y=a["start_y"], goal_y=a["goal_y"])
    meth(ip, o, "step", a["last_y"], a["last_yd"])
    r = meth(ip, o, "step", a["last_y"], a["last_yd"])
    yield dict(position=r[0], velocity=r[1])

    def probe():
        out = []
        for _ in range(2):
            y, v = meth(ip, o, "step", sy("y", 2), sy("v", 2))
            out += [("position of a later step", cp(y)),
                    ("velocity of a later step", cp(v))]
        meth(ip, o, "reset")
        y, v = meth(ip, o, "step", sy("y", 2), sy("v", 2))
        y, v = meth(ip, o, "step", sy("y", 2), sy("v", 2))
        out += [("position after reset", cp(y)),
                ("velocity after reset", cp(v))]
        return out
    yield probe


# -- probabilistic movement primitives --------------------------------------------
def promp(c, n=2, k=2):
    ip = c.interp()
    o = new(ip, c.anchor(ip, PROMP, "ProMP"), n_dims=n, n_weights_per_dim=k)
    m = n * k
    C = np.empty((m, m), dtype=object)
    for i in range(m):
        for j in range(m):
            C[i, j] = T.sym("C[%d,%d]" % (min(i, j), max(i, j)))
    mean, cov = sy("mu", m), Arr(C, "f")
    return ip, o, mean, cov


def ptimes(m=3, end=F(3, 2)):
    return arr(spec.vec([P(F(i, m - 1) * end) for i in range(m)]))


def probe_promp(ip, o):
    def probe():
        Ts = ptimes()
        return [("mean", cp(meth(ip, o, "mean_trajectory", Ts))),
                ("covariance", cp(meth(ip, o, "cov_trajectory", Ts))),
                ("mean velocities", cp(meth(ip, o, "mean_velocities", Ts)))]
    return probe


def s_promp(method, has_T=True, extra=None):
    def run(c):
        ip, o, mean, cov = promp(c)
        meth(ip, o, "from_weight_distribution", cp(mean), cp(cov))
        a = {}
        args = []
        if has_T:
            a["T"] = ptimes()
            args.append(a["T"])
        if extra:
            a.update(extra())
            args += [x for k, x in a.items() if k != "T"]
        yield a
        kw = {}
        if method == "sample_trajectories":
            args += [2, rng(ip)]
        again = [arr(x.a * 2) if isinstance(x, Arr) else x for x in args]
        if method == "condition_position":
            kw = dict(t=F(1, 3))
        if method == "imitate":
            r = meth(ip, o, method, [a["T"], a["T2"]], [a["Y"], a["Y2"]],
                     n_iter=1)
        else:
            r = meth(ip, o, method, *args, **kw)
        yield {"result": r} if isinstance(r, Arr) else {}
        probes = [o] + ([r] if isinstance(r, Obj) else [])

        def probe():
            out = [x for q in probes for x in probe_promp(ip, q)()]
            if isinstance(r, Arr):
                out.append(("later result",
                            cp(meth(ip, o, method, *again, **kw))))
            return out
        yield probe
    return run


def rng(ip):
    from ..npmodel import Rng
    return Rng(ip, "state")


def s_distribution(c):
    ip, o, mean, cov = promp(c)
    a = dict(mean=mean, cov=cov)
    yield a
    meth(ip, o, "from_weight_distribution", mean, cov)
    yield {}
    yield probe_promp(ip, o)


def s_via_points(c):
    ip, o, mean, cov = promp(c)
    meth(ip, o, "from_weight_distribution", mean, cov)
    f = c.anchor(ip, PROMP, "via_points")
    a = dict(ts=ptimes(2, F(3, 4)), y_cond=sy("y", (2, 2)),
             y_conditional_cov=sy("V", (2, 2), "+"))
    yield a
    r = ip.call(f, [o], a)
    yield {}
    p1, p2 = probe_promp(ip, o), probe_promp(ip, r)
    yield lambda: p1() + p2()


def promp_scenarios():
    yield "ProMP.weights", s_promp("weights", extra=lambda: {
        "Y": sy("y", (3, 2))})
    yield "ProMP.trajectory_from_weights", s_promp(
        "trajectory_from_weights", extra=lambda: {"weights": sy("w", 4)})
    for m in ("mean_trajectory", "cov_trajectory", "var_trajectory",
              "mean_velocities", "cov_velocities", "var_velocities",
              "sample_trajectories"):
        yield "ProMP." + m, s_promp(m)
    yield "ProMP.condition_position", s_promp(
        "condition_position", has_T=False, extra=lambda: {
            "y_mean": sy("y", 2), "y_cov": sy("S", (2, 2))})
    yield "ProMP.imitate", s_promp("imitate", extra=lambda: {
        "T2": ptimes(), "Y": sy("y", (3, 2)), "Y2": sy("z", (3, 2))})
    yield "ProMP.from_weight_distribution", s_distribution
    yield "via_points", s_via_points


# -- functions -----------------------------------------------------------------------
def s_function(module, name, make, kw=None, ext=True):
    def run(c):
        ip = c.interp(ext)
        f = c.anchor(ip, module, name)
        a = make()
        yield a
        r = ip.call(f, list(a.values()), dict(kw or {}))
        if isinstance(r, tuple):
            out = {"result %d" % i: x for i, x in enumerate(r)
                   if isinstance(x, Arr)}
        else:
            out = {"result": r} if isinstance(r, Arr) else {}
        yield out

        def probe():
            r = ip.call(f, list(make().values()), dict(kw or {}))
            r = r if isinstance(r, tuple) else (r,)
            return [("later result %d" % i, x) for i, x in enumerate(r)
                    if isinstance(x, Arr)]
        yield probe
    return run


def s_coupling(name, kwargs, state):
    def run(c):
        ip = c.interp()
        o = new(ip, c.anchor(ip, DMP, name), **kwargs())
        a = state()
        yield a
        r = meth(ip, o, "coupling", *a.values())
        yield dict(velocity=r[0], acceleration=r[1])

        def probe():
            r = meth(ip, o, "coupling", *state().values())
            return [("later velocity", r[0]), ("later acceleration", r[1])]
        yield probe
    return run


def s_coupling_arguments(name, arrays, kwargs, state, demo=False):
    """Arrays passed to the constructor are arguments, too."""
    def run(c):
        ip = c.interp()
        a = arrays()
        o = new(ip, c.anchor(ip, DMP, name), **dict(kwargs(), **a))
        if demo:
            meth(ip, o, "imitate", arr(spec.vec([F(0), F(1)])), Arr(np.array(
                [kit.dual_pose("demo%d" % i).a for i in range(2)],
                dtype=object), "f"))
        a = dict(a, **state())
        yield a
        r = meth(ip, o, "coupling", a["y"], a["yd"])
        yield dict(velocity=r[0], acceleration=r[1])
        yield lambda: meth(ip, o, "coupling", *state().values())
    return run


def argument_scenarios():
    sd = lambda: dict(y=kit.dual_pose("y"), yd=sy("v", 12))
    for fast in (False, True):
        yield "arguments of CouplingTermObstacleAvoidance2D fast=%s" % fast, \
            s_coupling_arguments(
                "CouplingTermObstacleAvoidance2D",
                lambda: dict(obstacle_position=sy("o", 2)),
                lambda fast=fast: dict(fast=fast),
                lambda: dict(y=sy("y", 2), yd=sy("v", 2)))
    yield "arguments of CouplingTermObstacleAvoidance3D", \
        s_coupling_arguments(
            "CouplingTermObstacleAvoidance3D",
            lambda: dict(obstacle_position=sy("o", 3)), dict,
            lambda: dict(y=sy("y", 3), yd=sy("v", 3)))
    yield "arguments of CouplingTermPos1DToPos1D", s_coupling_arguments(
        "CouplingTermPos1DToPos1D", lambda: dict(lf=sy("l", 2)),
        lambda: dict(desired_distance=T.sym("d")),
        lambda: dict(y=sy("y", 2), yd=sy("v", 2)))
    yield "arguments of CouplingTermPos3DToPos3D", s_coupling_arguments(
        "CouplingTermPos3DToPos3D", lambda: dict(
            desired_distance=sy("d", 3), lf=sy("l", 2)), dict,
        lambda: dict(y=sy("y", 6), yd=sy("v", 6)))
    yield "arguments of CouplingTermDualCartesianDistance", \
        s_coupling_arguments(
            "CouplingTermDualCartesianDistance",
            lambda: dict(lf=sy("l", 2)),
            lambda: dict(desired_distance=T.sym("dist", "+")), sd)
    for both in (True, False):
        yield "arguments of CouplingTermDualCartesianPose %s" % both, \
            s_coupling_arguments(
                "CouplingTermDualCartesianPose", lambda: dict(
                    desired_distance=transform("d"), lf=sy("l", 2)),
                lambda both=both: dict(couple_orientation=both,
                                       couple_position=not both), sd)
    yield "arguments of CouplingTermDualCartesianTrajectory", \
        s_coupling_arguments(
            "CouplingTermDualCartesianTrajectory", lambda: dict(
                offset=sy("off", 7), lf=sy("l", 2)),
            lambda: dict(dt=F(1, 4), couple_orientation=False, verbose=0),
            sd, demo=True)


LF = lambda: (T.sym("l0"), T.sym("l1"))


def transform(name):
    """Homogeneous matrix of an arbitrary pose."""
    from ..npmodel import MODELS
    q = T.unit_quaternion(name + "_q")
    w, x, y, z = q
    a = np.empty((4, 4), dtype=object)
    a[:3, :3] = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z),
                  2 * (x * z + w * y)],
                 [2 * (x * y + w * z), 1 - 2 * (x * x + z * z),
                  2 * (y * z - w * x)],
                 [2 * (x * z - w * y), 2 * (y * z + w * x),
                  1 - 2 * (x * x + y * y)]]
    a[:3, 3] = sy(name, 3).a
    a[3] = [T.ZERO, T.ZERO, T.ZERO, T.ONE]
    return Arr(a, "f")


def coupling_scenarios():
    s2 = lambda: dict(y=sy("y", 2), yd=sy("v", 2))
    s6 = lambda: dict(y=sy("y", 6), yd=sy("v", 6))
    sd = lambda: dict(y=kit.dual_pose("y"), yd=sy("v", 12))
    for fast in (False, True):
        yield ("CouplingTermObstacleAvoidance2D fast=%s" % fast, s_coupling(
            "CouplingTermObstacleAvoidance2D", lambda fast=fast: dict(
                obstacle_position=sy("o", 2), fast=fast), s2))
    yield "CouplingTermObstacleAvoidance3D", s_coupling(
        "CouplingTermObstacleAvoidance3D",
        lambda: dict(obstacle_position=sy("o", 3)),
        lambda: dict(y=sy("y", 3), yd=sy("v", 3)))
    yield "CouplingTermPos1DToPos1D", s_coupling(
        "CouplingTermPos1DToPos1D", lambda: dict(
            desired_distance=T.sym("d"), lf=LF()), s2)
    yield "CouplingTermPos3DToPos3D", s_coupling(
        "CouplingTermPos3DToPos3D", lambda: dict(
            desired_distance=sy("d", 3), lf=LF()), s6)
    yield "CouplingTermDualCartesianDistance", s_coupling(
        "CouplingTermDualCartesianDistance", lambda: dict(
            desired_distance=T.sym("dist", "+"), lf=LF()), sd)
    for cpos in (True, False):
        yield "CouplingTermDualCartesianPose %s" % cpos, s_coupling(
            "CouplingTermDualCartesianPose", lambda cpos=cpos: dict(
                desired_distance=transform("d"), lf=LF(),
                couple_position=cpos, couple_orientation=not cpos), sd)


def other_scenarios():
    s2 = lambda: dict(y=sy("y", 2), yd=sy("v", 2), obstacle=sy("o", 2))
    s3 = lambda: dict(y=sy("y", 3), yd=sy("v", 3), obstacle=sy("o", 3))
    yield "obstacle_avoidance_acceleration_2d", s_function(
        DMP, "obstacle_avoidance_acceleration_2d", s2)
    yield "obstacle_avoidance_acceleration_3d", s_function(
        DMP, "obstacle_avoidance_acceleration_3d", s3)
    yield "compiled obstacle_avoidance_acceleration_2d", s_function(
        kit.FAST, "obstacle_avoidance_acceleration_2d", s2,
        dict(gamma=T.sym("gamma", "+"), beta=T.sym("beta", "+")))
    yield "dmp_transformation_system", s_function(
        DMP, "dmp_transformation_system", lambda: dict(
            Y=sy("y", 2), V=sy("v", 2), alpha_y=sy("a", 2, "+"),
            beta_y=sy("b", 2, "+"), goal_y=sy("g", 2), goal_yd=sy("gd", 2),
            goal_ydd=sy("gdd", 2), start_y=sy("s", 2)),
        dict(z=T.sym("z", "+"), execution_time=kit.TAU, smooth_scaling=True))
    yield "generate_minimum_jerk", s_min_jerk
    yield "MinimumJerkTrajectory", s_min_jerk_step
    yield "ensure_1d_array", s_function(
        "movement_primitives.utils", "ensure_1d_array",
        lambda: dict(value=sy("x", 2)), dict(n_dims=2, var_name="x"))
    yield "potential_field_2d", s_field
    yield "ForcingTerm", s_forcing
    yield "phase", s_function(DMP, "phase", lambda: dict(t=sy("t", 3, "+")),
                              dict(alpha=T.sym("a", "+"),
                                   goal_t=T.sym("g", "+"), start_t=P(0)))


def s_field(c):
    S = Setup(c, "DMP", n=2, k=2, full=1, rest=0, last_t=0, h=DT,
              tau=F(3, 10), warm=False)
    S.configure()
    f = c.anchor(S.ip, FIELD, "potential_field_2d")
    a = dict(x_range=sy("x", 2), y_range=sy("y", 2), obstacle=sy("o", 2))
    yield a
    r = S.ip.call(f, [S.obj, a["x_range"], a["y_range"], 2, a["obstacle"]],
                  {})
    yield {"result %d" % i: x for i, x in enumerate(r)}
    yield probe_movement(S)


def s_forcing(c):
    ip = c.interp()
    o = new(ip, c.anchor(ip, "movement_primitives.dmp._forcing_term",
                         "ForcingTerm"), n_dims=2, n_weights_per_dim=3,
            goal_t=kit.TAU, start_t=0, overlap=F(4, 5),
            alpha_z=T.sym("az", "+"))
    a = dict(z=sy("z", 3, "+"), T=imitation.times([F(0), F(1, 3), F(1)], P(0),
                                                  kit.TAU))
    yield a
    r1 = meth(ip, o, "forcing_term", a["z"])
    r2 = meth(ip, o, "design_matrix", a["T"])
    r3 = meth(ip, o, "phase", a["T"])
    yield {"force": r1, "design matrix": r2, "phase": r3}

    def probe():
        return [("later force", meth(ip, o, "forcing_term",
                                     sy("z2", 2, "+"))),
                ("weights", cp(get(ip, o, "weights_")))]
    yield probe


def s_chain(method, make, kw=None):
    def run(c):
        from . import kinematics as kin
        ip, ch, robot, joints = kin.make(c, "planar")
        a = make(kin)
        yield a
        k = dict(kw or {})
        if "restarts" in method or method == "inverse_trajectory":
            kin.script(ip, [1])
            k["random_state"] = rng(ip)
        r = meth(ip, ch, method, **a, **k)
        yield {"result": r} if isinstance(r, Arr) else {}

        def probe():
            n = len(kin.minimisations(ip))
            kin.run_inverse(ip, ch, 2)
            e = kin.minimisations(ip)[n]
            return [("later pose", meth(ip, ch, "forward", sy("z", 2))),
                    ("joint limits", kin.bounds_of(ip, e))]
        yield probe
    return run


def s_trajectory_coupling(c):
    ip = c.interp()
    o = new(ip, c.anchor(ip, DMP, "CouplingTermDualCartesianTrajectory"),
            offset=arr(spec.zeros(7)), lf=LF(), dt=F(1, 4),
            couple_orientation=False, verbose=0)
    a = dict(T=arr(spec.vec([F(0), F(1)])), Y=Arr(np.array(
        [kit.dual_pose("demo%d" % i).a for i in range(2)], dtype=object),
        "f"))
    yield a
    meth(ip, o, "imitate", a["T"], a["Y"])
    yield {}

    def probe():
        r = meth(ip, o, "coupling", kit.dual_pose("y"), sy("v", 12))
        return [("later velocity", r[0]), ("later acceleration", r[1])]
    yield probe


def chain_scenarios():
    yield "Chain.forward", s_chain("forward", lambda k: dict(
        joint_angles=sy("q", 2)))
    yield "Chain.forward_trajectory", s_chain(
        "forward_trajectory", lambda k: dict(Q=sy("q", (2, 2))))
    yield "Chain.ee_pose_error", s_chain("ee_pose_error", lambda k: dict(
        joint_angles=sy("q", 2), desired_pose=arr(k.desired())))
    yield "Chain.inverse", s_chain("inverse", lambda k: dict(
        desired_pose=arr(k.desired()), initial_joint_angles=sy("q", 2),
        bounds=sy("b", (2, 2))))
    yield "Chain.inverse_with_random_restarts", s_chain(
        "inverse_with_random_restarts", lambda k: dict(
            desired_pose=arr(k.desired())), dict(n_restarts=2))
    yield "Chain.local_inverse_with_random_restarts", s_chain(
        "local_inverse_with_random_restarts", lambda k: dict(
            desired_pose=arr(k.desired()), joint_angles=sy("q", 2)),
        dict(n_restarts=2, interval=T.sym("interval", "+")))
    for r in (True, False):
        yield "Chain.inverse_trajectory restarts=%s" % r, s_chain(
            "inverse_trajectory", lambda k: dict(
                H=k.poses(2), initial_joint_angles=sy("q", 2)),
            dict(random_restarts=r))


def scenarios():
    for kind in KINDS:
        for m, ext in variants(kind):
            lab = "%s[%s]" % (kind, m or ("compiled" if ext else "python"))
            yield lab + ".step", s_step(kind, m, ext)
            kw = {}
            if kind in ("DMP", "CartesianDMP", "DualCartesianDMP"):
                kw["smooth"] = True
            if kind in ("DMP", "DMPWithFinalVelocity", "DualCartesianDMP"):
                kw["p"] = True
            yield lab + ".step twice", s_step(kind, m, ext, 1, True, **kw)
            yield lab + ".open_loop", s_open_loop(kind, m, ext)
        yield kind + ".configure", s_configure(kind)
        if kind in ("DMP", "DMPWithFinalVelocity", "CartesianDMP",
                    "DualCartesianDMP"):
            yield kind + ".set_weights", s_weights(kind)
            yield kind + ".imitate", s_imitate(kind)
        if not kind.startswith("Spring"):
            yield kind + "()", s_constructor(kind)
    yield from promp_scenarios()
    yield from coupling_scenarios()
    yield from other_scenarios()
    yield from chain_scenarios()
    yield "imitate of CouplingTermDualCartesianTrajectory", \
        s_trajectory_coupling


def junk(a, name):
    a.a[...] = symarr("junk_" + name, a.a.shape).a


# -- O01 ---------------------------------------------------------------------------
def o01(c):
    for name, run in scenarios():
        c.obligation(name, unmodified, c, run)
    for name, run in argument_scenarios():
        c.obligation(name, unmodified, c, run)


def unmodified(c, run):
    g = run(c)
    ins = next(g)
    before = {k: x.a.copy() for k, x in ins.items()}
    next(g)
    c.comparisons += 1
    for k, x in ins.items():
        c.same(x, before[k], "argument %s after the call" % k)
    probe = next(g)
    probe()
    for k, x in ins.items():
        c.same(x, before[k], "argument %s after later calls" % k)


# -- O02 ---------------------------------------------------------------------------
def o02(c):
    for name, run in scenarios():
        c.obligation(name, result_independent, c, run)


def collect(c, run, change_in=False, change_out=False):
    g = run(c)
    ins = next(g)
    outs = next(g)
    if change_in:
        for k, x in ins.items():
            junk(x, k)
    if change_out:
        for k, x in outs.items():
            junk(x, k)
    return ins, outs, next(g)


def compare_probes(c, got, want, what):
    c.require(len(got) == len(want), "different number of observations")
    for (k, x), (_, w) in zip(got, want):
        c.same(x, w, "%s after %s" % (k, what))


def result_independent(c, run):
    c.comparisons += 1
    _, outs, probe = collect(c, run)
    before = {k: x.a.copy() for k, x in outs.items()}
    want = probe()
    for k, x in outs.items():
        c.same(x, before[k], "returned %s after later calls" % k)
    if outs:
        _, outs, probe = collect(c, run, change_out=True)
        compare_probes(c, probe(), want, "the returned arrays were changed")


# -- O03 ---------------------------------------------------------------------------
def o03(c):
    for name, run in scenarios():
        if name.startswith("CouplingTerm"):
            continue
        c.obligation(name, inputs_not_kept, c, run)


def inputs_not_kept(c, run):
    c.comparisons += 1
    ins, outs, probe = collect(c, run)
    want_out = {k: x.a.copy() for k, x in outs.items()}
    want = probe()
    if not ins:
        return
    ins, outs, probe = collect(c, run, change_in=True)
    for k, x in outs.items():
        c.same(x, want_out[k], "returned %s after the arguments were "
               "changed" % k)
    compare_probes(c, probe(), want, "the arguments were changed")
