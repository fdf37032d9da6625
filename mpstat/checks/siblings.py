"""Python and compiled implementations of the same function."""
from fractions import Fraction

import numpy as np

from .. import spec, kit
from .. import terms as T
from ..kit import (TAU, H, arr, cp, sy, meth, new, coupling_object, DMP, FAST)
from ..terms import P
from ..values import Arr, Undecided, InterpRaise

HALF = Fraction(1, 2)
START = T.sym("start")


def python_function(c, ip, name):
    """The Python implementation of an integrator."""
    if name in ("quaternion",):
        return c.anchor(ip, DMP + "._cartesian_dmp",
                        "dmp_step_quaternion_python")
    if name == "dual":
        return c.anchor(ip, DMP + "._dual_cartesian_dmp",
                        "dmp_step_dual_cartesian_python")
    m = ip.load(DMP + "._dmp")
    table = m.ns.get("DMP_STEP_FUNCTIONS") if m else None
    if isinstance(table, dict) and name in table:
        return table[name]
    f = m.ns.get("dmp_step_" + name) if m else None
    if f is None:
        raise Undecided("no Python implementation of %s found" % name)
    return f


def compiled_function(c, ip, name):
    return c.anchor(ip, FAST, {
        "euler": "dmp_step", "rk4": "dmp_step_rk4",
        "quaternion": "dmp_step_quaternion",
        "dual": "dmp_step_dual_cartesian"}[name])


def call(c, name, fast, n=2, smooth=None, coup=None, track=False,
         full=1, rest=HALF, literal=False, before=False, at=None,
         p_gain=None, zero_error=False):
    """Values of all arrays after the call."""
    ip = c.interp()
    if fast:
        kit.recognise(c, ip)
    f = (compiled_function if fast else python_function)(c, ip, name)
    npos, nv = {"quaternion": (4, 3), "dual": (14, 12)}.get(name, (n, n))
    st = {"quaternion": kit.uq, "dual": kit.dual_pose}.get(
        name, lambda x: sy(x, n))
    if literal:
        last_t = START + Fraction(1, 10)
        t = last_t + Fraction(5, 2000)
    elif before:
        last_t = START - 3 * H
        t = last_t + H
    else:
        last_t = START + (T.sym("t0", "+") if at is None else at)
        t = last_t + H * full + H * rest
    a = dict(current_y=st("y"), current_yd=sy("v", nv), goal_y=st("g"),
             goal_yd=sy("gd", nv), goal_ydd=sy("gdd", nv), start_y=st("s"),
             start_yd=sy("sd", nv), start_ydd=sy("sdd", nv),
             alpha_y=sy("alpha", nv, "+"), beta_y=sy("beta", nv, "+"))
    args = {k: cp(v) for k, v in a.items()}
    pos = [P(last_t), P(t)] + [args[k] for k in (
        "current_y", "current_yd", "goal_y", "goal_yd", "goal_ydd",
        "start_y", "start_yd", "start_ydd")] + [
            START + TAU, START, args["alpha_y"], args["beta_y"],
            kit.FreeForcing(nv).obj]
    kw = {}
    if not literal:
        kw["int_dt"] = H
    if smooth is not None:
        kw["smooth_scaling"] = smooth
    log = []
    if coup == "term":
        kw["coupling_term"] = coupling_object(ip, "c", nv, log)
    elif coup == "precomputed":
        kw["coupling_term_precomputed"] = (sy("cd", nv), sy("cdd", nv))
    if track:
        kw["p_gain"] = T.sym("p", "+")
        te = sy("te", npos)
        if name == "dual":
            te = kit.dual_pose("te")
        kw["tracking_error"] = te
    if p_gain is not None:
        kw["p_gain"] = p_gain
        if zero_error:
            kw["tracking_error"] = arr(spec.zeros(npos))
    r = ip.call(f, pos, kw)
    return ip, r, args, a, log


def compare(c, name, **kw):
    ip1, r1, a1, orig, log1 = call(c, name, False, **kw)
    ip2, r2, a2, _, log2 = call(c, name, True, **kw)
    for k in ("current_yd", "current_y"):
        c.same(a2[k], a1[k], "%s of the compiled function (required: the one "
               "of the Python function)" % k)
    for k in orig:
        if k in ("current_y", "current_yd"):
            continue
        for a, what in ((a1, "Python"), (a2, "compiled")):
            c.same(a[k], orig[k], "argument %s after the %s function"
                   % (k, what))
    c.require((r1 is None) == (r2 is None), "one function returns a value, "
              "the other does not")
    c.require(len(log1) == len(log2),
              "number of evaluations of the coupling term: Python %d, "
              "compiled %d" % (len(log1), len(log2)))


def d02(c):
    c.obligation("phase", phase, c)
    c.obligation("obstacle avoidance 2D", obstacle, c)
    c.obligation("obstacle avoidance 2D term", obstacle_term, c)
    c.obligation("quaternion product and logarithm", quaternions, c)
    for name in ("euler", "rk4", "quaternion", "dual"):
        coups = (None, "term") if name == "dual" else \
            (None, "term", "precomputed")
        tracks = (False, True) if name != "quaternion" else (False,)
        for smooth in (None, False, True):
            for coup in coups:
                for track in tracks:
                    kw = dict(smooth=smooth, coup=coup, track=track)
                    c.obligation("%s %s" % (name, " ".join(
                        "%s=%s" % x for x in kw.items())), compare, c, name,
                        **kw)
        for full, rest in ((1, 0), (2, HALF), (0, HALF)):
            c.obligation("%s sub-steps %s+%s" % (name, full, rest), compare,
                         c, name, full=full, rest=rest, smooth=True,
                         coup="term" if name != "dual" else None)
        for n in ((1, 3, 7) if name in ("euler", "rk4") else ()):
            c.obligation("%s n_dims=%d" % (name, n), compare, c, name, n=n,
                         smooth=True, coup="term", track=True)
        for n in ((5, 14) if name in ("euler", "rk4") else ()):
            c.obligation("%s n_dims=%d" % (name, n), compare, c, name, n=n,
                         smooth=True, track=True)
        c.obligation("%s default arguments" % name, compare, c, name,
                     literal=True)
        c.obligation("%s first step" % name, compare, c, name, at=P(0))
        c.obligation("%s after the end" % name, compare, c, name, at=2 * TAU,
                     smooth=True)
        c.obligation("%s-prestart" % name, compare, c, name, before=True)
        if c.thorough:
            c.obligation("%s many sub-steps" % name, compare, c, name,
                         full=5, rest=HALF, smooth=True)
    for kind, names in (("DMP", (("euler", "euler-cython"),
                                 ("rk4", "rk4-cython"))),
                        ("CartesianDMP", (("euler", "euler-cython"),
                                          ("rk4", "rk4-cython"))),
                        ("DualCartesianDMP", (("python", "cython"),))):
        for a, b in names:
            for smooth in (False, True):
                c.obligation("%s.open_loop %s/%s smooth=%s" % (
                    kind, a, b, smooth), open_loop, c, kind, a, b, smooth)


def open_loop(c, kind, a, b, smooth):
    out = []
    for name, other in ((a, "python"), (b, "cython")):
        S = kit.Setup(c, kind, True, smooth=smooth, full=1, rest=0,
                      h=Fraction(1, 10), last_t=0, tau=Fraction(3, 10))
        S.configure()
        kw = dict(step_function=name)
        if kind == "CartesianDMP":
            kw["quaternion_step_function"] = other
        out.append(meth(S.ip, S.obj, "open_loop", run_t=Fraction(2, 10),
                        **kw))
    c.same(out[1][0], out[0][0], "times")
    c.same(out[1][1], out[0][1], "trajectory of %s (required: %s)" % (b, a))


def phase(c):
    al = T.sym("alpha", "+")
    for t in (T.sym("t"), sy("t", 3), arr(spec.vec([T.sym("t")]))):
        r = []
        for m in (DMP + "._canonical_system", FAST):
            ip = c.interp()
            f = c.anchor(ip, m, "phase")
            r.append(ip.call(f, [t if not isinstance(t, Arr) else cp(t), al,
                                 START + TAU, START], {}))
        c.same(r[1], r[0], "phase")


def obstacle(c):
    r = []
    for m in (DMP, FAST):
        for regular in (True, False):
            ip = c.interp()
            f = c.anchor(ip, m, "obstacle_avoidance_acceleration_2d")
            y, v, o = sy("y", 2), sy("v", 2), sy("o", 2)
            if not regular:
                v = arr(spec.zeros(2))
            r.append(ip.call(f, [y, v, o, T.sym("gamma", "+"),
                                 T.sym("beta", "+")], {}))
    c.same(r[2], r[0], "acceleration of the compiled function")
    c.same(r[3], r[1], "acceleration at rest of the compiled function")


def obstacle_term(c):
    out = []
    for fast in (False, True):
        ip = c.interp()
        cls = c.anchor(ip, DMP, "CouplingTermObstacleAvoidance2D")
        o = new(ip, cls, obstacle_position=sy("o", 2), fast=fast)
        out.append(meth(ip, o, "coupling", sy("y", 2), sy("v", 2)))
    c.same(out[1][0], out[0][0], "velocity coupling")
    c.same(out[1][1], out[0][1], "acceleration coupling")


def quaternions(c):
    from .dynamics import quaternion_helpers
    quaternion_helpers(c)
