"""Equations of motion of all movement primitives."""
from fractions import Fraction

import numpy as np

from .. import spec, kit
from .. import terms as T
from ..kit import (Setup, TAU, H, arr, cp, sy, meth, get, new, coupling_object,
                   coupling_spec, tracking_error, DMP, FAST, SD)
from ..terms import P
from ..values import (Arr, Cls, Func, InterpRaise, Native, Obj, StaticM,
                      Undecided)

F = Fraction
HALF = F(1, 2)


def one_step(c, kind, ext=True, method=None, n=2, k=3, full=1, rest=HALF,
             smooth=False, p=False, coup=False, last_t=None, h=H, first=False,
             past=False, steps=1, s=None, g=None, y=None, v=None):
    """Some steps of a movement primitive from an arbitrary state."""
    S = Setup(c, kind, ext, n=n, k=k, full=full, rest=rest, smooth=smooth,
              p_gain=p or None, last_t=last_t, h=h, warm=not first)
    over = {}
    if s is not None:
        over["s"] = s
    if g is not None:
        over["g"] = g
    S.configure(**over)
    internal = kind in ("DMP", "DMPWithFinalVelocity")
    if first:
        S.y, S.v = S.s, S.sd
    else:
        S.arbitrary_state(y, v)
    kw = {}
    cs = None
    if coup:
        nv = 3 if kind == "CartesianDMP" else S.nv
        kw["coupling_term"] = coupling_object(S.ip, "c", nv)
        cs = coupling_spec("c", nv)
    if method:
        kw["step_function"] = method
    last_t = S.last_t
    cy, cv = S.y, S.v
    for i in range(steps):
        if internal or (p and kind == "DualCartesianDMP"):
            gy = S.state("given%d" % i) if p else cy
        else:
            gy = cy
        gv = cv
        ry, rv = S.step(cp(gy), cp(gv), **kw)
        tr = tracking_error(kind, cy.a, gy.a) if p else None
        wy, wv = S.expected(cy if internal else gy, gv, method, cs, tr,
                            last_t, past_goal=past)
        c.same(rv, wv, "velocity after step %d" % (i + 1))
        c.same(ry, wy, "position after step %d" % (i + 1))
        cy, cv = Arr(wy, "f"), Arr(wv, "f")
        last_t = last_t + S.dt
    c.no_raises(S.ip, "step")
    return S


def executed(c, kind, ext=True, method=None, steps=2, coup=False, **kw):
    """Open loop execution follows the equations from start to end."""
    from .execution import concrete
    S = concrete(c, kind, ext, **kw)
    args = dict(step_function=method) if method else {}
    cs = None
    if coup:
        nv = 3 if kind == "CartesianDMP" else S.nv
        args["coupling_term"] = coupling_object(S.ip, "c", nv)
        cs = coupling_spec("c", nv)
    ts, ys = meth(S.ip, S.obj, "open_loop", run_t=S.dt * steps, **args)
    y, v = cp(S.s), cp(S.sd)
    want, t = [y.a], 0
    for i in range(steps):
        y, v = (Arr(x, "f") for x in S.expected(y, v, method, cs, None, t))
        want.append(y.a)
        t = t + S.dt
    c.same(ys, np.array(want, dtype=object), "positions of open loop "
           "execution")


def constant_term(ip, cd, cdd):
    """A coupling term that always returns the same values."""
    cls = Cls("Constant", [], {}, None)
    cls.ns["coupling"] = StaticM(Native(
        lambda ip_, a, k: (cp(cd), cp(cdd)), "coupling"))
    return Obj(cls)


def step_function(c, ip, name):
    """Step functions that accept a precomputed coupling."""
    from .siblings import python_function, compiled_function
    where = {"final velocity": (DMP + "._dmp_with_final_velocity",
                                "dmp_step_euler_with_constraints"),
             "state following": (DMP + "._state_following_dmp",
                                 "state_following_dmp_step"),
             "spring": (SD, "spring_damper_step"),
             "spring orientation": (SD, "spring_damper_step_quaternion")}
    if name in where:
        m = ip.load(where[name][0])
        f = m.ns.get(where[name][1]) if m else None
        if f is None:
            raise Undecided("no step function for %s" % name)
        return f
    name, _, fast = name.partition(" ")
    if fast:
        kit.recognise(c, ip)
    return (compiled_function if fast else python_function)(c, ip, name)


def precomputed(c, name, n=2, full=1, rest=HALF, p=False):
    """A precomputed coupling acts like a coupling term that always returns
    the same values."""
    out = []
    quat = name in ("quaternion", "quaternion compiled", "spring orientation")
    npos, nv = (4, 3) if quat else (n, n)
    st = kit.uq if quat else (lambda x: sy(x, n))
    at = TAU * Fraction(1, 3)
    h = TAU * Fraction(1, 50)
    for given in (True, False):
        ip = c.interp()
        f = step_function(c, ip, name)
        y, v = st("y"), sy("v", nv)
        cd, cdd = sy("cd", nv), sy("cdd", nv)
        if name.startswith("spring"):
            a = [at, at + h * (full + rest), y, v, st("g")]
            kw = dict(k=T.sym("k", "+"), c=T.sym("c", "+"))
        else:
            if name == "state following":
                o = new(ip, c.anchor(
                    ip, DMP + "._state_following_dmp",
                    "StateFollowingForcingTerm"), n_dims=n, n_viapoints=2,
                    goal_t=TAU, start_t=0, overlap=Fraction(1, 10),
                    alpha_z=spec.ALPHA_Z)
                ip.setattr(o, "viapoints", sy("via", (2, n)))
            else:
                o = kit.FreeForcing(nv).obj
            a = [at, at + h * (full + rest), y, v, st("g"), sy("gd", nv),
                 sy("gdd", nv), st("s"), sy("sd", nv), sy("sdd", nv), TAU,
                 P(0), sy("alpha", nv, "+"), sy("beta", nv, "+"), o]
            kw = {}
            if p:
                kw = dict(p_gain=T.sym("p", "+"), tracking_error=sy("te", nv))
        kw["int_dt"] = h
        pair = (cp(cd), cp(cdd))
        if given:
            kw["coupling_term_precomputed"] = pair
        else:
            kw["coupling_term"] = constant_term(ip, cd, cdd)
        ip.call(f, a, kw)
        c.same(pair[0], cd, "velocity coupling after the step")
        c.same(pair[1], cdd, "acceleration coupling after the step")
        out.append((y, v))
    c.same(out[0][1], out[1][1], "velocity with precomputed coupling")
    c.same(out[0][0], out[1][0], "position with precomputed coupling")


def precomputed_cases(c, *names, **kw):
    for name in names:
        for full, rest in ((1, 0), (1, HALF), (2, 0)):
            c.obligation("precomputed coupling %s sub-steps %s+%s%s" % (
                name, full, rest, "".join(" %s=%s" % x for x in kw.items())),
                precomputed, c, name, full=full, rest=rest, **kw)


METHODS = (("euler", True), ("euler-cython", True), ("rk4", False),
           ("rk4-cython", True))


def d01(c):
    """Basic DMP."""
    def name(**kw):
        return " ".join("%s=%s" % x for x in kw.items())

    def ob(method, ext, **kw):
        c.obligation("DMP.step[%s] %s" % (method, name(**kw)), one_step, c,
                     "DMP", ext, method, **kw)
    for m, ext in METHODS:
        for smooth in (False, True):
            for coup in (False, True):
                for p in (False, True):
                    ob(m, ext, smooth=smooth, coup=coup, p=p)
        for full, rest in ((1, 0), (2, 0), (2, HALF), (3, Fraction(1, 4)),
                           (0, HALF)):
            ob(m, ext, full=full, rest=rest, smooth=True, p=True)
        for n in (1, 3):
            ob(m, ext, n=n, smooth=True, p=True, coup=True)
        ob(m, ext, k=2, n=1)
        ob(m, ext, k=5, n=2)
        ob(m, ext, n=7, k=2, p=True, coup=True)
        ob(m, ext, n=14, k=2, p=True, smooth=True)
        ob(m, ext, n=1, k=12, smooth=True)
        ob(m, ext, first=True, smooth=True, p=True)
        ob(m, ext, first=True, last_t=0)
        ob(m, ext, first=True, last_t=0, p=True, coup=True, steps=2)
        ob(m, ext, steps=2, p=True, smooth=True)
        # beyond the end of the movement and in its middle
        ob(m, ext, last_t=2 * TAU, h=TAU * Fraction(1, 50), smooth=True)
        ob(m, ext, last_t=TAU * Fraction(1, 3), h=TAU * Fraction(1, 50))
        ob(m, ext, last_t=TAU * Fraction(999, 1000),
           h=TAU * Fraction(1, 500), p=True)
        if c.thorough:
            ob(m, ext, n=4, k=7, smooth=True, p=True, coup=True)
            ob(m, ext, full=6, rest=HALF, smooth=True, p=True)
            ob(m, ext, steps=3, p=True, smooth=True, coup=True)
    for m, ext in METHODS:
        for kw in (dict(), dict(smooth=True, p=True, full=2, steps=1),
                   dict(coup=True), dict(steps=1, n=7, k=2)):
            c.obligation("DMP.open_loop[%s] %s" % (m, name(**kw)), executed,
                         c, "DMP", ext, m, **kw)
        c.obligation("DMP.step[%s] goal equals start" % m, degenerate, c,
                     "DMP", ext, m)
        c.obligation("DMP.step[%s] scalar gains" % m, scalar_gains, c, "DMP",
                     ext, m)
    c.obligation("dmp_transformation_system", transformation_system, c)
    for p in (False, True):
        precomputed_cases(c, "euler", "rk4", "euler compiled",
                          "rk4 compiled", p=p)
    precomputed_cases(c, "euler", "rk4", "euler compiled", "rk4 compiled",
                      n=7)


def degenerate(c, kind, ext, method):
    """At rest with goal = start, zero weights: the primitive stays there."""
    S = Setup(c, kind, ext, smooth=True)
    g = S.state("g")
    S.configure(s=g, g=g)
    z = arr(spec.zeros(S.nv))
    S.ip.generic = False
    S.arbitrary_state(g, z)
    kw = dict(step_function=method) if method else {}
    if hasattr(S, "W"):
        meth(S.ip, S.obj, "set_weights",
             arr(spec.zeros(S.W.a.size)))
    ry, rv = S.step(cp(g), cp(z), **kw)
    c.same(rv, z, "velocity")
    c.same(ry, g, "position")


def scalar_gains(c, kind, ext, method):
    ip = c.interp(ext)
    if kind != "DMP" and ext:
        kit.recognise(c, ip)
    cls = c.anchor(ip, DMP, kind)
    a, b = T.sym("a", "+"), T.sym("b", "+")
    kw = dict(execution_time=TAU, dt=H, int_dt=H, n_weights_per_dim=2)
    if kind == "StateFollowingDMP":
        kw["n_viapoints"] = kw.pop("n_weights_per_dim")
    dims = {"CartesianDMP": (7, 6), "DualCartesianDMP": (14, 12)}.get(
        kind, (3, 3))
    if dims[0] == 3:
        kw["n_dims"] = 3
    o1 = new(ip, cls, alpha_y=a, beta_y=b, **kw)
    o2 = new(ip, cls, alpha_y=arr(spec.vec([a] * dims[1])),
             beta_y=arr(spec.vec([b] * dims[1])), **kw)
    st = {7: kit.pose, 14: kit.dual_pose}.get(dims[0], lambda x: sy(x, 3))
    r = []
    for o in (o1, o2):
        meth(ip, o, "configure", start_y=st("s"), goal_y=st("g"))
        if kind != "StateFollowingDMP":
            nw = dims[1] * 2
            meth(ip, o, "set_weights", sy("w", nw))
        else:
            ip.setattr(get(ip, o, "forcing_term"), "viapoints",
                       sy("via", (2, 3)))
        kk = dict(step_function=method) if method else {}
        r.append(meth(ip, o, "step", st("y"), sy("v", dims[1]), **kk))
    c.same(r[0][1], r[1][1], "velocity")
    c.same(r[0][0], r[1][0], "position")


def transformation_system(c):
    """The exported function."""
    for smooth in (True, False):
        ip = c.interp()
        f = c.anchor(ip, DMP, "dmp_transformation_system")
        n = 2
        a = {x: sy(x, n) for x in ("Y", "V", "goal_y", "goal_yd", "goal_ydd",
                                   "start_y", "alpha_y", "beta_y")}
        z = T.sym("z", "+")
        r = ip.call(f, [], dict(
            {k: cp(v) for k, v in a.items()}, z=z, execution_time=TAU,
            smooth_scaling=smooth))
        w = a["alpha_y"].a * (
            a["beta_y"].a * (a["goal_y"].a - a["Y"].a)
            + TAU * (a["goal_yd"].a - a["V"].a))
        if smooth:
            w = w - a["alpha_y"].a * a["beta_y"].a * (
                a["goal_y"].a - a["start_y"].a) * z
        w = w / TAU ** 2 + a["goal_ydd"].a
        c.same(r, w, "acceleration (smooth_scaling=%s)" % smooth)


# -- orientation -----------------------------------------------------------------
def d03(c):
    def ob(kind, ext, **kw):
        c.obligation("%s.step[%s] %s" % (
            kind, "compiled" if ext else "python",
            " ".join("%s=%s" % x for x in kw.items())),
            one_step, c, kind, ext, **kw)
    c.obligation("compiled quaternion helpers", quaternion_helpers, c)
    for ext in (True, False):
        for smooth in (False, True):
            for coup in (False, True):
                ob("CartesianDMP", ext, smooth=smooth, coup=coup)
        for full, rest in ((1, 0), (2, HALF), (0, HALF)):
            ob("CartesianDMP", ext, full=full, rest=rest, smooth=True)
        ob("CartesianDMP", ext, k=2)
        ob("CartesianDMP", ext, first=True, last_t=0, smooth=True)
        ob("CartesianDMP", ext, first=True, last_t=0, coup=True)
        ob("CartesianDMP", ext, last_t=TAU * Fraction(999, 1000),
           h=TAU * Fraction(1, 500), smooth=True)
        ob("CartesianDMP", ext, last_t=TAU * Fraction(1, 3), k=5,
           h=TAU * Fraction(1, 50), coup=True)
        ob("CartesianDMP", ext, last_t=2 * TAU, h=TAU * Fraction(1, 50))
        ob("CartesianDMP", ext, steps=2, full=1, rest=0, smooth=True)
        for kw in (dict(), dict(smooth=True, steps=1, full=2),
                   dict(coup=True, steps=1)):
            c.obligation("CartesianDMP.open_loop[%s] %s" % (
                "compiled" if ext else "python",
                " ".join("%s=%s" % x for x in kw.items())),
                executed, c, "CartesianDMP", ext, **kw)
        c.obligation("CartesianDMP.step[%s] at rest in the goal" % ext,
                     degenerate, c, "CartesianDMP", ext, None)
        c.obligation("CartesianDMP.step[%s] scalar gains" % ext,
                     scalar_gains, c, "CartesianDMP", ext, None)
        if c.thorough:
            ob("CartesianDMP", ext, full=4, rest=HALF, smooth=True, k=5)
    precomputed_cases(c, "quaternion", "quaternion compiled")
    c.obligation("orientation stays a unit quaternion [compiled]",
                 unit_norm, c, True)
    c.obligation("orientation stays a unit quaternion [python]",
                 unit_norm, c, False)


def unit_norm(c, ext):
    S = Setup(c, "CartesianDMP", ext, smooth=True)
    S.configure().arbitrary_state()
    y, _ = S.step(cp(S.y), cp(S.v))
    q = y.a[3:]
    c.same(q[0] ** 2 + q[1] ** 2 + q[2] ** 2 + q[3] ** 2, T.ONE,
           "squared norm of the orientation")


def quaternion_helpers(c):
    """Product and logarithm of the compiled module, identity included."""
    ip = c.interp()
    m = c.anchor(ip, FAST)
    a, b = kit.uq("a"), kit.uq("b")
    mul = c.anchor(ip, FAST, "concatenate_quaternions")
    log = c.anchor(ip, FAST, "compact_axis_angle_from_quaternion")
    c.same(ip.call(mul, [cp(a), cp(b)], {}),
           spec.vec(T.qmul_(list(a.a), list(b.a))), "product")
    c.same(ip.call(log, [cp(a)], {}), spec.vec(T.qlog_(list(a.a))),
           "rotation vector")
    one = arr(spec.vec([1, 0, 0, 0]))
    c.same(ip.call(log, [cp(one)], {}), spec.zeros(3),
           "rotation vector of the identity")
    c.same(ip.call(mul, [cp(one), cp(b)], {}), b, "product with identity")
    c.same(ip.call(mul, [cp(b), cp(one)], {}), b, "product with identity")
    kinds = kit.recognise(c, ip)
    c.facts["recognised_helpers"] = kinds
    c.require("exp" in kinds.values(),
              "no exported helper is the quaternion exponential for small "
              "and large rotations", "dmp_fast.pyx")
    c.require("log" in kinds.values(),
              "no exported helper is the quaternion logarithm for small and "
              "large rotations", "dmp_fast.pyx")


def d04(c):
    def ob(ext, **kw):
        c.obligation("DualCartesianDMP.step[%s] %s" % (
            "compiled" if ext else "python",
            " ".join("%s=%s" % x for x in kw.items())),
            one_step, c, "DualCartesianDMP", ext, **kw)
    for ext in (True, False):
        for smooth in (False, True):
            for coup in (False, True):
                ob(ext, smooth=smooth, coup=coup)
        ob(ext, p=True)
        ob(ext, p=True, smooth=True, coup=True)
        for full, rest in ((1, 0), (2, HALF), (0, HALF)):
            ob(ext, full=full, rest=rest, smooth=True, p=True)
        ob(ext, k=2)
        ob(ext, first=True, last_t=0, smooth=True)
        ob(ext, first=True, last_t=0, p=True, coup=True)
        ob(ext, last_t=TAU * Fraction(999, 1000), p=True,
           h=TAU * Fraction(1, 500), smooth=True)
        ob(ext, last_t=TAU * Fraction(1, 3), k=5, p=True,
           h=TAU * Fraction(1, 50), coup=True)
        ob(ext, first=True, p=True)
        ob(ext, last_t=2 * TAU, h=TAU * Fraction(1, 50))
        ob(ext, steps=2, full=1, rest=0, smooth=True, p=True)
        for kw in (dict(), dict(smooth=True, steps=1, full=2, p=True),
                   dict(coup=True, steps=1)):
            c.obligation("DualCartesianDMP.open_loop[%s] %s" % (
                "compiled" if ext else "python",
                " ".join("%s=%s" % x for x in kw.items())),
                executed, c, "DualCartesianDMP", ext, **kw)
        c.obligation("DualCartesianDMP.step[%s] at rest in the goal" % ext,
                     degenerate, c, "DualCartesianDMP", ext, None)
        c.obligation("DualCartesianDMP.step[%s] scalar gains" % ext,
                     scalar_gains, c, "DualCartesianDMP", ext, None)
        c.obligation("arms do not influence each other [%s]" % ext,
                     arm_separation, c, ext)
        if c.thorough:
            ob(ext, full=4, rest=HALF, smooth=True, p=True, k=5)


def arm_separation(c, ext):
    """Without a coupling term the terms of one arm contain no symbol of the
    other one."""
    S = Setup(c, "DualCartesianDMP", ext, smooth=True, p_gain=True)
    S.configure().arbitrary_state()
    gy = S.state("given")
    y, v = S.step(cp(gy), cp(S.v))
    left = set()
    right = set()
    for x in (S.y, S.s, S.g, gy):
        left |= symbols(x.a[:7])
        right |= symbols(x.a[7:])
    for x in (S.v, S.alpha, S.beta):
        left |= symbols(x.a[:6])
        right |= symbols(x.a[6:])
    left |= symbols(S.W.a[:6].reshape(-1))
    right |= symbols(S.W.a[6:].reshape(-1))
    for part, other, what in (
            (y.a[:7], right, "left pose"), (v.a[:6], right, "left velocity"),
            (y.a[7:], left, "right pose"),
            (v.a[6:], left, "right velocity")):
        hit = symbols(part) & other
        c.require(not hit, "%s depends on %s" % (
            what, ", ".join(sorted(map(str, hit))[:5])))


def symbols(xs):
    out = set()
    for x in xs:
        for a in P(x).atoms(True):
            if a.kind == "sym":
                out.add(a.name)
    return out


def d05(c):
    def ob(**kw):
        c.obligation("DMPWithFinalVelocity.step %s" % " ".join(
            "%s=%s" % x for x in kw.items()),
            one_step, c, "DMPWithFinalVelocity", True, **kw)
    third = dict(last_t=TAU * Fraction(1, 3), h=TAU * Fraction(1, 50))
    late = dict(last_t=2 * TAU, h=TAU * Fraction(1, 50))
    for where in (third, late):
        past = where is late
        for coup in (False, True):
            for p in (False, True):
                ob(coup=coup, p=p, past=past, **where)
        ob(n=1, past=past, **where)
        ob(full=2, rest=Fraction(1, 4), past=past, **where)
        ob(full=1, rest=0, past=past, k=2, **where)
        ob(first=True, past=past, p=True, **where)
    ob(past=True, last_t=TAU, h=TAU * Fraction(1, 500))
    ob(past=True, last_t=TAU * Fraction(51, 50), h=TAU * Fraction(1, 500),
       p=True)
    ob(first=True, last_t=0, h=TAU * Fraction(1, 100))
    ob(first=True, last_t=0, h=TAU * Fraction(1, 100), p=True, coup=True,
       steps=2)
    ob(steps=2, p=True, **third)
    # last step before the end
    ob(full=1, rest=0, last_t=TAU * Fraction(98, 100),
       h=TAU * Fraction(1, 50))
    ob(n=7, k=2, p=True, coup=True, **third)
    for kw in (dict(), dict(steps=1, full=2, p=True), dict(coup=True)):
        c.obligation("DMPWithFinalVelocity.open_loop %s" % " ".join(
            "%s=%s" % x for x in kw.items()),
            executed, c, "DMPWithFinalVelocity", **kw)
    precomputed_cases(c, "final velocity")
    precomputed_cases(c, "final velocity", n=7, p=True)
    c.obligation("DMPWithFinalVelocity.step scalar gains", scalar_gains, c,
                 "DMPWithFinalVelocity", True, None)


def d06(c):
    def ob(**kw):
        c.obligation("StateFollowingDMP.step %s" % " ".join(
            "%s=%s" % x for x in kw.items()),
            one_step, c, "StateFollowingDMP", True, **kw)
    for coup in (False, True):
        for n in (1, 2, 3):
            ob(n=n, coup=coup)
    for k in (1, 2, 5, 10, 12):
        ob(k=k)
    ob(n=7, k=2, coup=True)
    for kw in (dict(), dict(steps=1, full=2), dict(coup=True)):
        c.obligation("StateFollowingDMP.open_loop %s" % " ".join(
            "%s=%s" % x for x in kw.items()),
            executed, c, "StateFollowingDMP", **kw)
    for full, rest in ((1, 0), (2, HALF), (0, HALF)):
        ob(full=full, rest=rest)
    ob(first=True, last_t=0)
    ob(first=True, last_t=0, coup=True, steps=2)
    ob(last_t=TAU * Fraction(999, 1000), h=TAU * Fraction(1, 500))
    ob(last_t=TAU * Fraction(1, 3), h=TAU * Fraction(1, 50), coup=True)
    ob(last_t=2 * TAU, h=TAU * Fraction(1, 50))
    ob(steps=2)
    for n in (1, 2, 7):
        precomputed_cases(c, "state following", n=n)
    c.obligation("StateFollowingDMP.step scalar gains", scalar_gains, c,
                 "StateFollowingDMP", True, None)
    for k in (1, 2, 4, 10, 15):
        c.obligation("StateFollowingForcingTerm activations k=%d" % k,
                     sf_activations, c, k)


def sf_activations(c, k):
    ip = c.interp()
    cls = c.anchor(ip, DMP + "._state_following_dmp",
                   "StateFollowingForcingTerm")
    t0 = T.sym("start")
    f = new(ip, cls, n_dims=2, n_viapoints=k, goal_t=t0 + TAU, start_t=t0,
            overlap=Fraction(1, 10), alpha_z=spec.ALPHA_Z)
    t = T.sym("t")
    h = ip.call(f, [t], {})
    cc, w = spec.rbf(k, Fraction(1, k), Fraction(1, 10))
    want = spec.activations(spec.phase(t, TAU, t0), cc, w)
    c.same(h, np.array([want], dtype=object), "activations")
    # close times and other objects
    for tau, start in ((F(1), F(0)), (F(2), F(0)), (F(1), F(1, 10))):
        f = new(ip, cls, n_dims=2, n_viapoints=k, goal_t=P(start + tau),
                start_t=P(start), overlap=F(1, 10), alpha_z=spec.ALPHA_Z)
        for t in (F(3, 10), F(301, 1000), F(302, 1000), F(1, 2)):
            want = spec.activations(spec.phase(P(t), P(tau), P(start)), cc, w)
            c.same(ip.call(f, [P(t)], {}), np.array([want], dtype=object),
                   "activations at %s from %s in %s" % (t, start, tau))


def d07(c):
    def ob(kind, **kw):
        c.obligation("%s.step %s" % (kind, " ".join(
            "%s=%s" % x for x in kw.items())), one_step, c, kind, True, **kw)
    for kind in ("SpringDamper", "SpringDamperOrientation"):
        for coup in (False, True):
            for full, rest in ((1, 0), (2, HALF), (0, HALF)):
                ob(kind, coup=coup, full=full, rest=rest)
        ob(kind, first=True, last_t=0)
        ob(kind, first=True, last_t=0, coup=True)
        ob(kind, last_t=Fraction(7), coup=True)
        ob(kind, steps=2, full=1, rest=0)
        c.obligation("%s critical damping" % kind, critical, c, kind)
        c.obligation("%s at rest in the goal" % kind, degenerate, c, kind,
                     True, None)
        for kw in (dict(), dict(steps=1, full=2), dict(coup=True)):
            c.obligation("%s.open_loop %s" % (kind, " ".join(
                "%s=%s" % x for x in kw.items())), executed, c, kind, **kw)
    for n in (1, 3, 7):
        ob("SpringDamper", n=n, coup=True)
        precomputed_cases(c, "spring", n=n)
    precomputed_cases(c, "spring orientation")


def critical(c, kind):
    """Without a damping value the system is critically damped."""
    ip = c.interp()
    cls = c.anchor(ip, SD, kind)
    k = T.sym("k", "+")
    res = []
    for damping in (None, 2 * T.sqrt_(k)):
        kw = dict(dt=H, int_dt=H, k=k, c=damping)
        if kind == "SpringDamper":
            kw["n_dims"] = 2
            st, nv = (lambda x: sy(x, 2)), 2
        else:
            st, nv = kit.uq, 3
        o = new(ip, cls, **kw)
        meth(ip, o, "configure", start_y=st("s"), goal_y=st("g"))
        res.append(meth(ip, o, "step", st("y"), sy("v", nv)))
    c.same(res[0][1], res[1][1], "velocity")
    c.same(res[0][0], res[1][0], "position")
    # the default damping also holds for open loop execution
    res = []
    for damping in (None, 2 * T.sqrt_(k)):
        kw = dict(dt=1, int_dt=1, k=k, c=damping)
        if kind == "SpringDamper":
            kw["n_dims"] = 2
        o = new(ip, cls, **kw)
        meth(ip, o, "configure", start_y=st("s"), goal_y=st("g"))
        res.append(meth(ip, o, "open_loop", run_t=2)[1])
    c.same(res[0], res[1], "open loop trajectory")


# -- forcing term and phase --------------------------------------------------------
def d08(c):
    for k in (2, 3, 6) + ((10,) if c.thorough else ()):
        for n in (1, 2):
            c.obligation("ForcingTerm n_dims=%d n_weights=%d" % (n, k),
                         forcing_term, c, n, k)
    for n, k in ((1, 10), (1, 25), (7, 3), (1, 50)):
        c.obligation("ForcingTerm n_dims=%d n_weights=%d" % (n, k),
                     forcing_term, c, n, k)
    for ext in (True, False):
        c.obligation("ForcingTerm design matrix ext=%s" % ext, design, c, ext)
    for kind in ("DMP", "CartesianDMP", "DualCartesianDMP",
                 "DMPWithFinalVelocity"):
        c.obligation("%s: forcing term acts once per step" % kind,
                     weights_linear, c, kind)


def forcing_term(c, n, k):
    for ext in (True, False):
        ip = c.interp(ext)
        cls = c.anchor(ip, DMP + "._forcing_term", "ForcingTerm")
        t0 = T.sym("start")
        f = new(ip, cls, n_dims=n, n_weights_per_dim=k, goal_t=t0 + TAU,
                start_t=t0, overlap=Fraction(4, 5), alpha_z=spec.ALPHA_Z)
        W = sy("w", (n, k))
        ip.setattr(f, "weights_", cp(W))
        t = T.sym("t")
        z = spec.phase(t, TAU, t0)
        want = spec.forcing(z, W.a)
        c.same(meth(ip, f, "phase", t), z, "phase")
        got = ip.call(f, [t], {})
        c.same(got, want.reshape(n, 1), "forcing term")
        # several times at once
        for count in (3, 8) if n * k < 10 else (3,):
            ts = sy("t", count)
            got = ip.call(f, [ts], {})
            want = np.array([spec.forcing(spec.phase(x, TAU, t0), W.a)
                             for x in ts.a], dtype=object).T
            c.same(got, want, "forcing term of %d times" % count)
            c.same(ip.call(f, [arr(ts.a[::-1].copy())], {}), want[:, ::-1],
                   "forcing term of %d times in reversed order" % count)
            ip.setattr(f, "weights_", sy("v", (n, k)))
            c.same(ip.call(f, [cp(ts)], {}), np.array([
                spec.forcing(spec.phase(x, TAU, t0), sy("v", (n, k)).a)
                for x in ts.a], dtype=object).T,
                "forcing term of %d times with other weights" % count)
            ip.setattr(f, "weights_", cp(W))
        # close times and other objects
        for tau, start in ((F(1), F(0)), (F(2), F(0)), (F(1), F(1, 10))):
            g = new(ip, cls, n_dims=n, n_weights_per_dim=k,
                    goal_t=P(start + tau), start_t=P(start), overlap=F(4, 5),
                    alpha_z=spec.ALPHA_Z)
            ip.setattr(g, "weights_", cp(W))
            for x in (F(3, 10), F(301, 1000), F(302, 1000), F(1, 2)):
                z = spec.phase(P(x), P(tau), P(start))
                c.same(ip.call(g, [P(x)], {}), spec.forcing(
                    z, W.a).reshape(n, 1), "forcing term at %s from %s in %s"
                    % (x, start, tau))
        # basis functions have height `overlap` at the next center
        c.same(meth(ip, f, "forcing_term", T.sym("z", "+")),
               spec.forcing(T.sym("z", "+"), W.a).reshape(n, 1),
               "forcing term of a phase value")
        # other overlaps and phase rates
        ov, az = T.sym("overlap", "+"), T.sym("alpha_z", "+")
        f = new(ip, cls, n_dims=n, n_weights_per_dim=k, goal_t=t0 + TAU,
                start_t=t0, overlap=ov, alpha_z=az)
        ip.setattr(f, "weights_", cp(W))
        got = ip.call(f, [t], {})
        cs = [T.exp_(-az * Fraction(i, k - 1)) for i in range(k)]
        ws = [-T.log_(ov) / (cs[i + 1] - cs[i]) ** 2 for i in range(k - 1)]
        ws.append(ws[-1])
        z = T.exp_(-az * (t - t0) / TAU)
        psi = spec.activations(z, cs, ws)
        want = spec.vec([z * spec.dot(W.a[d], spec.vec(psi))
                         for d in range(n)])
        c.same(got, want.reshape(n, 1), "forcing term, other overlap")


def design(c, ext):
    ip = c.interp(ext)
    cls = c.anchor(ip, DMP + "._forcing_term", "ForcingTerm")
    t0 = T.sym("start")
    f = new(ip, cls, n_dims=2, n_weights_per_dim=3, goal_t=t0 + TAU,
            start_t=t0, overlap=Fraction(4, 5), alpha_z=spec.ALPHA_Z)
    t1 = T.sym("t1")
    ts = spec.vec([t0, t1, t0 + TAU])
    X = meth(ip, f, "design_matrix", arr(ts))
    cc, w = spec.rbf(3, HALF, Fraction(4, 5))
    want = np.empty((3, 3), dtype=object)
    for j, t in enumerate(ts):
        z = spec.phase(t, TAU, t0)
        want[:, j] = spec.vec([z * a for a in spec.activations(z, cc, w)])
    c.same(X, want, "design matrix")


def weights_linear(c, kind):
    """The acceleration is linear in the weights with the activations times
    phase as coefficients."""
    S = Setup(c, kind, True, full=1, rest=0, last_t=TAU * Fraction(1, 3),
              h=TAU * Fraction(1, 50))
    S.configure().arbitrary_state()
    y, v = S.step(cp(S.y), cp(S.v), **(
        dict(step_function="euler") if kind == "DMP" else {}))
    z = spec.phase(S.t, TAU)
    f = spec.forcing(z, S.W.a)
    rows = range(S.nv) if kind != "CartesianDMP" else range(3, 6)
    zero = {a: T.ZERO for x in S.W.a.reshape(-1) for a in P(x).atoms(False)}
    for d in rows:
        with_w = P(v.a[d])
        without = T.subst(with_w, zero)
        c.same(with_w - without, S.dt * f[d] / TAU ** 2,
               "influence of the weights on velocity %d" % d)


def d09(c):
    for ext, mod, what in ((True, FAST, "compiled"),
                           (False, DMP + "._canonical_system", "python"),
                           (True, DMP, "exported")):
        c.obligation("phase [%s]" % what, phase, c, ext, mod)
    c.obligation("canonical_system_alpha", alpha, c)
    for kind in ("DMP", "CartesianDMP", "DualCartesianDMP",
                 "DMPWithFinalVelocity", "StateFollowingDMP"):
        c.obligation("%s: phase of the forcing term" % kind, dmp_phase, c,
                     kind)


def phase(c, ext, mod):
    ip = c.interp(ext)
    f = c.anchor(ip, mod, "phase")
    t0, al = T.sym("start"), T.sym("alpha", "+")
    t = T.sym("t")
    want = T.exp_(-al * (t - t0) / TAU)
    c.same(ip.call(f, [t, al, t0 + TAU, t0], {}), want, "phase")
    ts = sy("t", 3)
    want = spec.vec([T.exp_(-al * (x - t0) / TAU) for x in ts.a])
    c.same(ip.call(f, [cp(ts), al, t0 + TAU, t0], {}), want,
           "phases of several times")
    # from 1 at the start to the final phase at the goal
    al = -T.log_(T.sym("goal_z", "+"))
    c.same(ip.call(f, [t0, al, t0 + TAU, t0], {}), T.ONE, "phase at start")
    c.same(ip.call(f, [t0 + TAU, al, t0 + TAU, t0], {}),
           T.sym("goal_z", "+"), "phase at goal")


def alpha(c):
    for mod in (DMP, DMP + "._canonical_system"):
        ip = c.interp()
        f = c.anchor(ip, mod, "canonical_system_alpha")
        z = T.sym("goal_z", "+")
        t0 = T.sym("start")
        c.same(ip.call(f, [z, t0 + TAU, t0], {}), -T.log_(z), "alpha")
        c.no_raises(ip, "admissible arguments")
        for args in ((0, TAU, 0), (-z, TAU, 0), (z, t0, t0),
                     (z, t0 - TAU, t0)):
            ip = c.interp()
            f = c.anchor(ip, mod, "canonical_system_alpha")
            kit.rejects(c, ip, lambda: ip.call(f, [P(a) for a in args], {}),
                        "final phase %s, goal_t %s, start_t %s" % args)


def dmp_phase(c, kind):
    """The phase falls from 1 to 0.01 over the execution time."""
    ip = c.interp()
    cls = c.anchor(ip, DMP, kind)
    kw = dict(execution_time=TAU)
    if kind in ("DMP", "DMPWithFinalVelocity", "StateFollowingDMP"):
        kw["n_dims"] = 2
    o = new(ip, cls, **kw)
    names = ["forcing_term"]
    if kind == "CartesianDMP":
        names = ["forcing_term_pos", "forcing_term_rot"]
    for nm in names:
        f = get(ip, o, nm)
        if kind == "StateFollowingDMP":
            # has no phase method; the activations tell
            c.same(ip.call(f, [P(0)], {}), np.array([spec.activations(
                T.ONE, *spec.rbf(10, Fraction(1, 10), Fraction(1, 10)))],
                dtype=object), "activations at the start")
            continue
        c.same(meth(ip, f, "phase", P(0)), T.ONE, "phase at start")
        c.same(meth(ip, f, "phase", TAU), P(Fraction(1, 100)),
               "phase at the end")
        t = T.sym("t")
        c.same(meth(ip, f, "phase", t), spec.phase(t, TAU), "phase")
