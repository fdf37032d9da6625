"""Steps, open loop execution, clocks and symmetries of movements."""
from fractions import Fraction

import numpy as np

from .. import spec, kit
from .. import terms as T
from ..kit import (Setup, TAU, H, arr, cp, sy, meth, get, new, coupling_object,
                   coupling_spec, DMP, SD)
from ..terms import P
from ..values import Arr, Obj, Undecided, InterpRaise, is_num

HALF = Fraction(1, 2)
F = Fraction
DT = F(1, 10)
MJ = "movement_primitives.minimum_jerk_trajectory"

KINDS = ("DMP", "DMPWithFinalVelocity", "CartesianDMP", "DualCartesianDMP",
         "StateFollowingDMP", "SpringDamper", "SpringDamperOrientation")


def variants(kind):
    """(label, ext, step kwargs, open loop kwargs)"""
    if kind == "DMP":
        for m, ext in (("euler", True), ("euler-cython", True),
                       ("rk4", False), ("rk4-cython", True)):
            yield m, ext, dict(step_function=m), dict(step_function=m)
        yield "default", True, {}, {}
        yield "default without extension", False, {}, {}
    elif kind == "CartesianDMP":
        yield "compiled", True, {}, {}
        yield "python", False, {}, {}
    elif kind == "DualCartesianDMP":
        yield "compiled", True, {}, {}
        yield "python", False, {}, {}
    else:
        yield "", True, {}, {}


def concrete(c, kind, ext=True, full=1, rest=0, smooth=False, tau=F(3, 10),
             p=None, n=2, k=3, dt=DT):
    """Movement with a concrete time grid and everything else symbolic."""
    h = dt / (full + rest)
    S = Setup(c, kind, ext, n=n, k=k, full=full, rest=rest, h=h, tau=tau,
              last_t=0, smooth=smooth, p_gain=p, warm=False)
    S.configure()
    return S


# -- E01 ---------------------------------------------------------------------
def step_chain(S, n, kw):
    y, v = cp(S.s), cp(S.sd)
    T_, Y = [P(0)], [cp(y)]
    for i in range(n):
        y, v = S.step(y, v, **kw)
        T_.append(P(get(S.ip, S.obj, "t")))
        Y.append(cp(y))
    return T_, Y


def other_execution(S, kw):
    """Execute with other weights and another start velocity, then return to
    the configuration of S."""
    weights = not S.kind.startswith(("Spring", "StateFollowing"))
    if weights:
        w = cp(meth(S.ip, S.obj, "get_weights"))
        meth(S.ip, S.obj, "set_weights", sy("ow", w.a.shape))
    meth(S.ip, S.obj, "configure", start_yd=sy("osd", S.sd.a.shape))
    meth(S.ip, S.obj, "open_loop", **kw)
    if weights:
        meth(S.ip, S.obj, "set_weights", w)
    S.configure()


def agree(c, kind, ext, skw, okw, smooth=False, coup=False, run_t=F(1, 5),
          n_expected=2, p=True, full=2, rest=HALF, default_run=False,
          tau=F(3, 10), before=False):
    S1 = concrete(c, kind, ext, smooth=smooth, p=p, full=full, rest=rest,
                  tau=tau)
    S2 = concrete(c, kind, ext, smooth=smooth, p=p, full=full, rest=rest,
                  tau=tau)
    k1, k2 = dict(skw), dict(okw)
    if coup:
        nv = 3 if kind == "CartesianDMP" else S1.nv
        k1["coupling_term"] = coupling_object(S1.ip, "c", nv)
        k2["coupling_term"] = coupling_object(S2.ip, "c", nv)
    if not default_run:
        k2["run_t"] = run_t
    if before:
        other_execution(S2, k2)
    ts, ys = meth(S2.ip, S2.obj, "open_loop", **k2)
    c.require(isinstance(ys, Arr) and ys.a.ndim == 2,
              "open loop returns no trajectory")
    c.require(ys.a.shape == (n_expected + 1, S1.n),
              "open loop until %s returns %s positions, expected %d" % (
                  run_t, ys.a.shape, n_expected + 1))
    T_, Y = step_chain(S1, n_expected, k1)
    c.same(ts, spec.vec([DT * i for i in range(n_expected + 1)]), "times")
    for i in range(n_expected + 1):
        c.same(arr(ys.a[i]), Y[i], "position %d of open loop (required: the "
               "one reached by stepping)" % i)


def e01(c):
    for kind in KINDS:
        quat = kind in ("CartesianDMP", "DualCartesianDMP",
                        "SpringDamperOrientation")
        for label, ext, skw, okw in variants(kind):
            def ob(what, **kw):
                c.obligation("%s[%s] %s" % (kind, label, what), agree, c,
                             kind, ext, skw, okw, **kw)
            one = dict(full=1, rest=0)
            ob("sub-steps", n_expected=1, run_t=DT)
            ob("two steps", **one)
            ob("coupling", coup=True, **one)
            ob("after other executions", before=True, **one)
            if kind in ("DMP", "CartesianDMP", "DualCartesianDMP"):
                ob("smooth scaling", smooth=True, **one)
            if not kind.startswith("Spring"):
                ob("default duration", default_run=True, n_expected=3, **one)
                ob("beyond the end", run_t=F(2, 10), n_expected=2,
                   tau=F(7, 100), **one)
            ob("duration not a multiple of the step", run_t=F(13, 100),
               n_expected=2, **one)
            if not quat:
                ob("four steps", run_t=F(4, 10), n_expected=4, **one)
            if c.thorough:
                ob("sub-steps and coupling", coup=True)
    for kind in KINDS:
        c.obligation("%s n_steps_open_loop" % kind, n_steps, c, kind)
    c.obligation("MinimumJerkTrajectory n_steps_open_loop", n_steps_mj, c)


def n_steps(c, kind):
    """Several steps at once equal single steps."""
    out = []
    for many in (True, False):
        S = concrete(c, kind, True)
        y, v = cp(S.s), cp(S.sd)
        if many:
            y, v = meth(S.ip, S.obj, "n_steps_open_loop", y, v, 2)
        else:
            for _ in range(2):
                y, v = S.step(y, v)
        out.append((y, v, P(get(S.ip, S.obj, "t"))))
    c.same(out[0][0], out[1][0], "position")
    c.same(out[0][1], out[1][1], "velocity")
    c.same(out[0][2], out[1][2], "time")


def n_steps_mj(c):
    out = []
    for many in (True, False):
        ip = c.interp()
        o = new(ip, c.anchor(ip, MJ, "MinimumJerkTrajectory"), n_dims=2,
                execution_time=1, dt=F(1, 4))
        meth(ip, o, "configure", start_y=sy("s", 2), goal_y=sy("g", 2))
        y, v = sy("s", 2), sy("sd", 2)
        if many:
            y, v = meth(ip, o, "n_steps_open_loop", y, v, 3)
        else:
            for _ in range(3):
                y, v = meth(ip, o, "step", y, v)
        out.append((y, v))
    c.same(out[0][0], out[1][0], "position")
    c.same(out[0][1], out[1][1], "velocity")


# -- E02 ---------------------------------------------------------------------
def e02(c):
    for kind in KINDS:
        for label, ext, skw, okw in variants(kind):
            if label.startswith("default"):
                continue
            c.obligation("%s[%s] open loop twice" % (kind, label), twice, c,
                         kind, ext, okw)
            c.obligation("%s[%s] open loop after steps" % (kind, label),
                         after_steps, c, kind, ext, skw, okw)
            c.obligation("%s[%s] reset" % (kind, label), reset, c, kind, ext,
                         skw)
            c.obligation("%s[%s] reset long after the end" % (kind, label),
                         reset, c, kind, ext, skw, late=P(F(7, 3)))
            c.obligation("%s[%s] configured after reset" % (kind, label),
                         reconfigured, c, kind, ext, skw, okw)
            c.obligation("%s[%s] configuration is kept" % (kind, label),
                         configuration, c, kind, ext, skw, okw)
            c.obligation("%s[%s] configuration is kept at any time" % (
                kind, label), configuration_late, c, kind, ext, skw)
            if kind != "DualCartesianDMP":  # restarts the movement
                c.obligation("%s[%s] steps before and after open loop" % (
                    kind, label), continued, c, kind, ext, skw, okw)
    for ext in (True, False):
        for run_t in (DT, F(1, 5)):
            c.obligation("DualCartesianDMP restarts compiled=%s duration=%s"
                         % (ext, run_t), restarts, c, ext, run_t)
    c.obligation("MinimumJerkTrajectory reset", reset_mj, c)
    for kind in KINDS:
        c.obligation("%s instances are independent" % kind, independent, c,
                     kind)


def small(kind):
    """Sub-steps affordable for two steps."""
    return dict(full=1, rest=0)


def twice(c, kind, ext, okw):
    S = concrete(c, kind, ext, **small(kind))
    r = [meth(S.ip, S.obj, "open_loop", run_t=F(2, 10), **okw)
         for _ in range(2)]
    c.same(r[1][0], r[0][0], "times of the second execution")
    c.same(r[1][1], r[0][1], "second trajectory (required: the first one)")


def after_steps(c, kind, ext, skw, okw):
    S = concrete(c, kind, ext, **small(kind))
    r1 = meth(S.ip, S.obj, "open_loop", run_t=F(2, 10), **okw)
    S.step(S.state("a"), S.vel("b"), **skw)
    S.step(S.state("a2"), S.vel("b2"), **skw)
    r2 = meth(S.ip, S.obj, "open_loop", run_t=F(2, 10), **okw)
    c.same(r2[0], r1[0], "times after steps were taken")
    c.same(r2[1], r1[1], "trajectory after steps were taken (required: the "
           "one before)")


def reset(c, kind, ext, skw, late=None):
    S = concrete(c, kind, ext, **small(kind))
    a = []
    for _ in range(2):
        y, v = cp(S.s), cp(S.sd)
        seq = []
        for _ in range(2):
            y, v = S.step(y, v, **skw)
            seq.append((y, v, P(get(S.ip, S.obj, "t"))))
        a.append(seq)
        if late is not None:
            meth(S.ip, S.obj, "configure", t=late)
            S.step(y, v, **skw)
        meth(S.ip, S.obj, "reset")
    for i, (f, s) in enumerate(zip(*a)):
        for j, what in enumerate(("position", "velocity", "time")):
            c.same(s[j], f[j], "%s of step %d after reset" % (what, i + 1))


def reconfigured(c, kind, ext, skw, okw):
    """Reset and another start and goal: as a new object."""
    out = []
    for used in (False, True):
        S = concrete(c, kind, ext, **small(kind))
        if used:
            S.step(S.state("a"), S.vel("b"), **skw)
            meth(S.ip, S.obj, "reset")
        s, v = S.state("s2"), S.vel("sd2")
        S.configure(s=s, g=S.state("g2"), start_yd=cp(v), t=P(0))
        out.append(S.step(cp(s), cp(v), **skw))
        out[-1] += (meth(S.ip, S.obj, "open_loop", run_t=DT, **okw)[1],)
    for j, what in enumerate(("position", "velocity", "open loop")):
        c.same(out[1][j], out[0][j], "%s after reset and configuration "
               "(required: the one of a new object)" % what)


def reset_mj(c):
    ip = c.interp()
    o = new(ip, c.anchor(ip, MJ, "MinimumJerkTrajectory"), n_dims=2,
            execution_time=1, dt=F(1, 4))
    meth(ip, o, "configure", start_y=sy("s", 2), goal_y=sy("g", 2))
    a = []
    for _ in range(2):
        seq = []
        for _ in range(3):
            seq.append(meth(ip, o, "step", sy("y", 2), sy("v", 2)))
        a.append(seq)
        meth(ip, o, "reset")
    for i, (f, s) in enumerate(zip(*a)):
        c.same(s[0], f[0], "position of step %d after reset" % (i + 1))
        c.same(s[1], f[1], "velocity of step %d after reset" % (i + 1))
    # another start and goal after reset
    meth(ip, o, "configure", start_y=sy("s2", 2), goal_y=sy("g2", 2))
    y, v = meth(ip, o, "step", sy("y", 2), sy("v", 2))
    c.same(y, sy("s2", 2), "first position of a reconfigured trajectory")
    for _ in range(3):
        y, v = meth(ip, o, "step", y, v)
    sub = {a_: P(b) for a_, b in zip(
        [x for q in ("s", "g") for e in sy(q, 2).a for x in e.atoms(False)],
        [e for q in ("s2", "g2") for e in sy(q, 2).a])}
    ip2 = c.interp()
    o2 = new(ip2, c.anchor(ip2, MJ, "MinimumJerkTrajectory"), n_dims=2,
             execution_time=1, dt=F(1, 4))
    meth(ip2, o2, "configure", start_y=sy("s2", 2), goal_y=sy("g2", 2))
    for _ in range(4):
        y2, v2 = meth(ip2, o2, "step", sy("y", 2), sy("v", 2))
    c.same(y, y2, "position of a reconfigured trajectory")
    c.same(v, v2, "velocity of a reconfigured trajectory")


CONFIG = ("start_y", "start_yd", "start_ydd", "goal_y", "goal_yd",
          "goal_ydd", "dt_", "dt", "int_dt", "p_gain", "smooth_scaling",
          "alpha_y", "beta_y", "execution_time_", "k", "c",
          "n_weights_per_dim", "n_dims", "n_vel_dims")


def snapshot(S):
    out = {}
    for nm in CONFIG:
        try:
            x = S.ip.getattr(S.obj, nm)
        except InterpRaise:
            continue
        out[nm] = cp(x) if isinstance(x, Arr) else x
    if hasattr(S, "W"):
        out["weights"] = cp(meth(S.ip, S.obj, "get_weights"))
    if hasattr(S, "via"):
        out["via-points"] = cp(get(S.ip, get(S.ip, S.obj, "forcing_term"),
                                   "viapoints"))
    return out


def configuration(c, kind, ext, skw, okw):
    S = concrete(c, kind, ext, **small(kind))
    before = snapshot(S)
    S.step(S.state("a"), S.vel("b"), **skw)
    meth(S.ip, S.obj, "open_loop", run_t=F(2, 10), **okw)
    S.step(S.state("a2"), S.vel("b2"), **skw)
    meth(S.ip, S.obj, "reset")
    after = snapshot(S)
    for nm, x in before.items():
        if is_num(x) or isinstance(x, (Arr, bool, str)) or x is None:
            c.same(after[nm], x, "%s after execution" % nm)


def configuration_late(c, kind, ext, skw):
    """Steps at an arbitrary time with coupling and feedback."""
    S = Setup(c, kind, ext, full=1, rest=0, p_gain=True)
    S.configure()
    before = snapshot(S)
    nv = 3 if kind == "CartesianDMP" else S.nv
    for i in range(2):
        S.step(S.state("a%d" % i), S.vel("b%d" % i),
               coupling_term=coupling_object(S.ip, "c", nv), **skw)
    after = snapshot(S)
    for nm, x in before.items():
        if is_num(x) or isinstance(x, (Arr, bool, str)) or x is None:
            c.same(after[nm], x, "%s after steps" % nm)


def continued(c, kind, ext, skw, okw):
    """An execution between two steps does not change the second one."""
    out = []
    for between in (False, True):
        S = concrete(c, kind, ext, p=True, **small(kind))
        S.step(S.state("a"), S.vel("b"), **skw)
        if between:
            meth(S.ip, S.obj, "open_loop", run_t=DT, **okw)
        out.append(S.step(S.state("a2"), S.vel("b2"), **skw)
                   + (P(get(S.ip, S.obj, "t")),))
    for j, what in enumerate(("position", "velocity", "time")):
        c.same(out[1][j], out[0][j], "%s of a step after an execution "
               "(required: the one without it)" % what)


def restarts(c, ext, run_t):
    """Steps after an execution of a dual-arm DMP are those of a new one."""
    out = []
    for before in (False, True):
        S = concrete(c, "DualCartesianDMP", ext, **small("DualCartesianDMP"))
        if before:
            meth(S.ip, S.obj, "open_loop", run_t=P(run_t))
        out.append(S.step(S.state("a"), S.vel("b"))
                   + (P(get(S.ip, S.obj, "t")),))
    for j, what in enumerate(("position", "velocity", "time")):
        c.same(out[1][j], out[0][j], "%s of a step after an execution "
               "(required: the one of a new object)" % what)


def independent(c, kind):
    """Executing one instance does not change another one."""
    S1 = concrete(c, kind, True, **small(kind))
    want = S1.step(S1.state("a"), S1.vel("b"))
    S2 = concrete(c, kind, True, **small(kind))
    # second instance within the same interpreter
    cls = S2.obj.cls
    kw = {}
    if kind in ("DMP", "DMPWithFinalVelocity", "StateFollowingDMP",
                "SpringDamper"):
        kw["n_dims"] = 2
    if not kind.startswith("Spring"):
        kw["execution_time"] = F(1, 2)
        kw["dt"] = kw["int_dt"] = F(1, 20)
        kw["n_viapoints" if hasattr(S2, "via") else "n_weights_per_dim"] = 2
    else:
        kw["dt"] = kw["int_dt"] = F(1, 20)
    other = new(S2.ip, cls, **kw)
    meth(S2.ip, other, "configure", start_y=S2.state("os"),
         goal_y=S2.state("og"))
    if hasattr(S2, "W"):
        meth(S2.ip, other, "set_weights", sy("ow", len(
            meth(S2.ip, other, "get_weights").a)))
    meth(S2.ip, other, "step", S2.state("oy"), S2.vel("ov"))
    got = S2.step(S2.state("a"), S2.vel("b"))
    c.same(got[0], want[0], "position after using another instance")
    c.same(got[1], want[1], "velocity after using another instance")


# -- E03 ---------------------------------------------------------------------
def e03(c):
    grids = ((1, 0), (2, 0), (0, HALF), (1, HALF), (2, F(1, 4)))
    for kind in KINDS:
        quat = kind in ("CartesianDMP", "DualCartesianDMP",
                        "SpringDamperOrientation")
        for label, ext, skw, okw in variants(kind):
            if label.startswith("default"):
                continue
            for full, rest in grids:
                if kind == "SpringDamperOrientation" and full >= 2 and rest:
                    continue
                c.obligation("%s[%s].step %d+%s sub-steps" % (
                    kind, label, full, rest), clock, c, kind, ext, skw, full,
                    rest)
            if label.startswith("rk4"):
                continue
            c.obligation("%s[%s].open_loop sub-steps" % (kind, label),
                         open_loop_grid, c, kind, ext, okw, 1, HALF,
                         1 if quat else 2)
            c.obligation("%s[%s].open_loop sub-step longer than step" % (
                kind, label), open_loop_grid, c, kind, ext, okw, 0, HALF,
                2)


def clock(c, kind, ext, skw, full, rest):
    """State and clock after one step of each length."""
    S = Setup(c, kind, ext, n=1, k=2, full=full, rest=rest,
              last_t=TAU * F(1, 5), h=TAU * F(1, 30), warm=False)
    S.configure()
    log = []
    nv = 3 if kind == "CartesianDMP" else S.nv
    kw = dict(skw, coupling_term=coupling_object(S.ip, "c", nv, log))
    y, v = S.step(cp(S.s), cp(S.sd), **kw)
    c.same(get(S.ip, S.obj, "t"), S.t, "clock after the step")
    lt = get(S.ip, S.obj, "last_t")
    if lt is not None:
        c.same(lt, S.last_t, "start of the interval")
    wy, wv = S.expected(S.s, S.sd, skw.get("step_function"),
                        coupling_spec("c", nv))
    c.same(v, wv, "velocity after the step")
    c.same(y, wy, "position after the step")
    y2, v2 = S.step(cp(S.s), cp(S.sd), **kw)
    c.same(get(S.ip, S.obj, "t"), S.t + S.dt, "clock after two steps")


def open_loop_grid(c, kind, ext, okw, full, rest, n):
    S = concrete(c, kind, ext, full=full, rest=rest, n=1, k=2)
    ts, ys = meth(S.ip, S.obj, "open_loop", run_t=DT * n, **okw)
    c.same(ts, spec.vec([DT * i for i in range(n + 1)]), "times")
    y, v = S.s, S.sd
    c.same(arr(ys.a[0]), y, "first position")
    for i in range(n):
        wy, wv = S.expected(y, v, okw.get("step_function"), last_t=DT * i)
        y, v = Arr(wy, "f"), Arr(wv, "f")
        c.same(arr(ys.a[i + 1]), y, "position %d" % (i + 1))


# -- E04 ---------------------------------------------------------------------
def symmetric_step(c, kind, ext, skw, change, back, smooth, past=False,
                   full=1, rest=HALF, p=None):
    """Step of the changed problem = changed result."""
    out = []
    for changed in (False, True):
        S = Setup(c, kind, ext, full=full, rest=rest, smooth=smooth,
                  last_t=TAU * (2 if past else F(1, 3)), h=TAU * F(1, 50),
                  p_gain=p)
        f = change if changed else (lambda what, x: x)
        s, g = S.state("s"), S.state("g")
        over = dict(s=f("y", s), g=f("y", g))
        for nm in ("start_yd", "goal_yd", "start_ydd", "goal_ydd"):
            over[nm] = f("v", S.vel(nm))
        S.configure(**over)
        if hasattr(S, "W"):
            w = f("w", arr(S.W.a.reshape(-1)))
            meth(S.ip, S.obj, "set_weights", w)
        if hasattr(S, "via"):
            S.ip.setattr(get(S.ip, S.obj, "forcing_term"), "viapoints",
                         f("via", cp(S.via)))
        y, v = f("y", S.state("y")), f("v", S.vel("v"))
        S.arbitrary_state(cp(y), cp(v))
        gy = f("y", S.state("given")) if p else y
        out.append(S.step(cp(gy), cp(v), **skw))
    c.same(out[1][0], back("y", cp(out[0][0])), "position")
    c.same(out[1][1], back("v", cp(out[0][1])), "velocity")


def symmetric_loop(c, kind, ext, okw, change, n=2):
    """Execution of the changed problem = changed execution."""
    out = []
    for changed in (False, True):
        f = change if changed else (lambda what, x: x)
        S = concrete(c, kind, ext)
        over = dict(s=f("y", S.state("s")), g=f("y", S.state("g")))
        for nm in ("start_yd", "goal_yd", "start_ydd", "goal_ydd"):
            over[nm] = f("v", S.vel(nm))
        S.configure(**over)
        if hasattr(S, "W"):
            meth(S.ip, S.obj, "set_weights", f("w", arr(S.W.a.reshape(-1))))
        if hasattr(S, "via"):
            S.ip.setattr(get(S.ip, S.obj, "forcing_term"), "viapoints",
                         f("via", cp(S.via)))
        out.append(meth(S.ip, S.obj, "open_loop", run_t=DT * n, **okw))
    c.same(out[1][0], out[0][0], "times")
    for i in range(n + 1):
        c.same(arr(out[1][1].a[i]), change("y", arr(out[0][1].a[i])),
               "position %d" % i)


POSITIONS = {"CartesianDMP": [0, 1, 2],
             "DualCartesianDMP": [0, 1, 2, 7, 8, 9],
             "SpringDamperOrientation": []}
ORIENT = {"CartesianDMP": [slice(3, 7)],
          "DualCartesianDMP": [slice(3, 7), slice(10, 14)],
          "SpringDamperOrientation": [slice(0, 4)]}


def shift(kind):
    def f(what, x):
        if what == "y":
            x = cp(x)
            idx = POSITIONS.get(kind, range(len(x.a)))
            for i in idx:
                x.a[i] = x.a[i] + T.sym("offset%d" % i)
        elif what == "via":
            x = cp(x)
            for i in range(x.a.shape[1]):
                for j in range(x.a.shape[0]):
                    x.a[j, i] = x.a[j, i] + T.sym("offset%d" % i)
        return x
    return f


def scale(kind):
    lam = T.sym("factor", "+")

    def f(what, x):
        x = cp(x)
        x.a = x.a * lam
        return x
    return f


def reframe(kind):
    r = T.unit_quaternion("frame")

    def f(what, x):
        if what != "y":
            return x
        x = cp(x)
        for o in ORIENT[kind]:
            x.a[o] = spec.vec(T.qmul_(list(x.a[o]), r))
        return x
    return f


def e04(c):
    for kind in KINDS:
        for label, ext, skw, okw in variants(kind):
            if label.startswith("default"):
                continue
            smooths = (False, True) if kind in (
                "DMP", "CartesianDMP", "DualCartesianDMP") else (False,)
            for smooth in smooths:
                if kind != "SpringDamperOrientation":
                    f = shift(kind)
                    c.obligation("%s[%s] shift smooth=%s" % (
                        kind, label, smooth), symmetric_step, c, kind, ext,
                        skw, f, f, smooth)
                if kind in ("DMP", "DMPWithFinalVelocity",
                            "StateFollowingDMP", "SpringDamper"):
                    f = scale(kind)
                    c.obligation("%s[%s] scale smooth=%s" % (
                        kind, label, smooth), symmetric_step, c, kind, ext,
                        skw, f, f, smooth)
                if kind in ORIENT:
                    f = reframe(kind)
                    c.obligation("%s[%s] frame smooth=%s" % (
                        kind, label, smooth), symmetric_step, c, kind, ext,
                        skw, f, f, smooth, full=1, rest=0)
            for nm, f in (("shift", shift(kind)), ("scale", scale(kind)),
                          ("frame", reframe(kind))):
                if nm == "shift" and kind == "SpringDamperOrientation" \
                        or (nm == "scale") == (kind in ORIENT) and \
                        nm != "shift":
                    continue
                c.obligation("%s[%s] %s of an execution" % (kind, label, nm),
                             symmetric_loop, c, kind, ext, okw, f,
                             1 if nm == "frame" else 2)
            if kind in ("DMP", "DMPWithFinalVelocity", "DualCartesianDMP"):
                f = shift(kind)
                c.obligation("%s[%s] shift with tracking error" % (
                    kind, label), symmetric_step, c, kind, ext, skw, f, f,
                    False, p=True)
            if kind == "DMPWithFinalVelocity":
                for nm, f in (("shift", shift(kind)), ("scale", scale(kind))):
                    c.obligation("%s[%s] %s after the end" % (
                        kind, label, nm), symmetric_step, c, kind, ext, skw,
                        f, f, False, past=True)
    c.obligation("generate_minimum_jerk shift", min_jerk_shift, c)


def min_jerk_shift(c):
    ip = c.interp()
    f = c.anchor(ip, "movement_primitives.data", "generate_minimum_jerk")
    s, g, o = sy("s", 2), sy("g", 2), sy("offset", 2)
    lam = T.sym("factor", "+")
    a = ip.call(f, [cp(s), cp(g), P(1), P(F(1, 4))], {})
    b = ip.call(f, [arr(s.a + o.a), arr(g.a + o.a), P(1), P(F(1, 4))], {})
    d = ip.call(f, [arr(s.a * lam), arr(g.a * lam), P(1), P(F(1, 4))], {})
    for i, what in enumerate(("positions", "velocities", "accelerations")):
        c.same(b[i], a[i].a + (o.a if i == 0 else 0), "shifted " + what)
        c.same(d[i], a[i].a * lam, "scaled " + what)


# -- E05 ---------------------------------------------------------------------
def e05(c):
    for kind in KINDS:
        if kind.startswith("Spring"):
            continue
        for label, ext, skw, okw in variants(kind):
            if label.startswith("default"):
                continue
            smooths = (False, True) if kind in (
                "DMP", "CartesianDMP", "DualCartesianDMP") else (False,)
            for smooth in smooths:
                c.obligation("%s[%s] duration smooth=%s" % (
                    kind, label, smooth), slower_step, c, kind, ext, skw,
                    smooth)
            c.obligation("%s[%s] duration with coupling" % (kind, label),
                         slower_step, c, kind, ext, skw, False, coup=True)
            c.obligation("%s[%s] duration after the end" % (kind, label),
                         slower_step, c, kind, ext, skw, False, past=True)
            c.obligation("%s[%s] open loop" % (kind, label), slower_loop, c,
                         kind, ext, okw)
    for kind in ("DMP", "DMPWithFinalVelocity", "CartesianDMP",
                 "DualCartesianDMP"):
        c.obligation("%s duration changed later" % kind, changed_duration, c,
                     kind)
        c.obligation("%s duration changed later, long sub-steps" % kind,
                     changed_duration, c, kind, h=F(1, 5), rest=0)
        c.obligation("%s duration changed later, after a step" % kind,
                     changed_duration, c, kind, full=1, rest=0, warm=True)
        c.obligation("%s duration changed later, steps longer than it" % kind,
                     changed_duration, c, kind, h=F(3), full=1, rest=0)
    c.obligation("generate_minimum_jerk duration", min_jerk_duration, c)


LAM = T.sym("slow", "+")


def position_coupling(ip, n):
    """Coupling that depends on the position only."""
    from ..values import Cls, StaticM, Native

    def coupling(ip, args, kwargs):
        y = args[0]
        a = [P(x) for x in y.a]
        return (Arr(spec.vec([T.fn("c.cd%d" % i, *a) for i in range(n)]),
                    "f"),
                Arr(spec.vec([T.fn("c.cdd%d" % i, *a) for i in range(n)]),
                    "f"))
    cls = Cls("Coupling", [], {}, None)
    cls.ns["coupling"] = StaticM(Native(coupling, "coupling"))
    return Obj(cls)


def slower_step(c, kind, ext, skw, smooth, coup=False, past=False):
    out = []
    tau, factor = (P(F(3, 7)), P(F(5, 2))) if past else (TAU, LAM)
    for lam in (P(1), factor):
        S = Setup(c, kind, ext, smooth=smooth, tau=tau * lam,
                  last_t=tau * lam * (2 if past else F(1, 3)),
                  h=tau * lam * F(1, 50))
        v = S.vel("v")
        scaled = {nm: arr(S.vel(nm).a / (lam if nm.endswith("yd")
                                        else lam ** 2))
                  for nm in ("start_yd", "goal_yd")}
        scaled["start_ydd"] = arr(S.vel("start_ydd").a / lam ** 2)
        scaled["goal_ydd"] = arr(S.vel("goal_ydd").a / lam ** 2)
        S.configure(**scaled)
        S.arbitrary_state(None, arr(v.a / lam))
        kw = dict(skw)
        if coup:
            kw["coupling_term"] = position_coupling(
                S.ip, 3 if kind == "CartesianDMP" else S.nv)
        out.append(S.step(cp(S.y), arr(v.a / lam), **kw))
    c.same(out[1][0], out[0][0], "position of the slower movement")
    c.same(arr(out[1][1].a * factor), out[0][1], "velocity of the slower "
           "movement times the factor")


def slower_loop(c, kind, ext, okw):
    out = []
    for lam in (1, 3):
        S = concrete(c, kind, ext, tau=F(3, 10) * lam, dt=DT * lam)
        meth(S.ip, S.obj, "configure", start_yd=arr(S.sd.a / lam),
             goal_yd=arr(S.gd.a / lam), start_ydd=arr(S.sdd.a / lam ** 2),
             goal_ydd=arr(S.gdd.a / lam ** 2))
        out.append(meth(S.ip, S.obj, "open_loop", run_t=F(2, 10) * lam,
                        **okw))
    c.same(arr(out[0][0].a * 3), out[1][0], "times")
    c.same(out[1][1], out[0][1], "trajectory of the slower movement")


def changed_duration(c, kind, h=F(1, 50), full=1, rest=HALF, warm=False):
    """Setting the execution time later = constructing with it."""
    out = []
    for later in (False, True):
        S = Setup(c, kind, True, tau=TAU if not later else T.sym("old", "+"),
                  last_t=TAU * F(1, 3), h=TAU * h, full=full, rest=rest,
                  warm=warm)
        if later:
            S.ip.setattr(S.obj, "execution_time_", TAU)
        c.same(get(S.ip, S.obj, "execution_time_"), TAU, "execution time")
        S.configure()
        out.append(S.step(S.state("y"), S.vel("v")))
    c.same(out[1][0], out[0][0], "position")
    c.same(out[1][1], out[0][1], "velocity")


def min_jerk_duration(c):
    ip = c.interp()
    f = c.anchor(ip, "movement_primitives.data", "generate_minimum_jerk")
    s, g = sy("s", 2), sy("g", 2)
    a = ip.call(f, [cp(s), cp(g), P(1), P(F(1, 4))], {})
    b = ip.call(f, [cp(s), cp(g), P(3), P(F(3, 4))], {})
    for i, what in enumerate(("positions", "velocities", "accelerations")):
        c.same(arr(b[i].a * 3 ** i), a[i], what)


# -- E06 ---------------------------------------------------------------------
def e06(c):
    for kind in KINDS:
        for label, ext, skw, okw in variants(kind):
            if label.startswith("default"):
                continue
            for when in ("during", "after"):
                c.obligation("%s[%s] rests in the goal (%s)" % (
                    kind, label, when), rests, c, kind, ext, skw, when,
                    False)
            if kind in ("DMP", "CartesianDMP", "DualCartesianDMP"):
                c.obligation("%s[%s] rests in the goal (smooth scaling)" % (
                    kind, label), rests, c, kind, ext, skw, "during", True)
            c.obligation("%s[%s] open loop from goal to goal" % (kind, label),
                         stays, c, kind, ext, okw)
    c.obligation("minimum jerk from goal to goal", mj_stays, c)


def rests(c, kind, ext, skw, when, smooth):
    late = when == "after"
    tau = P(F(3, 7)) if late else TAU
    S = Setup(c, kind, ext, smooth=smooth, full=2, rest=HALF, tau=tau,
              last_t=tau * (2 if late else F(1, 3)), h=tau * F(1, 50),
              p_gain=True)
    g = S.state("g")
    s = S.state("s") if late and not smooth else g
    z = arr(spec.zeros(S.nv))
    S.configure(s=s, g=g, start_yd=cp(z), goal_yd=cp(z), start_ydd=cp(z),
                goal_ydd=cp(z))
    S.ip.generic = False
    S.arbitrary_state(g, z)
    if hasattr(S, "W"):
        meth(S.ip, S.obj, "set_weights", arr(spec.zeros(S.W.a.size)))
    if hasattr(S, "via"):
        via = np.empty((S.k, S.n), dtype=object)
        via[:] = g.a
        S.ip.setattr(get(S.ip, S.obj, "forcing_term"), "viapoints",
                     Arr(via, "f"))
    y, v = cp(g), cp(z)
    for i in range(2):
        y, v = S.step(y, v, **skw)
        c.same(v, z, "velocity after step %d" % (i + 1))
        c.same(y, g, "position after step %d" % (i + 1))


def stays(c, kind, ext, okw):
    S = concrete(c, kind, ext)
    g = S.state("g")
    z = arr(spec.zeros(S.nv))
    S.configure(s=g, g=g, start_yd=cp(z), goal_yd=cp(z), start_ydd=cp(z),
                goal_ydd=cp(z))
    S.ip.generic = False
    if hasattr(S, "W"):
        meth(S.ip, S.obj, "set_weights", arr(spec.zeros(S.W.a.size)))
    if hasattr(S, "via"):
        via = np.empty((S.k, S.n), dtype=object)
        via[:] = g.a
        S.ip.setattr(get(S.ip, S.obj, "forcing_term"), "viapoints",
                     Arr(via, "f"))
    _, ys = meth(S.ip, S.obj, "open_loop", run_t=F(3, 10), **okw)
    for i in range(ys.a.shape[0]):
        c.same(arr(ys.a[i]), g, "position %d" % i)


def mj_stays(c):
    ip = c.interp()
    f = c.anchor(ip, "movement_primitives.data", "generate_minimum_jerk")
    g = sy("g", 2)
    X, V, A = ip.call(f, [cp(g), cp(g), P(1), P(F(1, 4))], {})
    for i in range(X.a.shape[0]):
        c.same(arr(X.a[i]), g, "position %d" % i)
        c.same(arr(V.a[i]), spec.zeros(2), "velocity %d" % i)
        c.same(arr(A.a[i]), spec.zeros(2), "acceleration %d" % i)
