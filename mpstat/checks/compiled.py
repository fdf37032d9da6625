"""Package without the compiled module, memory accesses of the compiled one."""
from fractions import Fraction

from .. import spec, kit
from .. import terms as T
from ..kit import (arr, cp, sy, meth, get, new, coupling_object, DMP, FAST,
                   rejects)
from ..terms import P
from ..values import Undecided
from . import imitation, siblings
from .execution import KINDS, concrete, DT
from .ownership import compare_probes
from .state import uninitialised

F = Fraction
HALF = Fraction(1, 2)
COMPILED = ("DMP", "CartesianDMP", "DualCartesianDMP")


# -- X01 ---------------------------------------------------------------------------
MODULES = (DMP, "movement_primitives.dmp._dmp", "movement_primitives.io",
           "movement_primitives.promp", "movement_primitives.spring_damper",
           "movement_primitives.dmp_potential_field",
           "movement_primitives.minimum_jerk_trajectory",
           "movement_primitives.kinematics", "movement_primitives.data",
           "movement_primitives.utils")


def x01(c):
    c.obligation("modules", modules, c)
    for kind in KINDS:
        for smooth in ((False, True) if kind in COMPILED else (False,)):
            for p in ((None, True) if kind in (
                    "DMP", "DMPWithFinalVelocity", "DualCartesianDMP")
                    else (None,)):
                for coup in (False, True):
                    for full, rest in ((1, 0), (
                            1 if kind == "DualCartesianDMP" else 2, HALF)):
                        c.obligation(
                            "%s smooth=%s feedback=%s coupling=%s sub-steps="
                            "%s+%s" % (kind, smooth, bool(p), coup, full,
                                       rest),
                            default_step, c, kind, smooth, p, coup, full,
                            rest)
            c.obligation("%s execution smooth=%s" % (kind, smooth),
                         default_execution, c, kind, smooth)
        if not kind.startswith("Spring"):
            c.obligation("%s across the end" % kind, default_step, c, kind,
                         False, None, False, 1, 0, tau=F(7, 100))
            c.obligation("%s after the end" % kind, default_step, c, kind,
                         False, None, False, 1, 0, tau=F(17, 1000))
            c.obligation("%s execution beyond the end" % kind,
                         default_execution, c, kind, False,
                         tau=F(7, 100))
        if kind in ("DMP", "DMPWithFinalVelocity"):
            for n in (1, 7):
                c.obligation("%s n_dims=%d" % (kind, n), default_step, c,
                             kind, False, True, True, 1, 0, n=n)
    for kind in COMPILED + ("DMPWithFinalVelocity",):
        c.obligation("%s imitation" % kind, learn, c, kind)
    for kind in COMPILED:
        for method, option, name in UNAVAILABLE[kind]:
            c.obligation("%s %s(%s=%r) unavailable" % (
                kind, method, option, name), unavailable, c, kind, method,
                option, name)
    for fast in (False, True):
        c.obligation("obstacle avoidance fast=%s" % fast, obstacle, c, fast)


def modules(c):
    for m in MODULES:
        for ext in (False, True):
            ip = c.interp(ext)
            c.anchor(ip, m)
            c.comparisons += 1
    ip = c.interp(False)
    a = c.anchor(ip, DMP)
    b = c.anchor(c.interp(True), DMP)
    lost = sorted(set(b.ns) - set(a.ns))
    public = [n for n in lost if not n.startswith("_")]
    c.require(not public, "without the compiled module %s cannot be imported "
              "from the package" % ", ".join(public))


def default_step(c, kind, smooth, p, coup, full, rest, **more):
    out = []
    for ext in (False, True):
        S = concrete(c, kind, ext, smooth=smooth, p=p, full=full, rest=rest,
                     **more)
        kw = {}
        if coup:
            nv = 3 if kind == "CartesianDMP" else S.nv
            kw["coupling_term"] = coupling_object(S.ip, "c", nv)
        y, v = S.step(S.state("y"), S.vel("v"), **kw)
        y, v = cp(y), cp(v)
        y2, v2 = S.step(S.state("y2"), S.vel("v2"), **kw)
        out.append([("position", y), ("velocity", v),
                    ("second position", cp(y2)),
                    ("second velocity", cp(v2)),
                    ("time", get(S.ip, S.obj, "t"))])
    compare_probes(c, out[0], out[1], "a step without the compiled module")


def default_execution(c, kind, smooth, **more):
    out = []
    for ext in (False, True):
        S = concrete(c, kind, ext, smooth=smooth, **more)
        t, y = meth(S.ip, S.obj, "open_loop", run_t=2 * DT)
        out.append([("times", cp(t)), ("trajectory", cp(y))])
    compare_probes(c, out[0], out[1],
                   "execution without the compiled module")


def learn(c, kind):
    out = []
    for ext in (False, True):
        S = concrete(c, kind, ext)
        meth(S.ip, S.obj, "imitate", imitation.times(imitation.UNEVEN),
             imitation.demo(kind, 5),
             regularization_coefficient=imitation.LAM)
        out.append([("weights", cp(meth(S.ip, S.obj, "get_weights")))])
    compare_probes(c, out[0], out[1],
                   "imitation without the compiled module")


UNAVAILABLE = {
    "DMP": [(m, "step_function", n) for m in ("step", "open_loop")
            for n in ("euler-cython", "rk4-cython")],
    "CartesianDMP": [("open_loop", o, n) for o, n in (
        ("step_function", "euler-cython"), ("step_function", "rk4-cython"),
        ("quaternion_step_function", "cython"))],
    "DualCartesianDMP": [("open_loop", "step_function", "cython")],
}


def unavailable(c, kind, method, option, name):
    """A name of an implementation that is not there is rejected and leaves
    no trace."""
    S, S2 = concrete(c, kind, False), concrete(c, kind, False)
    args = [S.state("y"), S.vel("v")] if method == "step" else []
    kw = {option: name}
    if method == "open_loop":
        kw["run_t"] = DT
    rejects(c, S.ip, lambda: meth(S.ip, S.obj, method, *args, **kw),
            "%s with a compiled implementation that is not available" %
            method)
    out = []
    for X in (S, S2):
        y, v = X.step(X.state("y"), X.vel("v"))
        y2, v2 = X.step(X.state("y2"), X.vel("v2"))
        out.append([("position", cp(y)), ("velocity", cp(v)),
                    ("second position", cp(y2)),
                    ("second velocity", cp(v2)),
                    ("time", get(X.ip, X.obj, "t"))])
    compare_probes(c, out[0], out[1], "a step after the rejected call")


def obstacle(c, fast):
    out = []
    for ext in (False, True):
        ip = c.interp(ext)
        o = new(ip, c.anchor(ip, DMP, "CouplingTermObstacleAvoidance2D"),
                obstacle_position=sy("o", 2), gamma=T.sym("ga", "+"),
                beta=T.sym("be", "+"), fast=fast)
        r = meth(ip, o, "coupling", sy("y", 2), sy("v", 2))
        out.append([("velocity coupling", cp(r[0])),
                    ("acceleration coupling", cp(r[1]))])
    compare_probes(c, out[0], out[1],
                   "obstacle avoidance without the compiled module")


# -- X02 ---------------------------------------------------------------------------
def x02(c):
    total = {}
    for name in ("euler", "rk4", "quaternion", "dual"):
        coups = (None, "term") if name == "dual" else \
            (None, "term", "precomputed")
        for smooth in (False, True):
            for coup in coups:
                for track in ((False, True) if name != "quaternion"
                              else (False,)):
                    c.obligation("%s smooth=%s coupling=%s feedback=%s" % (
                        name, smooth, coup, track), integrator, c, name,
                        total, smooth=smooth, coup=coup, track=track)
        for n in ((1, 3, 4, 5, 6, 7) if name in ("euler", "rk4") else ()):
            for coup in coups:
                for track in (False, True):
                    c.obligation("%s n_dims=%d coupling=%s feedback=%s" % (
                        name, n, coup, track), integrator, c, name, total,
                        n=n, smooth=track, coup=coup, track=track)
        for at in ("start", "end", "before"):
            kw = dict(start=dict(at=P(0)), end=dict(at=2 * kit.TAU),
                      before=dict(before=True))[at]
            for smooth in (False, True):
                for coup in coups:
                    for track in ((False, True) if name != "quaternion"
                                  else (False,)):
                        c.obligation(
                            "%s at %s smooth=%s coupling=%s feedback=%s" % (
                                name, at, smooth, coup, track), integrator,
                            c, name, total, smooth=smooth, coup=coup,
                            track=track, **kw)
    for n in (1, 2, 5):
        c.obligation("phase of %d times" % n, helper, c, total, "phase",
                     lambda: [sy("t", n), T.sym("alpha", "+"),
                              kit.TAU, P(0)])
    c.obligation("phase of a time", helper, c, total, "phase",
                 lambda: [T.sym("t"), T.sym("alpha", "+"), kit.TAU, P(0)])
    c.obligation("product of quaternions", helper, c, total,
                 "concatenate_quaternions", lambda: [kit.uq("a"),
                                                     kit.uq("b")])
    c.obligation("logarithm of quaternions", helper, c, total,
                 "compact_axis_angle_from_quaternion", lambda: [kit.uq("a")])
    c.obligation("obstacle avoidance", helper, c, total,
                 "obstacle_avoidance_acceleration_2d", lambda: [
                     sy("y", 2), sy("v", 2), sy("o", 2), T.sym("g", "+"),
                     T.sym("b", "+")])
    c.obligation("obstacle avoidance at rest", helper, c, total,
                 "obstacle_avoidance_acceleration_2d", lambda: [
                     sy("y", 2), arr(spec.zeros(2)), sy("o", 2),
                     T.sym("g", "+"), T.sym("b", "+")])
    c.obligation("internal quaternion functions", others, c, total)
    for kind in COMPILED:
        for smooth in (False, True):
            c.obligation("%s smooth=%s" % (kind, smooth), through, c, kind,
                         total, smooth)
    c.obligation("accesses found", found, c, total)
    c.facts["array_accesses_of_compiled_functions"] = len(total)
    c.facts["compiled_functions_with_accesses"] = sorted(
        {k[0].rpartition(" in ")[2] for k in total})


def found(c, total):
    if not total:
        raise Undecided("no element access in any compiled function")
    c.comparisons += 1


def check_accesses(c, ip, total):
    for where, name, idx, shape, unchecked, nowrap in ip.raw_accesses:
        total[(where, name)] = total.get((where, name), 0) + 1
        for k, n in zip(idx, shape):
            c.comparisons += 1
            if 0 <= k < n:
                continue
            if -n <= k < 0 and not nowrap:
                continue
            c.fail("access of element %s of %s, which has shape %s%s" % (
                list(idx), name, tuple(shape),
                ", without bounds check" if unchecked else ""), where)


def integrator(c, name, total, **kw):
    ip, _, args, _, _ = siblings.call(c, name, True, **kw)
    c.comparisons += 1
    check_accesses(c, ip, total)
    for k, v in args.items():
        c.require(not uninitialised(v),
                  "%s contains memory that was never written" % k)


def helper(c, total, name, args):
    ip = c.interp()
    f = c.anchor(ip, FAST, name)
    try:
        r = ip.call(f, args(), {})
    finally:
        check_accesses(c, ip, total)
    c.require(not uninitialised(r),
              "the result contains memory that was never written")


def others(c, total):
    """Functions that the other checks replace by the map they compute."""
    ip = c.interp()
    kinds = kit.recognise(c, ip)
    for name, kind in sorted(kinds.items()):
        ip = c.interp()
        f = ip.load(FAST).ns[name]
        args = {"mul": [kit.uq("a"), kit.uq("b")], "conj": [kit.uq("a")],
                "log": [kit.uq("a")], "exp": [sy("a", 3)]}[kind]
        try:
            ip.call(f, args, {})
        finally:
            check_accesses(c, ip, total)


def through(c, kind, total, smooth):
    """Arrays that the classes pass to the compiled functions."""
    S = concrete(c, kind, True, smooth=smooth, p=True)
    try:
        S.step(S.state("y"), S.vel("v"))
        meth(S.ip, S.obj, "open_loop", run_t=DT)
    finally:
        check_accesses(c, S.ip, total)
