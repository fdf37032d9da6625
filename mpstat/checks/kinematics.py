"""Kinematic chains: forward and inverse kinematics."""
import itertools
import math
from fractions import Fraction

import numpy as np

from .. import spec, kit
from .. import terms as T
from ..kit import arr, cp, sy, meth, new
from ..npmodel import MISSING, MODELS, Rng, as_arr, dot, ext_method
from ..terms import P
from ..values import Arr, Undecided, Unk, npoly
from .coupling import rotation

F = Fraction
KIN = "movement_primitives.kinematics"
INF = T.float_const(math.inf)
WO, WP = T.sym("w_orientation", "+"), T.sym("w_position", "+")
I = T.sym("interval", "+")


# -- model of the URDF transform manager --------------------------------------
# A robot is a list of joints (name, child, parent, rotation, translation,
# axis, limits, type).  The base class of the analysed transform manager is
# external; this is what it does with such a robot.
def limits(name):
    lo = T.sym("lo_" + name)
    return lo, lo + T.sym("range_" + name, "+")


def offset(name):
    return sy("p_" + name, 3).a


SWAP = np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]])
AXES = {"x": (1, 0, 0), "y": (0, 1, 0), "z": (0, 0, 1)}


def joint(name, child, parent, axis="z", kind="revolute", lim=None, rot=None):
    R = spec.eye(3)
    if rot is not None:
        for i in range(3):
            for j in range(3):
                R[i, j] = P(int(rot[i, j]))
    ax = spec.vec(AXES[axis]) if isinstance(axis, str) else axis
    return (name, child, parent, R, offset(name), ax,
            lim or limits(name), kind)


def planar():
    """One revolute and one prismatic joint."""
    return [joint("a", "l1", "base"),
            joint("b", "l2", "l1", "x", "prismatic"),
            joint("mount", "tool", "l2", kind="fixed", rot=SWAP)]


def arm():
    return [joint("a", "l1", "base", rot=SWAP),
            joint("b", "l2", "l1", "x", "prismatic"),
            joint("c", "l3", "l2", "y", lim=(-INF, INF)),
            joint("mount", "tool", "l3", kind="fixed")]


def long():
    """Nine joints, most of them sliding, with all kinds of limits."""
    lims = [None, (-INF, INF), (-INF, T.sym("hi_half", "+")),
            (T.sym("lo_half"), INF)]
    out = []
    for i in range(9):
        name = "j%d" % i
        out.append(joint(name, "m%d" % (i + 1), "m%d" % i if i else "base",
                         "xyz"[i % 3], "revolute" if i == 4 else "prismatic",
                         lims[i % 4]))
    return out + [joint("mount", "tool", "m9", kind="fixed")]


LONG = tuple("j%d" % i for i in range(9))


def homogeneous(R, p):
    a = spec.zeros(4, 4)
    a[:3, :3] = R
    a[:3, 3] = p
    a[3, 3] = T.ONE
    return a


def axis_angle(u, q):
    c, s = T.cos_(q), T.sin_(q)
    o = spec.zeros(3, 3)
    K = [[T.ZERO, -u[2], u[1]], [u[2], T.ZERO, -u[0]], [-u[1], u[0], T.ZERO]]
    for i in range(3):
        for j in range(3):
            o[i, j] = (1 - c) * u[i] * u[j] + s * K[i][j] \
                + (c if i == j else T.ZERO)
    return o


def clipped(q, lim):
    return T.min_(T.max_(P(q), lim[0]), lim[1])


def invert(a):
    R = a[:3, :3].T
    return homogeneous(R, -spec.dot(R, a[:3, 3]))


def local_transform(j, q):
    """child to parent for the joint position q."""
    name, child, parent, R, p, ax, lim, kind = j
    base = homogeneous(R, p)
    if kind == "fixed" or q is None:
        return base
    x = clipped(q, lim)
    if kind == "revolute":
        m = homogeneous(axis_angle(ax, x), spec.zeros(3))
    else:
        m = homogeneous(spec.eye(3), x * ax)
    return spec.dot(base, m)


def path(robot, a, b):
    """Frames from a to b."""
    up = {j[1]: j[2] for j in robot}

    def chain(f):
        out = [f]
        while out[-1] in up:
            out.append(up[out[-1]])
        return out
    x, y = chain(a), chain(b)
    common = next(f for f in x if f in y)
    return x[:x.index(common) + 1] + y[:y.index(common)][::-1]


def forward(robot, q, ee="tool", base="base"):
    tf = {(j[1], j[2]): local_transform(j, q.get(j[0])) for j in robot}
    m = spec.eye(4)
    p = path(robot, ee, base)
    for a, b in zip(p, p[1:]):
        step = tf[a, b] if (a, b) in tf else invert(tf[b, a])
        m = spec.dot(step, m)
    return m


def install(ip, robot):
    def setup(o):
        for k in ("_joints", "transforms"):
            o.d[k] = {}
        o.d["nodes"] = []
        o.d["collision_objects"] = []
        o.d["visuals"] = []
        for k in ("_joints", "transforms", "nodes", "collision_objects",
                  "visuals"):
            ip.born(o.d[k])

    def load(o):
        for name, child, parent, R, p, ax, lim, kind in robot:
            add_transform(o, child, parent, arr(homogeneous(R, p)))
            o.d["_joints"][name] = (
                child, parent, arr(homogeneous(R, p)), arr(ax.copy()),
                tuple(lim), kind)

    def add_transform(o, a, b, m):
        for f in (a, b):
            if f not in o.d["nodes"]:
                o.d["nodes"].append(f)
        ip.touch(o.d["transforms"])
        o.d["transforms"][a, b] = m

    def get_transform(o, a, b):
        t = o.d["transforms"]
        for f in (a, b):
            if f not in o.d["nodes"]:
                ip.throw("KeyError", f)
        if (a, b) in t:
            return t[a, b]
        if (b, a) in t:
            return MODELS["pytransform3d.transformations.invert_transform"](
                ip, t[b, a])
        return path_transform(o, path(robot, a, b))

    def path_transform(o, p):
        m = arr(spec.eye(4))
        for a, b in zip(p, p[1:]):
            m = dot(ip, get_transform(o, a, b), m)
        return m

    def set_joint(o, name, q):
        if name not in o.d["_joints"]:
            ip.throw("KeyError", name)
        j = next(j for j in robot if j[0] == name)
        add_transform(o, j[1], j[2], arr(local_transform(j, q)))

    def base_call(ip_, pth, o, name, a, k):
        if not pth.startswith("pytransform3d"):
            raise Undecided("method %s of %s" % (name, pth))
        names = {"set_joint": ("joint_name", "value"),
                 "get_transform": ("from_frame", "to_frame"),
                 "add_transform": ("from_frame", "to_frame", "A2B"),
                 "get_joint_limits": ("joint_name",),
                 "has_frame": ("frame",), "_path_transform": ("path",),
                 "_shortest_path": ("i", "j")}
        if name in names:
            a = list(a) + [k[x] for x in names[name][len(a):] if x in k]
        if name == "__init__":
            setup(o)
            return None
        if name == "load_urdf":
            ip_.event("load_urdf", "load_urdf", a, k)
            load(o)
            return None
        if name == "set_joint":
            return set_joint(o, a[0], a[1])
        if name == "get_transform":
            return get_transform(o, a[0], a[1])
        if name == "add_transform":
            add_transform(o, *a)
            return o
        if name == "get_joint_limits":
            return o.d["_joints"][a[0]][4]
        if name == "has_frame":
            return a[0] in o.d["nodes"]
        if name == "_path_transform":
            return path_transform(o, list(a[0]))
        if name == "_shortest_path":
            n = o.d["nodes"]
            return path(robot, n[ip_.as_index(a[0])], n[ip_.as_index(a[1])])
        raise Undecided("method %s of the transform manager" % name)
    methods = ("set_joint", "get_transform", "add_transform", "load_urdf",
               "get_joint_limits", "has_frame", "_path_transform",
               "_shortest_path")
    ip.base_call = base_call
    ip.base_attr = lambda ip_, pth, o, name: ext_method(
        ip_, pth, o, name) if name in methods else MISSING


def chain(c, robot, joints, ee="tool", base="base", verbose=0):
    ip = c.interp()
    install(ip, robot)
    k = new(ip, c.anchor(ip, KIN, "Kinematics"), urdf="URDF")
    ch = meth(ip, k, "create_chain", list(joints), base, ee, verbose=verbose)
    return ip, ch


def box(robot, joints):
    """Joint limits; unlimited joints move by at most one half turn."""
    out = np.empty((len(joints), 2), dtype=object)
    for i, n in enumerate(joints):
        lo, hi = next(j[6] for j in robot if j[0] == n)
        out[i] = [-T.PI if lo == -INF else lo, T.PI if hi == INF else hi]
    return out


def desired(name="d"):
    return homogeneous(rotation(T.unit_quaternion(name)),
                       sy("p_" + name, 3).a)


def pose_error(want, got, wo=T.ONE, wp=T.ONE):
    tr = T.ZERO
    for i in range(3):
        for j in range(3):
            tr = tr + want[i, j] * got[i, j]
    angle = T.acos_(T.max_(T.min_((tr - 1) / 2, T.ONE), -T.ONE))
    d = want[:3, 3] - got[:3, 3]
    return wo * angle + wp * T.sqrt_(spec.dot(d, d))


def minimisations(ip):
    return [e for e in ip.events if e["name"] == "scipy.optimize.minimize"]


def bounds_of(ip, e):
    b = e["kwargs"]["bounds"]
    if b is None:
        return None
    if isinstance(b, Unk):
        raise Undecided("bounds of the optimisation")
    return as_arr(ip, b)


def same_bounds(c, ip, e, want, what, domain=None):
    b = bounds_of(ip, e)
    c.require(b is not None, "%s: no bounds" % what, e["where"])
    c.same(b, want, "bounds of %s" % what, e["where"], domain=domain)


def objective(ip, e, q):
    fun, _, args = e["args"]
    args = list(args) if isinstance(args, (tuple, list)) else [args]
    return P(kit.val(ip.call(fun, [arr(q)] + args, {})))


def script(ip, errors):
    """The k-th optimisation ends in symbols sol<k> with the given error."""
    def hook(ip_, k, fun, x0, args):
        e = errors[k] if k < len(errors) else errors[-1]
        return sy("sol%d" % k, x0.a.size), npoly(P(e))
    ip.minimize_hook = hook


def rng(ip):
    return Rng(ip, "state")


def in_box(q, b):
    """Conditions for joint positions within limits."""
    out = []
    for x, (lo, hi) in zip(q, b):
        out += [T.le(lo, x), T.le(x, hi)]
    return out


ROBOTS = {"planar": (planar, ("a", "b")), "arm": (arm, ("a", "b", "c")),
          "permuted": (arm, ("c", "a", "b")),
          "long": (long, LONG), "reversed": (long, LONG[::-1])}


def make(c, name, **kw):
    robot, joints = ROBOTS[name][0](), ROBOTS[name][1]
    ip, ch = chain(c, robot, joints, **kw)
    return ip, ch, robot, joints


# -- the methods that search for joint angles ----------------------------------
def run_inverse(ip, ch, n, **kw):
    return meth(ip, ch, "inverse", arr(desired()), sy("q0", n), **kw)


def run_random(ip, ch, n, **kw):
    return meth(ip, ch, "inverse_with_random_restarts", arr(desired()),
                random_state=rng(ip), **kw)


def run_local(ip, ch, n, **kw):
    return meth(ip, ch, "local_inverse_with_random_restarts", arr(desired()),
                sy("q0", n), I, random_state=rng(ip), **kw)


def poses(m):
    a = np.empty((m, 4, 4), dtype=object)
    for t in range(m):
        a[t] = desired("d%d" % t)
    return Arr(a, "f")


def run_trajectory(ip, ch, n, m=2, start=True, restarts=True, **kw):
    if start:
        kw["initial_joint_angles"] = sy("q0", n)
    return meth(ip, ch, "inverse_trajectory", poses(m), interval=I,
                random_restarts=restarts, random_state=rng(ip), **kw)


TRAJECTORIES = [(s, r) for s in (True, False) for r in (True, False)]


SOLVERS = ("SLSQP", "L-BFGS-B", "COBYLA")


# -- K01 --------------------------------------------------------------------------
def k01(c):
    for r in ROBOTS:
        c.obligation("inverse %s" % r, k_inverse, c, r)
        c.obligation("given bounds %s" % r, k_given, c, r)
        for n in (1, 3, 12):
            c.obligation("%d random restarts %s" % (n, r), k_random, c, r, n)
            c.obligation("%d local restarts %s" % (n, r), k_local, c, r, n)
        for s, t in TRAJECTORIES:
            c.obligation("trajectory %s start=%s restarts=%s" % (r, s, t),
                         k_trajectory, c, r, s, t)
    for solver in SOLVERS:
        for mode in MODES:
            c.obligation("%s with %s" % (mode, solver), k_solver_bounds, c,
                         mode, solver)
    for s, t in TRAJECTORIES:
        c.obligation("long trajectory start=%s restarts=%s" % (s, t),
                     k_trajectory, c, "planar", s, t, 6)
    for at in (0, 1, 2, 3):
        c.obligation("local restarts at limit %d" % at, k_local_limit, c, at)
    c.obligation("limits after searches", k_again, c)


def k_inverse(c, r):
    ip, ch, robot, joints = make(c, r)
    got = run_inverse(ip, ch, len(joints))
    e, = minimisations(ip)
    same_bounds(c, ip, e, box(robot, joints), "inverse kinematics")
    c.same(got, e["result"]["x"], "joint angles (required: the solution of "
           "the optimisation)")


def k_given(c, r):
    ip, ch, robot, joints = make(c, r)
    b = sy("bound", (len(joints), 2))
    run_inverse(ip, ch, len(joints), bounds=cp(b))
    e, = minimisations(ip)
    same_bounds(c, ip, e, b, "inverse kinematics with given bounds")


def sampled(n, k):
    """The n-vector of the k-th draw from [0, 1)."""
    return spec.vec([T.sym("U(state,%d)" % (k * n + i), "0+")
                     for i in range(n)])


def same_start(c, e, b, k, what, domain=None):
    """The start of an optimisation is the k-th uniform sample in b."""
    x0 = e["args"][1]
    n = len(x0.a)
    draws = {a.name for x in x0.a for a in P(x).atoms(True)
             if a.kind == "sym" and a.name.startswith(("U(", "N("))}
    if not draws or any(d.startswith("N(") for d in draws):
        c.fail("%s does not start at a uniformly sampled position" % what,
               e["where"])
    u = sampled(n, k)
    c.same(x0, b[:, 0] + u * (b[:, 1] - b[:, 0]), "start of %s" % what,
           e["where"], domain=domain)


def k_random(c, r, n=3):
    ip, ch, robot, joints = make(c, r)
    script(ip, [1])
    run_random(ip, ch, len(joints), n_restarts=n)
    b = box(robot, joints)
    es = minimisations(ip)
    c.require(len(es) == n, "%d optimisations instead of %d" % (len(es), n))
    for k, e in enumerate(es):
        same_bounds(c, ip, e, b, "restart %d" % k)
        same_start(c, e, b, k, "restart %d" % k)


def around(q, robot, joints):
    b = box(robot, joints)
    out = np.empty(b.shape, dtype=object)
    for i in range(len(q)):
        lo, hi = b[i]
        out[i, 0] = T.min_(T.max_(q[i] - I, lo), hi)
        out[i, 1] = T.min_(T.max_(q[i] + I, lo), hi)
    return out


def k_local(c, r, n=3):
    ip, ch, robot, joints = make(c, r)
    script(ip, [1])
    run_local(ip, ch, len(joints), n_restarts=n)
    q0 = sy("q0", len(joints))
    b = around(q0.a, robot, joints)
    dom = in_box(q0.a, box(robot, joints))
    es = minimisations(ip)
    c.require(len(es) == n, "%d optimisations instead of %d" % (len(es), n))
    for k, e in enumerate(es):
        same_bounds(c, ip, e, b, "local restart %d" % k, dom)
        if k == 0:
            c.same(e["args"][1], q0, "start of the first local optimisation",
                   e["where"], domain=dom)
        else:
            same_start(c, e, b, k - 1, "local restart %d" % k, dom)


def k_solver_bounds(c, mode, solver):
    """All searches are bounded, whatever the solver is."""
    ip, ch, robot, joints = make(c, "planar")
    script(ip, [0] if mode.startswith("trajectory") else [1])
    call_mode(ip, ch, 2, mode, solver=solver)
    es = minimisations(ip)
    c.require(bool(es), "no optimisation")
    b = box(robot, joints)
    for k, e in enumerate(es):
        q = None
        if mode == "local":
            q = sy("q0", 2).a
        elif mode.startswith("trajectory") and k:
            q = sy("sol%d" % (k - 1), 2).a
        if q is None:
            same_bounds(c, ip, e, b, "optimisation %d" % k)
        else:
            same_bounds(c, ip, e, around(q, robot, joints),
                        "optimisation %d" % k, in_box(q, b))


def k_local_limit(c, at):
    """Searches around joint angles at or beyond a limit."""
    robot, joints = planar(), ("a", "b")
    lim = [(P(F(-1, 2)), P(F(3, 4))), (P(F(-1)), P(F(2)))]
    robot = [j[:6] + (lim[i],) + j[7:] if i < 2 else j
             for i, j in enumerate(robot)]
    q0 = [(F(-1, 2), F(0)), (F(3, 4), F(2)), (F(0), F(-1)),
          (F(1, 2), F(15, 8))][at]
    ip, ch = chain(c, robot, joints)
    script(ip, [1])
    meth(ip, ch, "local_inverse_with_random_restarts", arr(desired()),
         arr(spec.vec(q0)), F(1, 4), random_state=rng(ip), n_restarts=4)
    b = np.empty((2, 2), dtype=object)
    for i in range(2):
        b[i] = [P(max(q0[i] - F(1, 4), lim[i][0].const_value())),
                P(min(q0[i] + F(1, 4), lim[i][1].const_value()))]
    for k, e in enumerate(minimisations(ip)):
        same_bounds(c, ip, e, b, "local restart %d" % k)
        if k:
            same_start(c, e, b, k - 1, "local restart %d" % k)


def k_again(c):
    """Earlier searches do not change the bounds of later ones."""
    ip, ch, robot, joints = make(c, "long")
    n = len(joints)
    script(ip, [0])
    run_local(ip, ch, n)
    run_trajectory(ip, ch, n, 3)
    run_inverse(ip, ch, n, bounds=sy("bound", (n, 2)))
    for k in range(2):
        run_inverse(ip, ch, n)
        same_bounds(c, ip, minimisations(ip)[-1], box(robot, joints),
                    "a later search")
        run_random(ip, ch, n)
        same_bounds(c, ip, minimisations(ip)[-1], box(robot, joints),
                    "a later search with restarts")


def k_trajectory(c, r, start, restarts, m=3):
    """Each pose is searched around the solution of the previous one."""
    ip, ch, robot, joints = make(c, r)
    n = len(joints)
    script(ip, [0])
    got = run_trajectory(ip, ch, n, m, start, restarts)
    es = minimisations(ip)
    c.require(len(es) == m, "%d optimisations instead of %d" % (len(es), m))
    b = box(robot, joints)
    same_bounds(c, ip, es[0], b, "the first pose")
    for t in range(1, m):
        q = sy("sol%d" % (t - 1), n).a
        same_bounds(c, ip, es[t], around(q, robot, joints), "pose %d" % t,
                    in_box(q, b))
        c.same(es[t]["args"][1], q, "start of pose %d" % t, es[t]["where"],
               domain=in_box(q, b))
    if start:
        c.same(es[0]["args"][1], sy("q0", n), "start of the first pose",
               es[0]["where"])
    for t in range(m):
        c.same(arr(got.a[t]), sy("sol%d" % t, n), "joint angles of pose %d"
               % t)


# -- K02 --------------------------------------------------------------------------
MODES = ["inverse", "random", "local"] + [
    "trajectory start=%s restarts=%s" % x for x in TRAJECTORIES]


def call_mode(ip, ch, n, mode, **kw):
    if mode.startswith("trajectory"):
        s, r = TRAJECTORIES[MODES.index(mode) - 3]
        return run_trajectory(ip, ch, n, kw.pop("m", 2), s, r, **kw)
    if mode != "inverse" and "n_restarts" not in kw:
        kw["n_restarts"] = 2
    return {"inverse": run_inverse, "random": run_random,
            "local": run_local}[mode](ip, ch, n, **kw)


def k02(c):
    for mode in MODES:
        for solver in (None,) + SOLVERS:
            c.obligation("%s solver=%s" % (mode, solver), k_solver, c, mode,
                         solver)
        for w in ("default", "given", "no orientation", "no position"):
            c.obligation("%s weights=%s" % (mode, w), k_objective, c, mode, w)
        c.obligation("%s random state" % mode, k_state, c, mode)
        for v in (1, 2, 3):
            c.obligation("%s verbose=%d" % (mode, v), k_verbose, c, mode, v)
        more = dict(m=6) if mode.startswith("trajectory") else dict(
            n_restarts=6)
        if mode != "inverse":
            c.obligation("%s solver many" % mode, k_solver, c, mode,
                         "L-BFGS-B", more)
            c.obligation("%s weights many" % mode, k_objective, c, mode,
                         "given", more)
            c.obligation("%s random state many" % mode, k_state, c, mode,
                         more)
    for flag in (True, False, None):
        for v in (0, 1, 2, 3):
            for b in (False, True):
                c.obligation("return error %s verbose=%d bounds=%s" % (
                    flag, v, b), k_error, c, flag, v, b)
    c.obligation("start of the optimisation", k_start, c)
    for r in ROBOTS:
        c.obligation("start of a local search %s" % r, k_local, c, r)
    for s, t in TRAJECTORIES:
        c.obligation("starts of a trajectory start=%s restarts=%s" % (s, t),
                     k_trajectory, c, "planar", s, t)


def k_solver(c, mode, solver, more=None):
    ip, ch, robot, joints = make(c, "planar")
    script(ip, [1])
    kw = {"solver": solver} if solver else {}
    kw.update(more or {})
    call_mode(ip, ch, 2, mode, **kw)
    es = minimisations(ip)
    c.require(len(es) >= 1, "no optimisation")
    for e in es:
        m = e["kwargs"]["method"]
        if isinstance(m, Unk):
            raise Undecided("solver")
        c.require(m == (solver or "SLSQP"), "the solver is %s instead of %s"
                  % (m, solver or "SLSQP"), e["where"])


def k_objective(c, mode, weights, more=None):
    """The minimised function is the weighted pose error."""
    ip, ch, robot, joints = make(c, "planar")
    script(ip, [0] if mode.startswith("trajectory") else [1])
    kw = dict(more or {})
    wo = wp = T.ONE
    if weights != "default":
        wo = T.ZERO if weights == "no orientation" else WO
        wp = T.ZERO if weights == "no position" else WP
        kw.update(orientation_weight=wo, position_weight=wp)
    call_mode(ip, ch, 2, mode, **kw)
    q = {"a": T.sym("qa"), "b": T.sym("qb")}
    got = forward(robot, q)
    for t, e in enumerate(minimisations(ip)):
        want = desired("d%d" % t if mode.startswith("trajectory") else "d")
        c.same(objective(ip, e, spec.vec([q["a"], q["b"]])),
               pose_error(want, got, wo, wp),
               "minimised function", e["where"])


def k_state(c, mode, more=None):
    """Random numbers come from the given generator only."""
    ip, ch, robot, joints = make(c, "planar")
    script(ip, [1])
    call_mode(ip, ch, 2, mode, **(more or {}))
    used = {e["name"] for e in ip.events
            if e["kind"] in ("random", "seed", "unseeded")}
    c.require(used <= {"state"}, "random numbers of %s" % sorted(used))
    needed = mode in ("random", "local") or mode.endswith("restarts=True") \
        or "start=False" in mode
    c.require(bool(used) == needed, "random numbers are%s used" % (
        " not" if needed else ""))


def k_verbose(c, mode, level):
    out = []
    for v in (0, level):
        ip, ch, robot, joints = make(c, "planar", verbose=v)
        script(ip, [F(1, 2), F(1, 3)])
        out.append(call_mode(ip, ch, 2, mode))
    c.same(out[1], out[0], "joint angles with messages")


def k_error(c, flag, verbose, bounds):
    ip, ch, robot, joints = make(c, "planar", verbose=verbose)
    script(ip, [T.sym("err", "0+")])
    kw = {} if flag is None else {"return_error": flag}
    if bounds:
        kw["bounds"] = sy("bound", (2, 2))
    r = run_inverse(ip, ch, 2, **kw)
    if flag:
        c.require(isinstance(r, tuple) and len(r) == 2, "no error is returned")
        c.same(r[1], T.sym("err", "0+"), "returned error")
        r = r[0]
    c.require(isinstance(r, Arr), "no joint angles are returned")
    c.same(r, sy("sol0", 2), "joint angles")


def k_start(c):
    ip, ch, robot, joints = make(c, "arm")
    run_inverse(ip, ch, 3)
    e, = minimisations(ip)
    c.same(e["args"][1], sy("q0", 3), "start of the optimisation", e["where"])


# -- K03 --------------------------------------------------------------------------
def k03(c):
    values = (F(1, 2), F(1, 4), F(1, 3))
    for mode in ("random", "local"):
        for p in itertools.permutations(range(3)):
            c.obligation("%s best of %s" % (mode, p), k_best, c, mode,
                         [values[i] for i in p])
        for errors in ([F(1, 2), F(10001, 40000), F(1, 4)],
                       [F(1, 2), F(1, 4) + F(1, 10 ** 9), F(1, 4)],
                       [F(9), F(8), F(7), F(5), F(6), F(8), F(9)],
                       [F(9), F(8), F(7), F(5), F(6), F(8), F(9), F(4),
                        F(6), F(7)],
                       [F(1, 3)] * 3):
            c.obligation("%s best of close or many errors %s" % (
                mode, [str(e) for e in errors]), k_best, c, mode, errors)
        for n in (1, 2, 5, 6, 12):
            c.obligation("%s %d restarts" % (mode, n), k_count, c, mode, n)
        c.obligation("%s default restarts" % mode, k_default, c, mode)
        for tol, errors, n in ((None, [F(1, 100), F(1, 2000)], 2),
                               (F(1, 10), [F(1, 2), F(1, 100)], 2),
                               (None, [F(1, 5000)], 1),
                               (F(1, 8), [F(1, 2), F(1, 8), F(1, 16)], 2),
                               (F(1, 8), [F(1, 8), F(1, 16)], 1),
                               (0, [F(1, 2), F(0), F(0)], 2),
                               (F(1, 10 ** 6), [F(1, 2000), F(1, 3000),
                                                F(1, 4000)], 3)):
            c.obligation("%s tolerance %s errors %s" % (
                mode, tol, [str(e) for e in errors]), k_tolerance, c, mode,
                tol, errors, n)
        for n in (0, -1):
            c.obligation("%s %d restarts are an error" % (mode, n), k_none, c,
                         mode, n)
    for s in (True, False):
        c.obligation("trajectory takes the best start=%s" % s, k_chain, c, s)
        for r in (True, False):
            c.obligation("poses in order start=%s restarts=%s" % (s, r),
                         k_trajectory, c, "planar", s, r, 6)


def k_best(c, mode, errors):
    ip, ch, robot, joints = make(c, "planar")
    script(ip, errors)
    got = call_mode(ip, ch, 2, mode, n_restarts=len(errors))
    best = errors.index(min(errors))
    c.same(got, sy("sol%d" % best, 2), "joint angles (required: the solution "
           "with the smallest error)")


def k_count(c, mode, n):
    ip, ch, robot, joints = make(c, "planar")
    script(ip, [1])
    call_mode(ip, ch, 2, mode, n_restarts=n)
    k = len(minimisations(ip))
    c.require(k == n, "%d optimisations instead of %d" % (k, n))


def k_default(c, mode):
    ip, ch, robot, joints = make(c, "planar")
    script(ip, [1])
    f = run_random if mode == "random" else run_local
    f(ip, ch, 2)
    k = len(minimisations(ip))
    c.require(k == 10, "%d optimisations instead of 10" % k)


def k_tolerance(c, mode, tol, errors, n):
    ip, ch, robot, joints = make(c, "planar")
    script(ip, errors)
    kw = {} if tol is None else {"tolerance": tol}
    got = call_mode(ip, ch, 2, mode, n_restarts=3, **kw)
    k = len(minimisations(ip))
    c.require(k == n, "%d optimisations instead of %d" % (k, n))
    c.same(got, sy("sol%d" % (n - 1), 2), "joint angles")


def k_none(c, mode, n):
    ip, ch, robot, joints = make(c, "planar")
    kit.rejects(c, ip, lambda: call_mode(ip, ch, 2, mode, n_restarts=n),
                "%d restarts" % n, ("AssertionError", "ValueError"))


def k_chain(c, start):
    """Restarts of one pose begin at the best solution of the last one."""
    ip, ch, robot, joints = make(c, "planar")
    small = F(1, 10 ** 5)
    first = [small] if start else [F(1, 2), small]
    k = len(first) - 1
    second = [F(1, 2), F(1, 5)] + [F(1, 4)] * 8
    script(ip, first + second + [small])
    got = run_trajectory(ip, ch, 2, 3, start, True)
    es = minimisations(ip)
    c.require(len(es) == len(first) + 11, "%d optimisations instead of %d" % (
        len(es), len(first) + 11))
    for t, w in ((0, k), (1, k + 2), (2, len(first) + 10)):
        c.same(arr(got.a[t]), sy("sol%d" % w, 2), "joint angles of pose %d"
               % t)
    q = sy("sol%d" % (k + 2), 2).a
    c.same(es[-1]["args"][1], q, "start of the last pose", es[-1]["where"])
    same_bounds(c, ip, es[-1], around(q, robot, joints), "the last pose",
                in_box(q, box(robot, joints)))


# -- K04 --------------------------------------------------------------------------
def k04(c):
    for r in ("planar", "arm"):
        for w in ("default", "given"):
            c.obligation("pose error %s weights=%s" % (r, w), k_pose, c, r, w)
    c.obligation("reached pose", k_reached, c)
    c.obligation("position weight zero", k_weight, c, 0)
    c.obligation("orientation weight zero", k_weight, c, 1)
    for r in ROBOTS:
        c.obligation("domain of inverse trigonometric functions %s" % r,
                     k_domain, c, r)
    c.obligation("moved frame", k_moved, c)


def angles(joints):
    return sy("q", len(joints)).a


def named(joints, q):
    return dict(zip(joints, q))


def k_pose(c, r, weights):
    ip, ch, robot, joints = make(c, r)
    q = angles(joints)
    args = [WO, WP] if weights == "given" else []
    got = meth(ip, ch, "ee_pose_error", arr(q), arr(desired()), *args)
    c.same(P(kit.val(got)), pose_error(
        desired(), forward(robot, named(joints, q)), *args), "pose error")


def k_reached(c):
    ip, ch, robot, joints = make(c, "planar")
    q = angles(joints)
    want = forward(robot, named(joints, q))
    got = meth(ip, ch, "ee_pose_error", arr(q), arr(want), WO, WP)
    c.same(P(kit.val(got)), T.ZERO, "error of the reached pose")


def k_weight(c, which):
    """Only one of the errors remains."""
    ip, ch, robot, joints = make(c, "planar")
    q = angles(joints)
    want = forward(robot, named(joints, q))
    if which:
        want[:3, 3] = want[:3, 3] + sy("shift", 3).a
        got = meth(ip, ch, "ee_pose_error", arr(q), arr(want), 0, WP)
        s = sy("shift", 3).a
        req = WP * T.sqrt_(spec.dot(s, s))
    else:
        want[:3, :3] = spec.dot(want[:3, :3], axis_angle(
            spec.vec(AXES["x"]), P(F(1, 2))))
        got = meth(ip, ch, "ee_pose_error", arr(q), arr(want), WO, 0)
        # an angle of 0.5
        req = WO * T.acos_(T.max_(T.min_(T.cos_(P(F(1, 2))), T.ONE),
                                  -T.ONE))
    c.same(P(kit.val(got)), req, "error with one weight zero")


def inverse_trig(p, seen):
    for a in p.atoms(True):
        if a.kind == "acos" or a.kind == "fn" and a.name in ("asin", "acos",
                                                             "arcsin"):
            if a not in seen:
                seen[a] = True
    return seen


def k_domain(c, r):
    """Arguments of inverse cosines stay in [-1, 1] whatever rounding
    errors the two poses have."""
    ip, ch, robot, joints = make(c, r)
    want = arr(homogeneous(sy("R", (3, 3)).a, sy("p", 3).a))
    got = P(kit.val(meth(ip, ch, "ee_pose_error", sy("q", len(joints)),
                         want, WO, WP)))
    seen = inverse_trig(got, {})
    for a in seen:
        x = a.args[0]
        lo, hi = T.value_range(x)
        c.comparisons += 1
        if lo >= -1 and hi <= 1:
            continue
        kinds = {(b.kind, b.name if b.kind == "fn" else "")
                 for b in x.atoms(False)}
        if any(k in ("ind", "abs", "poly") for k, _ in kinds):
            raise Undecided("range of %s" % T.poly_str(x)[:80])
        c.fail("the argument %s of %s can leave [-1, 1]: its range is "
               "[%g, %g]" % (T.poly_str(x)[:120], a.name, lo, hi))


def k_moved(c):
    """The error does not change if both poses are moved."""
    ip, ch, robot, joints = make(c, "planar")
    q = angles(joints)
    pose = forward(robot, named(joints, q))
    g = homogeneous(axis_angle(spec.vec(AXES["z"]), T.sym("g")),
                    sy("pg", 3).a)
    d = desired()
    out = []
    moved = []
    for j in robot:
        if j[2] == "base":
            b = spec.dot(g, homogeneous(j[3], j[4]))
            j = j[:3] + (b[:3, :3], b[:3, 3]) + j[5:]
        moved.append(j)
    for rob, want in ((robot, d), (moved, spec.dot(g, d))):
        ip, ch = chain(c, rob, joints)
        out.append(P(kit.val(meth(ip, ch, "ee_pose_error", arr(q), arr(want),
                                  WO, WP))))
    c.same(out[1], out[0], "error of moved poses")


# -- K05 --------------------------------------------------------------------------
def k05(c):
    for r in ROBOTS:
        c.obligation("forward %s" % r, k_forward, c, r)
        c.obligation("forward trajectory %s" % r, k_forward_trajectory, c, r)
        c.obligation("history %s" % r, k_history, c, r)
    for ee, base in (("base", "tool"), ("l2", "base"), ("tool", "l1"),
                     ("l1", "l2"), ("tool", "tool")):
        c.obligation("forward from %s to %s" % (ee, base), k_frames, c, ee,
                     base)
    c.obligation("repeated joint angles", k_repeated, c)
    c.obligation("trajectory of one pose", k_forward_trajectory, c, "planar",
                 1)
    c.obligation("trajectory of many poses", k_forward_trajectory, c,
                 "planar", 12)
    c.obligation("any axis", k_axis, c, "revolute")
    c.obligation("any sliding axis", k_axis, c, "prismatic")
    c.obligation("two arms", k_branch, c)
    c.obligation("joint limits hold", k_limit, c)
    c.obligation("two chains of one robot", k_two, c)


def k_forward(c, r):
    ip, ch, robot, joints = make(c, r)
    q = angles(joints)
    c.same(meth(ip, ch, "forward", arr(q)), forward(robot, named(joints, q)),
           "pose of the end effector")


def k_repeated(c):
    """Poses with equal joint angles are equal."""
    ip, ch, robot, joints = make(c, "planar")
    Q = np.empty((5, 2), dtype=object)
    for t, k in enumerate((0, 0, 1, 1, 0)):
        Q[t] = sy("q%d" % k, 2).a
    want = np.empty((5, 4, 4), dtype=object)
    for t in range(5):
        want[t] = forward(robot, named(joints, Q[t]))
    c.same(meth(ip, ch, "forward_trajectory", arr(Q)), want,
           "poses of the end effector")


def k_forward_trajectory(c, r, m=3):
    ip, ch, robot, joints = make(c, r)
    Q = sy("Q", (m, len(joints)))
    want = np.empty((m, 4, 4), dtype=object)
    for t in range(m):
        want[t] = forward(robot, named(joints, Q.a[t]))
    c.same(meth(ip, ch, "forward_trajectory", cp(Q)), want,
           "poses of the end effector")


def k_history(c, r):
    """Forward kinematics depends on its argument only."""
    ip, ch, robot, joints = make(c, r)
    n = len(joints)
    first = cp(meth(ip, ch, "forward", sy("q", n)))
    kept = meth(ip, ch, "forward", sy("q", n))
    meth(ip, ch, "forward", sy("other", n))
    meth(ip, ch, "ee_pose_error", sy("third", n), arr(desired()))
    c.same(kept, first, "an earlier result")
    c.same(meth(ip, ch, "forward", sy("q", n)), first, "pose after other "
           "queries")


def k_frames(c, ee, base):
    robot, joints = planar(), ("a", "b")
    ip, ch = chain(c, robot, joints, ee, base)
    q = angles(joints)
    c.same(meth(ip, ch, "forward", arr(q)),
           forward(robot, named(joints, q), ee, base),
           "pose of %s in %s" % (ee, base))


def k_axis(c, kind):
    ax = sy("axis", 3).a
    robot = [joint("a", "tool", "base", ax, kind)]
    ip, ch = chain(c, robot, ("a",))
    q = angles(("a",))
    c.same(meth(ip, ch, "forward", arr(q)), forward(robot, {"a": q[0]}),
           "pose of the end effector")


def k_branch(c):
    """From one branch of the robot to the other."""
    robot = [joint("a", "l", "base"), joint("b", "tool", "base", "y")]
    ip, ch = chain(c, robot, ("a", "b"), "tool", "l")
    q = angles(("a", "b"))
    c.same(meth(ip, ch, "forward", arr(q)),
           forward(robot, named(("a", "b"), q), "tool", "l"),
           "pose of one arm in the other")


def k_limit(c):
    """Positions outside of the limits are those of the limit."""
    for kind in ("revolute", "prismatic"):
        robot = [joint("a", "tool", "base", "z", kind,
                       lim=(P(F(-1, 2)), P(F(3, 4))))]
        for q, at in ((F(2), F(3, 4)), (F(-2), F(-1, 2)), (F(1, 4), F(1, 4))):
            ip, ch = chain(c, robot, ("a",))
            c.same(meth(ip, ch, "forward", arr(spec.vec([q]))),
                   forward(robot, {"a": P(at)}),
                   "pose at %s (limits -0.5, 0.75)" % q)


def k_two(c):
    ip = c.interp()
    robot = arm()
    install(ip, robot)
    k = new(ip, c.anchor(ip, KIN, "Kinematics"), urdf="URDF")
    one = meth(ip, k, "create_chain", ["a", "b", "c"], "base", "tool")
    two = meth(ip, k, "create_chain", ["c", "b"], "l1", "l3")
    x, y = sy("q", 3), sy("r", 2)
    three = meth(ip, k, "create_chain", ["c", "a", "b"], "base", "tool")
    c.same(meth(ip, three, "forward", cp(x)),
           forward(robot, named(("c", "a", "b"), x.a)),
           "pose of a chain of the same joints in another order")
    meth(ip, one, "forward", cp(x))
    c.same(meth(ip, two, "forward", cp(y)),
           forward(robot, {"c": y.a[0], "b": y.a[1]}, "l3", "l1"),
           "pose of the second chain")
    c.same(meth(ip, one, "forward", cp(x)),
           forward(robot, named(("a", "b", "c"), x.a)),
           "pose of the first chain")
