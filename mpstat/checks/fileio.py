"""Objects in files."""
from fractions import Fraction

import numpy as np

from .. import spec, kit
from .. import terms as T
from ..kit import arr, cp, sy, meth, get, new, DMP, rejects
from ..terms import P
from ..values import Arr, Obj, Undecided, npoly, is_num, Poly, Cond
from ..npmodel import Tagged
from . import imitation, promp as pm
from .execution import KINDS, concrete, DT, MJ
from .ownership import probe_movement, compare_probes

F = Fraction
IO = "movement_primitives.io"
FORMATS = ("pickle", "yaml", "json")


def write(c, ip, fmt, o, path="object"):
    return ip.call(c.anchor(ip, IO, "write_" + fmt), [path, o], {})


def read(c, ip, fmt, path="object"):
    return ip.call(c.anchor(ip, IO, "read_" + fmt), [path], {})


# -- objects: build(c) -> (ip, object, probe(object)) --------------------------------
def movement(kind, history, smooth=False, p=None, ext=True, k=3, n=2, dt=DT,
             tau=F(3, 10)):
    def build(c):
        S = concrete(c, kind, ext, smooth=smooth, p=p, k=k, n=n, dt=dt,
                     tau=tau)
        ip = S.ip
        if history == "stepped":
            S.step(S.state("y"), S.vel("v"))
        elif history == "twice":
            S.step(*S.step(S.state("y"), S.vel("v")))
        elif history == "executed":
            meth(ip, S.obj, "open_loop", run_t=dt)
        elif history == "other duration":
            ip.setattr(S.obj, "execution_time_", P(F(1, 5)))
        elif history == "reset":
            S.step(S.state("y"), S.vel("v"))
            meth(ip, S.obj, "reset")
        elif history == "learned":
            meth(ip, S.obj, "imitate",
                 imitation.times(imitation.UNEVEN), imitation.demo(kind, 5),
                 regularization_coefficient=imitation.LAM)
        elif history == "NumPy time":
            ip.setattr(S.obj, "t", npoly(P(get(ip, S.obj, "t"))))

        def probe(o):
            S.obj = o
            out = []
            if hasattr(S, "W"):
                out.append(("execution time", get(ip, o, "execution_time_")))
            if history == "learned":
                return out + [("weights", cp(meth(ip, o, "get_weights")))] + [
                    (nm, cp(get(ip, o, nm))) for nm in (
                        "start_y", "goal_y", "start_yd", "goal_yd",
                        "start_ydd", "goal_ydd")]
            out += probe_movement(S)()
            y, v = S.step(S.state("qy"), S.vel("qv"))
            out += [("position of the step after an execution", cp(y)),
                    ("velocity of the step after an execution", cp(v))]
            return out
        return ip, S.obj, probe
    return build


def jerk(history):
    def build(c):
        ip = c.interp()
        o = new(ip, c.anchor(ip, MJ, "MinimumJerkTrajectory"), n_dims=2,
                execution_time=1, dt=F(1, 4))
        meth(ip, o, "configure", start_y=sy("s", 2), goal_y=sy("g", 2))
        if history == "stepped":
            meth(ip, o, "step", sy("y", 2), sy("v", 2))

        def probe(o):
            out = [("start_y", cp(get(ip, o, "start_y"))),
                   ("goal_y", cp(get(ip, o, "goal_y")))]
            for i in range(3):
                y, v = meth(ip, o, "step", sy("y", 2), sy("v", 2))
                out += [("position %d" % i, cp(y)),
                        ("velocity %d" % i, cp(v))]
            return out
        return ip, o, probe
    return build


def prob(history, n=2, k=2):
    def build(c):
        ip = c.interp()
        o = new(ip, c.anchor(ip, "movement_primitives.promp", "ProMP"),
                n_dims=n, n_weights_per_dim=k)
        m = n * k
        if history == "trained":
            meth(ip, o, "imitate", [pm.times([0, 1])], [sy("Y", (2, n))],
                 n_iter=1)
        elif history == "certain":
            meth(ip, o, "from_weight_distribution", sy("mu", m),
                 arr(spec.zeros(m, m)))
        elif history != "new":
            meth(ip, o, "from_weight_distribution", sy("mu", m),
                 pm.covariance(m))
        if history == "conditioned":
            o = meth(ip, o, "condition_position", sy("y", n), t=F(1, 3))

        def probe(o):
            ts = pm.times([0, F(1, 2), 1])
            return [(nm, cp(meth(ip, o, nm, ts))) for nm in (
                "mean_trajectory", "cov_trajectory", "mean_velocities")]
        return ip, o, probe
    return build


def large(kind, n, k):
    """Weights, start and goal of a movement with many weights."""
    def build(c):
        ip = c.interp()
        kw = {} if "Cartesian" in kind else dict(n_dims=n)
        o = new(ip, c.anchor(ip, DMP, kind), execution_time=1, dt=DT,
                n_weights_per_dim=k, **kw)
        meth(ip, o, "set_weights", sy("w", n * k))

        def probe(o):
            return [("weights", cp(meth(ip, o, "get_weights"))),
                    ("execution time", get(ip, o, "execution_time_"))]
        return ip, o, probe
    return build


PAIR = (T.sym("l0"), T.sym("l1"))
GAINS = dict(k=T.sym("k", "+"), c1=T.sym("c1", "+"), c2=T.sym("c2", "+"))
COUPLINGS = dict(
    CouplingTermPos1DToPos1D=(2, 2, lambda: dict(
        desired_distance=T.sym("dd"), lf=PAIR, **GAINS)),
    CouplingTermPos3DToPos3D=(6, 6, lambda: dict(
        desired_distance=sy("dd", 3), lf=PAIR, **GAINS)),
    CouplingTermDualCartesianDistance=(14, 12, lambda: dict(
        desired_distance=T.sym("dist", "+"), lf=PAIR, **GAINS)),
    CouplingTermDualCartesianPose=(14, 12, lambda: dict(
        desired_distance=arr(np.array([[0, -1, 0, T.sym("dx")],
                                       [1, 0, 0, T.sym("dy")],
                                       [0, 0, 1, T.sym("dz")],
                                       [0, 0, 0, 1]], dtype=object)),
        lf=PAIR, couple_position=True, couple_orientation=False, **GAINS)),
    CouplingTermObstacleAvoidance2D=(2, 2, lambda: dict(
        obstacle_position=sy("o", 2), gamma=T.sym("ga", "+"),
        beta=T.sym("be", "+"))),
    CouplingTermObstacleAvoidance3D=(3, 3, lambda: dict(
        obstacle_position=sy("o", 3), gamma=T.sym("ga", "+"),
        beta=T.sym("be", "+"))))


def coupling(name):
    def build(c):
        n, nv, kw = COUPLINGS[name]
        ip = c.interp()
        o = new(ip, c.anchor(ip, DMP, name), **kw())

        def probe(o):
            y = kit.dual_pose("y") if n == 14 else sy("y", n)
            r = meth(ip, o, "coupling", y, sy("v", nv))
            return [("velocity coupling", cp(r[0])),
                    ("acceleration coupling", cp(r[1]))]
        return ip, o, probe
    return build


def objects(full=True):
    for kind in KINDS:
        spring = kind.startswith("Spring")
        for h in ("configured", "stepped", "twice", "executed", "reset",
                  "other duration", "learned", "NumPy time"):
            if spring and h in ("other duration", "learned"):
                continue
            if kind == "StateFollowingDMP" and h in ("other duration",
                                                     "learned"):
                continue
            if not full and h not in ("configured", "stepped"):
                continue
            yield "%s %s" % (kind, h), movement(kind, h)
        if kind in ("DMP", "CartesianDMP", "DualCartesianDMP"):
            yield "%s smooth" % kind, movement(kind, "stepped", smooth=True)
        if kind in ("DMP", "DMPWithFinalVelocity", "DualCartesianDMP"):
            yield "%s feedback" % kind, movement(kind, "stepped", p=True)
    for h in ("configured", "stepped"):
        yield "MinimumJerkTrajectory %s" % h, jerk(h)
    if full:
        for kind in KINDS:
            yield "%s time step 1/7" % kind, movement(
                kind, "stepped", dt=F(1, 7), tau=F(3, 7))
        for name, n, k in (("DMP", 7, 20), ("DMPWithFinalVelocity", 6, 20),
                           ("CartesianDMP", 6, 20),
                           ("DualCartesianDMP", 12, 10)):
            yield "%s with %d weights" % (name, n * k), large(name, n, k)
        yield "ProMP with 12 weights", prob("large", 3, 4)
        for kind in ("DMP", "DMPWithFinalVelocity", "StateFollowingDMP",
                     "SpringDamper"):
            for n in (1, 3):
                yield "%s %d dimensions" % (kind, n), movement(
                    kind, "stepped", n=n)
    for h in ("new", "distribution", "trained", "conditioned", "certain"):
        yield "ProMP %s" % h, prob(h)
    yield "ProMP one dimension", prob("distribution", 1, 3)
    for name in COUPLINGS:
        yield name, coupling(name)


# -- S01 ------------------------------------------------------------------------------
def s01(c):
    for fmt in FORMATS:
        for name, build in objects():
            c.obligation("%s %s" % (name, fmt), round_trip, c, build, fmt)
    for fmt in FORMATS:
        for name, build in objects(False):
            c.obligation("%s written as %s is unchanged" % (name, fmt),
                         unchanged, c, build, fmt)
        for name, build in (
                ("DMP", movement("DMP", "stepped")),
                ("DualCartesianDMP", movement("DualCartesianDMP", "stepped")),
                ("ProMP", prob("distribution")),
                ("SpringDamper", movement("SpringDamper", "stepped"))):
            c.obligation("%s read twice from %s" % (name, fmt), twice, c,
                         build, fmt)
            c.obligation("%s written twice as %s" % (name, fmt), again, c,
                         build, fmt)
            c.obligation("%s changed after writing %s" % (name, fmt),
                         snapshot, c, build, fmt)
        c.obligation("two files %s" % fmt, two_files, c, fmt)
        c.obligation("missing file %s" % fmt, missing, c, fmt)
    for module in ("movement_primitives", "movement_primitives.dmp",
                   "movement_primitives.promp",
                   "movement_primitives.spring_damper"):
        c.obligation("unknown class of %s" % module, unknown, c, module)


def class_of(c, o, want, what):
    c.require(isinstance(o, Obj), "%s: no object was read" % what)
    c.require(o.cls is want.cls, "%s: an object of class %s was read, %s was "
              "written" % (what, getattr(o.cls, "name", o.cls),
                           getattr(want.cls, "name", want.cls)))


def round_trip(c, build, fmt):
    ip, o, probe = build(c)
    write(c, ip, fmt, o)
    r = read(c, ip, fmt)
    class_of(c, r, o, fmt)
    c.require(r is not o, "the same object is returned")
    got = probe(r)
    ip2, o2, probe2 = build(c)
    compare_probes(c, got, probe2(o2), "after reading")


def unchanged(c, build, fmt):
    ip, o, probe = build(c)
    before = picture(o)
    write(c, ip, fmt, o)
    after = picture(o)
    bad = sorted(k for k in before if before[k] not in (
        "NoneType", after.get(k)))
    c.require(not bad, "writing changes %s" % ", ".join(bad))
    got = probe(o)
    ip2, o2, probe2 = build(c)
    compare_probes(c, got, probe2(o2), "after writing")


def picture(v, where="object", out=None):
    """Kinds of all values in an object; writing an object may add what it
    computed, but does not replace what is there."""
    out = {} if out is None else out
    if isinstance(v, Obj):
        out[where] = getattr(v.cls, "name", "object")
        for k, x in v.d.items():
            picture(x, "%s.%s" % (where, k), out)
    elif isinstance(v, (list, tuple)):
        out[where] = "%s of %d" % (type(v).__name__, len(v))
    elif isinstance(v, Arr):
        out[where] = "array %s" % (v.a.shape,)
    elif is_num(v):
        out[where] = "number"
    else:
        out[where] = type(v).__name__
    return out


def twice(c, build, fmt):
    """Use of one object that was read does not affect the next one."""
    ip, o, probe = build(c)
    write(c, ip, fmt, o)
    first = read(c, ip, fmt)
    probe(first)
    second = read(c, ip, fmt)
    got = probe(second)
    ip2, o2, probe2 = build(c)
    compare_probes(c, got, probe2(o2), "second object that was read")


def again(c, build, fmt):
    """Reading and writing again loses nothing."""
    ip, o, probe = build(c)
    write(c, ip, fmt, o)
    write(c, ip, fmt, read(c, ip, fmt))
    got = probe(read(c, ip, fmt))
    ip2, o2, probe2 = build(c)
    compare_probes(c, got, probe2(o2), "after two round trips")


def snapshot(c, build, fmt):
    """The file holds the object at the time of writing."""
    ip, o, probe = build(c)
    write(c, ip, fmt, o)
    probe(o)
    got = probe(read(c, ip, fmt))
    ip2, o2, probe2 = build(c)
    compare_probes(c, got, probe2(o2), "read after the object was used")


def two_files(c, fmt):
    ip, a, probe = movement("DMP", "configured")(c)
    b = new(ip, c.anchor(ip, kit.SD, "SpringDamper"), n_dims=1,
            k=T.sym("k", "+"), c=T.sym("c", "+"))
    write(c, ip, fmt, a, "first")
    write(c, ip, fmt, b, "second")
    class_of(c, read(c, ip, fmt, "second"), b, "second file")
    r = read(c, ip, fmt, "first")
    class_of(c, r, a, "first file")
    got = probe(r)
    ip2, o2, probe2 = movement("DMP", "configured")(c)
    compare_probes(c, got, probe2(o2), "first of two files")


def missing(c, fmt):
    ip = c.interp()
    rejects(c, ip, lambda: read(c, ip, fmt, "no such file"),
            "reading a missing file", ("FileNotFoundError", "OSError",
                                       "IOError"))


def unknown(c, module):
    ip = c.interp()
    f = ip.load(IO).ns.get("_dict_to_object")
    if f is None:
        raise Undecided("no function that makes objects of dictionaries")
    rejects(c, ip, lambda: ip.call(f, [{
        "module": module, "class": "DMPNotExisting"}], {}),
        "unknown class of %s" % module, ("ImportError",))


# -- S02 ------------------------------------------------------------------------------
PLAIN = "plain data"


def plain_data(v, where):
    """First part of a written value that is not plain data."""
    if isinstance(v, Tagged):
        return "%s needs a Python-specific YAML tag (%s)" % (where, v.what)
    if isinstance(v, dict):
        for k, x in v.items():
            if not isinstance(k, str):
                return "key %r of %s is no string" % (k, where)
            r = plain_data(x, "%s.%s" % (where, k))
            if r:
                return r
        return None
    if isinstance(v, list):
        for i, x in enumerate(v):
            r = plain_data(x, "%s[%d]" % (where, i))
            if r:
                return r
        return None
    if v is None or isinstance(v, (bool, int, str, Poly, Cond)) or is_num(v):
        return None
    return "%s is a %s" % (where, type(v).__name__)


UNSAFE = ("yaml.load:unsafe", "pickle.load", "pickle.loads", "eval", "exec",
          "builtins.eval", "builtins.exec")


def s02(c):
    for fmt in ("yaml", "json"):
        for name, build in objects():
            c.obligation("%s %s" % (name, fmt), plain_file, c, build, fmt)
    for fmt in FORMATS:
        c.obligation("stream of %s" % fmt, stream, c, fmt)


def plain_file(c, build, fmt):
    ip, o, probe = build(c)
    write(c, ip, fmt, o)
    for path, (kind, binary, payload) in ip.files.items():
        c.require(kind == fmt, "%s is written as %s" % (path, kind))
        c.require(not binary, "%s is a binary file" % path)
        bad = plain_data(payload, "file")
        c.require(bad is None, bad)
    n0 = len(ip.events)
    read(c, ip, fmt)
    used = 0
    for e in ip.events[n0:]:
        used += 1
        c.require(e["name"] not in UNSAFE,
                  "reading %s uses %s, which runs code of the file" % (
                      fmt, e["name"].replace(":unsafe", " without a safe "
                                             "loader")), e["where"])
    c.require(used > 0, "reading opens no file")


def stream(c, fmt):
    """Exactly the named file is opened, for reading or for writing."""
    ip, o, probe = movement("DMP", "configured")(c)
    n0 = len(ip.events)
    write(c, ip, fmt, o, "named")
    w = [e for e in ip.events[n0:] if e["kind"] == "open"]
    c.require(len(w) == 1 and w[0]["args"][0] == "named",
              "writing opens another file than the named one")
    c.require(not any(x in w[0]["args"][1] for x in "ra"),
              "writing keeps what was in the file (mode %s)"
              % w[0]["args"][1], w[0]["where"])
    n0 = len(ip.events)
    read(c, ip, fmt, "named")
    r = [e for e in ip.events[n0:] if e["kind"] == "open"]
    c.require(len(r) == 1 and r[0]["args"][0] == "named",
              "reading opens another file than the named one")
    c.require(not any(x in r[0]["args"][1] for x in "wax+"),
              "reading opens the file for writing", r[0]["where"])
