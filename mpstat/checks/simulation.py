"""Robots in the physics simulation."""
from fractions import Fraction

import numpy as np

from .. import kit, spec
from .. import terms as T
from ..kit import arr, cp, sy, meth, new, pose, dual_pose
from ..npmodel import MISSING, as_arr
from ..terms import P
from ..values import Arr, Cls, Native, Obj, StaticM, Undecided, Ext

F = Fraction
SIM = "movement_primitives.testing.simulation"
DT = T.sym("dt", "+")
# position of the number of the client among the positional arguments
CLIENT = dict(isConnected=0, disconnect=0, getNumJoints=1, getBodyInfo=1,
              getJointInfo=2, stepSimulation=0, resetSimulation=1,
              setTimeStep=1, setRealTimeSimulation=1, setGravity=3,
              getBasePositionAndOrientation=1, getJointState=2,
              getJointStates=2, removeBody=1, getNumBodies=0)
# functions that have nothing to do with a simulation
PURE = {"connect", "multiplyTransforms", "invertTransform",
        "getQuaternionFromEuler", "getEulerFromQuaternion",
        "getMatrixFromQuaternion", "setAdditionalSearchPath",
        "getAxisAngleFromQuaternion", "getQuaternionFromAxisAngle"}
REVOLUTE, FIXED = 0, 4
CONSTANTS = dict(JOINT_REVOLUTE=0, JOINT_PRISMATIC=1, JOINT_SPHERICAL=2,
                 JOINT_PLANAR=3, JOINT_FIXED=4, GUI=1, DIRECT=2,
                 POSITION_CONTROL=2, VELOCITY_CONTROL=0, TORQUE_CONTROL=1,
                 COV_ENABLE_GUI=1, COV_ENABLE_SHADOWS=2)


class Robot:
    """Joints of a robot: (name, type, link); each joint has the previous
    link as parent."""

    def __init__(self, joints):
        self.joints = joints
        self.movable = [i for i, j in enumerate(joints) if j[1] != FIXED]

    def info(self, i):
        name, kind, link = self.joints[i]
        z = P(0)
        return (i, name.encode(), kind, i, i, 0, z, z, z, z, z, z,
                link.encode(), (z, z, P(1)), (z, z, z), (z, z, z, P(1)),
                i - 1)


UR5 = Robot([("world_joint", FIXED, "base_link"),
             ("pan", REVOLUTE, "shoulder"), ("lift", REVOLUTE, "upper"),
             ("elbow", REVOLUTE, "fore"), ("w1", REVOLUTE, "wrist1"),
             ("w2", REVOLUTE, "wrist2"), ("w3", REVOLUTE, "wrist3"),
             ("flange_joint", FIXED, "flange"), ("tool_joint", FIXED, "tool")])
PLANE = Robot([])
CHAIN = Robot([("fix0", FIXED, "l0"), ("a", REVOLUTE, "l1"),
               ("b", REVOLUTE, "l2"), ("fix1", FIXED, "l3"),
               ("c", REVOLUTE, "l4"), ("tcp", FIXED, "ee")])
LEFT, RIGHT = ("la", "lb"), ("ra", "rb", "rc")
RH5 = Robot([("root", FIXED, "body"), ("la", REVOLUTE, "ll1"),
             ("ra", REVOLUTE, "rl1"), ("lb", REVOLUTE, "ll2"),
             ("lt", FIXED, "lee"), ("rb", REVOLUTE, "rl2"),
             ("rc", REVOLUTE, "rl3"), ("rt", FIXED, "ree")])
LARM = Robot([("la", REVOLUTE, "ll1"), ("lx", FIXED, "x"),
              ("lb", REVOLUTE, "ll2"), ("lt", FIXED, "lee")])
RARM = Robot([("r0", FIXED, "r0"), ("rc", REVOLUTE, "rl3"),
              ("ra", REVOLUTE, "rl1"), ("rb", REVOLUTE, "rl2"),
              ("rt", FIXED, "ree")])
ROBOTS = {"plane.urdf": PLANE, "chain.urdf": CHAIN, "rh5.urdf": RH5,
          "left.urdf": LARM, "right.urdf": RARM}


class Bullet:
    """The physics simulation: what is read are symbols that name client,
    body, joint or link, and number of simulated steps."""

    def __init__(self, ip):
        self.ip = ip
        self.calls = []
        self.clients = {}
        # calls without client go to the last one (else reported by B01)
        self.own_default = False
        self.bodies = {}
        ip.ext_hook = self.hook
        ip.ext_constants = {"pybullet." + k: v for k, v in CONSTANTS.items()}

    def connect(self):
        k = 3 + 4 * len(self.clients)
        self.clients[k] = 0
        return k

    def hook(self, ip, path, args, kwargs):
        if path == "pybullet_data.getDataPath":
            return "/data"
        if not path.startswith("pybullet."):
            return MISSING
        name = path.rpartition(".")[2]
        args = list(args)
        client = kwargs.get("physicsClientId")
        if client is None and name in CLIENT and len(args) > CLIENT[name]:
            client = args[CLIENT[name]]
        if client is None and self.own_default and self.clients:
            client = max(self.clients)
        entry = dict(name=name, args=args, kwargs=dict(kwargs),
                     client=client, where=ip.where())
        self.calls.append(entry)
        if ip.pc and name not in PURE:
            raise Undecided("call of pybullet.%s under a condition" % name)
        f = getattr(self, "do_" + name, None)
        kwargs = {k: v for k, v in kwargs.items() if k != "physicsClientId"}
        r = f(entry, *args, **kwargs) if f is not None else None
        entry["result"] = r
        return r

    def body(self, entry, b):
        """Robot of a body; wrong clients are reported by B01."""
        r = self.bodies.get((entry["client"], b))
        if r is None:
            for (_, k), v in self.bodies.items():
                if k == b:
                    return v
            raise Undecided("body %s" % (b,))
        return r

    def now(self, entry):
        return self.clients.get(entry["client"], 0)

    def do_connect(self, e, *a, **k):
        return self.connect()

    def do_isConnected(self, e, *a, **k):
        return True

    def do_stepSimulation(self, e, *a, **k):
        if e["client"] in self.clients:
            self.clients[e["client"]] += 1

    def do_loadURDF(self, e, path, *a, **k):
        b = 20 + len(self.bodies)
        robot = ROBOTS.get(path)
        if robot is None:
            if not isinstance(path, str):
                raise Undecided("name of a robot file")
            robot = UR5
        self.bodies[e["client"], b] = robot
        e["body"] = b
        return b

    def do_getBasePositionAndOrientation(self, e, b, *a):
        z = P(0)
        return (z, z, z), (z, z, z, P(1))

    def do_getBodyInfo(self, e, b, *a):
        return b"base", b"robot"

    def do_getNumJoints(self, e, b, *a, **k):
        return len(self.body(e, b).joints)

    def do_getJointInfo(self, e, b, i, *a):
        return self.body(e, b).info(self.ip.as_index(i))

    def joint(self, e, b, i):
        n = "%s,%s,%s,%s" % (e["client"], b, i, self.now(e))
        return (T.sym("q(%s)" % n), T.sym("qd(%s)" % n), (P(0),) * 6, P(0))

    def do_getJointState(self, e, b, i, *a):
        return self.joint(e, b, self.ip.as_index(i))

    def do_getJointStates(self, e, b, idx, *a):
        idx = idx.a if isinstance(idx, Arr) else idx
        return tuple(self.joint(e, b, self.ip.as_index(i)) for i in idx)

    def link(self, client, b, i, now):
        n = "%s,%s,%s,%s" % (client, b, i, now)
        return (sy("p(%s)" % n, 3), kit.uq("o(%s)" % n), sy("v(%s)" % n, 3),
                sy("w(%s)" % n, 3))

    def do_getLinkState(self, e, b, i, computeLinkVelocity=0,
                        computeForwardKinematics=0, *a):
        i = self.ip.as_index(i)
        p, q, v, w = self.link(e["client"], b, i, self.now(e))
        q = list(q.a[1:]) + [q.a[0]]
        com = tuple(sy("com", 3).a)
        out = (com, tuple(kit.uq("comq").a), tuple(sy("loc", 3).a),
               tuple(kit.uq("locq").a), tuple(p.a), tuple(q))
        if computeLinkVelocity:
            out += (tuple(v.a), tuple(w.a))
        return out

    def do_calculateInverseKinematics(self, e, b, link, pos, rot=None, *a,
                                      **k):
        pos = [P(x) for x in as_arr(self.ip, pos).a]
        rot = [] if rot is None else [P(x) for x in as_arr(self.ip, rot).a]
        e["pose"] = (pos, rot)
        n = "%s,%s,%s,%s" % (e["client"], b, link, self.now(e))
        e["link"] = link
        return tuple(T.fn("ik(%s)" % n, P(j), *(pos + rot))
                     for j in range(len(self.body(e, b).movable)))

    def do_multiplyTransforms(self, e, p1, q1, p2, q2):
        p1, q1, p2, q2 = [np.array([P(x) for x in as_arr(self.ip, v).a],
                                   dtype=object) for v in (p1, q1, p2, q2)]
        a, b = [np.concatenate([q[3:], q[:3]]) for q in (q1, q2)]
        p = p1 + rotate(a, p2)
        q = mul(a, b)
        return tuple(p), tuple(np.concatenate([q[1:], q[:1]]))

    def do_invertTransform(self, e, p, q):
        p, q = [np.array([P(x) for x in as_arr(self.ip, v).a], dtype=object)
                for v in (p, q)]
        c = np.concatenate([q[3:], -q[:3]])
        return tuple(-rotate(c, p)), tuple(np.concatenate([-q[:3], q[3:]]))

    def since(self, n):
        return self.calls[n:]

    def of(self, *names):
        return [e for e in self.calls if e["name"] in names]


def mul(a, b):
    w = a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]
    x = a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2]
    y = a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1]
    z = a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]
    return np.array([w, x, y, z], dtype=object)


def rotate(q, v):
    c = np.array([q[0], -q[1], -q[2], -q[3]], dtype=object)
    p = np.concatenate([[P(0)], v])
    return mul(mul(q, p), c)[1:]


# -- objects -----------------------------------------------------------------------
KINDS = ("UR5Simulation", "KinematicsChain", "RH5Simulation")


def setup(c, kind, others=2, own_default=True):
    """The simulation after other clients have been connected."""
    ip = c.interp()
    b = Bullet(ip)
    b.own_default = own_default
    c.anchor(ip, SIM)
    for _ in range(others):
        b.connect()
    n = len(b.calls)
    o = make(c, ip, kind)
    return ip, b, o, n


def make(c, ip, kind):
    cls = c.anchor(ip, SIM, kind)
    if kind == "KinematicsChain":
        return new(ip, cls, ee_frame="ee", joints=["c", "a"],
                   urdf_path="chain.urdf")
    if kind == "RH5Simulation":
        return new(ip, cls, dt=DT, gui=False, left_ee_frame="lee",
                   right_ee_frame="ree", left_joints=LEFT,
                   right_joints=RIGHT, urdf_path="rh5.urdf",
                   left_arm_path="left.urdf", right_arm_path="right.urdf")
    if kind == "SimulationMockup":
        return new(ip, cls, dt=DT)
    return new(ip, cls, dt=DT, gui=False)


def steppable(ip, n, nv, coupling=True):
    """A movement about which nothing is known except that it is a function
    of the given state."""
    cls = Cls("Steppable", [], {}, None)
    log = []

    def step(ip, args, kwargs):
        a = dict(zip(("last_y", "last_yd", "coupling_term"), args), **kwargs)
        y, v = cp(as_arr(ip, a["last_y"])), cp(as_arr(ip, a["last_yd"]))
        k = len(log)
        log.append((y, v, a.get("coupling_term")))
        p = kit.uq("q%d" % k)
        out = [sy("d%d" % k, 3), p]
        if n == 14:
            out += [sy("e%d" % k, 3), kit.uq("r%d" % k)]
        return (Arr(np.concatenate([x.a for x in out]), "f"),
                sy("dv%d" % k, nv))
    cls.ns["step"] = StaticM(Native(step, "step"))
    return Obj(cls), log


# -- B01 ---------------------------------------------------------------------------
def methods(kind, ip):
    """Uses of the public methods."""
    out = {"construction": None}
    if kind == "PybulletSimulation":
        out.update({
            "step": lambda o: meth(ip, o, "step"),
            "sim_loop": lambda o: meth(ip, o, "sim_loop", 3)})
        return out
    if kind == "KinematicsChain":
        out.update({
            "inverse": lambda o: meth(ip, o, "inverse", pose("x")),
            "inverse from": lambda o: meth(ip, o, "inverse", pose("x"),
                                           sy("q", 2)),
            "goto": lambda o: meth(ip, o, "goto_joint_state", sy("q", 2),
                                   max_steps_to_joint_state=1)})
        return out
    dual = kind == "RH5Simulation"
    x = dual_pose if dual else pose
    nv, nq = (12, 5) if dual else (6, 6)
    out.update({
        "step": lambda o: meth(ip, o, "step"),
        "sim_loop": lambda o: meth(ip, o, "sim_loop", 2),
        "inverse_kinematics": lambda o: meth(ip, o, "inverse_kinematics",
                                             x("x")),
        "get_joint_state": lambda o: meth(ip, o, "get_joint_state"),
        "set_desired_joint_state": lambda o: meth(
            ip, o, "set_desired_joint_state", sy("q", nq)),
        "set_desired_joint_state position": lambda o: meth(
            ip, o, "set_desired_joint_state", sy("q", nq),
            position_control=True),
        "get_ee_state": lambda o: meth(ip, o, "get_ee_state"),
        "set_desired_ee_state": lambda o: meth(
            ip, o, "set_desired_ee_state", x("x")),
        "goto_ee_state": lambda o: meth(ip, o, "goto_ee_state", x("x"),
                                        wait_time=2 * DT),
        "write": lambda o: meth(ip, o, "write", sy("x", 3), "text"),
        "step_through_cartesian": lambda o: meth(
            ip, o, "step_through_cartesian", steppable(ip, 7 + 7 * dual,
                                                       nv)[0],
            x("x"), sy("v", nv), 2 * DT),
        "step_through_cartesian closed loop": lambda o: meth(
            ip, o, "step_through_cartesian", steppable(ip, 7 + 7 * dual,
                                                       nv)[0],
            x("x"), sy("v", nv), 2 * DT, closed_loop=True),
    })
    if not dual:
        out["get_ee_state velocity"] = lambda o: meth(
            ip, o, "get_ee_state", return_velocity=True)
        out["stop"] = lambda o: meth(ip, o, "stop")
        out["goto_ee_state text"] = lambda o: meth(
            ip, o, "goto_ee_state", x("x"), wait_time=DT, text="text")
    return out


def b01(c):
    total = {}
    for kind in ("PybulletSimulation",) + KINDS:
        if kind == "UR5Simulation":
            continue
        for m in methods(kind, None):
            for others in (0, 2):
                c.obligation("%s %s others=%d" % (kind, m, others), isolated,
                             c, kind, m, others, total)
        c.obligation("%s two objects" % kind, two, c, kind, total)
    c.obligation("ur5-default-client", ur5, c, total)
    c.obligation("debug-visualizer", visualizer, c)
    for name in ("draw_transform", "draw_pose", "draw_trajectory"):
        c.obligation(name, draw, c, name, total)
    c.obligation("analyze_robot", analysed, c, total)
    c.facts["calls_of_the_physics_engine"] = len(total)


def ur5(c, total):
    for m in methods("UR5Simulation", None):
        isolated(c, "UR5Simulation", m, 2, total)
    two(c, "UR5Simulation", total)


VISUALIZER = ("configureDebugVisualizer", "resetDebugVisualizerCamera")


def visualizer(c):
    ip, b, o, n = setup(c, "PybulletSimulation", 2, False)
    for e in b.since(n):
        if e["name"] in VISUALIZER:
            c.require(e["client"] in sorted(b.clients)[2:], "%s goes to the "
                      "default client" % e["name"], e["where"])


def own_calls(c, b, calls, own, total):
    for e in calls:
        if e["name"] in PURE or e["name"] in VISUALIZER:
            continue
        total[(e["where"], e["name"])] = 1
        c.require(e["client"] in own, "%s goes to client %s instead of the "
                  "own one" % (e["name"], "0 (default)" if e["client"] is None
                               else e["client"]), e["where"])


def isolated(c, kind, m, others, total):
    ip, b, o, n = setup(c, kind, others, False)
    arrive(b)
    own = sorted(b.clients)[others:]
    c.require(own, "no client is connected")
    f = methods(kind, ip)[m]
    if f is not None:
        n = len(b.calls)
        if kind == "RH5Simulation" and "step_through" in m:
            # waits for a second at the end
            ip.setattr(o, "stop", Native(lambda *_: None))
        f(o)
        c.require(len(b.calls) > n, "no call of the physics engine")
    own_calls(c, b, b.since(n), own, total)


def two(c, kind, total):
    ip, b, o, _ = setup(c, kind, 1, False)
    arrive(b)
    first = set(b.clients) - {3}
    o2 = make(c, ip, kind)
    second = set(b.clients) - {3} - first
    c.require(second, "the second object connects no client")
    use = {k: f for k, f in methods(kind, ip).items()
           if f is not None and "step_through" not in k}
    for name, f in use.items():
        n = len(b.calls)
        f(o)
        own_calls(c, b, b.since(n), first, total)
        n = len(b.calls)
        f(o2)
        own_calls(c, b, b.since(n), second, total)


def draw(c, name, total):
    ip = c.interp()
    b = Bullet(ip)
    b.connect(), b.connect()
    f = c.anchor(ip, SIM, name)
    if name == "draw_pose":
        x = pose("x")
    else:
        x = transform("x")
        if name == "draw_trajectory":
            x = Arr(np.stack([transform("x%d" % i).a for i in range(3)]), "f")
    kw = dict(client_id=7)
    if name == "draw_trajectory":
        kw["n_key_frames"] = 2
    else:
        kw["s"] = T.sym("size", "+")
    ip.call(f, [x], kw)
    c.require(b.calls, "nothing is drawn")
    own_calls(c, b, b.calls, {7}, total)


def transform(name):
    """A pose matrix (values of the rotation are columns of symbols)."""
    a = spec.eye(4)
    a = np.array(a, dtype=object)
    a[:3, 3] = sy(name, 3).a
    return Arr(a, "f")


def analysed(c, total):
    for mode in ("robot", "file"):
        ip = c.interp()
        b = Bullet(ip)
        b.connect(), b.connect()
        f = c.anchor(ip, SIM, "analyze_robot")
        if mode == "robot":
            b.bodies[7, 20] = CHAIN
            ip.call(f, [], dict(robot=20, physicsClientId=7))
            own = {7}
        else:
            ip.call(f, ["chain.urdf"], {})
            own = set(b.clients) - {3, 7}
        own_calls(c, b, b.calls, own, total)


# -- B02 ---------------------------------------------------------------------------
ARM = [1, 2, 3, 4, 5, 6]


def b02(c):
    c.obligation("UR5 inverse kinematics", ur5_inverse, c)
    c.obligation("UR5 end effector", ur5_ee, c)
    c.obligation("UR5 joints", ur5_joints, c)
    for position in (False, True):
        c.obligation("UR5 joint control position=%s" % position, ur5_control,
                     c, position)
        c.obligation("RH5 joint control position=%s" % position, rh5_control,
                     c, position)
        c.obligation("RH5 end effector control position=%s" % position,
                     rh5_desired, c, position)
    c.obligation("UR5 end effector control", ur5_desired, c)
    for n in (1, 3):
        c.obligation("UR5 movement to a pose in %d steps" % n, ur5_goto, c, n)
    c.obligation("UR5 stop", ur5_stop, c)
    c.obligation("RH5 inverse kinematics", rh5_inverse, c)
    c.obligation("RH5 end effectors", rh5_ee, c)
    c.obligation("RH5 joints", rh5_joints, c)
    for n in (1, 3):
        c.obligation("RH5 movement to a pose in %d steps" % n, rh5_goto, c, n)
    for kind in ("UR5Simulation", "RH5Simulation"):
        for closed in (False, True):
            for n in (0, 1, 3):
                c.obligation("%s execution closed loop=%s steps=%d" % (
                    kind, closed, n), execution, c, kind, closed, n)
    c.obligation("RH5 coupling", coupled, c, "RH5Simulation")
    c.obligation("mockup coupling", coupled, c, "SimulationMockup")
    for n in (0, 1, 3):
        c.obligation("mockup steps=%d" % n, mockup, c, n)
    c.obligation("mockup ownership", mockup_copies, c)
    c.obligation("chain inverse kinematics", chain_inverse, c)
    c.obligation("chain inverse kinematics from a state", chain_from, c)
    c.obligation("indices of joints and links", indices, c)
    c.obligation("simulation steps", sim_steps, c)
    for name in ("draw_transform", "draw_pose"):
        c.obligation(name, drawn_frame, c, name)
    c.obligation("draw_trajectory", drawn_trajectory, c)


def xyzw(p):
    """Position and orientation of a pose, scalar last."""
    return list(p.a[:3]), list(p.a[4:7]) + [p.a[3]]


def robot_of(b, robot):
    (client, body), = [k for k, v in b.bodies.items() if v is robot]
    return client, body


def same_list(c, got, want, what, where=None):
    ip = c.interp()
    c.same(arr(np.array([P(x) for x in as_arr(ip, got).a], dtype=object)),
           spec.vec([P(x) for x in want]), what, where)


def only(c, b, n, name, count=1):
    r = [e for e in b.since(n) if e["name"] == name]
    c.require(len(r) == count, "%d calls of %s instead of %d" % (
        len(r), name, count))
    return r


def q_now(b, robot, joints, at=None, v="q"):
    client, body = robot_of(b, robot)
    at = b.clients[client] if at is None else at
    return spec.vec([T.sym("%s(%s,%s,%s,%s)" % (v, client, body, j, at))
                     for j in joints])


def pose_now(b, robot, link, at=None):
    client, body = robot_of(b, robot)
    at = b.clients[client] if at is None else at
    p, q, v, w = b.link(client, body, link, at)
    return np.concatenate([p.a, q.a]), v.a


def solution(b, robot, link, p, joints, at=None):
    """Result of the inverse kinematics of the engine."""
    client, body = robot_of(b, robot)
    at = b.clients[client] if at is None else at
    pos, rot = xyzw(p)
    return spec.vec([T.fn("ik(%s,%s,%s,%s)" % (client, body, link, at), P(j),
                          *[P(x) for x in pos + rot]) for j in joints])


def control(c, ip, e, joints, mode, targets, what):
    """A command for the motors."""
    a = dict(zip(("bodyUniqueId", "jointIndices", "controlMode"), e["args"]))
    a.update(e["kwargs"])
    idx = a.get("jointIndices")
    c.require([ip.as_index(i) for i in (idx.a if isinstance(idx, Arr)
                                        else idx)] == list(joints),
              "%s: other joints are controlled" % what, e["where"])
    want = {"position": CONSTANTS["POSITION_CONTROL"],
            "velocity": CONSTANTS["VELOCITY_CONTROL"]}[mode]
    c.require(a.get("controlMode") == want, "%s: the joints are not under %s "
              "control" % (what, mode), e["where"])
    key = {"position": "targetPositions",
           "velocity": "targetVelocities"}[mode]
    c.require(a.get(key) is not None, "%s: no %s" % (what, key), e["where"])
    same_list(c, a[key], targets, "%s: %s" % (what, key), e["where"])


def ur5_inverse(c):
    ip, b, o, _ = setup(c, "UR5Simulation")
    x = pose("x")
    q = meth(ip, o, "inverse_kinematics", cp(x))
    e = b.of("calculateInverseKinematics")[0]
    pos, rot = xyzw(x)
    same_list(c, e["pose"][0], pos, "position of the end effector")
    same_list(c, e["pose"][1], rot, "orientation of the end effector")
    same_list(c, q, solution(b, UR5, e["link"], x, range(6)), "joint angles")


def ur5_ee(c):
    ip, b, o, n = setup(c, "UR5Simulation")
    p = meth(ip, o, "get_ee_state")
    e, = b.of("getLinkState")
    link = ip.as_index(e["args"][1])
    want, v = pose_now(b, UR5, link)
    c.same(p, want, "pose of the end effector")
    p, w = meth(ip, o, "get_ee_state", return_velocity=True)
    c.same(p, want, "pose of the end effector")
    c.same(w, np.concatenate([v, spec.zeros(3)]),
           "velocity of the end effector")
    meth(ip, o, "inverse_kinematics", pose("x"))
    e = b.of("calculateInverseKinematics")[0]
    c.require(ip.as_index(e["link"]) == link, "inverse kinematics is computed "
              "for another link than the one that is measured", e["where"])


def ur5_joints(c):
    ip, b, o, n = setup(c, "UR5Simulation")
    meth(ip, o, "step")
    q, v = meth(ip, o, "get_joint_state")
    c.same(q, q_now(b, UR5, ARM), "joint angles")
    c.same(v, q_now(b, UR5, ARM, v="qd"), "joint velocities")


def ur5_control(c, position):
    ip, b, o, n = setup(c, "UR5Simulation")
    x = sy("x", 6)
    kw = dict(position_control=True) if position else {}
    meth(ip, o, "set_desired_joint_state", cp(x), **kw)
    e, = only(c, b, n, "setJointMotorControlArray")
    control(c, ip, e, ARM, "position" if position else "velocity", x.a,
            "joint control")


def ur5_desired(c):
    ip, b, o, n = setup(c, "UR5Simulation")
    meth(ip, o, "step")
    x = pose("x")
    meth(ip, o, "set_desired_ee_state", cp(x))
    e, = only(c, b, n, "setJointMotorControlArray")
    k = b.of("calculateInverseKinematics")[0]
    q = solution(b, UR5, k["link"], x, range(6))
    control(c, ip, e, ARM, "velocity", (q - q_now(b, UR5, ARM)) / DT,
            "end effector control")


def ur5_goto(c, steps):
    ip, b, o, n = setup(c, "UR5Simulation")
    x = pose("x")
    meth(ip, o, "goto_ee_state", cp(x), wait_time=steps * DT)
    e, = only(c, b, n, "setJointMotorControlArray")
    k, = only(c, b, n, "calculateInverseKinematics")
    control(c, ip, e, ARM, "position", solution(b, UR5, k["link"], x,
                                                range(6), 0),
            "movement to a pose")
    only(c, b, n, "stepSimulation", steps)
    names = [x["name"] for x in b.since(n)]
    c.require(names.index("setJointMotorControlArray")
              < names.index("stepSimulation"),
              "the simulation runs before the command")


def ur5_stop(c):
    ip, b, o, n = setup(c, "UR5Simulation")
    meth(ip, o, "stop")
    e, = only(c, b, n, "setJointMotorControlArray")
    control(c, ip, e, ARM, "velocity", spec.zeros(6), "stop")
    only(c, b, n, "stepSimulation", 1)


LJ = [i for n in LEFT for i, j in enumerate(RH5.joints) if j[0] == n]
RJ = [i for n in RIGHT for i, j in enumerate(RH5.joints) if j[0] == n]


def arms(b, x, at=0):
    """Joint angles of both arms: each arm's chain is solved with its own
    pose; results are sorted like the joints of the arm."""
    out = []
    for robot, names, p, ee in ((LARM, LEFT, x.a[:7], "lee"),
                                (RARM, RIGHT, x.a[7:], "ree")):
        kinds = [robot.joints[i][0] for i in robot.movable]
        link = [j[2] for j in robot.joints].index(ee)
        client, body = robot_of(b, robot)
        out.append(solution(b, robot, link, arr(p),
                            [kinds.index(n) for n in names],
                            b.clients[client]))
    return np.concatenate(out)


def rh5(c):
    """Chains reach the current joint state after the first step."""
    ip, b, o, n = setup(c, "RH5Simulation")
    arrive(b)
    return ip, b, o, len(b.calls)


def arrive(b):
    """Joints of the chains take their target positions in the next step."""
    goal = {}

    def motors(e, body, idx, *a, **k):
        a = dict(zip(("controlMode",), a), **k)
        tp = a.get("targetPositions")
        if tp is not None:
            for i, x in zip(idx, as_arr(b.ip, tp).a):
                goal[e["client"], body, b.ip.as_index(i)] = P(x)

    joint = b.joint

    def state(e, body, i):
        r = joint(e, body, i)
        robot = b.body(e, body)
        if robot in (LARM, RARM, CHAIN) and (e["client"], body, i) in goal:
            return (goal[e["client"], body, i],) + r[1:]
        return r
    b.do_setJointMotorControlArray = motors
    b.joint = state


def rh5_inverse(c):
    ip, b, o, n = rh5(c)
    x = dual_pose("x")
    q = meth(ip, o, "inverse_kinematics", cp(x))
    c.same(q, arms(b, x), "joint angles of both arms")
    es = only(c, b, n, "setJointMotorControlArray", 2)
    for e, robot, names, joints in ((es[0], LARM, LEFT, LJ),
                                    (es[1], RARM, RIGHT, RJ)):
        idx = [[j[0] for j in robot.joints].index(k) for k in names]
        control(c, ip, e, idx, "position", q_now(b, RH5, joints),
                "chain of an arm")


def rh5_ee(c):
    ip, b, o, n = setup(c, "RH5Simulation")
    meth(ip, o, "step")
    p = meth(ip, o, "get_ee_state")
    links = [j[2] for j in RH5.joints]
    want = [pose_now(b, RH5, links.index(k))[0] for k in ("lee", "ree")]
    c.same(p, np.concatenate(want), "poses of the end effectors")


def rh5_joints(c):
    ip, b, o, n = setup(c, "RH5Simulation")
    meth(ip, o, "step")
    q, v = meth(ip, o, "get_joint_state")
    c.same(q, q_now(b, RH5, LJ + RJ), "joint angles")
    c.same(v, q_now(b, RH5, LJ + RJ, v="qd"), "joint velocities")


def commands(c, ip, b, n, mode, targets, what):
    """Commands for the arms of the robot, in any order or together."""
    client, body = robot_of(b, RH5)
    es = [e for e in b.since(n) if e["name"] == "setJointMotorControlArray"
          and e["client"] == client and e["args"][0] == body]
    got = {}
    key = {"position": "targetPositions",
           "velocity": "targetVelocities"}[mode]
    want = {"position": CONSTANTS["POSITION_CONTROL"],
            "velocity": CONSTANTS["VELOCITY_CONTROL"]}[mode]
    for e in es:
        a = dict(zip(("bodyUniqueId", "jointIndices", "controlMode"),
                     e["args"]), **e["kwargs"])
        c.require(a.get("controlMode") == want, "%s: the joints are not "
                  "under %s control" % (what, mode), e["where"])
        c.require(a.get(key) is not None, "%s: no %s" % (what, key),
                  e["where"])
        idx = a["jointIndices"]
        idx = idx.a if isinstance(idx, Arr) else idx
        x = as_arr(ip, a[key]).a
        c.require(len(idx) == len(x), "%s: %d targets for %d joints" % (
            what, len(x), len(idx)), e["where"])
        for i, y in zip(idx, x):
            got[ip.as_index(i)] = y
    c.require(sorted(got) == sorted(LJ + RJ), "%s: other joints are "
              "controlled" % what)
    for i, t in zip(LJ + RJ, targets):
        c.same(P(got[i]), P(t), "%s: target of joint %s" % (
            what, RH5.joints[i][0]))


def rh5_control(c, position):
    ip, b, o, n = setup(c, "RH5Simulation")
    x = sy("x", 5)
    n = len(b.calls)
    kw = dict(position_control=True) if position else {}
    meth(ip, o, "set_desired_joint_state", cp(x), **kw)
    commands(c, ip, b, n, "position" if position else "velocity", x.a,
             "joint control")


def rh5_desired(c, position):
    ip, b, o, n = rh5(c)
    x = dual_pose("x")
    kw = dict(position_control=True) if position else {}
    meth(ip, o, "set_desired_ee_state", cp(x), **kw)
    q = arms(b, x)
    if position:
        commands(c, ip, b, n, "position", q, "end effector control")
    else:
        commands(c, ip, b, n, "velocity",
                 (q - q_now(b, RH5, LJ + RJ)) / DT, "end effector control")


def rh5_goto(c, steps):
    ip, b, o, n = rh5(c)
    x = dual_pose("x")
    meth(ip, o, "goto_ee_state", cp(x), wait_time=steps * DT)
    commands(c, ip, b, n, "position", arms(b, x), "movement to a pose")
    client, _ = robot_of(b, RH5)
    c.require(b.clients[client] == steps, "%d steps of the simulation instead "
              "of %d" % (b.clients[client], steps))


def execution(c, kind, closed, steps):
    dual = kind == "RH5Simulation"
    if dual:
        ip, b, o, n = rh5(c)
        robot, nv = RH5, 12
        links = [j[2] for j in RH5.joints]
        measured = lambda at: np.concatenate([pose_now(
            b, RH5, links.index(k), at)[0] for k in ("lee", "ree")])
    else:
        ip, b, o, n = setup(c, kind)
        robot, nv = UR5, 6
        meth(ip, o, "get_ee_state")
        link = ip.as_index(b.of("getLinkState")[0]["args"][1])
        n = len(b.calls)
        measured = lambda at: pose_now(b, UR5, link, at)[0]
    stopped = []
    ip.setattr(o, "stop", Native(lambda *_: stopped.append(len(b.calls))))
    s, log = steppable(ip, 14 if dual else 7, nv)
    x0, v0 = (dual_pose if dual else pose)("x"), sy("v", nv)
    kw = dict(closed_loop=True) if closed else {}
    r = meth(ip, o, "step_through_cartesian", s, cp(x0), cp(v0), steps * DT,
             **kw)
    c.require(isinstance(r, tuple) and len(r) == 4, "desired and measured "
              "poses and velocities are not returned")
    c.require(len(log) == steps, "%d steps of the movement instead of %d" % (
        len(log), steps))
    client, _ = robot_of(b, robot)
    c.require(b.clients[client] == steps, "%d steps of the simulation instead "
              "of %d" % (b.clients[client], steps))
    c.require(len(stopped) == 1 and stopped[0] == len(b.calls),
              "the robot is not stopped at the end")
    s2, log2 = steppable(ip, 14 if dual else 7, nv)
    step = ip.getattr(s2, "step")
    want = [step.f(ip, [x0, v0], {}) for _ in range(steps)]
    desired = [x0.a] + [w[0].a for w in want]
    dvel = [v0.a] + [w[1].a for w in want]
    c.same(r[0], np.array(desired, dtype=object), "desired poses")
    c.same(r[2], np.array(dvel, dtype=object), "desired velocities")
    c.same(r[1], np.array([measured(i) for i in range(steps + 1)],
                          dtype=object), "measured poses")
    for i, (y, v, k) in enumerate(log):
        c.same(y, measured(i) if closed else desired[i],
               "pose passed to step %d" % i)
        c.same(v, dvel[i], "velocity passed to step %d" % i)
    if dual:
        c.require(r[3].a.shape == (steps + 1, 12), "velocities have shape %s"
                  % (r[3].a.shape,))
        return
    c.same(r[3], np.array([np.concatenate([
        pose_now(b, UR5, link, i)[1], spec.zeros(3)])
        for i in range(steps + 1)], dtype=object), "measured velocities")
    es = only(c, b, n, "setJointMotorControlArray", steps)
    for i, e in enumerate(es):
        q = solution(b, UR5, link, arr(desired[i + 1]), range(6), i)
        control(c, ip, e, ARM, "velocity",
                (q - q_now(b, UR5, ARM, i)) / DT, "step %d" % i)


def coupled(c, kind):
    ip, b, o, n = setup(c, kind)
    arrive(b)
    if kind == "RH5Simulation":
        ip.setattr(o, "stop", Native(lambda *_: None))
    s, log = steppable(ip, 14, 12)
    term = Obj(Cls("Coupling", [], {}, None))
    meth(ip, o, "step_through_cartesian", s, dual_pose("x"), sy("v", 12),
         2 * DT, coupling_term=term)
    c.require(len(log) == 2 and all(k is term for _, _, k in log),
              "the coupling term is not passed to the movement")


def mockup(c, steps):
    ip, b, o, n = setup(c, "SimulationMockup")
    s, log = steppable(ip, 14, 12)
    x0, v0 = dual_pose("x"), sy("v", 12)
    r = meth(ip, o, "step_through_cartesian", s, cp(x0), cp(v0), steps * DT)
    c.require(len(log) == steps, "%d steps of the movement instead of %d" % (
        len(log), steps))
    s2, _ = steppable(ip, 14, 12)
    step = ip.getattr(s2, "step")
    want = [step.f(ip, [x0, v0], {}) for _ in range(steps)]
    ys = np.array([x0.a] + [w[0].a for w in want], dtype=object)
    vs = np.array([v0.a] + [w[1].a for w in want], dtype=object)
    for got, w, what in zip(r, (ys, ys, vs, vs), (
            "desired poses", "poses", "desired velocities", "velocities")):
        c.same(got, w, what)
    for i, (y, v, _) in enumerate(log):
        c.same(y, ys[i], "pose passed to step %d" % i)
        c.same(v, vs[i], "velocity passed to step %d" % i)


def mockup_copies(c):
    ip, b, o, n = setup(c, "SimulationMockup")
    x0 = dual_pose("x")
    a = cp(x0)
    meth(ip, o, "goto_ee_state", a)
    a.a[...] = T.sym("garbage")
    c.same(ip.getattr(o, "ee_state"), x0, "pose after its source was changed")


def chain_inverse(c):
    ip, b, o, n = setup(c, "KinematicsChain")
    n = len(b.calls)
    x = pose("x")
    q = meth(ip, o, "inverse", cp(x), n_iter=13, threshold=T.sym("eps", "+"))
    e, = only(c, b, n, "calculateInverseKinematics")
    links = [j[2] for j in CHAIN.joints]
    c.same(q, solution(b, CHAIN, links.index("ee"), x, [2, 0]),
           "joint angles of the chain")
    c.require(e["kwargs"].get("maxNumIterations") == 13, "number of "
              "iterations is not passed on", e["where"])
    c.same(e["kwargs"].get("residualThreshold"), T.sym("eps", "+"),
           "threshold")
    only(c, b, n, "setJointMotorControlArray", 0)
    only(c, b, n, "stepSimulation", 0)


def chain_from(c):
    ip, b, o, n = setup(c, "KinematicsChain")
    arrive(b)
    n = len(b.calls)
    x, q0 = pose("x"), sy("q0", 2)
    q = meth(ip, o, "inverse", cp(x), cp(q0))
    e, = only(c, b, n, "setJointMotorControlArray")
    control(c, ip, e, [4, 1], "position", q0.a, "current joint state")
    k, = only(c, b, n, "calculateInverseKinematics")
    names = [e["name"] for e in b.since(n)]
    c.require("stepSimulation" in names and
              names.index("setJointMotorControlArray")
              < names.index("stepSimulation")
              < names.index("calculateInverseKinematics"),
              "inverse kinematics does not start in the current joint state")
    links = [j[2] for j in CHAIN.joints]
    c.same(q, solution(b, CHAIN, links.index("ee"), x, [2, 0]),
           "joint angles of the chain")


def indices(c):
    ip = c.interp()
    b = Bullet(ip)
    client = b.connect()
    b.bodies[client, 20] = CHAIN
    f = c.anchor(ip, SIM, "analyze_robot")
    kw = dict(robot=20, physicsClientId=client)
    joints, links, ik = ip.call(f, [], dict(kw, return_joint_indices=True))
    c.require(joints == {j[0]: i for i, j in enumerate(CHAIN.joints)},
              "indices of joints: %s" % joints)
    want = {j[2]: i for i, j in enumerate(CHAIN.joints)}
    c.require({k: v for k, v in links.items() if v >= 0} == want,
              "indices of links: %s" % links)
    c.require(ik == {"a": 0, "b": 1, "c": 2},
              "indices among the movable joints: %s" % ik)
    two_ = ip.call(f, [], kw)
    c.require(len(two_) == 2 and two_[0] == joints and two_[1] == links,
              "the result without indices of movable joints differs")


def sim_steps(c):
    for n in (0, 1, 4):
        ip, b, o, k = setup(c, "PybulletSimulation")
        client = sorted(b.clients)[-1]
        meth(ip, o, "sim_loop", n)
        c.require(b.clients[client] == n, "%d steps instead of %d" % (
            b.clients[client], n))
        meth(ip, o, "step")
        c.require(b.clients[client] == n + 1, "%d steps instead of one" % (
            b.clients[client] - n))
    e, = only(c, b, k, "setTimeStep")
    c.same(e["args"][0], DT, "time step of the simulation")


def lines(b, ip):
    out = []
    for e in b.of("addUserDebugLine"):
        a = dict(zip(("a", "b", "color", "width"), e["args"]), **e["kwargs"])
        a.setdefault("a", a.get("lineFromXYZ"))
        a.setdefault("b", a.get("lineToXYZ"))
        a.setdefault("color", a.get("lineColorRGB"))
        out.append((as_arr(ip, a["a"]).a, as_arr(ip, a["b"]).a,
                    list(as_arr(ip, a["color"]).a)))
    return out


def drawn_frame(c, name):
    ip = c.interp()
    b = Bullet(ip)
    b.connect()
    f = c.anchor(ip, SIM, name)
    s = T.sym("size", "+")
    if name == "draw_pose":
        x = pose("x")
        p, q = x.a[:3], x.a[3:]
        axes = [rotate(q, np.array([P(int(i == k)) for k in range(3)],
                                   dtype=object)) for i in range(3)]
    else:
        x = transform("x")
        p = x.a[:3, 3]
        axes = [x.a[:3, i] for i in range(3)]
    ip.call(f, [x], dict(s=s, client_id=3))
    ls = lines(b, ip)
    c.require(len(ls) == 3, "%d lines are drawn" % len(ls))
    found = {}
    for a, e, color in ls:
        k = [i for i, v in enumerate(color) if not T.is_zero(P(v))]
        c.require(len(k) == 1, "colour of an axis")
        found[k[0]] = (a, e)
    c.require(sorted(found) == [0, 1, 2], "colours of axes")
    for i, (a, e) in found.items():
        c.same(arr(a), p, "start of axis %d" % i)
        c.same(arr(e), p + s * axes[i], "end of axis %d" % i)


def drawn_trajectory(c):
    ip = c.interp()
    b = Bullet(ip)
    b.connect()
    f = c.anchor(ip, SIM, "draw_trajectory")
    xs = [transform("x%d" % i) for i in range(5)]
    s = T.sym("size", "+")
    ip.call(f, [Arr(np.stack([x.a for x in xs]), "f")], dict(
        client_id=3, n_key_frames=3, s=s))
    ls = lines(b, ip)
    path = [(a, e) for a, e, col in ls if all(T.is_zero(P(v)) for v in col)]
    c.require(len(path) == 4, "%d lines between poses" % len(path))
    for i, (a, e) in enumerate(path):
        c.same(arr(a), xs[i].a[:3, 3], "start of line %d" % i)
        c.same(arr(e), xs[i + 1].a[:3, 3], "end of line %d" % i)
    frames = [(a, e) for a, e, col in ls
              if not all(T.is_zero(P(v)) for v in col)]
    c.require(len(frames) == 9, "%d lines of key frames" % len(frames))
    want = {0, 2, 4}
    got = set()
    for a, e in frames:
        for i, x in enumerate(xs):
            if T.is_zero(P(a[0]) - P(x.a[0, 3])):
                got.add(i)
    c.require(got == want, "key frames are %s" % sorted(got))
