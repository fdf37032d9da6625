"""Common parts of the checks: inputs, objects of the analysed classes."""
import math
from fractions import Fraction

import numpy as np

from . import spec
from . import terms as T
from . import termeval
from .terms import P
from .values import (Arr, Cls, Func, Native, Obj, StaticM, InterpRaise,
                     Undecided, Phi, fromlist, symarr, npoly)

DMP = "movement_primitives.dmp"
FAST = "movement_primitives.dmp_fast"
SD = "movement_primitives.spring_damper"
BASE = "movement_primitives.base"

TAU = T.sym("tau", "+")
H = T.sym("h", "+")


def arr(x):
    """Abstract array of an object array or list."""
    if isinstance(x, Arr):
        return x
    return Arr(np.array(x, dtype=object), "f")


def sy(name, n, sign=None):
    return symarr(name, (n,) if isinstance(n, int) else n, sign)


def uq(name):
    return fromlist(T.unit_quaternion(name))


def pose(name):
    """Position and unit quaternion."""
    a = np.empty(7, dtype=object)
    a[:3] = symarr(name, (3,)).a
    a[3:] = T.unit_quaternion(name + "_q")
    return Arr(a, "f")


def dual_pose(name):
    a = np.empty(14, dtype=object)
    a[:7] = pose(name + "_l").a
    a[7:] = pose(name + "_r").a
    return Arr(a, "f")


def cp(a):
    return Arr(a.a.copy(), a.dt)


def get(ip, o, name):
    return ip.getattr(o, name)


def val(x):
    return P(x) if isinstance(x, Fraction) else x


def meth(ip, o, name, *args, **kwargs):
    return ip.call(ip.getattr(o, name), [val(a) for a in args],
                   {k: val(v) for k, v in kwargs.items()})


def new(ip, cls, **kwargs):
    return ip.call(cls, [], {k: val(v) for k, v in kwargs.items()})


# -- coupling terms of the environment -----------------------------------------
def coupling_terms(name, n, y, v):
    """Two uninterpreted vector functions of the state."""
    args = [P(x) for x in y] + [P(x) for x in v]
    cd = spec.vec([T.fn("%s.cd%d" % (name, i), *args) for i in range(n)])
    cdd = spec.vec([T.fn("%s.cdd%d" % (name, i), *args) for i in range(n)])
    return cd, cdd


def coupling_object(ip, name, n, log=None):
    """An object with a coupling method about which nothing is known except
    that it is a function of the state it is given."""
    def coupling(ip, args, kwargs):
        y, v = args[0], (args[1] if len(args) > 1
                         else kwargs.get("yd", kwargs.get("v")))
        if log is not None:
            log.append((y, v))
        cd, cdd = coupling_terms(name, n, y.a, v.a)
        return (Arr(cd, "f"), Arr(cdd, "f"))
    cls = Cls("Coupling", [], {}, None)
    cls.ns["coupling"] = StaticM(Native(coupling, "coupling"))
    return Obj(cls)


def coupling_spec(name, n):
    return lambda y, v: coupling_terms(name, n, y, v)


# -- recognition of quaternion helpers ------------------------------------------
def _try(f):
    try:
        return f()
    except (InterpRaise, Undecided, T.TooLarge, TypeError):
        return None


def _agree(got, want, n=24):
    if not isinstance(got, Arr) or got.a.shape != (len(want),):
        return False
    for g, w in zip(got.a, want):
        g, w = P(g), P(w)
        if T.equal(g, w):
            continue
        if g.opaque:
            return False
        sep, k = termeval.separates(g, w, points=n, tol=1e-7)
        if sep or k < n // 2:
            return False
    return True


def recognise(check, ip):
    """Functions of the compiled module that are the exponential, logarithm,
    product or conjugate of quaternions are replaced by these maps.

    A function is replaced if its value number on arbitrary arguments is the
    one of the map.  Others are analysed like any other function.
    """
    try:
        m = ip.load(FAST)
    except (Undecided, InterpRaise):
        return {}
    if m is None:
        return {}
    key = "_recognised"
    cache = getattr(check.program, key, None)
    if cache is None:
        cache = {}
        setattr(check.program, key, cache)
    out = {}
    for name, f in list(m.ns.items()):
        if not isinstance(f, Func):
            continue
        kind = cache.get(name)
        if kind is None:
            kind = cache[name] = _classify(check, name) or "-"
        if kind == "-":
            continue
        out[name] = kind
        ip.summaries[id(f.node)] = _summary(kind)
    return out


def _classify(check, name):
    from .interp import Interp

    def fresh():
        ip = Interp(check.program)
        f = ip.load(FAST).ns[name]
        return ip, f
    ip, f = fresh()
    args = [a for a in f.node.args.args]
    nreq = len(args) - len(f.node.args.defaults)
    if nreq == 2:
        a, b = uq("ra"), uq("rb")
        r = _try(lambda: ip.call(f, [a, b], {}))
        if r is not None and _agree(r, T.qmul_(list(a.a), list(b.a))):
            return "mul"
        return None
    if nreq != 1:
        return None
    v = sy("rv", 3)
    r = _try(lambda: ip.call(f, [v], {}))
    if r is not None and _agree(r, T.qexp_(list(v.a))):
        z = arr(spec.zeros(3))
        ip, f = fresh()
        if _agree(_try(lambda: ip.call(f, [z], {})), [1, 0, 0, 0]) and \
                _small(fresh, lambda s: [s, 0, 0], 1,
                       lambda x: math.sin(0.5 * x)):
            return "exp"
    ip, f = fresh()
    q = sy("rq", 4)
    r = _try(lambda: ip.call(f, [q], {}))
    if r is not None and _agree(r, T.qconj_(list(q.a))):
        return "conj"
    if r is not None and _agree(r, T.qlog_(list(q.a))):
        ip, f = fresh()
        e = arr(spec.vec([1, 0, 0, 0]))
        if not _agree(_try(lambda: ip.call(f, [e], {})), [0, 0, 0]):
            return None
        if _small(fresh, lambda s: [T.cos_(s), T.sin_(s), 0, 0], 0,
                  lambda x: 2 * x):
            return "log"
        return None
    return None


def _small(fresh, arg, i, want):
    """Small and large rotations about the first axis."""
    ip, f = fresh()
    r = _try(lambda: ip.call(f, [arr(spec.vec(arg(T.sym("rs", "+"))))], {}))
    if r is None:
        return False
    for x in (1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1.0, 1.5):
        val = termeval.Valuation(1, {"rs": x})
        try:
            if abs(val.poly(P(r.a[i])) - want(x)) > 1e-4 * x:
                return False
        except (termeval.Undefined, OverflowError):
            return False
    return True


def _summary(kind):
    def mul(ip, args, kwargs):
        return fromlist(T.qmul_(list(args[0].a), list(args[1].a)))

    def exp(ip, args, kwargs):
        return fromlist(T.qexp_(list(args[0].a)))

    def conj(ip, args, kwargs):
        return fromlist(T.qconj_(list(args[0].a)))

    def log(ip, args, kwargs):
        return fromlist(T.qlog_(list(args[0].a)))
    return {"mul": mul, "exp": exp, "conj": conj, "log": log}[kind]


# -- objects -----------------------------------------------------------------------
class Setup:
    """A movement primitive in an arbitrary configuration and state."""

    def __init__(self, check, kind, ext=True, n=2, k=3, full=1,
                 rest=Fraction(1, 2), smooth=False, p_gain=None,
                 last_t=None, warm=True, h=H, tau=TAU):
        self.check = check
        self.kind = kind
        ip = self.ip = check.interp(ext=ext)
        if ext and kind in ("CartesianDMP", "DualCartesianDMP"):
            recognise(check, ip)
        h = self.h = P(h)
        self.tau = P(tau)
        self.dt = h * full + h * rest if rest else h * full
        self.full, self.rest = full, rest
        self.last_t = T.sym("t0", "+") if last_t is None else P(last_t)
        self.t = self.last_t + self.dt
        self.k = k
        self.smooth = smooth
        dims = {"DMP": (n, n), "DMPWithFinalVelocity": (n, n),
                "CartesianDMP": (7, 6), "DualCartesianDMP": (14, 12),
                "StateFollowingDMP": (n, n), "SpringDamper": (n, n),
                "SpringDamperOrientation": (4, 3)}[kind]
        self.n, self.nv = dims
        self.alpha = sy("alpha", self.nv, "+")
        self.beta = sy("beta", self.nv, "+")
        kw = {}
        spring = kind.startswith("Spring")
        cls = check.anchor(ip, SD if spring else DMP, kind)
        if kind in ("DMP", "DMPWithFinalVelocity", "StateFollowingDMP",
                    "SpringDamper"):
            kw["n_dims"] = n
        kw["dt"] = self.dt
        kw["int_dt"] = h
        if spring:
            self.stiffness = T.sym("k", "+")
            self.damping = T.sym("c", "0+")
            kw["k"] = self.stiffness
            kw["c"] = self.damping
        else:
            kw["execution_time"] = self.tau
            kw["alpha_y"] = cp(self.alpha)
            kw["beta_y"] = cp(self.beta)
            if kind == "StateFollowingDMP":
                kw["n_viapoints"] = k
            else:
                kw["n_weights_per_dim"] = k
        if kind in ("DMP", "CartesianDMP", "DualCartesianDMP"):
            kw["smooth_scaling"] = smooth
        self.p_gain = P(0)
        if p_gain is not None and kind in ("DMP", "DMPWithFinalVelocity",
                                           "DualCartesianDMP"):
            self.p_gain = T.sym("p", "+")
            kw["p_gain"] = self.p_gain
        self.obj = new(ip, cls, **kw)
        if warm:
            self._warm_up()
        if kind in ("DMP", "DMPWithFinalVelocity", "CartesianDMP",
                    "DualCartesianDMP"):
            nw = {"CartesianDMP": 6, "DualCartesianDMP": 12}.get(kind, n)
            self.W = symarr("w", (nw, k))
            meth(ip, self.obj, "set_weights", arr(self.W.a.reshape(-1)))
        if kind == "StateFollowingDMP":
            self.via = symarr("via", (k, n))
            ip.setattr(get(ip, self.obj, "forcing_term"), "viapoints",
                       cp(self.via))

    def _warm_up(self):
        """One step at rest: the object is no longer in its first step."""
        y = spec.zeros(self.n)
        for i in {"CartesianDMP": [3], "DualCartesianDMP": [3, 10],
                  "SpringDamperOrientation": [0]}.get(self.kind, []):
            y[i] = T.ONE
        meth(self.ip, self.obj, "configure", start_y=Arr(y.copy(), "f"),
             goal_y=Arr(y.copy(), "f"))
        meth(self.ip, self.obj, "step", Arr(y, "f"),
             Arr(spec.zeros(self.nv), "f"))

    def state(self, name):
        return {"CartesianDMP": pose, "DualCartesianDMP": dual_pose,
                "SpringDamperOrientation": uq}.get(
                    self.kind, lambda nm: sy(nm, self.n))(name)

    def vel(self, name):
        return sy(name, self.nv)

    def configure(self, **over):
        self.s = over.pop("s", None) or self.state("s")
        self.g = over.pop("g", None) or self.state("g")
        self.sd, self.gd = self.vel("sd"), self.vel("gd")
        self.sdd, self.gdd = self.vel("sdd"), self.vel("gdd")
        kw = dict(t=self.last_t, start_y=cp(self.s), start_yd=cp(self.sd),
                  start_ydd=cp(self.sdd), goal_y=cp(self.g),
                  goal_yd=cp(self.gd), goal_ydd=cp(self.gdd))
        kw.update(over)
        meth(self.ip, self.obj, "configure", **kw)
        return self

    def arbitrary_state(self, y=None, v=None):
        """As after any number of steps."""
        self.y = y or self.state("y")
        self.v = v or self.vel("v")
        for name, x in (("current_y", self.y), ("current_yd", self.v)):
            old = self.obj.d.get(name)
            if not isinstance(old, Arr) or old.a.shape != x.a.shape:
                raise Undecided("no attribute %s" % name)
            self.ip.setattr(self.obj, name, cp(x))
        return self

    def steps(self, last_t=None):
        return spec.substeps(self.last_t if last_t is None else last_t,
                             self.full, self.rest, self.h)

    def step(self, y, v, **kw):
        return meth(self.ip, self.obj, "step", y, v, **kw)

    def expected(self, y, v, method=None, coupling=None, tracking=None,
                 last_t=None, t=None, past_goal=False, s=None):
        """Required result of one step from state (y, v)."""
        y, v = y.a, v.a
        last_t = self.last_t if last_t is None else last_t
        t = last_t + self.dt
        steps = self.steps(last_t)
        kind = self.kind
        if kind == "DMP":
            kw = dict(smooth=self.smooth, coupling=coupling,
                      tracking=tracking, p_gain=self.p_gain)
            a = (y, v, self.s.a, self.g.a, self.alpha.a, self.beta.a,
                 self.tau, self.W.a)
            if method.startswith("euler"):
                return spec.euler(*a, steps, **kw)
            return spec.rk4(*a, t, self.dt, **kw)
        if kind == "CartesianDMP":
            p, r = slice(0, 3), slice(3, None)
            al, be = self.alpha.a, self.beta.a
            s, g, W = self.s.a, self.g.a, self.W.a
            a = (y[p], v[p], s[p], g[p], al[p], be[p], self.tau, W[p])
            kw = dict(smooth=self.smooth, coupling=coupling)
            if method and method.startswith("euler"):
                y1, v1 = spec.euler(*a, steps, **kw)
            else:
                y1, v1 = spec.rk4(*a, t, self.dt, **kw)
            y2, v2 = spec.quaternion(y[r], v[r], s[r], g[r], al[r], be[r],
                                     self.tau, W[r], steps, **kw)
            return np.concatenate((y1, y2)), np.concatenate((v1, v2))
        if kind == "DualCartesianDMP":
            return spec.dual(y, v, self.s.a, self.g.a, self.alpha.a,
                             self.beta.a, self.tau, self.W.a, steps,
                             smooth=self.smooth, coupling=coupling,
                             tracking=tracking, p_gain=self.p_gain)
        if kind == "DMPWithFinalVelocity":
            return spec.final_velocity(
                y, v, self.s.a, self.sd.a, self.sdd.a, self.g.a, self.gd.a,
                self.gdd.a, self.alpha.a, self.beta.a, self.tau, self.W.a,
                steps, coupling=coupling, tracking=tracking,
                p_gain=self.p_gain, past_goal=past_goal)
        if kind == "StateFollowingDMP":
            return spec.state_following(
                y, v, self.via.a, self.alpha.a, self.beta.a, self.tau, steps,
                coupling=coupling)
        return spec.spring(y, v, self.g.a, self.stiffness, self.damping,
                           steps, coupling=coupling,
                           quat=kind == "SpringDamperOrientation")


def tracking_error(kind, internal, given):
    """Error of the internal state with respect to the given one."""
    if kind == "DualCartesianDMP":
        e = spec.zeros(12)
        for p, k in spec.DUAL_POS:
            e[k] = internal[p] - given[p]
        for p, k in spec.DUAL_ORI:
            e[k] = spec.qdiff(internal[p], given[p])
        return e
    return internal - given


# -- rejection of arguments ----------------------------------------------------------
def rejects(check, ip, call, what, names=("ValueError",)):
    """The call raises one of the named exceptions.  Returns the exception."""
    check.comparisons += 1
    n0 = len(ip.raises)
    try:
        call()
    except InterpRaise as e:
        check.require(e.exc.name in names, "%s: raises %s instead of %s" % (
            what, e.exc, " or ".join(names)), e.where)
        return e.exc
    for cond, exc, where in ip.raises[n0:]:
        if cond is True and exc.name in names:
            return exc
    check.fail("%s: no error is raised" % what)


class FreeForcing:
    """A forcing term about which nothing is known except that phase and force
    are functions of time and phase."""

    def __init__(self, n):
        self.n = n
        cls = Cls("Forcing", [], {}, None)

        def ph(ip, args, kwargs):
            t = args[0]
            if isinstance(t, Arr):
                return Arr(spec.vec([T.fn("phase", P(x)) for x in t.a]), "f")
            return npoly(T.fn("phase", P(t)))

        def force(ip, args, kwargs):
            z = args[0]
            zs = list(z.a.reshape(-1)) if isinstance(z, Arr) else [z]
            a = np.empty((n, len(zs)), dtype=object)
            for d in range(n):
                for j, x in enumerate(zs):
                    a[d, j] = T.fn("force%d" % d, P(x))
            return Arr(a, "f")
        cls.ns["phase"] = StaticM(Native(ph, "phase"))
        cls.ns["forcing_term"] = StaticM(Native(force, "forcing_term"))
        self.obj = Obj(cls)
