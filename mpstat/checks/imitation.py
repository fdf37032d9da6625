"""Learning of weights from demonstrations."""
from fractions import Fraction

import numpy as np

from .. import spec, kit, npmodel
from .. import terms as T
from ..kit import arr, cp, sy, uq, meth, get, new, DMP
from ..terms import P
from ..values import Arr, Undecided

F = Fraction
START = T.sym("start")
TAU = T.sym("tau", "+")
LAM = T.sym("reg", "+")
UNIFORM = [F(0), F(1, 4), F(1, 2), F(3, 4), F(1)]
UNEVEN = [F(0), F(1, 5), F(1, 2), F(2, 3), F(1)]
CLASSES = ("DMP", "DMPWithFinalVelocity", "CartesianDMP", "DualCartesianDMP")


def times(fr, start=START, tau=TAU):
    return arr(spec.vec([start + tau * f for f in fr]))


def demo(kind, m, n=2):
    Y = np.empty((m, {"CartesianDMP": 7, "DualCartesianDMP": 14}.get(kind, n)),
                 dtype=object)
    for i in range(m):
        if kind == "CartesianDMP":
            Y[i] = kit.pose("p%d" % i).a
        elif kind == "DualCartesianDMP":
            Y[i] = kit.dual_pose("p%d" % i).a
        else:
            Y[i] = sy("p%d" % i, n).a
    return Arr(Y, "f")


def primitive(c, kind, ext=True, n=2, k=3, smooth=False, tau=T.sym("exec",
                                                                   "+")):
    ip = c.interp(ext)
    if ext and kind in ("CartesianDMP", "DualCartesianDMP"):
        kit.recognise(c, ip)
    nv = {"CartesianDMP": 6, "DualCartesianDMP": 12}.get(kind, n)
    kw = dict(execution_time=tau, n_weights_per_dim=k,
              alpha_y=sy("alpha", nv, "+"), beta_y=sy("beta", nv, "+"))
    if kind in ("DMP", "DMPWithFinalVelocity"):
        kw["n_dims"] = n
    if smooth:
        kw["smooth_scaling"] = True
    return ip, new(ip, c.anchor(ip, DMP, kind), **kw)


# -- the documented regression -------------------------------------------------
def gradient(x):
    m = len(x)
    o = np.empty_like(x)
    o[0] = x[1] - x[0]
    o[m - 1] = x[m - 1] - x[m - 2]
    for i in range(1, m - 1):
        o[i] = (x[i + 1] - x[i - 1]) / 2
    return o


def qgradient(Q):
    m = len(Q)
    o = np.empty((m, 3), dtype=object)
    o[0] = spec.qdiff(Q[1], Q[0])
    o[m - 1] = spec.qdiff(Q[m - 1], Q[m - 2])
    for i in range(1, m - 1):
        o[i] = spec.qdiff(Q[i + 1], Q[i - 1]) / P(2)
    return o


def forces(T_, Y, alpha, beta, smooth, final, quat=False):
    dT = gradient(T_)[:, np.newaxis]
    tau = T_[-1] - T_[0]
    V = (qgradient(Y) if quat else gradient(Y)) / dT
    if not final:
        V[-1] = spec.zeros(V.shape[1])
    A = gradient(V) / dT
    A[-1] = spec.zeros(V.shape[1])
    out = np.empty_like(V)
    for i in range(len(Y)):
        d = spec.qdiff(Y[-1], Y[i]) if quat else Y[-1] - Y[i]
        sm = 0
        if smooth:
            z = spec.phase(T_[i], tau, T_[0])
            s = spec.qdiff(Y[-1], Y[0]) if quat else Y[-1] - Y[0]
            sm = beta * s * z
        out[i] = tau ** 2 * A[i] - alpha * (beta * d - tau * V[i] - sm)
    return out, V, A


def forces_final(T_, Y, alpha, beta):
    dT = (T_[1:] - T_[:-1])[:, np.newaxis]
    tau = T_[-1] - T_[0]
    V, A = spec.zeros(*Y.shape), spec.zeros(*Y.shape)
    V[1:] = (Y[1:] - Y[:-1]) / dT
    A[1:] = (V[1:] - V[:-1]) / dT
    out = np.empty_like(V)
    for i in range(len(Y)):
        for d in range(Y.shape[1]):
            g, gd, gdd = spec.quintic(
                T_[i], T_[0], T_[-1], Y[0, d], V[0, d], A[0, d], Y[-1, d],
                V[-1, d], A[-1, d])
            out[i, d] = tau ** 2 * A[i, d] - alpha[d] * (
                beta[d] * (g - Y[i, d]) + tau * (gd - V[i, d])) \
                - tau ** 2 * gdd
    return out, V, A


def design(fr, k):
    """Basis functions times phase, one row per basis function."""
    c, w = spec.rbf(k, F(1, k - 1), F(4, 5))
    X = np.empty((k, len(fr)), dtype=object)
    for i, f in enumerate(fr):
        z = spec.phase(P(f), P(1))
        for j, a in enumerate(spec.activations(z, c, w)):
            X[j, i] = a * z
    return X


def ridge(X, Fm, lam):
    A = spec.dot(X, X.T)
    for i in range(len(A)):
        A[i, i] = A[i, i] + lam
    return spec.dot(spec.dot(npmodel.mat_atoms("pinv", A), X), Fm).T


PARTS = {"CartesianDMP": [(slice(0, 3), slice(0, 3), False),
                          (slice(3, 7), slice(3, 6), True)],
         "DualCartesianDMP": [(slice(0, 3), slice(0, 3), False),
                              (slice(3, 7), slice(3, 6), True),
                              (slice(7, 10), slice(6, 9), False),
                              (slice(10, 14), slice(9, 12), True)]}


def expected(kind, fr, T_, Y, alpha, beta, k, lam, smooth, final):
    X = design(fr, k)
    if kind == "DMPWithFinalVelocity":
        Fm, V, A = forces_final(T_, Y, alpha, beta)
        return ridge(X, Fm, lam), V, A
    if kind == "DMP":
        Fm, V, A = forces(T_, Y, alpha, beta, smooth, final)
        return ridge(X, Fm, lam), V, A
    W = []
    for yp, vp, quat in PARTS[kind]:
        Fm, _, _ = forces(T_, Y[:, yp], alpha[vp], beta[vp], smooth, final,
                          quat)
        W.append(ridge(X, Fm, lam))
    return np.vstack(W), None, None


def regression(c, kind, fr, k, smooth=False, final=False, reg=True, n=2,
               ext=True, before=None):
    ip, o = primitive(c, kind, ext, n, k, smooth)
    if before:
        # as many samples from the same first to the same last time
        meth(ip, o, "imitate", times(before), arr(demo(kind, len(
            before), n).a[::-1].copy()), regularization_coefficient=LAM)
    T_, Y = times(fr), demo(kind, len(fr), n)
    kw = {}
    if reg:
        kw["regularization_coefficient"] = LAM
    if final:
        kw["allow_final_velocity"] = True
    meth(ip, o, "imitate", cp(T_), cp(Y), **kw)
    W = meth(ip, o, "get_weights")
    want, V, A = expected(kind, fr, T_.a, Y.a, sy("alpha", 12, "+").a[
        :len(W.a) // k], sy("beta", 12, "+").a[:len(W.a) // k], k,
        LAM if reg else T.ZERO, smooth, final)
    c.same(W, want.reshape(-1), "weights")


def i01(c):
    for kind in CLASSES:
        for nm, fr in (("evenly", UNIFORM), ("unevenly", UNEVEN)):
            c.obligation("%s %s sampled" % (kind, nm), regression, c, kind,
                         fr, 3)
        c.obligation("%s without extension" % kind, regression, c, kind,
                     UNEVEN, 3, ext=False)
        c.obligation("%s no regularisation" % kind, regression, c, kind,
                     UNEVEN, 2, reg=False)
        c.obligation("%s four weights" % kind, regression, c, kind,
                     [F(i, 6) for i in range(7)], 4)
        c.obligation("%s ten weights" % kind, regression, c, kind,
                     [F(i, 3) for i in range(4)], 10)
        c.obligation("%s fewer samples than weights" % kind, regression, c,
                     kind, [F(0), F(2, 5), F(1)], 5)
        c.obligation("%s fewer samples, no regularisation" % kind,
                     regression, c, kind, [F(0), F(2, 5), F(1)], 4,
                     reg=False)
        c.obligation("%s many samples" % kind, regression, c, kind,
                     [F(i, 20) for i in range(21)], 2)
        c.obligation("%s after another demonstration" % kind, regression, c,
                     kind, UNEVEN, 3, before=UNIFORM)
        c.obligation("%s two samples" % kind, regression, c, kind,
                     [F(0), F(1)], 2)
        if kind != "DMPWithFinalVelocity":
            c.obligation("%s smooth scaling" % kind, regression, c, kind,
                         UNEVEN, 3, smooth=True)
            if kind != "DMP" or True:
                c.obligation("%s final velocity" % kind, regression, c, kind,
                             UNEVEN, 3, final=True)
                c.obligation("%s final velocity and smooth scaling" % kind,
                             regression, c, kind, UNIFORM, 2, final=True,
                             smooth=True)
        if kind in ("DMP", "DMPWithFinalVelocity"):
            c.obligation("%s one dimension" % kind, regression, c, kind,
                         UNEVEN, 3, n=1)
            c.obligation("%s three dimensions" % kind, regression, c, kind,
                         UNIFORM, 2, n=3)
            c.obligation("%s seven dimensions" % kind, regression, c, kind,
                         UNEVEN[::2], 2, n=7)
        c.obligation("%s negative regularisation" % kind, negative, c, kind)


def negative(c, kind):
    ip, o = primitive(c, kind)
    kit.rejects(c, ip, lambda: meth(
        ip, o, "imitate", times(UNIFORM), demo(kind, 5),
        regularization_coefficient=-LAM), "negative regularisation",
        ("ValueError",))


# -- I02: invariance ---------------------------------------------------------------
def learned(c, kind, T_, Y, smooth=False, tau=T.sym("exec", "+"), k=3,
            before=None, n=2):
    ip, o = primitive(c, kind, smooth=smooth, tau=tau, k=k, n=n)
    if before:
        before(ip, o)
    meth(ip, o, "imitate", T_, Y, regularization_coefficient=LAM)
    return meth(ip, o, "get_weights"), ip, o


def i02(c):
    for kind in CLASSES:
        smooths = (False,) if kind == "DMPWithFinalVelocity" else (False,
                                                                   True)
        for smooth in smooths:
            def ob(what, fn, *a):
                c.obligation("%s %s smooth=%s" % (kind, what, smooth), fn, c,
                             kind, smooth, *a)
            ob("time shift", time_shift)
            ob("time scale", time_scale)
            ob("execution time", execution_time)
            ob("previous weights", previous)
            ob("another object before", another)
            ob("offset", offset)
            if kind in ("DMP", "DMPWithFinalVelocity"):
                ob("amplitude", amplitude)
            else:
                ob("frame", frame)
            ob("independent parts", parts)


def time_shift(c, kind, smooth):
    a, _, _ = learned(c, kind, times(UNEVEN), demo(kind, 5), smooth)
    b, _, _ = learned(c, kind, times(UNEVEN, START + T.sym("shift")),
                      demo(kind, 5), smooth)
    c.same(b, a, "weights of the demonstration recorded later")
    d, _, _ = learned(c, kind, times(UNEVEN, T.ZERO), demo(kind, 5), smooth)
    c.same(d, a, "weights of the demonstration recorded from time zero")


def time_scale(c, kind, smooth):
    a, _, _ = learned(c, kind, times(UNEVEN), demo(kind, 5), smooth)
    b, _, _ = learned(c, kind, times(UNEVEN, START, TAU * T.sym("slow", "+")),
                      demo(kind, 5), smooth)
    c.same(b, a, "weights of the slower demonstration")


def execution_time(c, kind, smooth):
    a, _, _ = learned(c, kind, times(UNEVEN), demo(kind, 5), smooth)
    b, ip, o = learned(c, kind, times(UNEVEN), demo(kind, 5), smooth,
                       tau=T.sym("other", "+"))
    c.same(b, a, "weights learned with another execution time")
    c.same(get(ip, o, "execution_time_"), T.sym("other", "+"),
           "execution time after imitation")


def previous(c, kind, smooth):
    a, _, _ = learned(c, kind, times(UNEVEN), demo(kind, 5), smooth)

    def before(ip, o):
        w = meth(ip, o, "get_weights")
        meth(ip, o, "set_weights", sy("old", w.a.shape))
    b, ip, o = learned(c, kind, times(UNEVEN), demo(kind, 5), smooth,
                       before=before)
    c.same(b, a, "weights learned after others were set")
    meth(ip, o, "imitate", times(UNEVEN), demo(kind, 5),
         regularization_coefficient=LAM)
    c.same(meth(ip, o, "get_weights"), a, "weights learned twice")


def another(c, kind, smooth):
    """Another object learned from a later start to the same end before."""
    a, _, _ = learned(c, kind, times(UNEVEN), demo(kind, 5), smooth)

    def before(ip, o):
        kw = dict(execution_time=T.sym("exec", "+"), n_weights_per_dim=3)
        if kind in ("DMP", "DMPWithFinalVelocity"):
            kw["n_dims"] = 2
        o2 = new(ip, c.anchor(ip, DMP, kind), **kw)
        meth(ip, o2, "imitate", times(UNIFORM), demo(kind, 5),
             regularization_coefficient=LAM)
        meth(ip, o2, "imitate", times(UNEVEN, START + TAU * F(1, 2),
                                      TAU * F(1, 2)), demo(kind, 5),
             regularization_coefficient=LAM)
    b, ip, o = learned(c, kind, times(UNEVEN), demo(kind, 5), smooth,
                       before=before)
    c.same(b, a, "weights learned after another object has learned")


def offset(c, kind, smooth):
    Y = demo(kind, 5)
    a, _, _ = learned(c, kind, times(UNEVEN), cp(Y), smooth)
    idx = {"CartesianDMP": [0, 1, 2],
           "DualCartesianDMP": [0, 1, 2, 7, 8, 9]}.get(
               kind, range(Y.a.shape[1]))
    for i in idx:
        for j in range(5):
            Y.a[j, i] = Y.a[j, i] + T.sym("offset%d" % i)
    b, _, _ = learned(c, kind, times(UNEVEN), Y, smooth)
    c.same(b, a, "weights of the shifted demonstration")


def amplitude(c, kind, smooth):
    Y = demo(kind, 5)
    lam = T.sym("factor")
    a, _, _ = learned(c, kind, times(UNEVEN), cp(Y), smooth)
    b, _, _ = learned(c, kind, times(UNEVEN), Arr(Y.a * lam, "f"), smooth)
    c.same(b, a.a * lam, "weights of the scaled demonstration")


def frame(c, kind, smooth):
    Y = demo(kind, 5)
    a, _, _ = learned(c, kind, times(UNEVEN), cp(Y), smooth)
    r = T.unit_quaternion("frame")
    for j in range(5):
        for yp, _, quat in PARTS[kind]:
            if quat:
                Y.a[j, yp] = spec.vec(T.qmul_(list(Y.a[j, yp]), r))
    b, _, _ = learned(c, kind, times(UNEVEN), Y, smooth)
    c.same(b, a, "weights of the demonstration in another body frame")


def symbols(p):
    return {a.name for a in P(p).atoms(True)
            if getattr(a, "kind", None) == "sym"}


def parts(c, kind, smooth):
    """Weights of one dimension depend on this dimension only."""
    Y = demo(kind, 5, 4)
    w, _, _ = learned(c, kind, times(UNEVEN), cp(Y), smooth, n=4)
    groups = PARTS.get(kind) or [
        (slice(d, d + 1), slice(d, d + 1), False)
        for d in range(Y.a.shape[1])]
    W = w.a.reshape(-1, 3)
    for gi, (yp, vp, quat) in enumerate(groups):
        own = set().union(*[symbols(x) for x in Y.a[:, yp].reshape(-1)])
        all_ = set().union(*[symbols(x) for x in Y.a.reshape(-1)])
        for i in range(vp.start, vp.stop):
            for x in W[i]:
                c.comparisons += 1
                other = (symbols(x) & all_) - own
                if other and not P(x).opaque:
                    # confirmed: the value changes with the other part
                    sub = {a: a_poly(a) for a in P(x).atoms(True)
                           if getattr(a, "kind", None) == "sym"
                           and a.name in other}
                    y = T.subst(P(x), sub)
                    c.same(y, x, "weights of part %d when other parts of "
                           "the demonstration change" % gi)


def a_poly(a):
    return T.sym(a.name + "'", a.sign)


# -- I03: boundary states -----------------------------------------------------------
def i03(c):
    for kind in CLASSES:
        c.obligation("%s start and goal" % kind, boundary, c, kind)
        c.obligation("%s start and goal, reconfigured before" % kind,
                     boundary, c, kind, True)
        for m in (2, 3, 8, 12, 30):
            c.obligation("%s start and goal of %d samples" % (kind, m),
                         boundary, c, kind, False, m)
        c.obligation("%s execution begins in the first sample" % kind,
                     executed, c, kind)
        c.obligation("%s demonstration is copied" % kind, copied, c, kind)
    c.obligation("DMPWithFinalVelocity velocities", velocities, c)


def boundary(c, kind, warm=False, m=0):
    ip, o = primitive(c, kind)
    Y = demo(kind, m or 5)
    if warm:
        meth(ip, o, "configure", start_y=cp(arr(demo(kind, 6).a[5])),
             goal_y=cp(arr(demo(kind, 7).a[6])))
    meth(ip, o, "imitate", times([F(i, m - 1) for i in range(m)] if m
                                 else UNEVEN), cp(Y),
         regularization_coefficient=LAM)
    c.same(get(ip, o, "start_y"), Y.a[0], "start after imitation")
    c.same(get(ip, o, "goal_y"), Y.a[-1], "goal after imitation")
    c.same(get(ip, o, "t"), P(0), "time after imitation")


def executed(c, kind):
    ip, o = primitive(c, kind, tau=P(F(3, 10)))
    Y = demo(kind, 5)
    ip.setattr(o, "dt_", P(F(1, 10)))
    ip.setattr(o, "int_dt", P(F(1, 10)))
    meth(ip, o, "imitate", times(UNEVEN), cp(Y),
         regularization_coefficient=LAM)
    _, ys = meth(ip, o, "open_loop", run_t=F(1, 10))
    c.same(arr(ys.a[0]), Y.a[0], "first position of the execution")


def copied(c, kind):
    """Changing the demonstration afterwards changes nothing."""
    ip, o = primitive(c, kind)
    Y, T_ = demo(kind, 5), times(UNEVEN)
    Y0 = Y.a.copy()
    meth(ip, o, "imitate", T_, Y, regularization_coefficient=LAM)
    c.same(Y, Y0, "demonstration after imitation")
    c.same(T_, times(UNEVEN), "times after imitation")
    w = cp(meth(ip, o, "get_weights"))
    Y.a[...] = sy("junk", Y.a.shape).a
    T_.a[...] = sy("junkt", T_.a.shape).a
    c.same(get(ip, o, "start_y"), Y0[0], "start")
    c.same(get(ip, o, "goal_y"), Y0[-1], "goal")
    c.same(meth(ip, o, "get_weights"), w, "weights")


def velocities(c):
    ip, o = primitive(c, "DMPWithFinalVelocity")
    Y, T_ = demo("DMPWithFinalVelocity", 5), times(UNEVEN)
    meth(ip, o, "imitate", cp(T_), cp(Y))
    _, V, A = forces_final(T_.a, Y.a, sy("alpha", 2, "+").a,
                           sy("beta", 2, "+").a)
    for nm, want in (("start_yd", V[0]), ("goal_yd", V[-1]),
                     ("start_ydd", A[0]), ("goal_ydd", A[-1])):
        c.same(get(ip, o, nm), want, nm)
