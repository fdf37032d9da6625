"""Messages about the progress."""
from fractions import Fraction as F

from .. import spec
from ..kit import arr, cp, meth
from ..terms import P
from . import coupling, generated, kinematics, promp


def v02(c):
    for mode in kinematics.MODES:
        for errors in ([0], [F(1, 2), F(1, 3)], [F(1, 3), F(1, 2)],
                       [F(1, 3) + F(1, 10 ** 5), F(1, 3)]):
            for v in (1, 2, 3, 10):
                c.obligation("%s errors=%s verbose=%d" % (
                    mode, ",".join(map(str, errors)), v), chain, c, mode,
                    errors, v)
    for n in (1, 2):
        for steps in ((2,), (3, 2)):
            c.obligation("training n=%d steps=%s" % (n, steps), training, c,
                         n, steps)
    for v in (1, 2, 10):
        c.obligation("training stops verbose=%d" % v, stops, c, v)
        c.obligation("training for 6 iterations verbose=%d" % v, longer, c,
                     v)
    for kind in (coupling.POSE, coupling.TRAJ):
        for v in (True, 2, 10):
            c.obligation("%s verbose=%s" % (kind, v), term, c, kind, v)
    c.obligation("propagation", generated.verbose, c)


def chain(c, mode, errors, v):
    out = []
    for verbose in (0, v):
        ip, ch, _, _ = kinematics.make(c, "planar", verbose=verbose)
        kinematics.script(ip, errors)
        more = dict(m=3) if mode.startswith("trajectory") else {}
        r = kinematics.call_mode(ip, ch, 2, mode, **more)
        out.append((r, [e["args"][1] for e in kinematics.minimisations(ip)]))
    c.same(out[1][0], out[0][0], "joint angles with messages")
    a, b = out[0][1], out[1][1]
    c.require(len(a) == len(b), "%d optimisations with messages, %d "
              "without" % (len(b), len(a)))
    for k in range(len(a)):
        c.same(b[k], a[k], "start of optimisation %d with messages" % k)


def training(c, n, steps):
    Ts, Ys = promp.demos(n, steps)
    r = [promp.train(c, n, 2, Ts, Ys, False, n_iter=1, verbose=v)
         for v in (0, 1)]
    promp.same_promp(c, r[1], r[0], n, 2, "with messages")


def stops(c, v):
    Ts, _ = promp.demos(1, (2, 3))
    Ys = [arr(spec.zeros(m, 1)) for m in (2, 3)]
    r = [promp.train(c, 1, 2, Ts, Ys, False, n_iter=3, verbose=x)
         for x in (0, v)]
    promp.same_promp(c, r[1], r[0], 1, 2, "with messages")


def longer(c, v):
    Ts, _ = promp.demos(1, (2,))
    Ys = [arr(spec.vec([F(1), F(1)]).reshape(2, 1))]
    r = [promp.train(c, 1, 1, Ts, Ys, False, n_iter=6, min_delta=P(0),
                     verbose=x) for x in (0, v)]
    promp.same_promp(c, r[1], r[0], 1, 1, "with messages")


def term(c, kind, v):
    out = []
    for verbose in (0, v):
        kw = dict(lf=coupling.L, k=coupling.K, c1=coupling.C1,
                  c2=coupling.C2, verbose=verbose)
        if kind == coupling.POSE:
            R, p = coupling.desired()
            kw["desired_distance"] = coupling.transform(R, p)
        else:
            kw.update(offset=arr(spec.zeros(7)), dt=F(1, 4))
        ip, o = coupling.make(c, kind, **kw)
        if kind == coupling.TRAJ:
            meth(ip, o, "imitate", arr(spec.vec([F(0), F(1, 2), F(1)])),
                 coupling.demonstration(3))
        for _ in range(2):
            y, w = coupling.state(kind)
            r = meth(ip, o, "coupling", cp(y), cp(w))
        out.append(r)
    for a, b, nm in zip(out[1], out[0], ("velocity", "acceleration")):
        c.same(a, b, "%s with messages" % nm)
