"""Plots of trajectories and distributions."""
from .. import spec
from .. import terms as T
from ..kit import arr, cp, sy
from ..npmodel import MISSING, as_arr
from ..terms import P
from ..values import Arr, Cls, Native, Obj, Undecided

PLOT = "movement_primitives.plot"
MODES = {"plot": ("x", "y"), "fill_between": ("x", "y1", "y2")}


class Figure:
    """Records what is drawn in which subplot."""

    def __init__(self, ip):
        self.ip = ip
        self.axes = {}
        self.calls = []
        self.other = []
        self.cls = Cls("Axes", [], {}, None)
        ip.ext_hook = self.hook

    def axis(self, key):
        if key in self.axes:
            return self.axes[key]
        o = Obj(self.cls)
        o.d["key"] = key
        for name in ("plot", "fill_between", "set_title", "set_xlabel",
                     "set_xlim", "set_xticks", "set_ylabel", "set_ylim",
                     "grid", "legend", "set_yticks", "set"):
            o.d[name] = Native(
                lambda ip, a, k, n=name: self.calls.append(
                    (o, n, list(a), dict(k), ip.where())), name)
        self.axes[key] = o
        return o

    def hook(self, ip, path, args, kwargs):
        if not path.startswith("matplotlib.pyplot."):
            return MISSING
        name = path.rpartition(".")[2]
        if name == "subplot" and len(args) == 3:
            if ip.pc:
                raise Undecided("subplot under a condition")
            return self.axis(tuple(ip.as_index(x) for x in args))
        if name in ("tight_layout", "draw", "show"):
            return None
        raise Undecided("call of %s" % path)

    def of(self, axis, *names):
        return [c for c in self.calls if c[0] is axis and c[1] in names]


def l01(c):
    for n in (1, 2, 3, 8):
        for t in (False, True):
            for given in (False, True):
                c.obligation("trajectory n_dims=%d t=%s axes=%s" % (
                    n, t, given), trajectory, c, n, t, given)
                for fill in (True, False):
                    for color in (None, "b"):
                        c.obligation(
                            "distribution n_dims=%d t=%s axes=%s fill=%s "
                            "color=%s" % (n, t, given, fill, color),
                            distribution, c, n, t, given, fill, color)
    for n, shape in ((4, (2, 2)), (6, (2, 3)), (5, (3, 2)), (3, (3, 1)),
                     (3, (1, 3)), (7, (4, 2)), (7, (2, 4)), (14, (7, 2)),
                     (10, (3, 4))):
        for tr in (False, True):
            for fn in ("plot_trajectory_in_rows",
                       "plot_distribution_in_rows"):
                c.obligation("%s %d subplots in %s transpose=%s" % (
                    fn, n, shape, tr), layout, c, fn, n, shape, tr)
    for k in (0, 1, 3):
        c.obligation("titles=%d" % k, titles, c, k)
    for m in (0, 1, 2, 5):
        c.obligation("%d factors" % m, factors, c, m)
    c.obligation("labels", labels, c)
    c.obligation("arguments", arguments, c)


def given_axes(f, n):
    return [f.axis(("given", i)) for i in range(n)]


def run(c, name, args, kw, given=None):
    ip = c.interp()
    f = Figure(ip)
    fn = c.anchor(ip, PLOT, name)
    kw = dict(kw)
    if given:
        kw["axes"] = given_axes(f, given)
    r = ip.call(fn, args, kw)
    if isinstance(r, Arr):
        r = list(r.a)
    c.require(isinstance(r, (list, tuple)), "no list of axes is returned")
    return ip, f, list(r)


def same_x(c, ip, x, t, steps, where):
    c.same(arr(as_arr(ip, list(x) if isinstance(x, range) else x).a),
           t.a if t is not None else spec.vec([P(i) for i in range(steps)]),
           "horizontal axis", where)


def curve(c, ip, e, t, steps, want, what):
    _, name, a, k, where = e
    a = dict(zip(MODES[name], a), **k)
    same_x(c, ip, a["x"], t, steps, where)
    c.same(arr(as_arr(ip, a["y"]).a), want, what, where)


def trajectory(c, n, timed, given):
    Y, t = sy("y", (4, n)), sy("t", 4) if timed else None
    kw = dict(t=cp(t)) if timed else {}
    ip, f, axes = run(c, "plot_trajectory_in_rows", [cp(Y)], dict(
        kw, color="r"), n if given else None)
    c.require(len(axes) == n and len(set(map(id, axes))) == n,
              "%d axes" % len(axes))
    for i, ax in enumerate(axes):
        if given:
            c.require(ax is f.axes["given", i], "other axes are used")
        es = f.of(ax, "plot")
        c.require(len(es) == 1, "%d curves in subplot %d" % (len(es), i))
        curve(c, ip, es[0], t, 4, Y.a[:, i], "curve of dimension %d" % i)
        c.require(es[0][3].get("color") == "r", "the colour is not passed on")
        settings(c, ip, f, ax, i, n, t, given)
    c.require(len([e for e in f.calls if e[1] == "plot"]) == n,
              "more curves than dimensions")


def settings(c, ip, f, ax, i, n, t, given):
    """Titles and limits of new subplots; given ones keep theirs."""
    if given:
        c.require(not f.of(ax, "set_title", "set_xlabel", "set_xlim",
                           "set_xticks"), "given axes are changed")
        return
    lim = f.of(ax, "set_xlim")
    c.require(lim, "no limits of the horizontal axis")
    a = lim[-1][2]
    lo, hi = a if len(a) == 2 else a[0]
    c.same(P(lo), t.a[0] if t is not None else P(0), "left end")
    c.same(P(hi), t.a[-1] if t is not None else P(3), "right end")
    x = f.of(ax, "set_xlabel")
    c.require(bool(x) == (i == n - 1), "label of the horizontal axis of "
              "subplot %d" % i)
    if x:
        text = "Time [s]" if t is not None else "Step"
        c.require(x[-1][2][:1] == [text], "label %s instead of %s" % (
            x[-1][2], text))


def distribution(c, n, timed, given, fill, color):
    M, S = sy("m", (4, n)), sy("s", (4, n), "+")
    t = sy("t", 4) if timed else None
    kw = dict(t=cp(t)) if timed else {}
    if color:
        kw["color"] = color
    ip, f, axes = run(c, "plot_distribution_in_rows", [cp(M), cp(S)], dict(
        kw, fill_between=fill), n if given else None)
    c.require(len(axes) == n and len(set(map(id, axes))) == n,
              "%d axes" % len(axes))
    for i, ax in enumerate(axes):
        bands(c, ip, f, ax, i, M, S, t, fill, (1, 2, 3), color)
        settings(c, ip, f, ax, i, n, t, given)


def bands(c, ip, f, ax, i, M, S, t, fill, fs, color):
    lines = f.of(ax, "plot")
    m, s = M.a[:, i], S.a[:, i]
    steps = len(m)
    for e in lines:
        c.require(len(e[2]) == 2 or (len(e[2]) == 3
                                     and isinstance(e[2][2], str)),
                  "a curve is drawn with the positional arguments %s" % (
                      [type(x).__name__ for x in e[2]],), e[4])
        a = e[3].get("color", e[2][2] if len(e[2]) == 3 else None)
        c.require(a == color, "a curve is drawn in colour %s instead of %s"
                  % (a, color), e[4])
    want = [m] if fill else [m] + [m + sg * f_ * s for f_ in fs
                                   for sg in (-1, 1)]
    match(c, ip, lines, want, lambda e: (e[2][0], [e[2][1]]), t, steps,
          "curve", i)
    want = [(m - f_ * s, m + f_ * s) for f_ in fs] if fill else []
    fills = f.of(ax, "fill_between")
    for e in fills:
        c.require(e[3].get("color") == color, "a band is drawn in another "
                  "colour", e[4])
    match(c, ip, fills, want, lambda e: (e[2][0], e[2][1:3]), t, steps,
          "band", i)


def match(c, ip, calls, want, get, t, steps, what, i):
    """Each required curve is drawn once, in any order."""
    c.require(len(calls) == len(want), "%d %ss in subplot %d instead of %d"
              % (len(calls), what, i, len(want)))
    left = list(calls)
    for w in want:
        w = w if isinstance(w, tuple) else (w,)
        for e in left:
            x, ys = get(e)
            ys = [as_arr(ip, y).a for y in ys]
            if all(same(y, z) for y, z in zip(ys, w)) or (
                    len(w) == 2 and same(ys[0], w[1]) and same(ys[1], w[0])):
                same_x(c, ip, x, t, steps, e[4])
                left.remove(e)
                break
        else:
            x, ys = get(left[0])
            for y, z in zip(ys, w):
                c.same(arr(as_arr(ip, y).a), z, "%s of dimension %d" % (
                    what, i), left[0][4])
            raise Undecided("%ss of dimension %d" % (what, i))


def same(a, b):
    return a.shape == b.shape and all(
        T.equal(P(x), P(y)) for x, y in zip(a, b))


def layout(c, name, n, shape, transpose):
    Y = sy("y", (3, n))
    args = [cp(Y)] if "trajectory" in name else [cp(Y), sy("s", (3, n), "+")]
    ip, f, axes = run(c, name, args, dict(subplot_shape=shape,
                                          transpose=transpose))
    h, w = shape
    c.require(len(axes) == n, "%d axes" % len(axes))
    for i, ax in enumerate(axes):
        row, col = (i % h, i // h) if transpose else (i // w, i % w)
        c.require(ax.d["key"] == (h, w, 1 + row * w + col), "dimension %d is "
                  "shown in subplot %s of %d x %d" % (i, ax.d["key"][2], h,
                                                      w))
        es = f.of(ax, "plot")
        c.require(es, "nothing is drawn in subplot %d" % i)
        curve(c, ip, es[0], None, 3, Y.a[:, i], "curve of dimension %d" % i)
        x = f.of(ax, "set_xlabel")
        c.require(bool(x) == (row == h - 1), "label of the horizontal axis "
                  "of dimension %d" % i)


def titles(c, k):
    Y = sy("y", (3, 3))
    names = ["A", "B", "C"][:k]
    for name, args in (("plot_trajectory_in_rows", [cp(Y)]),
                       ("plot_distribution_in_rows", [cp(Y), cp(Y)])):
        ip, f, axes = run(c, name, args, dict(axis_titles=list(names)))
        for i, ax in enumerate(axes):
            es = f.of(ax, "set_title")
            want = names[i] if i < k else "Dimension #%d" % i
            c.require(es and es[-1][2][:1] == [want], "title of subplot %d"
                      % i)


def factors(c, m=2):
    M, S = sy("m", (4, 2)), sy("s", (4, 2), "+")
    for fill in (True, False):
        fs = tuple(T.sym("f%d" % i, "+") for i in range(m))
        ip, f, axes = run(c, "plot_distribution_in_rows", [cp(M), cp(S)],
                          dict(std_factors=fs, fill_between=fill))
        for i, ax in enumerate(axes):
            bands(c, ip, f, ax, i, M, S, None, fill, fs, None)


def labels(c):
    M, S = sy("m", (4, 2)), sy("s", (4, 2), "+")
    ip, f, axes = run(c, "plot_trajectory_in_rows", [cp(M)],
                      dict(label="L"))
    for ax in axes:
        c.require([e[3].get("label") for e in f.of(ax, "plot")] == ["L"],
                  "the label is not passed on")
    for fill in (True, False):
        ip, f, axes = run(c, "plot_distribution_in_rows", [cp(M), cp(S)],
                          dict(label="L", fill_between=fill))
        for ax in axes:
            got = [e[3].get("label") for e in f.of(
                ax, "plot", "fill_between")]
            c.require(got.count("L") == 1 and all(
                x in ("L", None) for x in got),
                "labels in a subplot: %s" % got)


def arguments(c):
    for name in ("plot_trajectory_in_rows", "plot_distribution_in_rows"):
        M, S, t = sy("m", (4, 2)), sy("s", (4, 2), "+"), sy("t", 4)
        a = [cp(M)] + ([cp(S)] if "dist" in name else [])
        tt = cp(t)
        names = ["A"]
        ip, f, axes = run(c, name, a, dict(t=tt, axis_titles=names))
        c.same(a[0], M, "trajectory after the call")
        c.same(tt, t, "times after the call")
        if len(a) > 1:
            c.same(a[1], S, "standard deviations after the call")
        c.require(names == ["A"], "titles after the call: %s" % names)
