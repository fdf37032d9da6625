"""Values of terms at sample points.

Used for one purpose only: before a difference between two normal forms is
reported, the two *terms* are evaluated at sample points.  If they agree at
all of them the normaliser was merely too weak to see that they are the same
function, and the obligation is not reported as violated.
"""
import hashlib
import math
import random

from .terms import Poly


class Undefined(Exception):
    pass


def _h(*parts):
    d = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(d[:7], "big") / float(1 << 56)


def _round(x):
    return "%.7e" % x


class Valuation:
    """An assignment of numbers to the input symbols."""

    def __init__(self, seed, overrides=None, wide=False):
        self.seed = seed
        self.wide = wide
        self.cache = {}
        self.uq = {}
        self.overrides = overrides or {}
        self.mat = {}

    def sym(self, a):
        if a.name in self.overrides:
            return self.overrides[a.name]
        u = _h(self.seed, a.name)
        s = 1.0
        if self.wide == "narrow":
            # all elements of an array together
            if _h(self.seed, "narrow", a.name.split("[")[0]) < 0.5:
                s = 0.003
        elif self.wide and _h(self.seed, "wide", a.name) < 0.5:
            s = 8.0
        if a.sign is not None:
            return s * (0.3 + 1.1 * u)
        return s * (u - 0.5) * 3.0

    def poly(self, p):
        v = 0.0
        for m, c in p.t.items():
            x = float(c)
            for a, e in m:
                b = self.atom(a)
                if e == 1:
                    x *= b
                    continue
                try:
                    if e.denominator == 1:
                        x *= b ** int(e)
                    else:
                        if b < 0:
                            if b > -1e-9:
                                b = 0.0
                            else:
                                raise Undefined("root of negative")
                        x *= b ** float(e)
                except ZeroDivisionError:
                    raise Undefined("division by zero")
                except OverflowError:
                    raise Undefined("overflow")
            v += x
        if math.isnan(v) or math.isinf(v):
            raise Undefined("nan")
        return v

    def args(self, args):
        out = []
        for x in args:
            if isinstance(x, Poly):
                out.append(self.poly(x))
            elif isinstance(x, tuple):
                out.append(self.args(x))
            else:
                out.append(x)
        return tuple(out)

    def atom(self, a):
        v = self.cache.get(a)
        if v is None:
            v = self._atom(a)
            self.cache[a] = v
        return v

    def _atom(self, a):
        k = a.kind
        if k == "sym":
            return self.sym(a)
        if k == "const":
            if a.name == "pi":
                return math.pi
            if a.name == "eps":
                return 2.3e-16
            if a.name == "rat":
                return float(a.args[0])
            if a.name == "inf":
                return 1e300
            raise Undefined(a.name)
        if k == "uq":
            name, i = a.args
            if name not in self.uq:
                r = random.Random(_h(self.seed, "uq", name))
                q = [r.gauss(0, 1) for _ in range(4)]
                n = math.sqrt(sum(x * x for x in q))
                self.uq[name] = [x / n for x in q]
            return self.uq[name][i]
        if k == "opaque":
            raise Undefined("opaque")
        if k == "ind":
            if a.name == "sym":
                return 1.0 if _h(self.seed, "b", a.args) < 0.5 else 0.0
            p = self.poly(a.args[0])
            if a.name == "lt":
                return 1.0 if p < 0 else 0.0
            return 1.0 if abs(p) < 1e-12 else 0.0
        if k == "poly":
            return self.poly(a.args[0])
        if k == "qexp":
            v = self.args(a.args[0])
            t = math.sqrt(sum(x * x for x in v))
            i = a.args[1]
            if i == 0:
                return math.cos(t / 2)
            return math.sin(t / 2) / t * v[i - 1] if t > 1e-12 else 0.0
        if k == "qmat":
            return _quat_of(self.args(a.args[0]))[a.args[1]]
        if k == "qlog":
            q = self.args(a.args[0])
            if q[0] < 0:
                q = [-x for x in q]
            n = math.sqrt(q[1] ** 2 + q[2] ** 2 + q[3] ** 2)
            if n < 1e-12:
                return 0.0
            return 2 * math.atan2(n, q[0]) / n * q[1 + a.args[1]]
        args = None
        if k in ("exp", "log", "cos", "sin", "acos", "abs"):
            x = self.poly(a.args[0])
            try:
                if k == "exp":
                    return math.exp(x)
                if k == "log":
                    return math.log(x)
                if k == "cos":
                    return math.cos(x)
                if k == "sin":
                    return math.sin(x)
                if k == "acos":
                    return math.acos(x)
                return abs(x)
            except (ValueError, OverflowError):
                raise Undefined(k)
        if k == "fn":
            n = a.name
            args = self.args(a.args)
            try:
                if n == "min":
                    return min(args)
                if n == "mod":
                    return args[0] % args[1]
                if n == "floor":
                    return math.floor(args[0])
                if n == "ceil":
                    return math.ceil(args[0])
                if n == "trunc":
                    return float(int(args[0]))
                if n == "atan2":
                    return math.atan2(args[0], args[1])
                if n == "asin":
                    return math.asin(args[0])
                if n == "atan":
                    return math.atan(args[0])
                if n == "tan":
                    return math.tan(args[0])
                if n == "fmod":
                    return math.fmod(args[0], args[1])
                if n == "round":
                    return float(round(args[0]))
                if n == "tanh":
                    return math.tanh(args[0])
                if n == "pow":
                    return args[0] ** float(args[1])
                if n in ("inv", "pinv", "det", "cholesky"):
                    return self.matrix(n, args)
            except (ValueError, ZeroDivisionError, OverflowError):
                raise Undefined(n)
            return 2.0 * _h(self.seed, n, _flat(args)) - 1.0 \
                if a.sign is None else 0.2 + _h(self.seed, n, _flat(args))
        args = self.args(a.args)
        return 2.0 * _h(self.seed, k, a.name, _flat(args)) - 1.0

    def matrix(self, n, args):
        import numpy as np
        key = (n, args[0], args[1])
        r = self.mat.get(key)
        if r is None:
            m = np.array(args[0], dtype=float).reshape(args[1])
            try:
                r = {"inv": np.linalg.inv, "pinv": np.linalg.pinv,
                     "det": np.linalg.det,
                     "cholesky": np.linalg.cholesky}[n](m)
            except np.linalg.LinAlgError:
                raise Undefined(n)
            self.mat[key] = r
        if n == "det":
            return float(r)
        return float(r[args[2], args[3]])


def _quat_of(m):
    """Unit quaternion with non-negative real part of a rotation matrix."""
    t = m[0] + m[4] + m[8]
    c = [(t, 0), (m[0], 1), (m[4], 2), (m[8], 3)]
    k = max(c)[1]
    if k == 0:
        q = [1 + t, m[7] - m[5], m[2] - m[6], m[3] - m[1]]
    elif k == 1:
        q = [m[7] - m[5], 1 + 2 * m[0] - t, m[1] + m[3], m[2] + m[6]]
    elif k == 2:
        q = [m[2] - m[6], m[1] + m[3], 1 + 2 * m[4] - t, m[5] + m[7]]
    else:
        q = [m[3] - m[1], m[2] + m[6], m[5] + m[7], 1 + 2 * m[8] - t]
    n = math.sqrt(sum(x * x for x in q))
    if q[0] < 0:
        n = -n
    return [x / n for x in q]


def _flat(args):
    return tuple(_flat(x) if isinstance(x, tuple)
                 else _round(x) if isinstance(x, float) else x for x in args)


def _deep_atoms(p):
    return p.atoms(True)


def _targets(p, q):
    """Terms whose sign the difference depends on, with their symbols."""
    out = []
    for a in sorted(p.atoms(True) | q.atoms(True), key=lambda a: a.id):
        if a.kind == "ind" and a.name in ("lt", "eq"):
            args = [a.args[0]]
        elif a.kind == "fn" and a.name == "min":
            args = [x - a.args[0] for x in a.args[1:3]]
        else:
            continue
        for arg in args:
            syms = sorted({b.name for b in arg.atoms(True)
                           if b.kind == "sym"})
            out.append((arg, syms))
    return out


def _signs(p, q):
    return {a.name: a.sign for a in p.atoms(True) | q.atoms(True)
            if a.kind == "sym"}


def _steer(arg, syms, signs, seed, overrides):
    """Overrides that bring a term to both signs."""
    for s in syms[:8]:
        if s in overrides:
            continue
        pos = signs.get(s) is not None

        def f(x):
            o = dict(overrides)
            o[s] = x
            try:
                return Valuation(seed, o).poly(arg)
            except (Undefined, RecursionError, OverflowError):
                return None
        grid = [1e-9, 1e-6, 1e-4, 1e-2, 0.1, 0.5, 1.0, 2.0, 5.0, 10.0, 100.0,
                1e3, 1e4, 1e6, 1e9]
        if not pos:
            grid = [-x for x in reversed(grid)] + [0.0] + grid
        vals = [(x, f(x)) for x in grid]
        for x, v in vals:
            if v is not None and v < 0:
                yield {s: x}
                break
        for x, v in vals:
            if v is not None and v > 0:
                yield {s: x}
                break
        for (x0, v0), (x1, v1) in zip(vals, vals[1:]):
            if v0 is None or v1 is None or (v0 < 0) == (v1 < 0):
                continue
            lo, hi, vlo = x0, x1, v0
            for _ in range(80):
                mid = (lo + hi) / 2
                vm = f(mid)
                if vm is None:
                    break
                if (vm < 0) == (vlo < 0):
                    lo = mid
                else:
                    hi = mid
            yield {s: lo}
            yield {s: hi}
            yield {s: lo * (1 + 1e-5) - 1e-7}
            yield {s: lo * (1 - 1e-5) + 1e-7}
            break


def _admissible(val, domain):
    for c in domain or ():
        if c is True:
            continue
        if c is False:
            return False
        if val.poly(c.p) < 0.5:
            return False
    return True


def separates(p, q, points=6, seed=1, tol=1e-6, overrides=None, domain=None):
    """A sample point at which p and q differ.

    Returns (True, description) if a point was found, (False, n) if p and q
    agree at n points at which both are defined.
    """
    agreed = 0
    overrides = dict(overrides or {})
    domain = [c for c in domain or () if c is not True]

    def differs(seed, over, tol=tol, wide=False):
        val = Valuation(seed, over, wide)
        try:
            if not _admissible(val, domain):
                return None
            a, b = val.poly(p), val.poly(q)
        except (Undefined, RecursionError, OverflowError):
            return None
        if abs(a - b) > tol * max(1.0, abs(a), abs(b)):
            return "%.6g vs %.6g" % (a, b)
        return False

    for k in range(points * 4):
        d = differs((seed, k), overrides)
        if d is None:
            continue
        if d:
            return True, d
        agreed += 1
        if agreed >= points:
            break
    # bring conditions the difference depends on to both of their values
    signs = _signs(p, q)
    n = 0
    targets = _targets(p, q)[:12]
    for k in range(8 * bool(targets)):
        for tol_, wide in ((1e-3, True), (1e-5, "narrow")):
            d = differs((seed, "wide", k), overrides, tol_, wide)
            if d:
                return True, d
            agreed += d is not None
    for arg, syms in targets:
        for k in range(3):
            for extra in _steer(arg, syms, signs, (seed, k), overrides):
                d = differs((seed, k), {**overrides, **extra})
                n += 1
                if d:
                    return True, d + " with " + ", ".join(
                        "%s=%.6g" % kv for kv in extra.items())
                if d is not None:
                    agreed += 1
        if n > 600:
            break
    return False, agreed
