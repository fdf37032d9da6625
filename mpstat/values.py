"""Abstract values other than numbers."""
import itertools
from fractions import Fraction

import numpy as np

from . import terms as T
from .terms import Poly, Cond, P


class Undecided(Exception):
    """The analysis met a construct it has no transfer function for."""


class InterpRaise(Exception):
    """An exception raised by the analysed program."""

    def __init__(self, exc, where=None):
        super().__init__(str(exc))
        self.exc = exc
        self.where = where


class NPoly(Poly):
    """A number of NumPy scalar type (as opposed to a Python float)."""
    __slots__ = ()

    def __hash__(self):
        return Poly.__hash__(self)


def npoly(p):
    p = P(p)
    if type(p) is NPoly:
        return p
    q = NPoly(p.t)
    q._h, q._op = p._h, p._op
    return q


def plain(p):
    if type(p) is NPoly:
        q = Poly(p.t)
        q._h, q._op = p._h, p._op
        return q
    return p


_uninit = itertools.count()


class Arr:
    """An array: NumPy object array of abstract numbers + dtype kind."""
    __slots__ = ("a", "dt")

    def __init__(self, a, dt="f"):
        self.a = a
        self.dt = dt
        if CURRENT is not None:
            CURRENT.born_array(self)

    @property
    def shape(self):
        return self.a.shape

    def __repr__(self):
        return "Arr%s%s" % (self.a.shape, self.a.tolist())


CURRENT = None


def set_current(ip):
    global CURRENT
    CURRENT = ip


def root(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def same_memory(x, y):
    """May the two arrays share elements?"""
    return np.shares_memory(x.a, y.a) if x.a.size and y.a.size else False


def full(shape, value, dt="f"):
    a = np.empty(shape, dtype=object)
    a[...] = value if isinstance(value, (int, Poly)) else value
    return Arr(a, dt)


def zeros(shape):
    return full(shape, T.ZERO)


def uninit(shape):
    a = np.empty(shape, dtype=object)
    f = a.reshape(-1)
    for i in range(f.size):
        f[i] = T.sym("uninit#%d" % next(_uninit))
    return Arr(a, "f")


def symarr(name, shape, sign=None):
    a = np.empty(shape, dtype=object)
    for idx in np.ndindex(*a.shape):
        a[idx] = T.sym("%s[%s]" % (name, ",".join(map(str, idx))), sign)
    return Arr(a, "f")


def fromlist(polys):
    a = np.empty(len(polys), dtype=object)
    for i, p in enumerate(polys):
        a[i] = P(p)
    return Arr(a, "f")


class Obj:
    """Instance of an analysed class."""
    __slots__ = ("cls", "d", "serial")
    _n = itertools.count()

    def __init__(self, cls):
        self.cls = cls
        self.d = {}
        self.serial = next(Obj._n)
        if CURRENT is not None:
            CURRENT.born(self.d)

    def __repr__(self):
        return "<%s object>" % self.cls.name


class Cls:
    def __init__(self, name, bases, ns, module, node=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.mro = self._mro()

    def _mro(self):
        seqs = [b.mro[:] if isinstance(b, Cls) else [b] for b in self.bases]
        seqs.append(list(self.bases))
        res = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in o[1:] for o in seqs):
                    break
            else:
                raise Undecided("inconsistent class hierarchy")
            res.append(c)
            for s in seqs:
                if s[0] == c:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


class Func:
    def __init__(self, node, name, module, env, defaults, kwdefaults,
                 params=None):
        self.node = node
        self.name = name
        self.module = module
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.params = params
        self.owner = None
        self.cython = getattr(node, "cy_kind", None)
        self.generator = None
        self.d = {}

    def __repr__(self):
        return "<function %s>" % self.name


class Bound:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func \
            and o.self is self.self

    def __hash__(self):
        return hash((id(self.func), id(self.self)))


class Prop:
    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Ext:
    """A name defined outside the analysed program."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return "<ext %s>" % self.path


class Native:
    """A function implemented by the analysis (models, observers)."""
    __slots__ = ("f", "name")

    def __init__(self, f, name="native"):
        self.f = f
        self.name = name


class Unk:
    """An object the analysis knows nothing about."""
    __slots__ = ("note", "d")

    def __init__(self, note):
        self.note = note
        self.d = {}

    def __repr__(self):
        return "<unknown %s>" % self.note


class Exc:
    """An exception instance."""
    def __init__(self, name, args=(), cls=None):
        self.name = name
        self.args = args
        self.cls = cls
        self.d = {}

    def __str__(self):
        return "%s(%s)" % (self.name, ", ".join(map(str, self.args)))


class Phi:
    """One of two values, depending on a condition."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Phi(%r, %r)" % (self.a, self.b)


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


MISSING = type("Missing", (), {"__repr__": lambda s: "<missing>"})()

EXC_BASES = {
    "BaseException": None, "Exception": "BaseException",
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "LookupError": "Exception", "IndexError": "LookupError",
    "KeyError": "LookupError", "NameError": "Exception",
    "UnboundLocalError": "NameError", "OSError": "Exception",
    "FileNotFoundError": "OSError", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "StopIteration": "Exception",
    "TypeError": "Exception", "ValueError": "Exception",
    "UserWarning": "Warning", "Warning": "Exception",
    "DeprecationWarning": "Warning", "RuntimeWarning": "Warning",
    "KeyboardInterrupt": "BaseException", "OverflowError": "ArithmeticError",
    "MemoryError": "Exception", "RecursionError": "RuntimeError",
    "SystemExit": "BaseException", "UnicodeDecodeError": "ValueError",
    "IOError": "OSError", "LinAlgError": "ValueError",
}


def exc_isa(name, base):
    while name is not None:
        if name == base:
            return True
        name = EXC_BASES.get(name, "Exception" if name not in EXC_BASES
                             else None)
    return False


def is_num(v):
    return isinstance(v, (int, Poly, Cond)) and not isinstance(v, str)


def frac_const(v):
    """Exact value of a constant number, else None."""
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Poly) and v.is_const():
        return v.const_value()
    return None
