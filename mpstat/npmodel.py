"""Transfer functions of the operations defined outside the repository:
Python builtins, NumPy, math, pytransform3d, scipy and the file formats.
"""
import inspect
import itertools
import math
import re
from fractions import Fraction

import numpy as np

from . import terms as T
from .terms import Poly, Cond, P, TooLarge
from .values import (
    Undecided, InterpRaise, NPoly, npoly, plain, Arr, Obj, Cls, Func, Bound,
    Ext, Native, Unk, Exc, Phi, MISSING, Prop, StaticM, ClassM, EXC_BASES, root, is_num, frac_const,
    full, uninit)

BUILTINS = {
    "abs", "all", "any", "bool", "dict", "enumerate", "float", "getattr",
    "hasattr", "int", "isinstance", "issubclass", "iter", "len", "list",
    "map", "max", "min", "next", "object", "open", "pow", "print", "range",
    "repr", "reversed", "round", "set", "setattr", "sorted", "str", "sum",
    "super", "tuple", "type", "zip", "property", "staticmethod",
    "classmethod", "callable", "id", "slice", "vars", "locals", "globals",
    "filter", "frozenset", "bytes", "divmod", "__import__", "NotImplemented",
    "hash", "delattr", "complex", "Ellipsis", "format", "dir", "input"}

MODELS = {}
CONSTS = {
    "numpy.pi": T.PI, "math.pi": T.PI, "libc.math.pi": T.PI,
    "libc.math.M_PI": T.PI,
    "numpy.newaxis": None, "numpy.inf": T.float_const(math.inf),
    "math.inf": T.float_const(math.inf),
    "numpy.nan": T.float_const(math.nan), "math.nan": T.float_const(math.nan),
    "numpy.e": T.exp_(T.ONE), "math.e": T.exp_(T.ONE), "os.sep": "/",
    "os.path.sep": "/", "math.tau": T.PI * 2,
    "builtins.Ellipsis": Ellipsis, "os.environ": {},
}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


# ---------------------------------------------------------------- conversions
RANK = {"b": 0, "i": 1, "f": 2, "O": 3}


def kind_of(v):
    if isinstance(v, (bool, Cond)):
        return "b"
    if isinstance(v, (int, np.integer)):
        return "i"
    if isinstance(v, Poly):
        return "f"
    return "O"


def promote(*dts):
    return max(dts, key=RANK.get)


def cast(v, dt):
    if isinstance(dt, Short) and is_num(v):
        return short(dt, v)
    if dt == "f":
        if isinstance(v, Poly):
            return plain(v)
        if isinstance(v, (int, Cond)):
            return P(v)
        if v is None:
            return T.float_const(math.nan)
        if isinstance(v, Phi):
            return T.opaque("joined value in an array")
        if isinstance(v, Unk):
            return T.opaque(v.note)
        return v
    if dt == "i":
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Cond):
            return v.p
        if isinstance(v, Poly):
            return to_int(v)
    if dt == "b":
        if isinstance(v, (bool, Cond)):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Poly):
            return T.not_(T.eq(v, T.ZERO))
    return v


def to_int(p):
    k = frac_const(p)
    if k is not None:
        return int(k)
    return T.fn("trunc", plain(p))


class Short(str):
    """Element type of floating point numbers with fewer digits."""
    def __new__(cls, name):
        r = str.__new__(cls, "f")
        r.short = name
        return r


def short(dt, x):
    k = frac_const(x)
    if k is not None:
        return Poly.const(Fraction(float(getattr(np, dt.short)(float(k)))))
    return T.fn(dt.short, plain(P(x)))


def shorten(dt, a):
    return Arr(emap(lambda x: short(dt, x), a.a), "f")


def as_arr(ip, v, dt=None):
    """View of a value as an array (no copy for arrays)."""
    if isinstance(dt, Short):
        return shorten(dt, as_arr(ip, v, "f"))
    if isinstance(v, Arr):
        if dt is None or v.dt == dt:
            return v
        return astype(v, dt)
    if isinstance(v, Phi):
        x, y = as_arr(ip, v.a, dt), as_arr(ip, v.b, dt)
        r = ip.join(v.c, x, y)
        if isinstance(r, Arr):
            return r
        raise Undecided("joined arrays of different shape (%s)" % ip.where())
    a, k = nested(ip, v)
    r = Arr(a, k)
    if dt is not None and dt != k:
        r = astype(r, dt)
    return r


def nested(ip, v):
    if isinstance(v, Arr):
        return v.a, v.dt
    if isinstance(v, (list, tuple, range)):
        parts = [nested(ip, x) for x in v]
        if not parts:
            return np.empty((0,), dtype=object), "f"
        shapes = {p[0].shape for p in parts}
        if len(shapes) > 1:
            if any(p[1] == "O" for p in parts):
                raise Undecided("ragged array (%s)" % ip.where())
            ip.throw("ValueError", "setting an array element with a sequence")
        shape = shapes.pop()
        out = np.empty((len(parts),) + shape, dtype=object)
        dt = promote(*[p[1] for p in parts])
        for i, (x, _) in enumerate(parts):
            if shape == ():
                out[i] = cast(x[()], dt) if dt != "O" else x[()]
            else:
                for idx in np.ndindex(*shape):
                    out[(i,) + idx] = cast(x[idx], dt) if dt != "O" \
                        else x[idx]
        return out, dt
    if isinstance(v, (type({}.keys()), type({}.values()))):
        return nested(ip, list(v))
    if isinstance(v, Phi):
        r = as_arr(ip, v)
        return r.a, r.dt
    a = np.empty((), dtype=object)
    if isinstance(v, Unk):
        raise Undecided("array of %s (%s)" % (v, ip.where()))
    a[()] = plain(v) if isinstance(v, Poly) else v
    return a, kind_of(v)


def astype(arr, dt):
    return Arr(emap(lambda x: cast(x, dt), arr.a), dt)


def emap(f, *arrs):
    if len(arrs) == 1:
        a = arrs[0]
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = f(a[i])
        return out
    arrs = np.broadcast_arrays(*arrs)
    out = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[a[i] for a in arrs])
    return out


def safe(f, note="value outgrew the analysis budget"):
    def g(*a):
        try:
            return f(*a)
        except TooLarge:
            return T.opaque(note)
    return g


def out(r, dt):
    """Result of an array operation: scalars leave the array world."""
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return scalar(r[()], dt)
        return Arr(r, dt)
    return scalar(r, dt)


def scalar(v, dt):
    if dt == "f" and isinstance(v, (int, Poly, Cond)):
        return npoly(P(v))
    return v


def add(a, b):
    try:
        return P(a) + P(b)
    except TooLarge:
        return T.opaque("sum")


def mul(a, b):
    try:
        return P(a) * P(b)
    except TooLarge:
        return T.opaque("product")


def total(xs):
    """Sum of many terms in one pass."""
    acc = {}
    for x in xs:
        for m, c in P(x).t.items():
            v = acc.get(m)
            acc[m] = c if v is None else v + c
    acc = {m: c for m, c in acc.items() if c}
    if len(acc) > T.MAX_TERMS:
        return T.opaque("sum")
    return Poly(acc)


def dtype_of(ip, d):
    if d is None:
        return None
    if isinstance(d, Ext):
        n = d.path.rpartition(".")[2]
    elif isinstance(d, str):
        n = d
    elif isinstance(d, Unk) and d.note.startswith("dtype:"):
        return d.note[6:]
    else:
        raise Undecided("dtype %s (%s)" % (d, ip.where()))
    short = {"float32": "float32", "single": "float32", "f4": "float32",
             "<f4": "float32", "f": "float32", "float16": "float16",
             "half": "float16", "f2": "float16", "e": "float16"}.get(n)
    if short and not (isinstance(d, Unk)):
        return Short(short)
    if n.startswith(("float", "double", "f")) or n in ("d", "<f8"):
        return "f"
    if n.startswith(("int", "uint", "i", "u", "long")):
        return "i"
    if n.startswith("bool"):
        return "b"
    return "O"


# ------------------------------------------------------------------ operators
def scalar_op(ip, op, a, b):
    np_ = isinstance(a, NPoly) or isinstance(b, NPoly)
    if isinstance(a, Cond):
        if op in ("BitAnd", "BitOr", "BitXor") and isinstance(
                b, (bool, Cond)):
            return bit(op, a, b)
        a = a.p
    if isinstance(b, Cond):
        if op in ("BitAnd", "BitOr", "BitXor") and isinstance(a, bool):
            return bit(op, a, b)
        b = b.p
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        try:
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mult":
                return a * b
            if op == "Div":
                if b == 0:
                    raise ZeroDivisionError
                return Poly.const(Fraction(int(a), int(b)))
            if op == "FloorDiv":
                return a // b
            if op == "Mod":
                return a % b
            if op == "Pow":
                if b < 0:
                    return Poly.const(Fraction(int(a)) ** int(b))
                return a ** b
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "BitXor":
                return a ^ b
            if op == "LShift":
                return a << b
            if op == "RShift":
                return a >> b
        except ZeroDivisionError:
            ip.throw("ZeroDivisionError", "division by zero")
    a, b = P(a), P(b)
    if op == "Add":
        r = add(a, b)
    elif op == "Sub":
        r = add(a, -b)
    elif op == "Mult":
        r = mul(a, b)
    elif op == "Div":
        if not b.t and not np_:
            ip.throw("ZeroDivisionError", "division by zero")
        r = safe(lambda x, y: x / y)(a, b)
    elif op == "Pow":
        r = safe(lambda x, y: x ** y)(a, b)
    elif op == "Mod":
        if ip.fstack and getattr(ip.fstack[-1].node, "cy_cdivision", False):
            r = fmod(a, b)
        else:
            r = T.mod_(a, b)
    elif op == "FloorDiv":
        k = safe(lambda x, y: x / y)(a, b)
        r = rounding("floor", k)
    else:
        raise Undecided("operator %s (%s)" % (op, ip.where()))
    return npoly(r) if np_ else r


def fmod(a, b):
    if a.is_const() and b.is_const() and b.const_value():
        x, y = a.const_value(), b.const_value()
        q = x / y
        return Poly.const(x - y * int(q))
    if T.sign_of(a) in ("0+", "+") and T.sign_of(b) == "+":
        return T.mod_(a, b)
    return T.fn("fmod", a, b)


def rounding(name, p):
    p = P(p)
    if p.is_const():
        k = p.const_value()
        v = {"floor": math.floor, "ceil": math.ceil,
             "round": round, "trunc": int}[name](k)
        return Poly.const(v)
    return T.fn(name, plain(p))


def bit(op, a, b):
    if op == "BitAnd":
        return T.and_(a, b)
    if op == "BitOr":
        return T.or_(a, b)
    return T.or_(T.and_(a, T.not_(b)), T.and_(T.not_(a), b))


def binop(ip, op, a, b):
    if isinstance(a, Phi):
        return ip.lift(lambda x: binop(ip, op, x, b), a)
    if isinstance(b, Phi):
        return ip.lift(lambda x: binop(ip, op, a, x), b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if op == "MatMult":
            return matmul(ip, a, b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return unk_op(ip, a, b)
        if a is None or b is None:
            ip.throw("TypeError", "unsupported operand type(s): None")
        if isinstance(a, (str, Obj, dict)) or isinstance(b, (str, Obj, dict)):
            if isinstance(b, Obj):
                return dunder(ip, op, a, b)
            ip.throw("TypeError", "unsupported operand types")
        return arr_op(ip, op, a, b)
    if is_num(a) and is_num(b):
        return scalar_op(ip, op, a, b)
    if isinstance(a, Unk) or isinstance(b, Unk):
        if isinstance(a, str) and op == "Mod":
            return a
        return unk_op(ip, a, b)
    if isinstance(a, str):
        if op == "Add" and isinstance(b, str):
            return a + b
        if op == "Mod":
            return fmt_percent(ip, a, b)
        if op == "Mult" and isinstance(b, int):
            return a * b
    if isinstance(a, NPoly) and isinstance(b, (list, tuple)) or isinstance(
            b, NPoly) and isinstance(a, (list, tuple)):
        return arr_op(ip, op, as_arr(ip, a), as_arr(ip, b))
    if op == "Add" and isinstance(a, (list, tuple)) and type(a) is type(b):
        r = a + b
        if isinstance(r, list):
            ip.born(r)
        return r
    if op == "Mult":
        if isinstance(a, (list, tuple)) and isinstance(b, int):
            r = a * b
            if isinstance(r, list):
                ip.born(r)
            return r
        if isinstance(b, (list, tuple, str)) and isinstance(a, int):
            return b * a
    if isinstance(a, set) and isinstance(b, set):
        return {"BitOr": a | b, "BitAnd": a & b, "Sub": a - b,
                "BitXor": a ^ b}[op]
    if isinstance(a, dict) and isinstance(b, dict) and op == "BitOr":
        r = dict(a)
        r.update(b)
        return r
    if isinstance(a, Obj) or isinstance(b, Obj):
        return dunder(ip, op, a, b)
    ip.throw("TypeError", "unsupported operand types for %s: %s, %s" % (
        op, type(a).__name__, type(b).__name__))


DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv",
          "Pow": "pow", "Mod": "mod", "MatMult": "matmul",
          "FloorDiv": "floordiv"}


def dunder(ip, op, a, b):
    n = DUNDER.get(op)
    if n and isinstance(a, Obj):
        m, _ = a.cls.lookup("__%s__" % n)
        if m is not None:
            return ip.call(Bound(m, a), [b], {})
    if n and isinstance(b, Obj):
        m, _ = b.cls.lookup("__r%s__" % n)
        if m is not None:
            return ip.call(Bound(m, b), [a], {})
    ip.throw("TypeError", "unsupported operand types")


def unk_op(ip, a, b):
    return Unk("expression over (%s, %s)" % (
        a.note if isinstance(a, Unk) else "value",
        b.note if isinstance(b, Unk) else "value"))


def arr_op(ip, op, a, b):
    x, y = as_arr(ip, a), as_arr(ip, b)
    try:
        np.broadcast_shapes(x.shape, y.shape)
    except ValueError:
        ip.throw("ValueError", "operands could not be broadcast together "
                 "with shapes %s %s" % (x.shape, y.shape))
    dt = promote(x.dt, y.dt)
    if op in ("Div", "Pow") and dt in ("i", "b"):
        dt = "f" if op == "Div" else dt
    if op == "Div" and dt != "O":
        x = Arr(emap(P, x.a), "f") if x.dt != "f" else x
        y = Arr(emap(P, y.a), "f") if y.dt != "f" else y
        f = safe(lambda p, q: p / q)
    elif op == "Add" and dt == "f":
        f = add
    elif op == "Mult" and dt == "f":
        f = mul
    else:
        def f(p, q):
            if dt == "f":
                p, q = npoly(P(p)), npoly(P(q))
            r = scalar_op(ip, op, p, q)
            return plain(r) if isinstance(r, NPoly) else r
    return out(emap(f, x.a, y.a), dt)


def unary(ip, op, v):
    if op == "USub":
        return out(emap(lambda x: -x if not isinstance(x, Cond) else -x.p,
                        v.a), v.dt)
    if op == "Invert":
        return out(emap(lambda x: T.not_(x), v.a), "b")
    return v


def compare(ip, op, a, b):
    x, y = as_arr(ip, a), as_arr(ip, b)
    try:
        np.broadcast_shapes(x.shape, y.shape)
    except ValueError:
        ip.throw("ValueError", "operands could not be broadcast")
    return out(emap(lambda p, q: ip.compare_scalar(op, p, q), x.a, y.a), "b")


# ------------------------------------------------------------------- indexing
def norm_index(ip, i, shape=None):
    if isinstance(i, tuple):
        return tuple(norm_index(ip, k) for k in i)
    if i is None or i is Ellipsis or isinstance(i, (bool, int)):
        return i
    if isinstance(i, slice):
        return slice(ip.as_index(i.start), ip.as_index(i.stop),
                     ip.as_index(i.step))
    if isinstance(i, (Poly,)):
        k = frac_const(i)
        if k is not None and k.denominator == 1 and isinstance(i, NPoly):
            return int(k)
        if k is not None:
            ip.throw("IndexError", "only integers are valid indices")
        raise Undecided("data-dependent index (%s)" % ip.where())
    if isinstance(i, (list, range)):
        i = as_arr(ip, i)
        if i.a.size == 0:
            return np.empty(0, dtype=int)
    if isinstance(i, Arr):
        if i.dt == "i":
            if not all(isinstance(x, (int, np.integer)) for x in i.a.flat):
                raise Undecided("data-dependent index (%s)" % ip.where())
            return i.a.astype(int)
        if i.dt == "b":
            if any(isinstance(x, Cond) for x in i.a.flat):
                return i
            return i.a.astype(bool)
        ip.throw("IndexError", "arrays used as indices must be of integer "
                 "(or boolean) type")
    if isinstance(i, Ext) and i.path == "numpy.newaxis":
        return None
    if isinstance(i, Cond):
        raise Undecided("data-dependent index (%s)" % ip.where())
    raise Undecided("index %r (%s)" % (i, ip.where()))


def load_item(ip, arr, i):
    if isinstance(i, Phi):
        return ip.lift(lambda x: load_item(ip, arr, x), i)
    idx = norm_index(ip, i)
    if isinstance(idx, Arr) or isinstance(idx, tuple) and any(
            isinstance(k, Arr) for k in idx):
        raise Undecided("selection with a data-dependent mask (%s)"
                        % ip.where())
    try:
        r = arr.a[idx]
    except IndexError as e:
        ip.throw("IndexError", str(e))
    if isinstance(r, np.ndarray):
        return Arr(r, arr.dt)
    return scalar(r, arr.dt)


def store(ip, arr, i, v):
    if isinstance(i, Phi):
        raise Undecided("store at a data-dependent index (%s)" % ip.where())
    idx = norm_index(ip, i)
    ip.touch(root(arr.a))
    if isinstance(v, Unk):
        v = T.opaque(v.note)
    if arr.dt == "O" and not isinstance(v, (Arr, list, tuple)):
        arr.a[idx] = v
        return
    val = as_arr(ip, v)
    if val.dt == "O" and arr.dt != "O" and any(
            isinstance(x, (str, Obj, dict)) for x in val.a.flat):
        ip.throw("TypeError", "cannot convert to a number")
    c = emap(lambda x: cast(x, arr.dt), val.a)
    if isinstance(idx, Arr):
        if idx.shape != arr.shape:
            raise Undecided("masked store (%s)" % ip.where())
        if c.ndim and c.size != 1:
            raise Undecided("masked store of an array (%s)" % ip.where())
        x = c.reshape(-1)[0]
        for k in np.ndindex(*arr.shape):
            arr.a[k] = ip.join(idx.a[k], x, arr.a[k])
        return
    try:
        if c.ndim == 0:
            c0 = c[()]
            target = arr.a[idx]
            if isinstance(target, np.ndarray):
                arr.a[idx] = c0
            else:
                arr.a[idx] = c0
        else:
            target = arr.a[idx]
            if not isinstance(target, np.ndarray):
                if c.size == 1:
                    arr.a[idx] = c.reshape(-1)[0]
                else:
                    ip.throw("ValueError",
                             "setting an array element with a sequence")
            else:
                arr.a[idx] = c
    except IndexError as e:
        ip.throw("IndexError", str(e))
    except ValueError as e:
        ip.throw("ValueError", str(e))


def symbolic_index(ip, o, i):
    raise Undecided("data-dependent index (%s)" % ip.where())


def unk_item(ip, o, i):
    try:
        k = ("item", ip.key(i) if not isinstance(i, (list, Arr)) else str(i))
        if k in o.d:
            return o.d[k]
        r = Unk("%s[%s]" % (o.note, i))
        o.d[k] = r
        return r
    except TypeError:
        return Unk("%s[...]" % o.note)


def index_helper(ip, path, i):
    if path == "numpy.s_":
        return i
    parts = i if isinstance(i, tuple) else (i,)
    res = []
    for p in parts:
        if isinstance(p, slice):
            res.append(Arr(np.array(range(p.start or 0, p.stop, p.step or 1),
                                    dtype=object), "i"))
        else:
            res.append(as_arr(ip, p))
    if path == "numpy.r_":
        res = [Arr(r.a.reshape(-1), r.dt) if r.a.ndim == 0 else r
               for r in res]
        return concatenate(ip, res)
    return MODELS["numpy.column_stack"](ip, res)


# ----------------------------------------------------------------- attributes
def attr(ip, o, name):
    if isinstance(o, Arr):
        if name == "shape":
            return tuple(int(k) for k in o.shape)
        if name == "ndim":
            return o.a.ndim
        if name == "size":
            return int(o.a.size)
        if name == "T":
            return Arr(o.a.T, o.dt)
        if name == "dtype":
            return Unk("dtype:" + o.dt)
        if name == "flat":
            return Arr(o.a.reshape(-1), o.dt)
        if name == "flags":
            return Unk("flags")
        if name == "real":
            return o
        if name == "__class__":
            return Ext("numpy.ndarray")
        m = ARRAY_METHODS.get(name)
        if m is None:
            ip.throw("AttributeError", "ndarray has no attribute " + name) \
                if not hasattr(np.ndarray, name) else ip.fail(
                    "array method " + name)
        return Native(lambda ip_, a, k: m(ip_, o, *a, **k), name)
    if isinstance(o, (Poly, int, Cond)) and not isinstance(o, bool):
        if name == "real":
            return o
        if isinstance(o, NPoly):
            if name == "shape":
                return ()
            if name == "ndim":
                return 0
            if name == "size":
                return 1
            if name == "T":
                return o
            if name == "dtype":
                return Unk("dtype:f")
            m = ARRAY_METHODS.get(name)
            if m is not None:
                return Native(lambda ip_, a, k: m(
                    ip_, as_arr(ip_, o), *a, **k), name)
        if name == "is_integer":
            return Native(lambda ip_, a, k: frac_const(o) is not None
                          and frac_const(o).denominator == 1)
        if name == "__class__":
            return Ext("builtins.float" if isinstance(o, Poly)
                       else "builtins.int")
        ip.throw("AttributeError", "number has no attribute " + name)
    if isinstance(o, list):
        return list_method(ip, o, name)
    if isinstance(o, dict):
        return dict_method(ip, o, name)
    if isinstance(o, set):
        return set_method(ip, o, name)
    if isinstance(o, tuple):
        if name == "index":
            return Native(lambda ip_, a, k: index_of(ip_, o, a[0]))
        if name == "count":
            return Native(lambda ip_, a, k: o.count(a[0]))
    if isinstance(o, str):
        return str_method(ip, o, name)
    if isinstance(o, bytes) and name == "decode":
        return Native(lambda ip_, a, k: o.decode())
    if isinstance(o, Ext):
        p = o.path + "." + name
        if p in CONSTS:
            return CONSTS[p]
        if p in getattr(ip, "ext_constants", ()):
            return ip.ext_constants[p]
        if name == "__name__":
            return o.path.rpartition(".")[2]
        if o.path in ("numpy.random",) and name not in (
                "RandomState", "default_rng", "Generator", "mtrand"):
            g = global_rng(ip)
            return attr(ip, g, name)
        if p in ("numpy.random.mtrand._rand", "numpy.random._rand"):
            return global_rng(ip)
        return Ext(p)
    if isinstance(o, Rng):
        return rng_method(ip, o, name)
    if isinstance(o, File):
        r = file_method(ip, o, name)
        if r is not MISSING:
            return r
    if isinstance(o, Unk):
        if name in o.d:
            return o.d[name]
        r = Unk("%s.%s" % (o.note, name))
        o.d[name] = r
        return r
    if isinstance(o, Exc):
        if name == "args":
            return o.args
        if name in o.d:
            return o.d[name]
        return Unk("exception." + name)
    if isinstance(o, slice):
        return getattr(o, name)
    if o is None:
        ip.throw("AttributeError", "'NoneType' object has no attribute "
                 + name)
    if isinstance(o, Native):
        return Unk("native." + name)
    ip.throw("AttributeError", "%s has no attribute %s" % (
        type(o).__name__, name))


def index_of(ip, seq, x):
    for i, y in enumerate(seq):
        if ip.truth(ip.equal_values(x, y)) is True:
            return i
    ip.throw("ValueError", "not in sequence")


def list_method(ip, o, name):
    def nat(f):
        return Native(lambda ip_, a, k: f(*a, **k), "list." + name)

    def mut(f):
        def g(*a, **k):
            ip.touch(o)
            return f(*a, **k)
        return nat(g)
    if name == "append":
        return mut(o.append)
    if name == "extend":
        return mut(lambda v: o.extend(ip.iterate(v)))
    if name == "insert":
        return mut(o.insert)
    if name == "pop":
        def pop(i=-1):
            if not o or not -len(o) <= i < len(o):
                ip.throw("IndexError", "pop from empty list")
            return o.pop(i)
        return mut(pop)
    if name == "clear":
        return mut(o.clear)
    if name == "reverse":
        return mut(o.reverse)
    if name == "index":
        return nat(lambda x: index_of(ip, o, x))
    if name == "remove":
        def remove(x):
            del o[index_of(ip, o, x)]
        return mut(remove)
    if name == "copy":
        return nat(lambda: list(o))
    if name == "count":
        return nat(o.count)
    if name == "sort":
        def sort(key=None, reverse=False):
            o[:] = sort_list(ip, o, key, reverse)
        return mut(sort)
    ip.throw("AttributeError", "list has no attribute " + name)


def dict_method(ip, o, name):
    def nat(f):
        return Native(lambda ip_, a, k: f(*a, **k), "dict." + name)

    def mut(f):
        def g(*a, **k):
            ip.touch(o)
            return f(*a, **k)
        return nat(g)
    if name in ("keys", "values", "items"):
        return nat(lambda: list(getattr(o, name)()))
    if name == "get":
        return nat(lambda k, d=None: o.get(ip.key(k), d))
    if name == "pop":
        def pop(k, *d):
            if k in o:
                return o.pop(k)
            if d:
                return d[0]
            ip.throw("KeyError", k)
        return mut(pop)
    if name == "update":
        def update(other=None, **k):
            if isinstance(other, dict):
                o.update(other)
            elif other is not None:
                o.update((ip.key(x), y) for x, y in
                         (ip.iterate(z) for z in ip.iterate(other)))
            o.update(k)
        return mut(update)
    if name == "setdefault":
        return mut(lambda k, d=None: o.setdefault(ip.key(k), d))
    if name == "copy":
        return nat(lambda: dict(o))
    if name == "clear":
        return mut(o.clear)
    if name == "popitem":
        return mut(o.popitem)
    ip.throw("AttributeError", "dict has no attribute " + name)


def set_method(ip, o, name):
    def nat(f):
        def g(ip_, a, k):
            ip.touch(o)
            return f(*a, **k)
        return Native(g, "set." + name)
    if hasattr(set, name):
        return nat(getattr(o, name))
    ip.throw("AttributeError", name)


def str_method(ip, o, name):
    if name == "format":
        return Native(lambda ip_, a, k: fmt_braces(ip_, o, a, k))
    if name == "join":
        return Native(lambda ip_, a, k: o.join(
            to_str(ip_, x) for x in ip_.iterate(a[0])))
    if hasattr(str, name):
        m = getattr(o, name)
        return Native(lambda ip_, a, k: m(*a, **k), "str." + name)
    ip.throw("AttributeError", name)


def fmt_braces(ip, s, a, k):
    m = re.fullmatch(r"\{0?(?::([^{}]*))?\}", s)
    if m and len(a) == 1 and isinstance(a[0], Poly) \
            and frac_const(a[0]) is None:
        return NumStr(a[0], m.group(1) or "")
    try:
        return s.format(*[to_str(ip, x) for x in a],
                        **{n: to_str(ip, x) for n, x in k.items()})
    except (ValueError, IndexError, KeyError):
        return s


class NumStr(str):
    """Text of a number that is not known."""
    def __new__(cls, p, fmt=""):
        r = str.__new__(cls, "<%s>" % p)
        r.p, r.fmt = p, fmt
        return r

    def number(self):
        if self.fmt in ("", "r", "s", "%r", "%s", ".17g", "%.17g"):
            return self.p
        return T.fn("text " + self.fmt.lstrip("%"), plain(self.p))


def fmt_percent(ip, s, b):
    vals = b if isinstance(b, tuple) else (b,)
    if not isinstance(b, dict):
        n = [m.group() for m in re.finditer(
            r"%(?:%|[-+ #0]*(?:\*|\d*)(?:\.\d*)?[a-zA-Z])", s)]
        if not any("*" in m for m in n) and "%(" not in s and len(
                [m for m in n if m != "%%"]) != len(vals):
            ip.throw("TypeError", "number of arguments of a format string")
    if len(vals) == 1 and isinstance(vals[0], Poly) and re.fullmatch(
            r"%[-+ 0-9.]*[a-zA-Z]", s):
        k = frac_const(vals[0])
        return NumStr(vals[0], s) if k is None else s % float(k)
    if all(isinstance(v, (int, str)) for v in vals):
        try:
            return s % (b if isinstance(b, (tuple, int, str)) else vals)
        except (TypeError, ValueError):
            ip.throw("TypeError", "string formatting")
    return s + " % <values>"


def to_str(ip, x):
    if isinstance(x, NumStr):
        return x
    if isinstance(x, (str, int, bool, type(None))):
        return str(x)
    if isinstance(x, Poly):
        k = frac_const(x)
        return str(float(k)) if k is not None else NumStr(x)
    if isinstance(x, Cls):
        return "<class '%s'>" % x.name
    if isinstance(x, Obj):
        m, _ = x.cls.lookup("__str__")
        if m is None:
            m, _ = x.cls.lookup("__repr__")
        if m is not None:
            return to_str(ip, ip.call(Bound(m, x), [], {}))
    return "<%s>" % type(x).__name__


# ---------------------------------------------------------------- calls
def call_ext(ip, path, args, kwargs):
    f = MODELS.get(path)
    if f is None and path.startswith(("libc.math.", "libcpp.math.")):
        f = MODELS.get("math." + path.rpartition(".")[2])
    if f is None:
        f = ip.program.models.get(path)
    if f is None:
        hook = getattr(ip, "ext_hook", None)
        if hook is not None:
            r = hook(ip, path, args, kwargs)
            if r is not MISSING:
                return r
        leaf = path.rpartition(".")[2]
        if path.startswith("builtins.") and leaf in EXC_BASES:
            return Exc(leaf, tuple(args))
        ip.unknown[path] = ip.unknown.get(path, 0) + 1
        r = Unk("%s#%d" % (path, next(ip.counter)))
        ip.event("call", path, args, kwargs, r)
        return r
    override = getattr(ip, "ext_override", {}).get(path)
    if override is not None:
        return override(ip, args, kwargs)
    if any(isinstance(a, Phi) for a in args):
        if not path.startswith("builtins."):
            for n, a in enumerate(args):
                if isinstance(a, Phi):
                    return ip.lift(lambda x: call_ext(
                        ip, path, args[:n] + [x] + args[n + 1:], kwargs), a)
    if any(isinstance(a, Unk) and not a.note.startswith("dtype:")
           for a in args) and path.startswith(
            ("numpy.", "math.", "pytransform3d.")):
        r = Unk("%s of unknown" % path)
        ip.event("call", path, args, kwargs, r)
        return r
    try:
        sig = SIGS.get(f)
        if sig is None:
            sig = SIGS[f] = inspect.signature(f)
        sig.bind(ip, *args, **kwargs)
    except TypeError as e:
        raise Undecided("call of %s: %s (%s)" % (path, e, ip.where()))
    try:
        return f(ip, *args, **kwargs)
    except TooLarge:
        raise Undecided("%s: value outgrew the analysis budget (%s)" % (
            path, ip.where()))


SIGS = {}


def call_unk(ip, fn, args, kwargs):
    r = Unk("%s()#%d" % (fn.note, next(ip.counter)))
    ip.event("call", fn.note, args, kwargs, r)
    return r


def ext_attr(ip, path, obj, name):
    hook = getattr(ip, "base_attr", None)
    if hook is not None:
        return hook(ip, path, obj, name)
    return MISSING


def ext_method(ip, path, obj, name):
    def f(ip_, a, k):
        ip_.event("super", "%s.%s" % (path, name), a, k)
        hook = getattr(ip_, "base_call", None)
        if hook is not None:
            return hook(ip_, path, obj, name, a, k)
        return None
    return Native(f, name)


# ---------------------------------------------------------------- builtins
@model("builtins.len")
def b_len(ip, v):
    if isinstance(v, (list, tuple, dict, set, str, range)):
        return len(v)
    if isinstance(v, Arr):
        if v.a.ndim == 0:
            ip.throw("TypeError", "len() of unsized object")
        return int(v.a.shape[0])
    if isinstance(v, Obj):
        return ip.call(ip.getattr(v, "__len__"), [], {})
    if isinstance(v, Phi):
        return ip.lift(lambda x: b_len(ip, x), v)
    if isinstance(v, Unk):
        raise Undecided("length of %s (%s)" % (v, ip.where()))
    ip.throw("TypeError", "object has no len()")


@model("builtins.range")
def b_range(ip, *a):
    a = [ip.as_index(x) if not isinstance(x, Arr) else ip.as_index(x)
         for x in a]
    return range(*a)


@model("builtins.abs", "numpy.abs", "numpy.absolute", "numpy.fabs",
       "math.fabs")
def b_abs(ip, v):
    if isinstance(v, int):
        return abs(v)
    if isinstance(v, Poly):
        r = T.abs_(v)
        return npoly(r) if isinstance(v, NPoly) else r
    if isinstance(v, Cond):
        return v.p
    v = as_arr(ip, v)
    return out(emap(lambda x: abs(x) if isinstance(x, int) else T.abs_(P(x)),
                    v.a), v.dt)


@model("builtins.float")
def b_float(ip, v=0):
    if isinstance(v, (int, Cond)):
        return P(v)
    if isinstance(v, Poly):
        return plain(v)
    if isinstance(v, Arr):
        if v.a.size != 1:
            ip.throw("TypeError", "only size-1 arrays can be converted")
        return plain(P(v.a.reshape(-1)[0]))
    if isinstance(v, NumStr):
        return v.number()
    if isinstance(v, str):
        try:
            return T.float_const(float(v))
        except ValueError:
            ip.throw("ValueError", "could not convert string to float")
    if isinstance(v, Phi):
        return ip.lift(lambda x: b_float(ip, x), v)
    if isinstance(v, Unk):
        return T.opaque(v.note)
    ip.throw("TypeError", "float() argument")


@model("builtins.int")
def b_int(ip, v=0):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Poly):
        return to_int(v)
    if isinstance(v, Cond):
        return v.p
    if isinstance(v, Arr) and v.a.size == 1:
        return b_int(ip, v.a.reshape(-1)[0])
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            ip.throw("ValueError", "invalid literal for int()")
    if isinstance(v, Phi):
        return ip.lift(lambda x: b_int(ip, x), v)
    if isinstance(v, Unk):
        return T.opaque(v.note)
    ip.throw("TypeError", "int() argument")


@model("builtins.bool")
def b_bool(ip, v=False):
    return ip.truth(v)


@model("builtins.str", "builtins.repr", "builtins.format")
def b_str(ip, v="", *a):
    r = to_str(ip, v)
    if a and isinstance(r, NumStr):
        return NumStr(r.p, a[0])
    return r


@model("builtins.list")
def b_list(ip, v=()):
    r = list(ip.iterate(v))
    ip.born(r)
    return r


@model("builtins.tuple")
def b_tuple(ip, v=()):
    return tuple(ip.iterate(v))


@model("builtins.set", "builtins.frozenset")
def b_set(ip, v=()):
    r = set(ip.key(x) for x in ip.iterate(v))
    ip.born(r)
    return r


@model("builtins.dict", "collections.OrderedDict")
def b_dict(ip, v=None, **k):
    d = {}
    if isinstance(v, dict):
        d.update(v)
    elif v is not None:
        for x in ip.iterate(v):
            a, b = ip.iterate(x)
            d[ip.key(a)] = b
    d.update(k)
    ip.born(d)
    return d


@model("builtins.enumerate")
def b_enumerate(ip, v, start=0):
    return [(i + start, x) for i, x in enumerate(ip.iterate(v))]


@model("builtins.zip")
def b_zip(ip, *vs):
    return list(zip(*[ip.iterate(v) for v in vs]))


@model("builtins.map")
def b_map(ip, f, *vs):
    return [ip.call(f, list(a), {}) for a in zip(
        *[ip.iterate(v) for v in vs])]


@model("builtins.filter")
def b_filter(ip, f, v):
    res = []
    for x in ip.iterate(v):
        c = ip.truth(ip.call(f, [x], {}) if f is not None else x)
        if c is True:
            res.append(x)
        elif c is not False:
            ip.fail("filter is not decided")
    return res


@model("builtins.reversed")
def b_reversed(ip, v):
    return list(reversed(ip.iterate(v)))


def sort_list(ip, v, key=None, reverse=False):
    items = list(ip.iterate(v))
    keys = [ip.call(key, [x], {}) if key is not None else x for x in items]

    def const(k):
        if isinstance(k, (list, tuple)):
            return tuple(const(x) for x in k)
        if isinstance(k, str):
            return k
        f = frac_const(k)
        if f is None:
            raise Undecided("sorting of unknown values (%s)" % ip.where())
        return f
    if key is None and len(items) == 2 and all(
            is_num(k) for k in keys) and not all(
            frac_const(k) is not None for k in keys):
        r = [minmax(ip, "min", items), minmax(ip, "max", items)]
        return r[::-1] if reverse else r
    try:
        order = sorted(range(len(items)), key=lambda i: const(keys[i]),
                       reverse=bool(reverse))
    except TypeError:
        raise Undecided("sorting (%s)" % ip.where())
    return [items[i] for i in order]


@model("builtins.sorted")
def b_sorted(ip, v, key=None, reverse=False):
    return sort_list(ip, v, key, reverse)


@model("builtins.iter")
def b_iter(ip, v):
    return list(ip.iterate(v))


@model("builtins.next")
def b_next(ip, v, *d):
    if isinstance(v, list):
        if v:
            ip.touch(v)
            return v.pop(0)
        if d:
            return d[0]
        ip.throw("StopIteration")
    ip.fail("next()")


def minmax(ip, which, args, key=None, default=MISSING):
    vals = list(ip.iterate(args[0])) if len(args) == 1 else list(args)
    if not vals:
        if default is not MISSING:
            return default
        ip.throw("ValueError", "empty sequence")
    if key is not None:
        if len(vals) == 1:
            return vals[0]
        best, cur = vals[0], ip.call(key, [vals[0]], {})
        for x in vals[1:]:
            k = ip.call(key, [x], {})
            c = ip.compare_lt(k, cur) if which == "min" else \
                ip.compare_lt(cur, k)
            if not isinstance(c, bool):
                ip.fail("min/max with key")
            if c:
                best, cur = x, k
        return best
    if all(isinstance(v, int) for v in vals):
        return min(vals) if which == "min" else max(vals)
    if any(isinstance(v, Phi) for v in vals):
        for n, v in enumerate(vals):
            if isinstance(v, Phi):
                return ip.lift(lambda x: minmax(
                    ip, which, vals[:n] + [x] + vals[n + 1:]), v)
    if any(isinstance(v, Arr) and v.a.size != 1 for v in vals):
        ip.throw("ValueError", "truth value of an array is ambiguous")
    vals = [v.a.reshape(-1)[0] if isinstance(v, Arr) else v for v in vals]
    if all(is_num(v) for v in vals):
        np_ = any(isinstance(v, NPoly) for v in vals)
        r = (T.min_ if which == "min" else T.max_)(*[P(v) for v in vals])
        return npoly(r) if np_ else r
    if any(isinstance(v, Unk) for v in vals):
        return T.opaque(which)
    if all(isinstance(v, str) for v in vals):
        return min(vals) if which == "min" else max(vals)
    ip.throw("TypeError", "unorderable types")


@model("builtins.min")
def b_min(ip, *args, key=None, default=MISSING):
    return minmax(ip, "min", args, key, default)


@model("builtins.max")
def b_max(ip, *args, key=None, default=MISSING):
    return minmax(ip, "max", args, key, default)


@model("builtins.sum")
def b_sum(ip, v, start=0):
    r = start
    for x in ip.iterate(v):
        r = binop(ip, "Add", r, x)
    return r


@model("builtins.any")
def b_any(ip, v):
    r = False
    for x in ip.iterate(v):
        r = T.or_(r, ip.truth(x))
    return r


@model("builtins.all")
def b_all(ip, v):
    r = True
    for x in ip.iterate(v):
        r = T.and_(r, ip.truth(x))
    return r


@model("numpy.median")
def n_median(ip, a, axis=None, **k):
    a = as_arr(ip, a)
    v = [frac_const(x) for x in a.a.reshape(-1)]
    if None in v or k or (axis is not None and a.a.ndim > 1):
        raise Undecided("median (%s)" % ip.where())
    v.sort()
    n = len(v)
    return npoly(P((v[n // 2] + v[(n - 1) // 2]) / 2))


@model("builtins.round")
def b_round(ip, v, n=0):
    if isinstance(v, int):
        return v
    k = frac_const(v)
    if k is not None:
        return int(round(k)) if not n else Poly.const(round(k, n))
    return T.fn("round", plain(P(v)), n)


@model("builtins.pow")
def b_pow(ip, a, b):
    return binop(ip, "Pow", a, b)


@model("builtins.divmod")
def b_divmod(ip, a, b):
    return binop(ip, "FloorDiv", a, b), binop(ip, "Mod", a, b)


@model("builtins.print", "warnings.warn", "warnings.simplefilter",
       "warnings.filterwarnings", "numpy.import_array",
       "warnings.catch_warnings", "numpy.set_printoptions")
def b_print(ip, *a, **k):
    ip.event("print", "print", a, k)
    return None


@model("builtins.callable")
def b_callable(ip, v):
    if isinstance(v, (Func, Bound, Native, Cls)):
        return True
    if isinstance(v, Obj):
        return v.cls.lookup("__call__")[0] is not None
    return False


@model("builtins.id")
def b_id(ip, v):
    return id(v)


@model("builtins.hash")
def b_hash(ip, v):
    return hash(v)


@model("builtins.slice")
def b_slice(ip, *a):
    return slice(*a)


@model("builtins.getattr")
def b_getattr(ip, o, n, *d):
    return ip.getattr(o, n, d[0] if d else MISSING)


@model("builtins.setattr")
def b_setattr(ip, o, n, v):
    ip.setattr(o, n, v)


@model("builtins.delattr")
def b_delattr(ip, o, n):
    if isinstance(o, Obj) and n in o.d:
        ip.touch(o.d)
        del o.d[n]
        return
    ip.throw("AttributeError", n)


@model("builtins.hasattr")
def b_hasattr(ip, o, n):
    if isinstance(o, Unk):
        return T.bool_sym("%s has %s" % (o.note, n))
    if isinstance(o, Phi):
        return ip.truth(ip.lift(lambda x: b_hasattr(ip, x, n), o))
    try:
        ip.getattr(o, n)
        return True
    except InterpRaise as e:
        if e.exc.name == "AttributeError":
            return False
        raise
    except Undecided:
        if isinstance(o, (Arr, Poly)):
            return True
        raise


@model("builtins.vars")
def b_vars(ip, o):
    return ip.getattr(o, "__dict__")


def type_name(v):
    if isinstance(v, (bool, Cond)):
        return "builtins.bool"
    if isinstance(v, int):
        return "builtins.int"
    if isinstance(v, NPoly):
        return "numpy.float64"
    if isinstance(v, Poly):
        return "builtins.float"
    if isinstance(v, str):
        return "builtins.str"
    if v is None:
        return "builtins.NoneType"
    if isinstance(v, list):
        return "builtins.list"
    if isinstance(v, tuple):
        return "builtins.tuple"
    if isinstance(v, dict):
        return "builtins.dict"
    if isinstance(v, set):
        return "builtins.set"
    if isinstance(v, Arr):
        return "numpy.ndarray"
    if isinstance(v, (Func, Bound, Native)):
        return "builtins.function"
    if isinstance(v, Rng):
        return "numpy.random.RandomState"
    return None


@model("builtins.type")
def b_type(ip, v, *a):
    if a:
        ip.fail("type() with three arguments")
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, Cls):
        return Ext("builtins.type")
    n = type_name(v)
    if n is None:
        return Unk("type of %s" % (v,))
    return Ext(n)


SUPER_TYPES = {
    "builtins.bool": ("builtins.int", "numbers.Integral", "numbers.Number",
                      "numbers.Real"),
    "builtins.int": ("numbers.Integral", "numbers.Number", "numbers.Real"),
    "builtins.float": ("numbers.Number", "numbers.Real"),
    "numpy.float64": ("builtins.float", "numbers.Number", "numpy.floating",
                      "numpy.number", "numpy.generic", "numbers.Real",
                      "numpy.inexact", "numpy.double"),
    "builtins.list": ("collections.abc.Sequence", "collections.abc.Iterable",
                      "typing.Sequence", "typing.List"),
    "builtins.tuple": ("collections.abc.Sequence",
                       "collections.abc.Iterable", "typing.Sequence"),
    "builtins.dict": ("collections.abc.Mapping", "collections.abc.Iterable"),
    "builtins.function": ("collections.abc.Callable", "typing.Callable"),
}


@model("builtins.isinstance")
def b_isinstance(ip, v, t):
    if isinstance(v, Phi):
        return ip.truth(ip.lift(lambda x: b_isinstance(ip, x, t), v))
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for x in ts:
        flat.extend(x if isinstance(x, tuple) else (x,))
    for x in flat:
        if isinstance(x, Cls):
            if isinstance(v, Obj) and x in v.cls.mro:
                return True
            if isinstance(v, Exc) and v.cls is not None and x in v.cls.mro:
                return True
        elif isinstance(x, Ext):
            n = type_name(v)
            if isinstance(v, Obj) and x in v.cls.mro:
                return True
            if x.path in ("builtins.object", "typing.Any"):
                return True
            if n is not None and (n == x.path or x.path in SUPER_TYPES.get(
                    n, ())):
                return True
            if isinstance(v, Exc):
                from .values import exc_isa
                if exc_isa(v.name, x.path.rpartition(".")[2]):
                    return True
        elif isinstance(x, Unk):
            return T.bool_sym("isinstance %s" % x.note)
    if isinstance(v, Unk):
        return T.bool_sym("isinstance of %s" % v.note)
    return False


@model("builtins.issubclass")
def b_issubclass(ip, c, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(c, Cls):
        return any(x in c.mro for x in ts)
    return any(x == c for x in ts)


@model("builtins.property")
def b_property(ip, fget=None, fset=None, fdel=None, doc=None):
    return Prop(fget, fset, fdel)


@model("builtins.staticmethod")
def b_staticmethod(ip, f):
    return StaticM(f)


@model("builtins.classmethod")
def b_classmethod(ip, f):
    return ClassM(f)


@model("builtins.object")
def b_object(ip):
    return Unk("object")


@model("builtins.__import__", "importlib.import_module")
def b_import(ip, name, *a, **k):
    if not isinstance(name, str):
        ip.fail("import of an unknown name")
    m = ip.load(name)
    if m is not None:
        return m
    if ip.program.owns(name):
        ip.throw("ImportError", name)
    return Ext(name)


@model("builtins.globals")
def b_globals(ip):
    ip.fail("globals()")


@model("inspect.getmembers")
def i_members(ip, o, pred=None):
    from .interp import Module
    if isinstance(o, Module):
        return sorted(((k, v) for k, v in o.ns.items()),
                      key=lambda kv: kv[0])
    ip.fail("inspect.getmembers")


@model("inspect.isclass")
def i_isclass(ip, o):
    return isinstance(o, Cls)


@model("inspect.getfullargspec", "inspect.getargspec")
def i_argspec(ip, f):
    if isinstance(f, Cls):
        f, _ = f.lookup("__init__")
        if f is None:
            u = Unk("argspec")
            u.d["args"] = ["self"]
            return u
    if isinstance(f, Bound):
        f = f.func
    if not isinstance(f, Func):
        ip.fail("inspect.getfullargspec")
    a = f.node.args
    u = Unk("argspec")
    u.d["args"] = [x.arg for x in a.posonlyargs + a.args]
    u.d["kwonlyargs"] = [x.arg for x in a.kwonlyargs]
    u.d["varargs"] = a.vararg.arg if a.vararg else None
    u.d["varkw"] = a.kwarg.arg if a.kwarg else None
    u.d["defaults"] = tuple(f.defaults) if f.defaults else None
    return u


@model("inspect.signature")
def i_signature(ip, f):
    spec = i_argspec(ip, f)
    u = Unk("signature")
    args = spec.d["args"]
    if isinstance(f, (Cls, Bound)) and args and args[0] == "self":
        args = args[1:]
    u.d["parameters"] = {k: Unk("parameter " + k)
                         for k in args + spec.d.get("kwonlyargs", [])}
    return u


@model("copy.deepcopy")
def c_deepcopy(ip, v, memo=None):
    return pickled(ip, v, {})


@model("copy.copy")
def c_copy(ip, v):
    if isinstance(v, Arr):
        return n_copy(ip, v)
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.d.update(v.d)
        return o
    if isinstance(v, (list, dict, set)):
        r = type(v)(v)
        ip.born(r)
        return r
    return v


PICKLING = ("__reduce__", "__reduce_ex__", "__getnewargs__", "__deepcopy__",
            "__getnewargs_ex__")


def pickled(ip, v, memo):
    """Copy by the protocol of pickle, which classes may take part in."""
    return deepcopy(ip, v, memo, True)


def deepcopy(ip, v, memo, protocol=False):
    if id(v) in memo:
        return memo[id(v)]
    if protocol and isinstance(v, Obj):
        for n in PICKLING:
            if isinstance(v.cls.lookup(n)[0], Func):
                ip.fail("pickling with " + n)
        f, g = [v.cls.lookup(n)[0] for n in ("__getstate__", "__setstate__")]
        if isinstance(f, Func) or isinstance(g, Func):
            r = Obj(v.cls)
            memo[id(v)] = r
            d = ip.call(ip.getattr(v, "__getstate__"), [], {}) \
                if isinstance(f, Func) else dict(v.d)
            d = deepcopy(ip, d, memo, True)
            if isinstance(g, Func):
                ip.call(ip.getattr(r, "__setstate__"), [d], {})
            elif isinstance(d, dict):
                r.d.update(d)
            elif d is not None:
                ip.fail("state of a pickled object")
            return r
        r = Obj(v.cls)
        memo[id(v)] = r
        for k, x in v.d.items():
            r.d[k] = deepcopy(ip, x, memo, True)
        return r
    if protocol and isinstance(v, (list, tuple)):
        r = type(v)(deepcopy(ip, x, memo, True) for x in v)
        if isinstance(v, list):
            ip.born(r)
        memo[id(v)] = r
        return r
    if isinstance(v, Arr):
        r = Arr(v.a.copy(), v.dt)
    elif isinstance(v, Obj):
        r = Obj(v.cls)
        memo[id(v)] = r
        for k, x in v.d.items():
            r.d[k] = deepcopy(ip, x, memo)
        return r
    elif isinstance(v, list):
        r = [deepcopy(ip, x, memo) for x in v]
        ip.born(r)
    elif isinstance(v, tuple):
        r = tuple(deepcopy(ip, x, memo) for x in v)
    elif isinstance(v, dict):
        r = {k: deepcopy(ip, x, memo) for k, x in v.items()}
        ip.born(r)
    elif isinstance(v, Phi):
        r = Phi(v.c, deepcopy(ip, v.a, memo), deepcopy(ip, v.b, memo))
    else:
        return v
    memo[id(v)] = r
    return r


@model("functools.partial")
def f_partial(ip, f, *a, **k):
    a = list(a)
    return Native(lambda ip_, b, kk: ip_.call(f, a + list(b), {**k, **kk}),
                  "partial")


@model("functools.reduce")
def f_reduce(ip, f, seq, *init):
    items = list(init) + list(ip.iterate(seq))
    r = items[0]
    for x in items[1:]:
        r = ip.call(f, [r, x], {})
    return r


for _op, _name in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"),
                   ("truediv", "Div"), ("matmul", "MatMult")):
    MODELS["operator." + _op] = (
        lambda n: lambda ip, a, b: binop(ip, n, a, b))(_name)


@model("itertools.product")
def it_product(ip, *vs, repeat=1):
    return list(itertools.product(*[ip.iterate(v) for v in vs],
                                  repeat=repeat))


@model("itertools.chain")
def it_chain(ip, *vs):
    return [x for v in vs for x in ip.iterate(v)]


@model("itertools.accumulate")
def it_accumulate(ip, v, f=None, initial=None):
    items = list(ip.iterate(v))
    res = []
    acc = initial
    if initial is not None:
        res.append(acc)
    for x in items:
        if acc is None:
            acc = x
        else:
            acc = ip.call(f, [acc, x], {}) if f else binop(
                ip, "Add", acc, x)
        res.append(acc)
    return res


# ------------------------------------------------------------ creation
def shape_arg(ip, s):
    if isinstance(s, (list, tuple)):
        return tuple(ip.as_index(x) for x in s)
    if isinstance(s, Arr):
        return tuple(ip.as_index(x) for x in s.a.flat)
    k = ip.as_index(s)
    return (k,)


def check_shape(ip, s):
    s = shape_arg(ip, s)
    if any(k < 0 for k in s):
        ip.throw("ValueError", "negative dimensions are not allowed")
    n = 1
    for k in s:
        n *= k
    if n > 200000:
        ip.fail("array too large")
    return s


def typed(v, dt):
    return {"f": P(v), "i": v, "b": bool(v), "O": v}[dt]


@model("numpy.zeros")
def n_zeros(ip, shape, dtype=None, order="C"):
    dt = dtype_of(ip, dtype) or "f"
    return full(check_shape(ip, shape), typed(0, dt), dt)


@model("numpy.ones")
def n_ones(ip, shape, dtype=None, order="C"):
    dt = dtype_of(ip, dtype) or "f"
    return full(check_shape(ip, shape), typed(1, dt), dt)


@model("numpy.empty")
def n_empty(ip, shape, dtype=None, order="C"):
    dt = dtype_of(ip, dtype) or "f"
    if dt == "O":
        a = np.empty(check_shape(ip, shape), dtype=object)
        return Arr(a, "O")
    r = uninit(check_shape(ip, shape))
    r.dt = dt
    return r


@model("numpy.full")
def n_full(ip, shape, fill_value, dtype=None):
    dt = dtype_of(ip, dtype)
    v = as_arr(ip, fill_value, dt)
    a = np.empty(check_shape(ip, shape), dtype=object)
    a[...] = v.a if v.a.ndim else v.a[()]
    return Arr(a, v.dt)


def like(ip, v, dtype, shape=None):
    v = as_arr(ip, v)
    return (v.shape if shape is None else check_shape(ip, shape),
            dtype_of(ip, dtype) or v.dt)


@model("numpy.zeros_like")
def n_zeros_like(ip, v, dtype=None, shape=None):
    s, dt = like(ip, v, dtype, shape)
    return full(s, typed(0, dt), dt)


@model("numpy.ones_like")
def n_ones_like(ip, v, dtype=None, shape=None):
    s, dt = like(ip, v, dtype, shape)
    return full(s, typed(1, dt), dt)


@model("numpy.empty_like")
def n_empty_like(ip, v, dtype=None, shape=None):
    s, dt = like(ip, v, dtype, shape)
    r = uninit(s)
    r.dt = dt
    return r


@model("numpy.full_like")
def n_full_like(ip, v, fill, dtype=None):
    s, dt = like(ip, v, dtype)
    return full(s, cast(fill, dt), dt)


@model("numpy.eye", "numpy.identity")
def n_eye(ip, n, m=None, k=0, dtype=None):
    n = ip.as_index(n)
    m = n if m is None else ip.as_index(m)
    r = full((n, m), T.ZERO)
    for i in range(n):
        if 0 <= i + k < m:
            r.a[i, i + k] = T.ONE
    return r


@model("numpy.array")
def n_array(ip, v, dtype=None, copy=True, ndmin=0, order=None):
    dt = dtype_of(ip, dtype)
    r = as_arr(ip, v, dt)
    if isinstance(v, Arr) and r is v and copy is not False:
        r = Arr(r.a.copy(), r.dt)
    elif r is v:
        r = Arr(r.a, r.dt)
    while r.a.ndim < ndmin:
        r = Arr(r.a[None], r.dt)
    return r


@model("numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray",
       "numpy.asfarray")
def n_asarray(ip, v, dtype=None, order=None):
    dt = dtype_of(ip, dtype)
    return as_arr(ip, v, dt)


@model("numpy.copy")
def n_copy(ip, v, order=None):
    r = as_arr(ip, v)
    return Arr(r.a.copy(), r.dt)


@model("numpy.float32", "numpy.single", "numpy.float16", "numpy.half")
def n_float32(ip, v=0):
    r = shorten(Short("float32"), as_arr(ip, v, "f"))
    return r if r.a.ndim else npoly(r.a[()])


@model("numpy.float64", "numpy.double", "numpy.float_")
def n_float64(ip, v=0):
    if isinstance(v, Arr) and v.a.ndim:
        return as_arr(ip, v, "f")
    r = b_float(ip, v)
    return npoly(r) if isinstance(r, Poly) else r


@model("numpy.int64", "numpy.intp", "numpy.int32", "numpy.int_")
def n_int64(ip, v=0):
    if isinstance(v, Arr) and v.a.ndim:
        return as_arr(ip, v, "i")
    return b_int(ip, v)


@model("numpy.bool_")
def n_bool(ip, v=False):
    return ip.truth(v)


@model("numpy.linspace")
def n_linspace(ip, start, stop, num=50, endpoint=True, retstep=False,
               dtype=None, axis=0):
    num = ip.as_index(num)
    if num < 0:
        ip.throw("ValueError", "number of samples must be non-negative")
    a, b = as_arr(ip, start), as_arr(ip, stop)
    div = (num - 1) if endpoint else num
    rows = []
    d = emap(lambda x, y: P(y) - P(x), a.a, b.a)
    for i in range(num):
        f = Fraction(i, div) if div > 0 else Fraction(0)
        rows.append(emap(lambda x, y: P(x) + P(y) * f, a.a, d))
    r = np.empty((num,) + d.shape, dtype=object)
    for i, x in enumerate(rows):
        r[i] = x if d.ndim else x[()]
    step = out(emap(lambda x: P(x) / max(div, 1), d), "f")
    r = Arr(r, "f")
    dt = dtype_of(ip, dtype)
    if dt:
        r = as_arr(ip, r, dt)
    return (r, step) if retstep else r


@model("numpy.arange")
def n_arange(ip, start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    args = [x.a.reshape(-1)[0] if isinstance(x, Arr) else x
            for x in (start, stop, step)]
    start, stop, step = args
    if all(isinstance(x, int) for x in args):
        vals = list(range(start, stop, step))
        r = Arr(np.array(vals, dtype=object).reshape(len(vals)), "i")
        for i, x in enumerate(vals):
            r.a[i] = x
        dt = dtype_of(ip, dtype)
        return as_arr(ip, r, dt) if dt else r
    start, stop, step = P(start), P(stop), P(step)
    n = (stop - start) / step
    if not n.is_const():
        k = const_by_equality(n)
        if k is None:
            raise Undecided("number of elements of a range (%s)" % ip.where())
        n = Poly.const(k)
    n = max(0, math.ceil(n.const_value()))
    if n > 5000:
        ip.fail("range too long")
    a = np.empty(n, dtype=object)
    for i in range(n):
        a[i] = start + step * i
    return Arr(a, "f")


def const_by_equality(p):
    return None


@model("numpy.finfo")
def n_finfo(ip, t=None):
    u = Unk("finfo")
    u.d["eps"] = npoly(T.EPS)
    u.d["tiny"] = npoly(T.EPS)
    u.d["max"] = npoly(T.float_const(math.inf))
    return u


@model("numpy.diag", "numpy.diagonal")
def n_diag(ip, v, k=0):
    v = as_arr(ip, v)
    if v.a.ndim == 1:
        n = v.a.size + abs(k)
        r = full((n, n), typed(0, v.dt), v.dt)
        for i in range(v.a.size):
            r.a[(i, i + k) if k >= 0 else (i - k, i)] = v.a[i]
        return r
    return Arr(np.diagonal(v.a, k), v.dt)


def _triangle(ip, v, k, keep):
    v = as_arr(ip, v)
    r = Arr(v.a.copy(), v.dt)
    zero = typed(0, v.dt)
    for i in np.ndindex(*r.a.shape):
        if not keep(i[-1] - i[-2], k):
            r.a[i] = zero
    return r


@model("numpy.tril")
def n_tril(ip, m, k=0):
    return _triangle(ip, m, k, lambda d, k: d <= k)


@model("numpy.triu")
def n_triu(ip, m, k=0):
    return _triangle(ip, m, k, lambda d, k: d >= k)


@model("numpy.meshgrid")
def n_meshgrid(ip, *xs, indexing="xy"):
    arrs = [as_arr(ip, x) for x in xs]
    return [Arr(np.array(g), a.dt) for g, a in zip(
        np.meshgrid(*[a.a for a in arrs], indexing=indexing), arrs)]


@model("scipy.linalg.block_diag")
def n_block_diag(ip, *xs):
    arrs = [np.atleast_2d(as_arr(ip, x).a) for x in xs]
    r = full((sum(a.shape[0] for a in arrs), sum(a.shape[1] for a in arrs)),
             T.ZERO)
    i = j = 0
    for a in arrs:
        r.a[i:i + a.shape[0], j:j + a.shape[1]] = a
        i += a.shape[0]
        j += a.shape[1]
    return r


# ------------------------------------------------------------ shape
def arrs_of(ip, seq):
    if isinstance(seq, Arr):
        return [Arr(seq.a[i], seq.dt) if seq.a.ndim > 1 else
                as_arr(ip, scalar(seq.a[i], seq.dt))
                for i in range(seq.a.shape[0])]
    return [as_arr(ip, x) for x in ip.iterate(seq)]


def joined(ip, f, arrs):
    dt = promote(*[a.dt for a in arrs]) if arrs else "f"
    arrs = [a if a.dt == dt else astype(a, dt) for a in arrs]
    try:
        return Arr(f([a.a for a in arrs]), dt)
    except ValueError as e:
        ip.throw("ValueError", str(e))


@model("numpy.concatenate")
def n_concatenate(ip, seq, axis=0):
    return joined(ip, lambda x: np.concatenate(x, axis=axis),
                  arrs_of(ip, seq))


def concatenate(ip, arrs, axis=0):
    return joined(ip, lambda x: np.concatenate(x, axis=axis), arrs)


@model("numpy.hstack")
def n_hstack(ip, seq):
    return joined(ip, np.hstack, arrs_of(ip, seq))


@model("numpy.vstack", "numpy.row_stack")
def n_vstack(ip, seq):
    return joined(ip, np.vstack, arrs_of(ip, seq))


@model("numpy.dstack")
def n_dstack(ip, seq):
    return joined(ip, np.dstack, arrs_of(ip, seq))


@model("numpy.stack")
def n_stack(ip, seq, axis=0):
    return joined(ip, lambda x: np.stack(x, axis=axis), arrs_of(ip, seq))


@model("numpy.column_stack")
def n_column_stack(ip, seq):
    return joined(ip, np.column_stack, arrs_of(ip, seq))


@model("numpy.append")
def n_append(ip, a, b, axis=None):
    a, b = as_arr(ip, a), as_arr(ip, b)
    if axis is None:
        return joined(ip, lambda x: np.concatenate(
            [y.ravel() for y in x]), [a, b])
    return joined(ip, lambda x: np.concatenate(x, axis=axis), [a, b])


@model("numpy.block")
def n_block(ip, v):
    def conv(x):
        if isinstance(x, list):
            return [conv(y) for y in x]
        return as_arr(ip, x).a
    return Arr(np.block(conv(v)), "f")


def shaped(ip, v, f):
    v = as_arr(ip, v)
    try:
        return Arr(f(v.a), v.dt)
    except (ValueError, np.exceptions.AxisError) as e:
        ip.throw("ValueError", str(e))


@model("numpy.atleast_1d")
def n_atleast_1d(ip, *vs):
    r = [v if isinstance(v, Arr) and v.a.ndim >= 1 else
         shaped(ip, v, np.atleast_1d) for v in vs]
    return r[0] if len(r) == 1 else r


@model("numpy.atleast_2d")
def n_atleast_2d(ip, v):
    if isinstance(v, Arr) and v.a.ndim >= 2:
        return v
    return shaped(ip, v, np.atleast_2d)


@model("numpy.squeeze")
def n_squeeze(ip, v, axis=None):
    return shaped(ip, v, lambda a: np.squeeze(a, axis))


@model("numpy.reshape")
def n_reshape(ip, v, shape, order="C"):
    return m_reshape(ip, as_arr(ip, v), shape)


@model("numpy.ravel")
def n_ravel(ip, v, order="C"):
    return m_ravel(ip, as_arr(ip, v), order)


@model("numpy.transpose")
def n_transpose(ip, v, axes=None):
    ax = None if axes is None else tuple(
        ip.as_index(x) for x in ip.iterate(axes))
    return shaped(ip, v, lambda a: np.transpose(a, ax))


@model("numpy.swapaxes")
def n_swapaxes(ip, v, a1, a2):
    return shaped(ip, v, lambda a: np.swapaxes(a, a1, a2))


@model("numpy.moveaxis")
def n_moveaxis(ip, v, s, d):
    return shaped(ip, v, lambda a: np.moveaxis(a, s, d))


@model("numpy.expand_dims")
def n_expand_dims(ip, v, axis):
    return shaped(ip, v, lambda a: np.expand_dims(a, axis))


@model("numpy.broadcast_to")
def n_broadcast_to(ip, v, shape):
    s = shape_arg(ip, shape)
    return shaped(ip, v, lambda a: np.broadcast_to(a, s).copy())


@model("numpy.tile")
def n_tile(ip, v, reps):
    reps = shape_arg(ip, reps)
    return shaped(ip, v, lambda a: np.tile(a, reps))


@model("numpy.repeat")
def n_repeat(ip, v, n, axis=None):
    if isinstance(n, Arr):
        n = [ip.as_index(x) for x in n.a.flat]
    return shaped(ip, v, lambda a: np.repeat(a, n, axis))


@model("numpy.resize")
def n_resize(ip, v, shape):
    n = tuple(ip.as_index(x) for x in ip.iterate(shape)) if isinstance(
        shape, (tuple, list, Arr)) else (ip.as_index(shape),)
    return shaped(ip, v, lambda a: np.resize(a, n))


@model("numpy.roll")
def n_roll(ip, v, n, axis=None):
    return shaped(ip, v, lambda a: np.roll(a, n, axis))


@model("numpy.flip")
def n_flip(ip, v, axis=None):
    return shaped(ip, v, lambda a: np.flip(a, axis))


@model("numpy.flipud")
def n_flipud(ip, v):
    return shaped(ip, v, np.flipud)


@model("numpy.split", "numpy.array_split")
def n_split(ip, v, idx, axis=0):
    v = as_arr(ip, v)
    if isinstance(idx, (list, tuple, Arr)):
        idx = [ip.as_index(x) for x in ip.iterate(idx)]
    try:
        return [Arr(x, v.dt) for x in np.split(v.a, idx, axis)]
    except ValueError as e:
        ip.throw("ValueError", str(e))


@model("numpy.pad")
def n_pad(ip, v, width, mode="constant", constant_values=0):
    v = as_arr(ip, v)

    def conv(x):
        if isinstance(x, (tuple, list)):
            return tuple(conv(y) for y in x)
        return ip.as_index(x)
    w = conv(width)
    idx = np.arange(v.a.size).reshape(v.shape)
    if mode != "constant":
        p = np.pad(idx, w, mode=mode)
        return Arr(v.a.reshape(-1)[p], v.dt)
    p = np.pad(idx, w, mode="constant", constant_values=-1)
    r = np.empty(p.shape, dtype=object)
    flat = v.a.reshape(-1)
    for i in np.ndindex(*p.shape):
        r[i] = flat[p[i]] if p[i] >= 0 else cast(constant_values, v.dt)
    return Arr(r, v.dt)


@model("numpy.ndim")
def n_ndim(ip, v):
    return as_arr(ip, v).a.ndim


@model("numpy.shape")
def n_shape(ip, v):
    return tuple(as_arr(ip, v).shape)


@model("numpy.size")
def n_size(ip, v, axis=None):
    a = as_arr(ip, v).a
    return int(a.size if axis is None else a.shape[axis])


@model("numpy.isscalar")
def n_isscalar(ip, v):
    return isinstance(v, (int, Poly, Cond, str))


@model("numpy.result_type", "numpy.dtype")
def n_dtype(ip, *v):
    return Unk("dtype:f")


# ------------------------------------------------------------ elementwise
def elementwise(names, f, dt="f"):
    g = safe(f)

    def run(ip, v, out=None, where=True):
        if isinstance(v, (int, Poly, Cond)):
            r = g(P(v))
            return npoly(r) if not names[0].startswith("math.") else r
        a = as_arr(ip, v)
        res = emap(lambda x: g(P(x)), a.a)
        if isinstance(out, Arr):
            store(ip, out, Ellipsis, Arr(res, "f"))
            return out
        return _out(res, dt)

    def run_math(ip, v):
        if isinstance(v, Arr):
            if v.a.size != 1:
                ip.throw("TypeError", "only size-1 arrays can be converted")
            v = v.a.reshape(-1)[0]
        return plain(g(P(v)))
    for n in names:
        MODELS[n] = run_math if n.startswith("math.") else run


_out = out

elementwise(["numpy.exp"], T.exp_)
elementwise(["math.exp"], T.exp_)
elementwise(["numpy.sqrt"], T.sqrt_)
elementwise(["math.sqrt"], T.sqrt_)
elementwise(["numpy.cos"], T.cos_)
elementwise(["math.cos"], T.cos_)
elementwise(["numpy.sin"], T.sin_)
elementwise(["math.sin"], T.sin_)
elementwise(["numpy.arccos", "numpy.acos"], T.acos_)
elementwise(["math.acos"], T.acos_)
elementwise(["numpy.square"], lambda x: x * x)
elementwise(["numpy.reciprocal"], lambda x: 1 / x)
elementwise(["numpy.negative"], lambda x: -x)
elementwise(["numpy.tan"], lambda x: T.fn("tan", x))
elementwise(["math.tan"], lambda x: T.fn("tan", x))
elementwise(["numpy.arctan"], lambda x: T.fn("atan", x))
elementwise(["math.atan"], lambda x: T.fn("atan", x))
elementwise(["numpy.arcsin"], lambda x: T.fn("asin", x))
elementwise(["math.asin"], lambda x: T.fn("asin", x))
elementwise(["numpy.tanh"], lambda x: T.fn("tanh", x))
elementwise(["math.tanh"], lambda x: T.fn("tanh", x))
elementwise(["numpy.floor"], lambda x: rounding("floor", x))
elementwise(["numpy.ceil"], lambda x: rounding("ceil", x))
elementwise(["numpy.trunc", "numpy.fix"], lambda x: rounding("trunc", x))
elementwise(["numpy.expm1"], lambda x: T.exp_(x) - 1)
elementwise(["math.expm1"], lambda x: T.exp_(x) - 1)
elementwise(["numpy.log1p"], lambda x: T.log_(x + 1))
elementwise(["math.log1p"], lambda x: T.log_(x + 1))
elementwise(["numpy.deg2rad", "numpy.radians"], lambda x: x * T.PI / 180)
elementwise(["math.radians"], lambda x: x * T.PI / 180)
elementwise(["numpy.rad2deg", "numpy.degrees"], lambda x: x * 180 / T.PI)
elementwise(["math.degrees"], lambda x: x * 180 / T.PI)
elementwise(["numpy.log"], T.log_)
elementwise(["numpy.real"], lambda x: x)
elementwise(["numpy.sinc"], lambda x: T.sin_(T.PI * x) / (T.PI * x))


@model("math.log")
def m_log(ip, x, base=None):
    r = T.log_(P(b_float(ip, x)))
    if base is not None:
        r = r / T.log_(P(b_float(ip, base)))
    return r


@model("math.floor")
def m_floor(ip, v):
    return int_like(rounding("floor", b_float(ip, v)))


@model("math.ceil")
def m_ceil(ip, v):
    return int_like(rounding("ceil", b_float(ip, v)))


def int_like(p):
    k = frac_const(p)
    return int(k) if k is not None else p


@model("math.isinf", "numpy.isinf")
def n_isinf(ip, v):
    def f(x):
        x = P(x)
        return x == T.float_const(math.inf) or x == -T.float_const(math.inf)
    if is_num(v):
        return f(v)
    return out(emap(f, as_arr(ip, v).a), "b")


@model("math.isnan", "numpy.isnan")
def n_isnan(ip, v):
    nan = T.float_const(math.nan)
    if is_num(v):
        return P(v) == nan
    return out(emap(lambda x: P(x) == nan, as_arr(ip, v).a), "b")


@model("math.isfinite", "numpy.isfinite")
def n_isfinite(ip, v):
    bad = (T.float_const(math.inf), -T.float_const(math.inf),
           T.float_const(math.nan))
    if is_num(v):
        return P(v) not in bad
    return out(emap(lambda x: P(x) not in bad, as_arr(ip, v).a), "b")


@model("math.hypot", "numpy.hypot")
def m_hypot(ip, *a):
    return T.sqrt_(total([P(x) * P(x) for x in a]))


@model("math.pow")
def m_pow(ip, a, b):
    return plain(P(binop(ip, "Pow", P(a), P(b))))


@model("math.atan2", "numpy.arctan2")
def m_atan2(ip, a, b):
    if is_num(a) and is_num(b):
        return T.fn("atan2", P(a), P(b))
    return out(emap(lambda x, y: T.fn("atan2", P(x), P(y)),
                    as_arr(ip, a).a, as_arr(ip, b).a), "f")


@model("math.fmod", "numpy.fmod")
def m_fmod(ip, a, b):
    return fmod(P(a), P(b))


@model("math.copysign", "numpy.copysign")
def m_copysign(ip, a, b):
    c = ip.compare_lt(P(b), T.ZERO)
    return T.gamma(c, -T.abs_(P(a)), T.abs_(P(a)))


@model("math.fsum")
def m_fsum(ip, v):
    return total([P(x) for x in ip.iterate(v)])


@model("math.prod")
def m_prod(ip, v, start=1):
    r = start
    for x in ip.iterate(v):
        r = binop(ip, "Mult", r, x)
    return r


@model("math.isclose")
def m_isclose(ip, a, b, rel_tol=None, abs_tol=None):
    return ip.compare_eq(P(a), P(b))


@model("math.dist")
def m_dist(ip, a, b):
    return T.sqrt_(total([(P(x) - P(y)) * (P(x) - P(y)) for x, y in zip(
        ip.iterate(a), ip.iterate(b))]))


@model("numpy.sign")
def n_sign(ip, v):
    def f(x):
        x = P(x)
        s = T.sign_of(x)
        if s == "+":
            return T.ONE
        if s == "-":
            return -T.ONE
        if s == "0":
            return T.ZERO
        return T.cond_poly(T.lt(T.ZERO, x)) - T.cond_poly(T.lt(x, T.ZERO))
    if is_num(v):
        return npoly(f(v))
    return out(emap(f, as_arr(ip, v).a), "f")


@model("numpy.round", "numpy.around", "numpy.rint")
def n_round(ip, v, decimals=0):
    def f(x):
        k = frac_const(x)
        return Poly.const(round(k, decimals)) if k is not None \
            else T.fn("round", P(x), P(decimals))
    if is_num(v):
        return npoly(f(v))
    return out(emap(f, as_arr(ip, v).a), "f")


def binary(name, f, dt="f"):
    g = safe(f)

    def run(ip, a, b, out=None):
        x, y = as_arr(ip, a), as_arr(ip, b)
        try:
            r = emap(lambda p, q: g(P(p), P(q)), x.a, y.a)
        except ValueError as e:
            ip.throw("ValueError", str(e))
        if isinstance(out, Arr):
            store(ip, out, Ellipsis, Arr(r, "f"))
            return out
        return _out(r, dt)
    MODELS[name] = run


def binary_op(name, op):
    def run(ip, a, b, out=None):
        r = binop(ip, op, as_arr(ip, a), as_arr(ip, b))
        if isinstance(out, Arr):
            store(ip, out, Ellipsis, r)
            return out
        return r
    MODELS[name] = run


binary("numpy.maximum", T.max_)
binary("numpy.minimum", T.min_)
binary("numpy.fmax", T.max_)
binary("numpy.fmin", T.min_)
binary_op("numpy.add", "Add")
binary_op("numpy.subtract", "Sub")
binary_op("numpy.multiply", "Mult")
binary_op("numpy.divide", "Div")
binary_op("numpy.true_divide", "Div")
binary_op("numpy.power", "Pow")
binary_op("numpy.mod", "Mod")
binary_op("numpy.remainder", "Mod")
binary_op("numpy.floor_divide", "FloorDiv")

for _n, _o in (("less", "Lt"), ("greater", "Gt"), ("less_equal", "LtE"),
               ("greater_equal", "GtE"), ("equal", "Eq"),
               ("not_equal", "NotEq")):
    MODELS["numpy." + _n] = (
        lambda o: lambda ip, a, b: compare(ip, o, a, b))(_o)


@model("numpy.clip")
def n_clip(ip, v, lo=None, hi=None, out=None):
    r = v
    if lo is not None:
        r = MODELS["numpy.maximum"](ip, r, lo)
    if hi is not None:
        r = MODELS["numpy.minimum"](ip, r, hi)
    if isinstance(out, Arr):
        store(ip, out, Ellipsis, r)
        return out
    return r


@model("numpy.where")
def n_where(ip, c, *xy):
    if not xy:
        c = as_arr(ip, c)
        if any(isinstance(x, Cond) for x in c.a.flat):
            ip.fail("numpy.where on unknown values")
        idx = np.where(emap(lambda x: bool(ip.truth(x)), c.a).astype(bool))
        return tuple(int_arr(i) for i in idx)
    c = as_arr(ip, c)
    x, y = as_arr(ip, xy[0]), as_arr(ip, xy[1])
    dt = promote(x.dt, y.dt)
    return out(emap(lambda k, p, q: ip.join(ip.truth(k), cast(p, dt),
                                            cast(q, dt)),
                    c.a, x.a, y.a), dt)


def int_arr(a):
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        r[i] = int(a[i])
    return Arr(r, "i")


@model("numpy.logical_and")
def n_and(ip, a, b):
    return out(emap(lambda x, y: T.and_(ip.truth(x), ip.truth(y)),
                    as_arr(ip, a).a, as_arr(ip, b).a), "b")


@model("numpy.logical_or")
def n_or(ip, a, b):
    return out(emap(lambda x, y: T.or_(ip.truth(x), ip.truth(y)),
                    as_arr(ip, a).a, as_arr(ip, b).a), "b")


@model("numpy.logical_not")
def n_not(ip, a):
    return out(emap(lambda x: T.not_(ip.truth(x)), as_arr(ip, a).a), "b")


@model("numpy.isclose")
def n_isclose(ip, a, b, rtol=None, atol=None, equal_nan=False):
    return out(emap(lambda x, y: ip.compare_eq(P(x), P(y)),
                    as_arr(ip, a).a, as_arr(ip, b).a), "b")


@model("numpy.allclose", "numpy.array_equal")
def n_allclose(ip, a, b, rtol=None, atol=None, equal_nan=False):
    a, b = as_arr(ip, a), as_arr(ip, b)
    r = True
    try:
        for c in emap(lambda x, y: ip.compare_eq(P(x), P(y)),
                      a.a, b.a).flat:
            r = T.and_(r, c)
    except ValueError:
        return False
    return r


# ------------------------------------------------------------ reductions
def reduce_(ip, v, axis, keepdims, f, dt=None):
    v = as_arr(ip, v)
    a = v.a
    if axis is None:
        r = f(list(a.reshape(-1)))
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return Arr(o, dt or v.dt)
        return scalar(r, dt or v.dt)
    if isinstance(axis, tuple):
        ax = sorted((x % a.ndim for x in axis), reverse=True)
        rest = [i for i in range(a.ndim) if i not in ax]
        b = np.transpose(a, rest + sorted(ax))
        shape = b.shape[:len(rest)]
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            o[i] = f(list(b[i].reshape(-1)))
        if keepdims:
            o = o.reshape([1 if i in ax else a.shape[i]
                           for i in range(a.ndim)])
        return out(o, dt or v.dt)
    if not -a.ndim <= axis < a.ndim:
        ip.throw("ValueError", "axis out of bounds")
    b = np.moveaxis(a, axis, -1)
    o = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = f(list(b[i]))
    if keepdims:
        o = np.expand_dims(o, axis)
        return Arr(o, dt or v.dt)
    return out(o, dt or v.dt)


def sum_list(xs):
    if all(isinstance(x, (int, np.integer)) for x in xs):
        return sum(int(x) for x in xs)
    return total(xs)


@model("numpy.sum", "numpy.nansum")
def n_sum(ip, v, axis=None, dtype=None, out=None, keepdims=False):
    v = as_arr(ip, v)
    return reduce_(ip, v, axis, keepdims, sum_list,
                   "i" if v.dt == "b" else v.dt)


@model("numpy.mean", "numpy.average", "numpy.nanmean")
def n_mean(ip, v, axis=None, dtype=None, keepdims=False, weights=None):
    if weights is not None:
        v, w = as_arr(ip, v), as_arr(ip, weights)
        if axis is not None and w.a.ndim == 1:
            shape = [1] * v.a.ndim
            shape[axis] = -1
            w = Arr(w.a.reshape(shape), w.dt)
        w = Arr(np.broadcast_to(w.a, v.a.shape), w.dt)
        return ip.binop("Div", n_sum(ip, ip.binop("Mult", v, w), axis),
                        n_sum(ip, w, axis))
    return reduce_(ip, v, axis, keepdims,
                   lambda xs: safe(lambda: total(xs) / len(xs))(), "f")


@model("numpy.prod")
def n_prod(ip, v, axis=None, keepdims=False, dtype=None):
    def f(xs):
        r = 1
        for x in xs:
            r = r * x if isinstance(r, int) and isinstance(x, int) \
                else mul(r, x)
        return r
    return reduce_(ip, v, axis, keepdims, f)


def var_list(xs, ddof=0):
    n = len(xs)
    m = total(xs) / n
    return total([(P(x) - m) * (P(x) - m) for x in xs]) / (n - ddof)


@model("numpy.var")
def n_var(ip, v, axis=None, ddof=0, keepdims=False):
    return reduce_(ip, v, axis, keepdims, lambda xs: var_list(xs, ddof), "f")


@model("numpy.std")
def n_std(ip, v, axis=None, ddof=0, keepdims=False):
    return reduce_(ip, v, axis, keepdims,
                   lambda xs: T.sqrt_(var_list(xs, ddof)), "f")


def ext_list(which):
    def f(xs):
        if all(isinstance(x, (int, np.integer)) for x in xs):
            return min(xs) if which == "min" else max(xs)
        return (T.min_ if which == "min" else T.max_)(*[P(x) for x in xs])
    return f


@model("numpy.max", "numpy.amax", "numpy.nanmax")
def n_max(ip, v, axis=None, keepdims=False, initial=None):
    if as_arr(ip, v).a.size == 0:
        ip.throw("ValueError", "zero-size array to reduction operation")
    return reduce_(ip, v, axis, keepdims, ext_list("max"))


@model("numpy.min", "numpy.amin", "numpy.nanmin")
def n_min(ip, v, axis=None, keepdims=False, initial=None):
    if as_arr(ip, v).a.size == 0:
        ip.throw("ValueError", "zero-size array to reduction operation")
    return reduce_(ip, v, axis, keepdims, ext_list("min"))


@model("numpy.ptp")
def n_ptp(ip, v, axis=None):
    return binop(ip, "Sub", n_max(ip, v, axis), n_min(ip, v, axis))


@model("numpy.any")
def n_any(ip, v, axis=None, keepdims=False):
    def f(xs):
        r = False
        for x in xs:
            r = T.or_(r, ip.truth(x))
        return r
    return reduce_(ip, v, axis, keepdims, f, "b")


@model("numpy.all")
def n_all(ip, v, axis=None, keepdims=False):
    def f(xs):
        r = True
        for x in xs:
            r = T.and_(r, ip.truth(x))
        return r
    return reduce_(ip, v, axis, keepdims, f, "b")


def arg_extreme(ip, v, which):
    xs = list(as_arr(ip, v).a.reshape(-1))
    best, cur = 0, xs[0]
    for i, x in enumerate(xs[1:], 1):
        c = ip.compare_lt(x, cur) if which == "min" else ip.compare_lt(cur, x)
        best = i if c is True else best if c is False else Phi(c, i, best)
        cur = ip.join(c, P(x), P(cur)) if not isinstance(c, bool) else (
            x if c else cur)
    return best


def _arg_axis(ip, v, axis, which):
    b = np.moveaxis(as_arr(ip, v).a, axis, -1)
    o = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = arg_extreme(ip, Arr(b[i], "f"), which)
        if not isinstance(o[i], int):
            ip.fail("arg%s along an axis is not decided" % which)
    return Arr(o, "i")


@model("numpy.argmin")
def n_argmin(ip, v, axis=None):
    if axis is not None and as_arr(ip, v).a.ndim > 1:
        return _arg_axis(ip, v, axis, "min")
    return arg_extreme(ip, v, "min")


@model("numpy.argmax")
def n_argmax(ip, v, axis=None):
    if axis is not None and as_arr(ip, v).a.ndim > 1:
        return _arg_axis(ip, v, axis, "max")
    return arg_extreme(ip, v, "max")


@model("numpy.argsort")
def n_argsort(ip, v, axis=-1):
    v = as_arr(ip, v)
    ks = [frac_const(x) for x in v.a.reshape(-1)]
    if None in ks or v.a.ndim != 1:
        ip.fail("argsort")
    return int_arr(np.array(sorted(range(len(ks)), key=ks.__getitem__)))


@model("numpy.sort")
def n_sort(ip, v, axis=-1):
    v = as_arr(ip, v)
    ks = [frac_const(x) for x in v.a.reshape(-1)]
    if None in ks or v.a.ndim != 1:
        ip.fail("sort")
    order = sorted(range(len(ks)), key=ks.__getitem__)
    return Arr(v.a[order], v.dt)


@model("numpy.searchsorted", "bisect.bisect_left", "bisect.bisect_right",
       "bisect.bisect", "numpy.digitize")
def n_searchsorted(ip, a, x, side="left"):
    vals = list(as_arr(ip, a).a)
    if not is_num(x):
        ip.fail("searchsorted")
    n = 0
    for v in vals:
        c = ip.compare_lt(v, x) if side == "left" else T.not_(
            ip.compare_lt(x, v))
        if c is True:
            n += 1
        elif c is not False:
            ip.fail("searchsorted is not decided")
    return n


@model("numpy.cumsum")
def n_cumsum(ip, v, axis=None):
    v = as_arr(ip, v)
    a = v.a.reshape(-1) if axis is None else v.a
    axis = 0 if axis is None else axis
    b = np.moveaxis(a, axis, 0)
    o = np.empty(b.shape, dtype=object)
    for k in range(b.shape[0]):
        o[k] = b[k] if k == 0 else (
            emap(lambda x, y: add(x, y) if v.dt == "f" else x + y,
                 o[k - 1], b[k]) if b.ndim > 1 else
            (add(o[k - 1], b[k]) if v.dt == "f" else o[k - 1] + b[k]))
    return Arr(np.moveaxis(o, 0, axis), v.dt)


@model("numpy.diff")
def n_diff(ip, v, n=1, axis=-1):
    v = as_arr(ip, v)
    for _ in range(n):
        b = np.moveaxis(v.a, axis, 0)
        r = emap(lambda x, y: P(x) - P(y) if v.dt == "f" else x - y,
                 b[1:], b[:-1])
        v = Arr(np.moveaxis(r, 0, axis), v.dt)
    return v


@model("numpy.gradient")
def n_gradient(ip, f, *spacing, axis=None, edge_order=1):
    f = as_arr(ip, f)
    if axis is None:
        axes = list(range(f.a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = list(axis)
    else:
        axes = [axis]
    if len(spacing) == 0:
        sp = [1] * len(axes)
    elif len(spacing) == 1:
        sp = list(spacing) * len(axes)
    else:
        sp = list(spacing)
    if len(sp) != len(axes):
        ip.throw("TypeError", "invalid number of arguments")
    res = []
    for ax, h in zip(axes, sp):
        b = np.moveaxis(f.a, ax, 0)
        n = b.shape[0]
        if n < edge_order + 1:
            ip.throw("ValueError", "Shape of array too small")
        o = np.empty(b.shape, dtype=object)
        ha = as_arr(ip, h)
        if ha.a.ndim:
            if ha.a.shape != (n,):
                ip.throw("ValueError", "when 1d, distances must match the "
                         "length of the corresponding dimension")
            d = [P(ha.a[i + 1]) - P(ha.a[i]) for i in range(n - 1)]
        else:
            d = [P(ha.a[()])] * (n - 1)
        if edge_order not in (1, 2):
            ip.throw("ValueError", "'edge_order' greater than 2 not supported")

        def lin(terms):
            # sum of coefficient * b[k]
            def one(*xs):
                return safe(lambda: total(
                    [c * P(x) for (c, _), x in zip(terms, xs)]))()
            rows = [b[k] for _, k in terms]
            if b.ndim == 1:
                return one(*rows)
            return emap(one, *rows)
        for i in range(n):
            if i in (0, n - 1) and edge_order == 2:
                # parabola through the three outermost samples
                h1, h2 = (d[0], d[1]) if i == 0 else (d[-1], d[-2])
                k = [0, 1, 2] if i == 0 else [n - 1, n - 2, n - 3]
                f_ = 1 if i == 0 else -1
                o[i] = lin([(-f_ * (h1 * 2 + h2) / (h1 * (h1 + h2)), k[0]),
                            (f_ * (h1 + h2) / (h1 * h2), k[1]),
                            (-f_ * h1 / (h2 * (h1 + h2)), k[2])])
            elif i == 0:
                o[0] = lin([(1 / d[0], 1), (-1 / d[0], 0)])
            elif i == n - 1:
                o[i] = lin([(1 / d[-1], n - 1), (-1 / d[-1], n - 2)])
            else:
                h1, h2 = d[i - 1], d[i]
                if h1 == h2:
                    o[i] = lin([(1 / (h1 * 2), i + 1),
                                (-1 / (h1 * 2), i - 1)])
                else:
                    den = h1 * h2 * (h1 + h2)
                    o[i] = lin([(h1 * h1 / den, i + 1),
                                ((h2 * h2 - h1 * h1) / den, i),
                                (-(h2 * h2) / den, i - 1)])
        res.append(Arr(np.moveaxis(o, 0, ax), "f"))
    return res[0] if len(res) == 1 else res


@model("numpy.interp")
def n_interp(ip, x, xp, fp, left=None, right=None):
    xp, fp = as_arr(ip, xp), as_arr(ip, fp)
    kx = tuple(P(v) for v in xp.a)
    ky = tuple(P(v) for v in fp.a)
    if is_num(x):
        return npoly(T.fn("interp", P(x), kx, ky))
    return out(emap(lambda v: T.fn("interp", P(v), kx, ky),
                    as_arr(ip, x).a), "f")


# ------------------------------------------------------------ linear algebra
def dot_list(xs, ys):
    acc = []
    for x, y in zip(xs, ys):
        p, q = P(x), P(y)
        if p.t and q.t:
            try:
                acc.append(p * q)
            except TooLarge:
                return T.opaque("dot product")
    return total(acc)


def dot(ip, a, b):
    if isinstance(a, Phi):
        return ip.lift(lambda x: dot(ip, x, b), a)
    if isinstance(b, Phi):
        return ip.lift(lambda x: dot(ip, a, x), b)
    if isinstance(a, Unk) or isinstance(b, Unk):
        return unk_op(ip, a, b)
    a, b = as_arr(ip, a), as_arr(ip, b)
    x, y = a.a, b.a
    if x.ndim == 0 or y.ndim == 0:
        return arr_op(ip, "Mult", a, b)
    k = x.shape[-1]
    kb = y.shape[-2] if y.ndim > 1 else y.shape[0]
    if k != kb:
        ip.throw("ValueError", "shapes %s and %s not aligned" % (
            x.shape, y.shape))
    dt = promote(a.dt, b.dt)
    yt = np.moveaxis(y, -2, -1) if y.ndim > 1 else y
    f = dot_list if dt == "f" else (
        lambda p, q: sum(int(u) * int(v) for u, v in zip(p, q)))
    shape = x.shape[:-1] + (yt.shape[:-1] if y.ndim > 1 else ())
    o = np.empty(shape, dtype=object)
    nx = x.ndim - 1
    for i in np.ndindex(*shape):
        o[i] = f(x[i[:nx]], yt[i[nx:]] if y.ndim > 1 else y)
    return out(o, dt)


@model("numpy.dot")
def n_dot(ip, a, b, out=None):
    r = dot(ip, a, b)
    if isinstance(out, Arr):
        store(ip, out, Ellipsis, r)
        return out
    return r


@model("numpy.inner")
def n_inner(ip, a, b):
    a, b = as_arr(ip, a), as_arr(ip, b)
    if a.a.ndim == 1 and b.a.ndim == 1:
        return dot(ip, a, b)
    if a.a.ndim == 0 or b.a.ndim == 0:
        return ip.binop("Mult", a, b)
    return n_tensordot(ip, a, b, (-1, -1))


@model("numpy.vdot")
def n_vdot(ip, a, b):
    a, b = as_arr(ip, a), as_arr(ip, b)
    return dot(ip, Arr(a.a.reshape(-1), a.dt), Arr(b.a.reshape(-1), b.dt))


@model("numpy.matmul")
def matmul(ip, a, b):
    if isinstance(a, Unk) or isinstance(b, Unk):
        return unk_op(ip, a, b)
    a, b = as_arr(ip, a), as_arr(ip, b)
    if a.a.ndim <= 2 and b.a.ndim <= 2:
        if a.a.ndim == 0 or b.a.ndim == 0:
            ip.throw("ValueError", "matmul: scalar operand")
        return dot(ip, a, b)
    x, y = a.a, b.a
    vec_b = y.ndim == 1
    if vec_b:
        y = y[:, None]
    vec_a = x.ndim == 1
    if vec_a:
        x = x[None, :]
    shape = np.broadcast_shapes(x.shape[:-2], y.shape[:-2])
    xb = np.broadcast_to(x, shape + x.shape[-2:])
    yb = np.broadcast_to(y, shape + y.shape[-2:])
    o = np.empty(shape + (x.shape[-2], y.shape[-1]), dtype=object)
    for i in np.ndindex(*shape):
        r = dot(ip, Arr(xb[i], "f"), Arr(yb[i], "f"))
        o[i] = r.a
    if vec_b:
        o = o[..., 0]
    if vec_a:
        o = o[..., 0, :] if not vec_b else o[..., 0]
    return out(o, "f")


@model("numpy.outer")
def n_outer(ip, a, b):
    a, b = as_arr(ip, a), as_arr(ip, b)
    return out(emap(mul, a.a.reshape(-1)[:, None], b.a.reshape(-1)[None]),
               promote(a.dt, b.dt))


@model("numpy.kron")
def n_kron(ip, a, b):
    a, b = as_arr(ip, a), as_arr(ip, b)
    x, y = np.atleast_2d(a.a), np.atleast_2d(b.a)
    o = np.empty((x.shape[0] * y.shape[0], x.shape[1] * y.shape[1]),
                 dtype=object)
    for i, j in np.ndindex(*x.shape):
        o[i * y.shape[0]:(i + 1) * y.shape[0],
          j * y.shape[1]:(j + 1) * y.shape[1]] = emap(
              lambda v: mul(x[i, j], v), y)
    return Arr(o, "f")


@model("numpy.cross")
def n_cross(ip, a, b, axis=-1):
    a, b = as_arr(ip, a).a, as_arr(ip, b).a
    if axis not in (-1, a.ndim - 1) and a.ndim > 1:
        ip.fail("cross product along another axis")
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        a, b = np.broadcast_arrays(a, b)
        o = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(*o.shape):
            x, y = [P(v) for v in a[i]], [P(v) for v in b[i]]
            o[i] = x[0] * y[1] - x[1] * y[0]
        return out(o, "f")
    if a.shape[-1] == 2 or b.shape[-1] == 2:
        a, b = (x if x.shape[-1] == 3 else np.concatenate(
            [x, np.full(x.shape[:-1] + (1,), T.ZERO, dtype=object)], -1)
            for x in (a, b))
    a, b = np.broadcast_arrays(a, b)
    o = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        x, y = [P(v) for v in a[i]], [P(v) for v in b[i]]
        o[i + (0,)] = x[1] * y[2] - x[2] * y[1]
        o[i + (1,)] = x[2] * y[0] - x[0] * y[2]
        o[i + (2,)] = x[0] * y[1] - x[1] * y[0]
    return Arr(o, "f")


@model("numpy.einsum")
def n_einsum(ip, spec, *ops, optimize=False):
    arrs = [as_arr(ip, o).a for o in ops]
    spec = spec.replace(" ", "")
    if "..." in spec:
        parts = spec.split("->")[0].split(",")
        n = max(a.ndim - len(s.replace("...", "")) for s, a in zip(
            parts, arrs) if "..." in s)
        free = [c for c in "ZYXWVUTSRQPO" if c not in spec][:n]
        full_ = []
        for s, a in zip(parts, arrs):
            k = a.ndim - len(s.replace("...", ""))
            full_.append(s.replace("...", "".join(free[n - k:])))
        if "->" in spec:
            tail = spec.split("->")[1].replace("...", "".join(free))
        else:
            letters = [c for c in "".join(parts) if c not in ".,"]
            tail = "".join(free) + "".join(sorted(
                c for c in set(letters) if letters.count(c) == 1))
        spec = ",".join(full_) + "->" + tail
    if "->" in spec:
        ins, res = spec.split("->")
    else:
        ins = spec
        letters = [c for c in ins if c != ","]
        res = "".join(sorted(c for c in set(letters)
                             if letters.count(c) == 1))
    ins = ins.split(",")
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            ip.throw("ValueError", "einsum operand")
        for c, n in zip(s, a.shape):
            if dims.setdefault(c, n) != n:
                if 1 not in (dims[c], n):
                    ip.throw("ValueError", "einsum dimension mismatch")
                dims[c] = max(dims[c], n)
    summed = [c for c in dims if c not in res]
    o = np.empty(tuple(dims[c] for c in res), dtype=object)
    for i in np.ndindex(*o.shape):
        env = dict(zip(res, i))
        acc = []
        for j in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, j))
            t = T.ONE
            for s, a in zip(ins, arrs):
                t = mul(t, a[tuple(env[c] if a.shape[k] > 1 else 0
                                   for k, c in enumerate(s))])
            acc.append(t)
        o[i] = total(acc)
    return out(o, "f")


@model("numpy.trace")
def n_trace(ip, a, offset=0):
    return scalar(total(list(np.diagonal(as_arr(ip, a).a, offset))), "f")


@model("numpy.linalg.norm", "scipy.linalg.norm")
def n_norm(ip, v, ord=None, axis=None, keepdims=False):
    v = as_arr(ip, v)
    if ord not in (None, 2, "fro"):
        k = frac_const(ord)
        if k == 1 and v.a.ndim == 1:
            return scalar(total([T.abs_(P(x)) for x in v.a]), "f")
        largest = k is None and str(ord) in ("inf", "Infinity") or (
            is_num(ord) and P(ord) == T.float_const(math.inf))
        if k == 1 and axis is not None and not isinstance(axis, tuple):
            return reduce_(ip, v, axis, keepdims, lambda xs: total(
                [T.abs_(P(x)) for x in xs]), "f")
        if largest and (v.a.ndim == 1 or isinstance(axis, int)):
            return reduce_(ip, v, axis, keepdims, lambda xs: T.max_(
                *[T.abs_(P(x)) for x in xs]) if len(xs) > 1 else T.abs_(
                P(xs[0])), "f")
        ip.fail("matrix norm")
    if ord == 2 and v.a.ndim > 1 and axis is None:
        ip.fail("spectral norm")

    def f(xs):
        return safe(lambda: T.sqrt_(total([P(x) * P(x) for x in xs])))()
    return reduce_(ip, v, axis, keepdims, f, "f")


def mat_atoms(name, a):
    """Entries of a matrix function as uninterpreted terms.

    inverse and pseudo-inverse commute with transposition; of a matrix and
    its transpose the one with the smaller key represents both.
    """
    n, m = a.shape
    flat = tuple(P(x) for x in a.reshape(-1))
    flat_t = tuple(P(x) for x in a.T.reshape(-1))
    o = np.empty((m, n), dtype=object)
    flip = False
    if name in ("inv", "pinv") and flat != flat_t:
        for x, y in zip(flat, flat_t):
            if x != y:
                flip = T.poly_key(y) < T.poly_key(x)
                break
    if flip:
        flat, n_, m_ = flat_t, m, n
    else:
        n_, m_ = n, m
    for i in range(m):
        for j in range(n):
            k, l = (j, i) if flip else (i, j)
            o[i, j] = Poly.atom(T.Atom(
                "fn", name, (flat, (n_, m_), k, l)))
    if flat == flat_t and n == m:
        for i in range(n):
            for j in range(i):
                o[i, j] = o[j, i]
    return o


def inverse(a):
    n = a.shape[0]
    a = emap(P, a)
    if n == 1:
        o = np.empty((1, 1), dtype=object)
        o[0, 0] = 1 / a[0, 0]
        return o
    off = [a[i, j] for i in range(n) for j in range(n) if i != j]
    if not any(x.t for x in off):
        o = np.empty((n, n), dtype=object)
        o[...] = T.ZERO
        for i in range(n):
            o[i, i] = 1 / a[i, i]
        return o
    o = rigid_inverse(a)
    if o is not None:
        return o
    if n <= 8:
        o = eliminate(a)
        if o is not None:
            return o
    return mat_atoms("inv", a)


def rigid_inverse(a):
    """Inverse of rotations and rigid transformations, None for others."""
    n = a.shape[0]
    if n not in (2, 3, 4) or sum(len(x.t) for x in a.reshape(-1)) > 400:
        return None
    k = 3 if n == 4 else n
    R = a[:k, :k]
    if n == 4 and any(not T.equal(a[3, j], P(int(j == 3)))
                      for j in range(4)):
        return None
    if not any(at.kind in ("sin", "cos", "uq", "qexp", "qmat")
               for x in R.reshape(-1) for at in x.atoms(False)):
        return None
    try:
        for i in range(k):
            for j in range(i + 1):
                if not T.equal(dot_list(R[i], R[j]), P(int(i == j))):
                    return None
    except TooLarge:
        return None
    o = np.empty((n, n), dtype=object)
    o[...] = T.ZERO
    o[:k, :k] = R.T
    if n == 4:
        for i in range(3):
            o[i, 3] = -dot_list(R[:, i], a[:3, 3])
        o[3, 3] = T.ONE
    return o


def eliminate(a):
    """Inverse by elimination as long as there are pivots that are constants
    or single monomials; None otherwise."""
    n = a.shape[0]
    m = np.empty((n, 2 * n), dtype=object)
    m[:, :n] = a
    m[:, n:] = T.ZERO
    for i in range(n):
        m[i, n + i] = T.ONE
    size = sum(len(x.t) for x in a.reshape(-1))
    for c in range(n):
        best = None
        for r in range(c, n):
            x = m[r, c]
            if len(x.t) != 1:
                continue
            if x.is_const():
                best = r
                break
            if best is None:
                best = r
        if best is None:
            return None
        if best != c:
            m[[c, best]] = m[[best, c]]
        piv = 1 / m[c, c]
        for j in range(2 * n):
            if m[c, j].t:
                m[c, j] = m[c, j] * piv
        for r in range(n):
            if r != c and m[r, c].t:
                f = m[r, c]
                for j in range(2 * n):
                    if m[c, j].t:
                        m[r, j] = m[r, j] - f * m[c, j]
        if sum(len(x.t) for x in m.reshape(-1)) > 4 * size + 200:
            return None
    return m[:, n:].copy()


@model("numpy.linalg.inv", "scipy.linalg.inv")
def n_inv(ip, a):
    a = as_arr(ip, a)
    if a.a.ndim != 2 or a.a.shape[0] != a.a.shape[1]:
        if a.a.ndim > 2:
            ip.fail("stacked inverse")
        ip.throw("LinAlgError", "Last 2 dimensions must be square")
    if a.a.shape[0] == 1 and not P(a.a[0, 0]).t:
        ip.throw("LinAlgError", "Singular matrix")
    return Arr(inverse(a.a), "f")


@model("numpy.linalg.pinv", "scipy.linalg.pinv")
def n_pinv(ip, a, rcond=None):
    a = as_arr(ip, a)
    if a.a.shape == (1, 1):
        return Arr(inverse(a.a), "f")
    x = emap(P, a.a)
    n, m = x.shape
    if n == m and not any(x[i, j].t for i in range(n) for j in range(n)
                          if i != j) and all(x[i, i].t for i in range(n)):
        return Arr(inverse(a.a), "f")
    return Arr(mat_atoms("pinv", x), "f")


@model("numpy.linalg.solve", "scipy.linalg.solve")
def n_solve(ip, a, b, **k):
    return dot(ip, n_inv(ip, a), b)


@model("numpy.linalg.lstsq", "scipy.linalg.lstsq")
def n_lstsq(ip, a, b, rcond=None):
    return (dot(ip, n_pinv(ip, a), b), Unk("residuals"), Unk("rank"),
            Unk("singular values"))


@model("numpy.linalg.det")
def n_det(ip, a):
    a = as_arr(ip, a).a
    n = a.shape[0]
    if n == 1:
        return scalar(P(a[0, 0]), "f")
    if n == 2:
        return scalar(P(a[0, 0]) * P(a[1, 1]) - P(a[0, 1]) * P(a[1, 0]), "f")
    if n == 3:
        t = T.ZERO
        for p, s in (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1),
                     ((0, 2, 1), -1), ((1, 0, 2), -1), ((2, 1, 0), -1)):
            t = t + P(a[0, p[0]]) * P(a[1, p[1]]) * P(a[2, p[2]]) * s
        return scalar(t, "f")
    return scalar(Poly.atom(T.Atom("fn", "det", (
        tuple(P(x) for x in a.reshape(-1)), (n, n), 0, 0))), "f")


@model("numpy.linalg.cholesky", "scipy.linalg.cholesky")
def n_cholesky(ip, a, lower=True):
    a = emap(P, as_arr(ip, a).a)
    n = a.shape[0]
    if n == 1:
        o = np.empty((1, 1), dtype=object)
        o[0, 0] = T.sqrt_(a[0, 0])
        return Arr(o, "f")
    return Arr(mat_atoms("cholesky", a), "f")


@model("numpy.linalg.matrix_rank")
def n_rank(ip, a):
    ip.fail("matrix rank")


@model("scipy.linalg.cho_factor")
def s_cho_factor(ip, a, lower=False, **k):
    u = Unk("cho_factor")
    u.d["inv"] = n_inv(ip, a)
    return u


@model("scipy.linalg.cho_solve")
def s_cho_solve(ip, c, b, **k):
    return dot(ip, c.d["inv"], b)


# ------------------------------------------------------------ array methods
def m_copy(ip, a, order="C"):
    return Arr(a.a.copy(), a.dt)


def m_reshape(ip, a, *shape, order="C"):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    s = tuple(ip.as_index(x) for x in shape)
    try:
        return Arr(a.a.reshape(s, order=order), a.dt)
    except ValueError as e:
        ip.throw("ValueError", str(e))


def m_ravel(ip, a, order="C"):
    return Arr(a.a.ravel(order), a.dt)


def m_flatten(ip, a, order="C"):
    return Arr(a.a.flatten(order), a.dt)


def m_astype(ip, a, dtype, copy=True):
    dt = dtype_of(ip, dtype)
    if isinstance(dt, Short):
        return shorten(dt, a)
    if dt == a.dt:
        return Arr(a.a.copy(), a.dt) if copy is not False else a
    return astype(a, dt)


def m_tolist(ip, a):
    def conv(x):
        if isinstance(x, np.ndarray):
            r = [conv(y) for y in x]
            ip.born(r)
            return r
        return plain(x) if isinstance(x, Poly) else x
    return conv(a.a) if a.a.ndim else conv(a.a[()])


def m_transpose(ip, a, *axes):
    if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
        axes = tuple(axes[0])
    return Arr(a.a.transpose(axes) if axes else a.a.T, a.dt)


def m_fill(ip, a, v):
    store(ip, a, Ellipsis, v)


def m_item(ip, a, *i):
    if not i:
        if a.a.size != 1:
            ip.throw("ValueError", "can only convert an array of size 1")
        v = a.a.reshape(-1)[0]
    else:
        v = a.a[tuple(i)] if len(i) > 1 else a.a.reshape(-1)[i[0]]
    return plain(v) if isinstance(v, Poly) else v


def m_nonzero(ip, a):
    return n_where(ip, a)


ARRAY_METHODS = {
    "copy": m_copy, "reshape": m_reshape, "ravel": m_ravel,
    "flatten": m_flatten, "astype": m_astype, "tolist": m_tolist,
    "transpose": m_transpose, "fill": m_fill, "item": m_item,
    "dot": lambda ip, a, b, out=None: n_dot(ip, a, b, out),
    "sum": n_sum, "mean": n_mean, "prod": n_prod, "max": n_max, "min": n_min,
    "any": n_any, "all": n_all, "argmin": n_argmin, "argmax": n_argmax,
    "var": n_var, "std": n_std, "cumsum": n_cumsum,
    "squeeze": n_squeeze, "trace": n_trace, "diagonal": n_diag,
    "clip": n_clip, "round": n_round, "repeat": n_repeat,
    "swapaxes": n_swapaxes, "nonzero": m_nonzero,
    "__len__": lambda ip, a: b_len(ip, a),
    "__getitem__": lambda ip, a, i: load_item(ip, a, i),
    "view": lambda ip, a, *k: Arr(a.a.view(), a.dt),
    "conj": lambda ip, a: a,
    "ptp": n_ptp,
    "__array__": lambda ip, a, *k: a,
    "tobytes": lambda ip, a: Unk("bytes"),
    "setflags": lambda ip, a, *k, **kw: None,
    "searchsorted": n_searchsorted, "argsort": n_argsort,
}


# ------------------------------------------------------------ random numbers
class Rng:
    def __init__(self, ip, name):
        self.name = name
        self.d = {"n": 0}
        self.ip = ip

    def __repr__(self):
        return "<random state %s>" % self.name


def global_rng(ip):
    g = getattr(ip, "_global_rng", None)
    if g is None:
        g = ip._global_rng = Rng(ip, "np.random")
    return g


def draw(ip, rng, kind, shape, sign=None):
    """Numbers are named by their position in the stream of the state."""
    ip.touch(rng.d)
    ip.event("random", rng.name, (kind, shape))

    def one():
        k = rng.d["n"]
        rng.d["n"] = k + 1
        return T.sym("%s(%s,%d)" % (kind, rng.name, k), sign)
    if shape is None or shape == ():
        return one()
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*a.shape):
        a[i] = one()
    return Arr(a, "f")


def rng_method(ip, rng, name):
    def size(s):
        return None if s is None else shape_arg(ip, s)

    def rand(ip_, a, k):
        return draw(ip_, rng, "U", tuple(ip_.as_index(x) for x in a)
                    if a else None, "0+")

    def random(ip_, a, k):
        return draw(ip_, rng, "U", size(a[0] if a else k.get("size")), "0+")

    def randn(ip_, a, k):
        return draw(ip_, rng, "N", tuple(ip_.as_index(x) for x in a)
                    if a else None)

    def standard_normal(ip_, a, k):
        return draw(ip_, rng, "N", size(a[0] if a else k.get("size")))

    def uniform(ip_, a, k):
        lo = a[0] if a else k.get("low", 0)
        hi = a[1] if len(a) > 1 else k.get("high", 1)
        s = size(a[2] if len(a) > 2 else k.get("size"))
        if s is None and (isinstance(lo, Arr) or isinstance(hi, Arr)):
            s = np.broadcast_shapes(as_arr(ip_, lo).shape,
                                    as_arr(ip_, hi).shape)
        u = draw(ip_, rng, "U", s, "0+")
        return binop(ip_, "Add", lo, binop(
            ip_, "Mult", u, binop(ip_, "Sub", hi, lo)))

    def normal(ip_, a, k):
        loc = a[0] if a else k.get("loc", 0)
        sc = a[1] if len(a) > 1 else k.get("scale", 1)
        s = size(a[2] if len(a) > 2 else k.get("size"))
        if s is None and (isinstance(loc, Arr) or isinstance(sc, Arr)):
            s = np.broadcast_shapes(as_arr(ip_, loc).shape,
                                    as_arr(ip_, sc).shape)
        n = draw(ip_, rng, "N", s)
        return binop(ip_, "Add", loc, binop(ip_, "Mult", sc, n))

    def mvn(ip_, a, k):
        mean = as_arr(ip_, a[0] if a else k["mean"])
        cov = as_arr(ip_, a[1] if len(a) > 1 else k["cov"])
        s = size(a[2] if len(a) > 2 else k.get("size")) or ()
        ip_.touch(rng.d)
        n = rng.d["n"]
        rng.d["n"] = n + 1
        ip_.event("random", rng.name, ("mvn", s))
        flat = tuple(P(x) for x in cov.a.reshape(-1))
        o = np.empty(s + mean.shape, dtype=object)
        for i in np.ndindex(*o.shape):
            o[i] = P(mean.a[i[-1]]) + T.fn(
                "mvn", flat, rng.name, str(n), str(i))
        return Arr(o, "f")

    def choice(ip_, a, k):
        ip_.fail("random choice")
    table = dict(rand=rand, random=random, random_sample=random, randn=randn,
                 standard_normal=standard_normal, uniform=uniform,
                 normal=normal, multivariate_normal=mvn)
    if name == "seed":
        def seed(ip_, a, k):
            ip_.event("seed", rng.name, a, k)
        return Native(seed)
    if name in table:
        return Native(table[name], "rng." + name)
    if name == "choice":
        return Native(choice)

    def other(ip_, a, k):
        ip_.fail("random method " + name)
    return Native(other)


@model("numpy.random.RandomState", "numpy.random.default_rng",
       "numpy.random.mtrand.RandomState")
def n_randomstate(ip, seed=None):
    if seed is None:
        r = Rng(ip, "unseeded#%d" % next(ip.counter))
        ip.event("unseeded", r.name)
        return r
    if isinstance(seed, Rng):
        return seed
    return Rng(ip, "RandomState(%s)" % (seed,))


# ------------------------------------------------------------ rotations
def quat(ip, v):
    a = as_arr(ip, v)
    if a.shape != (4,):
        ip.throw("ValueError", "Expected quaternion with shape (4,)")
    return [P(x) for x in a.a]


def vec(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = P(x)
    return Arr(a, "f")


def budget(f, n):
    try:
        return f()
    except TooLarge:
        return [T.opaque("rotation") for _ in range(n)]


@model("pytransform3d.rotations.concatenate_quaternions")
def r_qmul(ip, a, b):
    a, b = quat(ip, a), quat(ip, b)
    return vec(budget(lambda: T.qmul_(a, b), 4))


@model("pytransform3d.rotations.q_conj")
def r_qconj(ip, q):
    return vec(T.qconj_(unit(quat(ip, q))))


def unit(q):
    try:
        n = total([x * x for x in q])
        if n == T.ONE:
            return q
        if T.is_zero(n - T.ONE):
            return q
        s = T.power(n, Fraction(-1, 2))
        return [x * s for x in q]
    except TooLarge:
        return [T.opaque("rotation") for _ in q]


@model("pytransform3d.rotations.check_quaternion")
def r_check(ip, q, unit_=True):
    return vec(unit(quat(ip, q)))


@model("pytransform3d.rotations.norm_vector")
def r_norm_vector(ip, v):
    a = as_arr(ip, v)
    n = n_norm(ip, a)
    if not n.t:
        return Arr(a.a.copy(), a.dt)
    return binop(ip, "Div", a, n)


@model("pytransform3d.rotations.compact_axis_angle_from_quaternion")
def r_log(ip, q):
    q = quat(ip, q)
    return vec(budget(lambda: T.qlog_(q), 3))


@model("pytransform3d.rotations.quaternion_from_compact_axis_angle")
def r_exp(ip, v):
    v = [P(x) for x in as_arr(ip, v).a]
    return vec(budget(lambda: T.qexp_(v), 4))


def qmat(q):
    w, x, y, z = q
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w),
             2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z),
             2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w),
             1 - 2 * (x * x + y * y)]]


def mat(rows):
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = P(x)
    return Arr(a, "f")


@model("pytransform3d.rotations.matrix_from_quaternion")
def r_matrix(ip, q):
    q = unit(quat(ip, q))
    return mat(qmat(q))


@model("pytransform3d.rotations.matrix_from_compact_axis_angle")
def r_matrix_caa(ip, v):
    v = [P(x) for x in as_arr(ip, v).a]
    return mat(qmat(T.qexp_(v)))


@model("pytransform3d.batch_rotations.matrices_from_compact_axis_angles")
def r_matrices_caa(ip, A=None, axes=None, angles=None, out=None):
    if A is None:
        ip.fail("matrices_from_compact_axis_angles")
    a = as_arr(ip, A)
    o = np.empty(a.shape[:-1] + (3, 3), dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        o[i] = mat(qmat(T.qexp_([P(x) for x in a.a[i]]))).a
    return Arr(o, "f")


@model("pytransform3d.batch_rotations.norm_vectors")
def r_norm_vectors(ip, V, out=None):
    a = as_arr(ip, V)
    n = n_norm(ip, a, axis=-1, keepdims=True)
    # zero vectors are passed through unchanged
    r = binop(ip, "Div", a, n)
    if isinstance(out, Arr):
        store(ip, out, Ellipsis, r)
        return out
    return r


@model("pytransform3d.rotations.quaternion_gradient")
def r_gradient(ip, Q, dt=1.0, time_derivative=None, **k):
    Q = as_arr(ip, Q)
    n = Q.shape[0]
    dt = P(dt)
    o = np.empty((n, 3), dtype=object)

    def rel(a, b):
        # angular velocity that moves b to a
        q = T.qmul_(list(Q.a[a]), T.qconj_(unit([P(x) for x in Q.a[b]])))
        return T.qlog_(q)
    for i in range(n):
        if i == 0:
            v = [x / dt for x in rel(1, 0)]
        elif i == n - 1:
            v = [x / dt for x in rel(n - 1, n - 2)]
        else:
            a = rel(i + 1, i - 1)
            v = [x / (dt * 2) for x in a]
        for j in range(3):
            o[i, j] = v[j]
    return Arr(o, "f")


def is_transform(a):
    return (a.shape == (4, 4) and all(not P(a[3, j]).t for j in range(3))
            and P(a[3, 3]) == T.ONE)


@model("pytransform3d.transformations.check_transform")
def t_check(ip, A, strict_check=True):
    A = as_arr(ip, A)
    if A.shape != (4, 4):
        ip.throw("ValueError", "Expected homogeneous transformation matrix")
    return A


@model("pytransform3d.transformations.transform_from_pq")
def t_from_pq(ip, pq):
    a = as_arr(ip, pq)
    if a.shape != (7,):
        ip.throw("ValueError", "Expected position and orientation")
    R = qmat(unit([P(x) for x in a.a[3:]]))
    return mat([R[i] + [P(a.a[i])] for i in range(3)] + [[0, 0, 0, 1]])


@model("pytransform3d.transformations.transform_from")
def t_from(ip, R, p, strict_check=True):
    R, p = as_arr(ip, R).a, as_arr(ip, p).a
    return mat([[R[i, 0], R[i, 1], R[i, 2], p[i]] for i in range(3)]
               + [[0, 0, 0, 1]])


@model("pytransform3d.transformations.pq_from_transform")
def t_pq(ip, A, strict_check=True):
    A = as_arr(ip, A).a
    flat = tuple(P(A[i, j]) for i in range(3) for j in range(3))
    return vec([A[0, 3], A[1, 3], A[2, 3]] + [
        Poly.atom(T.Atom("qmat", "qmat", (flat, i))) for i in range(4)])


@model("pytransform3d.rotations.quaternion_from_matrix")
def r_quat_of(ip, R, strict_check=True):
    R = as_arr(ip, R).a
    flat = tuple(P(R[i, j]) for i in range(3) for j in range(3))
    return vec([Poly.atom(T.Atom("qmat", "qmat", (flat, i)))
                for i in range(4)])


@model("pytransform3d.transformations.invert_transform")
def t_invert(ip, A, strict_check=True, check=True):
    A = emap(P, as_arr(ip, A).a)
    R = A[:3, :3].T
    t = [-dot_list(R[i], A[:3, 3]) for i in range(3)]
    return mat([list(R[i]) + [t[i]] for i in range(3)] + [[0, 0, 0, 1]])


@model("pytransform3d.transformations.concat")
def t_concat(ip, A2B, B2C, strict_check=True, check=True):
    return dot(ip, B2C, A2B)


@model("pytransform3d.transformations.transform")
def t_transform(ip, A, PA, strict_check=True):
    A, x = as_arr(ip, A), as_arr(ip, PA)
    if x.a.ndim == 1:
        return dot(ip, A, x)
    return Arr(dot(ip, x, Arr(A.a.T, "f")).a, "f")


@model("pytransform3d.transformations.vector_to_point",
       "pytransform3d.transformations.vectors_to_points")
def t_point(ip, v):
    return t_pad(ip, v, T.ONE)


@model("pytransform3d.transformations.vector_to_direction",
       "pytransform3d.transformations.vectors_to_directions")
def t_direction(ip, v):
    return t_pad(ip, v, T.ZERO)


def t_pad(ip, v, x):
    a = as_arr(ip, v).a
    o = np.empty(a.shape[:-1] + (a.shape[-1] + 1,), dtype=object)
    o[..., :-1] = a
    o[..., -1] = x
    return Arr(o, "f")


# ------------------------------------------------------------ scipy
def linear_weights(x, t):
    """Interval of a known grid that contains a known time, and the position
    in it (outside: of the nearest interval)."""
    v = [P(e) for e in x]
    if len(v) < 2 or not all(e.is_const() for e in v + [t]):
        return None
    v = [e.const_value() for e in v]
    t = t.const_value()
    i = 0
    while i < len(v) - 2 and t > v[i + 1]:
        i += 1
    if v[i + 1] == v[i]:
        return None
    return i, (t - v[i]) / (v[i + 1] - v[i])


@model("scipy.interpolate.interp1d")
def s_interp1d(ip, x, y, kind="linear", axis=-1, fill_value=None,
               bounds_error=None, copy=True, **k):
    x, y = as_arr(ip, x), as_arr(ip, y)
    if copy is not False:
        x, y = Arr(x.a.copy(), x.dt), Arr(y.a.copy(), y.dt)
    rule = "%s|%s|%s" % (kind, to_str(ip, fill_value) if isinstance(
        fill_value, str) else "none", bounds_error)
    b = np.moveaxis(y.a, axis, 0)
    kx = tuple(P(v) for v in x.a)

    def call(ip_, a, kk):
        t = a[0]

        def at(tt):
            w = linear_weights(x.a, P(tt)) if kind == "linear" and to_str(
                ip, fill_value) == "extrapolate" else None
            if w is not None:
                i, u = w
                return (1 - u) * b[i] + u * b[i + 1]
            if b.ndim == 1:
                return T.fn("interp1d:" + rule, P(tt), kx,
                            tuple(P(v) for v in b))
            o = np.empty(b.shape[1:], dtype=object)
            for i in np.ndindex(*o.shape):
                o[i] = T.fn("interp1d:" + rule, P(tt), kx, tuple(
                    P(v) for v in b[(slice(None),) + i]))
            return o
        if is_num(t):
            r = at(t)
            return Arr(r, "f") if isinstance(r, np.ndarray) else npoly(r)
        ta = as_arr(ip_, t)
        rows = [at(v) for v in ta.a.reshape(-1)]
        o = np.empty((len(rows),) + (b.shape[1:]), dtype=object)
        for i, r in enumerate(rows):
            o[i] = r
        return Arr(o.reshape(ta.shape + b.shape[1:]), "f")
    return Native(call, "interp1d")


@model("scipy.optimize.minimize")
def s_minimize(ip, fun, x0, args=(), method=None, jac=None, hess=None,
               hessp=None, bounds=None, constraints=(), tol=None,
               callback=None, options=None):
    x0 = as_arr(ip, x0)
    k = sum(1 for e in ip.events if e["name"] == "scipy.optimize.minimize")
    hook = getattr(ip, "minimize_hook", None)
    if hook is not None:
        x, f = hook(ip, k, fun, x0, args)
    else:
        x = vec([T.sym("argmin#%d[%d]" % (k, i)) for i in range(x0.a.size)])
        f = npoly(T.sym("minimum#%d" % k, "0+"))
    res = {"x": x, "fun": f, "success": True}
    snapshot = Arr(bounds.a.copy(), bounds.dt) if isinstance(
        bounds, Arr) else bounds
    ip.event("call", "scipy.optimize.minimize",
             (fun, Arr(x0.a.copy(), "f"), args),
             dict(method=method, bounds=snapshot, options=options, tol=tol,
                  constraints=constraints, jac=jac), res)
    u = Result(res)
    return u


class Result(Unk):
    """scipy OptimizeResult."""
    __slots__ = ()

    def __init__(self, items):
        Unk.__init__(self, "OptimizeResult")
        self.d.update(items)
        for k, v in items.items():
            self.d[("item", k)] = v


# ------------------------------------------------------------ files
class File(Unk):
    __slots__ = ("path", "mode")

    def __init__(self, path, mode):
        Unk.__init__(self, "file %s" % (path,))
        self.path, self.mode = path, mode


@model("builtins.open")
def f_open(ip, path, mode="r", *a, **k):
    f = File(path, mode)
    ip.event("open", "open", (path, mode), k, f)
    if "r" in mode and "+" not in mode and isinstance(path, str) \
            and path not in ip.files and not getattr(
                ip, "any_file", False):
        ip.throw("FileNotFoundError", path)
    return f


def text(ip, v, fmt, where="value"):
    """What a value becomes on its way through a text format."""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, NPoly):
        if fmt == "yaml":
            return Tagged("numpy scalar")
        return plain(v)
    if isinstance(v, Poly):
        return v
    if isinstance(v, Cond):
        return v
    if isinstance(v, list):
        return [text(ip, x, fmt) for x in v]
    if isinstance(v, tuple):
        if fmt == "yaml":
            return Tagged("tuple")
        return [text(ip, x, fmt) for x in v]
    if isinstance(v, dict):
        r = {}
        for k, x in v.items():
            if fmt == "json" and not isinstance(k, str):
                if isinstance(k, (int, bool)) or k is None:
                    k = str(k)
                else:
                    ip.throw("TypeError", "keys must be str")
            r[k] = text(ip, x, fmt)
        return r
    if isinstance(v, Phi):
        return ip.lift(lambda x: text(ip, x, fmt), v)
    if fmt == "yaml":
        return Tagged(type(v).__name__)
    ip.throw("TypeError", "Object is not JSON serializable")


class Tagged:
    """A YAML node with a Python-specific tag."""
    def __init__(self, what):
        self.what = what


def find_tag(v):
    if isinstance(v, Tagged):
        return v
    if isinstance(v, list):
        for x in v:
            t = find_tag(x)
            if t:
                return t
    if isinstance(v, dict):
        for x in v.values():
            t = find_tag(x)
            if t:
                return t
    return None


def save(ip, f, fmt, payload):
    if not isinstance(f, File):
        ip.fail("output to an unknown stream")
    if not any(c in f.mode for c in "wax+"):
        ip.throw("OSError", "not writable")
    ip.event("write", fmt, (f.path, f.mode))
    ip.files[f.path] = (fmt, "b" in f.mode, payload)


def fetch(ip, f, fmt):
    if not isinstance(f, File):
        ip.fail("input from an unknown stream")
    if f.path not in ip.files:
        ip.throw("FileNotFoundError", f.path)
    k, binary, payload = ip.files[f.path]
    if k != fmt:
        ip.throw("ValueError", "file was written as %s, read as %s" % (
            k, fmt))
    return deepcopy(ip, payload, {})


class Text(Unk):
    """Contents of a file."""
    __slots__ = ("fmt", "payload")

    def __init__(self, fmt, payload):
        Unk.__init__(self, "text")
        self.fmt, self.payload = fmt, payload


def file_method(ip, f, name):
    if name == "write":
        def write(ip_, a, k):
            if not isinstance(a[0], Text):
                ip.fail("output of %s" % (a[0],))
            if f.path in ip.files and getattr(f, "d").get("written"):
                ip.fail("output in parts")
            if ("b" in f.mode) != (a[0].fmt == "pickle"):
                ip.throw("TypeError", "text and bytes")
            f.d["written"] = True
            save(ip, f, a[0].fmt, deepcopy(ip, a[0].payload, {}))
        return Native(write, "write")
    if name == "read":
        def read(ip_, a, k):
            if f.path not in ip.files:
                ip.throw("FileNotFoundError", f.path)
            fmt, _, payload = ip.files[f.path]
            return Text(fmt, deepcopy(ip, payload, {}))
        return Native(read, "read")
    if name in ("close", "flush"):
        return Native(lambda ip_, a, k: None, name)
    if name == "name":
        return f.path
    return MISSING


def untext(ip, t, fmt):
    if isinstance(t, File):
        return fetch(ip, t, fmt)
    if not isinstance(t, Text):
        ip.fail("unknown text")
    if t.fmt != fmt:
        ip.throw("ValueError", "text was written as %s, read as %s" % (
            t.fmt, fmt))
    return deepcopy(ip, t.payload, {})


@model("json.dumps")
def j_dumps(ip, v, **k):
    return Text("json", text(ip, v, "json"))


@model("json.loads")
def j_loads(ip, t, **k):
    return untext(ip, t, "json")


@model("pickle.dumps")
def p_dumps(ip, v, *a, **k):
    return Text("pickle", pickled(ip, v, {}))


@model("pickle.loads")
def p_loads(ip, t, **k):
    ip.event("load", "pickle.loads", (t,))
    return untext(ip, t, "pickle")


@model("json.dump")
def j_dump(ip, v, f, **k):
    if isinstance(f, File) and "b" in f.mode:
        ip.throw("TypeError", "a bytes-like object is required")
    save(ip, f, "json", text(ip, v, "json"))


@model("json.load")
def j_load(ip, f, **k):
    return fetch(ip, f, "json")


@model("yaml.dump", "yaml.safe_dump")
def y_dump(ip, v, f=None, **k):
    if f is None:
        return Text("yaml", text(ip, v, "yaml"))
    save(ip, f, "yaml", text(ip, v, "yaml"))


@model("yaml.safe_load")
def y_safe_load(ip, f):
    r = untext(ip, f, "yaml")
    t = find_tag(r)
    if t is not None:
        ip.throw("ConstructorError",
                 "could not determine a constructor for %s" % t.what)
    return r


@model("yaml.load")
def y_load(ip, f, Loader=None):
    safe_ = isinstance(Loader, Ext) and Loader.path.rpartition(".")[2] in (
        "SafeLoader", "CSafeLoader", "BaseLoader")
    ip.event("load", "yaml.load" if safe_ else "yaml.load:unsafe", (f,))
    if safe_:
        return y_safe_load(ip, f)
    return untext(ip, f, "yaml")


@model("pickle.dump")
def p_dump(ip, v, f, *a, **k):
    if isinstance(f, File) and "b" not in f.mode:
        ip.throw("TypeError", "write() argument must be str, not bytes")
    save(ip, f, "pickle", pickled(ip, v, {}))


@model("pickle.load")
def p_load(ip, f, **k):
    if isinstance(f, File) and "b" not in f.mode:
        ip.throw("TypeError", "a bytes-like object is required")
    ip.event("load", "pickle.load", (f,))
    return fetch(ip, f, "pickle")


@model("numpy.savetxt")
def n_savetxt(ip, path, a, fmt="%.18e", *r, **k):
    ip.event("write", "savetxt", (path,))
    m = re.fullmatch(r"%\.?(\d*)([efgEG])", fmt) if isinstance(fmt, str) \
        else None
    if m is None:
        ip.fail("format of numbers %s" % (fmt,))
    if m[2] == "f" or int(m[1] or 6) < (16 if m[2] in "eE" else 17):
        # numbers are rounded
        a = as_arr(ip, a)
        r = np.empty(a.a.shape, dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = T.fn("printed" + fmt, P(a.a[i]))
        a = Arr(r, "f")
    ip.files[path] = ("text", False, as_arr(ip, a))


@model("numpy.loadtxt")
def n_loadtxt(ip, path, **k):
    if path not in ip.files:
        ip.throw("FileNotFoundError", path)
    a = ip.files[path][2]
    r = np.squeeze(a.a.copy())
    return Arr(r, "f")


@model("os.path.exists", "os.path.isfile", "os.path.isdir")
def o_exists(ip, p):
    if p in ip.files:
        return True
    return getattr(ip, "file_exists", False)


@model("os.path.join")
def o_join(ip, *a):
    if all(isinstance(x, str) for x in a):
        return "/".join(a)
    return Unk("path")


@model("tqdm.tqdm", "tqdm.auto.tqdm")
def tq(ip, v, *a, **k):
    return v


# -- further array functions -------------------------------------------------------
@model("numpy.errstate", "numpy.seterr", "numpy.testing.suppress_warnings")
def n_errstate(ip, **kw):
    return Unk("errstate")


@model("numpy.copyto")
def n_copyto(ip, dst, src):
    store(ip, dst, Ellipsis, src)


@model("numpy.fill_diagonal")
def n_fill_diagonal(ip, a, v):
    for i in range(min(a.a.shape)):
        store(ip, a, (i, i), v)


@model("numpy.ix_")
def n_ix(ip, *xs):
    return tuple(int_arr(x) for x in np.ix_(*[_indices(ip, x) for x in xs]))


@model("numpy.fliplr")
def n_fliplr(ip, v):
    return shaped(ip, v, np.fliplr)


@model("numpy.rot90")
def n_rot90(ip, v, k=1, axes=(0, 1)):
    return shaped(ip, v, lambda a: np.rot90(a, k, tuple(axes)))


@model("numpy.rollaxis")
def n_rollaxis(ip, v, axis, start=0):
    return shaped(ip, v, lambda a: np.rollaxis(a, axis, start))


@model("numpy.diagflat")
def n_diagflat(ip, v, k=0):
    return n_diag(ip, shaped(ip, v, lambda a: a.reshape(-1)), k)


def _indices(ip, idx):
    if isinstance(idx, (list, tuple, Arr)):
        return [ip.as_index(x) for x in ip.iterate(idx)]
    return ip.as_index(idx)


@model("numpy.take")
def n_take(ip, v, idx, axis=None):
    idx = _indices(ip, idx)
    v = as_arr(ip, v)
    try:
        r = np.take(v.a, idx, axis)
    except IndexError as e:
        ip.throw("IndexError", str(e))
    return Arr(np.array(r, dtype=object), v.dt) if isinstance(
        r, np.ndarray) else r


@model("numpy.delete")
def n_delete(ip, v, idx, axis=None):
    idx = _indices(ip, idx)
    return shaped(ip, v, lambda a: np.delete(a, idx, axis))


def _splitter(name, axis):
    @model("numpy." + name)
    def f(ip, v, idx):
        v = as_arr(ip, v)
        return n_split(ip, v, idx, 0 if axis == 1 and v.a.ndim == 1 else axis)


for _n, _o in (("vsplit", 0), ("hsplit", 1), ("dsplit", 2)):
    _splitter(_n, _o)


@model("numpy.linalg.multi_dot")
def n_multi_dot(ip, seq):
    seq = list(ip.iterate(seq))
    r = seq[0]
    for x in seq[1:]:
        r = dot(ip, r, x)
    return r


@model("numpy.linalg.matrix_power")
def n_matrix_power(ip, m, n):
    n = ip.as_index(n)
    m = as_arr(ip, m)
    if n < 0:
        m, n = n_inv(ip, m), -n
    r = full(m.a.shape, T.ZERO)
    for i in range(len(r.a)):
        r.a[i, i] = T.ONE
    for _ in range(n):
        r = dot(ip, r, m)
    return r


@model("numpy.tri")
def n_tri(ip, n, m=None, k=0, dtype=None):
    n = ip.as_index(n)
    m = n if m is None else ip.as_index(m)
    return n_tril(ip, full((n, m), T.ONE), k)


def _index_function(name):
    @model("numpy." + name)
    def f(ip, *args):
        return tuple(int_arr(x) for x in getattr(np, name)(
            *[ip.as_index(a) for a in args]))


for _n in ("triu_indices", "tril_indices", "diag_indices"):
    _index_function(_n)


@model("numpy.ndindex")
def n_ndindex(ip, *shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    return list(np.ndindex(*[ip.as_index(x) for x in shape]))


@model("numpy.ndenumerate")
def n_ndenumerate(ip, v):
    v = as_arr(ip, v)
    return [(i, v.a[i]) for i in np.ndindex(*v.a.shape)]


@model("numpy.tensordot")
def n_tensordot(ip, a, b, axes=2):
    a, b = as_arr(ip, a), as_arr(ip, b)
    if not isinstance(axes, int):
        axes = tuple([ip.as_index(x) for x in ip.iterate(e)] if isinstance(
            e, (list, tuple)) else ip.as_index(e) for e in axes)
    return Arr(np.asarray(np.tensordot(emap(P, a.a), emap(P, b.a), axes),
                          dtype=object), "f")


elementwise(["numpy.log2"], lambda x: T.log_(x) / T.log_(P(2)))
elementwise(["numpy.log10"], lambda x: T.log_(x) / T.log_(P(10)))
elementwise(["numpy.sinh"], lambda x: (T.exp_(x) - T.exp_(-x)) / 2)
elementwise(["numpy.cosh"], lambda x: (T.exp_(x) + T.exp_(-x)) / 2)


@model("numpy.polyval")
def n_polyval(ip, p, x):
    r = T.ZERO
    for k in ip.iterate(p):
        r = ip.binop("Add", ip.binop("Mult", r, x), k)
    return r
