"""Documented default values of optional parameters."""
import ast
import re

from fractions import Fraction as F

from .. import spec
from .. import terms as T
from ..interp import Interp
from ..kit import arr, cp, meth, sy
from ..program import PACKAGE
from ..terms import P
from ..values import Arr, Cls, Func, Ext, InterpRaise, Undecided, is_num
from . import promp, siblings

ENTRY = re.compile(r"^\s*(\w+(?:\s*,\s*\w+)*)\s*:\s.*\(default:\s*(.*)\)\s*$")
OPEN = re.compile(r"^\s*\w+(?:\s*,\s*\w+)*\s*:\s.*\(default:[^)]*$")
MISSING = object()


def documented(doc):
    """(parameter, documented value) of numbers, strings, flags and None."""
    lines = (doc or "").split("\n")
    for i, line in enumerate(lines):
        if OPEN.match(line) and i + 1 < len(lines):
            line = line + " " + lines[i + 1].strip()
        m = ENTRY.match(line)
        if not m:
            continue
        v = value(m.group(2))
        if v is MISSING:
            continue
        for name in m.group(1).split(","):
            yield name.strip(), v


def value(text):
    try:
        return fold(ast.parse(text.strip(), mode="eval").body)
    except (SyntaxError, ValueError):
        return MISSING


def fold(n):
    if isinstance(n, ast.Constant) and not isinstance(n.value, bytes):
        if n.value is Ellipsis:
            return MISSING
        return n.value
    if isinstance(n, ast.Name) and n.id == "pi":
        return T.PI
    if isinstance(n, ast.Tuple):
        r = tuple(fold(e) for e in n.elts)
        return MISSING if MISSING in r else r
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        r = fold(n.operand)
        return -P(r) if is_num(r) else MISSING
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left), fold(n.right)
        if not all(is_num(x) for x in (a, b)):
            return MISSING
        if isinstance(n.op, ast.Div):
            return P(a) / P(b)
        if isinstance(n.op, ast.Mult):
            return P(a) * P(b)
    return MISSING


def a01(c):
    listed = dict(other=[])
    ip = Interp(c.program)
    for name in c.program.modules():
        if ".tests" in name or ".test_" in name:
            continue
        try:
            m = ip.load(name)
        except (Undecided, InterpRaise) as e:
            c.undecided.append((name, str(e)))
            continue
        if m is None:
            continue
        for k, v in sorted(m.ns.items()):
            if k.startswith("_"):
                continue
            if isinstance(v, Func) and v.module is m:
                signature(c, ip, name, k, v, ast.get_docstring(v.node),
                          listed)
            elif isinstance(v, Cls) and v.module is m:
                for n, f in sorted(v.ns.items()):
                    if isinstance(f, Func) and (
                            n == "__init__" or not n.startswith("_")):
                        doc = ast.get_docstring(f.node) or ""
                        if n == "__init__" and v.node is not None:
                            doc += "\n" + (ast.get_docstring(v.node) or "")
                        signature(c, ip, name, "%s.%s" % (k, n), f, doc,
                                  listed)
    for m in ("condition_position", "via_points"):
        c.obligation("noise of %s" % m, noise, c, m)
    c.obligation("tracking error of two arms", tracking, c)
    c.facts["documented_but_resolved_in_the_body"] = len(listed["other"])


def signature(c, ip, module, name, f, doc, listed):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    given = dict(zip(pos[len(pos) - len(f.defaults):], f.defaults))
    given.update(f.kwdefaults)
    cls, _, fn = name.rpartition(".")
    c.functions[module, cls, fn] = 1
    for p, want in documented(doc):
        if p not in given:
            continue
        key = "%s:%s %s" % (module.replace(PACKAGE + ".", ""), name, p)
        got = given[p]
        if got is None and want is not None:
            # a marker for a value that is determined in the body
            listed["other"].append(key)
            continue
        c.obligation(key, equal, c, got, want, p,
                     "%s:%d" % (module.replace(".", "/"), f.node.lineno))


def noise(c, m):
    ip, o, _, _ = promp.make(c, 2, 2)
    y = sy("y", 2)
    if m == "condition_position":
        a = meth(ip, o, m, cp(y), t=F(1, 3))
        b = meth(ip, o, m, cp(y), y_cov=zeros(2, 2), t=F(1, 3))
    else:
        f = c.anchor(ip, promp.PROMP, m)
        ts = promp.times([F(1, 3)])
        y = arr(y.a.reshape(1, 2))
        a = ip.call(f, [o, ts, cp(y)], {})
        b = ip.call(f, [o, ts, cp(y), zeros(1)], {})
    ts = promp.times([F(0), F(1, 2), F(1)])
    for k in ("mean_trajectory", "var_trajectory"):
        c.same(meth(ip, a, k, ts), meth(ip, b, k, ts), k)


def tracking(c):
    r = []
    for given in (False, True):
        _, _, a, _, _ = siblings.call(
            c, "dual", False, p_gain=T.sym("p", "+"),
            zero_error=given)
        r.append(a)
    for k in ("current_y", "current_yd"):
        c.same(r[0][k], r[1][k], k)


def zeros(*shape):
    return arr(spec.zeros(*shape))


def equal(c, got, want, p, where):
    if isinstance(got, Ext) or not isinstance(
            got, (type(None), bool, str, tuple, Arr)) and not is_num(got):
        raise Undecided("default of %s is %r" % (p, got))
    if want is None or isinstance(want, str) or got is None \
            or isinstance(got, str):
        c.require(got is want or got == want, "%s is %r if it is omitted, but "
                  "documented as %r" % (p, got, want), where)
    elif isinstance(want, tuple):
        c.require(isinstance(got, tuple) and len(got) == len(want),
                  "%s is %r if it is omitted, but documented as %r"
                  % (p, got, want), where)
        for g, w in zip(got, want):
            equal(c, g, w, p, where)
    else:
        if isinstance(got, (tuple, Arr)):
            raise Undecided("default of %s is %r" % (p, got))
        c.same(P(got), P(want), "%s of an omitted argument" % p, where)
