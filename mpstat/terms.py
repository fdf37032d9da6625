"""Value-number terms: the abstract domain of the value analysis.

A numeric abstract value is a polynomial with rational coefficients over
interned *atoms*.  Atoms are program inputs, applications of uninterpreted
functions (exp, acos, ...), indicator variables of branch conditions and
polynomials that occur as a divisor or radicand.  Polynomials are kept
expanded, so that two expressions which are equal by the laws of commutative
algebra get the same representation no matter how the source spells them.

Branch joins are expressed with indicators: joining ``a`` (condition holds)
with ``b`` gives ``I*a + (1-I)*b``, an ordinary polynomial with I*I = I.

Nothing here evaluates numbers of the program under analysis and there is no
solver: equality is decided by normalisation only.
"""
import itertools
import math
import sys
from fractions import Fraction

MAX_TERMS = 6000


class TooLarge(Exception):
    """A value outgrew the analysis budget."""


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("kind", "name", "args", "id", "sign", "special", "opaque",
                 "note")
    _table = {}
    _counter = itertools.count()

    def __new__(cls, kind, name, args=(), sign=None, note=None):
        key = (kind, name, args)
        a = cls._table.get(key)
        if a is not None:
            if sign is not None and a.sign is None:
                a.sign = sign
            return a
        a = object.__new__(cls)
        a.kind = kind
        a.name = name
        a.args = args
        a.id = next(cls._counter)
        a.sign = sign            # None, "+" (positive), "0+" (non-negative)
        a.special = kind in ("exp", "poly", "ind", "sin", "qexp", "uq",
                             "qmat", "abs") or name == "rat"
        a.opaque = kind == "opaque" or any(_has_opaque(x) for x in args)
        a.note = note
        cls._table[key] = a
        return a

    def __repr__(self):
        return atom_str(self)

    def __lt__(self, other):
        return self.id < other.id


def _has_opaque(x):
    if isinstance(x, Poly):
        return x.opaque
    if isinstance(x, Atom):
        return x.opaque
    if isinstance(x, tuple):
        return any(_has_opaque(y) for y in x)
    return False


_opaque_counter = itertools.count()


def opaque(note):
    """A value the analysis knows nothing about."""
    return Poly.atom(Atom("opaque", "?%d" % next(_opaque_counter), (),
                          note=note))


# --------------------------------------------------------------------------
# polynomials
# --------------------------------------------------------------------------
class Poly:
    __slots__ = ("t", "_h", "_op")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._op = None

    # -- construction
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    # -- queries
    @property
    def opaque(self):
        if self._op is None:
            self._op = any(a.opaque for m in self.t for a, _ in m)
        return self._op

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), Fraction(0))

    def atoms(self, deep=True, acc=None):
        """Every atom that occurs, also inside arguments of other atoms."""
        acc = set() if acc is None else acc
        for m in self.t:
            for a, _ in m:
                _collect(a, acc, deep)
        return acc

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, other):
        if isinstance(other, Poly):
            return self.t == other.t
        if isinstance(other, (int, Fraction)):
            return self.t == Poly.const(other).t
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __bool__(self):
        raise TypeError("truth value of a symbolic number")

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if o is NotImplemented:
            return NotImplemented
        if not o.t:
            return self
        if not self.t:
            return o
        big, small = (self, o) if len(self.t) >= len(o.t) else (o, self)
        t = dict(big.t)
        for m, c in small.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v:
                    t[m] = v
                else:
                    del t[m]
        if len(t) > MAX_TERMS:
            raise TooLarge("sum with %d terms" % len(t))
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = P(o)
        if o is NotImplemented:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if o is NotImplemented:
            return NotImplemented
        return _mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = P(o)
        if o is NotImplemented:
            return NotImplemented
        return _mul(self, power(o, Fraction(-1)))

    def __rtruediv__(self, o):
        return P(o) / self

    def __pow__(self, o):
        o = P(o)
        if o.is_const():
            return power(self, o.const_value())
        if self.is_const() and self.const_value() == 1:
            return ONE
        return exp_(o * log_(self))

    def __rpow__(self, o):
        return P(o) ** self

    def __repr__(self):
        return poly_str(self)


def _collect(a, acc, deep):
    if a in acc:
        return
    acc.add(a)
    if deep:
        _collect_args(a.args, acc)


def _collect_args(args, acc):
    for x in args:
        if isinstance(x, Poly):
            x.atoms(True, acc)
        elif isinstance(x, Atom):
            _collect(x, acc, True)
        elif isinstance(x, tuple):
            _collect_args(x, acc)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def P(x):
    """Coerce a number to a polynomial."""
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, float):
        return float_const(x)
    if isinstance(x, Cond):
        return x.p
    poly = getattr(x, "__poly__", None)
    if poly is not None:
        return poly()
    return NotImplemented


def float_const(x):
    if math.isinf(x):
        a = Poly.atom(Atom("const", "inf", (), sign="+"))
        return a if x > 0 else -a
    if math.isnan(x):
        return Poly.atom(Atom("const", "nan"))
    return Poly.const(Fraction(repr(x)))


PI = Poly.atom(Atom("const", "pi", (), sign="+"))
EPS = Poly.atom(Atom("const", "eps", (), sign="+"))


# inputs that have a special value in the current analysis
SPECIAL = {}
# inputs that exist once per process and keep their value
FIXED = set()


def sym(name, sign=None):
    if SPECIAL and name in SPECIAL:
        return SPECIAL[name]
    f = sys._getframe(1)
    for _ in range(3):
        if f is None:
            break
        if f.f_code.co_name == "<module>":
            FIXED.add(name)
        f = f.f_back
    return Poly.atom(Atom("sym", name, (), sign=sign))


def roots(p):
    """Special values of inputs that make p zero, as {name: value}."""
    if p.is_const() or p.opaque:
        return None
    atoms = p.atoms(False)
    free = {a for a in atoms if a.kind == "sym" and a.name not in FIXED}
    if all(a in free and a.sign != "+" for a in atoms) and all(
            c > 0 and len(m) == 1 and m[0][1] % 2 == 0
            for m, c in p.t.items()):
        return {a.name: ZERO for a in atoms}
    if len(p.t) == 1:
        (m, _), = p.t.items()
        for a, e in m:
            if e > 0 and a.kind == "abs":
                return roots(a.args[0])
            if e > 0 and a.kind == "poly" and isinstance(a.args[0], Poly):
                return roots(a.args[0])
    for a in sorted(atoms, key=lambda a: (a.sign is not None, -a.id)):
        if a not in free:
            continue
        inner = {b for b in atoms if b is not a for b in _inner(b)}
        if a in inner:
            continue
        coef, rest, linear = None, ZERO, True
        for m, c in p.t.items():
            if all(b is not a for b, _ in m):
                rest = rest + Poly({m: c})
            elif len(m) == 1 and m[0][1] == 1:
                coef = c
            else:
                linear = False
        if coef is None or not linear:
            continue
        v = rest * (-1 / Fraction(coef))
        if a.sign == "+" and sign_of(v) != "+":
            continue
        return {a.name: v}
    return None


def _inner(a):
    out = set()
    for x in a.args:
        if isinstance(x, Poly):
            out |= x.atoms(True)
    return out


def _merge(m1, m2):
    """Product of two monomials; second value tells whether rules apply."""
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a is b:
            s = e + f
            if s:
                out.append((a, s))
            i += 1
            j += 1
        elif a.id < b.id:
            out.append((a, e))
            i += 1
        else:
            out.append((b, f))
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def _special(m):
    for a, e in m:
        if a.special:
            return True
    return False


def _mul(p, q):
    if not p.t or not q.t:
        return ZERO
    if len(p.t) * len(q.t) > 400 * MAX_TERMS:
        raise TooLarge("product of %d and %d terms" % (len(p.t), len(q.t)))
    t = {}
    extra = []
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m = _merge(m1, m2)
            c = c1 * c2
            if m1 and m2 and _special(m):
                r = _reduce(m)
                if r is not None:
                    extra.append((r, c))
                    continue
            v = t.get(m)
            t[m] = c if v is None else v + c
    t = {m: c for m, c in t.items() if c}
    res = Poly(t)
    if extra:
        acc = dict(t)
        for r, c in extra:
            for m, cc in r.t.items():
                v = acc.get(m)
                v = c * cc if v is None else v + c * cc
                acc[m] = v
        res = Poly({m: c for m, c in acc.items() if c})
    if len(res.t) > MAX_TERMS:
        raise TooLarge("product with %d terms" % len(res.t))
    return res


def _reduce(m):
    """Apply atom rules to a monomial.  None: already in normal form."""
    exps = [(a, e) for a, e in m if a.kind == "exp"]
    if len(exps) > 1 or (exps and exps[0][1] != 1):
        rest = tuple((a, e) for a, e in m if a.kind != "exp")
        arg = ZERO
        for a, e in exps:
            arg = arg + a.args[0] * e
        return _mul(_mono(rest), exp_(arg))
    # indicators: idempotent, exclusive
    changed = False
    inds = []
    out = []
    for a, e in m:
        if a.kind == "ind":
            if e != 1:
                changed = True
            inds.append(a)
            out.append((a, 1))
        else:
            out.append((a, e))
    if len(inds) > 1:
        s = set(inds)
        for a in inds:
            for b in _excluded(a):
                if b in s:
                    return ZERO
    if changed:
        return _mono(tuple(out))
    # polynomial atoms with positive integer exponents are expanded, the
    # fractional ones of a monomial are merged into a single radicand
    frac = []
    for a, e in m:
        if a.kind == "poly":
            if e.denominator == 1 and e > 0:
                rest = tuple(x for x in m if x[0] is not a)
                return _mul(_mono(rest), power(a.args[0], e))
            if e.denominator != 1:
                whole = math.floor(e)
                if whole > 0:
                    rest = tuple((b, (f - whole if b is a else f))
                                 for b, f in m)
                    return _mul(_mono(rest), power(a.args[0], whole))
                frac.append((a, e))
    if len(frac) > 1:
        same = {}
        for a, e in frac:
            same.setdefault(e - math.floor(e), []).append((a, e))
        for f, group in same.items():
            if len(group) > 1:
                names = {a for a, _ in group}
                rest = tuple(x for x in m if x[0] not in names)
                rad = ONE
                tail = ONE
                for a, e in group:
                    rad = rad * a.args[0]
                    w = math.floor(e)
                    if w:
                        tail = tail * power(a.args[0], Fraction(w))
                return _mul(_mul(_mono(rest), tail), power(rad, f))
    for a, e in m:
        if a.kind == "sin" and e >= 2:
            rest = tuple((b, f) for b, f in m if b is not a)
            c = cos_(a.args[0])
            return _mul(_mul(_mono(rest), ONE - c * c),
                        power(Poly.atom(a), e - 2) if e > 2 else ONE)
        if a.kind == "abs" and e.denominator == 1 and abs(e) >= 2:
            rest = tuple((b, f) for b, f in m if b is not a)
            k = e % 2
            return _mul(_mul(_mono(rest), power(a.args[0], e - k)),
                        Poly.atom(a) if k else ONE)
        if a.kind == "const" and a.name == "rat" and (
                e >= 1 or e < 0):
            rest = tuple((b, f) for b, f in m if b is not a)
            k = math.floor(e)
            return _mul(_mono(rest), _mul(Poly.const(a.args[0] ** k),
                                          power(Poly.const(a.args[0]), e - k)))
        if a.kind in ("qexp", "uq", "qmat") \
                and a.args[1] == 0 and e >= 2:
            # unit norm: w^2 = 1 - x^2 - y^2 - z^2
            rest = tuple((b, f) for b, f in m if b is not a)
            v = a.args[0]
            others = ONE
            for i in (1, 2, 3):
                x = Poly.atom(Atom(a.kind, a.name, (v, i)))
                others = others - x * x
            return _mul(_mul(_mono(rest), others),
                        power(Poly.atom(a), e - 2) if e > 2 else ONE)
    return None


def _excluded(a):
    """Indicator atoms that cannot hold together with ``a``."""
    if a.name == "lt":
        p = a.args[0]
        return [Atom("ind", "lt", (_posnorm(-p),)), Atom("ind", "eq", (_signnorm(p),))]
    if a.name == "eq":
        p = a.args[0]
        return [Atom("ind", "lt", (_posnorm(p),)),
                Atom("ind", "lt", (_posnorm(-p),))]
    return []


def _mono(m):
    if not m:
        return ONE
    if _special(m):
        r = _reduce(m)
        if r is not None:
            return r
    return Poly({m: Fraction(1)})


def _frac_root(c, r):
    """c**r for a positive rational c: exact value or None."""
    n, d = r.numerator, r.denominator
    def root(k):
        x = round(k ** (1.0 / d))
        for y in (x - 1, x, x + 1):
            if y >= 0 and y ** d == k:
                return y
        return None
    a, b = root(c.numerator), root(c.denominator)
    if a is None or b is None:
        return None
    v = Fraction(a, b)
    return v ** n


def _surd(c, r):
    """c**r for half-integer r with a square-free integer radicand."""
    k = math.floor(r)
    n = c.numerator * c.denominator
    f = Fraction(c ** k) / c.denominator
    for q in (2, 3, 5, 7, 11, 13):
        while n % (q * q) == 0:
            n //= q * q
            f *= q
    return Poly({((Atom("const", "rat", (Fraction(n),), sign="+"),
                   Fraction(1, 2)),): f})


def _leading(p):
    return max(p.t, key=_mono_key)


def _mono_key(m):
    return (sum(abs(e) for _, e in m), tuple((a.id, e) for a, e in m))


def power(p, r):
    r = Fraction(r)
    if r == 0:
        return ONE
    if r == 1:
        return p
    if not p.t:
        if r > 0:
            return ZERO
        return Poly.atom(Atom("const", "inf", (), sign="+"))
    if r.denominator == 1 and r > 0:
        n = int(r)
        if n > 60:
            raise TooLarge("power %d" % n)
        result = ONE
        base = p
        while n:
            if n & 1:
                result = _mul(result, base)
            n >>= 1
            if n:
                base = _mul(base, base)
        return result
    if len(p.t) == 1:
        (m, c), = p.t.items()
        res = ONE
        if c != 1:
            if r.denominator == 1:
                res = Poly.const(c ** int(r))
            elif c > 0:
                v = _frac_root(c, r)
                if v is None and r.denominator == 2:
                    res = _surd(c, r)
                elif v is None:
                    w = math.floor(r)
                    res = Poly({((Atom("const", "rat", (c,), sign="+"),
                                  r - w),): c ** w})
                else:
                    res = Poly.const(v)
            else:
                return Poly.atom(Atom("fn", "pow", (p, r)))
        out = ONE
        for a, e in m:
            ne = e * r
            if (r.denominator != 1 and e.denominator == 1 and e % 2 == 0
                    and a.sign is None):
                # even power under a root: absolute value
                base = abs_(Poly.atom(a))
                out = _mul(out, power(base, ne))
            elif a.kind == "ind" and r > 0:
                out = _mul(out, Poly.atom(a))
            elif a.kind == "const" and a.name == "rat":
                out = _mul(out, power(Poly.const(a.args[0]), ne))
            else:
                out = _mul(out, _mono(((a, ne),)))
        return _mul(res, out)
    # a sum: factor out the common monomial and the leading coefficient
    common = _common_mono(p)
    if common and r.denominator != 1:
        # only safe for factors that are known to be non-negative
        common = tuple((a, e) for a, e in common if a.sign is not None)
    if common:
        cd = dict(common)
        p = Poly({tuple((a, e - cd[a]) if a in cd else (a, e)
                        for a, e in m if e != cd.get(a, 0)): c
                  for m, c in p.t.items()})
        scale = power(Poly({common: Fraction(1)}), r)
    else:
        scale = ONE
    c = p.t[_leading(p)]
    if r.denominator != 1:
        c = abs(c)
    q = Poly({m: v / c for m, v in p.t.items()})
    if c != 1:
        scale = _mul(scale, power(Poly.const(c), r))
    if r.denominator == 2:
        c = _hidden_const(q)
        if c is not None:
            return _mul(scale, power(c, r))
        root = square_root(q)
        if root is not None:
            return _mul(scale, power(abs_(root), 2 * r))
    # a radicand is non-negative wherever the program is defined
    sign = "+" if sign_of(q) == "+" or r.denominator != 1 else None
    return _mul(scale, _mono(((Atom("poly", "poly", (q,), sign=sign), r),)))


def _hidden_const(p):
    """The positive rational a short sum of fractions is equal to, or None."""
    if len(p.t) > 60 or p.opaque or not any(
            a.kind == "poly" and e < 0 for m in p.t for a, e in m):
        return None
    from .termeval import Valuation, Undefined
    try:
        v = [Valuation(("const", i)).poly(p) for i in (1, 2)]
    except (Undefined, OverflowError):
        return None
    if v[0] <= 0 or abs(v[0] - v[1]) > 1e-9 * v[0]:
        return None
    c = Poly.const(Fraction(v[0]).limit_denominator(1000))
    return c if is_zero(p - c) else None


def square_root(p):
    """A polynomial in input symbols whose square is p, or None."""
    n = len(p.t)
    if n > 120 or p.opaque:
        return None
    atoms = {}
    for m in p.t:
        for a, e in m:
            if a.special or e.denominator != 1 or e < 0:
                return None
            atoms[a] = max(e, atoms.get(a, 0))
    if any(e % 2 for e in atoms.values()):
        return None
    order = sorted(atoms, key=lambda a: a.id)

    def key(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in order)
    lead = max(p.t, key=key)
    c = _frac_root(p.t[lead], Fraction(1, 2)) if p.t[lead] > 0 else None
    if c is None or any(e % 2 for _, e in lead):
        return None
    first = tuple((a, e // 2) for a, e in lead)
    root = Poly({first: c})
    rest = p - _mul(root, root)
    while rest.t:
        if len(root.t) > n:
            return None
        m = max(rest.t, key=key)
        d = dict(m)
        for a, e in first:
            d[a] = d.get(a, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        t = Poly({tuple((a, d[a]) for a in order if d.get(a)):
                  rest.t[m] / (2 * c)})
        if key(next(iter(t.t))) >= key(first) or next(iter(t.t)) in root.t:
            return None
        rest = rest - _mul(t, 2 * root + t)
        root = root + t
    return root


def _common_mono(p):
    it = iter(p.t)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(first):
            if a in d:
                first[a] = min(first[a], d[a])
            else:
                del first[a]
        if not first:
            return ()
    return tuple(sorted(((a, e) for a, e in first.items()
                         if a.kind != "ind" and e != 0),
                        key=lambda x: x[0].id))


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------
def exp_(x):
    x = P(x)
    if not x.t:
        return ONE
    # exp(c*log(a) + rest) = a**c * exp(rest)
    rest = {}
    factor = ONE
    for m, c in x.t.items():
        if len(m) == 1 and m[0][0].kind == "log" and m[0][1] == 1:
            factor = _mul(factor, power(m[0][0].args[0], c))
        else:
            rest[m] = c
    if not rest:
        return factor
    e = Poly.atom(Atom("exp", "exp", (Poly(rest),), sign="+"))
    return _mul(factor, e) if factor is not ONE else e


def log_(x):
    x = P(x)
    if x == ONE:
        return ZERO
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if len(m) == 1 and m[0][0].kind == "exp" and c == 1:
            return m[0][0].args[0] * m[0][1]
        if not m and c > 0 and c < 1:
            return -log_(Poly.const(1 / c))
    return Poly.atom(Atom("log", "log", (x,)))


def sqrt_(x):
    return power(P(x), Fraction(1, 2))


def abs_(x):
    x = P(x)
    if x.is_const():
        return Poly.const(abs(x.const_value()))
    s = sign_of(x)
    if s in ("+", "0+"):
        return x
    if s in ("-", "0-"):
        return -x
    x = _signnorm(x)
    return Poly.atom(Atom("abs", "abs", (x,), sign="0+"))


def _pi_multiple(x):
    """r with x == r*pi, or None."""
    if not x.t:
        return Fraction(0)
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if m == ((next(iter(PI.t))[0][0], 1),):
            return c
    return None


def cos_(x):
    x = P(x)
    r = _pi_multiple(x)
    if r is not None:
        r = r % 2
        table = {Fraction(0): 1, Fraction(1, 2): 0, Fraction(1): -1,
                 Fraction(3, 2): 0, Fraction(1, 3): Fraction(1, 2)}
        if r in table:
            return Poly.const(table[r])
        if r.denominator == 4:
            h = power(Poly.const(2), Fraction(-1, 2))
            return h if r in (Fraction(1, 4), Fraction(7, 4)) else -h
    a = _single(x, "acos")
    if a is not None:
        return a.args[0]
    x, _ = _oddnorm(x)
    return Poly.atom(Atom("cos", "cos", (x,)))


def sin_(x):
    x = P(x)
    r = _pi_multiple(x)
    if r is not None:
        r = r % 2
        table = {Fraction(0): 0, Fraction(1, 2): 1, Fraction(1): 0,
                 Fraction(3, 2): -1, Fraction(1, 6): Fraction(1, 2)}
        if r in table:
            return Poly.const(table[r])
        if r.denominator == 4:
            h = power(Poly.const(2), Fraction(-1, 2))
            return h if r < 1 else -h
    x, s = _oddnorm(x)
    return Poly.atom(Atom("sin", "sin", (x,))) * s


def _single(x, kind):
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == kind:
            return m[0][0]
    return None


def _oddnorm(x):
    if x.t and x.t[_leading(x)] < 0:
        return -x, -1
    return x, 1


def fn(name, *args, sign=None):
    """Application of an uninterpreted function."""
    args = tuple(P(a) if not isinstance(a, (tuple, str)) else a for a in args)
    kind = name if name in ("acos",) else "fn"
    return Poly.atom(Atom(kind, name, args, sign=sign))


def acos_(x):
    x = P(x)
    if x == ONE:
        return ZERO
    if not x.t:
        return PI * Fraction(1, 2)
    return Poly.atom(Atom("acos", "acos", (x,), sign="0+"))


def mod_(x, y):
    x, y = P(x), P(y)
    if x.is_const() and y.is_const() and y.const_value():
        return Poly.const(x.const_value() % y.const_value())
    return Poly.atom(Atom("fn", "mod", (x, y)))


def min_(*args):
    args = [P(a) for a in args]
    flat = []
    for a in args:
        s = _single(a, "fn")
        if s is not None and s.name == "min":
            flat.extend(s.args)
        else:
            flat.append(a)
    inf = float_const(math.inf)
    if any(a == -inf for a in flat):
        return -inf
    if len(flat) > 1:
        flat = [a for a in flat if a != inf] or [inf]
    uniq = []
    for a in flat:
        if a not in uniq:
            uniq.append(a)
    # drop dominated members
    keep = []
    for i, a in enumerate(uniq):
        dominated = False
        for j, b in enumerate(uniq):
            if i == j:
                continue
            s = sign_of(a - b)
            if s == "+" or (s in ("0+", "0") and j < i):
                dominated = True
                break
        if not dominated:
            keep.append(a)
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=poly_key)
    s = [sign_of(a) for a in keep]
    sign = None
    if all(x == "+" for x in s):
        sign = "+"
    elif all(x in ("+", "0+", "0") for x in s):
        sign = "0+"
    return Poly.atom(Atom("fn", "min", tuple(keep), sign=sign))


def max_(*args):
    return -min_(*[-P(a) for a in args])


def poly_key(p):
    return sorted((_mono_key(m), c) for m, c in p.t.items())


# --------------------------------------------------------------------------
# signs
# --------------------------------------------------------------------------
def sign_of(p):
    """"+", "-", "0", "0+", "0-" or None."""
    if not p.t:
        return "0"
    res = None
    for m, c in p.t.items():
        s = _mono_sign(m)
        if s is None:
            return None
        if c < 0:
            s = {"+": "-", "0+": "0-"}[s]
        if res is None:
            res = s
        elif res == s:
            pass
        elif res[-1] == s[-1]:
            res = "+" if res[-1] == "+" else "-"
        else:
            return _range_sign(p)
    return res


def _range_sign(p):
    """Sign of a linear combination of bounded terms."""
    if len(p.t) > 4 or not any(
            a.kind == "acos" or a.kind == "fn" and a.name == "min"
            for m in p.t for a, e in m):
        return None
    lo, hi = value_range(p)
    if lo > 0:
        return "+"
    if hi < 0:
        return "-"
    if lo == 0:
        return "0+"
    if hi == 0:
        return "0-"
    return None


def value_range(p):
    """Bounds of a term that hold for all values of the input symbols."""
    lo = hi = 0.0
    for m, c in p.t.items():
        if not m:
            r = (1.0, 1.0)
        elif len(m) == 1 and m[0][1] == 1:
            r = _atom_range(m[0][0])
        else:
            r = {"+": (0.0, math.inf), "0+": (0.0, math.inf)}.get(
                _mono_sign(m), (-math.inf, math.inf))
        c = float(c)
        a, b = c * r[0], c * r[1]
        lo, hi = lo + min(a, b), hi + max(a, b)
    return lo, hi


def _atom_range(a):
    if a.kind in ("sin", "cos"):
        return -1.0, 1.0
    if a.kind == "acos":
        return 0.0, math.pi
    if a.kind == "ind":
        return 0.0, 1.0
    if a.kind == "const" and a.name == "pi":
        return math.pi, math.pi
    if a.kind == "fn" and a.name == "min":
        rs = [value_range(x) for x in a.args]
        return min(r[0] for r in rs), min(r[1] for r in rs)
    if a.sign in ("+", "0+"):
        return 0.0, math.inf
    return -math.inf, math.inf


def _mono_sign(m):
    res = "+"
    for a, e in m:
        if a.sign == "+" or a.kind == "exp":
            continue
        if a.kind == "ind" or a.sign == "0+":
            if e > 0:
                res = "0+"
            continue
        if e.denominator == 1 and e % 2 == 0:
            res = "0+" if e > 0 else res
            continue
        if e.denominator != 1:
            # a root is non-negative where it is defined
            if e > 0 and e.denominator == 2 and e.numerator == 1:
                res = "0+"
                continue
        return None
    return res


def _posnorm(p):
    """Scale by a positive constant to a canonical representative."""
    if not p.t:
        return p
    c = abs(p.t[_leading(p)])
    if c == 1:
        return p
    return Poly({m: v / c for m, v in p.t.items()})


def _signnorm(p):
    if not p.t:
        return p
    c = p.t[_leading(p)]
    if c == 1:
        return p
    return Poly({m: v / c for m, v in p.t.items()})


# --------------------------------------------------------------------------
# conditions
# --------------------------------------------------------------------------
class Cond:
    """Symbolic truth value: a 0/1-valued polynomial of indicators."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __hash__(self):
        return hash(("cond", self.p))

    def __eq__(self, o):
        return isinstance(o, Cond) and self.p == o.p

    def __repr__(self):
        return "Cond(%s)" % (self.p,)


def mk_cond(p):
    if not p.t:
        return False
    if p == ONE:
        return True
    return Cond(p)


def cond_poly(c):
    if isinstance(c, Cond):
        return c.p
    return ONE if c else ZERO


def bool_sym(name):
    return Cond(Poly.atom(Atom("ind", "sym", (name,))))


def not_(c):
    return mk_cond(ONE - cond_poly(c))


def and_(a, b):
    return mk_cond(cond_poly(a) * cond_poly(b))


def or_(a, b):
    pa, pb = cond_poly(a), cond_poly(b)
    return mk_cond(pa + pb - pa * pb)


def split_eps(d):
    """(coefficient of machine epsilon, rest), coefficient None: nonlinear."""
    (e,) = EPS.atoms(False)
    k, rest = Fraction(0), {}
    for m, c in d.t.items():
        if len(m) == 1 and m[0][0] == e and m[0][1] == 1:
            k = c
        elif any(a == e for a, _ in m):
            return None, d
        else:
            rest[m] = c
    return k, Poly(rest)


def lt(a, b):
    d = P(a) - P(b)
    if d.is_const():
        return d.const_value() < 0
    k, rest = split_eps(d)
    if k and rest.is_const() and abs(rest.const_value()) > abs(k) * 10 ** -9:
        return rest.const_value() < 0
    s = sign_of(d)
    if s == "-":
        return True
    if s in ("+", "0", "0+"):
        return False
    return Cond(Poly.atom(Atom("ind", "lt", (_posnorm(d),))))


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    d = P(a) - P(b)
    if d.is_const():
        return d.const_value() == 0
    s = sign_of(d)
    if s in ("+", "-"):
        return False
    if is_zero(d):
        return True
    return Cond(Poly.atom(Atom("ind", "eq", (_signnorm(d),))))


def gamma(c, a, b):
    """Join of two numbers under a condition."""
    if c is True:
        return P(a)
    if c is False:
        return P(b)
    a, b = P(a), P(b)
    if a == b:
        return a
    p = c.p
    # min / max patterns
    ind = _single(p, "ind")
    x, y = a, b
    if ind is None:
        q = ONE - p
        ind = _single(q, "ind")
        x, y = b, a
    if ind is not None and ind.name == "lt":
        d = ind.args[0]
        e = _posnorm(x - y)
        if e == d:
            return min_(x, y)
        if _posnorm(y - x) == d:
            return max_(x, y)
        # sign flips that implement an absolute value
    return p * a + (ONE - p) * b


# --------------------------------------------------------------------------
# equality modulo denominators and congruence
# --------------------------------------------------------------------------
def is_zero(p, depth=0):
    if not p.t:
        return True
    try:
        for _ in range(12):
            den = None
            for m in p.t:
                for a, e in m:
                    if a.kind == "poly" and e < 0:
                        k = -e if e.denominator == 1 else Fraction(
                            math.ceil(-e))
                        if den is None or den[0] is a:
                            den = (a, max(k, den[1] if den else k))
            if den is None:
                break
            a, k = den
            q = ZERO
            mult = _raw(((a, k),))
            t = {}
            for m, c in p.t.items():
                mm = _merge(m, ((a, k),))
                r = _reduce(mm) if _special(mm) else None
                if r is None:
                    r = Poly({mm: Fraction(1)})
                q = q + r * c
            p = q
            if not p.t:
                return True
        return not p.t
    except TooLarge:
        return False


def _raw(m):
    return Poly({m: Fraction(1)})


def equal(p, q, depth=0):
    """True when p and q are the same function of the inputs."""
    p, q = P(p), P(q)
    if p == q:
        return True
    d = p - q
    if is_zero(d):
        return True
    if depth > 6:
        return False
    # congruence: unify applications whose arguments are equal
    groups = {}
    for a in p.atoms(False) | q.atoms(False):
        if a.args and a.kind not in ("ind",):
            groups.setdefault((a.kind, a.name, _arg_shape(a.args)),
                              []).append(a)
        elif a.kind == "ind" and a.name in ("lt", "eq"):
            groups.setdefault((a.kind, a.name, _arg_shape(a.args)),
                              []).append(a)
    mapping = {}
    for key, members in groups.items():
        reps = []
        members.sort(key=lambda a: a.id)
        for a in members:
            for r in reps:
                if _args_equal(a.args, r.args, depth + 1, key[0] == "ind"):
                    mapping[a] = Poly.atom(r)
                    break
            else:
                reps.append(a)
    if not mapping:
        return False
    d2 = subst(d, mapping, shallow=True)
    if is_zero(d2):
        return True
    return False


def _arg_shape(args):
    return tuple(_arg_shape(x) if isinstance(x, tuple)
                 else "p" if isinstance(x, Poly) else x for x in args)


def _args_equal(x, y, depth, scaled=False):
    for a, b in zip(x, y):
        if isinstance(a, Poly):
            if not equal(a, b, depth):
                return False
        elif isinstance(a, tuple):
            if not _args_equal(a, b, depth):
                return False
        elif a != b:
            return False
    return True


def subst(p, mapping, shallow=False, _cache=None):
    """Replace atoms by polynomials everywhere (also inside arguments)."""
    cache = {} if _cache is None else _cache

    def one_atom(a):
        if a in cache:
            return cache[a]
        if a in mapping:
            r = mapping[a]
        elif shallow or not a.args:
            r = Poly.atom(a)
        else:
            args = sub_args(a.args)
            r = Poly.atom(a) if args == a.args else rebuild(a, args)
        cache[a] = r
        return r

    def sub_args(args):
        return tuple(
            sub_poly(x) if isinstance(x, Poly)
            else sub_args(x) if isinstance(x, tuple)
            else x for x in args)

    def sub_poly(q):
        out = ZERO
        for m, c in q.t.items():
            term = Poly.const(c)
            for a, e in m:
                b = one_atom(a)
                if len(b.t) == 1 and next(iter(b.t)) == ((a, 1),) \
                        and b.t[((a, 1),)] == 1:
                    term = _mul(term, _mono(((a, e),)))
                else:
                    term = _mul(term, power(b, e))
            out = out + term
        return out

    return sub_poly(p)


def rebuild(a, args):
    """Re-apply an atom's constructor to new arguments (normalising)."""
    k = a.kind
    if k == "exp":
        return exp_(args[0])
    if k == "log":
        return log_(args[0])
    if k == "cos":
        return cos_(args[0])
    if k == "sin":
        return sin_(args[0])
    if k == "acos":
        return acos_(args[0])
    if k == "abs":
        return abs_(args[0])
    if k == "poly":
        return args[0]
    if k == "ind" and a.name == "lt":
        return cond_poly(lt(args[0], ZERO))
    if k == "ind" and a.name == "eq":
        return cond_poly(eq(args[0], ZERO))
    if k == "fn" and a.name == "min":
        return min_(*args)
    if k == "fn" and a.name == "mod":
        return mod_(*args)
    hook = REBUILD.get((k, a.name))
    if hook is not None:
        return hook(args)
    return Poly.atom(Atom(k, a.name, args, sign=a.sign))


REBUILD = {}


# --------------------------------------------------------------------------
# printing
# --------------------------------------------------------------------------
def atom_str(a, depth=0):
    if a.kind in ("sym", "opaque", "const"):
        if a.kind == "const" and a.name == "rat":
            return str(a.args[0])
        return a.name
    if a.kind == "ind":
        if a.name == "sym":
            return "[%s]" % a.args[0]
        op = "<0" if a.name == "lt" else "==0"
        return "[%s%s]" % (poly_str(a.args[0], depth + 1), op)
    if a.kind == "uq":
        return "%s[%d]" % a.args
    if a.kind == "poly":
        return "(%s)" % poly_str(a.args[0], depth + 1)
    if depth > 1:
        return a.name + "(...)"
    return "%s(%s)" % (a.name, ", ".join(
        poly_str(x, depth + 1) if isinstance(x, Poly) else
        atom_str(x, depth + 1) if isinstance(x, Atom) else
        "..." if isinstance(x, tuple) and len(x) > 6 else str(x)
        for x in a.args))


def poly_str(p, depth=0, limit=8):
    if not p.t:
        return "0"
    parts = []
    items = sorted(p.t.items(), key=lambda mc: _mono_key(mc[0]))
    limit = limit if depth == 0 else 3
    for m, c in items[:limit]:
        fs = []
        for a, e in m:
            s = atom_str(a, depth)
            if e != 1:
                s += "^%s" % (e if e.denominator == 1 else "(%s)" % e) \
                    if isinstance(e, Fraction) else "^%s" % e
            fs.append(s)
        body = "*".join(fs)
        if not body:
            parts.append(str(c))
        elif c == 1:
            parts.append(body)
        elif c == -1:
            parts.append("-" + body)
        else:
            parts.append("%s*%s" % (c, body))
    s = " + ".join(parts).replace("+ -", "- ")
    if len(p.t) > limit:
        s += " + ... (%d terms)" % len(p.t)
    return s


# --------------------------------------------------------------------------
# rotations: exponential and logarithmic map of unit quaternions
# --------------------------------------------------------------------------
def unit_quaternion(name):
    """Four components of an arbitrary unit quaternion (w, x, y, z)."""
    return [Poly.atom(Atom("uq", "uq", (name, i))) for i in range(4)]


def _known_angle(v):
    """Norm of a vector if it is a multiple of pi, whatever the inputs."""
    pi = next(iter(PI.t))[0][0]
    if not all(any(a is pi for a, _ in m) for x in v for m in x.t):
        return None
    from .termeval import Valuation, Undefined
    n = ZERO
    try:
        for x in v:
            n = n + x * x
        r = Valuation(("angle", 1)).poly(n) / math.pi ** 2
    except (Undefined, TooLarge, OverflowError):
        return None
    r = Fraction(r).limit_denominator(64)
    root = _frac_root(r, Fraction(1, 2)) if r > 0 else None
    if root is None or not is_zero(n - PI * PI * r):
        return None
    return PI * root


def qexp_(v):
    """Quaternion of a rotation vector."""
    v = tuple(P(x) for x in v)
    if all(not x.t for x in v):
        return [ONE, ZERO, ZERO, ZERO]
    angle = _known_angle(v)
    if angle is not None:
        f = sin_(angle / 2) / angle
        return [cos_(angle / 2)] + [f * x for x in v]
    sign = 1
    for x in v:
        if x.t:
            if x.t[_leading(x)] < 0:
                sign = -1
            break
    if sign < 0:
        v = tuple(-x for x in v)
    e = [Poly.atom(Atom("qexp", "qexp", (v, i))) for i in range(4)]
    return [e[0]] + [x * sign for x in e[1:]]


def qlog_(q):
    """Rotation vector (angle at most pi) of a quaternion."""
    q = [P(x) for x in q]
    n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
    if n != ONE:
        s = power(n, Fraction(-1, 2))
        q = [x * s for x in q]
    if all(not x.t for x in q[1:]):
        return [ZERO, ZERO, ZERO]
    # inverse of the exponential
    a = _single(q[0], "qexp")
    if a is not None and a.args[1] == 0:
        e = qexp_(a.args[0])
        if q == e:
            return list(a.args[0])
        if q == [e[0], -e[1], -e[2], -e[3]]:
            return [-x for x in a.args[0]]
    # q and -q are the same rotation
    if q[0].t and q[0].t[_leading(q[0])] < 0:
        q = [-x for x in q]
    sign = 1
    for x in q[1:]:
        if x.t:
            if x.t[_leading(x)] < 0:
                sign = -1
            break
    if sign < 0:
        q = [q[0]] + [-x for x in q[1:]]
    q = tuple(q)
    return [Poly.atom(Atom("qlog", "qlog", (q, i))) * sign for i in range(3)]


REBUILD[("qexp", "qexp")] = lambda args: qexp_(args[0])[args[1]]
REBUILD[("qlog", "qlog")] = lambda args: qlog_(args[0])[args[1]]


def qmul_(a, b):
    a = [P(x) for x in a]
    b = [P(x) for x in b]
    return [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + b[0] * a[1] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] + b[0] * a[2] + a[3] * b[1] - a[1] * b[3],
        a[0] * b[3] + b[0] * a[3] + a[1] * b[2] - a[2] * b[1]]


def qconj_(a):
    return [P(a[0]), -P(a[1]), -P(a[2]), -P(a[3])]
