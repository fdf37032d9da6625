"""Abstract interpreter for the Python/Cython subset the library uses.

Every expression is mapped to a value number (module ``terms``), every array
to a shape and a value number per element, every object to its attributes.
Both sides of an undecided branch are analysed and joined; there is no path
enumeration and no solver, and nothing of the analysed program is imported or
executed.
"""
import ast
import itertools
import os
from fractions import Fraction

import numpy as np

from . import terms as T
from .terms import Poly, Cond, P, TooLarge
from .values import (
    Undecided, InterpRaise, NPoly, npoly, plain, Arr, Obj, Cls, Func, Bound,
    Prop, StaticM, ClassM, Ext, Native, Unk, Exc, Phi, Super, MISSING,
    exc_isa, EXC_BASES, root, set_current, is_num, frac_const)

MAX_STEPS = 4000000
MAX_WHILE = 400


class Journal:
    def __init__(self):
        self.old = {}
        self.born = {}


class Pending:
    def __init__(self, cond, delta, kind, value, journal):
        self.cond, self.delta, self.kind, self.value, self.journal = (
            cond, delta, kind, value, journal)


class Frame:
    def __init__(self, module, parent=None, func=None, cls=None):
        self.vars = {}
        self.module = module
        self.parent = parent
        self.func = func
        self.cls = cls
        self.pend = []
        self.globals_ = set()
        self.nonlocals = set()
        self.types = {}
        self.yields = None


class Module:
    def __init__(self, name, path, package):
        self.name = name
        self.path = path
        self.package = package
        self.ns = {}
        self.ready = False
        self.tree = None

    def __repr__(self):
        return "<module %s>" % self.name


def snap(c):
    if isinstance(c, np.ndarray):
        return c.copy()
    return type(c)(c)


def put(c, s):
    if isinstance(c, np.ndarray):
        c[...] = s
    elif isinstance(c, dict):
        c.clear()
        c.update(s)
    elif isinstance(c, list):
        c[:] = s
    else:
        c.clear()
        c.update(s)


class Interp:
    def __init__(self, program, ext_available=True, generic=True):
        self.program = program
        self.ext_available = ext_available
        self.generic = generic
        self.modules = {}
        self.journals = []
        self.assume = {}
        self.pc = []
        self.raises = []          # (condition, exception, where)
        self.events = []          # calls of external functions
        self.stack = []
        self.fstack = []
        self.steps = 0
        self.prov = {}
        self.counter = itertools.count()
        self.functions = {}       # analysed functions -> number of calls
        self.regular = {}         # degenerate comparisons assumed away
        self.degenerate = {}      # differences assumed not to be zero
        self.summaries = {}
        self.files = {}
        self.unknown = {}
        self.observers = []
        self.raw_accesses = []
        self.allocs = itertools.count()
        set_current(self)
        from . import npmodel
        self.np = npmodel

    # -- bookkeeping -------------------------------------------------------
    def where(self):
        if self.stack:
            f, fn, ln = self.stack[-1]
            return "%s:%s in %s" % (f, ln, fn)
        return "?"

    def born(self, c):
        for j in self.journals:
            j.born[id(c)] = c

    def born_array(self, arr):
        if self.journals and arr.a.base is None:
            self.born(arr.a)

    def touch(self, c):
        if self.journals:
            i = id(c)
            for j in self.journals:
                if i not in j.old and i not in j.born:
                    j.old[i] = (c, snap(c))
        if self.stack:
            self.prov[id(c)] = self.where()

    def open_journal(self):
        j = Journal()
        self.journals.append(j)
        return j

    def close_journal(self, j):
        self.journals.remove(j)
        # births inside remain births for the enclosing journals already

    def event(self, kind, name, args=(), kwargs=None, result=None):
        self.events.append(dict(
            kind=kind, name=name, args=args, kwargs=kwargs or {},
            where=self.where(), pc=list(self.pc), result=result))
        return result

    def fail(self, msg):
        raise Undecided("%s (%s)" % (msg, self.where()))

    def throw(self, name, *args):
        raise InterpRaise(Exc(name, args), self.where())

    # -- conditions ----------------------------------------------------------
    def simp(self, c):
        """Simplify a condition with the assumptions in force."""
        if not isinstance(c, Cond):
            return c
        if self.assume:
            hit = {a: v for a in c.p.atoms(False)
                   for v in [self.assume.get(a)] if v is not None}
            if hit:
                return T.mk_cond(T.subst(c.p, hit, shallow=True))
        return c

    def compare_lt(self, a, b):
        c = T.lt(a, b)
        if isinstance(c, Cond) and self.generic:
            k, rest = T.split_eps(P(a) - P(b))
            if k and T.sign_of(rest) in ("+", "-"):
                self.note_regular("%s compared to rounding precision" % rest)
                return T.sign_of(rest) == "-"
            # x < tiny with x known to be non-negative: regular configuration
            for lo, hi, neg in ((a, b, False), (b, a, True)):
                lo, hi = P(lo), P(hi)
                k = frac_const(hi)
                if k is None and hi == T.EPS:
                    k = Fraction(1, 10 ** 12)
                if k is not None and 0 < k <= Fraction(1, 10 ** 12) \
                        and not lo.is_const():
                    s = T.sign_of(lo)
                    if s in ("0+", "+"):
                        self.note_degenerate(lo)
                    if s in ("0+", "+") and not neg:
                        self.note_regular("%s < %s" % (lo, hi))
                        return False
                    if s in ("0+", "+") and neg:
                        self.note_regular("%s > %s" % (lo, hi))
                        return True
                if k is not None and k == 0 and not lo.is_const():
                    # 0 < |x| is taken to hold
                    s = T.sign_of(lo)
                    if s == "0+" and neg:
                        self.note_regular("%s > 0" % lo)
                        self.note_degenerate(lo)
                        return True
        return self.simp(c)

    def compare_eq(self, a, b):
        c = T.eq(a, b)
        if isinstance(c, Cond) and self.generic and not c.p.opaque:
            self.note_regular("%s != %s" % (T.poly_str(P(a), 1),
                                            T.poly_str(P(b), 1)))
            self.note_degenerate(P(a) - P(b))
            return False
        return self.simp(c)

    def note_degenerate(self, p):
        if len(self.degenerate) < 40:
            self.degenerate.setdefault((self.where(), p), p)

    def note_regular(self, text):
        self.regular.setdefault(self.where(), text[:200])

    # -- joins ---------------------------------------------------------------
    def join(self, c, a, b):
        """Value that is ``a`` where c holds and ``b`` elsewhere."""
        if a is b:
            return a
        if a is MISSING:
            return b
        if b is MISSING:
            return a
        if c is True:
            return a
        if c is False:
            return b
        ta, tb = type(a), type(b)
        if ta is tb and ta in (str, bytes, Ext):
            if a == b:
                return a
            return Phi(c, a, b)
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            return T.mk_cond(T.gamma(c, T.cond_poly(a), T.cond_poly(b)))
        if is_num(a) and is_num(b):
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            try:
                r = T.gamma(c, P(a), P(b))
            except TooLarge:
                r = T.opaque("join")
            if isinstance(a, NPoly) or isinstance(b, NPoly):
                return npoly(r)
            return r
        if isinstance(a, Arr) and isinstance(b, Arr) and a.shape == b.shape:
            if a.a is b.a:
                return a
            if self.same_view(a.a, b.a):
                return a
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                out[i] = self.join(c, a.a[i], b.a[i])
            r = Arr(out, a.dt if a.dt == b.dt else "f")
            return r
        if ta is tuple and tb is tuple and len(a) == len(b):
            return tuple(self.join(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Bound) and a == b:
            return a
        if ta is list and tb is list and len(a) == len(b):
            r = [self.join(c, x, y) for x, y in zip(a, b)]
            self.born(r)
            return r
        if ta is dict and tb is dict and set(a) == set(b):
            r = {k: self.join(c, a[k], b[k]) for k in a}
            self.born(r)
            return r
        if isinstance(a, Phi) and a.c == c:
            a = a.a
        if isinstance(b, Phi) and b.c == c:
            b = b.b
        return Phi(c, a, b)

    def same_view(self, x, y):
        return (x.shape == y.shape and x.strides == y.strides
                and x.__array_interface__["data"][0]
                == y.__array_interface__["data"][0])

    def join_container(self, c, cont, sa, sb):
        if isinstance(cont, np.ndarray):
            out = np.empty(cont.shape, dtype=object)
            for i in np.ndindex(*cont.shape):
                out[i] = self.join(c, sa[i], sb[i])
            put(cont, out)
        elif isinstance(cont, dict):
            out = {}
            for k in list(sa) + [k for k in sb if k not in sa]:
                out[k] = self.join(c, sa.get(k, MISSING), sb.get(k, MISSING))
            put(cont, out)
        elif isinstance(cont, list):
            if len(sa) == len(sb):
                put(cont, [self.join(c, x, y) for x, y in zip(sa, sb)])
            else:
                self.fail("list of data-dependent length")
        else:
            if sa != sb:
                self.fail("set with data-dependent content")

    # -- undecided branches ---------------------------------------------------
    def branch(self, c, then, orelse, frame):
        """Analyse both sides of a branch.  then/orelse: callables returning
        a signal (None or (kind, value))."""
        base = len(frame.pend)
        sides = []
        for cond, run in ((c, then), (T.not_(c), orelse)):
            j = self.open_journal()
            saved = self.push_assumption(cond)
            self.pc.append(cond)
            sig = None
            err = None
            try:
                sig = run()
            except InterpRaise as e:
                err = e
            finally:
                self.pc.pop()
                self.pop_assumption(saved)
            pend = frame.pend[base:]
            del frame.pend[base:]
            delta = {i: (cont, snap(cont)) for i, (cont, _) in j.old.items()}
            plist = []
            for p in pend:
                d = {}
                for i, (cont, _) in j.old.items():
                    if i in p.delta:
                        d[i] = p.delta[i]
                    elif i in p.journal.old:
                        d[i] = p.journal.old[i]
                    else:
                        d[i] = delta[i]
                for i, e in p.delta.items():
                    d.setdefault(i, e)
                plist.append((p.cond, d, p.kind, p.value))
                self.close_journal(p.journal)
            for cont, old in j.old.values():
                put(cont, old)
            self.close_journal(j)
            # containers created inside are unreachable from the other side
            sides.append((cond, sig, err, delta, plist, j.old))
        (c1, s1, e1, d1, p1, o1), (c2, s2, e2, d2, p2, o2) = sides
        if e1 is not None and e2 is not None:
            self.raises.append((self.path_cond(), e1.exc, e1.where))
            raise e2
        touched = dict(o1)
        for i, e in o2.items():
            touched.setdefault(i, e)

        def apply(delta):
            for i, (cont, old) in touched.items():
                if i in delta:
                    self.touch(cont)
                    put(cont, delta[i][1])

        def full(delta):
            return {i: delta.get(i, e) for i, e in touched.items()} | {
                i: e for i, e in delta.items() if i not in touched}

        outs = []
        for cond, plist in ((c1, p1), (c2, p2)):
            for pc, d, kind, value in plist:
                outs.append((T.and_(cond, pc), full(d), kind, value))
        if e1 is not None or e2 is not None:
            e, cond, s, d = (e1, c1, s2, d2) if e1 is not None \
                else (e2, c2, s1, d1)
            self.log_raise(cond, e)
            apply(d)
            self.assume_permanently(T.not_(cond))
            result = s
        elif s1 is None and s2 is None:
            for i, (cont, old) in touched.items():
                a = d1[i][1] if i in d1 else old
                b = d2[i][1] if i in d2 else old
                self.touch(cont)
                if cont is frame.vars or not isinstance(cont, (list, set)):
                    self.join_container(c1, cont, a, b)
                else:
                    self.join_container(c1, cont, a, b)
            result = None
        elif s1 is not None and s2 is not None and s1[0] == s2[0]:
            for i, (cont, old) in touched.items():
                a = d1[i][1] if i in d1 else old
                b = d2[i][1] if i in d2 else old
                self.touch(cont)
                self.join_container(c1, cont, a, b)
            v = self.join(c1, s1[1], s2[1]) if s1[0] == "return" else None
            result = (s1[0], v)
        elif s1 is not None and s2 is not None:
            outs.append((c1, full(d1), s1[0], s1[1]))
            apply(d2)
            result = s2
        elif s1 is not None:
            outs.append((c1, full(d1), s1[0], s1[1]))
            apply(d2)
            result = None
        else:
            outs.append((c2, full(d2), s2[0], s2[1]))
            apply(d1)
            result = None
        for cond, d, kind, value in outs:
            if cond is False:
                continue
            frame.pend.append(
                Pending(cond, d, kind, value, self.open_journal()))
        return result

    def settle(self, frame, kinds, value=None, skip=None):
        """Join the outcomes of early exits into the current state."""
        keep = []
        for p in reversed(frame.pend):
            if p.kind not in kinds:
                keep.append(p)
                continue
            self.close_journal(p.journal)
            ids = dict(p.journal.old)
            for i, e in p.delta.items():
                ids.setdefault(i, e)
            for i, (cont, _) in ids.items():
                if cont is skip:
                    continue
                a = p.delta[i][1] if i in p.delta else p.journal.old[i][1]
                b = snap(cont)
                self.touch(cont)
                self.join_container(p.cond, cont, a, b)
            if p.kind == "return":
                value = self.join(p.cond, p.value, value)
        keep.reverse()
        frame.pend[:] = keep
        return value

    def path_cond(self):
        c = True
        for x in self.pc:
            c = T.and_(c, x)
        return c

    def log_raise(self, cond, e):
        self.raises.append((T.and_(self.path_cond(), cond), e.exc, e.where))

    def push_assumption(self, c):
        if not isinstance(c, Cond):
            return None
        added = []
        for p, v in ((c.p, T.ONE), (T.ONE - c.p, T.ZERO)):
            a = T._single(p, "ind")
            if a is not None and a not in self.assume:
                self.assume[a] = v
                added.append(a)
        if not added and len(c.p.t) == 1:
            (m, k), = c.p.t.items()
            if k == 1 and all(a.kind == "ind" for a, _ in m):
                for a, _ in m:
                    if a not in self.assume:
                        self.assume[a] = T.ONE
                        added.append(a)
        return added

    def pop_assumption(self, added):
        for a in added or ():
            self.assume.pop(a, None)

    def assume_permanently(self, c):
        self.push_assumption(c)

    # -- modules -------------------------------------------------------------
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        src = self.program.find(name)
        if src is None:
            return None
        path, package, tree, cython = src
        if cython and not self.ext_available:
            return None
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        m = Module(name, path, package)
        m.tree = tree
        self.modules[name] = m
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        frame = Frame(m)
        frame.vars = m.ns
        self.stack.append([os.path.relpath(path, self.program.root),
                           "<module>", 1])
        try:
            self.exec_block(tree.body, frame)
        except InterpRaise:
            del self.modules[name]
            raise
        finally:
            self.stack.pop()
        m.ready = True
        if "." in name:
            par, _, leaf = name.rpartition(".")
            if par in self.modules:
                self.modules[par].ns.setdefault(leaf, m)
        return m

    def import_name(self, module, level, name):
        """Absolute module name of an import statement."""
        if not level:
            return name
        parts = module.name.split(".")
        if not module.package:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return ".".join(parts + ([name] if name else []))

    # -- statements ----------------------------------------------------------
    def exec_block(self, stmts, frame):
        for s in stmts:
            sig = self.exec(s, frame)
            if sig is not None:
                return sig
        return None

    def exec(self, s, frame):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Undecided("analysis budget exhausted")
        if self.stack:
            self.stack[-1][2] = getattr(s, "lineno", 0)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.fail("statement %s" % type(s).__name__)
        return m(s, frame)

    def s_Pass(self, s, f):
        return None

    def s_Expr(self, s, f):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value, f)
        return None

    def s_Assign(self, s, f):
        v = self.eval(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def s_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, f), f)

    def s_AugAssign(self, s, f):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, f)
            v = self.eval(s.value, f)
            self.assign(t, self.inplace(op, cur, v), f)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, f)
            cur = self.getattr(o, t.attr)
            v = self.eval(s.value, f)
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, f)
            i = self.eval_index(t.slice, f)
            if f.types:
                self.raw_access(t, o, i, f)
            cur = self.getitem(o, i)
            v = self.eval(s.value, f)
            self.setitem(o, i, self.inplace(op, cur, v))
        else:
            self.fail("augmented assignment")

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v)
            if isinstance(r, Arr) and r.shape == cur.shape:
                if cur.dt == "i" and r.dt == "f":
                    self.throw("TypeError", "cannot cast float to int")
                self.np.store(self, cur, Ellipsis, r)
                return cur
            if isinstance(r, Arr):
                self.throw("ValueError", "non-broadcastable output operand")
            return r
        if isinstance(cur, list) and op == "Add":
            self.touch(cur)
            cur.extend(self.iterate(v))
            return cur
        return self.binop(op, cur, v)

    def s_Return(self, s, f):
        v = self.eval(s.value, f) if s.value is not None else None
        return ("return", v)

    def s_Break(self, s, f):
        return ("break", None)

    def s_Continue(self, s, f):
        return ("continue", None)

    def s_If(self, s, f):
        c = self.truth(self.eval(s.test, f))
        if c is True:
            return self.exec_block(s.body, f)
        if c is False:
            return self.exec_block(s.orelse, f)
        return self.branch(c, lambda: self.exec_block(s.body, f),
                           lambda: self.exec_block(s.orelse, f), f)

    def s_For(self, s, f):
        it = self.iterate(self.eval(s.iter, f), lazy=True)
        for v in it:
            self.assign(s.target, v, f)
            sig = self.exec_block(s.body, f)
            self.settle(f, ("continue",))
            if sig is not None:
                if sig[0] == "break":
                    self.settle(f, ("break",))
                    return None
                if sig[0] == "continue":
                    continue
                # breaks seen earlier leave the loop, the rest returns
                if any(p.kind == "break" for p in f.pend):
                    self.fail("return after a data-dependent break")
                return sig
        had_break = any(p.kind == "break" for p in f.pend)
        if s.orelse:
            if had_break:
                self.fail("for-else with a data-dependent break")
            sig = self.exec_block(s.orelse, f)
            if sig is not None:
                return sig
        self.settle(f, ("break",))
        return None

    def s_While(self, s, f):
        for n in itertools.count():
            if n > MAX_WHILE:
                self.fail("loop exceeds the unrolling bound")
            c = self.truth(self.eval(s.test, f))
            if c is False:
                break
            if c is not True:
                if n >= 4:
                    self.fail("loop condition is not decided")
                # leave the loop where the condition is false
                self.branch(c, lambda: None, lambda: ("break", None), f)
            sig = self.exec_block(s.body, f)
            self.settle(f, ("continue",))
            if sig is not None:
                if sig[0] == "break":
                    break
                if sig[0] == "continue":
                    continue
                if any(p.kind == "break" for p in f.pend):
                    self.fail("return after a data-dependent break")
                return sig
        self.settle(f, ("break",))
        return None

    def s_FunctionDef(self, s, f):
        fn = self.make_function(s, f)
        for d in reversed(s.decorator_list):
            fn = self.decorate(d, fn, f)
        self.bind(s.name, fn, f)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, d, fn, f):
        dec = self.eval(d, f)
        if isinstance(dec, Ext):
            p = dec.path
            if p in ("builtins.property", "functools.cached_property"):
                return Prop(fn)
            if p == "builtins.staticmethod":
                return StaticM(fn)
            if p == "builtins.classmethod":
                return ClassM(fn)
            if p.startswith(("cython", "abc.", "numba", "functools.wraps",
                             "typing.")):
                return fn
            self.unknown[p] = self.unknown.get(p, 0) + 1
            return fn
        if isinstance(dec, (Func, Native, Bound, Cls)):
            return self.call(dec, [fn], {})
        return fn

    def make_function(self, s, f):
        a = s.args
        defaults = [self.eval(d, f) for d in a.defaults]
        kwd = {k.arg: self.eval(d, f)
               for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(s, "name", "<lambda>")
        env = f if f.func is not None or f.parent is not None else None
        fn = Func(s, name, f.module, env, defaults, kwd)
        fn.owner = f.cls
        return fn

    def s_ClassDef(self, s, f):
        bases = [self.eval(b, f) for b in s.bases]
        bases = [b for b in bases if not (isinstance(b, Ext) and b.path in (
            "builtins.object", "abc.ABC"))]
        cf = Frame(f.module, f if f.func is not None else None)
        cls = Cls.__new__(Cls)
        cf.cls = cls
        cf.class_body = True
        sig = self.exec_block(s.body, cf)
        cls.__init__(s.name, bases, cf.vars, f.module, s)
        cf.vars.setdefault("__doc__", None)
        for v in list(cf.vars.values()):
            if isinstance(v, Func):
                v.owner = cls
            elif isinstance(v, Prop):
                for g in (v.fget, v.fset):
                    if isinstance(g, Func):
                        g.owner = cls
        self.bind(s.name, cls, f)

    def s_Import(self, s, f):
        for a in s.names:
            m = self.load(a.name)
            if m is None and self.program.owns(a.name):
                self.throw("ImportError", a.name)
            if a.asname:
                v = m if m is not None else Ext(a.name)
                self.bind(a.asname, v, f)
            else:
                top = a.name.split(".")[0]
                m = self.load(top)
                self.bind(top, m if m is not None else Ext(top), f)

    def s_ImportFrom(self, s, f):
        if s.module == "__future__":
            return
        full = self.import_name(f.module, s.level, s.module)
        if self.program.missing(full):
            self.throw("ImportError", full)
        m = self.load(full)
        if m is None and self.program.owns(full):
            self.throw("ImportError", full)
        for a in s.names:
            if a.name == "*":
                if m is None:
                    continue
                names = m.ns.get("__all__") or [
                    n for n in m.ns if not n.startswith("_")]
                for n in names:
                    self.bind(n, m.ns[n], f)
                continue
            if m is not None:
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    v = self.load(full + "." + a.name)
                    if v is None:
                        self.throw("ImportError", full + "." + a.name)
            else:
                v = Ext(full + "." + a.name)
                if self.program.missing(v.path):
                    self.throw("ImportError", v.path)
                if v.path in self.np.CONSTS:
                    v = self.np.CONSTS[v.path]
            self.bind(a.asname or a.name, v, f)

    def s_Raise(self, s, f):
        if s.exc is None:
            cur = getattr(f, "current_exc", None)
            if cur is None:
                self.fail("re-raise")
            raise cur
        v = self.eval(s.exc, f)
        if isinstance(v, Ext):
            v = Exc(v.path.rpartition(".")[2])
        elif isinstance(v, Cls):
            v = self.call(v, [], {})
        if isinstance(v, Obj):
            v = Exc(v.cls.name, (), v.cls)
        if not isinstance(v, Exc):
            v = Exc("Exception")
        raise InterpRaise(v, self.where())

    def s_Assert(self, s, f):
        c = self.truth(self.eval(s.test, f))
        if c is False:
            raise InterpRaise(Exc("AssertionError"), self.where())
        if c is not True:
            self.log_raise(T.not_(c), InterpRaise(Exc("AssertionError"),
                                                  self.where()))
            self.assume_permanently(c)

    def s_Try(self, s, f):
        sig = None
        try:
            n = len(self.raises)
            sig = self.exec_block(s.body, f)
            if s.handlers and len(self.raises) > n:
                pass
        except InterpRaise as e:
            for h in s.handlers:
                if self.handles(h, e, f):
                    if h.name:
                        self.bind(h.name, e.exc, f)
                    saved = getattr(f, "current_exc", None)
                    f.current_exc = e
                    try:
                        sig = self.exec_block(h.body, f)
                    finally:
                        f.current_exc = saved
                    break
            else:
                if s.finalbody:
                    self.exec_block(s.finalbody, f)
                raise
        else:
            if sig is None and s.orelse:
                sig = self.exec_block(s.orelse, f)
        if s.finalbody:
            fin = self.exec_block(s.finalbody, f)
            if fin is not None:
                return fin
        return sig

    def handles(self, h, e, f):
        if h.type is None:
            return True
        t = self.eval(h.type, f)
        ts = t if isinstance(t, tuple) else (t,)
        for t in ts:
            name = t.path.rpartition(".")[2] if isinstance(t, Ext) else \
                t.name if isinstance(t, Cls) else None
            if name is None:
                continue
            if exc_isa(e.exc.name, name):
                return True
            if e.exc.cls is not None:
                for c in e.exc.cls.mro:
                    n = c.name if isinstance(c, Cls) else \
                        c.path.rpartition(".")[2]
                    if exc_isa(n, name):
                        return True
        return False

    def s_With(self, s, f):
        exits = []
        for item in s.items:
            v = self.eval(item.context_expr, f)
            r = v
            if isinstance(v, Obj):
                r = self.call(self.getattr(v, "__enter__"), [], {})
                exits.append(v)
            elif isinstance(v, Unk):
                exits.append(v)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, r, f)
        try:
            sig = self.exec_block(s.body, f)
        finally:
            for v in reversed(exits):
                if isinstance(v, Obj):
                    self.call(self.getattr(v, "__exit__"),
                              [None, None, None], {})
                elif isinstance(v, Unk):
                    self.event("exit", "with", (v,))
        return sig

    def s_Global(self, s, f):
        f.globals_.update(s.names)

    def s_Nonlocal(self, s, f):
        f.nonlocals.update(s.names)

    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.touch(f.vars)
                f.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, f)
                if not isinstance(o, Obj):
                    self.fail("del")
                self.touch(o.d)
                if t.attr not in o.d:
                    self.throw("AttributeError", t.attr)
                del o.d[t.attr]
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, f)
                i = self.eval_index(t.slice, f)
                if isinstance(o, (dict, list)):
                    self.touch(o)
                    try:
                        del o[i]
                    except (KeyError, IndexError) as e:
                        self.throw(type(e).__name__, str(i))
                else:
                    self.fail("del")

    # -- names -----------------------------------------------------------------
    def bind(self, name, v, f):
        if name in f.types:
            v = self.coerce(v, f.types[name])
        if name in f.globals_:
            self.touch(f.module.ns)
            f.module.ns[name] = v
            return
        if name in f.nonlocals:
            p = f.parent
            while p is not None:
                if name in p.vars:
                    self.touch(p.vars)
                    p.vars[name] = v
                    return
                p = p.parent
        self.touch(f.vars)
        f.vars[name] = v

    def lookup(self, name, f):
        g = f
        while g is not None:
            if name in g.vars and not (g is not f and getattr(
                    g, "class_body", False)):
                return g.vars[name]
            g = g.parent
        ns = f.module.ns
        if name in ns:
            return ns[name]
        if name in self.np.BUILTINS or name in EXC_BASES:
            return Ext("builtins." + name)
        if name == "__class__" and f.func is not None:
            return f.func.owner
        self.throw("NameError", name)

    def coerce(self, v, ty):
        """C type conversion of a Cython variable."""
        if ty in ("double", "float"):
            if isinstance(v, bool):
                return P(v)
            if isinstance(v, int):
                return P(v)
            if isinstance(v, Poly):
                return plain(v)
            if isinstance(v, Cond):
                return v.p
            if isinstance(v, Arr) and v.a.size == 1:
                return plain(P(v.a.reshape(-1)[0]))
            if isinstance(v, Phi):
                return self.lift(lambda x: self.coerce(x, ty), v)
            if isinstance(v, Unk):
                return T.opaque(v.note)
            self.throw("TypeError", "must be real number")
        if ty in ("int", "long", "Py_ssize_t", "size_t", "unsigned int"):
            if isinstance(v, int):
                return int(v)
            if isinstance(v, Poly):
                k = frac_const(v)
                if k is not None:
                    return int(k)
                return T.fn("trunc", v)
            return v
        if ty == "bint":
            return self.truth(v)
        if isinstance(ty, tuple):
            # buffer type: (element kind, number of dimensions)
            if isinstance(v, Arr):
                if v.a.ndim != ty[1]:
                    self.throw("ValueError", "Buffer has wrong number of "
                               "dimensions")
                if v.dt != ty[0]:
                    self.throw("ValueError", "Buffer dtype mismatch")
                return v
            if v is None or isinstance(v, (Unk, Phi)):
                return v
            self.throw("TypeError", "expected an array")
        if ty == "ndarray":
            if v is None or isinstance(v, (Arr, Unk, Phi)):
                return v
            self.throw("TypeError", "expected an array")
        return v

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, f)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x,
                            y, f)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, f)
            i = self.eval_index(t.slice, f)
            if f.types:
                self.raw_access(t, o, i, f)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, f)
        else:
            self.fail("assignment target")

    def unpack(self, v, elts):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Unk):
            return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, Phi):
            a, b = self.unpack(v.a, elts), self.unpack(v.b, elts)
            return [self.join(v.c, x, y) for x, y in zip(a, b)]
        vals = list(self.iterate(v))
        if star:
            i = star[0]
            k = len(vals) - (n - 1)
            if k < 0:
                self.throw("ValueError", "not enough values to unpack")
            return vals[:i] + [vals[i:i + k]] + vals[i + k:]
        if len(vals) != n:
            self.throw("ValueError", "wrong number of values to unpack")
        return vals

    # -- expressions -------------------------------------------------------------
    def eval(self, e, f):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.fail("expression %s" % type(e).__name__)
        return m(e, f)

    def e_Constant(self, e, f):
        v = e.value
        if isinstance(v, float):
            return T.float_const(v)
        if isinstance(v, complex):
            self.fail("complex number")
        return v

    def e_Name(self, e, f):
        return self.lookup(e.id, f)

    def e_Tuple(self, e, f):
        return tuple(self.elements(e.elts, f))

    def e_List(self, e, f):
        r = self.elements(e.elts, f)
        self.born(r)
        return r

    def e_Set(self, e, f):
        r = set(self.elements(e.elts, f))
        self.born(r)
        return r

    def elements(self, elts, f):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, f)))
            else:
                out.append(self.eval(x, f))
        return out

    def e_Dict(self, e, f):
        d = {}
        self.born(d)
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, f))
            else:
                d[self.key(self.eval(k, f))] = self.eval(v, f)
        return d

    def key(self, k):
        if isinstance(k, Poly) and k.is_const() \
                and k.const_value().denominator == 1:
            return int(k.const_value())
        return k

    def e_BinOp(self, e, f):
        return self.binop(type(e.op).__name__, self.eval(e.left, f),
                          self.eval(e.right, f))

    def e_UnaryOp(self, e, f):
        v = self.eval(e.operand, f)
        op = type(e.op).__name__
        return self.unop(op, v)

    def unop(self, op, v):
        if isinstance(v, Phi):
            return self.lift(lambda x: self.unop(op, x), v)
        if op == "Not":
            c = self.truth(v)
            return T.not_(c)
        if isinstance(v, Arr):
            return self.np.unary(self, op, v)
        if isinstance(v, Unk):
            return T.opaque(v.note)
        if op == "USub":
            if isinstance(v, int):
                return -v
            if isinstance(v, NPoly):
                return npoly(-v)
            if isinstance(v, (Poly, Cond)):
                return -P(v)
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, bool):
                return ~v
            if isinstance(v, int):
                return ~v
            if isinstance(v, Cond):
                return T.not_(v)
        if isinstance(v, Obj):
            return self.call(self.getattr(
                v, {"USub": "__neg__", "UAdd": "__pos__",
                    "Invert": "__invert__"}[op]), [], {})
        self.throw("TypeError", "bad operand type")

    def e_BoolOp(self, e, f):
        return self.boolop(isinstance(e.op, ast.And), e.values, f)

    def boolop(self, is_and, values, f):
        v = self.eval(values[0], f)
        if len(values) == 1:
            return v
        c = self.truth(v)
        if c is True:
            return self.boolop(is_and, values[1:], f) if is_and else v
        if c is False:
            return v if is_and else self.boolop(is_and, values[1:], f)
        rest = self.guarded(c if is_and else T.not_(c),
                            lambda: self.boolop(is_and, values[1:], f), f)
        if rest is MISSING:
            # the other operand cannot be evaluated there
            return v
        if isinstance(rest, (bool, Cond)):
            return T.and_(c, rest) if is_and else T.or_(c, rest)
        if isinstance(v, (bool, Cond)):
            v = not is_and
        return self.join(c, rest, v) if is_and else self.join(c, v, rest)

    def guarded(self, cond, thunk, f):
        """Evaluate an expression that is only evaluated under ``cond``."""
        box = [MISSING]

        def run():
            box[0] = thunk()
            return None
        self.branch(cond, run, lambda: None, f)
        return box[0]

    def e_IfExp(self, e, f):
        c = self.truth(self.eval(e.test, f))
        if c is True:
            return self.eval(e.body, f)
        if c is False:
            return self.eval(e.orelse, f)
        box = [MISSING, MISSING]

        def run(i, x):
            box[i] = self.eval(x, f)
            return None
        self.branch(c, lambda: run(0, e.body), lambda: run(1, e.orelse), f)
        return self.join(c, box[0], box[1])

    def e_Compare(self, e, f):
        left = self.eval(e.left, f)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, f)
            c = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            res = T.and_(res, self.truth(c))
            left = right
        return res

    def e_Call(self, e, f):
        fn = self.eval(e.func, f)
        args = self.elements(e.args, f)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, f)
                if not isinstance(d, dict):
                    self.fail("** argument")
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.eval(k.value, f)
        if isinstance(fn, Ext) and fn.path == "builtins.super":
            if args:
                return Super(args[0], args[1])
            g = f
            while g.func is None or g.func.owner is None:
                g = g.parent
                if g is None:
                    self.fail("super()")
            first = g.func.node.args.args[0].arg
            return Super(g.func.owner, g.vars[first])
        if isinstance(fn, Ext) and fn.path in ("builtins.locals",
                                               "builtins.vars") and not args:
            return dict(f.vars)
        if self.stack:
            self.stack[-1][2] = e.lineno
        return self.call(fn, args, kwargs)

    def e_Attribute(self, e, f):
        return self.getattr(self.eval(e.value, f), e.attr)

    def e_Subscript(self, e, f):
        o = self.eval(e.value, f)
        i = self.eval_index(e.slice, f)
        if f.types:
            self.raw_access(e, o, i, f)
        return self.getitem(o, i)

    def raw_access(self, e, o, i, f):
        """Element access compiled without bounds checks."""
        if not (isinstance(e.value, ast.Name) and isinstance(
                f.types.get(e.value.id), tuple) and isinstance(o, Arr)):
            return
        idx = i if isinstance(i, tuple) else (i,)
        if len(idx) != o.a.ndim or not all(
                isinstance(k, int) for k in idx):
            return
        self.raw_accesses.append((
            self.where(), e.value.id, idx, o.a.shape,
            getattr(f.func.node, "cy_unchecked", False),
            getattr(f.func.node, "cy_nowrap", False)))

    def eval_index(self, s, f):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s, f)
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, f) for x in s.elts)
        return self.eval(s, f)

    def e_Slice(self, e, f):
        def ev(x):
            if x is None:
                return None
            v = self.eval(x, f)
            return self.as_index(v)
        return slice(ev(e.lower), ev(e.upper), ev(e.step))

    def as_index(self, v):
        if v is None or isinstance(v, int):
            return v
        if isinstance(v, Poly) and v.is_const() \
                and v.const_value().denominator == 1:
            return int(v.const_value())
        if isinstance(v, Arr) and v.a.size == 1 and v.dt == "i":
            return int(v.a.reshape(-1)[0])
        self.fail("index is not a constant: %s" % (v,))

    def e_Lambda(self, e, f):
        node = ast.FunctionDef(
            name="<lambda>", args=e.args,
            body=[ast.Return(value=e.body, lineno=e.lineno, col_offset=0)],
            decorator_list=[], lineno=e.lineno, col_offset=0)
        return self.make_function(node, f if f.func else
                                  self.module_env(f))

    def module_env(self, f):
        return f

    def e_JoinedStr(self, e, f):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.eval(v.value, f)
                x = self.np.to_str(self, x)
                if isinstance(x, self.np.NumStr) and len(e.values) == 1:
                    spec = self.eval(v.format_spec, f) if v.format_spec \
                        else ""
                    return self.np.NumStr(x.p, spec)
                out.append(x)
        return "".join(out)

    def comp(self, e, f, emit):
        cf = Frame(f.module, f, f.func)
        cf.types = {}
        base_pend = f.pend
        cf.pend = base_pend

        def run(i):
            if i == len(e.generators):
                emit(cf)
                return
            g = e.generators[i]
            src = self.eval(g.iter, cf if i else f)
            for v in self.iterate(src):
                self.assign(g.target, v, cf)
                ok = True
                for t in g.ifs:
                    c = self.truth(self.eval(t, cf))
                    if c is False:
                        ok = False
                        break
                    if c is not True:
                        self.fail("comprehension filter is not decided")
                if ok:
                    run(i + 1)
        run(0)

    def e_ListComp(self, e, f):
        out = []
        self.born(out)
        self.comp(e, f, lambda cf: out.append(self.eval(e.elt, cf)))
        return out

    def e_GeneratorExp(self, e, f):
        return self.e_ListComp(e, f)

    def e_SetComp(self, e, f):
        return set(self.e_ListComp(e, f))

    def e_DictComp(self, e, f):
        out = {}
        self.born(out)

        def emit(cf):
            k = self.key(self.eval(e.key, cf))
            out[k] = self.eval(e.value, cf)
        self.comp(e, f, emit)
        return out

    def e_Starred(self, e, f):
        self.fail("starred expression")

    def e_NamedExpr(self, e, f):
        v = self.eval(e.value, f)
        self.assign(e.target, v, f)
        return v

    def e_Yield(self, e, f):
        g = f
        while g.yields is None:
            g = g.parent
            if g is None:
                self.fail("yield")
        g.yields.append(self.eval(e.value, f) if e.value else None)
        return None

    def e_YieldFrom(self, e, f):
        f.yields.extend(self.iterate(self.eval(e.value, f)))

    # -- lifting over joins ---------------------------------------------------
    def lift(self, fn, v):
        a = b = MISSING
        ea = eb = None
        try:
            a = fn(v.a)
        except InterpRaise as e:
            ea = e
        try:
            b = fn(v.b)
        except InterpRaise as e:
            eb = e
        if ea is not None and eb is not None:
            raise ea
        if ea is not None:
            self.log_raise(v.c, ea)
        if eb is not None:
            self.log_raise(T.not_(v.c), eb)
        return self.join(v.c, a, b)

    # -- truth ------------------------------------------------------------------
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Cond):
            return self.simp(v)
        if v is None:
            return False
        if isinstance(v, (int, str, bytes, list, tuple, dict, set, range)):
            return bool(v)
        if isinstance(v, Poly):
            return T.not_(self.compare_eq(v, T.ZERO))
        if isinstance(v, Arr):
            if v.a.size == 1:
                return self.truth(v.a.reshape(-1)[0])
            self.throw("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, Phi):
            a, b = self.truth(v.a), self.truth(v.b)
            return self.simp(T.mk_cond(T.gamma(
                v.c, T.cond_poly(a), T.cond_poly(b))))
        if isinstance(v, Unk):
            return self.simp(T.bool_sym("truth of " + v.note))
        if isinstance(v, Obj):
            for n in ("__bool__", "__len__"):
                m, _ = v.cls.lookup(n)
                if m is not None:
                    return self.truth(self.call(Bound(m, v), [], {}))
            return True
        return True

    # -- operators -----------------------------------------------------------------
    def binop(self, op, a, b):
        return self.np.binop(self, op, a, b)

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            return r if op == "Is" else T.not_(r)
        if isinstance(a, Phi):
            return self.lift(lambda x: self.compare(op, x, b), a)
        if isinstance(b, Phi):
            return self.lift(lambda x: self.compare(op, a, x), b)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else T.not_(r)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (type(None), str)) or isinstance(
                    b, (type(None), str)):
                return op == "NotEq"
            return self.np.compare(self, op, a, b)
        return self.compare_scalar(op, a, b)

    def compare_scalar(self, op, a, b):
        if isinstance(a, Unk) or isinstance(b, Unk):
            return T.bool_sym("compare %s %s %s" % (op, a, b))
        if is_num(a) and is_num(b):
            if op == "Eq":
                return self.compare_eq(a, b)
            if op == "NotEq":
                return T.not_(self.compare_eq(a, b))
            if op == "Lt":
                return self.compare_lt(a, b)
            if op == "Gt":
                return self.compare_lt(b, a)
            if op == "LtE":
                return T.not_(self.compare_lt(b, a))
            if op == "GtE":
                return T.not_(self.compare_lt(a, b))
        if op in ("Eq", "NotEq"):
            r = self.equal_values(a, b)
            return r if op == "Eq" else T.not_(r)
        if isinstance(a, (str, tuple, list)) and type(a) is type(b):
            try:
                return {"Lt": a < b, "Gt": a > b, "LtE": a <= b,
                        "GtE": a >= b}[op]
            except TypeError:
                self.fail("comparison of sequences")
        self.throw("TypeError", "unorderable types")

    def equal_values(self, a, b):
        if a is b:
            return True
        if isinstance(a, Phi):
            return self.lift(lambda x: self.equal_values(x, b), a)
        if isinstance(b, Phi):
            return self.lift(lambda x: self.equal_values(a, x), b)
        if is_num(a) and is_num(b):
            return self.compare_eq(a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = T.and_(r, self.truth(self.equal_values(x, y)))
            return r
        if isinstance(a, Obj):
            m, _ = a.cls.lookup("__eq__")
            if m is not None:
                return self.call(Bound(m, a), [b], {})
            return False
        if isinstance(a, (str, bytes, Ext, Bound, Cls, Func, set, dict,
                          slice, range)):
            try:
                return bool(a == b)
            except TypeError:
                self.fail("equality of containers")
        return False

    def identical(self, a, b):
        if isinstance(a, Phi):
            return self.truth(self.lift(lambda x: self.identical(x, b), a))
        if isinstance(b, Phi):
            return self.truth(self.lift(lambda x: self.identical(a, x), b))
        if a is None or b is None:
            if isinstance(a, Unk) or isinstance(b, Unk):
                return False
            return a is b
        if isinstance(a, (bool, Cond)) and isinstance(b, bool):
            return a if b is True else T.not_(a)
        if isinstance(a, bool) and isinstance(b, Cond):
            return b if a else T.not_(b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a is b or a.a is b.a
        if isinstance(a, (str, int, Ext)) and type(a) is type(b):
            return a == b
        return a is b

    def contains(self, c, x):
        if isinstance(c, (list, tuple)):
            r = False
            for y in c:
                r = T.or_(r, self.truth(self.equal_values(x, y)))
                if r is True:
                    return True
            return r
        if isinstance(c, (dict, set)):
            return self.key(x) in c
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Arr):
            return self.contains(list(c.a.reshape(-1)), x)
        if isinstance(c, range):
            return x in c
        if isinstance(c, Obj):
            return self.truth(self.call(
                self.getattr(c, "__contains__"), [x], {}))
        if isinstance(c, Unk):
            return T.bool_sym("membership in " + c.note)
        self.throw("TypeError", "argument is not iterable")

    # -- iteration -----------------------------------------------------------------
    def iterate(self, v, lazy=False):
        if isinstance(v, (list, tuple, range, str)):
            return list(v) if not isinstance(v, list) else list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, set):
            return sorted(v, key=repr)
        if isinstance(v, Arr):
            if v.a.ndim == 0:
                self.throw("TypeError", "iteration over a 0-d array")
            return [self.getitem(v, i) for i in range(v.a.shape[0])]
        if isinstance(v, (type({}.keys()), type({}.values()),
                          type({}.items()))):
            return list(v)
        if isinstance(v, Obj):
            m, _ = v.cls.lookup("__iter__")
            if m is not None:
                return self.iterate(self.call(Bound(m, v), [], {}))
            m, _ = v.cls.lookup("__getitem__")
            if m is not None:
                out = []
                for i in range(64):
                    try:
                        out.append(self.call(Bound(m, v), [i], {}))
                    except InterpRaise as e:
                        if exc_isa(e.exc.name, "IndexError"):
                            return out
                        raise
        if isinstance(v, (itertools.chain, zip, map, enumerate, reversed)):
            return list(v)
        if isinstance(v, Phi):
            la, lb = self.iterate(v.a), self.iterate(v.b)
            if len(la) == len(lb):
                return [self.join(v.c, x, y) for x, y in zip(la, lb)]
        if is_num(v) or v is None:
            self.throw("TypeError", "object is not iterable")
        self.fail("iteration over %s" % (v,))

    # -- attributes ------------------------------------------------------------------
    def getattr(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except InterpRaise as e:
            if default is not MISSING and e.exc.name == "AttributeError":
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            v, owner = o.cls.lookup(name)
            if isinstance(v, Prop):
                return self.call(v.fget, [o], {})
            if name in o.d:
                return o.d[name]
            if name == "__dict__":
                return o.d
            if name == "__class__":
                return o.cls
            if name == "__module__":
                return o.cls.module.name
            if v is not None or owner is not None:
                return self.bind_method(v, o, o.cls)
            for b in o.cls.mro:
                if isinstance(b, Ext):
                    r = self.np.ext_attr(self, b.path, o, name)
                    if r is not MISSING:
                        return r
            m, _ = o.cls.lookup("__getattr__")
            if m is not None:
                return self.call(Bound(m, o), [name], {})
            if any(isinstance(b, Ext) for b in o.cls.mro):
                self.fail("attribute %s of an external base class" % name)
            self.throw("AttributeError", "%s has no attribute %s" % (
                o.cls.name, name))
        if isinstance(o, Super):
            mro = o.obj.cls.mro if isinstance(o.obj, Obj) else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, Cls) and name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Prop):
                        return self.call(v.fget, [o.obj], {})
                    return self.bind_method(v, o.obj, o.obj.cls)
                if isinstance(c, Ext):
                    return self.np.ext_method(self, c.path, o.obj, name)
            if name == "__init__":
                return Native(lambda ip, a, k: None, "object.__init__")
            if name == "__setattr__":
                return Native(lambda ip, a, k: ip.raw_setattr(o.obj, *a),
                              "object.__setattr__")
            self.throw("AttributeError", name)
        if isinstance(o, Module):
            if name in o.ns:
                return o.ns[name]
            m = self.load(o.name + "." + name)
            if m is not None:
                return m
            self.throw("AttributeError", "%s.%s" % (o.name, name))
        if isinstance(o, Cls):
            if name == "__name__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__module__":
                return o.module.name
            v, owner = o.lookup(name)
            if owner is not None:
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, ClassM):
                    return Bound(v.f, o)
                return v
            for b in o.mro:
                if isinstance(b, Ext):
                    return Ext(b.path + "." + name)
            self.throw("AttributeError", name)
        if isinstance(o, Phi):
            return self.lift(lambda x: self.getattr(x, name), o)
        if isinstance(o, Prop):
            if name == "setter":
                return Native(lambda ip, a, k: Prop(o.fget, a[0], o.fdel))
            if name == "getter":
                return Native(lambda ip, a, k: Prop(a[0], o.fset, o.fdel))
            if name == "deleter":
                return Native(lambda ip, a, k: Prop(o.fget, o.fset, a[0]))
            if name in ("fget", "fset"):
                return getattr(o, name)
        if isinstance(o, Func):
            if name in o.d:
                return o.d[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__dict__":
                return o.d
            if name == "__module__":
                return getattr(o.module, "name", o.module)
            if name == "__class__":
                u = Unk("class function")
                u.d["__name__"] = "function"
                return u
            if name == "__doc__":
                return ast.get_docstring(o.node) if hasattr(
                    o.node, "body") else None
            return Unk("%s.%s" % (o.name, name))
        if isinstance(o, Bound) and name in ("__self__", "__func__"):
            return o.self if name == "__self__" else o.func
        return self.np.attr(self, o, name)

    def bind_method(self, v, o, cls):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, Native):
            return v
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            m, _ = o.cls.lookup(name)
            if isinstance(m, Prop):
                if m.fset is None:
                    self.throw("AttributeError", "can't set " + name)
                self.call(m.fset, [o, v], {})
                return
            m, _ = o.cls.lookup("__setattr__")
            if m is not None:
                self.call(Bound(m, o), [name, v], {})
                return
            self.raw_setattr(o, name, v)
        elif isinstance(o, Cls):
            self.touch(o.ns)
            o.ns[name] = v
        elif isinstance(o, Module):
            self.touch(o.ns)
            o.ns[name] = v
        elif isinstance(o, Unk):
            self.event("setattr", "%s.%s" % (o.note, name), (v,))
            o.d[name] = v
        elif isinstance(o, Exc):
            o.d[name] = v
        elif isinstance(o, Func):
            self.touch(o.d)
            o.d[name] = v
        elif isinstance(o, Phi):
            self.fail("attribute store on a joined object")
        elif isinstance(o, Arr) and name == "shape":
            self.fail("in-place reshape")
        else:
            self.throw("AttributeError", name)

    def raw_setattr(self, o, name, v):
        self.touch(o.d)
        o.d[name] = v
        for ob in self.observers:
            ob("setattr", o, name, v)

    # -- items ----------------------------------------------------------------------
    def getitem(self, o, i):
        if isinstance(o, Arr):
            return self.np.load_item(self, o, i)
        if isinstance(o, Phi):
            return self.lift(lambda x: self.getitem(x, i), o)
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, slice):
                r = o[i]
                if isinstance(r, list):
                    self.born(r)
                return r
            if isinstance(i, Phi):
                return self.lift(lambda x: self.getitem(o, x), i)
            if isinstance(i, Poly) and not i.is_const():
                return self.np.symbolic_index(self, o, i)
            i = self.as_index(i)
            try:
                return o[i]
            except IndexError:
                self.throw("IndexError", "index out of range")
            except TypeError:
                self.throw("TypeError", "bad index")
        if isinstance(o, range):
            return o[i]
        if isinstance(o, dict):
            if isinstance(i, Phi):
                return self.lift(lambda x: self.getitem(o, x), i)
            k = self.key(i)
            try:
                if k in o:
                    return o[k]
            except TypeError:
                self.throw("TypeError", "unhashable")
            self.throw("KeyError", k)
        if isinstance(o, Obj):
            return self.call(self.getattr(o, "__getitem__"), [i], {})
        if isinstance(o, Unk):
            return self.np.unk_item(self, o, i)
        if isinstance(o, Ext):
            if o.path in ("numpy.r_", "numpy.c_", "numpy.s_"):
                return self.np.index_helper(self, o.path, i)
            return o
        if isinstance(o, NPoly):
            return self.np.load_item(self, self.np.as_arr(self, o), i)
        self.throw("TypeError", "object is not subscriptable")

    def setitem(self, o, i, v):
        if isinstance(o, Arr):
            self.np.store(self, o, i, v)
        elif isinstance(o, list):
            self.touch(o)
            if isinstance(i, slice):
                o[i] = list(self.iterate(v))
                return
            i = self.as_index(i)
            try:
                o[i] = v
            except IndexError:
                self.throw("IndexError", "assignment index out of range")
        elif isinstance(o, dict):
            self.touch(o)
            o[self.key(i)] = v
        elif isinstance(o, Obj):
            self.call(self.getattr(o, "__setitem__"), [i, v], {})
        elif isinstance(o, Unk):
            self.event("setitem", o.note, (i, v))
            try:
                o.d[("item", i)] = v
            except TypeError:
                pass
        elif isinstance(o, Phi):
            self.fail("item store on a joined object")
        else:
            self.throw("TypeError", "object does not support item assignment")

    # -- calls -----------------------------------------------------------------------
    def call(self, fn, args, kwargs):
        if isinstance(fn, Func):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, Bound):
            if isinstance(fn.func, Native):
                return fn.func.f(self, [fn.self] + args, kwargs)
            return self.call(fn.func, [fn.self] + args, kwargs)
        if isinstance(fn, Native):
            return fn.f(self, args, kwargs)
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, Ext):
            return self.np.call_ext(self, fn.path, args, kwargs)
        if isinstance(fn, Obj):
            return self.call(self.getattr(fn, "__call__"), args, kwargs)
        if isinstance(fn, Phi):
            return self.call_phi(fn, args, kwargs)
        if isinstance(fn, Unk):
            return self.np.call_unk(self, fn, args, kwargs)
        if isinstance(fn, StaticM):
            return self.call(fn.f, args, kwargs)
        self.throw("TypeError", "object is not callable")

    def call_phi(self, fn, args, kwargs):
        frame = Frame(None)
        box = [MISSING, MISSING]

        def run(i, g):
            box[i] = self.call(g, args, kwargs)
            return None
        self.branch(fn.c, lambda: run(0, fn.a), lambda: run(1, fn.b), frame)
        return self.join(fn.c, box[0], box[1])

    def instantiate(self, cls, args, kwargs):
        for c in cls.mro:
            if isinstance(c, Ext) and exc_isa(
                    c.path.rpartition(".")[2], "BaseException") \
                    and c.path.startswith("builtins."):
                return Exc(cls.name, tuple(args), cls)
        o = Obj(cls)
        init, owner = cls.lookup("__init__")
        if init is not None:
            self.call_func(init, [o] + args, kwargs) \
                if isinstance(init, Func) else self.call(
                    init, [o] + args, kwargs)
        else:
            for c in cls.mro:
                if isinstance(c, Ext):
                    self.call(self.np.ext_method(
                        self, c.path, o, "__init__"), args, kwargs)
        return o

    def call_func(self, fn, args, kwargs):
        if len(self.stack) > 120:
            self.fail("call depth")
        summary = self.summaries.get(id(fn.node))
        if summary is not None:
            return summary(self, args, kwargs)
        frame = Frame(fn.module, fn.env, fn)
        types = getattr(fn.node, "cy_types", None)
        if types:
            frame.types = types
        self.bind_args(fn, args, kwargs, frame)
        key = (fn.module.name, getattr(fn.owner, "name", None), fn.name)
        self.functions[key] = self.functions.get(key, 0) + 1
        if fn.generator is None:
            fn.generator = any(
                isinstance(n, (ast.Yield, ast.YieldFrom))
                for n in _own_nodes(fn.node))
        if fn.generator:
            frame.yields = []
        qual = fn.name if fn.owner is None else "%s.%s" % (
            getattr(fn.owner, "name", "?"), fn.name)
        self.stack.append([os.path.relpath(fn.module.path, self.program.root),
                           qual, fn.node.lineno])
        self.fstack.append(fn)
        self.born(frame.vars)
        njournals = len(self.journals)
        try:
            sig = self.exec_block(fn.node.body, frame)
            v = sig[1] if sig is not None else None
            v = self.settle(frame, ("return",), v, skip=frame.vars)
        except InterpRaise as e:
            if not frame.pend:
                raise
            c = False
            for p in frame.pend:
                c = T.or_(c, p.cond)
            self.log_raise(T.not_(c), e)
            self.close_journal(frame.pend[-1].journal)
            v = self.raise_after_exits(frame)
            self.assume_permanently(c)
        except Undecided:
            del self.journals[njournals:]
            raise
        finally:
            self.stack.pop()
            self.fstack.pop()
        if fn.generator:
            self.born(frame.yields)
            return frame.yields
        return v

    def raise_after_exits(self, frame):
        """Some inputs return early, all others raise."""
        if any(p.kind != "return" for p in frame.pend):
            raise Undecided("raise inside a data-dependent loop exit (%s)"
                            % self.where())
        p = frame.pend.pop()
        ids = dict(p.journal.old)
        for i, e in p.delta.items():
            ids.setdefault(i, e)
        for i, (cont, _) in ids.items():
            if cont is frame.vars:
                continue
            self.touch(cont)
            put(cont, p.delta[i][1] if i in p.delta
                else p.journal.old[i][1])
        return self.settle(frame, ("return",), p.value, skip=frame.vars)

    def bind_args(self, fn, args, kwargs, frame):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        kwargs = dict(kwargs)
        vals = {}
        if len(args) > len(pos):
            if a.vararg is None:
                self.throw("TypeError", "%s() takes %d arguments, got %d" % (
                    fn.name, len(pos), len(args)))
        for n, v in zip(pos, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(pos):])
        names = pos + [x.arg for x in a.kwonlyargs]
        for k in list(kwargs):
            if k in names:
                if k in vals:
                    self.throw("TypeError", "%s() got multiple values for %s"
                               % (fn.name, k))
                vals[k] = kwargs.pop(k)
        if kwargs:
            if a.kwarg is None:
                self.throw("TypeError", "%s() got an unexpected keyword "
                           "argument %s" % (fn.name, sorted(kwargs)[0]))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = kwargs
        for n, d in zip(pos[len(pos) - len(fn.defaults):], fn.defaults):
            if n not in vals:
                vals[n] = d
        for n, d in fn.kwdefaults.items():
            vals.setdefault(n, d)
        for n in names:
            if n not in vals:
                self.throw("TypeError", "%s() missing argument %s" % (
                    fn.name, n))
        for n, v in vals.items():
            if n in frame.types:
                v = self.coerce(v, frame.types[n])
            frame.vars[n] = v


def _own_nodes(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
