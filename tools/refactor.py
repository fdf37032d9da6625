"""Behaviour-preserving transformations of the whole analysed source.

Each transformation is applied to all Python files of the package; every check
must stay quiet on the result.  The result can be written to a directory to run
the tests on it (--write DIR).
"""
import argparse
import ast
import copy
import multiprocessing
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import selftest  # noqa

REPO = selftest.REPO
TOP = "movement_primitives"


def files():
    for d, dirs, fs in os.walk(os.path.join(REPO, TOP)):
        dirs[:] = sorted(x for x in dirs if x not in ("tests", "test",
                                                      "__pycache__"))
        for f in sorted(fs):
            if f.endswith(".py") and not f.startswith("test_"):
                yield os.path.relpath(os.path.join(d, f), REPO)


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def fresh(self, stem="tmp"):
        self.n += 1
        return "%s_%d_" % (stem, self.n)


class Unparsed(Base):
    pass


class Inverted(Base):
    """if c: a else: b -> if not c: b else: a"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Pass()], n.body)

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Results(Base):
    """return f(...) -> result = f(...); return result"""

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        t = self.fresh("result")
        return [ast.Assign([ast.Name(t, ast.Store())], n.value),
                ast.Return(ast.Name(t, ast.Load()))]


def pure(n):
    return all(isinstance(x, (ast.Constant, ast.Name, ast.BinOp, ast.operator,
                              ast.UnaryOp, ast.unaryop, ast.Attribute,
                              ast.expr_context, ast.Subscript, ast.Slice,
                              ast.Tuple))
               for x in ast.walk(n))


class Temporaries(Base):
    """Arguments of the outermost call of a statement become variables."""

    def hoist(self, n):
        self.generic_visit(n)
        v = n.value
        if not isinstance(v, ast.Call) or any(
                isinstance(a, ast.Starred) for a in v.args) or not pure(
                    v.func):
            return n
        pre = []
        for i, a in enumerate(v.args):
            if isinstance(a, (ast.Constant, ast.Name)):
                continue
            if isinstance(a, ast.GeneratorExp):
                continue
            t = self.fresh()
            pre.append(ast.Assign([ast.Name(t, ast.Store())], a))
            v.args[i] = ast.Name(t, ast.Load())
        for k in v.keywords:
            if k.arg is None or isinstance(k.value, (ast.Constant, ast.Name)):
                continue
            t = self.fresh()
            pre.append(ast.Assign([ast.Name(t, ast.Store())], k.value))
            k.value = ast.Name(t, ast.Load())
        return pre + [n]

    visit_Assign = visit_Return = hoist

    def visit_ClassDef(self, n):
        for i, s in enumerate(n.body):
            if isinstance(s, ast.FunctionDef):
                n.body[i] = self.visit(s)
        return n

    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                s = self.visit(s)
            out.append(s)
        n.body = out
        return n


class Subexpressions(Temporaries):
    """Operands of arithmetic become variables."""

    def hoist(self, n):
        v = n.value
        if isinstance(v, ast.BinOp):
            pre = []
            for f in ("left", "right"):
                a = getattr(v, f)
                if isinstance(a, (ast.Constant, ast.Name)):
                    continue
                t = self.fresh("part")
                pre.append(ast.Assign([ast.Name(t, ast.Store())], a))
                setattr(v, f, ast.Name(t, ast.Load()))
            return pre + [n]
        return n

    visit_Assign = visit_Return = visit_AugAssign = hoist


def locals_of(fn):
    """Names assigned in the function (no nested functions)."""
    out = set()
    nested = False
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda,
                                          ast.ClassDef)):
            nested = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            nested = True
    return out, nested


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [
        x.arg for x in (a.vararg, a.kwarg) if x]


class Renamed(Base):
    """Other names of local variables."""

    def visit_FunctionDef(self, fn):
        names, nested = locals_of(fn)
        if nested:
            return fn
        names -= set(params(fn))
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = n.id + "_local"
        return fn


class While(Base):
    """for i in range(n) -> while"""

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if n.orelse or not isinstance(n.target, ast.Name) or not (
                isinstance(it, ast.Call) and isinstance(it.func, ast.Name)
                and it.func.id == "range" and len(it.args) == 1) or any(
                    isinstance(x, ast.Continue) for x in ast.walk(n)):
            return n
        k, stop = self.fresh("k"), self.fresh("stop")
        name = ast.Name
        return [
            ast.Assign([name(stop, ast.Store())], it.args[0]),
            ast.Assign([name(k, ast.Store())], ast.Constant(0)),
            ast.While(ast.Compare(name(k, ast.Load()), [ast.Lt()],
                                  [name(stop, ast.Load())]),
                      [ast.Assign([n.target], name(k, ast.Load())),
                       ast.AugAssign(name(k, ast.Store()), ast.Add(),
                                     ast.Constant(1))] + n.body, [])]


class Loops(Base):
    """x = [f(i) for i in s] -> loop with append"""

    def visit_Assign(self, n):
        v = n.value
        if not (isinstance(v, ast.ListComp) and len(v.generators) == 1):
            return n
        g = v.generators[0]
        if not isinstance(g.target, ast.Name):
            return n
        t = self.fresh("items")
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(
            t, ast.Load()), "append", ast.Load()), [v.elt], []))]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return [ast.Assign([ast.Name(t, ast.Store())], ast.List([],
                                                                ast.Load())),
                ast.For(g.target, g.iter, body, []),
                ast.Assign(n.targets, ast.Name(t, ast.Load()))]


class Outlined(Base):
    """The second half of each function becomes a helper."""

    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                out += self.split(s)
            elif isinstance(s, ast.ClassDef):
                for i, m in enumerate(s.body):
                    if isinstance(m, ast.FunctionDef):
                        r = self.split(m)
                        out += r[:-1]
                        s.body[i] = r[-1]
                out.append(s)
            else:
                out.append(s)
        n.body = out
        return n

    def split(self, fn):
        body = fn.body
        first = 1 if isinstance(body[0], ast.Expr) and isinstance(
            body[0].value, ast.Constant) else 0
        names, nested = locals_of(fn)
        inner = {x.id for c in ast.walk(fn) if isinstance(
            c, ast.comprehension) for x in ast.walk(c.target)
            if isinstance(x, ast.Name)}
        names -= inner - set(params(fn))
        if nested or len(body) - first < 3 or any(
                isinstance(x, (ast.Yield, ast.YieldFrom)) for x in
                ast.walk(fn)) or fn.decorator_list:
            return [fn]
        cut = first + (len(body) - first) // 2
        tail = body[cut:]
        if any(isinstance(x, ast.Name) and x.id == "super"
               for s in tail for x in ast.walk(s)):
            return [fn]
        own = names | set(params(fn))
        # names that are bound for certain before the tail
        bound = set(params(fn))
        for s in body[:cut]:
            bound |= always(s)
        used = []
        for s in tail:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in own \
                        and x.id not in used:
                    used.append(x.id)
        args = [u for u in used if u in bound]
        maybe = [u for u in used if u not in bound and any(
            isinstance(x, ast.Name) and x.id == u and isinstance(
                x.ctx, ast.Store) for s in body[:cut] for x in ast.walk(s))]
        if maybe:
            return [fn]
        name = "_part_of_%s%s_%s" % (getattr(self, "cls", ""), fn.name.strip(
            "_"), self.fresh("h"))
        # a helper is a plain function, private names are not mangled here
        helper = ast.FunctionDef(
            name, ast.arguments([], [ast.arg(a) for a in args], None, [], [],
                                None, []), tail, [], None)
        call = ast.Call(ast.Name(name, ast.Load()), [
            ast.Name(a, ast.Load()) for a in args], [])
        fn.body = body[:cut] + [ast.Return(call)]
        return [helper, fn]


def always(s):
    """Names that the statement binds on all paths."""
    if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
        return {x.id for x in ast.walk(s) if isinstance(x, ast.Name)
                and isinstance(x.ctx, ast.Store)}
    if isinstance(s, ast.If):
        def branch(b):
            if b and isinstance(b[-1], (ast.Raise, ast.Return)):
                return None
            r = set()
            for t in b:
                r |= always(t)
            return r
        a, b = branch(s.body), branch(s.orelse)
        if a is None:
            return b or set()
        if b is None:
            return a
        return a & b
    if isinstance(s, ast.With):
        r = set()
        for t in s.body:
            r |= always(t)
        return r
    return set()


class Methods(Outlined):
    """The second half of each method becomes a private method."""

    def visit_Module(self, n):
        for s in n.body:
            if isinstance(s, ast.ClassDef):
                new = []
                self.cls = s.name + "_"
                for m in s.body:
                    if isinstance(m, ast.FunctionDef) and params(m) and \
                            params(m)[0] == "self":
                        r = self.split(m)
                        if len(r) == 2:
                            h = r[0]
                            a = [x.arg for x in h.args.args]
                            if "self" not in a:
                                h.args.args.insert(0, ast.arg("self"))
                                r[1].body[-1].value.args.insert(
                                    0, ast.Name("self", ast.Load()))
                                a = ["self"] + a
                            i = a.index("self")
                            h.args.args.insert(0, h.args.args.pop(i))
                            c = r[1].body[-1].value
                            c.args.pop(i)
                            c.func = ast.Attribute(ast.Name(
                                "self", ast.Load()), h.name, ast.Load())
                        new += r
                    else:
                        new.append(m)
                s.body = new
        return n


class Private(Base):
    """Other names of private attributes and methods of objects."""

    # attributes of base classes outside of the package
    KEEP = {"_joints", "_transforms", "_path_transform", "_shortest_path"}

    def attr(self, a):
        if a.startswith("_") and not a.startswith("__") \
                and a not in self.KEEP and a in self.own:
            return a + "_x"
        return a

    def visit_Attribute(self, n):
        self.generic_visit(n)
        n.attr = self.attr(n.attr)
        return n

    def visit_ClassDef(self, n):
        for m in n.body:
            if isinstance(m, ast.FunctionDef):
                m.name = self.attr(m.name)
        return self.generic_visit(n)


class Helpers(Base):
    """Other names of private functions of modules."""

    def visit_Module(self, n):
        own = {s.name for s in n.body if isinstance(s, ast.FunctionDef)
               and s.name.startswith("_")} - self.imported
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in own:
                x.id += "_x"
            elif isinstance(x, ast.FunctionDef) and x.name in own:
                x.name += "_x"
        return n


class Numpy(Base):
    """Other spellings of numpy calls."""

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name)
                and f.value.id == "np"):
            if isinstance(f, ast.Attribute) and f.attr == "dot" and len(
                    n.args) == 1 and not n.keywords:
                return ast.BinOp(f.value, ast.MatMult(), n.args[0])
            if isinstance(f, ast.Attribute) and f.attr == "ravel" \
                    and not n.args:
                return ast.Call(ast.Attribute(f.value, "flatten", ast.Load()),
                                [], []) if False else n
            return n
        if f.attr == "dot" and len(n.args) == 2:
            return ast.BinOp(n.args[0], ast.MatMult(), n.args[1])
        if f.attr == "copy" and len(n.args) == 1:
            f.attr = "array"
        elif f.attr == "zeros" and len(n.args) == 1 and not n.keywords:
            f.attr = "full"
            n.args.append(ast.Constant(0.0))
        elif f.attr == "ones" and len(n.args) == 1 and not n.keywords:
            f.attr = "full"
            n.args.append(ast.Constant(1.0))
        elif f.attr == "vstack" and len(n.args) == 1:
            pass
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(
                n.right, ast.Constant) and n.right.value in (2, 2.0) \
                and pure(n.left):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        return n


class Slices(Base):
    """x[:] = e with np.copyto-like spelling; x[a:b] by slice objects"""

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.slice, ast.Slice) and n.slice.step is None:
            none = ast.Constant(None)
            n.slice = ast.Call(ast.Name("slice", ast.Load()), [
                n.slice.lower or none, n.slice.upper or none], [])
        return n


class Keywords(Base):
    """Positional arguments of functions of the package become keyword
    arguments."""

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id in self.signatures \
                and not any(isinstance(a, ast.Starred) for a in n.args):
            p = self.signatures[f.id]
            if p is None or len(n.args) > len(p):
                return n
            n.keywords = [ast.keyword(k, a) for k, a in zip(p, n.args)] \
                + n.keywords
            n.args = []
        return n


class Nested(Base):
    """The body of each function is an inner function."""

    def visit_FunctionDef(self, fn):
        names, nested = locals_of(fn)
        p = params(fn)
        if nested or names & set(p) or fn.decorator_list or any(
                isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(
                    x, ast.Name) and x.id == "super"
                for x in ast.walk(fn)):
            return fn
        first = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(
            fn.body[0].value, ast.Constant) else 0
        if len(fn.body) == first:
            return fn
        inner = ast.FunctionDef("body_", ast.arguments(
            [], [], None, [], [], None, []), fn.body[first:], [], None)
        fn.body = fn.body[:first] + [inner, ast.Return(ast.Call(ast.Name(
            "body_", ast.Load()), [], []))]
        return fn


class Guarded(Base):
    """if c: a (else b) at the end of a function returns early."""

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        last = fn.body[-1]
        if isinstance(last, ast.If) and last.orelse and not any(
                isinstance(x, ast.Return) for x in ast.walk(last)):
            fn.body[-1:] = [ast.If(last.test, last.body + [
                ast.Return(None)], [])] + last.orelse
        return fn


class Ternary(Base):
    """x = a if c else b <-> statements"""

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)],
                          [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        b, o = n.body, n.orelse
        if len(b) == len(o) == 1 and isinstance(b[0], ast.Assign) \
                and isinstance(o[0], ast.Assign) and len(
                    b[0].targets) == 1 and ast.dump(
                        b[0].targets[0]) == ast.dump(o[0].targets[0]) \
                and isinstance(b[0].targets[0], (ast.Name, ast.Attribute)):
            return ast.Assign(b[0].targets, ast.IfExp(
                n.test, b[0].value, o[0].value))
        return n


class Augmented(Base):
    """x -= e -> x += -e (in place as before)"""

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub):
            return ast.AugAssign(n.target, ast.Add(), ast.UnaryOp(
                ast.USub(), n.value))
        if isinstance(n.op, ast.Div):
            return ast.AugAssign(n.target, ast.Mult(), ast.BinOp(
                ast.Constant(1.0), ast.Div(), n.value))
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(),
                                                            n.right))
        return n


class Imports(Base):
    """numpy by its full name."""

    def visit_Import(self, n):
        for a in n.names:
            if a.name == "numpy":
                a.asname = None
        return n

    def visit_Name(self, n):
        if n.id == "np":
            n.id = "numpy"
        return n


class Unpacked(Base):
    """a, b = e -> t = e; a = t[0]; b = t[1]"""

    def visit_Assign(self, n):
        t = n.targets[0]
        if not (len(n.targets) == 1 and isinstance(t, ast.Tuple)
                and isinstance(n.value, ast.Call)):
            return n
        if any(isinstance(x, ast.Starred) for x in t.elts):
            return n
        k = self.fresh("pair")
        return [ast.Assign([ast.Name(k, ast.Store())], n.value)] + [
            ast.Assign([x], ast.Subscript(ast.Name(k, ast.Load()),
                                          ast.Constant(i), ast.Load()))
            for i, x in enumerate(t.elts)]


ALL = [Unparsed, Inverted, Results, Temporaries, Subexpressions, Renamed,
       While, Loops, Outlined, Methods, Private, Helpers, Numpy, Slices,
       Keywords, Nested, Guarded, Ternary, Augmented, Imports, Unpacked]


def transformed(cls):
    sources = {rel: open(os.path.join(REPO, rel)).read() for rel in files()}
    trees = {rel: ast.parse(s) for rel, s in sources.items()}
    private = set()
    for t in trees.values():
        for c in ast.walk(t):
            if isinstance(c, ast.ClassDef):
                for x in ast.walk(c):
                    if isinstance(x, ast.Attribute) and isinstance(
                            x.value, ast.Name) and x.value.id == "self" \
                            and x.attr.startswith("_"):
                        private.add(x.attr)
    # names that are used by tests
    used, imported = set(), set()
    for d, _, fs in os.walk(REPO):
        for f in fs:
            if f.startswith("test_") and f.endswith(".py"):
                for x in ast.walk(ast.parse(open(os.path.join(
                        d, f)).read())):
                    if isinstance(x, ast.Attribute):
                        used.add(x.attr)
                    elif isinstance(x, ast.ImportFrom):
                        imported.update(a.name for a in x.names)
    sig = {}
    for t in trees.values():
        for f in t.body:
            if isinstance(f, ast.FunctionDef):
                p = [x.arg for x in f.args.args]
                sig[f.name] = None if f.name in sig and sig[f.name] != p \
                    or f.args.vararg else p
    pyx = open(os.path.join(REPO, TOP, "dmp_fast.pyx")).read()
    out = {}
    for rel, t in trees.items():
        tr = cls()
        tr.own = private - used
        tr.imported = imported
        tr.signatures = {k: v for k, v in sig.items()
                         if "def %s(" % k not in pyx}
        m = ast.fix_missing_locations(tr.visit(t))
        out[rel] = ast.unparse(m) + "\n"
        ast.parse(out[rel])
    return out


def analyse(job):
    name, out, pid = job
    selftest.overlay = lambda edits: edits
    return selftest.analyse((name, out, pid, "same"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--only", default="")
    ap.add_argument("--checks", default="")
    ap.add_argument("--skip", default="")
    ap.add_argument("--write", default="")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    from mpstat import registry
    jobs = []
    for cls in ALL:
        if a.only and cls.__name__ not in a.only.split(","):
            continue
        out = transformed(cls)
        if a.write:
            for rel, s in out.items():
                with open(os.path.join(a.write, rel), "w") as f:
                    f.write(s)
            continue
        for p in a.checks.split(",") if a.checks else sorted(
                registry.REGISTRY):
            if p not in a.skip.split(","):
                jobs.append((cls.__name__, out, p))
    bad = 0
    with multiprocessing.Pool(a.j, maxtasksperchild=1) as pool:
        for name, pid, _, got, text, dt in pool.imap_unordered(analyse, jobs):
            if got != "quiet":
                bad += 1
            if got != "quiet" or text:
                print("%s %s %s: %s %s [%.0f s]" % (
                    "note" if got == "quiet" else "ALARM", name, pid, got,
                    text[:260], dt), flush=True)
    print("%d analyses, %d not as expected" % (len(jobs), bad))


if __name__ == "__main__":
    main()
