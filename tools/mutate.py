"""Small changes of the analysed source that no check reports.

Every mutant is analysed as an overlay by the checks that have analysed the
changed function (according to the evidence of their last run), cheapest first,
until one reports a violation.  Survivors are printed; they are equivalent
changes or gaps.
"""
import argparse
import ast
import copy
import glob
import json
import multiprocessing
import os
import random
import re
import sys
import time
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import selftest  # noqa

ROOT = selftest.ROOT
REPO = selftest.REPO
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Mult,
       ast.Mod: ast.Mult}
LIMIT = 100
COPY = {"copy", "array", "asarray", "float", "clip"}


def variants(node):
    """Replacements of a node."""
    if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
        n = copy.deepcopy(node)
        n.ops[0] = CMP[type(node.ops[0])]()
        yield n
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
        if isinstance(node.op, ast.Mod) and isinstance(
                node.left, ast.Constant):
            return
        n = copy.deepcopy(node)
        n.op = BIN[type(node.op)]()
        yield n
        if isinstance(node.op, (ast.Add, ast.Sub)):
            yield copy.deepcopy(node.left)
    elif isinstance(node, ast.AugAssign) and type(node.op) in BIN:
        n = copy.deepcopy(node)
        n.op = BIN[type(node.op)]()
        yield n
        yield ast.copy_location(ast.Assign([copy.deepcopy(node.target)],
                                           copy.deepcopy(node.value)), node)
    elif isinstance(node, ast.Constant):
        if node.value is True or node.value is False:
            yield ast.Constant(not node.value)
        elif isinstance(node.value, (int, float)):
            yield ast.Constant(node.value + 1)
            if isinstance(node.value, float) and node.value:
                yield ast.Constant(node.value * 2)
    elif isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield n
    elif isinstance(node, ast.UnaryOp) and isinstance(
            node.op, (ast.USub, ast.Not)):
        yield copy.deepcopy(node.operand)
    elif isinstance(node, ast.If):
        n = copy.deepcopy(node)
        n.test = ast.UnaryOp(ast.Not(), n.test)
        yield n
        if not node.orelse:
            yield ast.copy_location(ast.Pass(), node)
    elif isinstance(node, (ast.Assign, ast.Raise, ast.Assert)) or (
            isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
        yield ast.copy_location(ast.Pass(), node)
    elif isinstance(node, ast.Call):
        f = node.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(
            f, "id", "")
        if name in COPY and len(node.args) >= 1:
            yield copy.deepcopy(node.args[0])
        elif name == "copy" and isinstance(f, ast.Attribute):
            yield copy.deepcopy(f.value)
        if len(node.args) >= 2:
            n = copy.deepcopy(node)
            n.args[0], n.args[1] = n.args[1], n.args[0]
            yield n
        for i in range(len(node.keywords)):
            n = copy.deepcopy(node)
            del n.keywords[i]
            yield n


class Replace(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target = target
        self.new = new

    def visit(self, node):
        if node is self.target:
            return ast.copy_location(self.new, node)
        return self.generic_visit(node)


def functions(tree):
    """(qualified name, node)"""
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield "%s.%s" % (n.name, m.name), m


def python_mutants(rel, only):
    with open(os.path.join(REPO, rel)) as f:
        text = f.read()
    tree = ast.parse(text)
    for qual, fn in functions(tree):
        if only and only not in qual:
            continue
        skip = set()
        doc = fn.body[0]
        if isinstance(doc, ast.Expr) and isinstance(doc.value, ast.Constant):
            skip.add(id(doc.value))
        for n in ast.walk(fn):
            # messages
            if isinstance(n, ast.Raise):
                skip.update(id(m) for m in ast.walk(n) if m is not n)
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Name) and n.func.id == "print":
                skip.update(id(m) for m in ast.walk(n))
        for n in ast.walk(fn):
            if id(n) in skip or n is fn:
                continue
            for new in variants(n):
                t = Replace(n, new)
                mod = t.visit(copy_shallow(tree, n))
                try:
                    src = ast.unparse(ast.fix_missing_locations(mod))
                    ast.parse(src)
                except Exception:
                    continue
                yield rel, qual, n.lineno, "%s -> %s" % (
                    ast.unparse(n).split("\n")[0][:70],
                    ast.unparse(ast.fix_missing_locations(new)).split(
                        "\n")[0][:70]), src


def copy_shallow(tree, target):
    """A copy of the tree in which the target is the original node."""
    memo = {id(target): target}
    return copy.deepcopy(tree, memo)


LINE = [(re.compile(r"(?<![\w.])(\d+)(?![\w.])"), lambda m: str(
            int(m.group(1)) + 1)),
        (re.compile(r"(?<![\w.])(\d+\.\d+)(?![\w.])"), lambda m: str(
            float(m.group(1)) + 1)),
        (re.compile(r" \+ "), lambda m: " - "),
        (re.compile(r" - "), lambda m: " + "),
        (re.compile(r" \* "), lambda m: " / "),
        (re.compile(r" / "), lambda m: " * "),
        (re.compile(r" \+= "), lambda m: " -= "),
        (re.compile(r" \+= "), lambda m: " = "),
        (re.compile(r" \*= "), lambda m: " /= "),
        (re.compile(r" < "), lambda m: " <= "),
        (re.compile(r" <= "), lambda m: " < "),
        (re.compile(r" >= "), lambda m: " > "),
        (re.compile(r" == "), lambda m: " != "),
        (re.compile(r" != "), lambda m: " == "),
        (re.compile(r" is not None"), lambda m: " is None"),
        (re.compile(r" is None"), lambda m: " is not None"),
        (re.compile(r"\[:\] ="), lambda m: " ="),
        (re.compile(r"goal_y\b"), lambda m: "start_y"),
        (re.compile(r"start_y\b"), lambda m: "goal_y"),
        (re.compile(r"alpha_y\b"), lambda m: "beta_y"),
        (re.compile(r"beta_y\b"), lambda m: "alpha_y"),
        (re.compile(r"current_yd\b"), lambda m: "current_ydd"),
        (re.compile(r"np.zeros"), lambda m: "np.empty")]


def cython_mutants(rel, only):
    with open(os.path.join(REPO, rel)) as f:
        lines = f.read().split("\n")
    qual, doc, header = None, False, False
    for i, line in enumerate(lines):
        m = re.match(r"(?:cpdef|cdef|def) (?:\w+ )?(\w+)\(", line)
        if m:
            qual, header = m.group(1), True
        quotes = line.count('"""')
        inside = doc
        if quotes == 1:
            doc = not doc
        if header:
            if line.rstrip().endswith("):"):
                header = False
            continue
        if qual is None or inside or quotes or line.strip().startswith(
                ("#", "@", "raise")) or (only and only not in qual):
            continue
        code = line.split("  #")[0]
        for rx, fn in LINE:
            for m in rx.finditer(code):
                new = code[:m.start()] + fn(m) + code[m.end():]
                yield rel, qual, i + 1, "%s -> %s" % (
                    code.strip()[:70], new.strip()[:70]), "\n".join(
                        lines[:i] + [new] + lines[i + 1:])
        if re.match(r"\s+[\w\[\]:]+ (\+|-|\*|/)?= ", code) \
                and not code.rstrip().endswith(("(", ",")):
            ind = code[:len(code) - len(code.lstrip())]
            yield rel, qual, i + 1, "%s -> pass" % code.strip()[:70], \
                "\n".join(lines[:i] + [ind + "pass"] + lines[i + 1:])


def coverage():
    """function -> checks, cheapest first"""
    out = {}
    for f in glob.glob(os.path.join(ROOT, "evidence", "???.json")):
        with open(f) as s:
            e = json.load(s)
        for x in e["coverage"]["functions"]:
            out.setdefault(x, []).append((e["wall_s"], e["property"]))
    return {k: [p for _, p in sorted(v)] for k, v in out.items()}


def run(job):
    rel, qual, line, what, src, checks = job
    import importlib
    import io
    import contextlib
    from mpstat import harness, program, registry
    res = []
    start = time.time()
    for pid in checks:
        if time.time() - start > LIMIT:
            res.append("not analysed by " + pid)
            continue
        mod, fn, opts = registry.REGISTRY[pid]
        prog = program.Program(REPO, {rel: src})
        c = harness.Check(pid, program=prog)
        harness.OBLIGATION_S, harness.TOTAL_S = 20, 60
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                getattr(importlib.import_module("mpstat.checks." + mod),
                        fn)(c)
        except Exception as e:
            res.append("%s error %r" % (pid, e))
            continue
        known = dict(c.known())
        if [v for v in c.violations if v["construct"] not in known]:
            return rel, qual, line, what, pid, res
        if c.broken:
            return rel, qual, line, what, pid + " broken", res
        if c.undecided:
            res.append("%s undecided %d" % (pid, len(c.undecided)))
    return rel, qual, line, what, None, res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+", help="relative to the package")
    ap.add_argument("--only", default="")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--property", default="")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    cov = coverage()
    jobs = []
    for f in a.files:
        rel = selftest.PKG + f
        mod = os.path.splitext(rel)[0].replace("/", ".")
        gen = cython_mutants if rel.endswith(".pyx") else python_mutants
        for r, q, line, what, src in gen(rel, a.only):
            checks = cov.get("%s:%s" % (mod, q), [])
            if a.property:
                checks = a.property.split(",")
            jobs.append((r, q, line, what, src, checks))
    if a.sample and len(jobs) > a.sample:
        random.seed(1)
        jobs = random.sample(jobs, a.sample)
    print("%d mutants" % len(jobs), flush=True)
    killed = 0
    by = {}
    with multiprocessing.Pool(a.j, maxtasksperchild=4) as pool:
        for rel, q, line, what, pid, res in pool.imap_unordered(run, jobs):
            if pid:
                killed += 1
                by[pid] = by.get(pid, 0) + 1
                if a.v:
                    print("killed %s:%d %s: %s [%s]" % (rel, line, q, what,
                                                        pid), flush=True)
            else:
                print("SURVIVES %s:%d %s: %s %s" % (
                    rel.replace(selftest.PKG, ""), line, q, what, res or ""),
                    flush=True)
    print("%d of %d killed" % (killed, len(jobs)), dict(sorted(by.items())))


if __name__ == "__main__":
    main()
