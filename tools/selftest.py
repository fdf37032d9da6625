"""Runs checks on variants of the analysed source.

Variants are listed in selftest/*.py as calls of bug(...) and same(...): a bug
must be reported by the check of its property, a behaviour-preserving edit must
leave the checks quiet.  The variants are analysed as overlays; files of the
repository are not touched.
"""
import argparse
import ast
import contextlib
import io
import multiprocessing
import os
import sys
import time
import warnings

warnings.simplefilter("ignore")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "movement_primitives/"
CASES = []


def edit(name, edits, props, expect):
    CASES.append((name, edits, props, expect))


def bug(name, props, *edits):
    """edits: (file, old, new)"""
    edit(name, edits, props.split(), "bug")


def same(name, props, *edits):
    edit(name, edits, props.split() if props else None, "same")


def plain(source):
    """Source in normalised layout without docstrings."""
    tree = ast.parse(source)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = n.body
            if b and isinstance(b[0], ast.Expr) and isinstance(
                    b[0].value, ast.Constant) and isinstance(
                        b[0].value.value, str):
                n.body = b[1:] or [ast.Pass()]
    return ast.unparse(tree) + "\n"


def overlay(edits):
    """Edits of files named ~file refer to their normalised layout."""
    out = {}
    for rel, old, new in edits:
        normal = rel.startswith("~")
        rel = PKG + rel.lstrip("~")
        if rel in out:
            s = out[rel]
        elif os.path.exists(os.path.join(REPO, rel)):
            with open(os.path.join(REPO, rel)) as f:
                s = f.read()
            if normal:
                s = plain(s)
        else:
            s = ""
        if old is None:
            out[rel] = s + new
            continue
        n = s.count(old)
        if n != 1:
            raise ValueError("%d occurrences of %r in %s" % (n, old, rel))
        out[rel] = s.replace(old, new)
    return out


def analyse(job):
    name, edits, pid, expect = job
    import importlib
    from mpstat import harness, program, registry
    t0 = time.time()
    try:
        prog = program.Program(REPO, overlay(edits))
    except ValueError as e:
        return name, pid, expect, "edit-failed", str(e), 0
    mod, fn, opts = registry.REGISTRY[pid]
    c = harness.Check(pid, program=prog)
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            getattr(importlib.import_module("mpstat.checks." + mod), fn)(c)
    except Exception as e:
        return name, pid, expect, "broken", repr(e), time.time() - t0
    known = dict(c.known())
    new = [v for v in c.violations if v["construct"] not in known]
    dt = time.time() - t0
    if new:
        return (name, pid, expect, "violation", "%d: %s: %s" % (
            len(new), new[0]["key"], new[0]["what"][:160]), dt)
    if c.broken:
        return name, pid, expect, "broken", str(c.broken[0]), dt
    if len(c.held) + len(c.violations) < opts["minimum"]:
        return name, pid, expect, "broken", "held %d of %d; %s" % (
            len(c.held), opts["minimum"], c.undecided[:2]), dt
    return (name, pid, expect, "quiet", "undecided %d %s" % (
        len(c.undecided), c.undecided[:1]) if c.undecided else "", dt)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--only", default="")
    ap.add_argument("--checks", default="")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--file", default="")
    args = ap.parse_args()
    d = os.path.join(ROOT, "selftest")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and args.file in f:
            with open(os.path.join(d, f)) as src:
                exec(compile(src.read(), f, "exec"),
                     {"bug": bug, "same": same})
    from mpstat import registry
    jobs = []
    for name, edits, props, expect in CASES:
        if args.only not in name:
            continue
        for p in props or sorted(registry.REGISTRY):
            if args.checks and p not in args.checks.split(","):
                continue
            jobs.append((name, edits, p, expect))
    bad = 0
    with multiprocessing.Pool(args.j, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(analyse, jobs):
            name, pid, expect, got, text, dt = r
            ok = got == ("violation" if expect == "bug" else "quiet")
            bad += not ok
            if args.v or not ok or (expect == "same" and text):
                print("%s %s %s: %s (%s) %s [%.0f s]" % (
                    "ok  " if ok else "MISS" if expect == "bug" else "ALARM",
                    name, pid, got, expect, text, dt), flush=True)
    print("%d analyses, %d not as expected" % (len(jobs), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
