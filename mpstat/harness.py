"""Obligations, verdicts and evidence."""
import contextlib
import json
import os
import signal
import sys
import time
import traceback

from . import terms as T
from . import termeval
from .terms import Poly, Cond, P
from .values import (Arr, Undecided, InterpRaise, Phi, Obj, Unk, is_num, Exc)
from .program import Program, AnalysisBroken
from .interp import Interp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")

sys.setrecursionlimit(20000)


class Violated(Exception):
    """The obligation is violated."""

    def __init__(self, what, where=None, construct=None):
        super().__init__(what)
        self.what = what
        self.where = where
        self.construct = construct


def exc_text(e):
    return "raises %s at %s" % (e.exc, e.where)


# limits in seconds; what exceeds them is undecided
OBLIGATION_S = 90
TOTAL_S = 600


@contextlib.contextmanager
def time_limit(seconds):
    def expired(*_):
        raise Undecided("not decided within %d s" % seconds)
    old = signal.signal(signal.SIGALRM, expired)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Check:
    """Runs the obligations of one property."""

    def __init__(self, pid, tier="quick", seed=1, program=None, only=None):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.program = program or Program()
        self.only = only
        self.held = []
        self.violations = []
        self.undecided = []
        self.broken = []
        self.weak = []
        self.functions = {}
        self.unknown = {}
        self.regular = {}
        self.comparisons = 0
        self.special = {}
        self.special_held = 0
        self.facts = {}
        self.t0 = time.time()
        self.current = None
        self.verbose = False

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- analysis ---------------------------------------------------------
    def interp(self, ext=True, generic=True):
        ip = Interp(self.program, ext_available=ext, generic=generic)
        ip.check = self
        self.interps.append(ip)
        return ip

    def anchor(self, ip, module, name=None):
        """A public name of the package; its absence breaks the analysis."""
        m = ip.load(module)
        if m is None:
            raise AnalysisBroken("module %s is missing" % module)
        if name is None:
            return m
        v = m.ns.get(name)
        if v is None:
            raise AnalysisBroken("%s.%s is missing" % (module, name))
        return v

    def obligation(self, key, fn, *args, **kwargs):
        """One obligation.  fn(...) analyses and compares; it raises Violated
        or returns.  Exceptions the analysed code raises on admissible inputs
        are violations, too."""
        if self.only is not None and self.only not in key:
            return
        self.interps = []
        self.current = key
        n0 = self.comparisons
        t0 = time.time()
        left = TOTAL_S - (t0 - self.t0)
        if left < 1:
            self.undecided.append((key, "no time left"))
            return
        try:
            with time_limit(min(OBLIGATION_S, left)):
                fn(*args, **kwargs)
            if self.comparisons == n0:
                raise AnalysisBroken("obligation compared nothing")
            self.held.append((key, self.comparisons - n0))
            self.special_values(key, fn, args, kwargs)
        except Violated as e:
            self.violations.append(dict(
                key=key, what=e.what, where=e.where,
                construct=e.construct or key))
        except InterpRaise as e:
            self.violations.append(dict(
                key=key, what="analysed code " + exc_text(e), where=e.where,
                construct=key))
            if self.verbose:
                traceback.print_exc()
        except (Undecided, T.TooLarge) as e:
            self.undecided.append((key, str(e)))
            if self.verbose:
                traceback.print_exc()
        except AnalysisBroken as e:
            self.broken.append((key, str(e)))
        except RecursionError:
            self.undecided.append((key, "recursion limit"))
        except Exception as e:
            # the analysis itself failed; says nothing about the program
            self.undecided.append((key, "analysis error %s: %s" % (
                type(e).__name__, e)))
            if self.verbose:
                traceback.print_exc()
        finally:
            for ip in self.interps:
                for f, n in ip.functions.items():
                    self.functions[f] = self.functions.get(f, 0) + n
                for f, n in ip.unknown.items():
                    self.unknown[f] = self.unknown.get(f, 0) + n
                self.regular.update(ip.regular)
            self.interps = []
        if self.verbose:
            print("  %-60s %.2fs" % (key, time.time() - t0))

    def special_values(self, key, fn, args, kwargs):
        """Decides the obligation again for inputs that the analysed code
        compares for equality and that were taken to be unequal before."""
        cases = {}
        for ip in self.interps:
            for (where, _), p in ip.degenerate.items():
                sub = T.roots(p)
                if not sub:
                    continue
                k = (where, tuple(sorted((n, str(v))
                                         for n, v in sub.items())))
                if self.special.get(k, 0) < 3:
                    cases[k] = sub
        # several inputs compared at the same place, e.g. all elements of an
        # array, take their special values together
        joint = {}
        for (where, _), sub in cases.items():
            joint.setdefault(where, []).append(sub)
        both = {}
        for where, subs in joint.items():
            sub = {}
            for s in subs:
                for name, v in s.items():
                    sub.setdefault(name, v)
            k = (where, tuple(sorted((n, str(v)) for n, v in sub.items())))
            if len(subs) > 1 and self.special.get(k, 0) < 3:
                both[k] = sub
        cases = list(both.items())[:4] + list(cases.items())[:8]
        for k, sub in cases:
            left = TOTAL_S - (time.time() - self.t0)
            if left < 1:
                return
            self.special[k] = self.special.get(k, 0) + 1
            text = ", ".join("%s = %s" % kv for kv in k[1])
            T.SPECIAL.clear()
            T.SPECIAL.update(sub)
            try:
                with time_limit(min(OBLIGATION_S, left)):
                    fn(*args, **kwargs)
                self.special_held += 1
            except Violated as e:
                self.held.pop()
                raise Violated("for %s: %s" % (text, e.what), e.where,
                               e.construct)
            except (Undecided, InterpRaise, T.TooLarge, AnalysisBroken,
                    RecursionError, ArithmeticError, ValueError, TypeError,
                    KeyError, IndexError, AttributeError):
                pass
            finally:
                T.SPECIAL.clear()

    # -- comparisons ------------------------------------------------------
    def fail(self, what, where=None, construct=None):
        raise Violated(what, where, construct)

    def require(self, cond, what, where=None):
        """A fact decided by the analysis (bool)."""
        self.comparisons += 1
        if isinstance(cond, Cond):
            raise Undecided("%s: undecided condition" % what)
        if not cond:
            raise Violated(what, where)

    def same(self, got, want, what, where=None, overrides=None, domain=None):
        """Number (or array) equality of normal forms."""
        if isinstance(got, Phi) or isinstance(want, Phi):
            raise Undecided("%s: value depends on a condition" % what)
        if isinstance(got, Arr) or isinstance(want, Arr):
            gs = got.a.shape if isinstance(got, Arr) else ()
            ws = want.a.shape if isinstance(want, Arr) else \
                getattr(want, "shape", ())
            if gs != ws:
                self.comparisons += 1
                raise Violated("%s has shape %s, expected %s"
                               % (what, gs, ws), where)
            import numpy as np
            w = want.a if isinstance(want, Arr) else want
            for i in np.ndindex(*gs):
                self.same(got.a[i], w[i], "%s[%s]" % (
                    what, ",".join(map(str, i))), where, overrides, domain)
            return
        if isinstance(got, (tuple, list)):
            if not isinstance(want, (tuple, list)) or len(got) != len(want):
                raise Violated("%s has another length" % what, where)
            for i, (g, w) in enumerate(zip(got, want)):
                self.same(g, w, "%s[%d]" % (what, i), where, overrides,
                          domain)
            return
        self.comparisons += 1
        if got is None or want is None or isinstance(got, str):
            if got is not want and got != want:
                raise Violated("%s is %r, expected %r" % (what, got, want),
                               where)
            return
        if isinstance(got, (Unk,)):
            raise Undecided("%s is unknown" % what)
        if isinstance(got, (bool, Cond)):
            got = T.cond_poly(got)
        if isinstance(want, (bool, Cond)):
            want = T.cond_poly(want)
        if not is_num(got):
            raise Violated("%s is %r, expected a number" % (what, got), where)
        g, w = P(got), P(want)
        try:
            if T.equal(g, w):
                return
        except T.TooLarge:
            pass
        if g.opaque or w.opaque:
            raise Undecided("%s: no normal form (%s)" % (
                what, T.poly_str(g - w)[:120]))
        sep, info = termeval.separates(g, w, seed=self.seed,
                                       overrides=overrides, domain=domain)
        if sep:
            raise Violated("%s differs from the required value: got %s, "
                           "required %s (%s)" % (
                               what, T.poly_str(g)[:300],
                               T.poly_str(w)[:300], info), where)
        if info == 0:
            raise Undecided("%s: normal forms differ and could not be "
                            "compared" % what)
        self.weak.append("%s: %s" % (self.current, what))

    def never(self, cond, what, where=None, domain=None):
        """The condition is satisfied by no admissible input."""
        self.comparisons += 1
        if cond is False:
            return
        if cond is True:
            raise Violated(what, where)
        p = T.cond_poly(cond)
        if p.opaque:
            raise Undecided("%s: undecided" % what)
        sep, info = termeval.separates(p, T.ZERO, seed=self.seed, points=12,
                                       domain=domain)
        if sep:
            raise Violated("%s when %s" % (what, T.poly_str(p)[:200]), where)
        self.weak.append("%s: %s" % (self.current, what))

    def no_raises(self, ip, what, domain=None):
        for cond, exc, where in ip.raises:
            self.never(cond, "%s: may raise %s at %s" % (what, exc, where),
                       where, domain)

    # -- verdict ----------------------------------------------------------
    def known(self):
        out = []
        try:
            with open(KNOWN) as f:
                for line in f:
                    line = line.strip()
                    if not line.startswith("finding: property=%s "
                                           % self.pid):
                        continue
                    rest = line.split(" ", 2)[2]
                    key, _, text = rest.partition(" ")
                    assert key.startswith("key=")
                    out.append((key[4:], text))
        except FileNotFoundError:
            pass
        return out

    def finish(self, minimum=1, rule="", assumptions=(), **_):
        known = dict(self.known())
        new = [v for v in self.violations if v["construct"] not in known]
        old = [v for v in self.violations if v["construct"] in known]
        wall = time.time() - self.t0
        n = len(self.held) + len(self.violations) + len(self.undecided) \
            + len(self.broken)
        cov = dict(
            explanation=rule,
            obligations=n,
            obligations_held=len(self.held),
            known_findings=["%s: %s" % (v["construct"], v["what"])
                            for v in old],
            violated=[dict(key=v["key"], what=v["what"], where=v["where"])
                      for v in new],
            obligations_undecided=len(self.undecided),
            comparisons=self.comparisons,
            special_values_analysed=sum(self.special.values()),
            special_values_held=self.special_held,
            equal_only_up_to_normaliser=len(self.weak),
            functions_analysed=len(self.functions),
            function_analyses=sum(self.functions.values()),
            functions=sorted("%s:%s%s" % (m, (c + ".") if c else "", f)
                             for m, c, f in self.functions),
            source_files=sorted(self.program.read_files),
            unmodelled_externals=self.unknown,
            regular_configurations_assumed=[
                "%s: %s" % kv for kv in sorted(self.regular.items())][:60],
            undecided=[list(u) for u in self.undecided],
            held=[list(h) for h in self.held],
        )
        cov.update(self.facts)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level="other", coverage=cov, wall_s=round(wall, 3),
                  assumptions=list(assumptions), violations=len(new))
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, self.pid + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.weak and self.verbose:
            print("weak:", self.weak[:20])
        for v in old:
            print("KNOWN-FINDING: property=%s %s: %s" % (
                self.pid, v["construct"], known[v["construct"]]))
        code = 0
        if new:
            for v in new[:25]:
                print("%s: %s\n    at %s" % (v["key"], v["what"], v["where"]))
            replay = os.path.join(EVIDENCE, self.pid + ".violations.json")
            with open(replay, "w") as f:
                json.dump(dict(
                    property=self.pid, violations=new,
                    replay="cd %s && python3-vt -m mpstat %s --only '%s'" % (
                        ROOT, self.pid, new[0]["key"])), f, indent=1,
                    default=str)
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            code = 1
        elif self.broken:
            for k, t in self.broken:
                print("ANALYSIS-BROKEN %s: %s" % (k, t))
            code = 2
        elif len(self.held) + len(old) < minimum:
            print("ANALYSIS-BROKEN %d obligations held, at least %d expected"
                  % (len(self.held), minimum))
            code = 2
        for k, t in self.undecided:
            print("UNDECIDED %s: %s" % (k, t))
        print("%s: %d obligations, %d held, %d violated, %d known, "
              "%d undecided, %d comparisons, %d functions, %.1fs" % (
                  self.pid, n, len(self.held), len(new), len(old),
                  len(self.undecided), self.comparisons,
                  len(self.functions), wall))
        return code
