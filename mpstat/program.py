"""The analysed program: source files of the package."""
import ast
import os

from . import pyxfront

PACKAGE = "movement_primitives"
MISSING_EXTERNALS = {"urllib2"}


class AnalysisBroken(Exception):
    """Something the analysis needs is not in the source any more."""


class Program:
    def __init__(self, root=None, overlay=None):
        self.root = root or os.environ.get("VERIF_REPO", "/repo")
        self.overlay = overlay or {}
        self.cache = {}
        self.models = {}
        self.read_files = set()

    def owns(self, name):
        return name == PACKAGE or name.startswith(PACKAGE + ".")

    def missing(self, name):
        return name.split(".")[0] in MISSING_EXTERNALS

    def source(self, rel):
        self.read_files.add(rel)
        if rel in self.overlay:
            return self.overlay[rel]
        with open(os.path.join(self.root, rel), encoding="utf-8") as f:
            return f.read()

    def exists(self, rel):
        return rel in self.overlay or os.path.isfile(
            os.path.join(self.root, rel))

    def find(self, name):
        if not self.owns(name):
            return None
        if name in self.cache:
            return self.cache[name]
        base = name.replace(".", "/")
        res = None
        for rel, package, cy in ((base + "/__init__.py", True, False),
                                 (base + ".py", False, False),
                                 (base + ".pyx", False, True)):
            if self.exists(rel):
                text = self.source(rel)
                try:
                    tree = pyxfront.parse(rel, text) if cy \
                        else ast.parse(text, rel)
                except SyntaxError as e:
                    raise AnalysisBroken("%s does not parse: %s" % (rel, e))
                res = (os.path.join(self.root, rel), package, tree, cy)
                break
        self.cache[name] = res
        return res

    def modules(self):
        """Names of all modules of the package."""
        out = []
        top = os.path.join(self.root, PACKAGE)
        for d, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                stem, ext = os.path.splitext(f)
                if ext not in (".py", ".pyx"):
                    continue
                rel = os.path.relpath(os.path.join(d, stem), self.root)
                name = rel.replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-len(".__init__")]
                out.append(name)
        return sorted(set(out))
