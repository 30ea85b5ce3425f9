"""Front end: loads the package sources and resolves modules, classes and MRO.

Nothing of the analysed package is imported or executed; only `ast` is used.
"""
import ast
import hashlib
import os

REPO = os.environ.get("PYRSTAT_REPO", "/repo")
PKG = "pyrichlet"


class AnalysisBroken(Exception):
    """The analysis has lost an anchor (public API element) it needs."""


class Module:
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        with open(path, "rb") as fh:
            src = fh.read()
        self.digest = hashlib.sha256(src).hexdigest()
        self.tree = ast.parse(src, path)
        self.source = src.decode("utf-8")
        self.rel = os.path.relpath(path, REPO)


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken("package directory %s is missing" % root)
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d not in ("tests", "__pycache__"))
            for f in sorted(fn):
                if not f.endswith(".py") or f == "_version.py":
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.repo)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                name = ".".join(rel)
                self.modules[name] = Module(name, p, is_pkg)

    def rel_name(self, module, level, name):
        """Absolute dotted name of `from <level dots><name> import`."""
        if level == 0:
            return name or ""
        parts = module.name.split(".")
        if not module.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:len(parts) - (level - 1)]
        if name:
            parts = parts + name.split(".")
        return ".".join(parts)

    def n_functions(self):
        n = 0
        for m in self.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    n += 1
        return n


def c3(cls, bases_mro, bases):
    seqs = [list(m) for m in bases_mro] + [list(bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            c = seqs[0][0]
        out.append(c)
        for s in seqs:
            if s and s[0] is c:
                del s[0]
