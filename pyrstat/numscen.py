"""Scenarios of calls on weighting models and the formulas they extract."""
import random
from . import term as T
from . import vglib
from .term import P, ZERO, ONE, Give, gt, ge, fresh_index
from .vg import (Engine, Num, Const, Bool, Ref, Tup, Arr, Axis, Stop, NONE,
                 PyRaise, Unk)
from .witness import Assignment, Undefined, h01
from .front import AnalysisBroken

WM = "pyrichlet.weight_models."


def pos(name):
    return Num(T.symbol(name, lo=0, lo_in=False))


def unit(name):
    return Num(T.symbol(name, lo=0, hi=1, lo_in=False, hi_in=False))


def count(name, lo=1):
    return Num(T.symbol(name, lo=lo, integer=True), "i")


# Admissible settings of every public weighting model, with the limits the
# documentation allows as separate variants.
def settings(name, var):
    kw = {"rng": vglib.Rng()}
    if name in ("DirichletProcess", "BetaInBeta", "BetaInDirichlet",
                "BetaBernoulli", "BetaBinomial", "DirichletDistribution"):
        kw["alpha"] = pos("alpha")
    if name == "PitmanYorProcess":
        pyd = T.symbol("pyd", lo=0, hi=1, hi_in=False)
        if var.get("pyd") == "0":
            pyd = ZERO
        kw["pyd"] = Num(pyd)
        kw["alpha"] = Num(T.symbol("A", lo=0, lo_in=False) - pyd)
    if name in ("GeometricProcess", "BetaInBeta"):
        kw["a"], kw["b"] = pos("a"), pos("b")
    if name == "BetaInBeta":
        kw["p"] = Num(T.symbol("p0", lo=0, hi=1))
    if name in ("EqualWeighting", "FrequencyWeighting",
                "DirichletDistribution"):
        kw["n"] = count("K")
    if name == "BetaBinomial":
        kw["n"] = count("N", 0)
    for k, x in var.items():
        if k == "pyd":
            continue
        if x == "pos":
            x = pos(k)
        elif x == "unit":
            x = unit(k)
        elif x == "array":
            T.array_symbol(k, lo=0, lo_in=False)
            x = ("array", k)
        elif isinstance(x, int):
            x = Num(P(x), "i")
        else:
            x = Const(x)
        kw[k] = x
    return kw


MODELS = {
    "DirichletProcess": [{}],
    "PitmanYorProcess": [{}, {"pyd": "0"}],
    "GeometricProcess": [{}],
    "BetaInBeta": [{"x": 0}, {"x": 1}, {"x": "unit"},
                   {"x": "unit", "p_method": "static"},
                   {"x": "unit", "p_method": "independent"},
                   {"x": "unit", "p_method": "max-likelihood"},
                   {"x": "unit", "p_method": "inverse-sampling"}],
    "BetaInDirichlet": [{"a": 0}, {"a": "pos"}],
    "BetaBernoulli": [{"p": 1}, {"p": 0}, {"p": "unit"}],
    "BetaBinomial": [{}],
    "EqualWeighting": [{}],
    "FrequencyWeighting": [{}],
    "DirichletDistribution": [{}, {"alpha": "array"}],
}
INFINITE = ("DirichletProcess", "PitmanYorProcess", "GeometricProcess",
            "BetaInBeta", "BetaInDirichlet", "BetaBernoulli", "BetaBinomial")
VARIATIONAL = ("DirichletProcess", "PitmanYorProcess", "GeometricProcess",
               "EqualWeighting", "FrequencyWeighting",
               "DirichletDistribution")


class World:
    """One engine with the symbols shared by all scenarios."""

    def __init__(self):
        self.e = Engine()
        self.e.top()
        self.within_K = False
        self.n = T.symbol("n", lo=1, integer=True)
        T.array_symbol("d", lo=0, integer=True)
        self.m = count("m")
        self.k = count("k")
        self.x = Num(T.symbol("xt", lo=0, hi=1, hi_in=False))
        self.K = T.symbol("K", lo=1, integer=True)
        T.array_symbol("q", lo=0, hi=1, gen=q_entry)
        T.array_symbol("q2", lo=0, hi=1, gen=q_entry2)

    def cls(self, name):
        try:
            return self.e.cls(WM + name)
        except (KeyError, Stop, PyRaise):
            raise AnalysisBroken("no public class %s" % name)

    def build(self, name, var):
        kw = settings(name, var)
        if name == "DirichletDistribution":
            # only assignments among its K components can be fitted
            T.array_symbol("d", lo=0, integer=True, gen=below_K)
            self.within_K = True
        for k, v in list(kw.items()):
            if isinstance(v, tuple):
                i = fresh_index()
                kw[k] = self.e.arr([Axis(self.K)], [i], T.el(v[1], i), "f")
        return self.e.construct(self.cls(name), [], kw)

    def d(self):
        i = fresh_index()
        if self.within_K:
            self.e.facts.append(gt(self.K, T.bind("max", i, self.n,
                                                  T.el("d", i))))
        return self.e.arr([Axis(self.n)], [i], T.el("d", i), "i")

    def q(self, name="q", n=None):
        j, i = fresh_index(), fresh_index()
        return self.e.arr([Axis(self.K), Axis(n if n is not None else
                                              self.n)], [j, i],
                          T.el(name, j, i), "f")


def below_K(A, idx):
    return int(h01(A.seed, "d", *idx) * A.sizes["K"])


def q_entry(A, idx, name="q"):
    """Assignment probabilities: columns sum to one."""
    j, i = idx
    K = A.sizes["K"]
    us = [0.02 + h01(A.seed, name, t, i) ** 2 for t in range(K)]
    return us[j] / sum(us) if j < K else 0.0


def q_entry2(A, idx):
    return q_entry(A, idx, "q2")


class Path:
    def __init__(self, w, conds, kind, val, snap):
        self.w, self.e = w, w.e
        self.conds, self.kind, self.val, self.snap = conds, kind, val, snap
        self.facts = list(snap.facts)
        self.draws = snap.draws

    def __enter__(self):
        self.old = self.e.snapshot()
        self.e.restore(self.snap)
        for c in self.conds:
            if c not in self.e.facts:
                self.e.facts.append(c)
        return self

    def __exit__(self, *a):
        self.e.restore(self.old)

    def arr(self, v):
        if isinstance(v, Ref) and v.kind == "arr":
            return self.snap.heap[v.i]
        with self:
            return vglib.toarr(self.e, v)

    def admits(self, A):
        try:
            return all(A.cond(c, {}) for c in self.conds)
        except (Give, Undefined, KeyError):
            return False

    def label(self):
        return " and ".join(repr(c) for c in self.conds)[:300] or "always"


def explore(w, fun):
    """Paths of fun(), or raises Stop/Give."""
    out = []
    for conds, kind, val, snap in w.e.explore(fun):
        out.append(Path(w, conds, kind, val, snap))
    return out


SIZE_NAMES = ("n", "m", "k", "K", "N", "n2")


def assignments(path, tries=60, want=8, **fixed):
    """Admissible assignments of the symbols for this path."""
    out = []
    for seed in range(tries):
        r = random.Random(seed * 7919 + 13)
        sizes = {"n": r.choice([1, 2, 3, 4, 6]),
                 "m": r.choice([1, 2, 3, 5, 8]),
                 "k": r.choice([1, 2, 4, 6, 9]),
                 "K": r.choice([1, 2, 3, 4]),
                 "N": r.choice([0, 1, 3, 5]),
                 "n2": r.choice([1, 2, 3])}
        sizes.update({k: (v(r) if callable(v) else v)
                      for k, v in fixed.items()})
        A = Assignment(seed, sizes, draws=path.draws)
        if path.admits(A):
            out.append(A)
            if len(out) >= want:
                break
    return out


def entries(A, arr, limit=400):
    """Numbers of an array under an assignment: {index tuple: value}."""
    dims = []
    for ax in arr.shape:
        dims.append(axis_indices(A, ax))
    out = {}
    def go(k, idx, env):
        if k == len(dims):
            out[tuple(idx)] = A.poly(arr.body, env)
            return
        for pos_, i in enumerate(dims[k]):
            e2 = dict(env)
            e2[arr.vars[k].one_atom()] = i
            go(k + 1, idx + [pos_], e2)
            if len(out) > limit:
                return
    go(0, [], {})
    return out


def axis_indices(A, ax):
    n = A.index(ax.n, {})
    if ax.filt is None:
        return range(n)
    return [i for i in range(n)
            if A.cond(ax.guard(P(i)), {})]
