"""Scenarios of calls on mixtures, whatever the weighting model."""
from . import term as T
from . import vglib
from .term import Poly, Atom, P, ZERO, ONE, Give, gt, ge, fresh_index, total
from .vg import (Engine, Num, Const, Bool, Ref, Tup, Arr, Axis, Stop, NONE,
                 PyRaise, Unk, ObjV, Draw)
from .vglib import Opaque
from .witness import h01
from .front import AnalysisBroken
from .numscen import Path, explore, count, pos, SIZE_NAMES

BASE = "pyrichlet.mixture_models.BaseGaussianMixture"


class Call(Draw):
    """A call of a method of the weighting model."""


def gen_prob(name):
    def f(A, idx):
        v, j, i = idx
        K = A.sizes["K"]
        us = [0.02 + h01(A.seed, name, v, t, i) ** 2 for t in range(K)]
        return us[j] / sum(us) if 0 <= j < K else 0.0
    return f


def gen_weight(A, idx):
    """Stick-breaking weights."""
    v, j = idx
    r = 1.0
    for t in range(j):
        r *= 0.95 - 0.7 * h01(A.seed, "wt", v, t)
    return r * (0.05 + 0.7 * h01(A.seed, "wt", v, j))


def gen_labels(A, d, idx):
    n = A.index(d.params["n"], vglib.draw_env(d, idx))
    return int(n * vglib._u(A, d, idx))


vglib.DRAW_GEN["labels"] = gen_labels


class Stub:
    """A weighting model of which only the interface is known."""

    def __init__(self, w):
        self.w, self.e = w, w.e
        self.table = {}
        self.val = Opaque("BaseWeight", self.call)
        self.state = self.e.new("obj", ObjV(None, {"ver": Num(0, "i"),
                                                   "d": NONE,
                                                   "dv": Num(0, "i"),
                                                   "len": Num(0, "i"),
                                                   "fitted": NONE}))

    # state of the model on this path
    def get(self, k):
        return self.e.heap[self.state.i].fields[k]

    def set(self, **kw):
        f = dict(self.e.heap[self.state.i].fields)
        f.update(kw)
        self.e.heap[self.state.i] = ObjV(None, f)

    def ver(self):
        return self.get("ver").p

    def bump(self):
        self.set(ver=Num(self.ver() + 1, "i"))
        return self.ver()

    def record(self, name, **args):
        e = self.e
        params, arrays = {}, {}
        for k, v in args.items():
            if isinstance(v, (Ref, Num)) and not (
                    isinstance(v, Ref) and v.kind != "arr"):
                a = vglib.toarr(e, v)
                if a.ndim:
                    arrays[k] = a
                else:
                    params[k] = a.body
        c = Call(id=None, kind="call", name=name, params=params,
                 arrays=arrays, shape=[], vars=[], loops=list(e.loopvars),
                 facts=list(e.facts), where=e.where(), func=e.func_name(),
                 dist="call", values=dict(args), ver=self.ver(),
                 tick=len(e.draws))
        e.marks.append(c)
        return c

    def weights(self):
        j = fresh_index()
        return self.e.arr([Axis(self.get("len").p)], [j],
                          T.el("wt", self.get("dv").p, j), "f")

    def more(self, n):
        """Some length from n on."""
        v = self.bump()
        self.set(len=Num(n + T.el("Lx", v), "i"))

    def call(self, e, name, args, kw):
        names = {"fit": ["d"], "fit_variational": ["variational_d"],
                 "random": ["size"], "complete": ["size"], "tail": ["x"],
                 "random_assignment": ["size"],
                 "assignation_log_likelihood": ["d"],
                 "variational_mean_log_p_d__w": ["variational_d"],
                 "variational_mean_log_w_j": ["j"],
                 "variational_mean_w_j": ["j"],
                 "variational_mode_w_j": ["j"]}
        a = dict(zip(names.get(name, ()), args))
        a.update(kw)
        self.record(name, **a)
        v = self.ver()
        if name == "fit_variational":
            # the result depends on the assignment probabilities only
            d = vglib.toarr(e, a["variational_d"])
            key = d.at(*[Poly.atom(Atom("iv", ("p", k)))
                         for k in range(d.ndim)]), tuple(
                             x.n for x in d.shape)
            self.set(ver=Num(-1 - self.table.setdefault(
                key, len(self.table)), "i"), d=e.new("arr", d))
            return NONE
        if name in ("variational_mean_log_w_j", "variational_mean_w_j",
                    "variational_mode_w_j"):
            j = vglib.num(e, a["j"])
            return Num(T.el({"variational_mean_log_w_j": "elogw",
                             "variational_mean_w_j": "ew",
                             "variational_mode_w_j": "mw"}[name], v, j))
        if name == "variational_mean_log_p_d__w":
            d = a.get("variational_d", NONE)
            if d is NONE:
                d = self.get("d")
            d = vglib.toarr(e, d)
            j, i = fresh_index(), fresh_index()
            return Num(total(j, d.shape[0].n, total(
                i, d.shape[1].n, d.at(j, i) * T.el("elogw", v, j))))
        if name == "variational_mean_log_p_w":
            return Num(T.el("epw", v))
        if name == "variational_mean_log_q_w":
            return Num(T.el("eqw", v))
        if name == "fit":
            self.set(fitted=e.new("arr", vglib.toarr(e, a["d"])))
            return NONE
        if name == "reset":
            self.set(fitted=NONE, len=Num(0, "i"))
            return NONE
        if name == "random":
            n = ONE
            f = self.get("fitted")
            if f is not NONE:
                i = fresh_index()
                d = e.heap[f.i]
                n = T.bind("max", i, d.shape[0].n, d.at(i)) + 1
            if a.get("size", NONE) is not NONE:
                n = T.fn("max2", n, vglib.num(e, a["size"]))
            self.more(n)
            self.set(dv=Num(self.ver(), "i"))
            return self.weights()
        if name in ("complete", "tail"):
            n = self.get("len").p
            if name == "complete":
                n = T.fn("max2", n, vglib.num(e, a["size"]))
            self.more(n)
            return self.weights()
        if name == "get_weights":
            return self.weights()
        if name == "get_size":
            return self.get("len")
        if name == "random_assignment":
            i = fresh_index()
            n = vglib.num(e, a["size"])
            did, lv = vglib.record(
                e, "labels", [Axis(n)], [i], dict(n=self.get("len").p),
                lo=0, lo_in=True, integer=True)
            return e.arr([Axis(n)], [i], Poly.atom(Atom(
                "draw", did, tuple(lv) + (i,))), "i")
        if name == "assignation_log_likelihood":
            d = vglib.toarr(e, a["d"])
            i = fresh_index()
            return Num(total(i, d.shape[0].n, T.fn("log", T.el(
                "wt", self.get("dv").p, d.at(i)))))
        if name == "weighting_log_likelihood":
            return Num(T.el("wll", v))
        raise Stop("weight_model.%s" % name)


class MixWorld:
    def __init__(self, p="many", n="many", priors="given"):
        self.e = e = Engine()
        e.top()
        e.peel = 4
        e.cut = 12
        e.lazy = True
        self.n = ONE if n == "one" else T.symbol("n", lo=2, integer=True)
        self.p = ONE if p == "one" else T.symbol("p", lo=2, integer=True)
        self.K = T.symbol("K", lo=1, integer=True)
        T.array_symbol("y")
        T.array_symbol("x")
        T.array_symbol("mu0")
        T.array_symbol("psi0", gen=lambda A, i: A.psd("psi0", *i))
        T.array_symbol("elogw", hi=0)
        T.array_symbol("ew", lo=0, hi=1)
        T.array_symbol("mw", lo=0, hi=1)
        T.array_symbol("epw")
        T.array_symbol("eqw")
        T.array_symbol("wll")
        T.array_symbol("Lx", lo=0, hi=2, integer=True)
        T.array_symbol("wt", lo=0, hi=1, gen=gen_weight)
        self.lam = T.symbol("lam", lo=0, lo_in=False)
        self.nu = T.symbol("nu0", lo=0, lo_in=False)
        self.tol = T.symbol("tol", lo=0, lo_in=False)
        self.priors = priors
        self.stub = Stub(self)

    def matrix(self, name, n, p=None):
        i, c = fresh_index(), fresh_index()
        return self.e.arr([Axis(n), Axis(self.p if p is None else p)],
                          [i, c], T.el(name, i, c), "f")

    def y(self):
        return self.matrix("y", self.n)

    def x(self, m=None):
        return self.matrix("x", m if m is not None else T.symbol(
            "m", lo=2, integer=True))

    def cls(self, name=BASE):
        try:
            return self.e.cls(name)
        except (KeyError, Stop, PyRaise):
            raise AnalysisBroken("no public class %s" % name)

    def build(self, **kw):
        e = self.e
        args = dict(weight_model=self.stub.val, rng=vglib.Rng(),
                    lambda_prior=Num(self.lam))
        if self.priors == "given":
            c = fresh_index()
            args["mu_prior"] = e.arr([Axis(self.p)], [c], T.el("mu0", c),
                                     "f")
            a, b = fresh_index(), fresh_index()
            args["psi_prior"] = e.arr([Axis(self.p), Axis(self.p)], [a, b],
                                      T.el("psi0", a, b), "f")
            args["nu_prior"] = Num(self.nu + self.p - 1)
        args.update(kw)
        return e.construct(self.cls(), [], args)
