"""Checks of what a fitted mixture answers."""
import math
from . import term as T, vglib
from .term import P, Give, ONE, fresh_index, total
from .vg import (Num, Const, Ref, Tup, Stop, NONE, Bool, PyRaise, Many, Arr,
                 Axis, ListV)
from .witness import Undefined, close, INF, h01
from .numscen import entries
from .mixscen import MixWorld, explore
from .mixnum import (MA, Model, admissible, sizes, log_normal, inverse, det,
                     quad)
from .checks_mix import (paths_of, grid, tested, Group, fields_of, arr_of, model_of,
                         theta_arrays, theta_at, same_grid, BASE, ERRS)
from .report import run_tasks


# -------------------------------------------------------------- scenarios
def fitted(w, kind, y=None, steps=1, init="random", **kw):
    """A fitted mixture."""
    e = w.e
    o = w.build(total_iter=Num(steps, "i"), burn_in=Num(0, "i"), **kw)
    y = w.y() if y is None else y
    if kind == "var":
        e.method(o, "fit_variational", y, n_groups=Num(w.K, "i"),
                 init_method=Const(init), tol=Num(w.tol))
    else:
        e.method(o, "fit_gibbs", y, init_method=Const(init))
    return o


def points(w, n, cols=None):
    """n new points, or the given features of n new points."""
    e = w.e
    i, c = fresh_index(), fresh_index()
    if cols is None:
        return e.arr([Axis(n), Axis(w.p)], [i, c], T.el("x", i, c), "f")
    body = T.el("x", i, P(cols[-1]))
    for k in range(len(cols) - 2, -1, -1):
        body = T.ite(T.eq(c, k), T.el("x", i, P(cols[k])), body)
    return e.arr([Axis(n), Axis(len(cols))], [i, c], body, "f")


def ints(w, how, cols):
    e = w.e
    if how == "int":
        return Num(cols[0], "i")
    if how == "list":
        return e.list_([Num(c, "i") for c in cols])
    if how == "tuple":
        return Tup([Num(c, "i") for c in cols])
    c = fresh_index()
    body = P(cols[-1])
    for k in range(len(cols) - 2, -1, -1):
        body = T.ite(T.eq(c, k), P(cols[k]), body)
    return e.arr([Axis(len(cols))], [c], body, "i")


class Query:
    def __init__(self, label, method, out, args, count, cols=None,
                 data="x", comp=None, n=None):
        self.label, self.method, self.out = label, method, out
        self.args, self.count = args, count     # args: () -> keywords
        self.cols, self.data, self.comp = cols, data, comp

    def run(self, w, o):
        return w.e.method(o, self.method, **self.args())


DENS = {"var": ("var_eap_density", "var_map_density"),
        "gibbs": ("gibbs_eap_density", "gibbs_map_density")}


def queries(w, kind, outs=("density", "cluster", "affinity"), full=True):
    """The ways to ask a fitted mixture something."""
    m = T.symbol("m", lo=2, integer=True)
    one = w.p.value() == 1
    dims = [("int", [0]), ("list", [0]), ("array", [0])]
    if not one:
        dims += [("int", [1]), ("list", [1, 0]), ("array", [1, 0]),
                 ("tuple", [0, 1]), ("list", [1])]
    sets = [("the data", None, w.n), ("new points", m, m),
            ("one new point", ONE, ONE)]
    out = []
    for dname, k, n in sets:
        def data(cols=None, k=k):
            return NONE if k is None else points(w, k, cols)
        src = "y" if k is None else "x"
        if "density" in outs:
            for meth in DENS[kind]:
                for comp in (None, 0):
                    def args(data=data, comp=comp):
                        a = {"y": data()}
                        if comp is not None:
                            a["component"] = Num(comp, "i")
                        return a
                    out.append(Query("%s of %s%s" % (
                        meth, dname, "" if comp is None else
                        ", component 0"), meth, "density", args, n,
                        None, src, comp))
                for how, cols in dims:
                    if comp is not None and not full:
                        continue

                    def args(data=data, how=how, cols=cols):
                        return {"y": data(cols), "dim": ints(w, how, cols)}
                    out.append(Query("%s of %s, dim=%s (%s)" % (
                        meth, dname, cols, how), meth, "density", args, n,
                        cols, src))
                if not one:
                    def args(data=data):
                        return {"y": data([1]), "dim": Num(1, "i"),
                                "component": Num(0, "i")}
                    out.append(Query("%s of %s, dim=1, component 0" % (
                        meth, dname), meth, "density", args, n, [1], src, 0))
        pre = "var" if kind == "var" else "gibbs"
        if "cluster" in outs:
            for f in (False, True):
                def args(data=data, f=f):
                    return {"y": data(), "full": Bool(T.TRUE if f else
                                                      T.FALSE)}
                out.append(Query("%s_map_cluster of %s%s" % (
                    pre, dname, ", full" if f else ""),
                    "%s_map_cluster" % pre, "full" if f else "cluster",
                    args, n, None, src))
        if "affinity" in outs:
            def args(data=data):
                return {"y": data()}
            out.append(Query("%s_eap_affinity_matrix of %s" % (pre, dname),
                             "%s_eap_affinity_matrix" % pre, "affinity",
                             args, n, None, src))
    return out


def shape_of(A, a):
    return [A.index(x.length(), {}) for x in a.shape]


def number(A, p):
    return A.index(P(p), {})


# ---------------------------------------------------------- C16: the shapes
def c16_shape(A, p, q, val):
    n = number(A, q.count)
    parts = [val]
    if q.out == "full":
        items = val.items if isinstance(val, Tup) else None
        if items is None or len(items) != 2:
            return "the result is not a pair of labels and uncertainties"
        parts = list(items)
    for k, v in enumerate(parts):
        if not (isinstance(v, Ref) and v.kind == "arr"):
            if isinstance(v, Num):
                return "the result is one number"
            raise Give("unknown result")
        got = shape_of(A, p.arr(v))
        want = [n, n] if q.out == "affinity" else [n]
        if got != want:
            return "the shape is %s, not %s" % (tuple(got), tuple(want))
    return None


WORLDS = (("many", "many"), ("one", "many"), ("many", "one"), ("one", "one"))


def c16_task(rep, kind, pd, nd, k, of):
    w = MixWorld(p=pd, n=nd)
    for q in queries(w, kind)[k::of]:
        what = "%s (%s observation(s) of %s dimension(s))" % (q.label, nd, pd)
        key = "%s.%s" % (BASE, q.method)

        def go():
            o = fitted(w, kind)
            return q.run(w, o)
        g = Group(rep, what)
        ps = paths_of(rep, w, what, go)
        for p in ps:
            fx = {"n": 1} if nd == "one" else {}
            if pd == "one":
                fx["p"] = 1
            if p.kind == "raise":
                if not admissible(p, want=1, fixed=fx):
                    continue
                rep.bad(key, "%s: raises %s at %s [%s]" % (
                    what, p.val.name, p.val.where, p.label()))
                g.bad += 1
                continue
            tested(rep, p, what, key, lambda A: c16_shape(
                A, p, q, p.val), want=3, fixed=fx, group=g)
        if ps:
            g.close()


def c16(rep):
    """Query results have one entry per observation."""
    rep.rule = (
        "Every query is evaluated symbolically after a fit of n observations "
        "in p dimensions, for the data, m new points and one new point, every "
        "form of dim and a single component; the symbolic shape of the result "
        "must be the number of points, and no path may raise.")
    rep.assumptions += ["library functions follow their documentation",
                        "the weighting model enters through its public "
                        "methods"]
    tasks = []
    for pd, nd in WORLDS:
        for kind, of in (("var", 4), ("gibbs", 6)):
            tasks += [(c16_task, (kind, pd, nd, k, of)) for k in range(of)]
    run_tasks(rep, tasks)
