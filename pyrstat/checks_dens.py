"""Checks of the numbers a fitted mixture answers."""
import math
from . import term as T, vglib
from .term import P, Give, ONE, fresh_index
from .vg import Num, Const, Ref, Tup, Stop, NONE, Bool, PyRaise, Axis
from .witness import Undefined, close, INF, h01, lgamma
from .mixscen import MixWorld
from .mixnum import MA, admissible, sizes, log_normal, inverse, det, quad
from .checks_mix import (paths_of, grid, tested, Group, fields_of, arr_of,
                         model_of, theta_arrays, theta_at, same_grid, BASE,
                         ERRS)
from .checks_query import fitted, points, ints, queries, Query
from .report import run_tasks


# ------------------------------------------------------------- the records
class Rec:
    """One recorded draw: weights, atoms and assignments."""

    def __init__(self, e, r):
        self.w = e.heap[e_item(e, r, "w").i]
        self.j = fresh_index()
        th = e_item(e, r, "theta")
        e.facts.append(T.ge(self.j, 0))
        e.facts.append(T.gt(self.w.shape[0].n, self.j))
        at = vglib.getitem(e, th, [Num(self.j, "i")])
        self.mu = vglib.toarr(e, vglib.getitem(e, at, [Num(0, "i")]))
        self.cov = vglib.toarr(e, vglib.getitem(e, at, [Num(1, "i")]))
        self.d = e.heap[e_item(e, r, "d").i]

    def weights(self, A):
        return flat(A, self.w)

    def atoms(self, A, p):
        out = []
        a = self.j.one_atom()
        for j in range(A.index(self.w.shape[0].n, {})):
            m = [A.poly(self.mu.body, {a: j, self.mu.vars[0].one_atom(): c})
                 for c in range(p)]
            S = [[A.poly(self.cov.body, {
                a: j, self.cov.vars[0].one_atom(): r,
                self.cov.vars[1].one_atom(): c}) for c in range(p)]
                for r in range(p)]
            out.append((m, S))
        return out


def flat(A, arr):
    v = arr.vars[0].one_atom()
    return [A.poly(arr.body, {v: i}) for i in range(A.index(
        arr.shape[0].n, {}))]


def e_item(e, o, k):
    return vglib.getitem(e, o, [k if not isinstance(k, str) else Const(k)])


def gibbs_records(e, o, steps):
    """The recorded draws and the MAP record."""
    sims = e.method(o, "get_sim_params")
    out = []
    for k in range(steps):
        out.append(Rec(e, vglib.getitem(e, sims, [Num(k, "i")])))
    return out, Rec(e, fields_of(e, o)["map_sim_params"])


def dims_of(A, w):
    return (1 if w.n.value() == 1 else A.sizes["n"],
            1 if w.p.value() == 1 else A.sizes["p"])


def data(A, w, q):
    """The points of a query, restricted to its features."""
    n, p = dims_of(A, w)
    m = A.index(P(q.count), {})
    cols = q.cols if q.cols is not None else list(range(p))
    name = q.data
    return [[A.leaf(name, (i, c)) for c in cols] for i in range(m)], cols


def sub(v, cols):
    return [v[c] for c in cols]


def sub2(m, cols):
    return [[m[a][b] for b in cols] for a in cols]


# ---------------------------------------------------- C30: what densities are
def mixture(ws, at, xs, cols, comp):
    out = []
    js = range(len(ws)) if comp is None else [comp]
    for x in xs:
        t = 0.0
        for j in js:
            mu, S = at[j]
            t += ws[j] * math.exp(log_normal(x, sub(mu, cols),
                                             sub2(S, cols)))
        out.append(t)
    return out


def student(x, mu, S, nu):
    """Density of the multivariate t with scale matrix S."""
    d = len(mu)
    q = quad([a - b for a, b in zip(x, mu)], inverse(S))
    return math.exp(lgamma((nu + d) / 2) - lgamma(nu / 2) -
                    d / 2 * math.log(nu * math.pi) -
                    math.log(det(S)) / 2 -
                    (nu + d) / 2 * math.log1p(q / nu))


def var_expected(A, w, q, th, ver):
    M = model_of(A, w)
    p = M.p
    theta = theta_at(A, th, M)
    xs, cols = data(A, w, q)
    out = []
    js = range(len(theta)) if q.comp is None else [q.comp]
    v = A.index(ver, {})
    for x in xs:
        t = 0.0
        for j in js:
            m, beta, W, nu = theta[j]
            Wi = sub2(inverse(W), cols)
            if q.method == "var_eap_density":
                f = nu + 1 - p
                S = [[c * (1 + beta) / beta / f for c in r] for r in Wi]
                t += A.leaf("ew", (v, j)) * student(x, sub(m, cols), S, f)
            else:
                if nu - p <= 0.05:
                    raise Give("no posterior mode")
                S = [[c / (nu - p) for c in r] for r in Wi]
                t += A.leaf("mw", (v, j)) * math.exp(log_normal(
                    x, sub(m, cols), S))
        out.append(t)
    return out


def compare(A, p, val, want, tol=1e-6):
    arr = p.arr(val)
    if arr.ndim != 1:
        raise Give("not a vector")
    got = flat(A, arr)
    if len(got) != len(want):
        return "%d points are given and %d densities returned" % (
            len(want), len(got))
    for i, (a, b) in enumerate(zip(got, want)):
        if a != a or not same(a, b, tol):
            return "point %d has density %.9g, the mixture gives %.9g" % (
                i, a, b)
    return None


def same(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300


def run_query(w, kind, q, steps=2, **kw):
    """go() and the place where it leaves the records of each path."""
    e = w.e

    def go():
        o = fitted(w, kind, steps=steps if kind == "gibbs" else 1, **kw)
        if kind == "gibbs":
            recs = gibbs_records(e, o, steps)
        else:
            f = fields_of(e, o)
            recs = theta_arrays(e, f["var_theta"]), w.stub.ver(), arr_of(
                e, f["var_d"])
        return recs, q.run(w, o)
    return go


def c30_task(rep, kind, pd, nd, k, of, steps):
    w = MixWorld(p=pd, n=nd)
    qs = queries(w, kind, outs=("density",))
    if kind == "gibbs":
        for per in (1, 2, 5):
            def args(per=per):
                return {"y": points(w, q0.count), "periods": Num(per, "i")}
            q0 = [q for q in qs if q.data == "x"][0]
            x = Query("gibbs_eap_density of new points, periods=%d" % per,
                      "gibbs_eap_density", "density", args, q0.count)
            x.periods = per
            qs.append(x)
    for q in qs[k::of]:
        what = "%s (%s observation(s) of %s dimension(s))" % (q.label, nd, pd)
        key = "%s.%s" % (BASE, q.method)
        g = Group(rep, what)
        ps = paths_of(rep, w, what, run_query(w, kind, q, steps))
        fx = fixed_sizes(w)
        for p in ps:
            if p.kind != "ok":
                continue

            def claim(A):
                n, dim = dims_of(A, w)
                recs, val = p.val
                if kind == "var":
                    want = var_expected(A, w, q, recs[0], recs[1])
                else:
                    xs, cols = data(A, w, q)
                    use = [recs[1]]
                    if q.method == "gibbs_eap_density":
                        use = recs[0]
                        use = use[-min(getattr(q, "periods", len(use)),
                                       len(use)):]
                    rows = [mixture(r.weights(A), r.atoms(A, dim), xs, cols,
                                    q.comp) for r in use]
                    want = [sum(c) / len(rows) for c in zip(*rows)]
                return compare(A, p, val, want)
            tested(rep, p, what, key, claim, want=3 if kind == "gibbs" else
                   5, fixed=fx, group=g)
        if ps:
            g.close()


def fixed_sizes(w):
    fx = {}
    if w.n.value() == 1:
        fx["n"] = 1
    if w.p.value() == 1:
        fx["p"] = 1
    return fx


def c30(rep):
    """Density queries evaluate the fitted mixture."""
    rep.rule = (
        "The formula extracted for every density query (data source, form of "
        "dim, component, periods) after a fit of n observations in p "
        "dimensions is identified with the mixture written down from the "
        "recorded draws, the MAP record or the variational parameters: "
        "normal components, Student t predictive components or posterior "
        "modes, marginalised over the features left out.")
    rep.assumptions += ["library functions follow their documentation",
                        "the weighting model enters through its public "
                        "methods"]
    tasks = []
    for pd, nd in (("many", "many"), ("one", "many")):
        for kind, of in (("var", 4), ("gibbs", 8)):
            tasks += [(c30_task, (kind, pd, nd, k, of, 2))
                      for k in range(of)]
    if rep.tier == "thorough":
        for kind, of in (("var", 4), ("gibbs", 8)):
            tasks += [(c30_task, (kind, "many", "one", k, of, 2))
                      for k in range(of)]
            tasks += [(c30_task, (kind, "one", "one", k, of, 2))
                      for k in range(of)]
    run_tasks(rep, tasks)


# ------------------------------------------- C29: densities integrate to one
STEP, TOP = 0.08, 10.0
NODES = int(2 * TOP / STEP) + 1


def node(k):
    t = -TOP + STEP * k
    return math.sinh(t), math.cosh(t) * STEP


def along(col):
    """Points on a line: column col runs over the nodes, others are fixed."""
    def f(A, idx):
        i, c = idx
        if c == col:
            return node(i)[0]
        return (h01(A.seed, "fixed", c) - 0.5) * 4
    return f


def settled(A, idx=()):
    return 2.0 + 2 * h01(A.seed, "nu0")


PAIRS = {2: [(None, [0], 1, "int"), (None, [0], 1, "list"),
             (None, [1], 0, "int"), (None, [1], 0, "array"),
             ([1, 0], [1], 0, "int"), ([1, 0], None, None, None)],
         3: [(None, [0, 1], 2, "list"), (None, [2, 0], 1, "array"),
             ([0, 1], [0], 1, "int"), ([2, 1], [1], 2, "int"),
             ([2, 1], [2], 1, "list")]}
METHODS = ("var_eap_density", "var_map_density", "gibbs_eap_density",
           "gibbs_map_density")


def c29_total(rep, meth, comp):
    """One feature: the integral is the total weight."""
    w = MixWorld(p="one")
    e = w.e
    kind = meth.split("_")[0]
    m = T.symbol("m", lo=2, integer=True)
    label = "integral of %s%s" % (meth, "" if comp is None else
                                  ", component %d" % comp)
    q = Query(label, meth, "density", lambda: dict(
        {"y": points(w, m)}, **({} if comp is None else {
            "component": Num(comp, "i")})), m, None, "x", comp)
    g = Group(rep, label)
    ps = paths_of(rep, w, label, run_query(w, kind, q))
    for p in ps:
        if p.kind != "ok":
            continue

        def claim(A):
            recs, val = p.val
            if kind == "var":
                K, v = A.sizes["K"], A.index(recs[1], {})
                ws = [[A.leaf("ew" if "eap" in meth else "mw", (v, j))
                       for j in range(K)]]
            elif "map" in meth:
                ws = [recs[1].weights(A)]
            else:
                ws = [r.weights(A) for r in recs[0]]
            tot = [sum(x) if comp is None else x[comp] for x in ws]
            want = sum(tot) / len(tot)
            got = flat(A, p.arr(val))
            if len(got) != NODES:
                return "%d values for %d points" % (len(got), NODES)
            if min(got) < 0:
                return "a negative density"
            r = sum(f * node(k)[1] for k, f in enumerate(got))
            if abs(r - want) > 2e-4 * max(want, 1e-3):
                return "the density integrates to %.6g, the weights sum to " \
                    "%.6g" % (r, want)
        tested(rep, p, label, "%s.%s" % (BASE, meth), claim, want=2,
               fixed={"p": 1, "m": NODES}, group=g,
               over={"x": along(0), "nu0": settled})
    if ps:
        g.close()


def c29_marginal(rep, meth, p_, pair):
    """Integrating out a feature gives the density without it."""
    big, small, col, how = pair
    w = MixWorld()
    kind = meth.split("_")[0]
    m = T.symbol("m", lo=2, integer=True)

    def args(cols, how):
        def f():
            if cols is None:
                return {"y": points(w, m)}
            return {"y": points(w, m, cols), "dim": ints(w, how, cols)}
        return f
    label = "%s of %s against dim=%s, %d features" % (
        meth, "all features" if big is None else "dim=%s" % big,
        small, p_)
    a = Query(label, meth, "density", args(big, "list"), m, big)
    b = Query(label, meth, "density", args(small, how), m, small)
    e = w.e

    def go():
        o = fitted(w, kind, steps=2 if kind == "gibbs" else 1)
        return a.run(w, o), b.run(w, o)
    g = Group(rep, label)
    ps = paths_of(rep, w, label, go)
    for p in ps:
        if p.kind != "ok":
            continue

        def claim(A):
            x, y = (flat(A, p.arr(v)) for v in p.val)
            if len(x) != NODES or len(y) != NODES:
                return "%d and %d values for %d points" % (
                    len(x), len(y), NODES)
            if col is None:     # the same features in another order
                for i in range(0, NODES, 10):
                    if not same(x[i], y[i]):
                        return "%.8g with the features reordered, %.8g " \
                            "otherwise" % (x[i], y[i])
                return None
            r = sum(f * node(k)[1] for k, f in enumerate(x))
            if abs(r - y[0]) > 2e-4 * max(abs(r), abs(y[0])) + 1e-12:
                return "integrating feature %d out gives %.7g, the marginal " \
                    "density is %.7g" % (col, r, y[0])
        tested(rep, p, label, "%s.%s" % (BASE, meth), claim, want=2,
               fixed={"p": p_, "m": NODES}, group=g,
               over={"x": along(0 if col is None else col), "nu0": settled})
    if ps:
        g.close()


def c29(rep):
    """Densities are non-negative, integrate to one, and marginals agree."""
    rep.rule = (
        "The formula extracted for each density query is integrated "
        "numerically over one feature (trapezoid rule on a sinh grid, %d "
        "nodes): with one feature the integral is the total weight, with "
        "more it is the density restricted to the other features." % NODES)
    rep.assumptions += ["weights of the weighting model sum to at most one "
                        "(C11, C13)"]
    tasks = []
    for m in METHODS:
        for comp in (None, 0):
            tasks.append((c29_total, (m, comp)))
        for p_ in sorted(PAIRS):
            tasks += [(c29_marginal, (m, p_, x)) for x in PAIRS[p_]]
    run_tasks(rep, tasks)
