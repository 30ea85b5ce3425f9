"""Checks of clusterings, affinities, and of changes of units."""
import math
from . import term as T, vglib
from .term import P, Give, ONE, fresh_index
from .vg import (Num, Const, Ref, Tup, Stop, NONE, Bool, PyRaise, Axis, Many,
                 Unk)
from .witness import Undefined, close, INF, h01
from .numscen import entries
from .mixscen import MixWorld
from .mixnum import MA, admissible, sizes, log_normal
from .checks_mix import (paths_of, grid, tested, Group, fields_of, arr_of,
                         model_of, theta_arrays, theta_at, same_grid, BASE,
                         ERRS)
from .checks_query import fitted, points, ints, queries, Query
from .checks_dens import (Rec, gibbs_records, flat, data, dims_of, run_query,
                          fixed_sizes, same)
from .report import run_tasks


def argmax(v):
    return max(range(len(v)), key=lambda i: v[i])


def log_weighted(rec, A, p, xs):
    """log of weight times density of every component at every point."""
    ws, at = rec.weights(A), rec.atoms(A, p)
    return [[(math.log(w) if w > 0 else -INF) + log_normal(x, *a)
             for w, a in zip(ws, at)] for x in xs]


def partition(labels):
    return [[a == b for b in labels] for a in labels]


# -------------------------------------------------------------- C10: affinity
def c10_task(rep, kind, pd, nd, steps, sub, k, of):
    w = MixWorld(p=pd, n=nd)
    e = w.e
    qs = queries(w, kind, outs=("affinity",))
    for q in qs[k::of]:
        sched = "" if kind == "var" else ", %d steps, every %d recorded" % (
            steps, sub)
        what = "%s (%s observation(s) of %s dimension(s)%s)" % (
            q.label, nd, pd, sched)
        key = "%s.%s" % (BASE, q.method)
        g = Group(rep, what)

        def go():
            kw = {} if kind == "var" else {
                "subsample_steps": Num(sub, "i")}
            o = fitted(w, kind, steps=steps if kind == "gibbs" else 1, **kw)
            f = fields_of(e, o)
            if kind == "gibbs":
                recs = gibbs_records(e, o, -(-steps // sub))
            else:
                recs = (theta_arrays(e, f["var_theta"]), w.stub.ver(),
                        arr_of(e, f["var_d"]))
            return recs, q.run(w, o)
        ps = paths_of(rep, w, what, go)
        for p in ps:
            if p.kind != "ok":
                continue

            def claim(A):
                recs, val = p.val
                n, dim = dims_of(A, w)
                got = grid(A, p.arr(val))
                if kind == "var":
                    if q.data == "y":
                        r = grid(A, recs[2])
                    else:
                        M = model_of(A, w)
                        xs, _ = data(A, w, q)
                        r = M.responsibilities(theta_at(A, recs[0], M),
                                               A.index(recs[1], {}), xs)
                    m = len(r[0])
                    want = [[sum(c[a] * c[b] for c in r) for b in range(m)]
                            for a in range(m)]
                else:
                    rows = []
                    for rec in recs[0]:
                        if q.data == "y":
                            lab = flat(A, rec.d)
                        else:
                            xs, _ = data(A, w, q)
                            lab = [argmax(v) for v in log_weighted(
                                rec, A, dim, xs)]
                        rows.append(partition(lab))
                    m = len(rows[0])
                    want = [[sum(r[a][b] for r in rows) / len(rows)
                             for b in range(m)] for a in range(m)]
                if len(got) != m or any(len(r) != m for r in got):
                    return "the matrix is not %d by %d" % (m, m)
                for a in range(m):
                    for b in range(m):
                        if not close(got[a][b], want[a][b], 1e-6):
                            return "entry (%d, %d) is %.8g, the proportion " \
                                "is %.8g" % (a, b, got[a][b], want[a][b])
            tested(rep, p, what, key, claim, want=4, fixed=fixed_sizes(w),
                   group=g)
        if ps:
            g.close()


def c10_warm(rep, k):
    """Records of a fit and of a warm start count alike."""
    w = MixWorld()
    e = w.e
    q = queries(w, "gibbs", outs=("affinity",))[k]
    what = "%s after a warm start" % q.label

    def go():
        o = fitted(w, "gibbs", steps=1)
        e.method(o, "fit_gibbs", w.y(), warm_start=Bool(T.TRUE))
        return gibbs_records(e, o, 2), q.run(w, o)
    g = Group(rep, what)
    ps = paths_of(rep, w, what, go)
    for p in ps:
        if p.kind != "ok":
            continue

        def claim(A):
            recs, val = p.val
            n, dim = dims_of(A, w)
            got = grid(A, p.arr(val))
            rows = []
            for rec in recs[0]:
                lab = flat(A, rec.d) if q.data == "y" else [
                    argmax(v) for v in log_weighted(
                        rec, A, dim, data(A, w, q)[0])]
                rows.append(partition(lab))
            m = len(rows[0])
            for a in range(m):
                for b in range(m):
                    want = sum(r[a][b] for r in rows) / len(rows)
                    if not close(got[a][b], want, 1e-6):
                        return "entry (%d, %d) is %.8g, the proportion is " \
                            "%.8g" % (a, b, got[a][b], want)
        tested(rep, p, what, "%s.%s" % (BASE, q.method), claim, want=4,
               group=g)
    if ps:
        g.close()


def c10(rep):
    """Affinities are co-clustering proportions."""
    rep.rule = (
        "The formula extracted for every entry of an affinity matrix is "
        "identified with the proportion of recorded draws in which the two "
        "points share a group (recorded assignments, or the most probable "
        "component of each draw for new points), or with the inner product "
        "of the variational assignment probabilities.")
    rep.assumptions += ["library functions follow their documentation"]
    tasks = []
    for pd, nd in (("many", "many"), ("one", "many"), ("many", "one")):
        tasks += [(c10_task, ("var", pd, nd, 1, 1, k, 3)) for k in range(3)]
        tasks += [(c10_task, ("gibbs", pd, nd, 2, 1, k, 3))
                  for k in range(3)]
    tasks += [(c10_task, ("gibbs", "many", "many", 3, 2, k, 3))
              for k in range(3)]
    tasks += [(c10_warm, (k,)) for k in range(3)]
    run_tasks(rep, tasks)


# -------------------------------------------------------- C14: probabilities
MODES = (("near", {}), ("far from the components",
                        {"spread": 40.0}),
         ("very far from the components", {"spread": 3e3}),
         ("far from the origin", {"offset": 1e5}),
         ("large units", {"spread": 1e6, "offset": -1e7}))


def c14_check(r, what="probabilities"):
    for i in range(len(r[0])):
        col = [row[i] for row in r]
        for v in col:
            if v != v or abs(v) == INF:
                return "%s of observation %d are not finite" % (what, i)
            if not v > 0:
                return "%s of observation %d contain %r" % (what, i, v)
        if abs(sum(col) - 1) > 1e-6:
            return "%s of observation %d sum to %.9g" % (what, i, sum(col))
    return None


def one_group(A, idx):
    """Every observation in the first group."""
    return 0


def c14_fit(rep, pd, init, steps):
    """Probabilities of the fitted observations."""
    w = MixWorld(p=pd)
    e = w.e
    what = "assignment probabilities after %d sweep(s), %s start, %s " \
        "dimension(s)" % (steps, init, pd)
    key = "%s.fit_variational" % BASE

    def go():
        o = fitted(w, "var", steps=1, init=init)
        out = [arr_of(e, fields_of(e, o)["var_d"])]
        for _ in range(steps - 1):
            e.method(o, "fit_variational", w.y(), warm_start=Bool(T.TRUE),
                     tol=Num(w.tol))
            out.append(arr_of(e, fields_of(e, o)["var_d"]))
        return out
    ps = paths_of(rep, w, what, go)
    for name, kw in MODES:
        for which in (0, 1):
            if which and init != "kmeans":
                continue
            g = Group(rep, "%s, data %s%s" % (
                what, name, ", one k-means group" if which else ""))
            for p in ps:
                if p.kind != "ok":
                    continue

                def claim(A):
                    for d in p.val:
                        m = c14_check(grid(A, d))
                        if m:
                            return m
                tested(rep, p, g.what, key, claim, want=4, group=g,
                       fixed=dict(fixed_sizes(w), K=3),
                       over={"kmeans": one_group} if which else {}, **kw)
            if ps:
                g.close()


def c14_query(rep, kind, pd, nd, k, of):
    """Labels and uncertainties."""
    w = MixWorld(p=pd, n=nd)
    e = w.e
    qs = queries(w, kind, outs=("cluster",))
    for q in qs[k::of]:
        what0 = "%s (%s observation(s) of %s dimension(s))" % (
            q.label, nd, pd)
        key = "%s.%s" % (BASE, q.method)
        go = run_query(w, kind, q, 1)
        ps = paths_of(rep, w, what0, go)
        for name, kw in MODES:
            what = "%s, data %s" % (what0, name)
            g = Group(rep, what)
            for p in ps:
                if p.kind != "ok":
                    continue

                def claim(A):
                    recs, val = p.val
                    n, dim = dims_of(A, w)
                    unc = None
                    if q.out == "full":
                        lab = flat(A, p.arr(val.items[0]))
                        unc = list(entries(A, p.arr(
                            val.items[1])).values())
                    else:
                        lab = flat(A, p.arr(val))
                    for i, u in enumerate(unc or ()):
                        if not -1e-9 <= u <= 1 + 1e-9:
                            return "the uncertainty of point %d is %r" % (
                                i, u)
                    if kw:
                        # too far apart for the independent computation
                        return None
                    xs, _ = data(A, w, q)
                    if kind == "var":
                        M = model_of(A, w)
                        if q.data == "y":
                            r = grid(A, recs[2])
                        else:
                            r = M.responsibilities(theta_at(A, recs[0], M),
                                                   A.index(recs[1], {}), xs)
                        best = [argmax([c[i] for c in r])
                                for i in range(len(r[0]))]
                        top = [max(c[i] for c in r)
                               for i in range(len(r[0]))]
                        if len(lab) != len(best):
                            return None      # C16
                        if list(lab) != best:
                            return "the labels are %s, the most probable " \
                                "components %s" % (lab, best)
                    else:
                        lw = log_weighted(recs[1], A, dim, xs)
                        best = [argmax(v) for v in lw]
                        top = [1 / sum(math.exp(x - max(v)) for x in v)
                               for v in lw]
                        if len(lab) != len(best):
                            return None
                        if partition(lab) != partition(best):
                            return "the labels are %s, the most probable " \
                                "components %s" % (lab, best)
                    if len(unc or lab) != len(lab):
                        return "%d uncertainties for %d points" % (
                            len(unc), len(lab))
                    for i, u in enumerate(unc or ()):
                        if abs(u - (1 - top[i])) > 1e-6:
                            return "the uncertainty of point %d is %.9g, " \
                                "not %.9g" % (i, u, 1 - top[i])
                tested(rep, p, what, key, claim, want=3, group=g,
                       fixed=fixed_sizes(w), **kw)
            if ps:
                g.close()


def c14_affinity(rep, kind, pd):
    """Affinities of far points stay in [0, 1]."""
    w = MixWorld(p=pd)
    for q in queries(w, kind, outs=("affinity",)):
        what0 = "%s (%s dimension(s))" % (q.label, pd)
        ps = paths_of(rep, w, what0, run_query(w, kind, q, 1))
        for name, kw in MODES:
            g = Group(rep, "%s, data %s" % (what0, name))
            for p in ps:
                if p.kind != "ok":
                    continue

                def claim(A):
                    got = grid(A, p.arr(p.val[1]))
                    for i, r in enumerate(got):
                        for j, v in enumerate(r):
                            if not -1e-9 <= v <= 1 + 1e-9:
                                return "entry (%d, %d) is %r" % (i, j, v)
                tested(rep, p, g.what, "%s.%s" % (BASE, q.method), claim,
                       want=3, group=g, fixed=fixed_sizes(w), **kw)
            if ps:
                g.close()


def c14(rep):
    """Assignment probabilities are finite, positive and normalised."""
    rep.rule = (
        "The formulas extracted for the assignment probabilities after each "
        "sweep, for labels, uncertainties and affinities, are evaluated on "
        "data near and far from the components and the origin: every "
        "probability is positive and finite, columns sum to one, "
        "uncertainties lie in [0, 1], labels are the most probable "
        "components.")
    rep.assumptions += ["library functions follow their documentation",
                        "round-off is that of double precision"]
    tasks = []
    for pd in ("many", "one"):
        for init in ("random", "kmeans"):
            for steps in (1, 2):
                tasks.append((c14_fit, (pd, init, steps)))
        for kind in ("var", "gibbs"):
            tasks.append((c14_affinity, (kind, pd)))
            for nd in ("many", "one"):
                tasks += [(c14_query, (kind, pd, nd, k, 2))
                          for k in range(2)]
    run_tasks(rep, tasks)


# ---------------------------------------------------- C15: units and origin
def units(seed, p):
    sc = [math.exp((h01(seed, "scale", c) - 0.5) * 3) for c in range(p)]
    sh = [(h01(seed, "shift", c) - 0.5) * 20 for c in range(p)]
    return sc, sh


def twins(path, want, fixed, tries=60):
    """Assignments of the same numbers in two systems of units."""
    out = []
    for seed in range(tries):
        sz = sizes(seed, **fixed)
        A = MA(seed, sz, draws=path.draws)
        sc, sh = units(seed, sz["p"])
        B = MA(seed, sz, draws=path.draws, scale=sc, shift=sh)
        if path.admits(A) and path.admits(B):
            for X in (A, B):
                X.memo.clear()
                X.tainted = False
            out.append((A, B, sc, sh))
            if len(out) >= want:
                break
    return out


def loop_envs(A, loops, limit=12):
    envs = [{}]
    for v, n, guard in loops:
        nxt = []
        for env in envs:
            for i in range(min(A.index(n, env), 6)):
                e2 = dict(env)
                e2[v.one_atom()] = i
                if A.cond(guard, e2):
                    nxt.append(e2)
        envs = nxt[:limit]
    return envs


def cells(A, arr, env):
    """Entries of an array of at most two dimensions, in an environment."""
    out = []

    def go(k, e2, idx):
        if k == arr.ndim:
            out.append((idx, A.poly(arr.body, e2)))
            return
        for i in range(A.index(arr.shape[k].n, e2)):
            e3 = dict(e2)
            e3[arr.vars[k].one_atom()] = i
            go(k + 1, e3, idx + (i,))
    go(0, dict(env), ())
    return out


def draw_covariance(p, A, B, sc, sh):
    """Parameters of every draw in both systems of units."""
    for d in p.draws:
        if not getattr(d, "dist", None):
            continue
        envs = loop_envs(A, d.loops)
        A.tainted = False        # the number of repetitions does not matter
        for ea in envs:
            for k, x in sorted(d.params.items()):
                if not isinstance(x, T.Poly) or x.free() - set(ea):
                    continue
                u, v = A.poly(x, ea), B.poly(x, ea)
                if not close(u, v, 1e-6):
                    return "%s of a %s draw is %.8g, and %.8g in other " \
                        "units" % (k, d.dist, u, v)
            for k, x in sorted(d.arrays.items()):
                free = x.body.free() - set(ea) - {
                    v.one_atom() for v in x.vars}
                if free:
                    continue
                ca, cb = cells(A, x, ea), cells(B, x, ea)
                if A.tainted or B.tainted:
                    A.tainted = B.tainted = False
                    A.memo.clear()
                    B.memo.clear()
                    continue
                for (i, u), (_, v) in zip(ca, cb):
                    if d.dist == "mvn" and k == "mean":
                        c = i[0] if i else 0
                        u = sc[c] * u + sh[c]
                    elif d.dist in ("mvn", "invwishart"):
                        r, c = i if i else (0, 0)
                        u = sc[r] * sc[c] * u
                    elif d.dist == "wishart":
                        r, c = i if i else (0, 0)
                        u = u / sc[r] / sc[c]
                    if not close(u, v, 1e-6):
                        return "%s%s of a %s draw is %.8g in other units, " \
                            "not %.8g" % (k, list(i), d.dist, v, u)
    return None


def c15_compare(A, B, sc, q, w, x, y):
    """The answers x and y to the same question in two systems of units."""
    n, dim = dims_of(A, w)
    f = 1.0
    if q.out == "density":
        for c in (q.cols if q.cols is not None else range(dim)):
            f /= sc[c]
    if len(x) != len(y):
        return "%d values, %d in other units" % (len(x), len(y))
    for k in x:
        a, b = x[k] * f, y[k]
        bad = False if a != a and b != b else (
            not same(a, b, 1e-6)) if q.out == "density" else \
            (not close(a, b, 1e-6))
        if bad:
            return "entry %s is %.9g, and %.9g in other units (expected " \
                "%.9g)" % (list(k), x[k], b, a)
    return None


def c15_task(rep, kind, pd, init, priors, k, of):
    w = MixWorld(p=pd, priors=priors)
    e = w.e
    steps = 2 if kind == "gibbs" else 1
    qs = [q for q in queries(w, kind) if q.data == "y" or not q.label.
          endswith("one new point")]
    for q in qs[k::of]:
        what = "%s (%s start, priors %s, %s dimension(s))" % (
            q.label, init, priors, pd)
        key = "%s.%s" % (BASE, q.method)

        def go():
            kw = {}
            if priors != "given":
                kw["nu_prior"] = Num(w.nu + w.p - 1)
            o = fitted(w, kind, steps=steps, init=init, **kw)
            return q.run(w, o)
        g = Group(rep, what)
        ps = paths_of(rep, w, what, go)
        for p in ps:
            if p.kind != "ok":
                continue
            n = 0
            for A, B, sc, sh in twins(p, 2, dict(
                    fixed_sizes(w), **({"n": 6} if priors != "given"
                                       else {}))):
                try:
                    vals = p.val.items if isinstance(p.val, Tup) else [p.val]
                    msg = None
                    for v in vals:
                        arr = p.arr(v)
                        msg = msg or c15_compare(
                            A, B, sc, q, w, entries(A, arr, 4000),
                            entries(B, arr, 4000))
                    bad_draw = None
                    if A.tainted or B.tainted:
                        g.why = "unknown values"
                        continue
                    if not msg and q is qs[k]:
                        bad_draw = draw_covariance(p, A, B, sc, sh)
                        A.tainted = B.tainted = False
                except ERRS as ex:
                    g.why = repr(ex)[:120]
                    continue
                if A.tainted or B.tainted:
                    g.why = "unknown values"
                    continue
                if msg or bad_draw:
                    rep.bad(key if msg else "%s.fit_%s" % (
                        BASE, "gibbs" if kind == "gibbs" else "variational"),
                        "%s: %s [%s; sizes %s, assignment %d]" % (
                            what, msg or bad_draw, p.label(), A.sizes,
                            A.seed))
                    g.bad += 1
                    break
                n += 1
            rep.count("identity_tests", n)
            g.n += n
            g.paths += bool(n)
        if ps:
            g.close()


def c15(rep):
    """Units and origin of the observations do not matter."""
    rep.rule = (
        "The formula extracted for every answer is evaluated twice, on the "
        "same numbers measured in two systems of units (each feature scaled "
        "and shifted, with given or estimated priors): densities differ by "
        "the product of the scale factors, everything else is equal, and so "
        "are the parameters of every draw up to the change of units.")
    rep.assumptions += ["the same starting assignment and the same "
                        "underlying random numbers"]
    tasks = []
    for pd in ("many", "one"):
        for priors in ("given", "estimated"):
            for init in ("random", "kmeans"):
                tasks += [(c15_task, ("var", pd, init, priors, k, 3))
                          for k in range(3)]
            tasks += [(c15_task, ("gibbs", pd, "random", priors, k, 6))
                      for k in range(6)]
    run_tasks(rep, tasks)


# ------------------------------------------- C17: every form, the same matrix
def rows(w, name, n):
    """A list of rows, each a list of numbers."""
    from .vg import ListV
    e = w.e
    i, c = fresh_index(), fresh_index()
    row = e.new("list", ListV([Many(c, w.p, Num(T.el(name, i, c)))]))
    return e.new("list", ListV([Many(i, n, row)]))


def numbers_list(w, name, n):
    from .vg import ListV
    i = fresh_index()
    return w.e.new("list", ListV([Many(i, n, Num(T.el(name, i, 0)))]))


def vector(w, name, n):
    i = fresh_index()
    return w.e.arr([Axis(n)], [i], T.el(name, i, 0), "f")


FORMS = {
    "a DataFrame": lambda w, s, n: vglib.Frame_("DataFrame",
                                                w.matrix(s, n)),
    "a list of lists": rows,
    "a list of numbers": numbers_list,
    "a one-dimensional array": vector,
    "a Series": lambda w, s, n: vglib.Frame_("Series", vector(w, s, n)),
}
ONE_COLUMN = ("a list of numbers", "a one-dimensional array", "a Series")


def c17_value(rep, form, kind, what_of):
    one = form in ONE_COLUMN
    w = MixWorld(p="one" if one else "many")
    e = w.e
    m = T.symbol("m", lo=2, integer=True)
    qs = [q for q in queries(w, kind) if q.cols is None and q.comp is None]
    for q in qs:
        if what_of == "fit":
            if q.data == "x":
                continue
        elif q.label.endswith("of the data") or q.data == "y" or \
                "one new" in q.label:
            continue
        what = "%s, %s given as %s" % (q.label, "data" if what_of == "fit"
                                       else "points", form)
        g = Group(rep, what)

        def ask(alt):
            w.stub.table.clear()     # states numbered in order of use
            y = FORMS[form](w, "y", w.n) if alt and what_of == "fit" else \
                w.y()
            o = fitted(w, kind, y=y)
            a = q.args()
            if alt and what_of == "query":
                a["y"] = FORMS[form](w, "x", m)
            return e.method(o, q.method, **a)

        ps = paths_of(rep, w, what, lambda: ask(False))
        alts = paths_of(rep, w, what, lambda: ask(True))
        bad = [p for p in alts if p.kind == "raise"]
        for p in bad:
            if not admissible(p, want=1, fixed=fixed_sizes(w)):
                continue
            rep.bad("%s.%s" % (BASE, q.method), "%s: raises %s at %s" % (
                what, p.val.name, p.val.where))
            g.bad += 1
        oks = [p for p in alts if p.kind == "ok"]
        n = 0
        for p in ps:
            if p.kind != "ok" or g.bad:
                continue
            for A in admissible(p, want=2, fixed=fixed_sizes(w)):
                for p2 in oks:
                    B = MA(A.seed, A.sizes, draws=p2.draws)
                    if not p2.admits(B):
                        continue
                    B.memo.clear()
                    B.tainted = False
                    try:
                        xs = p.val.items if isinstance(p.val, Tup) else [
                            p.val]
                        ys = p2.val.items if isinstance(p2.val, Tup) else [
                            p2.val]
                        msg = None
                        for u, v in zip(xs, ys):
                            u = entries(A, p.arr(u), 4000)
                            v = entries(B, p2.arr(v), 4000)
                            if A.tainted or B.tainted:
                                raise Give("unknown values")
                            if len(u) != len(v):
                                msg = "%d values instead of %d" % (
                                    len(v), len(u))
                                break
                            for k in u:
                                if k not in v or not close(u[k], v[k]):
                                    msg = "entry %s is %s, and %.9g from a " \
                                        "matrix" % (list(k), v.get(k), u[k])
                                    break
                    except ERRS as ex:
                        g.why = repr(ex)[:100]
                        continue
                    if msg:
                        rep.bad("%s.%s" % (BASE, q.method), "%s: %s "
                                "[sizes %s, assignment %d]" % (
                                    what, msg, A.sizes, A.seed))
                        g.bad += 1
                        break
                    n += 1
                if g.bad:
                    break
        g.n += n
        g.paths += bool(n)
        rep.count("identity_tests", n)
        if ps and alts:
            g.close()


def values_c17():
    return [(c17_value, (f, kind, of)) for f in FORMS
            for kind in ("var", "gibbs") for of in ("fit", "query")]
