"""Checks of the mixtures that hold for every weighting model."""
import math
from . import term as T
from .term import P, Give, ONE
from . import vglib
from .vg import (Num, Const, Ref, Tup, Stop, NONE, Bool, PyRaise, Many,
                 Arr, Axis, ListV)
from .witness import Undefined, close, INF
from .numscen import entries
from .mixscen import MixWorld, explore
from .mixnum import MA, Model, admissible, sizes
from .report import run_tasks

BASE = "BaseGaussianMixture"
ERRS = (Give, Undefined, OverflowError, ZeroDivisionError, IndexError,
        ValueError, KeyError, TypeError)


def paths_of(rep, w, what, go):
    rep.count("scenarios")
    try:
        ps = explore(w, go)
    except (Stop, Give, KeyError, RecursionError) as ex:
        rep.skip("%s: %s" % (what, str(ex)[:160] or type(ex).__name__))
        return []
    rep.count("paths", len(ps))
    return ps


def grid(A, arr):
    """A two-dimensional array as a list of rows."""
    d = entries(A, arr, limit=4000)
    r = [A.index(x.length(), {}) for x in arr.shape]
    if len(r) == 1:
        return [d[(i,)] for i in range(r[0])]
    return [[d[(i, j)] for j in range(r[1])] for i in range(r[0])]


class Group:
    """One question asked on every path: settled when some path answers."""

    def __init__(self, rep, what):
        self.rep, self.what = rep, what
        self.n = self.paths = self.bad = 0
        self.why = "no admissible assignment"

    def close(self):
        if self.bad:
            return
        if self.n:
            self.rep.ok("%s (%d paths, %d assignments)" % (
                self.what, self.paths, self.n))
        else:
            self.rep.skip("%s: not evaluated: %s" % (self.what, self.why))


def tested(rep, p, what, key, fun, want=6, fixed=None, group=None, **kw):
    """Random interpretation of a claim: fun(A) -> None or a message."""
    n = 0
    why = ""
    for A in admissible(p, want=want, fixed=fixed, **kw):
        try:
            msg = fun(A)
        except ERRS as ex:
            why = repr(ex)[:120]
            continue
        if A.tainted:
            why = "unknown values"
            continue
        if msg:
            rep.bad(key, "%s: %s [%s; sizes %s, assignment %d]" % (
                what, msg, p.label(), A.sizes, A.seed))
            if group is not None:
                group.bad += 1
            return False
        n += 1
    rep.count("identity_tests", n)
    if group is not None:
        group.n += n
        group.paths += bool(n)
        if why:
            group.why = why
        return bool(n)
    if n:
        rep.ok("%s (%d assignments)" % (what, n))
        return True
    rep.skip("%s: not evaluated %s" % (what, why))
    return None


# ------------------------------------------------------------ C21: the bound
def fields_of(e, o):
    return e.heap[o.i].fields


def set_int(e, o, name, v):
    if name not in fields_of(e, o):
        raise Stop("no attribute %s" % name)
    e.setfield(o, name, Num(v, "i"))


def arr_of(e, v):
    if not (isinstance(v, Ref) and v.kind == "arr"):
        raise Stop("not an array")
    return e.heap[v.i]


def c21_paths(rep, pd, sweeps):
    w = MixWorld(p=pd)
    e = w.e
    K = Num(w.K, "i")

    def go():
        o = w.build(total_iter=Num(1, "i"), burn_in=Num(0, "i"))
        e.method(o, "fit_variational", w.y(), n_groups=K,
                 init_method=Const("random"), tol=Num(w.tol))
        s = e.snapshot()
        states = []
        for k in range(1, sweeps + 2):
            # the bound after k more sweeps, one sweep per fit
            e.method(o, "fit_variational", w.y(), warm_start=Bool(T.TRUE),
                     tol=Num(w.tol))
            f = fields_of(e, o)
            val = None
            if w.cls().find("_calc_elbo")[0] is not None:
                val = e.method(o, "_calc_elbo")
            states.append((arr_of(e, f["var_d"]), w.stub.ver(), val,
                           theta_arrays(e, f.get("var_theta"))))
        e.restore(s)
        set_int(e, o, "total_iter", sweeps)
        e.method(o, "fit_variational", w.y(), warm_start=Bool(T.TRUE),
                 tol=Num(w.tol))
        f = fields_of(e, o)
        return states, arr_of(e, f["var_d"]), f["var_converged"]
    return w, paths_of(rep, w, "fit_variational, %d sweeps, %s dimension" % (
        sweeps, pd), go)


def elbo_at(A, w, st):
    d, ver, _, th = st
    M = model_of(A, w)
    r = grid(A, d)
    return M.elbo(r, theta_at(A, th, M) or M.theta(r), A.index(ver, {}))


def model_of(A, w):
    p = 1 if w.p.value() == 1 else A.sizes["p"]
    n = 1 if w.n.value() == 1 else A.sizes["n"]
    return Model(A, n, p, A.sizes["K"])


def theta_arrays(e, v):
    """The fitted atoms: (index, [mean, scale, precision, freedom])."""
    try:
        if isinstance(v, Ref) and v.kind == "list":
            items = e.heap[v.i].items
            if len(items) == 1 and isinstance(items[0], Many):
                m = items[0]
                it = m.tmpl
                it = it.items if isinstance(it, Tup) else e.heap[it.i].items
                if len(it) == 4:
                    return m.var, m.n, [vglib.toarr(e, x) for x in it]
    except (Stop, AttributeError, KeyError):
        pass
    return None


def theta_at(A, th, M):
    if th is None:
        return None
    var, n, arrs = th
    va = var.one_atom()
    out = []
    for j in range(A.index(n, {})):
        env = {va: j}
        m, beta, W, nu = arrs
        mv = [A.poly(m.body, {va: j, m.vars[0].one_atom(): c})
              for c in range(M.p)]
        Wv = [[A.poly(W.body, {va: j, W.vars[0].one_atom(): a,
                               W.vars[1].one_atom(): b})
               for b in range(M.p)] for a in range(M.p)]
        out.append((mv, A.poly(beta.body, env), Wv, A.poly(nu.body, env)))
    return out


def c21_task(rep, pd, sweeps):
    w, ps = c21_paths(rep, pd, sweeps)
    what0 = "fit_variational with %d sweeps, %s dimension" % (sweeps, pd)
    key = "%s.fit_variational" % BASE
    if any(p.kind == "raise" for p in ps):
        rep.skip("%s: raises" % what0)
    ps = [p for p in ps if p.kind == "ok"]
    # the bound itself
    for p in ps[:1]:
        for k, st in enumerate(p.val[0]):
            if st[2] is None:
                continue

            def bound(A, st=st):
                got = A.poly(p.arr(st[2]).body, {})
                want = elbo_at(A, w, st)
                if not close(got, want, 1e-7):
                    return "the bound is %.9g, the sum of its terms %.9g" % (
                        got, want)
            tested(rep, p, "evidence lower bound after sweep %d, %s "
                   "dimension" % (k + 1, pd), "%s._calc_elbo" % BASE, bound)
    # stopping and the flag
    for seed in range(12):
        for which in range(sweeps + 1):
            rep.count("stopping_questions")
            try:
                c21_stop(rep, w, ps, sweeps, seed, which, what0, key)
            except ERRS as ex:
                rep.skip("%s: %s" % (what0, repr(ex)[:100]))


def c21_stop(rep, w, ps, sweeps, seed, which, what, key):
    """Tolerance just above or below the change made by sweep `which`."""
    for side in (0.999, 1.001):
        # every path starts with the same sweeps: any one gives the bounds
        for p in ps:
            A = MA(seed, sizes(seed), draws=p.draws)
            es = [elbo_at(A, w, st) for st in p.val[0]]
            ds = [INF] + [abs(b - a) for a, b in zip(es, es[1:])]
            tol = 1e9 if which == 0 else ds[min(which, len(ds) - 1)] * side
            if tol < 1e-7:
                return          # rounding decides
            if any(abs(x - tol) < 1e-6 * max(1, max(map(abs, es)))
                   and abs(x - tol) < 2e-4 * tol for x in ds):
                return
            B = MA(seed, sizes(seed), draws=p.draws,
                   over={"tol": lambda A, i: tol})
            if not p.admits(B):
                continue
            k = 0
            while k < sweeps:
                k += 1
                if ds[k - 1] <= tol:
                    break
            conv = ds[k - 1] <= tol
            got = p.val[2]
            g = got.v if isinstance(got, Const) else B.cond(got.c, {}) \
                if isinstance(got, Bool) else None
            if g is None:
                raise Give("flag is not a truth value")
            want = grid(B, p.val[0][k - 1][0])
            have = grid(B, p.val[1])
            if B.tainted:
                return
            if not all(close(a, b, 1e-6) for r, s in zip(want, have)
                       for a, b in zip(r, s)):
                rep.bad(key, "%s: the bound changes by %s and tol is %.6g, "
                        "but the fit does not end after sweep %d [%s, "
                        "assignment %d]" % (what, ds[1:], tol, k, B.sizes,
                                            seed))
                return
            if bool(g) != conv:
                rep.bad(key, "%s: the last change is %.6g, tol is %.6g, "
                        "var_converged is %s [%s, assignment %d]" % (
                            what, ds[k - 1], tol, g, B.sizes, seed))
                return
            rep.ok("%s, tol %.3g: stops after sweep %d, converged %s" % (
                what, tol, k, conv))
            break


def c21(rep):
    """The evidence lower bound and convergence."""
    rep.rule = (
        "The formulas fit_variational computes for the bound, the stopping "
        "test and var_converged are extracted for symbolic data, priors, "
        "components and weighting model, and identified by random "
        "interpretation with the sum of the seven expected log-densities "
        "(Bishop 2006, 10.70-10.77), each once.")
    rep.assumptions += [
        "library functions follow their documentation",
        "the weighting model enters through its public methods"]
    tasks = [(c21_task, (pd, s)) for pd in ("many", "one")
             for s in (1, 2, 3)]
    run_tasks(rep, tasks)


# ---------------------------------------------------- C27: coordinate ascent
def steady(A, idx):
    """Expected log-weights that do not depend on the fit."""
    return -0.05 - 3 * T_h01(A.seed, "elogw", idx[1])


def T_h01(*k):
    from .witness import h01
    return h01(*k)


def c27_sweeps(rep, pd, n):
    """States after 1 .. n further sweeps, with the version before each."""
    w = MixWorld(p=pd)
    e = w.e

    def go():
        o = w.build(total_iter=Num(1, "i"), burn_in=Num(0, "i"))
        out = []
        for k in range(n):
            e.method(o, "fit_variational", w.y(), n_groups=Num(w.K, "i"),
                     init_method=Const("random"), tol=Num(w.tol),
                     warm_start=Bool(T.TRUE if k else T.FALSE))
            f = fields_of(e, o)
            out.append((arr_of(e, f["var_d"]), w.stub.ver(), None,
                        theta_arrays(e, f.get("var_theta")),
                        w.stub.get("d")))
        return out
    return w, paths_of(rep, w, "%d sweeps, %s dimension" % (n, pd), go)


def same_grid(a, b, tol=1e-6):
    return len(a) == len(b) and all(
        close(x, y, tol) for r, s in zip(a, b) for x, y in zip(r, s))


def c27_task(rep, pd):
    w, ps = c27_sweeps(rep, pd, 9)
    key = "%s.fit_variational" % BASE
    what = "sweep, %s dimension" % pd
    for p in ps:
        if p.kind != "ok":
            continue
        st = p.val
        if any(s[3] is None for s in st):
            rep.skip("%s: var_theta is not a list of parameters" % what)
            continue

        def exact(A):
            """Each block is set to the maximiser given the others."""
            M = model_of(A, w)
            for a, b in zip(st[:4], st[1:4]):
                da, db = grid(A, a[0]), grid(A, b[0])
                ta, tb = theta_at(A, a[3], M), theta_at(A, b[3], M)
                want = M.responsibilities(ta, A.index(a[1], {}), M.y)
                if not same_grid(db, want):
                    return "probabilities"
                for x, y in zip(tb, M.theta(db)):
                    if not (same_grid([x[0]], [y[0]]) and close(x[1], y[1])
                            and same_grid(x[2], y[2]) and
                            close(x[3], y[3])):
                        return "atoms"
                d = grid(A, p.snap.heap[b[4].i]) if isinstance(
                    b[4], Ref) and b[4].i in p.snap.heap else None
                if d is not None and not same_grid(d, db):
                    return "weights"
            return None
        bad = None
        n = 0
        for A in admissible(p, want=6):
            try:
                m = exact(A)
            except ERRS:
                continue
            if A.tainted:
                continue
            n += 1
            bad = bad or m
        if n and not bad:
            rep.count("identity_tests", n)
            rep.ok("%s: every block is the maximiser of the bound given the "
                   "others (%d assignments)" % (what, n), 3)
            continue
        if not n:
            rep.skip("%s: not evaluated" % what)
            continue
        # not the textbook update: does the bound ever go down?
        found = False
        for seed in range(25):
            A = MA(seed, sizes(seed, n=5), draws=p.draws,
                   over={"elogw": steady})
            try:
                if not p.admits(A):
                    continue
                es = [elbo_at(A, w, s[:4]) for s in st]
            except ERRS:
                continue
            if A.tainted or any(x != x for x in es):
                continue
            for k, (x, y) in enumerate(zip(es, es[1:])):
                if y < x - 1e-6 * max(1, abs(x)):
                    rep.bad(key, "%s: the %s are not the maximiser of the "
                            "bound given the rest, and sweep %d lowers it "
                            "from %.7g to %.7g [sizes %s, assignment %d]" % (
                                what, bad, k + 2, x, y, A.sizes, seed))
                    found = True
                    break
            if found:
                break
        if not found:
            rep.skip("%s: the %s are not the textbook maximiser; no sweep "
                     "lowering the bound was found" % (what, bad))


def c27_weights(rep, name, var):
    """fit_variational of a weighting model maximises its share of the
    bound: fitting any other probabilities gives no more."""
    from .numscen import World
    from .checks_vg import scalar, label
    w = World()
    e = w.e
    what = "%s" % label(name, var)
    key = "%s.fit_variational" % name

    def share(o, q):
        r = e.method(o, "variational_mean_log_p_d__w", variational_d=q)
        a = e.method(o, "variational_mean_log_p_w")
        b = e.method(o, "variational_mean_log_q_w")
        return Tup([r, a, b])

    def go():
        o = w.build(name, var)
        e.method(o, "fit_variational", w.q())
        x = share(o, w.q())
        o2 = w.build(name, var)
        e.method(o2, "fit_variational", w.q("q2"))
        return Tup([x, share(o2, w.q())])
    for p in paths_of(rep, w, what, go):
        if p.kind != "ok":
            rep.skip("%s: raises %s" % (what, p.val))
            continue

        def g(A, t):
            x = [A.poly(scalar(p, v), {}) for v in t.items]
            return x[0] + x[1] - x[2]
        n = 0
        from .numscen import assignments
        for eps in (None, 0.3, 0.03):
            T.SYM["q2"]["gen"] = near(eps)
            for A in assignments(p, tries=40, want=8):
                try:
                    x, y = (g(A, t) for t in p.val.items)
                except ERRS:
                    continue
                if A.tainted or x != x or y != y or abs(x) == INF:
                    continue
                n += 1
                if y > x + 1e-7 * max(1, abs(x)):
                    rep.bad(key, "%s: the weights fitted to the assignment "
                            "probabilities give the bound %.8g, those fitted "
                            "to others %.8g [sizes %s, assignment %d]" % (
                                what, x, y, A.sizes, A.seed))
                    return
        rep.count("identity_tests", n)
        if n:
            rep.ok("%s: fitted weights maximise their share of the bound "
                   "(%d assignments)" % (what, n))
        else:
            rep.skip("%s: not evaluated" % what)


def near(eps):
    from .numscen import q_entry

    def f(A, idx):
        b = q_entry(A, idx, "q2")
        if eps is None:
            return b
        return (1 - eps) * q_entry(A, idx) + eps * b
    return f


def c27(rep):
    """The bound never decreases: coordinate ascent."""
    from .numscen import MODELS, VARIATIONAL
    rep.rule = (
        "Coordinate ascent: the extracted update formulas of a sweep are "
        "identified with the exact maximiser of the bound (of C21) in the "
        "assignment probabilities, the atoms and the weights given the "
        "others; a block maximised exactly cannot lower the bound.  For each "
        "weighting model, the formulas of its share of the bound are "
        "compared between the weights fitted to the probabilities and those "
        "fitted to any others.")
    rep.assumptions += [
        "library functions follow their documentation",
        "up to rounding and the floor of 2.2e-16 put under each "
        "assignment probability"]
    tasks = [(c27_task, (pd,)) for pd in ("many", "one")]
    tasks += [(c27_weights, (n, v)) for n in VARIATIONAL
              for v in MODELS[n]]
    run_tasks(rep, tasks)
