"""Checks of the Gibbs sampler: schedule, records, blocks of a step."""
import math
from . import term as T, vglib
from .term import P, Give, ONE
from .vg import (Num, Const, Ref, Tup, Stop, NONE, Bool, PyRaise, Axis, Many)
from .witness import Undefined, close, INF, h01
from .mixscen import MixWorld, explore
from .mixnum import MA, sizes, log_normal, inverse
from .checks_mix import (paths_of, grid, fields_of, arr_of, BASE, ERRS)
from .checks_query import fitted, Query
from .checks_dens import Rec, flat, dims_of, fixed_sizes, e_item
from .report import run_tasks


# --------------------------------------------------- one path per assignment
def follow(w, go, seed, fixed=None, over=None):
    """The path an assignment takes, and the assignment; or None."""
    e = w.e
    sz = sizes(seed, **(fixed or {}))
    A = MA(seed, sz, over=over)
    n0 = len(e.draws)

    def guide(c):
        ds = e.draws[n0:]
        A.draws = {d.id: d for d in ds}
        A.alias = {d.id: ("#", k) for k, d in enumerate(ds)}
        A.work = 8000000
        try:
            return A.cond(c, {})
        except (Give, Undefined, KeyError, IndexError):
            return True
    e.guide = guide
    try:
        ps = explore(w, go)
    finally:
        e.guide = None
    p = ps[0]
    A = MA(seed, sz, over=over, draws=p.draws)
    if not p.admits(A):
        return None
    A.memo.clear()
    A.tainted = False
    return p, A


class Asked:
    """A question put to several assignments."""

    def __init__(self, rep, what, key):
        self.rep, self.what, self.key = rep, what, key
        self.n = self.bad = 0
        self.why = "no admissible assignment"
        rep.count("scenarios")

    def put(self, A, fun, label=""):
        """fun() -> None or a message."""
        try:
            msg = fun()
        except ERRS as ex:
            self.why = repr(ex)[:120]
            return
        if A.tainted:
            self.why = "unknown values"
            return
        if msg:
            if not self.bad:
                self.rep.bad(self.key, "%s: %s [sizes %s, assignment %d]" % (
                    self.what, msg, A.sizes, A.seed))
            self.bad += 1
            return
        self.n += 1
        self.rep.count("identity_tests")

    def close(self):
        if self.bad:
            return
        if self.n:
            self.rep.ok("%s (%d assignments)" % (self.what, self.n))
        else:
            self.rep.skip("%s: not evaluated: %s" % (self.what, self.why))


def run(rep, ask, w, go, seed, fixed=None, over=None):
    """follow(), with what it cannot do noted in ask."""
    try:
        r = follow(w, go, seed, fixed, over)
    except (Stop, Give, KeyError, RecursionError) as ex:
        ask.why = str(ex)[:140] or type(ex).__name__
        return None
    if r is None:
        return None
    rep.count("paths")
    if r[0].kind != "ok":
        ask.why = "raises %s" % (r[0].val,)
        return None
    return r


# ------------------------------------------------------------------- records
class Draw(Rec):
    def __init__(self, e, r):
        Rec.__init__(self, e, r)
        self.u = None
        try:
            self.u = e.heap[e_item(e, r, "u").i]
        except (Stop, PyRaise, KeyError, AttributeError):
            pass


def items_of(e, v):
    """Entries of a list of known length."""
    if not (isinstance(v, Ref) and v.kind == "list"):
        raise Stop("not a list")
    it = e.heap[v.i].items
    if any(isinstance(x, Many) for x in it):
        raise Stop("list of unknown length")
    return it


def records_of(e, o):
    return [Draw(e, r) for r in items_of(e, e.method(o, "get_sim_params"))]


def content(A, rec, dim):
    """Everything a record says, as numbers."""
    out = list(rec.weights(A))
    n = len(out)
    for m, S in rec.atoms(A, dim):
        out += m + [v for r in S for v in r]
    out += flat(A, rec.d)
    if rec.u is not None:
        out += flat(A, rec.u)
    return [n] + out


def alike(a, b):
    return len(a) == len(b) and all(close(x, y, 1e-8) for x, y in zip(a, b))


def steps_of(w, total, burn, every, warm=()):
    """go(): records, map record, counts after a fit and warm starts."""
    e = w.e

    def go():
        o = w.build(total_iter=Num(total, "i"), burn_in=Num(burn, "i"),
                    subsample_steps=Num(every, "i"))
        e.method(o, "fit_gibbs", w.y(), init_method=Const("random"))
        for t in warm:
            e.method(o, "fit_gibbs", w.y(), warm_start=Bool(T.TRUE),
                     init_method=Const("random"))
        f = fields_of(e, o)
        best = Draw(e, f["map_sim_params"])
        ll = f.get("map_log_likelihood")
        return dict(recs=records_of(e, o), best=best, ll=ll,
                    groups=items_of(e, e.method(o, "get_n_groups")),
                    atoms=items_of(e, e.method(o, "get_n_theta")))
    return go


# ------------------------------------------------- C08: schedule and lengths
SCHEDULES = ((1, 0, 1), (2, 1, 1), (3, 0, 2), (3, 1, 2), (4, 0, 2),
             (4, 1, 3), (4, 3, 1), (3, 0, 5), (5, 2, 2), (5, 1, 1),
             (6, 1, 3), (5, 4, 3))


def c08_task(rep, pd, total, burn, every, warm, seeds):
    w = MixWorld(p=pd)
    fx = fixed_sizes(w)
    what = "record of a fit with total_iter=%d, burn_in=%d, " \
        "subsample_steps=%d%s" % (total, burn, every, "" if not warm else
                                  " and %d warm start(s)" % warm)
    key = "%s.fit_gibbs" % BASE
    ask = Asked(rep, what, key)
    size = Asked(rep, what + ": lengths", key)
    one = -(-(total - burn) // every)
    want = one * (1 + warm)
    for seed in seeds:
        r = run(rep, ask, w, steps_of(w, total, burn, every, [1] * warm),
                seed, fx)
        if r is None:
            size.why = ask.why
            continue
        p, A = r
        v = p.val

        def lengths():
            n = len(v["recs"])
            if n != want:
                return "%d draws are recorded, %d are due" % (n, want)
            for k, name in (("groups", "group"), ("atoms", "atom")):
                if len(v[k]) != n:
                    return "%d %s counts for %d recorded draws" % (
                        len(v[k]), name, n)
            for i, x in enumerate(v["groups"]):
                got = A.poly(x.p, {})
                d = len(set(flat(A, v["recs"][i].d)))
                if got != d:
                    return "draw %d has %d groups, %s are counted" % (
                        i, d, got)
        size.put(A, lengths)
        # the draws of the same chain recorded after every step
        base = run(rep, ask, w, steps_of(w, total, 0, 1, [1] * warm), seed,
                   fx)
        if base is None:
            continue
        q, B = base
        n, dim = dims_of(A, w)

        def content_():
            if len(p.draws) != len(q.draws):
                raise Give("another number of draws")
            if len(v["recs"]) != want:
                raise Give("number of records")
            chain = q.val["recs"]
            if len(chain) != total * (1 + warm):
                raise Give("number of records")
            for i, rec in enumerate(v["recs"]):
                at = (i // one) * total + burn + (i % one) * every
                if not alike(content(A, rec, dim),
                             content(B, chain[at], dim)):
                    if B.tainted:
                        A.tainted = True
                    return "recorded draw %d is not the state after step " \
                        "%d" % (i, at + 1)
        ask.put(A, content_)
    size.close()
    ask.close()


def c08(rep):
    """Burn-in, thinning and the length of the record."""
    rep.rule = (
        "For each schedule the records a fit leaves are extracted as "
        "formulas of the draws of the chain; record k is identified with "
        "the state after step burn_in + k * subsample_steps + 1 of the "
        "chain that records every step, and the lists of draws, group "
        "counts and atom counts have ceil((total_iter - burn_in) / "
        "subsample_steps) entries per fit.")
    rep.assumptions += ["library functions follow their documentation",
                        "the weighting model enters through its public "
                        "methods"]
    tasks = []
    seeds = range(6) if rep.tier == "quick" else range(20)
    for t, b, s in SCHEDULES:
        tasks.append((c08_task, ("many", t, b, s, 0, seeds)))
    for t, b, s in ((2, 0, 1), (2, 1, 1), (3, 1, 2), (3, 0, 2)):
        tasks.append((c08_task, ("many", t, b, s, 1, seeds)))
    tasks.append((c08_task, ("many", 2, 1, 1, 2, seeds)))
    tasks.append((c08_task, ("one", 3, 1, 2, 0, seeds)))
    run_tasks(rep, tasks)


# ------------------------------------------------- C09: the best state so far
def log_like(A, rec, dim, ys):
    """Observations given atoms and assignments, assignments given weights."""
    ws, at = rec.weights(A), rec.atoms(A, dim)
    r = 0.0
    for y, j in zip(ys, labels(A, rec.d)):
        r += log_normal(y, *at[j])
        r += math.log(ws[j]) if ws[j] > 0 else -INF
    return r


def labels(A, arr):
    out = []
    for v in flat(A, arr):
        if v != int(v):
            raise Give("label")
        out.append(int(v))
    return out


def observations(A, w):
    n, dim = dims_of(A, w)
    return [[A.leaf("y", (i, c)) for c in range(dim)] for i in range(n)]


def c09_task(rep, pd, nd, total, burn, every, warm, seeds):
    w = MixWorld(p=pd, n=nd)
    fx = fixed_sizes(w)
    what = "MAP record of a fit with total_iter=%d, burn_in=%d, " \
        "subsample_steps=%d%s (%s observation(s) of %s dimension(s))" % (
            total, burn, every, "" if not warm else
            " and %d warm start(s)" % warm, nd, pd)
    key = "%s.fit_gibbs" % BASE
    ask = Asked(rep, what, key)
    for seed in seeds:
        r = run(rep, ask, w, steps_of(w, total, burn, every, [1] * warm),
                seed, fx)
        base = run(rep, ask, w, steps_of(w, total, 0, 1, [1] * warm), seed,
                   fx)
        if r is None or base is None:
            continue
        p, A = r
        q, B = base
        n, dim = dims_of(A, w)

        def claim():
            if len(p.draws) != len(q.draws):
                raise Give("another number of draws")
            ys = observations(A, w)
            best = log_like(A, p.val["best"], dim, ys)
            if best != best:
                raise Give("likelihood")
            lls = [log_like(B, c, dim, ys) for c in q.val["recs"]]
            if B.tainted:
                A.tainted = True
            for k, v in enumerate(lls):
                if v > best + 1e-6 * (1 + abs(v)):
                    return "the record has log-likelihood %.9g, the state " \
                        "after step %d has %.9g" % (best, k + 1, v)
            top = max(lls)
            if close(top, best, 1e-9) and top > -INF:
                k = lls.index(top)
                if not alike(content(A, p.val["best"], dim),
                             content(B, q.val["recs"][k], dim)):
                    return "the record has the log-likelihood of the state " \
                        "after step %d but is another state" % (k + 1)
            if isinstance(p.val["ll"], Num):
                ll = A.poly(p.val["ll"].p, {})
                if not close(ll, best, 1e-7):
                    return "the log-likelihood kept with the record is " \
                        "%.9g, that of the record is %.9g" % (ll, best)
        ask.put(A, claim)
    ask.close()


def c09(rep):
    """The MAP record is the best state visited."""
    rep.rule = (
        "The recorded MAP draw, the log-likelihood kept with it and every "
        "state of the chain are extracted as formulas of the draws; for "
        "every schedule and warm start the log-likelihood of the MAP draw "
        "is that kept with it, no state of the chain has a higher one, and "
        "the MAP draw is the state that attains it.")
    rep.assumptions += ["library functions follow their documentation",
                        "the weighting model enters through its public "
                        "methods"]
    tasks = []
    seeds = range(12) if rep.tier == "quick" else range(40)
    for t, b, s, k in ((1, 0, 1, 0), (2, 0, 1, 0), (3, 0, 1, 0),
                       (4, 0, 1, 0), (3, 2, 1, 0), (4, 3, 1, 0),
                       (4, 0, 3, 0), (4, 1, 2, 0), (2, 0, 1, 1),
                       (1, 0, 1, 2), (2, 1, 1, 1)):
        tasks.append((c09_task, ("many", "many", t, b, s, k, seeds)))
    tasks.append((c09_task, ("one", "many", 3, 1, 1, 0, seeds)))
    tasks.append((c09_task, ("many", "one", 3, 1, 1, 0, seeds)))
    run_tasks(rep, tasks)


# --------------------------------------------------- C22: the order of a step
def weights_version(rec):
    """Which drawing of the weights a record holds."""
    vs = {a.args[1][0] for a in T.all_atoms(rec.w.body)
          if a.op == "el" and a.args[0] == "wt"}
    if len(vs) != 1:
        raise Give("weights of several drawings")
    v = vs.pop().value()
    if v is None:
        raise Give("drawing of the weights")
    return int(v)


def value_of(A, c, name):
    if name in c.arrays:
        return flat(A, c.arrays[name])
    if name in c.params:
        return A.poly(c.params[name], {})
    raise Give("argument %s" % name)


def c22_task(rep, pd, nd, steps, warm, seeds):
    w = MixWorld(p=pd, n=nd)
    fx = fixed_sizes(w)
    size = "%s observation(s) of %s dimension(s)%s" % (
        nd, pd, ", warm start" if warm else "")
    key = "%s.fit_gibbs" % BASE
    names = ("weights are redrawn after the assignments", "slice levels",
             "left-over mass", "labels", "atoms")
    asks = {k: Asked(rep, "%s in each step (%s)" % (k, size), key)
            for k in names}
    for seed in seeds:
        r = run(rep, asks["labels"], w,
                steps_of(w, steps, 0, 1, [1] * warm), seed, fx)
        if r is None:
            for k in names:
                asks[k].why = asks["labels"].why
            continue
        p, A = r
        n, dim = dims_of(A, w)
        calls = [m for m in p.snap.marks if getattr(m, "dist", "") == "call"]
        recs = p.val["recs"]
        for k in range(len(recs) - 1):
            c22_step(asks, A, dim, calls, recs[k], recs[k + 1], k)
    for k in names:
        asks[k].close()


def c22_step(asks, A, dim, calls, a, b, k):
    st = "between recorded draws %d and %d" % (k, k + 1)

    def drawing():
        """Index of the call that drew the weights of b."""
        v = weights_version(b)
        at = [i for i, c in enumerate(calls)
              if c.name == "random" and c.ver.value() == v - 1]
        if len(at) != 1:
            raise Give("drawing of the weights")
        return at[0]

    def weights():
        if weights_version(b) == weights_version(a):
            return "the weights are not redrawn " + st
        i = drawing()
        fits = [c for c in calls[:i] if c.name == "fit"]
        if not fits:
            return "the weights are drawn without a fit " + st
        if flat(A, fits[-1].arrays["d"]) != flat(A, a.d):
            return "the weights are drawn after a fit to other " \
                "assignments than the current ones " + st

    def slices():
        if b.u is None:
            raise Give("no slice levels")
        u, ws = flat(A, b.u), b.weights(A)
        d = labels(A, a.d)
        if len(u) != len(d):
            return "%d slice levels for %d observations" % (len(u), len(d))
        for i, (x, j) in enumerate(zip(u, d)):
            if not (0 < x <= ws[j] + 1e-9):
                return "slice level %d is %.6g, the weight of its " \
                    "component is %.6g %s" % (i, x, ws[j], st)
        if u == flat(A, a.u):
            return "the slice levels are not redrawn " + st

    def mass():
        if b.u is None:
            raise Give("no slice levels")
        i = drawing()
        need = 1 - min(flat(A, b.u))
        nxt = next((j for j in range(i + 1, len(calls))
                    if calls[j].name in ("random", "fit")), len(calls))
        after = calls[i + 1:nxt]
        for c in after:
            if c.name == "tail" and value_of(A, c, "x") >= need - 1e-9:
                return None
        if any(c.name not in ("tail", "get_weights", "get_size",
                              "assignation_log_likelihood")
               for c in after):
            raise Give("extension by other means")
        if sum(b.weights(A)) >= need - 1e-9:
            return None
        return "the weights are not extended until the left-over mass is " \
            "below every slice level " + st

    def moved():
        u, ws = flat(A, b.u), b.weights(A)
        for i, j in enumerate(labels(A, b.d)):
            if not 0 <= j < len(ws):
                return "observation %d is in component %d of %d %s" % (
                    i, j, len(ws), st)
            if not ws[j] > u[i] - 1e-12:
                return "observation %d is in a component of weight %.6g, " \
                    "its slice level is %.6g %s" % (i, ws[j], u[i], st)

    def atoms():
        was, now = a.atoms(A, dim), b.atoms(A, dim)
        for j in sorted(set(labels(A, a.d))):
            if j < len(was) and j < len(now) and was[j] == now[j]:
                return "the atom of occupied group %d is not redrawn %s" % (
                    j, st)

    for name, f in zip(("weights are redrawn after the assignments",
                        "slice levels", "left-over mass", "labels",
                        "atoms"), (weights, slices, mass, moved, atoms)):
        asks[name].put(A, f)


def c22(rep):
    """Each step refreshes every block in a valid order."""
    rep.rule = (
        "Between consecutive recorded states, extracted as formulas of the "
        "draws: the weights come from a drawing made after a fit to the "
        "previous assignments; every slice level lies below the new weight "
        "of its observation's previous component; the weights are extended "
        "with a mass of at least one minus the smallest of these slice "
        "levels; every new label has weight above its slice level; the "
        "atoms of the occupied groups are new.")
    rep.assumptions += ["library functions follow their documentation",
                        "the weighting model enters through its public "
                        "methods"]
    seeds = range(8) if rep.tier == "quick" else range(40)
    tasks = []
    for pd, nd in (("many", "many"), ("one", "many"), ("many", "one")):
        tasks.append((c22_task, (pd, nd, 3, 0, seeds)))
        tasks.append((c22_task, (pd, nd, 1, 1, seeds)))
        tasks.append((c22_task, (pd, nd, 5, 0, seeds)))
    run_tasks(rep, tasks)


# ------------------------------------- C26: blocks from their conditionals
def posterior(A, w, members, dim):
    """Normal-inverse-Wishart parameters given the observations of a group."""
    ys = [[A.leaf("y", (i, c)) for c in range(dim)] for i in members]
    mu0 = [A.leaf("mu0", (c,)) for c in range(dim)]
    psi = [[A.leaf("psi0", (r, c)) for c in range(dim)] for r in range(dim)]
    lam, nu = A.leaf("lam", ()), A.leaf("nu0", ()) + dim - 1
    m = len(ys)
    if not m:
        return mu0, lam, psi, nu
    mean = [sum(y[c] for y in ys) / m for c in range(dim)]
    out = [[psi[r][c] + sum((y[r] - mean[r]) * (y[c] - mean[c]) for y in ys) +
            lam * m / (lam + m) * (mean[r] - mu0[r]) * (mean[c] - mu0[c])
            for c in range(dim)] for r in range(dim)]
    return ([(lam * a + m * b) / (lam + m) for a, b in zip(mu0, mean)],
            lam + m, out, nu + m)


def used(A, f):
    """f(), and the draws it read."""
    A.touched, A.once = {}, True
    memo, A.memo = A.memo, {}
    try:
        v = f()
        return v, list(A.touched)
    finally:
        A.touched, A.once = None, False
        A.memo = memo


def array_at(A, a, env, dim):
    if a.ndim == 1:
        v = a.vars[0].one_atom()
        return [A.poly(a.body, dict(env, **{}) | {v: i}) for i in range(dim)]
    if a.ndim == 2:
        v, u = (x.one_atom() for x in a.vars)
        return [[A.poly(a.body, env | {v: i, u: j}) for j in range(dim)]
                for i in range(dim)]
    raise Give("shape of a parameter")


def differ(a, b):
    fa = [x for r in a for x in r] if isinstance(a[0], list) else a
    fb = [x for r in b for x in r] if isinstance(b[0], list) else b
    return any(not close(x, y, 1e-7) for x, y in zip(fa, fb))


def atom_at(A, rec, j, dim):
    v = rec.j.one_atom()
    m = [A.poly(rec.mu.body, {v: j, rec.mu.vars[0].one_atom(): c})
         for c in range(dim)]
    S = [[A.poly(rec.cov.body, {v: j, rec.cov.vars[0].one_atom(): r,
                                rec.cov.vars[1].one_atom(): c})
          for c in range(dim)] for r in range(dim)]
    return m, S


def one_draw(A, p, value, cell, dist):
    """The draw of this kind a value is an entry of, and its indices."""
    a = value()
    v, ts = used(A, lambda: value())
    out = {}
    for did, idx in ts:
        d = A.draws.get(did)
        if d is not None and d.dist == dist:
            k = len(d.shape)
            out[did, idx[:len(idx) - k]] = d
    if v != a:
        raise Give("tracing")
    return out


def entry_of(A, did, outer, cell):
    """The number an entry of a draw has."""
    d = A.draws[did]
    q = T.Poly.atom(T.Atom("draw", did, tuple(P(i) for i in outer + cell)))
    return A.poly(q, {})


def c26_atom(A, p, w, rec, j, members, dim, what):
    """The atom of a component comes from its conditional."""
    mu, S = atom_at(A, rec, j, dim)
    v = rec.j.one_atom()
    full = (lambda: atom_at(A, rec, j, dim))
    _, ts = used(A, full)
    mats, vecs = [], []
    for did, idx in ts:
        d = A.draws.get(did)
        if d is None:
            continue
        k = len(d.shape)
        outer = idx[:len(idx) - k]
        key = (did, outer)
        if d.dist == "invwishart" and key not in mats:
            cells = [(r, c) for r in range(dim) for c in range(dim)] if k \
                else [()]
            vals = [entry_of(A, did, outer, c) for c in cells]
            if not differ(vals, [x for r in S for x in r]):
                mats.append(key)
        if d.dist == "mvn" and key not in vecs:
            cells = [(c,) for c in range(dim)] if k else [()]
            vals = [entry_of(A, did, outer, c) for c in cells]
            if not differ(vals, mu):
                vecs.append(key)
    if len(mats) != 1 or len(vecs) != 1:
        raise Give("the atom is no single draw")
    m, lam, psi, nu = posterior(A, w, members, dim)
    did, outer = mats[0]
    d = A.draws[did]
    env = dict(zip([x[0].one_atom() for x in d.loops], outer))
    df = A.poly(d.params["df"], env)
    if not close(df, nu, 1e-9):
        return "%s: the covariance is drawn with %.6g degrees of freedom, " \
            "its conditional has %.6g" % (what, df, nu)
    sc = d.arrays["scale"]
    got = array_at(A, sc, env, dim) if sc.ndim else [[A.poly(sc.body, env)]]
    if differ(got, psi):
        return "%s: the covariance is drawn with scale %s, its conditional " \
            "has %s" % (what, short(got), short(psi))
    did, outer = vecs[0]
    d = A.draws[did]
    env = dict(zip([x[0].one_atom() for x in d.loops], outer))
    mean, cov = d.arrays["mean"], d.arrays["cov"]
    got = array_at(A, mean, env, dim) if mean.ndim else \
        [A.poly(mean.body, env)]
    if differ(got, m):
        return "%s: the mean is drawn around %s, its conditional has %s" % (
            what, short(got), short(m))
    got = array_at(A, cov, env, dim) if cov.ndim else \
        [[A.poly(cov.body, env)]]
    want = [[x / lam for x in r] for r in S]
    if differ(got, want):
        return "%s: the mean is drawn with covariance %s, its conditional " \
            "has %s" % (what, short(got), short(want))


def short(v):
    if isinstance(v, list):
        return "[%s]" % ", ".join(short(x) for x in v)
    return "%.5g" % v


def reads(A, polys):
    """Draws a formula can read (an over-approximation)."""
    out, todo, names = set(), list(polys), set()
    while todo:
        q = todo.pop()
        for a in T.all_atoms(q):
            if a.op == "el" and a.args[0] in T.DEFS:
                if a.args[0] not in names:
                    names.add(a.args[0])
                    todo.append(T.DEFS[a.args[0]][1])
            elif a.op in ("draw", "opq") and a.args[0] not in out:
                out.add(a.args[0])
                d = A.draws.get(a.args[0])
                if d is not None and T.DRAWS[a.args[0]].get("gen"):
                    todo += [x for x in d.params.values()
                             if isinstance(x, T.Poly)]
                    todo += [x.body for x in d.arrays.values()]
    return out


def replicas(A, fixed, f, n):
    """Values of f when only the draws that `fixed` does not read change."""
    _, keep = used(A, fixed)
    keep = {d for d, _ in keep}
    _, ts = used(A, f)
    free = {d for d, _ in ts if d not in keep}
    if not free:
        raise Give("no draw is left free")
    A.memo = {}
    fixed()
    f()
    base, known = {}, {}
    for k, v in A.memo.items():
        if isinstance(k, tuple) and k and k[0] == "matrix":
            q = k[3]
        elif isinstance(k, tuple) and k and isinstance(k[0], T.Atom):
            q = T.Poly.atom(k[0])
        elif isinstance(k, T.Atom):
            q = T.Poly.atom(k)
        elif isinstance(k, tuple) and k and k[0] in T.DEFS:
            q = T.DEFS[k[0]][1]
        else:
            continue
        if q not in known:
            known[q] = not (reads(A, [q]) & free)
        if known[q]:
            base[k] = v
    old = dict(A.alias)
    out = []
    try:
        for r in range(n):
            A.alias = dict(old)
            for d in free:
                A.alias[d] = ("rep", r, old.get(d, d))
            A.memo = dict(base)
            A.work = 8000000
            out.append(f())
    finally:
        A.alias = old
        A.memo = {}
    return out


SIGMAS = 6.5


def c26_labels(A, p, w, a, b, dim, st, reps):
    """New labels: density of the component, among those above the level."""
    ys = observations(A, w)

    def state():
        return (a.atoms(A, dim), flat(A, a.d), b.weights(A),
                b.atoms(A, dim), flat(A, b.u))
    _, _, ws, at, u = state()
    prob = []
    for i, y in enumerate(ys):
        lp = [log_normal(y, *x) if wt > u[i] else -INF
              for x, wt in zip(at, ws)]
        top = max(lp)
        if top == -INF:
            raise Give("no component above the level")
        e = [math.exp(v - top) for v in lp]
        prob.append([v / sum(e) for v in e])
    got = replicas(A, state, lambda: labels(A, b.d), reps)
    for i, pr in enumerate(prob):
        for j, q in enumerate(pr):
            c = sum(g[i] == j for g in got)
            sd = math.sqrt(reps * q * (1 - q))
            if q == 0 and c or abs(c - reps * q) > SIGMAS * sd + 3:
                return "observation %d joins component %d with frequency " \
                    "%.3f over the draws of its label, the conditional " \
                    "probability is %.3f %s" % (i, j, c / reps, q, st)
        if any(g[i] >= len(pr) for g in got):
            return "observation %d joins a component without weight %s" % (
                i, st)


def c26_slices(A, p, w, a, b, dim, st, reps):
    """New slice levels: uniform below the weight of the component."""
    v = weights_version(b)

    def state():
        return flat(A, a.d)
    d = labels(A, a.d)
    ws = [A.leaf("wt", (v, j)) for j in range(max(d) + 1)]
    got = replicas(A, state, lambda: flat(A, b.u), reps)
    n = len(d)
    for i in range(n):
        xs = sorted(g[i] / ws[d[i]] for g in got)
        gap = max(abs((k + 0.5) / reps - x) for k, x in enumerate(xs))
        if gap > 2.8 / math.sqrt(reps):
            return "the slice level of observation %d is not uniform below " \
                "the weight of its component %s" % (i, st)
    if n > 1:
        # levels of different observations are drawn on their own
        for i in range(n - 1):
            x = [g[i] / ws[d[i]] for g in got]
            y = [g[i + 1] / ws[d[i + 1]] for g in got]
            c = sum((s - 0.5) * (t - 0.5) for s, t in zip(x, y)) / reps * 12
            if abs(c) > SIGMAS / math.sqrt(reps):
                return "the slice levels of observations %d and %d depend " \
                    "on each other %s" % (i, i + 1, st)


def c26_task(rep, pd, nd, steps, seeds, reps):
    w = MixWorld(p=pd, n=nd)
    fx = fixed_sizes(w)
    size = "%s observation(s) of %s dimension(s)" % (nd, pd)
    key = "%s.fit_gibbs" % BASE
    names = ("atoms of occupied groups", "atoms of new components",
             "slice levels", "labels")
    asks = {k: Asked(rep, "conditional of the %s (%s)" % (k, size), key)
            for k in names}
    for seed in seeds:
        r = run(rep, asks["labels"], w, steps_of(w, steps, 0, 1), seed, fx)
        if r is None:
            continue
        p, A = r
        n, dim = dims_of(A, w)
        recs = p.val["recs"]
        for k in range(len(recs) - 1):
            a, b = recs[k], recs[k + 1]
            st = "(step %d)" % (k + 2)

            def occupied():
                d = labels(A, a.d)
                for j in sorted(set(d)):
                    m = c26_atom(A, p, w, b, j, [
                        i for i, x in enumerate(d) if x == j], dim,
                        "group %d of step %d" % (j, k + 2))
                    if m:
                        return m

            def new():
                d = labels(A, a.d)
                was = a.atoms(A, dim)
                now = b.atoms(A, dim)
                some = False
                ever = set(d)
                for x in recs[:k]:
                    ever |= set(labels(A, x.d))
                for c in p.snap.marks:
                    # groups of the initial assignment
                    if getattr(c, "name", "") == "fit" and "d" in c.arrays:
                        ever |= set(labels(A, c.arrays["d"]))
                        break
                else:
                    raise Give("initial groups")
                for j in range(len(now)):
                    if j in ever or (j < len(was) and was[j] == now[j]):
                        continue
                    some = True
                    m = c26_atom(A, p, w, b, j, [], dim,
                                 "new component %d of step %d" % (j, k + 2))
                    if m:
                        return m
                if not some:
                    raise Give("no new component")
            asks[names[0]].put(A, occupied)
            asks[names[1]].put(A, new)
            asks[names[2]].put(A, lambda: c26_slices(A, p, w, a, b, dim, st,
                                                     reps))
            asks[names[3]].put(A, lambda: c26_labels(A, p, w, a, b, dim, st,
                                                     reps))
    for k in names:
        asks[k].close()


def c26(rep):
    """Every block of a step is drawn from its full conditional."""
    rep.rule = (
        "Between consecutive states of the chain, extracted as formulas of "
        "the draws: the recorded draw an atom is has the parameters of the "
        "normal-inverse-Wishart conditional given the observations of its "
        "group (of the prior for a new component); a new slice level as a "
        "function of its draws is uniform below the weight of its "
        "component; a new label as a function of its draws has the "
        "conditional probabilities (component density, weight above the "
        "slice level).")
    rep.assumptions += ["library functions follow their documentation",
                        "the weighting model draws its weights from their "
                        "conditional (C24)"]
    seeds = range(10) if rep.tier == "quick" else range(40)
    reps = 3000 if rep.tier == "quick" else 12000
    tasks = []
    for pd, nd in (("many", "many"), ("one", "many"), ("many", "one")):
        tasks.append((c26_task, (pd, nd, 2, seeds, reps)))
        tasks.append((c26_task, (pd, nd, 3, seeds, reps)))
    run_tasks(rep, tasks)
