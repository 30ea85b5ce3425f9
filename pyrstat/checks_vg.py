"""Checks decided on the formulas extracted by value numbering.

A claim about an extracted formula is proved by its normal form or its
interval; what the normal form cannot settle is compared by random
interpretation (polynomial identity testing of the extracted formulas).  Only
a claim some admissible assignment separates is reported; a value the
analysis lost track of never takes part in a report.
"""
import math
from . import term as T
from . import vglib
from .term import P, ZERO, ONE, Give, gt, ge, lt, le, eq, fresh_index, total
from .vg import (Num, Const, Bool, Ref, Tup, Arr, Axis, Stop, NONE, PyRaise,
                 Unk)
from .witness import (Undefined, close, digamma, lgamma, INF)
from .numscen import (World, Path, explore, assignments, entries, MODELS,
                      INFINITE, VARIATIONAL, settings, WM, pos, unit, count,
                      axis_indices)
from .report import run_tasks

TOL = 1e-7


def vname(var):
    return ",".join("%s=%s" % kv for kv in sorted(var.items()))


def label(name, var, steps=""):
    return "%s(%s)%s" % (name, vname(var), ": " + steps if steps else "")


def method_of(w, name, meth):
    """The function that implements a public method."""
    f, c = w.cls(name).find(meth)
    if f is None:
        return "%s.%s" % (name, meth)
    return "%s.%s" % (c.name, meth)


def steps_on(w, o, steps):
    e, r = w.e, None
    for st in steps.split(","):
        st = st.strip()
        if st == "fit":
            r = e.method(o, "fit", w.d())
        elif st == "random":
            r = e.method(o, "random")
        elif st == "random(m)":
            r = e.method(o, "random", w.m)
        elif st == "complete(k)":
            r = e.method(o, "complete", w.k)
        elif st == "tail(x)":
            r = e.method(o, "tail", w.x)
        elif st == "reset":
            r = e.method(o, "reset")
        else:
            raise ValueError(st)
    return r


def scenario(rep, w, name, var, steps, then=None):
    """Paths of a call sequence; values (result, then(o, result))."""
    rep.count("scenarios")

    def go():
        o = w.build(name, var)
        r = steps_on(w, o, steps)
        return Tup([r, then(o, r) if then else NONE])
    try:
        ps = explore(w, go)
    except (Stop, Give, KeyError, RecursionError) as ex:
        rep.skip("%s: %s" % (label(name, var, steps),
                             str(ex)[:160] or type(ex).__name__))
        return []
    rep.count("paths", len(ps))
    rep.count("draw_sites", sum(len(p.draws) for p in ps))
    return ps


def same_ref(a, b):
    return isinstance(a, Ref) and isinstance(b, Ref) and a.i == b.i


def arr_equal(p, x, y):
    """Proved equal, shape and body."""
    if len(x.shape) != len(y.shape):
        return False
    with p:
        for a, b in zip(x.shape, y.shape):
            if not vglib.same_axis(p.e, a, b):
                return False
        b = y.at(*[T.Poly.atom(v) if isinstance(v, T.Atom) else v
                   for v in x.vars])
        return reduce_facts(p, x.body) == reduce_facts(p, b)


def reduce_facts(p, q):
    for c in p.conds:
        q = T.assume(q, c)
    return q


def proved(p, c, depth=3):
    """A condition that follows from the facts of a path, by cases of the
    conditions inside its formulas when it does not directly."""
    r = p.e.decide(c)
    if r is not None or depth == 0:
        return r is True
    q = case_of(c)
    if q is None:
        return False
    for side in (q, T.no(q)):
        if p.e.decide(side) is False:
            continue
        old = p.e.facts
        p.e.facts = old + [side]
        c2 = T.assume_cond(T.map_cond(c, lambda z: T.assume(
            split_max(z, q), side)), side)
        ok = c2.op == "true" or proved(p, c2, depth - 1)
        p.e.facts = old
        if not ok:
            return False
    return True


def case_of(c):
    """A condition a formula branches on."""
    polys = [x for x in c.args if isinstance(x, T.Poly)]
    for x in c.args:
        if isinstance(x, T.Cond):
            r = case_of(x)
            if r is not None:
                return r
    for x in polys:
        for m in x.t:
            for a, _ in m:
                if a.op == "fn" and a.args[0] in ("max2", "min2"):
                    return gt(a.args[1][0], a.args[1][1])
                if a.op == "ite":
                    return a.args[0]
    return None


def split_max(p, q):
    def f(a):
        if a.op == "fn" and a.args[0] in ("max2", "min2"):
            x, y = a.args[1]
            if gt(x, y) == q:
                return T.ite(q, x, y) if a.args[0] == "max2" else \
                    T.ite(q, y, x)
        return None
    return T.rebuild(p, f)


def in_range(p, arr, lo=None, hi=None):
    """Interval proof for the entries of an array."""
    with p:
        b = reduce_facts(p, arr.body)
        for v, ax in zip(arr.vars, arr.shape):
            b = T.assume(b, gt(ax.n, v))
        r = T.rng(b)
    return (lo is None or r[0] >= lo) and (hi is None or r[1] <= hi)


def numeric(rep, p, what, key, fun, **fixed):
    """Random interpretation of a claim: fun(A) -> None or a message."""
    tested = 0
    tainted = 0
    for A in assignments(p, **fixed):
        try:
            msg = fun(A)
        except (Give, Undefined, OverflowError, ZeroDivisionError,
                IndexError, ValueError, KeyError):
            continue
        if A.tainted:
            tainted += 1
            continue
        if msg:
            rep.bad(key, "%s: %s [%s; sizes %s, assignment %d]" % (
                what, msg, p.label(), A.sizes, A.seed))
            return False
        tested += 1
    rep.count("identity_tests", tested)
    if tested:
        rep.ok("%s (%d assignments)" % (what, tested))
        return True
    rep.skip("%s: no admissible assignment could be evaluated%s" % (
        what, " without unknown values" if tainted else ""))
    return None


SCEN = ("random(m)", "complete(k)", "fit,random", "fit,random(m)",
        "random(m),complete(k)", "fit,random,complete(k)",
        "random(m),random(m)", "fit,random,random", "fit,random,reset,"
        "random(m)", "random(m),fit,random")


# ------------------------------------------------------------------ C11
def c11_model(rep, name, var, steps):
    w = World()
    if steps:
        def then(o, r):
            return Tup([w.e.method(o, "get_weights"),
                        w.e.method(o, "get_normalized_weights")])
        for p in scenario(rep, w, name, var, steps, then):
            if p.kind != "ok":
                continue
            r, (g, nw) = p.val.items[0], p.val.items[1].items
            what = label(name, var, steps)
            meth = steps.split(",")[-1].split("(")[0]
            key = method_of(w, name, meth)
            try:
                a = p.arr(r)
            except (Stop, Give):
                rep.skip("%s: result is not followed" % what)
                continue
            weights_claim(rep, p, name, a, what, key)
            if not same_ref(r, g):
                try:
                    ga = p.arr(g)
                except (Stop, Give):
                    continue
                if arr_equal(p, a, ga):
                    rep.ok("%s: get_weights returns it" % what)
                else:
                    weights_claim(rep, p, name, ga, what + " get_weights",
                                  method_of(w, name, "get_weights"))
            try:
                na = p.arr(nw)
            except (Stop, Give):
                continue
            if quotient(p, na, a) and (stick_form(p, a) or
                                       in_range(p, a, 0, 1)):
                rep.ok("%s: get_normalized_weights is w / sum(w)" % what)
                continue
            normal_claim(rep, p, na, what + " get_normalized_weights",
                         method_of(w, name, "get_normalized_weights"))
        return
    # random assignments
    rep.count("scenarios")

    def go():
        o = w.build(name, var)
        steps_on(w, o, "random(m)")
        r = w.e.method(o, "random_assignment", count("size"))
        return Tup([r, w.e.method(o, "get_weights")])
    what = label(name, var, "random_assignment")
    try:
        ps = explore(w, go)
    except (Stop, Give, KeyError, RecursionError) as ex:
        rep.skip("%s: %s" % (what, str(ex)[:160]))
        return
    for p in ps:
        if p.kind != "ok":
            continue
        try:
            a, wa = p.arr(p.val.items[0]), p.arr(p.val.items[1])
        except (Stop, Give):
            rep.skip("%s: result is not followed" % what)
            continue

        def f(A):
            n = len(entries(A, wa))
            for i, v in entries(A, a).items():
                if not (v == int(v) and 0 <= v < n):
                    return "label %r of %d weights" % (v, n)
        numeric(rep, p, what, method_of(w, name, "random_assignment"), f,
                size=lambda r: r.choice([1, 3, 9]))


def stick_form(p, a):
    """Is the body v(j) * prod_{l<j}(1 - v(l)) with v in [0, 1]?"""
    if len(a.shape) != 1 or a.shape[0].filt is not None:
        return False
    j = a.vars[0]
    with p:
        body = T.assume(reduce_facts(p, a.body), gt(a.shape[0].n, j))
    ja = j.one_atom()
    m = body.single()
    if m is None:
        return False
    c, mono = m
    if c != 1:
        return False
    rest, prods = [], []
    for at, ex in mono:
        if at.op == "prod" and ex == 1 and at.args[1] == j:
            prods.append(at)
        else:
            rest.append((at, ex))
    if len(prods) == 1:
        x = ONE
        for at, ex in rest:
            x = x * T.power(T.Poly.atom(at), P(ex)) if ex != 1 else \
                x * T.Poly.atom(at)
        v = fresh_index()
        inner = T.open_body(prods[0].args[2], prods[0].args[0], v)
        g = ONE - inner
        if T.subst(g, v, j) != x:
            return False
        r = T.rng(x)
        return r[0] >= 0 and r[1] <= 1
    # geometric: v (1 - v)^j
    pw = [(at, ex) for at, ex in rest if at.op == "powv"]
    if len(pw) == 1 and pw[0][0].args[1] == j:
        x = ONE
        for at, ex in rest:
            if (at, ex) != pw[0]:
                x = x * T.Poly.atom(at, ex)
        if ja in x.free() or pw[0][0].args[0] != ONE - x:
            return False
        r = T.rng(x)
        return r[0] >= 0 and r[1] <= 1
    return False


def weights_claim(rep, p, name, a, what, key):
    if len(a.shape) != 1:
        rep.bad(key, "%s: result has %d dimensions" % (what, len(a.shape)))
        return
    if stick_form(p, a):
        rep.ok("%s: w_j = v_j prod(1 - v_l), v in [0, 1]" % what)
        return
    with p:
        v = a.vars[0]
        s = total(v, a.shape[0].n, a.body) if a.shape[0].filt is None \
            else None
    if s is not None and reduce_facts(p, s) == ONE and in_range(p, a, 0, 1):
        rep.ok("%s: entries in [0, 1] with sum one" % what)
        return

    def f(A):
        xs = list(entries(A, a).values())
        bad = [x for x in xs if not (-TOL <= x <= 1 + TOL)]
        if bad:
            return "weight %r" % bad[0]
        if sum(xs) > 1 + TOL:
            return "weights sum to %r" % sum(xs)
        if name not in INFINITE and xs and abs(sum(xs) - 1) > TOL:
            return "weights sum to %r" % sum(xs)
    numeric(rep, p, what, key, f)


def quotient(p, na, a):
    """na = a / sum(a)?"""
    if len(na.shape) != 1 or len(a.shape) != 1 or \
            a.shape[0].filt is not None:
        return False
    with p:
        if not vglib.same_axis(p.e, na.shape[0], a.shape[0]):
            return False
        v = na.vars[0]
        q = a.at(v)
        return na.body == q * T.power(total(v, a.shape[0].n, q), P(-1))


def normal_claim(rep, p, a, what, key):
    def f(A):
        xs = list(entries(A, a).values())
        bad = [x for x in xs if not (-TOL <= x <= 1 + TOL)]
        if bad:
            return "normalised weight %r" % bad[0]
        if xs and abs(sum(xs) - 1) > 1e-6:
            return "normalised weights sum to %r" % sum(xs)
    numeric(rep, p, what, key, f)


def models_tasks(fn, names=MODELS):
    return [(fn, (n, v)) for n in names for v in MODELS[n]]


SLOW = ("BetaBernoulli", "BetaInDirichlet", "BetaInBeta")


def model_steps(fn, scen, names=MODELS):
    """One task per model, variant and call sequence, slow models first."""
    out = [(fn, (n, v, s)) for n in names for v in MODELS[n] for s in scen]
    return sorted(out, key=lambda t: t[1][0] not in SLOW)


def c11(rep):
    rep.rule = ("every extracted weight vector is v_j prod(1 - v_l) with v in "
                "[0, 1], or entries in [0, 1] summing to one; decided by "
                "normal form and intervals, else by random interpretation")
    run_tasks(rep, model_steps(c11_model, SCEN + ("",)))


# ------------------------------------------------------------------ C12
def raises_reported(rep, p, what, key):
    """A call that should return leaves by an exception."""
    for A in assignments(p):
        if A.tainted:
            continue
        rep.bad(key, "%s: ends in %s [%s; sizes %s, assignment %d]" % (
            what, p.val.name, p.label(), A.sizes, A.seed))
        return
    rep.skip("%s: a path ending in %s is not shown impossible" % (
        what, p.val.name))


def fits_in(p, short, long):
    """Proved: `long` starts with `short`; None when neither way."""
    if short.shape and short.shape[0].n == ZERO:
        return True
    if len(short.shape) != 1 or len(long.shape) != 1:
        return False
    v = short.vars[0]
    with p:
        a = T.assume(reduce_facts(p, short.body), gt(short.shape[0].n, v))
        b = T.assume(reduce_facts(p, long.at(v)), gt(short.shape[0].n, v))
        if a == b and p.e.decide(ge(long.shape[0].n,
                                    short.shape[0].n)) is True:
            return True
    return None


def frozen(w, r):
    """A copy of an array as it is now."""
    e = w.e
    if isinstance(r, Ref) and r.kind == "arr":
        return e.new("arr", e.heap[r.i])
    return r


C12_BEFORE = ("random(m)", "fit,random", "fit,random(m)", "complete(k)",
              "fit,random,reset", "random(m),fit", "fit", "")


def c12_complete(rep, name, var, before):
    w = World()
    rep.count("scenarios")
    what = label(name, var, (before + "," if before else "") + "complete(q)")
    size = count("size", 0 if before else 1)
    keep = {}

    def go():
        o = w.build(name, var)
        if before:
            steps_on(w, o, before)
        old = frozen(w, w.e.method(o, "get_weights"))
        keep["old"] = old
        r = w.e.method(o, "complete", size)
        return Tup([old, r, w.e.method(o, "get_weights")])
    try:
        ps = explore(w, go)
    except (Stop, Give, KeyError, RecursionError) as ex:
        rep.skip("%s: %s" % (what, str(ex)[:160]))
        return
    key = method_of(w, name, "complete")
    sz = dict(size=lambda r: r.choice([0, 1, 2, 5, 9]) if before
              else r.choice([1, 2, 5, 9]))
    for p in ps:
        if p.kind != "ok":
            raises_reported(rep, p, what, key)
            continue
        old, r, g = p.val.items
        if r is NONE:
            rep.bad(key, "%s: returns nothing [%s]" % (what, p.label()))
            continue
        try:
            oa, ra, ga = p.arr(old), p.arr(r), p.arr(g)
        except (Stop, Give):
            rep.skip("%s: result is not followed" % what)
            continue
        if same_ref(r, g) or arr_equal(p, ra, ga):
            rep.ok("%s: returns the weights get_weights reports" % what)
        else:
            numeric(rep, p, what + ": get_weights", key,
                    lambda A: differ(A, ra, ga), **sz)
        if name not in INFINITE:
            continue
        with p:
            enough = proved(p, ge(ra.shape[0].n, size.p)) \
                if ra.shape[0].filt is None else None
        if enough is True:
            rep.ok("%s: at least as many entries as asked for" % what)
        else:
            def f(A):
                if len(entries(A, ra)) < A(size.p):
                    return "%d weights for size %d" % (
                        len(entries(A, ra)), A(size.p))
            numeric(rep, p, what + ": length", key, f, **sz)
        if before == "random(m),fit":
            continue        # weights belong to the prior: redrawn or kept
        if fits_in(p, oa, ra):
            rep.ok("%s: existing weights are kept in front" % what)
        else:
            def f(A):
                x, y = entries(A, oa), entries(A, ra)
                for i in x:
                    if i not in y:
                        return "weight %d is lost" % i[0]
                    if not close(x[i], y[i]):
                        return "weight %d changes from %r to %r" % (
                            i[0], x[i], y[i])
            numeric(rep, p, what + ": prefix", key, f, **sz)


def differ(A, x, y):
    a, b = entries(A, x), entries(A, y)
    if len(a) != len(b):
        return "%d entries against %d" % (len(a), len(b))
    for i in a:
        if not close(a[i], b[i]):
            return "entry %s is %r against %r" % (i, a[i], b[i])


def c12_same(rep, name, var, steps):
    """random(...) returns what get_weights reports."""
    w = World()

    def then(o, r):
        return w.e.method(o, "get_weights")
    what = label(name, var, steps)
    key = method_of(w, name, "random")
    for p in scenario(rep, w, name, var, steps, then):
        if p.kind != "ok":
            raises_reported(rep, p, what, key)
            continue
        r, g = p.val.items
        if same_ref(r, g):
            rep.ok("%s: returns the weights get_weights reports" % what)
            continue
        try:
            ra, ga = p.arr(r), p.arr(g)
        except (Stop, Give):
            rep.skip("%s: result is not followed" % what)
            continue
        if arr_equal(p, ra, ga):
            rep.ok("%s: returns the weights get_weights reports" % what)
        else:
            numeric(rep, p, what + ": get_weights", key,
                    lambda A: differ(A, ra, ga))


def c12_tail(rep, name, var, before):
    w = World()
    rep.count("scenarios")
    what = label(name, var, (before + "," if before else "") + "tail(x)")
    x = w.x

    def go():
        o = w.build(name, var)
        if before:
            steps_on(w, o, before)
        r = w.e.method(o, "tail", x)
        return Tup([r, w.e.method(o, "get_weights")])
    key = method_of(w, name, "tail")
    try:
        ps = explore(w, go)
    except (Stop, Give, KeyError, RecursionError) as ex:
        rep.skip("%s: %s" % (what, str(ex)[:160]))
        return
    for p in ps:
        if p.kind != "ok":
            raises_reported(rep, p, what, key)
            continue
        r, g = p.val.items
        if r is NONE:
            rep.bad(key, "%s: returns nothing [%s]" % (what, p.label()))
            continue
        try:
            ra, ga = p.arr(r), p.arr(g)
        except (Stop, Give):
            rep.skip("%s: result is not followed" % what)
            continue
        if same_ref(r, g) or arr_equal(p, ra, ga):
            rep.ok("%s: returns the weights get_weights reports" % what)
        else:
            numeric(rep, p, what + ": get_weights", key,
                    lambda A: differ(A, ra, ga))
        with p:
            s = total(ra.vars[0], ra.shape[0].n, ra.body)
            done = proved(p, ge(s, x.p))
        if done is True:
            rep.ok("%s: the sum reaches x on leaving the loop" % what)
            continue

        def f(A):
            t = sum(entries(A, ra).values())
            if t < A(x.p) - 1e-9:
                return "weights sum to %r for x = %r" % (t, A(x.p))
        numeric(rep, p, what + ": sum", key, f)


def c12_reject(rep, name, var):
    """tail(x) with x outside [0, 1) raises ValueError."""
    for side, sym in (("x >= 1", T.symbol("xhi", lo=1)),
                      ("x < 0", T.symbol("xlo", hi=0, hi_in=False))):
        w = World()
        rep.count("scenarios")
        what = label(name, var, "tail(%s)" % side)
        key = method_of(w, name, "tail")

        def go():
            o = w.build(name, var)
            w.e.method(o, "random", w.m)
            return w.e.method(o, "tail", Num(sym))
        try:
            ps = explore(w, go)
        except (Stop, Give, KeyError, RecursionError) as ex:
            rep.skip("%s: %s" % (what, str(ex)[:160]))
            continue
        for p in ps:
            if p.kind == "raise" and p.val.name == "ValueError":
                rep.ok("%s: ValueError" % what)
                continue
            for A in assignments(p):
                if not A.tainted:
                    rep.bad(key, "%s: %s [%s; sizes %s, assignment %d]" % (
                        what, "accepted" if p.kind == "ok" else
                        "ends in " + p.val.name, p.label(), A.sizes, A.seed))
                    break
            else:
                rep.skip("%s: other exit not shown impossible" % what)


def c12(rep):
    rep.rule = ("result of random/complete/tail is the array get_weights "
                "reports; complete has at least the asked length and the old "
                "weights as prefix; the loop exit of tail implies sum >= x; "
                "x outside [0, 1) reaches only ValueError")
    ts = model_steps(c12_complete, C12_BEFORE)
    ts += model_steps(c12_tail, ("random(m)", "fit,random", "complete(k)",
                                 ""), INFINITE)
    ts += models_tasks(c12_reject)
    ts += model_steps(c12_same, ("random(m)", "fit,random", "fit,random(m)",
                                 "random(m),random(m)"))
    run_tasks(rep, sorted(ts, key=lambda t: t[1][0] not in SLOW))


# ------------------------------------------------------------------ C25
DOMAIN = {
    "beta": (("a", "gt", 0), ("b", "gt", 0)),
    "dirichlet": (("alpha", "gt", 0),),
    "binomial": (("n", "ge", 0), ("p", "ge", 0), ("p", "le", 1)),
    "gamma": (("shape", "gt", 0), ("scale", "ge", 0)),
    "standard_gamma": (("shape", "gt", 0),),
    "exponential": (("scale", "ge", 0),),
    "poisson": (("lam", "ge", 0),),
    "geometric": (("p", "gt", 0), ("p", "le", 1)),
    "normal": (("scale", "ge", 0),),
    "choice": (("n", "ge", 1),),
}
COND = {"gt": gt, "ge": ge, "le": le}


def ranges_of(rec):
    out = []
    for v, n, g in rec.loops:
        out.append(gt(n, v))
        if g.op != "true":
            out.append(g)
    for v, ax in zip(rec.vars, rec.shape):
        out.append(gt(ax.n, v))
        if ax.filt is not None:
            out.append(ax.guard(v))
    return out


def record_proved(p, rec, c):
    if c.op == "true":
        return True
    fs = list(rec.facts) + ranges_of(rec)
    with p:
        old = p.e.facts
        p.e.facts = old + [f for f in fs if f not in old]
        for f in fs:
            c = T.map_cond(c, lambda z: T.assume(z, f))
            c = T.assume_cond(c, f)
        r = c.op == "true" or proved(p, c)
        p.e.facts = old
    return r


def record_envs(A, rec, limit=200):
    """Admissible loop and element indices of a record."""
    dims = [(v, n, g) for v, n, g in rec.loops] + [
        (v, ax.n, ax.guard(v)) for v, ax in zip(rec.vars, rec.shape)]
    done = [0]

    def go(k, env):
        if done[0] >= limit:
            return
        if k == len(dims):
            if all(A.cond(f, env) for f in rec.facts):
                done[0] += 1
                yield env
            return
        v, n, g = dims[k]
        for i in range(max(0, A.index(n, env))):
            e2 = dict(env)
            e2[v.one_atom()] = i
            if A.cond(g, e2):
                yield from go(k + 1, e2)
    yield from go(0, {})


def site(rec):
    return "%s (%s)" % (rec.func, rec.where.split("/")[-1])


def claim_record(rec_rep, p, rec, conds, what, fixed, key):
    """conds: [(Cond, text)] that must hold wherever the record happens."""
    rep = rec_rep
    open_ = [(c, t) for c, t in conds if not record_proved(p, rec, c)]
    if len(open_) < len(conds):
        rep.ok("%s: %s" % (site(rec), what), len(conds) - len(open_))
    if not open_:
        return
    if getattr(rec, "unknown", False):
        rep.skip("%s: %s of values that are not followed" % (site(rec),
                                                              what))
        return
    tested = taint = 0
    for A in assignments(p, **fixed):
        try:
            for env in record_envs(A, rec):
                for c, t in open_:
                    if not A.cond(c, env) and not A.tainted and \
                            not edge(A, c, env):
                        rep.bad(key, "%s: %s needs %s, which fails at %s "
                                "[%s; sizes %s, assignment %d]" % (
                                    rec.where, what, t,
                                    values(A, c, env), p.label(), A.sizes,
                                    A.seed))
                        return
                    if A.tainted:
                        break
        except (Give, Undefined, OverflowError, ZeroDivisionError,
                IndexError, ValueError, KeyError):
            continue
        if A.tainted:
            taint += 1
        else:
            tested += 1
    rep.count("identity_tests", tested)
    if tested:
        rep.ok("%s: %s (%d assignments)" % (site(rec), what, tested),
               len(open_))
    else:
        rep.skip("%s: %s: not shown" % (site(rec), what))


def edge(A, c, env):
    """Fails only within rounding."""
    for x in leaves(c):
        v = A.poly(x.args[0], env)
        if v != v:
            return False
        if abs(v) > 1e-9:
            return False
        if isinstance(v, int) or v == 0:
            return False
    return True


def leaves(c):
    if c.op in ("gt0", "eq0"):
        return [c]
    return [y for x in c.args if isinstance(x, T.Cond) for y in leaves(x)]


def values(A, c, env):
    return ", ".join("%r" % A.poly(x.args[0], env) for x in leaves(c)[:3])


def draw_conds(p, d):
    out = []
    for name, op, val in DOMAIN.get(d.dist, ()):
        if name in d.params:
            out.append((COND[op](d.params[name], val),
                        "%s %s %s" % (name, {"gt": ">", "ge": ">=",
                                             "le": "<="}[op], val)))
    for ax in d.shape:
        out.append((ge(ax.n, 0), "size >= 0"))
    return out


def prob_claim(rep, p, d, key, fixed):
    a = d.arrays["p"]
    bad = None
    tested = 0
    for A in assignments(p, **fixed):
        try:
            for env in record_envs(A, d, 40):
                n = A.index(a.shape[0].n, env)
                xs = []
                for j in range(n):
                    e2 = dict(env)
                    e2[a.vars[0].one_atom()] = j
                    xs.append(A.poly(a.body, e2))
                if A.tainted:
                    break
                m = A.index(d.params["n"], env)
                if m != n:
                    bad = "%d probabilities for %d values" % (n, m)
                elif any(not x >= -1e-12 for x in xs):
                    bad = "probabilities %r" % (xs,)
                elif abs(sum(xs) - 1) > 1e-6:
                    bad = "probabilities sum to %r" % sum(xs)
                if bad:
                    rep.bad(key, "%s: choice gets %s [%s; sizes %s, "
                            "assignment %d]" % (d.where, bad, p.label(),
                                                A.sizes, A.seed))
                    return
        except (Give, Undefined, OverflowError, ZeroDivisionError,
                IndexError, ValueError, KeyError):
            continue
        if not A.tainted:
            tested += 1
    if tested:
        rep.ok("%s: choice probabilities (%d assignments)" % (site(d),
                                                              tested))
    else:
        rep.skip("%s: choice probabilities: not shown" % site(d))


def never_fails(rep, w, p, what, key, fixed):
    """No exit by an exception, no draw outside its domain, no operation
    outside what it accepts."""
    if p.kind == "raise":
        raises_reported(rep, p, what, key)
        return
    for d in p.draws:
        cs = draw_conds(p, d)
        if cs:
            claim_record(rep, p, d, cs, d.dist + " draw", fixed, key)
        if "p" in d.arrays:
            prob_claim(rep, p, d, key, fixed)
    for m in p.snap.marks:
        claim_record(rep, p, m, [(m.cond, m.what)], "operation" if m.kind ==
                     "need" else "no " + m.what, fixed, key)


C25_SCEN = SCEN + ("complete(k)", "random(m),tail(x)", "fit,random,tail(x)",
                   "tail(x)", "fit,complete(k)")


def c25_calls(rep, name, var, steps):
    w = World()
    what = label(name, var, steps)
    meth = steps.split(",")[-1].split("(")[0]
    for p in scenario(rep, w, name, var, steps):
        never_fails(rep, w, p, what, method_of(w, name, meth), {})


def c25_ll(rep, name, var, steps):
    """Log-likelihoods are numbers for generic draws."""
    w = World()
    what = label(name, var, steps)
    meth = "weighting_log_likelihood"

    def then(o, r):
        return w.e.method(o, meth)
    key = method_of(w, name, meth)
    for p in scenario(rep, w, name, var, steps, then):
        never_fails(rep, w, p, what, key, {})
        if p.kind != "ok":
            continue
        v = p.val.items[1]
        try:
            a = p.arr(v)
        except (Stop, Give):
            rep.skip("%s: %s is not followed" % (what, meth))
            continue

        def f(A):
            x = A.poly(a.body, {})
            if x != x or abs(x) == INF:
                return "value %r" % x
        numeric(rep, p, what + " " + meth, key, f)


def c25(rep):
    rep.rule = ("at every draw site on every path the parameters lie in the "
                "domain of the distribution, every index and reduction is "
                "defined, no path ends in an exception, and log-likelihoods "
                "are numbers, limits of the settings included")
    ts = model_steps(c25_calls, C25_SCEN)
    ts += model_steps(c25_ll, ("random(m)", "fit,random", "fit,random(m)",
                               "random(m),complete(k)"))
    run_tasks(rep, sorted(ts, key=lambda t: t[1][0] not in SLOW))


# ------------------------------------------------------------------ C13
def scalar(p, v):
    """The formula of a scalar result."""
    a = p.arr(v)
    if a.ndim:
        raise Stop("not a scalar")
    return a.body


def var_paths(rep, w, name, var, what, call):
    rep.count("scenarios")

    def go():
        o = w.build(name, var)
        w.e.method(o, "fit_variational", w.q())
        return call(o)
    try:
        ps = explore(w, go)
    except (Stop, Give, KeyError, RecursionError) as ex:
        rep.skip("%s: %s" % (what, str(ex)[:160] or type(ex).__name__))
        return []
    rep.count("paths", len(ps))
    return ps


C13_RANGE = {
    "variational_mean_w_j": (0, 1),
    "variational_mode_w_j": (0, 1),
    "variational_mean_log_w_j": (-INF, 0),
}
BEYOND = {
    "variational_mean_w_j": 0,
    "variational_mode_w_j": 0,
    "variational_mean_log_w_j": -INF,
}


def c13_j(rep, name, var, meth, beyond):
    w = World()
    j = T.symbol("j", lo=0, integer=True)
    what = label(name, var, "%s(%s)" % (meth, "j >= K" if beyond else
                                        "j < K"))
    key = method_of(w, name, meth)

    def call(o):
        w.e.facts.append(ge(j, w.K) if beyond else gt(w.K, j))
        return w.e.method(o, meth, Num(j, "i"))
    fixed = dict(j=(lambda r: r.choice([1, 2, 3, 4, 4, 5, 7])) if beyond else
                 (lambda r: r.choice([0, 0, 1, 2, 3])))
    lo, hi = C13_RANGE[meth]
    for p in var_paths(rep, w, name, var, what, call):
        if p.kind == "raise":
            if meth == "variational_mode_w_j" and not beyond and \
                    p.val.name == "ValueError":
                rep.ok("%s: no mode" % what)     # documented: multimodal
                continue
            raises_at(rep, p, what, key, fixed)
            continue
        indices(rep, p, key, fixed)
        try:
            b = scalar(p, p.val)
        except (Stop, Give):
            rep.skip("%s: result is not followed" % what)
            continue
        if beyond:
            want = BEYOND[meth]
            if b == P(want) if want == 0 else \
                    b == -vglib.PINF:
                rep.ok("%s is %s" % (what, want))
                continue

            def f(A):
                if not A.cond(ge(j, w.K), {}):
                    raise Give("inadmissible")
                x = A.poly(b, {})
                if x != want:
                    return "value %r" % x
        else:
            r = T.rng(reduce_facts(p, b))
            if r[0] >= lo and r[1] <= hi:
                rep.ok("%s in [%s, %s]" % (what, lo, hi))
                continue

            def f(A):
                if not A.cond(gt(w.K, j), {}):
                    raise Give("inadmissible")
                x = A.poly(b, {})
                if not lo - 1e-9 <= x <= hi + 1e-9:
                    return "value %r" % x
        numeric(rep, p, what, key, f, **fixed)


def indices(rep, p, key, fixed):
    for m in p.snap.marks:
        if m.kind == "need" and m.what.startswith("index"):
            claim_record(rep, p, m, [(m.cond, m.what)], "operation", fixed,
                         key)


def raises_at(rep, p, what, key, fixed):
    for A in assignments(p, **fixed):
        if A.tainted:
            continue
        try:
            if not all(A.cond(f, {}) for f in p.facts):
                continue
        except (Give, Undefined, KeyError):
            continue
        rep.bad(key, "%s: ends in %s [%s; sizes %s, assignment %d]" % (
            what, p.val.name, p.label(), A.sizes, A.seed))
        return
    rep.skip("%s: a path ending in %s is not shown impossible" % (
        what, p.val.name))


def c13_pdw(rep, name, var, other):
    w = World()
    meth = "variational_mean_log_p_d__w"
    what = label(name, var, "%s(%s)" % (meth, "q2" if other else ""))
    key = method_of(w, name, meth)

    def call(o):
        return w.e.method(o, meth, *([w.q("q2", count("n2").p)] if other
                                     else []))
    for p in var_paths(rep, w, name, var, what, call):
        if p.kind == "raise":
            raises_at(rep, p, what, key, {})
            continue
        try:
            b = scalar(p, p.val)
        except (Stop, Give):
            rep.skip("%s: result is not followed" % what)
            continue

        def f(A):
            x = A.poly(b, {})
            if not x <= 1e-9:
                return "value %r" % x
        numeric(rep, p, what, key, f)


def c13(rep):
    rep.rule = ("extracted expectations: mean and mode in [0, 1], mean log "
                "weight and mean log-probability <= 0, and 0, 0, -inf at or "
                "beyond the truncation; by interval, else by random "
                "interpretation")
    ts = []
    for name in VARIATIONAL:
        for var in MODELS[name]:
            for meth in C13_RANGE:
                ts += [(c13_j, (name, var, meth, b)) for b in (False, True)]
            ts += [(c13_pdw, (name, var, b)) for b in (False, True)]
    run_tasks(rep, ts)
