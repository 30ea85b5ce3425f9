"""C24, second part: histories of calls for a given partition.

The number of observations per component is fixed, everything else (the
parameters, the draws) stays symbolic.  Branches on latent variables follow
one side, picked at random, so that the parameters of every draw are formulas
of the latent variables drawn before it.  A sweep of latent variables is
accepted when some order of visiting them explains every draw.
"""
import math
from . import term as T
from .term import P, Give
from .vg import Num, Stop, Tup, PyRaise, NONE
from .vglib import draw_env
from .witness import Undefined, close, INF, lgamma
from .numscen import (World, Assignment, entries, MODELS, explore, INFINITE)
from .checks_vg import method_of
from .checks_c24 import (Lost, Wrong, get, sticks, stick_claim, betaln, site,
                         leaf_value, traced, dist_of, alpha_of)


class Given(Assignment):
    """An assignment with the components of the observations given."""
    ds = ()

    def leaf(self, name, idx):
        if name == "d" and idx:
            return self.ds[idx[0]]
        return Assignment.leaf(self, name, idx)

    def given(self, ds):
        self.ds = tuple(ds)
        self.sizes["n"] = len(ds)
        self.memo.clear()


D1 = (0, 1, 0, 2, 1)
D2 = (1, 0, 3, 0, 3, 2, 1, 0)
D3 = (0, 0, 2)
D4 = (1, 1)
HISTORIES = (
    (("fit", D1), ("random",)),
    (("fit", D2), ("random",), ("complete", 6)),
    (("random", 3), ("fit", D1), ("random",)),
    (("random", 4), ("fit", D3), ("random",), ("complete", 5)),
    (("fit", D1), ("random",), ("random",)),
    (("fit", D1), ("random",), ("fit", D2), ("random",)),
    (("fit", D2), ("random",), ("fit", D3), ("random",)),
    (("fit", D1), ("random", 5), ("random", 4)),
    (("fit", D4), ("random", 3)),
    (("fit", D2), ("random",), ("reset",), ("random", 4)),
    (("random", 2), ("complete", 5), ("random", 3)),
    (("random", 1), ("complete", 4), ("fit", D4), ("random", 4)),
)


def text(h):
    return ",".join(s[0] + ("(%s)" % (list(s[1]) if s[0] == "fit" else s[1])
                            if len(s) > 1 else "") for s in h)


def history(name, var, h, seed):
    """(path, assignment, [(draws before, marks before, result)])."""
    w = World()
    e = w.e
    K = 4
    N = 1 + seed % 3
    bounds = []

    def fresh():
        A = Given(seed, {"N": N, "K": K})
        A.draws = {d.id: d for d in e.draws}
        A.alias = {d.id: ("#", k) for k, d in enumerate(e.draws)}
        A.work = 4000000
        return A

    def guide(c):
        return bool(fresh().cond(c, {}))

    def fix(f):
        try:
            return f(fresh())
        except (Give, Undefined, KeyError):
            return None
    e.guide, e.fix = guide, fix

    def go():
        del bounds[:]
        o = w.build(name, var)
        for s in h:
            bounds.append([len(e.draws), len(e.marks), NONE])
            args = [e.list_([Num(P(x), "i") for x in s[1]])] \
                if s[0] == "fit" else [Num(P(x), "i") for x in s[1:]]
            bounds[-1][2] = e.method(o, s[0], *args)
        return Tup([b[2] for b in bounds])
    ps = explore(w, go)
    if len(ps) != 1:
        raise Stop("several paths")
    p = ps[0]
    A = Given(seed, {"N": N, "K": K}, draws=p.draws)
    A.alias = {d.id: ("#", k) for k, d in enumerate(p.draws)}
    A.work = 40000000
    bounds.append([len(p.draws), len(p.snap.marks), NONE])
    return p, A, bounds


# -------------------------------------------------------------- one call
def events(A, draws, dist):
    """Draws of one family in order, one entry each: (draw, params, value,
    entry)."""
    out = []
    for d in draws:
        if d.dist != dist:
            continue
        if d.loops:
            raise Lost("draw in a loop that is not followed")
        if getattr(d, "unknown", False):
            raise Lost("unknown parameters")
        idx = [()]
        for a in d.shape:
            if a.filt is not None:
                raise Lost("filtered")
            n = A.index(a.n, {})
            idx = [x + (i,) for x in idx for i in range(n)]
        for x in idx:
            env = draw_env(d, x)
            out.append((d, {k: A.poly(v, env) for k, v in d.params.items()},
                        leaf_value(A, (d.id, x)), (d.id, x)))
    return out


def tallies(ds):
    J = max(ds) + 1
    return ([sum(1 for x in ds if x == j) for j in range(J)],
            [sum(1 for x in ds if x > j) for j in range(J)])


# ---------------------------------------------------------- BetaBernoulli
def log_blocks(cfg, a, b, al):
    """log marginal of the counts when stick j is new iff cfg[j]."""
    r, x, y = 0.0, 0, 0
    for j in range(len(cfg) + 1):
        if j == len(cfg) or j and cfg[j]:
            r += betaln(1 + x, al + y) - betaln(1, al)
            x = y = 0
        if j < len(cfg):
            x += a[j]
            y += b[j]
    return r


def bernoulli_p(cfg, j, a, b, al, p):
    one, two = list(cfg), list(cfg)
    one[j], two[j] = 1, 0
    x = math.log(p) + log_blocks(one, a, b, al)
    y = math.log(1 - p) + log_blocks(two, a, b, al)
    return 1 / (1 + math.exp(y - x)) if y - x < 700 else 0.0


def bernoulli_sweep(A, var, draws, ds, old, new):
    """The latent variables of one call; old, new: which sticks were (are)
    new, as far as known."""
    p = get(A, "p") if var["p"] == "unit" else var["p"]
    ev = events(A, draws, "binomial")
    if any(d.dist in ("uniform", "random") for d in draws) or not ev:
        raise Lost("latent variables are not binomial")
    for d, q, v, x in ev:
        if not close(q["n"], 1):
            raise Wrong("latent variable drawn at %s with %r trials" % (
                site(d), q["n"]))
    if p in (0, 1):
        for d, q, v, x in ev:
            if not close(q["p"], p):
                raise Wrong("latent variable drawn at %s with p %r, the "
                            "model has %r" % (site(d), q["p"], p))
        return 0
    if not ds:
        for d, q, v, x in ev:
            if not close(q["p"], p):
                raise Wrong("latent variable drawn at %s with p %r, the "
                            "model has %r" % (site(d), q["p"], p))
        return len(ev)
    a, b = tallies(ds)
    J = len(a)
    al = get(A, "alpha")
    posts = [(d, q["p"], int(v)) for d, q, v, x in ev
             if not close(q["p"], p, 1e-9)]
    starts = [[1]]
    for j in range(1, J):
        starts = [s + [x] for s in starts for x in
                  ([old[j]] if old is not None and j < len(old) else [0, 1])]
    best = [0, None]

    def search(cfg, k, left):
        if k > best[0] or best[1] is None:
            best[0], best[1] = k, (tuple(cfg), tuple(left))
        if k == len(posts):
            return not left and all(
                x == y for x, y in zip(cfg[1:], (new or cfg)[1:]))
        d, pp, v = posts[k]
        for j in left:
            if close(bernoulli_p(cfg, j, a, b, al, p), pp, 1e-7):
                c2 = list(cfg)
                c2[j] = v
                if search(c2, k + 1, [x for x in left if x != j]):
                    return True
        return False
    for s in starts:
        if search(s, 0, list(range(1, J))):
            return len(posts)
    k = best[0]
    if k < len(posts):
        d, pp, v = posts[k]
        raise Wrong("latent variable drawn at %s with p %.6g; no stick has "
                    "this probability given the others and the counts %r, %r"
                    % (site(d), pp, a, b))
    if best[1][1]:
        raise Wrong("%d latent variables of %d are drawn given the counts"
                    % (len(posts), J - 1))
    raise Wrong("the weights do not follow the latent variables drawn")


def grouping(A, arr):
    """Which sticks are new draws."""
    st = sticks(A, arr)
    if len(st) < A.index(arr.shape[0].n, {}):
        raise Lost("weights too small")
    return [1] + [int(st[j][1] != st[j - 1][1]) for j in range(1, len(st))]


# --------------------------------------------------------- BetaInDirichlet
def picks(A, draws, marks):
    """Discrete choices: (position, probabilities, chosen, mark)."""
    out = []
    for m in marks:
        if not isinstance(m, dict) or m.get("kind") not in ("choice",
                                                            "argmax"):
            continue
        n = A.index(m["n"], {})
        if m["kind"] == "choice":
            if m["p"] is None:
                ps = [1 / n] * n
            else:
                v = m["p"].vars[0].one_atom()
                ps = [A.poly(m["p"].body, {v: i}) for i in range(n)]
        else:
            v = m["v"].one_atom()
            ls = []
            for i in range(n):
                s, used = traced(A, lambda: A.poly(m["body"], {v: i}))
                us = [x for x in used if dist_of(x) in (
                    "uniform", "random", "gumbel")]
                if s == -INF:
                    ls.append(-INF)
                    continue
                if len(us) != 1:
                    raise Lost("choice is not a Gumbel maximum")
                u = leaf_value(A, us[0])
                ls.append(s - (u if dist_of(us[0]) == "gumbel" else
                               -math.log(-math.log(u))))
            top = max(ls)
            ps = [math.exp(x - top) for x in ls]
        s = sum(ps)
        out.append((m["at"], [x / s for x in ps], m["val"], m))
    return out


def same_bag(xs, ys):
    xs = sorted(x for x in xs if x > 1e-300)
    ys = sorted(y for y in ys if y > 1e-300)
    return len(xs) == len(ys) and all(close(x, y, 1e-7)
                                      for x, y in zip(xs, ys))


def position(d, draws):
    return next(k for k, x in enumerate(draws) if x is d)


class Trace:
    """Draws of base sticks and choices of one call, in order."""

    def __init__(self, A, p, lo, hi):
        ds = p.draws[lo[0]:hi[0]]
        self.ev = []
        for d, q, v, x in events(A, ds, "beta"):
            self.ev.append((position(d, p.draws) + 0.5, "beta", q, v, x, d))
        for at, ps, val, m in picks(A, ds, p.snap.marks[lo[1]:hi[1]]):
            self.ev.append((at, "pick", ps, val, None, m))
        self.ev.sort(key=lambda t: t[0])


def partitions(n):
    if n == 0:
        yield []
        return
    for p in partitions(n - 1):
        for k in range(max(p, default=-1) + 2):
            yield p + [k]


def mark_site(m):
    return "%s (%s)" % (m["func"], m["where"].split("/")[-1])


def sweep_base(A, var, tr, ds, old, st):
    """One sweep over the groups of the sticks; st: the sticks it ends in
    (value, entry); old: groups before it."""
    al, conc = get(A, "alpha"), get(A, "a")
    a, b = tallies(ds)
    J = len(a)
    ev = tr.ev
    why = ["", -1]

    def note(k, msg):
        if k > why[1]:
            why[:] = [msg, k]

    def post(js):
        return 1 + sum(a[j] for j in js), al + sum(b[j] for j in js)

    def is_beta(k, js):
        q = ev[k][2]
        x, y = post(js)
        return close(q["a"], x) and close(q["b"], y)

    def begin(part):
        """Posterior draws of the groups, in any order."""
        groups = {}
        for j, g in enumerate(part):
            groups.setdefault(g, []).append(j)
        left = [tuple(x) for x in groups.values()]
        state = {}
        k = 0

        def go(k, left, state):
            if k < len(ev) and ev[k][1] == "beta":
                for g in left:
                    if is_beta(k, g):
                        s2 = dict(state)
                        for j in g:
                            s2[j] = ev[k][3]
                        r = go(k + 1, [x for x in left if x != g], s2)
                        if r:
                            return r
                if is_beta(k, ()):      # a group without sticks
                    return go(k + 1, left, state)
                note(k, "base stick drawn at %s from Beta(%.6g, %.6g)" % (
                    site(ev[k][5]), ev[k][2]["a"], ev[k][2]["b"]))
                return False
            if left:
                note(k, "%d groups are not drawn" % len(left))
                return False
            return visit(k, state, list(range(J)))
        return go(k, left, state)

    def visit(k, state, left):
        if k == len(ev) or not left:
            if left:
                note(k, "%d sticks of %d are given a group" % (
                    J - len(left), J))
                return False
            ok = len(st) >= J and all(close(st[j], state[j], 1e-9)
                                      for j in range(J))
            if not ok:
                note(k, "the weights do not follow the groups drawn")
            return ok
        if ev[k][1] != "pick":
            note(k, "base stick drawn at %s from Beta(%.6g, %.6g)" % (
                site(ev[k][5]), ev[k][2]["a"], ev[k][2]["b"]))
            return False
        ps, val = ev[k][2], ev[k][3]
        for j in left:
            sizes = {}
            for i, v in state.items():
                if i != j:
                    sizes[v] = sizes.get(v, 0) + 1
            opt = [(math.log(c) + a[j] * math.log(v)
                    + b[j] * math.log(1 - v), v) for v, c in sizes.items()]
            opt.append((math.log(conc) + math.log(al)
                        + betaln(1 + a[j], al + b[j]), None))
            top = max(x for x, v in opt)
            tot = sum(math.exp(x - top) for x, v in opt)
            opt = [(math.exp(x - top) / tot, v) for x, v in opt]
            if not same_bag(ps, [x for x, v in opt]):
                continue
            x, v = min(opt, key=lambda t: abs(t[0] - ps[val]))
            s2, k2 = dict(state), k + 1
            if v is None:
                if k2 == len(ev) or ev[k2][1] != "beta" or \
                        not is_beta(k2, (j,)):
                    note(k2, "a new group is not drawn given its counts"
                         + (": Beta(%.6g, %.6g) at %s" % (
                             ev[k2][2]["a"], ev[k2][2]["b"], site(ev[k2][5]))
                            if k2 < len(ev) and ev[k2][1] == "beta" else ""))
                    continue
                v = ev[k2][3]
                k2 += 1
            s2[j] = v
            if visit(k2, s2, [y for y in left if y != j]):
                return True
        note(k, "group chosen at %s with probabilities %s, of no stick given "
             "the others" % (mark_site(ev[k][5]), ", ".join(
                 "%.5g" % x for x in ps)))
        return False
    parts = list(partitions(J))
    if old is not None:
        m = min(J, len(old))
        parts = [p for p in parts if all(
            (p[i] == p[j]) == (old[i] == old[j])
            for i in range(m) for j in range(i))]
    for part in parts:
        if begin(part):
            return len(ev)
    raise Wrong(why[0])


def grow_base(A, tr, st, have, pool, early):
    """Choices that extend the sticks; have: values before."""
    al, conc = get(A, "alpha"), get(A, "a")
    state = list(have)
    n = 0
    if not have:
        pool[:] = []
    # pool: a first base stick that counts once before any stick has it: the
    # sticks after it are distributed as without it
    k = 0
    ev = tr.ev

    def new(k):
        q = ev[k][2]
        return close(q["a"], 1) and close(q["b"], al)
    if not state:
        if not ev or ev[0][1] != "beta" or not new(0):
            raise Wrong("the first base stick is not drawn from Beta(1, "
                        "alpha)")
        # a first stick with no choice, or one a first choice may return
        first = ev[0][3]
        k = 1
        pool[:] = [first]
        if not (early and k < len(ev) and ev[k][1] == "pick"):
            state, pool[:] = [first], []
    while k < len(ev):
        if ev[k][1] != "pick":
            raise Wrong("base stick drawn at %s although no group is new" %
                        site(ev[k][5]))
        sizes = {}
        for v in state + pool:
            sizes[v] = sizes.get(v, 0) + 1
        tot = len(state + pool) + conc
        opt = [(c / tot, v) for v, c in sizes.items()] + [(conc / tot, None)]
        ps, val = ev[k][2], ev[k][3]
        if not same_bag(ps, [x for x, v in opt]):
            raise Wrong("group chosen at %s with probabilities %s, the model "
                        "has %s" % (mark_site(ev[k][5]), ", ".join(
                            "%.5g" % x for x in ps), ", ".join(
                                "%.5g" % x for x, v in opt)))
        near = [v for x, v in opt if close(x, ps[val], 1e-9)]
        k += 1
        n += 1
        pos = len(state)
        if None in near and k < len(ev) and ev[k][1] == "beta":
            if not new(k):
                raise Wrong("new base stick drawn at %s from Beta(%.6g, "
                            "%.6g)" % (site(ev[k][5]), ev[k][2]["a"],
                                       ev[k][2]["b"]))
            v = ev[k][3]
            k += 1
        else:
            if pos >= len(st):
                raise Lost("more choices than sticks")
            v = next((x for x in near if x is not None and
                      close(x, st[pos], 1e-9)), None)
            if v is None:
                raise Wrong("stick %d is not the base stick chosen" % pos)
        state.append(v)
    for x, y in zip(state, st):
        if not close(x, y, 1e-9):
            raise Wrong("the weights do not follow the groups drawn")
    return n


def stick_values(A, arr):
    st = sticks(A, arr)
    if len(st) < A.index(arr.shape[0].n, {}):
        raise Lost("weights too small")
    return [1 - leaf_value(A, f) if sw else leaf_value(A, f)
            for v, f, sw in st]


# ------------------------------------------------------------------- checks
def one_history(name, var, h, seed):
    """[(step, what, problem or None, obligations)]; Stop when lost."""
    p, A, bounds = history(name, var, h, seed)
    if p.kind == "raise":
        return [(0, "raises", "%s at %s" % (p.val.name, p.val.where), 1)]
    if p.kind != "ok" or not p.admits(A):
        raise Stop("history is not followed")
    out = []
    ds, old, oldv = (), None, None
    drawn = False               # weights exist
    pool = []
    for k, s in enumerate(h):
        if s[0] == "fit":
            ds = s[1]
            A.given(ds)
            continue
        if s[0] == "reset":
            ds, old = (), None
            A.given(ds)
            A.sizes["n"] = 0
            drawn = False
            continue
        full = s[0] == "random" or not drawn
        drawn = True
        lo, hi = bounds[k], bounds[k + 1]
        try:
            arr = p.arr(bounds[k][2])
        except (Stop, Give):
            out.append((k, s[0], None, 0))
            continue
        part = [lambda: weights(A, name, var, arr, ds)]
        if name == "BetaBernoulli":
            part.append(lambda: bernoulli_step(A, p, var, lo, hi, ds if
                        full else (), old, arr))
        if name == "BetaInDirichlet" and var["a"] != 0:
            part.append(lambda: base_step(A, p, var, lo, hi, full, ds,
                                          old, oldv, pool, arr))
        for f in part:
            try:
                out.append((k, s[0], None, f() or 0))
            except Wrong as ex:
                out.append((k, s[0], str(ex), 1))
            except (Lost, Give, Undefined, KeyError, IndexError,
                    ZeroDivisionError, ValueError) as ex:
                out.append((k, s[0], None, 0))
        old = oldv = None
        try:
            if name == "BetaBernoulli":
                old = grouping(A, arr)
            elif name == "BetaInDirichlet":
                oldv = stick_values(A, arr)
                old = [oldv.index(v) for v in oldv]
        except (Lost, Wrong, Give, Undefined, KeyError):
            pass
    return out


def weights(A, name, var, arr, ds):
    if name in INFINITE:
        return stick_claim(A, name, var, arr, bool(ds))
    got = entries(A, arr)
    n = A.sizes["K"]
    if name == "DirichletDistribution":
        a = [ds.count(j) for j in range(n)]
        if len(got) != n:
            raise Wrong("%d weights of %d" % (len(got), n))
        va = arr.vars[0].one_atom()
        for j in range(n):
            w, used = traced(A, lambda: A.poly(arr.body, {va: j}))
            leafs = [x for x in used if dist_of(x) == "dirichlet"]
            if len(leafs) != 1 or not close(leaf_value(A, leafs[0]), w):
                raise Lost("not one dirichlet draw")
            d = A.draws[leafs[0][0]]
            x = A.poly(d.params["alpha"], draw_env(d, leafs[0][1]))
            want = alpha_of(A, var, j) + a[j]
            if not close(x, want):
                raise Wrong("weight %d is drawn at %s with parameter %.6g, "
                            "the model has %.6g" % (j, site(d), x, want))
        return n
    if name == "FrequencyWeighting" and ds:
        want = [ds.count(j) / len(ds) for j in range(max(
            max(ds) + 1, len(got)))]
    else:
        want = [1 / n] * max(n, len(got))
    for j, x in enumerate(want):
        if not close(got.get((j,), 0), x):
            raise Wrong("weight %d is %r, the model has %r" % (
                j, got.get((j,), 0), x))
    return len(want)


def bernoulli_step(A, p, var, lo, hi, ds, old, arr):
    new = grouping(A, arr)
    return bernoulli_sweep(A, var, p.draws[lo[0]:hi[0]], ds, old, new)


def base_step(A, p, var, lo, hi, full, ds, old, oldv, pool, arr):
    st = stick_values(A, arr)
    tr = Trace(A, p, lo, hi)
    if full and ds:
        pool[:] = []
        return sweep_base(A, var, tr, ds, old, st)
    have = [] if full else oldv or []
    keep = list(pool)
    try:
        return grow_base(A, tr, st, have, pool, True)
    except Wrong:
        if have:
            raise
        pool[:] = keep
        return grow_base(A, tr, st, have, pool, False)


def c24_guided(rep, name, var, h):
    what = "%s%s.%s" % (name, "" if not var else "(%s)" % ",".join(
        "%s=%s" % x for x in sorted(var.items())), text(h))
    old = T.FOLD[0]
    T.FOLD[0] = 16
    try:
        for seed in range(3):
            try:
                r = one_history(name, var, h, seed + 1)
            except (Stop, Give, PyRaise, Undefined, KeyError):
                rep.skip("%s: history is not followed" % what)
                return
            for k, step, msg, n in r:
                if msg:
                    w = World()
                    rep.bad(method_of(w, name, step if step != "raises" else
                                      h[-1][0]),
                            "%s, call %d: %s" % (what, k + 1, msg))
                    return
                for i in range(n):
                    rep.ok("%s, call %d" % (what, k + 1))
    finally:
        T.FOLD[0] = old
