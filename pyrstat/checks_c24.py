"""C24: sampler, log-density and variational family use one model.

The distribution a weighting model is documented to have is written down here
once, per model; the formulas extracted from the source (parameters of every
draw the weights are made of, log-densities, variational expectations) are
identified with it by random interpretation.
"""
import math
from . import term as T
from .term import P, Give, gt
from .vg import Num, Stop, Tup
from .vglib import draw_env
from .witness import Undefined, close, digamma, lgamma, INF
from .numscen import (World, Assignment, assignments, entries, MODELS,
                      INFINITE, VARIATIONAL, explore, count, q_entry)
from .checks_vg import (scenario, numeric, label, method_of, scalar,
                        var_paths, model_steps, SLOW, raises_at)
from .report import run_tasks


# ------------------------------------------------------- the documented model
def get(A, name, default=None):
    try:
        return A.leaf(name, ())
    except Give:
        return default


def betaln(a, b):
    return lgamma(a) + lgamma(b) - lgamma(a + b)


def log_beta(x, a, b):
    r = -betaln(a, b)
    if a != 1:
        r += (a - 1) * (math.log(x) if x > 0 else -INF)
    if b != 1:
        r += (b - 1) * (math.log(1 - x) if x < 1 else -INF)
    return r


def mix(var, A):
    """x / (1 - x) of BetaInBeta."""
    x = var.get("x")
    if x == "unit":
        x = get(A, "x")
    return x


def stick_prior(name, var, A, j):
    """Beta parameters of stick j before any assignment."""
    if name == "PitmanYorProcess":
        d = 0 if var.get("pyd") == "0" else get(A, "pyd")
        al = get(A, "A") - d
        return 1 - d, al + (j + 1) * d
    return 1, get(A, "alpha")


def one_p(name, var):
    return name == "GeometricProcess" or (
        name == "BetaInBeta" and var.get("x") == 1)


def independent(name, var):
    """Are the sticks all different draws?  None: not fixed by the model."""
    if one_p(name, var) or name == "BetaInDirichlet" and var["a"] == 0 or \
            name == "BetaBernoulli" and var["p"] == 0:
        return False
    if name in ("BetaInDirichlet", "BetaBernoulli") and \
            var.get("a", var.get("p")) not in (0, 1):
        return None
    return True


# ------------------------------------------------------- reading the formulas
class Lost(Exception):
    pass


def traced(A, f):
    """Draws the evaluation of a formula used."""
    A.touched = {}
    try:
        v = f()
        return v, list(A.touched)
    finally:
        A.touched = None


def leaf_value(A, leaf):
    return A.poly(T.Poly.atom(T.Atom(
        "draw", leaf[0], tuple(P(i) for i in leaf[1]))), {})


def dist_of(leaf):
    return T.DRAWS[leaf[0]].get("dist")


def params(A, leaf):
    d = A.draws.get(leaf[0])
    if d is None:
        raise Lost("draw is not recorded")
    env = draw_env(d, leaf[1])
    return {k: A.poly(x, env) for k, x in d.params.items()}, d, env


def sticks(A, arr):
    """[(v_j, leaf, swapped)] for a stick-breaking weight vector."""
    n = A.index(arr.shape[0].n, {})
    if arr.shape[0].filt is not None:
        raise Lost("filtered")
    va = arr.vars[0].one_atom()
    rest, out = 1.0, []
    for j in range(n):
        w, used = traced(A, lambda: A.poly(arr.body, {va: j}))
        if rest < 1e-7:
            break
        v = w / rest
        rest *= 1 - v
        hit = None
        betas = [x for x in used if dist_of(x) == "beta"]
        for leaf in betas:
            x = leaf_value(A, leaf)
            if close(x, v, 1e-8):
                hit = (v, leaf, False)
            elif close(1 - x, v, 1e-8) and hit is None:
                hit = (v, leaf, True)
        if hit is None:
            if not used:
                raise Wrong("weight %d = %r comes from no draw" % (j, w))
            raise Lost("stick %d is not one beta draw" % j)
        out.append(hit)
    return out


class Wrong(Exception):
    pass


def beta_params(A, leaf, swapped):
    q, d, env = params(A, leaf)
    a, b = q["a"], q["b"]
    return ((b, a) if swapped else (a, b)), d, env


def site(d):
    return "%s (%s)" % (d.func, d.where.split("/")[-1])


def counts(A, fitted, n):
    if not fitted:
        return [0] * n, [0] * n
    d = [A.leaf("d", (i,)) for i in range(A.sizes["n"])]
    return ([sum(1 for x in d if x == j) for j in range(n)],
            [sum(1 for x in d if x > j) for j in range(n)])


def expect(d, j, got, want):
    if not (close(got[0], want[0]) and close(got[1], want[1])):
        raise Wrong("stick %d is drawn at %s from Beta(%.6g, %.6g), the model "
                    "has Beta(%.6g, %.6g)" % ((j, site(d)) + tuple(got) +
                                              tuple(want)))


def stick_claim(A, name, var, arr, fitted):
    """Every stick has the documented distribution given the counts."""
    st = sticks(A, arr)
    n = len(st)
    na, nb = counts(A, fitted, n)
    groups = {}
    for j, (v, leaf, sw) in enumerate(st):
        groups.setdefault(leaf, []).append(j)
    want = independent(name, var)
    if want is True and len(groups) < n or want is False and len(groups) > 1:
        raise Wrong("%d different draws for %d sticks" % (len(groups), n))
    for leaf, js in groups.items():
        (a, b), d, env = beta_params(A, leaf, st[js[0]][2])
        if one_p(name, var):
            ns = sd = 0
            if fitted:
                ds = [A.leaf("d", (i,)) for i in range(A.sizes["n"])]
                ns, sd = len(ds), sum(ds)
            expect(d, js[0], (a, b), (get(A, "a") + ns, get(A, "b") + sd))
            continue
        if name == "BetaInDirichlet" and var["a"] != 0 and fitted:
            continue        # pooled over the groups of the last sweep
        ca = sum(na[j] for j in js)
        cb = sum(nb[j] for j in js)
        pa, pb = stick_prior(name, var, A, js[0])
        if name == "BetaInBeta" and var.get("x") == "unit":
            x = mix(var, A)
            c = x / (1 - x)
            if not close(a + b, pa + pb + ca + cb + c):
                raise Wrong("stick %d is drawn at %s from Beta(%.6g, %.6g): "
                            "total %.6g, the model has %.6g" % (
                                js[0], site(d), a, b, a + b,
                                pa + pb + ca + cb + c))
            p_claim(A, var, leaf, st[js[0]][2], (a - pa - ca) / c, fitted)
            continue
        if name == "BetaBinomial":
            binomial_claim(A, st, js[0], leaf, a - pa - ca, b - pb - cb,
                           fitted, na, nb)
            continue
        expect(d, js[0], (a, b), (pa + ca, pb + cb))
    return n


def p_claim(A, var, leaf, sw, p, fitted):
    """The probability the sticks of BetaInBeta lean on."""
    d = A.draws[leaf[0]]
    env = draw_env(d, leaf[1])
    key = "b" if sw else "a"
    _, used = traced(A, lambda: A.poly(d.params[key], env))
    src = [x for x in used if dist_of(x) == "beta"]
    method = var.get("p_method", "geometric")
    if not -1e-9 <= p <= 1 + 1e-9:
        raise Wrong("sticks lean on p = %r" % p)
    if not src:
        if close(p, get(A, "p0")) and (method not in (
                "geometric", "independent") and fitted):
            return
        if method in ("geometric", "independent") or not fitted:
            raise Wrong("sticks lean on p = %r, which is no draw" % p)
        return
    if len(src) > 1:
        raise Lost("several draws of p")
    if not close(leaf_value(A, src[0]), p):
        raise Wrong("sticks lean on p = %r, drawn %r" % (
            p, leaf_value(A, src[0])))
    if method not in ("geometric", "independent") and fitted:
        return
    (a, b), d, env = beta_params(A, src[0], False)
    wa, wb = get(A, "a"), get(A, "b")
    if method == "geometric" and fitted:
        ds = [A.leaf("d", (i,)) for i in range(A.sizes["n"])]
        wa, wb = wa + len(ds), wb + sum(ds)
    if not (close(a, wa) and close(b, wb)):
        raise Wrong("p is drawn at %s from Beta(%.6g, %.6g), the model has "
                    "Beta(%.6g, %.6g)" % (site(d), a, b, wa, wb))


def binomials_of(A, st, j):
    v, leaf, sw = st[j]
    d = A.draws[leaf[0]]
    env = draw_env(d, leaf[1])
    _, used = traced(A, lambda: A.poly(d.params["b" if sw else "a"], env))
    return [x for x in used if dist_of(x) == "binomial"]


def own_binomials(A, st, j):
    """Binomials of stick j, without those only their parameters use."""
    bs = binomials_of(A, st, j)
    inner = set()
    for b in bs:
        d = A.draws[b[0]]
        _, used = traced(A, lambda: A.poly(d.params["p"],
                                           draw_env(d, b[1])))
        inner |= set(used)
    return [b for b in bs if b not in inner]


def binomial_claim(A, st, j, leaf, up, down, fitted, na, nb):
    N = A.sizes["N"]
    d = A.draws[leaf[0]]
    J = 0
    if fitted:
        J = max(A.leaf("d", (i,)) for i in range(A.sizes["n"])) + 1
    tot = 2 * N if j < J else N
    bs = own_binomials(A, st, j)
    vals = [leaf_value(A, b) for b in bs]
    if not close(up + down, tot) or bs and not close(up, sum(vals)):
        raise Wrong("stick %d is drawn at %s from Beta(1 + counts + %.6g, "
                    "alpha + counts + %.6g) with binomials %r of %d trials, "
                    "the model adds them and what is left of %d" % (
                        j, site(d), up, down, vals, N, tot))
    for b in bs:
        q, bd, env = params(A, b)
        if not close(q["n"], N):
            raise Wrong("binomial drawn at %s with %r trials of %d" % (
                site(bd), q["n"], N))
    if j < J or len(bs) != 1:
        return
    q, bd, env = params(A, bs[0])
    if j == 0:
        _, used = traced(A, lambda: A.poly(bd.params["p"], env))
        src = [x for x in used if dist_of(x) == "beta"]
        if len(src) == 1:
            (a, b), d0, _ = beta_params(A, src[0], False)
            expect(d0, -1, (a, b), (1, get(A, "alpha")))
        return
    if j == J and fitted:
        if bs[0] not in binomials_of(A, st, j - 1):
            raise Wrong("stick %d does not follow from the binomial of the "
                        "stick before" % j)
    elif not close(q["p"], st[j - 1][0]):
        raise Wrong("the binomial before stick %d has probability %r, the "
                    "stick is %r" % (j, q["p"], st[j - 1][0]))


STEPS = ("random(m)", "complete(k)", "fit,random", "fit,random(m)",
         "random(m),complete(k)", "fit,random,complete(k)",
         "fit,random,reset,random(m)", "random(m),fit,random",
         "fit,random,random",
         "random(m),tail(x)")


def is_fitted(steps):
    f = False
    for s in steps.split(","):
        f = True if s == "fit" else False if s == "reset" else f
    return f


def claim(rep, p, what, key, fun, **fixed):
    """numeric() for claims that may lose track of a draw."""
    lost = []

    def f(A):
        try:
            return fun(A)
        except Wrong as ex:
            return str(ex)
        except Lost as ex:
            lost.append(str(ex))
            raise Give(str(ex))
        except AttributeError:
            raise Give("value")
    r = numeric(rep, p, what, key, f, **fixed)
    return r


def c24_sticks(rep, name, var, steps):
    w = World()
    what = label(name, var, steps)
    key = method_of(w, name, steps.split(",")[-1].split("(")[0])
    for p in scenario(rep, w, name, var, steps):
        if p.kind != "ok":
            continue
        try:
            a = p.arr(p.val.items[0])
        except (Stop, Give):
            rep.skip("%s: result is not followed" % what)
            continue
        if a.ndim != 1:
            continue
        if name == "DirichletDistribution":
            dirichlet_claim(rep, p, name, var, steps, a, what, key)
            continue
        if name in INFINITE:
            claim(rep, p, what + ": distribution of the sticks", key,
                  lambda A: stick_claim(A, name, var, a,
                                        is_fitted(steps)) and None)
            if name == "BetaInDirichlet":
                base_claim(rep, p, steps, what, key)
            if name == "BetaBernoulli" and not is_fitted(steps) and \
                    "fit" not in steps:
                bernoulli_claim(rep, p, var, what, key)
            continue

        def f(A):
            n = A.sizes["K"]
            got = entries(A, a)
            if name == "FrequencyWeighting" and is_fitted(steps):
                d = [A.leaf("d", (i,)) for i in range(A.sizes["n"])]
                want = [d.count(j) / len(d) for j in range(len(got))]
            else:
                want = [1 / n] * n
            for j in range(max(len(want), len(got))):
                g = got.get((j,), 0)
                x = want[j] if j < len(want) else 0
                if not close(g, x):
                    return "weight %d is %r, the model has %r" % (j, g, x)
        claim(rep, p, what + ": weights", key, f)


def alpha_of(A, var, j):
    return A.leaf("alpha", (j,)) if var.get("alpha") == "array" else \
        get(A, "alpha")


def dirichlet_claim(rep, p, name, var, steps, a, what, key):
    fitted = is_fitted(steps)

    def f(A):
        va = a.vars[0].one_atom()
        n = A.index(a.shape[0].n, {})
        if n != A.sizes["K"]:
            return "%d weights of %d" % (n, A.sizes["K"])
        na, _ = counts(A, fitted, n)
        for j in range(n):
            w, used = traced(A, lambda: A.poly(a.body, {va: j}))
            leafs = [x for x in used if dist_of(x) == "dirichlet"]
            if len(leafs) != 1 or not close(leaf_value(A, leafs[0]), w):
                raise Lost("not one dirichlet draw")
            q, d, env = params(A, leafs[0])
            want = alpha_of(A, var, j) + na[j]
            if not close(q["alpha"], want):
                return "weight %d is drawn at %s with parameter %.6g, the " \
                    "model has %.6g" % (j, site(d), q["alpha"], want)
    claim(rep, p, what + ": parameters of the draw", key, f)


def bernoulli_claim(rep, p, var, what, key):
    def f(A):
        for d in p.draws:
            if d.dist != "binomial":
                continue
            from .checks_vg import record_envs
            for env in record_envs(A, d, 20):
                q = {k: A.poly(x, env) for k, x in d.params.items()}
                want = get(A, "p") if var["p"] == "unit" else var["p"]
                if not (close(q["n"], 1) and close(q["p"], want)):
                    return "Bernoulli drawn at %s with n %r, p %r; the " \
                        "model has p %r" % (site(d), q["n"], q["p"], want)
    claim(rep, p, what + ": Bernoullis", key, f)


def base_claim(rep, p, steps, what, key):
    """Beta draws of the shared sticks: prior, or prior plus the counts of
    the sticks that share it.  Draws whose parameters are not followed take
    no part; a site is reported when it never has such parameters."""
    last = steps.split(",")[-1]
    fitted = is_fitted(steps)
    if fitted and last != "random":
        return              # posterior draws and extensions together
    if not fitted and "fit" in steps:
        return
    for d in p.draws:
        if d.dist != "beta":
            continue
        good = bad = 0
        msg = ""
        for A in assignments(p, tries=20, want=6):
            if fitted and A.sizes["n"] < 2:
                continue
            na, nb = counts(A, fitted, 12)
            al = get(A, "alpha")
            for env in loop_envs(A, d):
                A.tainted = False
                try:
                    q = {k: A.poly(x, env) for k, x in d.params.items()}
                except (Give, Undefined, KeyError, IndexError,
                        ZeroDivisionError):
                    continue
                if A.tainted:
                    continue
                up, down = q["a"] - 1, q["b"] - al
                ok = close(up, 0) and close(down, 0) if not fitted else \
                    any(close(up, x) and close(down, y)
                        for x, y in zip(na, nb) if x or y) or \
                    close(up, sum(na)) and close(down, sum(nb))
                if ok:
                    good += 1
                else:
                    bad += 1
                    msg = "Beta(%.6g, %.6g) with alpha %.6g and counts " \
                        "%r, %r" % (q["a"], q["b"], al, na[:4], nb[:4])
        if good or not bad:
            if good:
                rep.ok("%s: %s" % (what, site(d)))
        else:
            rep.bad(key, "%s: base stick drawn at %s from %s [%s]" % (
                what, site(d), msg, p.label()))


def loop_envs(A, d, limit=12):
    out = [{}]
    for v, n, g in d.loops:
        try:
            k = max(0, A.index(n, out[0]))
        except (Give, Undefined, KeyError):
            k = 3
        out = [dict(e, **{}) | {v.one_atom(): i} for e in out
               for i in range(k)][:limit]
    if d.vars:
        out = [e | {v.one_atom(): i for v in d.vars}
               for e in out for i in range(1)]
    return out


# --------------------------------------------------------------- log-density
def ll_spec(A, name, var, arr, steps):
    if name == "DirichletDistribution":
        xs = entries(A, arr)
        al = [alpha_of(A, var, j[0]) for j in xs]
        return [lgamma(sum(al)) - sum(map(lgamma, al)) + sum(
            (x - 1) * math.log(v) for x, v in zip(al, xs.values()))]
    st = sticks(A, arr)
    if len(st) < len(entries(A, arr)):
        raise Lost("weights too small")
    vs = [x[0] for x in st]
    if name == "GeometricProcess":
        return [log_beta(vs[0], get(A, "a"), get(A, "b"))]
    if name == "BetaInBeta":
        a, b = get(A, "a"), get(A, "b")
        if var["x"] == 1:
            return [log_beta(vs[0], a, b)]
        if var["x"] == 0:
            s = sum(log_beta(v, 1, get(A, "alpha")) for v in vs)
            return [s, s + log_beta(get(A, "p0"), a, b)]
        x = get(A, "x")
        c = x / (1 - x)
        na, _ = counts(A, is_fitted(steps), len(vs))
        (pa, pb), d, env = beta_params(A, st[0][1], st[0][2])
        p = (pa - 1 - na[0]) / c
        return [sum(log_beta(v, 1 + c * p, get(A, "alpha") + c * (1 - p))
                    for v in vs) + log_beta(p, a, b)]
    if name == "BetaInDirichlet":
        al = get(A, "alpha")
        sizes = {}
        for v, leaf, sw in st:
            sizes.setdefault(leaf, []).append(v)
        s = sum(log_beta(x[0], 1, al) for x in sizes.values())
        a0 = 0 if var["a"] == 0 else get(A, "a")
        n, k = len(vs), len(sizes)
        if a0 == 0:
            return [s if k == 1 else -INF]
        s += (k - 1) * math.log(a0) + lgamma(a0 + 1) - lgamma(a0 + n)
        return [s + sum(lgamma(len(x)) for x in sizes.values())]
    if name == "BetaBernoulli":
        al = get(A, "alpha")
        s = log_beta(vs[0], 1, al)
        pr = get(A, "p") if var["p"] == "unit" else var["p"]
        for j in range(1, len(st)):
            new = st[j][1] != st[j - 1][1]
            q = pr if new else 1 - pr
            s += math.log(q) if q > 0 else -INF
            if new:
                s += log_beta(vs[j], 1, al)
        return [s]
    if name == "BetaBinomial":
        if is_fitted(steps):
            raise Lost("binomials of a fit")
        al, N = get(A, "alpha"), A.sizes["N"]
        bs = []
        for j in range(len(st)):
            (pa, pb), d, env = beta_params(A, st[j][1], st[j][2])
            bs.append(round(pa - 1))

        def choose(b):
            return lgamma(N + 1) - lgamma(b + 1) - lgamma(N - b + 1)
        s = choose(bs[0]) + betaln(1 + bs[0], al + N - bs[0]) - betaln(1, al)
        for j, v in enumerate(vs):
            s += log_beta(v, 1 + bs[j], al + N - bs[j])
            if j + 1 < len(vs):
                b = bs[j + 1]
                s += choose(b) + b * math.log(v) + (N - b) * math.log(1 - v)
        return [s]
    s = 0
    for j, v in enumerate(vs):
        s += log_beta(v, *stick_prior(name, var, A, j))
    return [s]


def c24_ll(rep, name, var, steps):
    w = World()
    what = label(name, var, steps + ",weighting_log_likelihood")
    meth = "weighting_log_likelihood"
    key = method_of(w, name, meth)

    def then(o, r):
        return w.e.method(o, meth)
    for p in scenario(rep, w, name, var, steps, then):
        if p.kind != "ok":
            continue
        try:
            a = p.arr(p.val.items[0])
            b = scalar(p, p.val.items[1])
        except (Stop, Give):
            rep.skip("%s: result is not followed" % what)
            continue

        def f(A):
            if len(entries(A, a)) == 0:
                return
            want = ll_spec(A, name, var, a, steps)
            got = A.poly(b, {})
            if not any(close(got, x, 1e-5) for x in want):
                return "%.8g, the model has %.8g" % (got, want[0])
        claim(rep, p, what, key, f)


# --------------------------------------------------------------- variational
def elog(a, b):
    return digamma(a) - digamma(a + b)


class Spec:
    """Expectations of the variational family."""

    def __init__(self, A, name, var, d="q", n=None):
        self.A, self.name, self.var = A, name, var
        self.K = K = A.sizes["K"]
        self.n = A.sizes["n"]
        self.N = [sum(q_entry(A, (j, i), "q") for i in range(self.n))
                  for j in range(K)]
        if name in ("DirichletProcess", "PitmanYorProcess"):
            self.ab = []
            for j in range(K):
                a, b = stick_prior(name, var, A, j)
                self.ab.append((a + self.N[j], b + sum(self.N[j + 1:])))
            self.free = K - 1 if name == "DirichletProcess" else K
        elif name == "GeometricProcess":
            self.a = get(A, "a") + self.n
            self.b = get(A, "b") + sum(j * x for j, x in enumerate(self.N))
        elif name == "DirichletDistribution":
            self.al = [alpha_of(A, var, j) for j in range(K)]
            self.g = [x + y for x, y in zip(self.al, self.N)]

    def sticks(self):
        return self.name in ("DirichletProcess", "PitmanYorProcess")

    def mean(self, j):
        if self.sticks():
            r = 1.0
            for a, b in self.ab[:j]:
                r *= b / (a + b)
            a, b = self.ab[j]
            return r * a / (a + b) if j < self.free else r
        if self.name == "GeometricProcess":
            p = self.a / (self.a + self.b)
            return p * (1 - p) ** j
        if self.name == "DirichletDistribution":
            return self.g[j] / sum(self.g)
        if self.name == "EqualWeighting":
            return 1 / self.K
        return self.N[j] / sum(self.N)

    def mode1(self, a, b):
        if a <= 1 and b <= 1:
            raise Give("multimodal")
        return 0 if a <= 1 else 1 if b <= 1 else (a - 1) / (a + b - 2)

    def mode(self, j):
        if self.sticks():
            r = 1.0
            for a, b in self.ab[:j]:
                r *= 1 - self.mode1(a, b)
                if r == 0:
                    return 0
            return r * self.mode1(*self.ab[j]) if j < self.free else r
        if self.name == "GeometricProcess":
            p = self.mode1(self.a, self.b)
            return p * (1 - p) ** j
        if self.name == "DirichletDistribution":
            return self.mode1(self.g[j], sum(self.g) - self.g[j])
        return self.mean(j)

    def log(self, j):
        if self.sticks():
            r = sum(elog(b, a) for a, b in self.ab[:j])
            return r + elog(*self.ab[j]) if j < self.free else r
        if self.name == "GeometricProcess":
            return elog(self.a, self.b) + j * elog(self.b, self.a)
        if self.name == "DirichletDistribution":
            return digamma(self.g[j]) - digamma(sum(self.g))
        return math.log(self.mean(j))

    def logs(self, ab, prior):
        """E log Beta(v; prior) under Beta(v; ab)."""
        (a, b), (x, y) = ab, prior
        return (x - 1) * elog(a, b) + (y - 1) * elog(b, a) - betaln(x, y)

    def log_p(self, q=False):
        if self.sticks():
            return sum(self.logs(self.ab[j], self.ab[j] if q else stick_prior(
                self.name, self.var, self.A, j)) for j in range(self.free))
        if self.name == "GeometricProcess":
            ab = (self.a, self.b)
            return self.logs(ab, ab if q else (get(self.A, "a"),
                                               get(self.A, "b")))
        if self.name == "DirichletDistribution":
            al = self.g if q else self.al
            return lgamma(sum(al)) - sum(map(lgamma, al)) + sum(
                (x - 1) * self.log(j) for j, x in enumerate(al))
        return 0

    def log_q(self):
        return self.log_p(True)

    def log_d(self, other):
        name, n = ("q2", self.A.sizes["n2"]) if other else ("q", self.n)
        return sum(q_entry(self.A, (j, i), name) * self.log(j)
                   for j in range(self.K) for i in range(n))


def c24_var(rep, name, var, meth, what_):
    """One variational query against the specification."""
    w = World()
    what = label(name, var, "%s(%s)" % (meth, what_))
    key = method_of(w, name, meth)
    j = T.symbol("j", lo=0, integer=True)
    K = w.K
    fixed = {}

    def call(o):
        args = []
        if what_ == "j":
            w.e.facts.append(gt(K, j))
            args = [Num(j, "i")]
        elif what_ == "q2":
            args = [w.q("q2", count("n2").p)]
        return w.e.method(o, meth, *args)
    if what_ == "j":
        fixed = dict(j=lambda r: r.choice([0, 0, 1, 2, 3]))
    for p in var_paths(rep, w, name, var, what, call):
        if p.kind == "raise":
            if meth == "variational_mode_w_j" and p.val.name == "ValueError":
                continue
            raises_at(rep, p, what, key, fixed)
            continue
        try:
            b = scalar(p, p.val)
        except (Stop, Give):
            rep.skip("%s: result is not followed" % what)
            continue

        def f(A):
            if what_ == "j" and not A.cond(gt(K, j), {}):
                raise Give("inadmissible")
            s = Spec(A, name, var)
            at = A.sizes.get("j")
            want = {"variational_mean_w_j": lambda: s.mean(at),
                    "variational_mode_w_j": lambda: s.mode(at),
                    "variational_mean_log_w_j": lambda: s.log(at),
                    "variational_mean_log_p_w": s.log_p,
                    "variational_mean_log_q_w": s.log_q,
                    "variational_mean_log_p_d__w":
                        lambda: s.log_d(what_ == "q2")}[meth]()
            got = A.poly(b, {})
            if not close(got, want, 1e-5):
                return "%.8g, the variational family has %.8g" % (got, want)
        claim(rep, p, what, key, f, **fixed)


def c24(rep):
    rep.rule = ("parameters of every draw the weights are made of = prior "
                "parameters + counts; log-density and variational "
                "expectations = those of the same distributions; by random "
                "interpretation of the extracted formulas")
    ts = model_steps(c24_sticks, STEPS)
    ts += model_steps(c24_ll, ("random(m)", "fit,random", "fit,random(m)",
                               "random(m),complete(k)"),
                      [n for n in MODELS if n not in (
                          "EqualWeighting", "FrequencyWeighting")])
    for name in VARIATIONAL:
        for var in MODELS[name]:
            for meth, how in (
                    ("variational_mean_w_j", "j"),
                    ("variational_mode_w_j", "j"),
                    ("variational_mean_log_w_j", "j"),
                    ("variational_mean_log_p_w", ""),
                    ("variational_mean_log_q_w", ""),
                    ("variational_mean_log_p_d__w", ""),
                    ("variational_mean_log_p_d__w", "q2")):
                ts.append((c24_var, (name, var, meth, how)))
    from .checks_c24g import c24_guided, HISTORIES
    ts += [(c24_guided, (name, var, h)) for name in MODELS
           for var in MODELS[name] for h in HISTORIES]
    run_tasks(rep, sorted(ts, key=lambda t: t[1][0] not in SLOW))
