"""Assignments that tell two formulas apart.

Used only as a guard: two value numbers that differ are reported as different
when some admissible assignment of the symbols separates them (polynomial
identity testing), so an incomplete normal form never raises an alarm.
"""
import hashlib
import math
from .term import (Atom, Poly, P, SYM, DRAWS, INF, Give)


def h01(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return (int.from_bytes(d, "big") + 0.5) / 2.0 ** 64


def digamma(x):
    if x <= 0:
        if x == math.floor(x):
            return float("nan")
        return digamma(1 - x) - math.pi / math.tan(math.pi * x)
    r = 0.0
    while x < 8:
        r -= 1 / x
        x += 1
    f = 1 / (x * x)
    return r + math.log(x) - 0.5 / x - f * (
        1 / 12 - f * (1 / 120 - f * (1 / 252 - f * (
            1 / 240 - f * (1 / 132 - f * 691 / 32760)))))


def lgamma(x):
    if x <= 0 and x == math.floor(x):
        return INF
    return math.lgamma(x)


def det(m):
    m = [r[:] for r in m]
    n, d = len(m), 1.0
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(m[r][i]))
        if m[p][i] == 0:
            return 0.0
        if p != i:
            m[p], m[i] = m[i], m[p]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, n):
            f = m[r][i] / m[i][i]
            for c in range(i, n):
                m[r][c] -= f * m[i][c]
    return d


def inverse(m):
    n = len(m)
    a = [r[:] + [1.0 if i == j else 0.0 for j in range(n)]
         for i, r in enumerate(m)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(a[r][i]))
        if a[p][i] == 0:
            raise Undefined("singular matrix")
        a[p], a[i] = a[i], a[p]
        f = a[i][i]
        a[i] = [x / f for x in a[i]]
        for r in range(n):
            if r != i and a[r][i]:
                f = a[r][i]
                a[r] = [x - f * y for x, y in zip(a[r], a[i])]
    return [r[n:] for r in a]


def cholesky(m):
    n = len(m)
    L = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = m[i][j] - sum(L[i][k] * L[j][k] for k in range(j))
            if i == j:
                if s <= 0:
                    raise Undefined("not positive definite")
                L[i][i] = math.sqrt(s)
            else:
                L[i][j] = s / L[j][j]
    return L


UNSURE = ("havoc", "acc", "length", "unknown")


class Undefined(Exception):
    pass


class Assignment:
    """Numbers for every symbol, reproducible from a seed."""

    def __init__(self, seed, sizes=None, limit=2000000, draws=()):
        self.draws = {d.id: d for d in draws}
        self.seed = seed
        self.sizes = dict(sizes or {})
        self.memo = {}
        self.work = limit
        self.tainted = False     # a value the analysis does not know was used
        self.alias = {}          # draw -> its place in the sequence
        self.touched = None      # draws used, in order, when traced
        self.once = False        # a trace names each draw once

    # -------------------------------------------------------- leaves
    def leaf(self, name, idx):
        if not idx and name in self.sizes:
            return self.sizes[name]
        s = SYM.get(name)
        if s is None:
            raise Give("no symbol %s" % name)
        if s["gen"] is not None:
            return s["gen"](self, idx)
        return self.between(s, (name,) + tuple(idx))

    def uniform(self, *key):
        return h01(self.seed, *key)

    def between(self, s, key):
        u = h01(self.seed, *key)
        lo, hi = s.get("lo", -INF), s.get("hi", INF)
        if s.get("int"):
            lo = 0 if lo == -INF else int(math.ceil(lo))
            if hi == INF:
                return lo + int(u * 4)
            return min(int(hi), lo + int(u * (hi - lo + 1)))
        if lo > -INF and hi < INF:
            return lo + (hi - lo) * (0.02 + 0.96 * u)
        if lo > -INF:
            return lo + 0.05 + 3.0 * u * u + u
        if hi < INF:
            return hi - 0.05 - 3.0 * u * u - u
        return (u - 0.5) * 6

    def psd(self, key, i, j, dim=None):
        n = 1 + max(i, j, (dim or 1) - 1)
        n = max(n, 4)
        def b(r, c):
            return (h01(self.seed, key, r, c) - 0.5) * 1.6 + (r == c)
        return sum(b(i, k) * b(j, k) for k in range(n)) + (
            0.3 if i == j else 0.0)

    # -------------------------------------------------------- formulas
    def __call__(self, p, env=()):
        return self.poly(P(p), dict(env))

    def poly(self, p, env):
        tot = 0.0
        for m, c in p.t.items():
            x = float(c) if c.denominator != 1 else int(c)
            # gates first: an impossible case is not evaluated
            zero = False
            for a, e in m:
                if a.op == "ind" and not self.cond(a.args[0], env):
                    zero = True
                    break
            if zero:
                continue
            for a, e in m:
                if a.op == "ind":
                    continue
                v = self.atom(a, env)
                if e != 1:
                    v = self.power(v, e)
                x = x * v
            tot = tot + x
        return tot

    def power(self, v, e):
        try:
            if e.denominator == 1 if hasattr(e, "denominator") else \
                    float(e).is_integer():
                if v == 0 and e < 0:
                    return float("nan")
                return float(v) ** int(e)
            if v < 0:
                return float("nan")
            if v == 0 and e < 0:
                return INF
            return float(v) ** float(e)
        except OverflowError:
            return INF

    def atom(self, a, env):
        self.work -= 1
        if self.work < 0:
            raise Give("formula too large to evaluate")
        if a.op == "iv":
            try:
                return env[a]
            except KeyError:
                raise Give("free index")
        fr = a.free
        if fr:
            key = (a, tuple(sorted((v.uid, env[v]) for v in fr
                                   if v in env)))
        else:
            key = a
        if (self.touched is None or self.once) and key in self.memo:
            return self.memo[key]
        r = self._atom(a, env)
        self.memo[key] = r
        return r

    def _atom(self, a, env):
        op, g = a.op, a.args
        if op == "sym":
            return self.leaf(g[0], ())
        if op == "el":
            return self.leaf(g[0], tuple(self.index(x, env) for x in g[1]))
        if op == "inf":
            return INF
        if op in ("grp", "pow"):
            return self.poly(g[0], env)
        if op == "powv":
            return self.power(self.poly(g[0], env), self.poly(g[1], env))
        if op == "ind":
            return 1 if self.cond(g[0], env) else 0
        if op == "ite":
            return self.poly(g[1] if self.cond(g[0], env) else g[2], env)
        if op in ("sum", "prod", "max", "min", "median", "any", "argmax"):
            return self.binder(op, g, env)
        if op in ("inv", "logdet", "chol"):
            return self.matrix(a, env)
        if op == "fn":
            return self.function(g[0], [self.poly(x, env) for x in g[1]])
        if op in ("draw", "opq"):
            idx = tuple(self.index(x, env) for x in g[1])
            d = DRAWS.get(g[0], {})
            if d.get("dist") in UNSURE:
                self.tainted = True
            elif op == "draw" and self.touched is not None:
                self.touched.setdefault((g[0], idx))
            if d.get("gen"):
                return d["gen"](self, idx, env)
            return self.between(d, (op, self.alias.get(g[0], g[0])) + idx)
        raise Give("evaluate %s" % op)

    def index(self, p, env):
        v = self.poly(p, env)
        if isinstance(v, float):
            if v != v or v != math.floor(v):
                raise Give("fractional index")
            v = int(v)
        return v

    def binder(self, op, g, env):
        d, hi, body = g
        n = self.index(hi, env)
        v = Atom("iv", ("b", d))
        if n > 4000:
            raise Give("range too large")
        if op == "sum":
            r = 0.0
        elif op == "prod":
            r = 1.0
        else:
            r = None
        best = None
        env = dict(env)
        if op == "median":
            xs = sorted(self.poly(body, {**env, v: i}) for i in range(n))
            if not xs:
                raise Undefined("median of nothing")
            return (xs[(n - 1) // 2] + xs[n // 2]) / 2
        for i in range(n):
            env[v] = i
            x = self.poly(body, env)
            if op == "sum":
                r += x
            elif op == "prod":
                r *= x
            elif op == "any":
                r = max(r or 0, 1 if x else 0)
            elif op == "argmax":
                if r is None or x > best:
                    r, best = i, x
            elif op == "max":
                r = x if r is None else max(r, x)
            else:
                r = x if r is None else min(r, x)
        if r is None:
            if op == "any":
                return 0
            if op == "max":
                return -INF
            raise Undefined("maximum of nothing")
        return r

    def matrix(self, a, env):
        op, g = a.op, a.args
        d, nn, body = g[:3]
        n = self.index(nn, env)
        fr = frozenset(x for x in body.free() if x in env)
        key = ("matrix", op, d, body, n, tuple(sorted(
            (v.uid, env[v]) for v in fr)))
        if key not in self.memo:
            v, w = Atom("iv", ("b", d)), Atom("iv", ("b", d, 1))
            e2 = dict(env)
            m = []
            for i in range(n):
                e2[v] = i
                row = []
                for j in range(n):
                    e2[w] = j
                    row.append(float(self.poly(body, e2)))
                m.append(row)
            if op == "inv":
                r = inverse(m)
            elif op == "chol":
                r = cholesky(m)
            else:
                x = det(m)
                r = math.log(abs(x)) if x else -INF
            self.memo[key] = r
        r = self.memo[key]
        if op == "logdet":
            return r
        i, j = self.index(g[3], env), self.index(g[4], env)
        if not (0 <= i < n and 0 <= j < n):
            raise Undefined("matrix index")
        return r[i][j]

    def function(self, n, x):
        a = x[0] if x else None
        try:
            if n == "exp":
                return math.exp(a) if a < 700 else INF
            if n == "log":
                if a > 0:
                    return math.log(a) if a < INF else INF
                return -INF if a == 0 else float("nan")
            if n == "digamma":
                return digamma(a)
            if n == "loggamma":
                return lgamma(a)
            if n == "abs":
                return abs(a)
            if n == "max2":
                return max(x)
            if n == "min2":
                return min(x)
            if n == "floor":
                return math.floor(a)
            if n == "mod":
                return a % x[1]
            if n == "expit":
                return 1 / (1 + math.exp(-a)) if a > -700 else 0.0
            if n == "eps":
                return 2.220446049250313e-16
            if n == "sign":
                return (a > 0) - (a < 0)
            if n == "erf":
                return math.erf(a)
            if n in ("sin", "cos", "tan", "atan"):
                return getattr(math, n)(a)
        except (ValueError, OverflowError, ZeroDivisionError):
            return float("nan")
        # any other function: an arbitrary but fixed one
        return (h01("fn", n, *[round(float(v), 9) for v in x]) - 0.5) * 4

    def cond(self, c, env):
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        if c.op == "gt0":
            v = self.poly(c.args[0], env)
            return v > 1e-12 if isinstance(v, float) else v > 0
        if c.op == "eq0":
            v = self.poly(c.args[0], env)
            return abs(v) < 1e-12
        if c.op == "not":
            return not self.cond(c.args[0], env)
        if c.op == "and":
            return all(self.cond(x, env) for x in c.args)
        raise Give("condition")


def close(a, b, tol=1e-6):
    if a != a and b != b:
        return True
    if a == b:
        return True
    if a != a or b != b or abs(a) == INF or abs(b) == INF:
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
