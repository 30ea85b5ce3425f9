"""Numbers for mixtures: assignments of the symbols, and the documented model
written down once, in plain arithmetic."""
import math
import random
from . import term as T
from .witness import (Assignment, h01, digamma, lgamma, det, inverse, INF,
                      Undefined)
from .term import Give

EPS = 2.220446049250313e-16


class MA(Assignment):
    """Assignment with units and origin of the data, and replaced symbols."""

    def __init__(self, seed, sizes, draws=(), over=None, scale=None,
                 shift=None, spread=1.0, offset=0.0):
        Assignment.__init__(self, seed, sizes, draws=draws, limit=8000000)
        self.over = dict(over or {})
        self.scale, self.shift = scale, shift
        self.spread, self.offset = spread, offset
        self.alias = {d.id: ("#", k) for k, d in enumerate(draws)}

    def a(self, c):
        return self.scale[c] if self.scale is not None else 1.0

    def b(self, c):
        return self.shift[c] if self.shift is not None else 0.0

    def leaf(self, name, idx):
        if name in self.over:
            return self.over[name](self, idx)
        v = Assignment.leaf(self, name, idx)
        if name in ("y", "x"):
            v = v * self.spread + self.offset
            return self.a(idx[1]) * v + self.b(idx[1])
        if name == "mu0":
            return self.a(idx[0]) * v + self.b(idx[0])
        if name == "psi0":
            return self.a(idx[0]) * self.a(idx[1]) * v
        return v

    def _atom(self, a, env):
        if a.op == "draw":
            d = T.DRAWS.get(a.args[0], {})
            if d.get("dist") in ("mvn", "invwishart"):
                idx = tuple(self.index(x, env) for x in a.args[1])
                rec = self.draws.get(a.args[0])
                if rec is None:
                    raise Give("unrecorded draw")
                k = len(rec.shape)
                outer, cell = idx[:len(idx) - k], idx[len(idx) - k:]
                if self.touched is not None:
                    self.touched.setdefault((a.args[0], idx))
                key = ("draw", self.alias.get(a.args[0], a.args[0])) + outer
                if d["dist"] == "mvn":
                    c = cell[0] if cell else 0
                    v = (h01(self.seed, *(key + (c,))) - 0.5) * 6
                    return self.a(c) * v + self.b(c)
                r, c = cell if cell else (0, 0)
                return self.a(r) * self.a(c) * self.psd(key, r, c)
        return Assignment._atom(self, a, env)


SIZES = {"n": (2, 3, 4, 5), "p": (2, 3), "K": (1, 2, 3), "m": (2, 3, 4)}


def sizes(seed, **fixed):
    r = random.Random(seed * 104729 + 7)
    s = {k: r.choice(v) for k, v in SIZES.items()}
    s.update(fixed)
    return s


def admissible(path, tries=80, want=6, fixed=None, **kw):
    out = []
    for seed in range(tries):
        A = MA(seed, sizes(seed, **(fixed or {})), draws=path.draws, **kw)
        if path.admits(A):
            A.memo.clear()
            A.tainted = False
            out.append(A)
            if len(out) >= want:
                break
    return out


# ---------------------------------------------------------------- the model
def matvec(m, v):
    return [sum(a * b for a, b in zip(r, v)) for r in m]


def dot(u, v):
    return sum(a * b for a, b in zip(u, v))


def quad(d, m):
    return dot(d, matvec(m, d))


def e_log_det(W, nu):
    p = len(W)
    return math.log(det(W)) + p * math.log(2) + sum(
        digamma((nu - i) / 2) for i in range(p))


def log_B(W, nu):
    p = len(W)
    return (-nu / 2 * math.log(det(W)) - nu * p / 2 * math.log(2) -
            p * (p - 1) / 4 * math.log(math.pi) -
            sum(lgamma((nu - i) / 2) for i in range(p)))


def entropy_wishart(W, nu):
    p = len(W)
    return -log_B(W, nu) - (nu - p - 1) / 2 * e_log_det(W, nu) + nu * p / 2


class Model:
    """Data and priors of one assignment."""

    def __init__(self, A, n, p, K):
        self.A, self.n, self.p, self.K = A, n, p, K
        self.y = [[A.leaf("y", (i, c)) for c in range(p)] for i in range(n)]
        self.mu0 = [A.leaf("mu0", (c,)) for c in range(p)]
        self.psi0 = [[A.leaf("psi0", (r, c)) for c in range(p)]
                     for r in range(p)]
        self.lam = A.leaf("lam", ())
        self.nu0 = A.leaf("nu0", ()) + p - 1

    def theta(self, r):
        """Normal-Wishart parameters of every component, given r[j][i]."""
        out = []
        p, n = self.p, self.n
        for rj in r:
            N = sum(rj)
            if N == 0:
                raise Give("empty component")
            xb = [sum(rj[i] * self.y[i][c] for i in range(n)) / N
                  for c in range(p)]
            S = [[sum(rj[i] * (self.y[i][a] - xb[a]) * (self.y[i][b] - xb[b])
                      for i in range(n)) for b in range(p)]
                 for a in range(p)]
            beta = self.lam + N
            m = [(self.lam * self.mu0[c] + N * xb[c]) / beta
                 for c in range(p)]
            W = inverse([[self.psi0[a][b] + S[a][b] + self.lam * N / beta *
                          (xb[a] - self.mu0[a]) * (xb[b] - self.mu0[b])
                          for b in range(p)] for a in range(p)])
            out.append((m, beta, W, self.nu0 + N))
        return out

    def log_rho(self, theta, ver, x):
        """E log (weight j) + E log N(x | atom j)."""
        out = []
        for j, (m, beta, W, nu) in enumerate(theta):
            row = []
            base = (self.A.leaf("elogw", (ver, j)) + e_log_det(W, nu) / 2 -
                    self.p / 2 * math.log(2 * math.pi) - self.p / beta / 2)
            for xi in x:
                d = [u - v for u, v in zip(xi, m)]
                row.append(base - nu * quad(d, W) / 2)
            out.append(row)
        return out

    def responsibilities(self, theta, ver, x):
        lr = self.log_rho(theta, ver, x)
        out = [[0.0] * len(x) for _ in lr]
        for i in range(len(x)):
            top = max(row[i] for row in lr)
            es = [math.exp(row[i] - top) + EPS for row in lr]
            s = sum(es)
            for j, v in enumerate(es):
                out[j][i] = v / s
        return out

    def elbo(self, r, theta, ver):
        """Bishop (2006), equations 10.70 to 10.77."""
        A, p = self.A, self.p
        lr = self.log_rho(theta, ver, self.y)
        px = pd = qd = 0.0
        for j in range(self.K):
            el = A.leaf("elogw", (ver, j))
            for i in range(self.n):
                pd += r[j][i] * el
                px += r[j][i] * (lr[j][i] - el)
                qd += r[j][i] * math.log(r[j][i])
        W0 = inverse(self.psi0)
        pt = self.K * log_B(W0, self.nu0)
        qt = 0.0
        for m, beta, W, nu in theta:
            el = e_log_det(W, nu)
            d = [u - v for u, v in zip(m, self.mu0)]
            tr = sum(self.psi0[a][b] * W[b][a] for a in range(p)
                     for b in range(p))
            pt += 0.5 * (p * math.log(self.lam / (2 * math.pi)) + el -
                         p * self.lam / beta - self.lam * nu * quad(d, W) +
                         (self.nu0 - p - 1) * el - nu * tr)
            qt += (0.5 * el + p / 2 * math.log(beta / (2 * math.pi)) -
                   p / 2 - entropy_wishart(W, nu))
        return (px + pd + A.leaf("epw", (ver,)) + pt - qd -
                A.leaf("eqw", (ver,)) - qt)


def log_normal(x, mu, cov):
    """log N(x | mu, cov)."""
    p = len(mu)
    d = [a - b for a, b in zip(x, mu)]
    return -0.5 * (p * math.log(2 * math.pi) + math.log(det(cov)) +
                   quad(d, inverse(cov)))
