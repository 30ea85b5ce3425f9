"""Index-notation terms: the value-numbering domain of the second engine.

A numeric value is a polynomial over hash-consed atoms (symbols, elements of
symbolic arrays, sums, products, maxima, gates, function applications,
inverses and determinants of index-notation matrices, random draws).  Bound
index variables are named by binding depth, so equal formulas get the same
number whatever their variables are called.  `equal` compares value numbers;
when they differ it looks for an assignment of the symbols that tells the two
formulas apart (nothing is called different without such a witness).
"""
import math
from fractions import Fraction

INF = float("inf")
SMALL = 400          # monomials beyond which products are not expanded


class Give(Exception):
    """The formula cannot be evaluated or built (undecided)."""


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("op", "args", "uid", "free", "depth", "draws")
    table = {}

    def __new__(cls, op, *args):
        key = (op,) + args
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.op, a.args, a.uid = op, args, len(cls.table)
            fr, dp = set(), 0
            if op == "iv":
                fr.add(a)
            for x in args:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, (Poly, Cond)):
                        fr |= y.free()
                        dp = max(dp, y.depth())
            if op in BINDERS:
                fr = {v for v in fr if v.op != "iv" or
                      v.args[0][:2] != ("b", args[0])}
                dp = max(dp, args[0] + 1)
            a.free = frozenset(fr)
            a.depth = dp
            cls.table[key] = a
        return a

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, other):
        return self.uid < other.uid


BINDERS = ("sum", "prod", "max", "min", "median", "argmax", "any", "inv", "logdet",
           "quad", "chol")
_fresh = [0]


def fresh_index():
    _fresh[0] += 1
    return Poly.atom(Atom("iv", ("i", _fresh[0])))


def fresh_id():
    _fresh[0] += 1
    return _fresh[0]


# ---------------------------------------------------------------- polys
def Q(c):
    """An exact number; whole numbers are kept as int (faster)."""
    if type(c) is int:
        return c
    if not isinstance(c, Fraction):
        c = Fraction(c)
    return c.numerator if c.denominator == 1 else c


def qdiv(a, b):
    return Q(Fraction(a) / b)


class Poly:
    __slots__ = ("t", "_h", "_free", "_depth")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._free = None
        self._depth = None

    @staticmethod
    def const(c):
        if isinstance(c, bool):
            c = int(c)
        if isinstance(c, float):
            if c != c or c in (INF, -INF):
                return Poly({((Atom("inf"), 1),): 1 if c > 0 else -1})
            c = Fraction(c).limit_denominator(10**15)
        c = Q(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, Q(e)),): 1})

    def key(self):
        return frozenset(self.t.items())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or (
            hash(self) == hash(o) and self.t == o.t))

    def __ne__(self, o):
        return not self == o

    def free(self):
        if self._free is None:
            f = set()
            for m in self.t:
                for a, e in m:
                    f |= a.free
            self._free = frozenset(f)
        return self._free

    def depth(self):
        if self._depth is None:
            self._depth = max([a.depth for m in self.t for a, e in m] + [0])
        return self._depth

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def value(self):
        """The number, if constant."""
        if not self.t:
            return 0
        if self.is_const():
            return self.t[()]
        return None

    def atoms(self):
        return {a for m in self.t for a, e in m}

    def single(self):
        """(coef, mono) when there is one monomial."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c, m
        return None

    def one_atom(self):
        s = self.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
            return s[1][0][0]
        return None

    def __add__(self, o):
        o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v if type(v) is int else Q(v)
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if len(self.t) * len(o.t) > SMALL:
            a, b = self, o
            if len(a.t) > 1:
                a = Poly.atom(Atom("grp", a))
            if len(b.t) > 1:
                b = Poly.atom(Atom("grp", b))
            return a * b
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, c = mono_mul(m1, m2)
                c = c * c1 * c2
                v = t.get(m, 0) + c
                if v:
                    t[m] = v if type(v) is int else Q(v)
                else:
                    t.pop(m, None)
        return Poly(t)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(P(o), -1)

    def __rtruediv__(self, o):
        return P(o) * power(self, -1)

    def __repr__(self):
        return show(self)


def mono_mul(m1, m2):
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = dict(m1)
    for a, e in m2:
        x = d.get(a, 0) + e
        if a.op == "ind" and x > 1:
            x = 1
        if x:
            d[a] = x if type(x) is int else Q(x)
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda q: q[0].uid)), 1


def P(x):
    return x if isinstance(x, Poly) else Poly.const(x)


ZERO = Poly({})
ONE = Poly({(): 1})


def power(b, e):
    """b ** e for a number or a formula e."""
    if isinstance(e, Poly):
        v = e.value()
        if v is None:
            if b == ONE:
                return ONE
            s = b.single()
            if s and s[0] == 1 and len(s[1]) == 1 and \
                    s[1][0][0].op == "powv" and s[1][0][1] == 1:
                a = s[1][0][0]
                return power(a.args[0], a.args[1] * e)
            return Poly.atom(Atom("powv", b, e))
        e = v
    e = Q(e)
    if e == 0:
        return ONE
    if e == 1:
        return b
    v = b.value()
    if v is not None:
        if v == 0:
            if e > 0:
                return ZERO
            return Poly.atom(Atom("pow", b), e)
        if e.denominator == 1:
            return Poly.const(Fraction(v) ** int(e))
        if v == 1:
            return ONE
        return Poly.atom(Atom("pow", b), e)
    s = b.single()
    if s:
        c, m = s
        # roots distribute over factors that are known to be positive; we
        # accept it for any factor: formulas are compared on the positive
        # range of their roots
        if e.denominator == 1 or (c > 0 and all(
                positive(a, x) for a, x in m)):
            r = power(Poly.const(c), e)
            for a, x in m:
                r = r * Poly.atom_pow(a, x * e)
            return r
    if e.denominator == 1 and 1 < e <= 3 and len(b.t) ** int(e) <= SMALL:
        r = b
        for _ in range(int(e) - 1):
            r = r * b
        return r
    # a common factor comes out, so that c*x + c*y and x + y share an atom
    c, m, rest = content(b)
    if m or c != 1:
        r = power(Poly.const(c), e)
        for a, x in m:
            r = r * Poly.atom_pow(a, x * e)
        return r * Poly.atom(Atom("pow", rest), e)
    return Poly.atom(Atom("pow", b), e)


def _atom_pow(a, e):
    if a.op == "pow":
        return power(a.args[0], e)
    if a.op == "grp":
        return power(a.args[0], e) if e.denominator != 1 or e < 0 \
            else Poly.atom(a, e)
    if a.op == "ind" and e > 0:
        e = 1
    return Poly.atom(a, e)


Poly.atom_pow = staticmethod(_atom_pow)


def positive(a, e):
    if e.denominator == 1 and e.numerator % 2 == 0:
        return True
    iv = atom_range(a)
    return iv[0] >= 0


def content(b):
    """b = c * m * rest with c > 0 a number and m a monomial."""
    items = list(b.t.items())
    common = dict(items[0][0])
    for m, c in items[1:]:
        d = dict(m)
        for a in list(common):
            if a in d and (d[a] > 0) == (common[a] > 0):
                common[a] = min(d[a], common[a], key=abs)
            elif a not in d:
                del common[a]
            else:
                del common[a]
    first = min(items, key=lambda q: [(a.uid, e) for a, e in q[0]])
    c0 = abs(first[1])
    inv = tuple((a, -e) for a, e in common.items())
    rest = Poly({})
    for m, c in items:
        mm, _ = mono_mul(m, tuple(sorted(inv, key=lambda q: q[0].uid)))
        rest = rest + Poly({mm: qdiv(c, c0)})
    return c0, tuple(common.items()), rest


# ------------------------------------------------------------ conditions
class Cond:
    """op in: true, false, gt0 (poly > 0), eq0, not, and, or."""
    __slots__ = ("op", "args", "_h")

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self._h = hash((op,) + args)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Cond) and self._h == o._h and \
            self.op == o.op and self.args == o.args

    def free(self):
        f = frozenset()
        for a in self.args:
            f |= a.free()
        return f

    def depth(self):
        return max([a.depth() for a in self.args] + [0])

    def __repr__(self):
        if self.op in ("true", "false"):
            return self.op
        if self.op == "gt0":
            return "%r > 0" % self.args[0]
        if self.op == "eq0":
            return "%r == 0" % self.args[0]
        if self.op == "not":
            return "not(%r)" % self.args[0]
        return "(" + (" %s " % self.op).join(map(repr, self.args)) + ")"


TRUE, FALSE = Cond("true"), Cond("false")


def gt(a, b):
    p = P(a) - P(b)
    v = p.value()
    if v is not None:
        return TRUE if v > 0 else FALSE
    lo, hi, lo_in, hi_in = rng(p)
    if lo > 0 or (lo == 0 and not lo_in):
        return TRUE
    if hi <= 0:
        return FALSE
    for m, q in p.t.items():
        if len(m) == 1 and m[0][0].op == "inf" and m[0][1] == 1 and all(
                a.op == "sym" for m2 in p.t if m2 is not m for a, e in m2):
            return TRUE if q > 0 else FALSE
    c = scale_of(p)
    if c != 1:
        p = p * Poly.const(qdiv(1, c))
    return Cond("gt0", p)


def scale_of(p):
    """A canonical positive factor: coefficients become coprime integers."""
    cs = list(p.t.values())
    if all(c.denominator < 10 ** 6 and
           abs(c.numerator) < 10 ** 9 for c in cs):
        den = math.lcm(*[c.denominator for c in cs])
        num = math.gcd(*[abs(c.numerator) * (den // c.denominator)
                         for c in cs])
        return Fraction(num, den)
    return abs(min(p.t.items(),
                   key=lambda q: [(a.uid, e) for a, e in q[0]])[1])


def lt(a, b):
    return gt(b, a)


def ge(a, b):
    a, b = P(a), P(b)
    if integral(a) and integral(b):
        return gt(a + 1, b)
    return no(gt(b, a))


def le(a, b):
    return ge(b, a)


def eq(a, b):
    p = P(a) - P(b)
    v = p.value()
    if v is not None:
        return TRUE if v == 0 else FALSE
    lo, hi, lo_in, hi_in = rng(p)
    if lo > 0 or hi < 0 or (lo == 0 and not lo_in) or \
            (hi == 0 and not hi_in):
        return FALSE
    lead = min(p.t.items(), key=lambda q: [(a.uid, e) for a, e in q[0]])[1]
    c = scale_of(p) * (1 if lead > 0 else -1)
    return Cond("eq0", p * Poly.const(qdiv(1, c)))


def no(c):
    if c.op == "true":
        return FALSE
    if c.op == "false":
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "gt0" and integral(c.args[0]):
        return gt(1 - c.args[0], 0)
    return Cond("not", c)


def both(*cs):
    out = []
    for c in cs:
        if c.op == "false":
            return FALSE
        if c.op == "true":
            continue
        for x in (c.args if c.op == "and" else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if no(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Cond("and", *sorted(out, key=hash))


def either(*cs):
    return no(both(*[no(c) for c in cs]))


# ------------------------------------------------------- symbol assumptions
SYM = {}     # name -> dict(int=bool, lo=, hi=, lo_in=, hi_in=, gen=callable)


def symbol(name, lo=-INF, hi=INF, lo_in=True, hi_in=True, integer=False,
           gen=None):
    SYM[name] = dict(lo=lo, hi=hi, lo_in=lo_in and lo > -INF,
                     hi_in=hi_in and hi < INF, int=integer, gen=gen)
    return Poly.atom(Atom("sym", name))


def array_symbol(name, lo=-INF, hi=INF, lo_in=True, hi_in=True,
                 integer=False, gen=None):
    SYM[name] = dict(lo=lo, hi=hi, lo_in=lo_in and lo > -INF,
                     hi_in=hi_in and hi < INF, int=integer, gen=gen)
    return name


def el(name, *idx):
    return Poly.atom(Atom("el", name, tuple(P(i) for i in idx)))


def integral(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e.denominator != 1 or e < 0 or not integral_atom(a):
                return False
    return True


def integral_atom(a):
    if a.op in ("iv", "ind", "len", "count", "floor", "argmax", "mod"):
        return True
    if a.op in ("sym", "el"):
        return SYM.get(a.args[0], {}).get("int", False)
    if a.op in ("sum", "prod", "max", "min"):
        return integral(a.args[-1])
    if a.op == "ite":
        return integral(a.args[1]) and integral(a.args[2])
    if a.op == "grp":
        return integral(a.args[0])
    if a.op in ("draw", "opq"):
        return DRAWS.get(a.args[0], {}).get("int", False)
    return False


# ---------------------------------------------------------------- gates
def ite(c, a, b):
    a, b = P(a), P(b)
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a == b:
        return a
    a0, b0, nc = a, b, no(c)
    a, b = assume(a0, c), assume(b0, nc)
    if a == b:
        return a
    # one side already has the other's value where the gate fails
    if assume(a0, nc) == b:
        return a0
    if assume(b0, c) == a:
        return b0
    if c.op == "not":
        c, a, b = c.args[0], b, a
    return Poly.atom(Atom("ite", c, a, b))


def ind(c):
    if c.op == "true":
        return ONE
    if c.op == "false":
        return ZERO
    if c.op == "not":
        return ONE - ind(c.args[0])
    return Poly.atom(Atom("ind", c))


_assume = {}


def implies(c, q):
    """Does condition c decide q?  True, False or None."""
    if c == q:
        return True
    n = no(q)
    if c == n:
        return False
    if c.op == "and":
        for x in c.args:
            r = implies(x, q)
            if r is not None:
                return r
        if q.op != "and":
            return slack_decide(q, c.args)
        # each part by itself
    if q.op == "and":
        rs = [implies(c, x) for x in q.args]
        if False in rs:
            return False
        if all(rs):
            return True
        return None
    if q.op == "not":
        r = implies(c, q.args[0])
        return None if r is None else not r
    # linear: c: p > 0 (or p == 0, or p <= 0) against q: r > 0 / r == 0
    for sign, base in fact_forms(c):
        # known: base >= 0 (sign 'ge') or > 0 ('gt')
        r = linear_implies(sign, base, q)
        if r is not None:
            return r
    if q.op == "eq0":
        forms = fact_forms(c)
        if forms and prove_pos(q.args[0], forms, False) and \
                prove_pos(-q.args[0], forms, False):
            return True
    return None


def fact_forms(c):
    if c.op == "gt0":
        p = c.args[0]
        if integral(p):
            return [("ge", p - 1)]
        return [("gt", p)]
    if c.op == "eq0":
        return [("ge", c.args[0]), ("ge", -c.args[0])]
    if c.op == "not" and c.args[0].op == "gt0":
        return [("ge", -c.args[0].args[0])]
    return []


def linear_implies(sign, base, q):
    if q.op == "gt0":
        r = q.args[0]
        for k in (1, 2, Fraction(1, 2)):
            d = r - base * k
            iv = rng(d)
            if iv[0] > 0 or (iv[0] == 0 and (sign == "gt" or not iv[2])):
                return True
            d = r + base * k          # r = d - k*base
            iv = rng(d)
            if iv[1] <= 0:
                return False
        return None
    if q.op == "eq0":
        for r in (q.args[0], -q.args[0]):
            d = r - base
            iv = rng(d)
            if iv[0] > 0 or (iv[0] == 0 and (sign == "gt" or not iv[2])):
                return False
    return None


def slack_decide(c, facts):
    """Decide c from combinations of linear facts."""
    forms = []
    for f in facts:
        for x in (f.args if f.op == "and" else (f,)):
            forms += fact_forms(x)
    neg = False
    if c.op == "not":
        c, neg = c.args[0], True
    if c.op == "and":
        return None
    r = None
    if c.op == "gt0":
        p = c.args[0]
        if prove_pos(p, forms, True):
            r = True
        elif prove_pos(-p, forms, False):
            r = False
    elif c.op == "eq0":
        p = c.args[0]
        if prove_pos(p, forms, True) or prove_pos(-p, forms, True):
            r = False
        elif prove_pos(p, forms, False) and prove_pos(-p, forms, False):
            r = True
    if r is None:
        return None
    return r != neg


_prove = {}


def prove_pos(p, forms, strict, depth=3):
    """p > 0 (or p >= 0) from facts base >= 0."""
    k = (p, tuple(forms), strict)
    if k in _prove:
        return _prove[k]
    r = _prove[k] = _prove_pos(p, list(dict.fromkeys(forms)), strict, depth)
    return r


def _prove_pos(p, forms, strict, depth):
    iv = rng(p)
    if iv[0] > 0 or iv[0] == 0 and (not strict or not iv[2]):
        return True
    if depth == 0:
        return False
    neg = set()
    for m, c in p.t.items():
        if m and mono_range(m, c)[0] < 0:
            neg.add(m)
    for sign, b in forms:
        # the fact must cancel a monomial that can be negative
        hit = [m for m in neg if m in b.t and b.t[m] * p.t[m] > 0]
        for m in hit[:2]:
            q = p - b * qdiv(p.t[m], b.t[m])
            st = strict and sign != "gt"
            if prove_pos(q, [f for f in forms if f != (sign, b)], st,
                         depth - 1):
                return True
    return False


def assume(p, c):
    """Simplify p's gates under condition c."""
    if c.op in ("true", "false"):
        return p
    k = (p, c)
    r = _assume.get(k)
    if r is None:
        r = rebuild(p, lambda a: _assume_atom(a, c))
        _assume[k] = r
    return r


def assume_cond(q, c):
    r = implies(c, q)
    if r is True:
        return TRUE
    if r is False:
        return FALSE
    if q.op == "and":
        return both(*[assume_cond(x, c) for x in q.args])
    if q.op == "not":
        return no(assume_cond(q.args[0], c))
    return q


def _assume_atom(a, c):
    if a.op == "ite":
        q = assume_cond(a.args[0], c)
        if q.op == "true":
            return assume(a.args[1], c)
        if q.op == "false":
            return assume(a.args[2], c)
        x, y = assume(a.args[1], c), assume(a.args[2], c)
        return ite(q, x, y) if (x, y, q) != (a.args[1], a.args[2],
                                             a.args[0]) else Poly.atom(a)
    if a.op == "ind":
        q = assume_cond(a.args[0], c)
        return ind(q)
    if a.op in BINDERS and a.op not in ("inv", "logdet", "quad", "chol"):
        # the body of a binder is seen for indices below its bound
        d, hi, body = a.args[0], a.args[1], a.args[-1]
        v = fresh_index()
        b0 = open_body(body, d, v)
        hi2 = assume(hi, c)
        if a.op in ("sum", "prod") and (
                rng(hi2)[1] <= 0 or implies(c, gt(hi2, 0)) is False):
            return ZERO if a.op == "sum" else ONE
        b2 = assume(b0, both(c, gt(hi2, v)))
        if b2 == b0 and hi2 == hi:
            return Poly.atom(a)
        return bind(a.op, v, hi2, b2)
    if a.op in ("fn", "grp", "pow"):
        return None     # generic rebuild
    return None


def rebuild(p, f):
    """Map atoms of p through f (None: rebuild from mapped children)."""
    out = ZERO
    for m, c in p.t.items():
        r = Poly.const(c)
        for a, e in m:
            x = f(a)
            if x is None:
                x = map_atom(a, lambda q: rebuild(q, f),
                             lambda q: map_cond(q, lambda z: rebuild(z, f)))
            r = r * (power(x, e) if x.one_atom() is not a
                     else Poly.atom(a, e))
        out = out + r
    return out


def map_cond(c, f):
    if c.op == "gt0":
        return gt(f(c.args[0]), 0)
    if c.op == "eq0":
        return eq(f(c.args[0]), 0)
    if c.op == "not":
        return no(map_cond(c.args[0], f))
    if c.op == "and":
        return both(*[map_cond(x, f) for x in c.args])
    return c


def map_atom(a, f, fc):
    op, g = a.op, a.args
    if op in ("iv", "sym", "inf"):
        return Poly.atom(a)
    if op == "ite":
        return ite(fc(g[0]), f(g[1]), f(g[2]))
    if op == "ind":
        return ind(fc(g[0]))
    if op == "pow":
        return f(g[0]) if False else power_atom(f(g[0]))
    if op == "powv":
        return power(f(g[0]), f(g[1]))
    if op == "grp":
        return f(g[0])
    if op == "fn":
        return fn(g[0], *[f(x) for x in g[1]])
    if op == "el":
        return el(g[0], *[f(x) for x in g[1]])
    if op in ("draw", "opq"):
        return Poly.atom(Atom(op, g[0], tuple(f(x) for x in g[1])))
    if op in ("sum", "prod", "max", "min", "median", "any", "argmax"):
        v = fresh_index()
        body = f(open_body(g[2], g[0], v))
        return bind(op, v, f(g[1]), body)
    if op in ("logdet", "inv", "chol"):
        v, w = fresh_index(), fresh_index()
        body = f(open2(g[2], g[0], v, w))
        extra = [f(x) for x in g[3:]]
        return matrix_atom(op, v, w, f(g[1]), body, *extra)
    raise Give("map %s" % op)


def power_atom(p):
    """The atom whose exponent e means p**e: used while rebuilding pow."""
    return p


# pow atoms carry their exponent in the monomial: rebuilding maps the base
# and then applies the exponent (see rebuild), which is what we want.


# ---------------------------------------------------------------- binders
def bvar(d):
    return Poly.atom(Atom("iv", ("b", d)))


_subst = {}


def subst(p, v, e):
    """p with index variable v (a Poly with one iv atom) replaced by e."""
    a = v.one_atom()
    if a not in p.free():
        return p
    k = (p, a, e)
    r = _subst.get(k)
    if r is None:
        r = _do_subst(p, {a: e})
        _subst[k] = r
    return r


def subst_many(p, mp):
    mp = {v.one_atom() if isinstance(v, Poly) else v: P(e)
          for v, e in mp.items()}
    return _do_subst(p, mp)


def _do_subst(p, mp):
    if not any(a in p.free() for a in mp):
        return p

    def f(q):
        return _do_subst(q, mp)

    def fc(c):
        return map_cond(c, f)
    out = ZERO
    for m, c in p.t.items():
        r = Poly.const(c)
        for a, e in m:
            if a in mp:
                x = mp[a]
            elif not any(z in a.free for z in mp):
                r = r * Poly.atom(a, e)
                continue
            else:
                x = map_atom(a, f, fc)
            r = r * power(x, e)
        out = out + r
    return out


def subst_cond(c, mp):
    return map_cond(c, lambda q: subst_many(q, mp))


def open_body(body, d, v):
    return _do_subst(body, {Atom("iv", ("b", d)): v})


def open2(body, d, v, w):
    return _do_subst(body, {Atom("iv", ("b", d)): v,
                            Atom("iv", ("b", d, 1)): w})


def split_point(body, va):
    """Threshold t of a gate v < t (or v >= t) directly in body."""
    seen = 0
    stack = [a for m in body.t for a, e in m]
    while stack and seen < 60:
        a = stack.pop()
        seen += 1
        if va not in a.free:
            continue
        if a.op in ("ite", "ind"):
            c = a.args[0]
            for q in (c.args if c.op == "and" else (c,)):
                if q.op == "not":
                    q = q.args[0]
                if q.op != "gt0":
                    continue
                p = q.args[0]
                co = p.t.get(((va, 1),))
                if co not in (1, -1):
                    continue
                rest = p - Poly.atom(va) * co
                if va in rest.free() or not integral(rest):
                    continue
                yield rest if co == -1 else 1 - rest
            if a.op == "ite":
                stack += [x for y in a.args[1:] for m in y.t for x, e in m]
        elif a.op in ("fn", "grp", "pow"):
            for y in (a.args[1] if a.op == "fn" else a.args[:1]):
                stack += [x for m in y.t for x, e in m]


def reversed_body(v, hi, body):
    """Read the range backwards when the indices do."""
    va = v.one_atom()
    sign = 0
    stack = [a for m in body.t for a, e in m]
    seen = 0
    while stack and seen < 80:
        a = stack.pop()
        seen += 1
        if va not in a.free:
            continue
        for x in a.args:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, Poly):
                    if a.op in ("el", "draw", "opq"):
                        co = y.t.get(((va, 1),))
                        if co is not None:
                            if co > 0:
                                return None
                            if co == -1:
                                sign = -1
                    stack += [z for m in y.t for z, e in m]
                elif isinstance(y, Cond):
                    for q in cond_polys(y):
                        stack += [z for m in q.t for z, e in m]
    if sign == 0:
        return None
    return subst(body, v, hi - 1 - v)


def cond_polys(c):
    if c.op in ("gt0", "eq0"):
        return [c.args[0]]
    out = []
    for x in c.args:
        if isinstance(x, Cond):
            out += cond_polys(x)
    return out


FOLD = [0]       # ranges up to this length are written out


def unrolled(op, v, n, body):
    xs = [subst(body, v, P(i)) for i in range(int(n))]
    if op == "sum":
        r = ZERO
        for x in xs:
            r = r + x
        return r
    if op == "prod":
        r = ONE
        for x in xs:
            r = r * x
        return r
    cs = [x.value() for x in xs]
    if None in cs:
        return None
    if op in ("max", "min"):
        return P((max if op == "max" else min)(cs))
    if op == "argmax":
        return P(cs.index(max(cs)))
    return None


def bind(op, v, hi, body):
    """sum/prod/max/min/any over v in 0..hi-1 of body."""
    hi, body = P(hi), P(body)
    va = v.one_atom()
    n = hi.value()
    if n is not None and 1 < n <= FOLD[0]:
        r = unrolled(op, v, n, body)
        if r is not None:
            return r
    if n is None and op in ("sum", "prod") and rng(hi)[1] <= 0:
        return ZERO if op == "sum" else ONE
    if op in ("sum", "prod") and (n is None or n > 1):
        for t in split_point(body, va):
            lo, hh = rng(t)[0], rng(hi - t)[0]
            if lo >= 0 and hh >= 0 and t.value() != 0 and t != hi:
                a = bind(op, v, t, assume(body, gt(t, v)))
                b = bind(op, v, hi - t, assume(subst(body, v, v + t),
                                               gt(hi - t, v)))
                return a + b if op == "sum" else a * b
        r = reversed_body(v, hi, body)
        if r is not None:
            body = r
    if op == "sum":
        if n is not None and n <= 0:
            return ZERO
        if not body.t:
            return ZERO
        if n == 1:
            return subst(body, v, ZERO)
        out = ZERO
        for m, c in body.t.items():
            outer, inner = Poly.const(c), []
            for a, e in m:
                if va in a.free:
                    inner.append((a, e))
                else:
                    outer = outer * Poly.atom(a, e)
            if not inner:
                out = out + outer * hi
                continue
            if len(inner) == 1 and inner[0][1] == 1 and \
                    inner[0][0].op == "grp":
                out = out + outer * bind_raw("sum", v, hi,
                                             inner[0][0].args[0])
                continue
            r = delta(v, hi, inner)
            if r is not None:
                out = out + outer * r
            else:
                out = out + outer * bind_raw("sum", v, hi,
                                             Poly({tuple(inner):
                                                   1}))
        return out
    if op == "prod":
        if n is not None and n <= 0:
            return ONE
        if n == 1:
            return subst(body, v, ZERO)
        s = body.single()
        if s:
            c, m = s
            r = power(Poly.const(c), hi)
            inner = []
            for a, e in m:
                if va in a.free:
                    r = r * bind_raw("prod", v, hi, Poly.atom(a, e))
                else:
                    r = r * power(Poly.atom(a, e), hi)
            return r
        if va not in body.free():
            return power(body, hi)
        return bind_raw("prod", v, hi, body)
    if op in ("max", "min", "median"):
        if va not in body.free():
            return body
        if n == 1:
            return subst(body, v, ZERO)
        return bind_raw(op, v, hi, body)
    return bind_raw(op, v, hi, body)


def delta(v, hi, inner):
    """Sum over v of ind(v == e) * rest, e free of v."""
    va = v.one_atom()
    for k, (a, e) in enumerate(inner):
        if a.op == "ind" and a.args[0].op == "eq0":
            p = a.args[0].args[0]
            co = p.t.get(((va, 1),))
            if co is None or abs(co) != 1:
                continue
            rest = p - Poly.atom(va) * co
            if va in rest.free():
                continue
            tgt = rest * qdiv(-1, co)
            other = Poly({tuple(q for i, q in enumerate(inner) if i != k):
                          1})
            r = subst(other, v, tgt)
            ok = both(ge(tgt, 0), gt(hi, tgt))
            return r * ind(ok)
    return None


def bind_raw(op, v, hi, body):
    d = body.depth()
    b = subst(body, v, bvar(d))
    return Poly.atom(Atom(op, d, hi, b))


def total(v, hi, body):
    return bind("sum", v, hi, body)


def matrix_atom(op, v, w, n, body, *idx):
    """inv/logdet of the n x n matrix body(v, w); idx for an entry."""
    n = P(n)
    k = n.value()
    if k == 1:
        x = subst_many(body, {v: ZERO, w: ZERO})
        if op == "inv":
            return power(x, -1)
        if op == "logdet":
            return fn("log", x)
    # s_v * s_w * A(v, w): the scale comes out
    body, left, right, scal = split_scale(body, v, w)
    # inverse of an inverse
    if op == "inv":
        a = body.one_atom()
        if a is not None and a.op == "inv" and a.args[3:] == (v, w) and \
                a.args[1] == n:
            x, y = idx
            r = open2(a.args[2], a.args[0], x, y)
        else:
            r = _matrix_raw("inv", v, w, n, body, *idx)
        x, y = idx
        if left != ONE or right != ONE:
            r = r * power(subst(right, w, x), -1) * power(
                subst(left, v, y), -1)
        return r * power(scal, -1)
    if op == "logdet":
        a = body.one_atom()
        if a is not None and a.op == "inv" and a.args[3:] == (v, w) and \
                a.args[1] == n:
            r = -Poly.atom(Atom("logdet", a.args[0], a.args[1], a.args[2]))
        else:
            r = _matrix_raw("logdet", v, w, n, body)
        if left != ONE:
            r = r + bind("sum", v, n, fn("log", left))
        if right != ONE:
            r = r + bind("sum", w, n, fn("log", right))
        if scal != ONE:
            r = r + n * fn("log", scal)
        return r
    return _matrix_raw(op, v, w, n, body, *idx)


def _matrix_raw(op, v, w, n, body, *idx):
    d = body.depth()
    b = subst_many(body, {v: bvar(d), w: Poly.atom(Atom("iv", ("b", d, 1)))})
    return Poly.atom(Atom(op, d, n, b, *idx))


def split_scale(body, v, w):
    """body = left(v) * right(w) * scal * rest."""
    if not body.t:
        return body, ONE, ONE, ONE
    c, m, rest = content(body)
    if not m:
        return body, ONE, ONE, ONE
    va, wa = v.one_atom(), w.one_atom()
    left = right = scal = ONE
    keep = ONE
    for a, e in m:
        x = Poly.atom_pow(a, e)
        fv, fw = va in a.free, wa in a.free
        if fv and fw:
            keep = keep * x
        elif fv:
            left = left * x
        elif fw:
            right = right * x
        else:
            scal = scal * x
    if rest == ONE and keep == ONE:
        return body, ONE, ONE, ONE
    return rest * keep * Poly.const(c), left, right, scal


# ------------------------------------------------------------- functions
def fn(name, *args):
    args = [P(a) for a in args]
    if name == "log":
        a = args[0]
        v = a.value()
        if v == 1:
            return ZERO
        s = a.single()
        if s and s[0] > 0:
            c, m = s
            pos = all(positive(x, e) or x.op == "inf" for x, e in m)
            if pos and (len(m) > 1 or (m and (m[0][1] != 1 or c != 1))):
                r = ZERO if c == 1 else Poly.atom(
                    Atom("fn", "log", (Poly.const(c),)))
                for x, e in m:
                    r = r + fn("log", Poly.atom(x)) * e
                return r
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                x = m[0][0]
                if x.op == "fn" and x.args[0] == "exp":
                    return x.args[1][0]
                if x.op == "prod":
                    v = fresh_index()
                    return bind("sum", v, x.args[1], fn(
                        "log", open_body(x.args[2], x.args[0], v)))
                if x.op == "powv":
                    return x.args[1] * fn("log", x.args[0])
                if x.op == "pow":
                    return Poly.atom(Atom("fn", "log", (x.args[0],)))
                if x.op == "ite":
                    return ite(x.args[0], fn("log", x.args[1]),
                               fn("log", x.args[2]))
        if v is not None and v == 0:
            return Poly.const(-INF)
    if name == "exp":
        a = args[0]
        if not a.t:
            return ONE
        x = a.one_atom()
        if x is not None and x.op == "fn" and x.args[0] == "log":
            return x.args[1][0]
        # exp(sum of e*log(b) + rest)
        out, rest = ONE, ZERO
        for m, c in a.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fn" and \
                    m[0][0].args[0] == "log":
                out = out * power(m[0][0].args[1][0], c)
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "inf":
                if c < 0:
                    return ZERO
                rest = rest + Poly({m: c})
            else:
                rest = rest + Poly({m: c})
        if out != ONE:
            return out * fn("exp", rest)
    if name == "abs":
        iv = rng(args[0])
        if iv[0] >= 0:
            return args[0]
        if iv[1] <= 0:
            return -args[0]
        b = args[0]
        lead = min(b.t.items(), key=lambda q: [(a.uid, e) for a, e in
                                               q[0]])[1]
        if lead < 0:
            args = [-b]
    if name == "loggamma":
        v = args[0].value()
        if v in (1, 2):
            return ZERO
    if name in ("max2", "min2"):
        a, b = args
        iv = rng(a - b)
        if iv[0] >= 0:
            return a if name == "max2" else b
        if iv[1] <= 0:
            return b if name == "max2" else a
        args = sorted(args, key=lambda q: (len(q.t), sorted(
            [(x.uid, e) for x, e in m] for m in q.t)))
    if name == "floor":
        if integral(args[0]):
            return args[0]
    return Poly.atom(Atom("fn", name, tuple(args)))


def sqrt(x):
    return power(P(x), Fraction(1, 2))


# ---------------------------------------------------------------- intervals
DRAWS = {}       # draw id -> dict(dist=, lo=, hi=, int=)
FULL = (-INF, INF, False, False)
_range_cache = {}


def forget_ranges():
    """Intervals of symbols changed."""
    _range_cache.clear()
    _rng_cache.clear()



def atom_range(a):
    r = _range_cache.get(a)
    if r is None:
        _range_cache[a] = FULL
        r = _range_cache[a] = _atom_range(a)
    return r


def _atom_range(a):
    op, g = a.op, a.args
    if op in ("sym", "el"):
        s = SYM.get(g[0])
        if s is None:
            return FULL
        return (s["lo"], s["hi"], s["lo_in"], s["hi_in"])
    if op == "iv":
        return (0, INF, True, False)
    if op == "ind":
        return (0, 1, True, True)
    if op == "inf":
        return (INF, INF, True, True)
    if op in ("draw", "opq"):
        d = DRAWS.get(g[0], {})
        return (d.get("lo", -INF), d.get("hi", INF), d.get("lo_in", False),
                d.get("hi_in", False))
    if op == "ite":
        x = rng(g[1])
        y = rng(g[2])
        return hull(x, y)
    if op == "grp":
        return rng(g[0])
    if op == "pow":
        return rng(g[0])
    if op == "powv":
        b = rng(g[0])
        e = rng(g[1])
        if b[0] >= 0 and b[1] <= 1 and e[0] >= 0:
            return (0, 1, True, True)
        if b[0] >= 0:
            return (0, INF, b[0] == 0, False)
        return FULL
    if op == "sum":
        v = fresh_index()
        b = rng(open_body(g[2], g[0], v))
        n = rng(g[1])
        lo = 0 if b[0] >= 0 else -INF
        hi = 0 if b[1] <= 0 else INF
        if n[0] >= 1:
            if b[0] > 0:
                lo = b[0] * n[0]
            if b[1] < 0:
                hi = b[1] * n[0]
        # strictly positive terms over at least one index
        lo_in = not (b[0] == 0 and not b[2] and n[0] >= 1)
        hi_in = not (b[1] == 0 and not b[3] and n[0] >= 1)
        return (lo, hi, lo_in and lo > -INF, hi_in and hi < INF)
    if op == "prod":
        v = fresh_index()
        b = rng(open_body(g[2], g[0], v))
        if b[0] >= 0 and b[1] <= 1:
            return (0, 1, b[2] and b[0] == 0 or b[0] > 0, True)
        if b[0] >= 0:
            return (0, INF, b[2], False)
        return FULL
    if op in ("max", "min", "median"):
        v = fresh_index()
        return rng(open_body(g[2], g[0], v))
    if op == "argmax":
        return (0, INF, True, False)
    if op == "any":
        return (0, 1, True, True)
    if op == "fn":
        x = [rng(q) for q in g[1]]
        n = g[0]
        if n == "exp":
            lo = math.exp(max(min(x[0][0], 700), -800)) if x[0][0] > -INF \
                else 0
            hi = math.exp(x[0][1]) if x[0][1] < 700 else INF
            if x[0][1] == 0:
                hi = 1
            return (lo, hi, lo > 0 and x[0][2], x[0][3])
        if n == "log":
            lo, hi = x[0][0], x[0][1]
            return (math.log(lo) if lo > 0 else -INF,
                    math.log(hi) if 0 < hi < INF else INF,
                    x[0][2], x[0][3])
        if n in ("abs",):
            return (0, INF, True, False)
        if n == "max2":
            return (max(x[0][0], x[1][0]), max(x[0][1], x[1][1]), True, True)
        if n == "min2":
            return (min(x[0][0], x[1][0]), min(x[0][1], x[1][1]), True, True)
        if n == "expit":
            return (0, 1, True, True)
        if n == "eps":
            return (0, 1e-15, False, True)
    return FULL


def hull(x, y):
    lo = min(x[0], y[0])
    hi = max(x[1], y[1])
    return (lo, hi, (x[2] and x[0] == lo) or (y[2] and y[0] == lo),
            (x[3] and x[1] == hi) or (y[3] and y[1] == hi))


def iv_mul(x, y):
    def m(a, b):
        if a == 0 or b == 0:
            return 0
        return a * b
    c = []
    for i, ii in ((x[0], x[2]), (x[1], x[3])):
        for j, jj in ((y[0], y[2]), (y[1], y[3])):
            p = m(i, j)
            inc = (ii and jj) or (i == 0 and ii) or (j == 0 and jj)
            c.append((p, inc))
    lo = min(p for p, _ in c)
    hi = max(p for p, _ in c)
    return (lo, hi, any(i for p, i in c if p == lo),
            any(i for p, i in c if p == hi))


def iv_pow(x, e):
    lo, hi, li, hi_in = x
    if e == 1:
        return x
    if e.denominator == 1 and e > 0 and int(e) % 2 == 0:
        if lo >= 0:
            return (lo ** int(e), hi ** int(e) if hi < INF else INF, li,
                    hi_in)
        return (0, INF, True, False)
    if lo >= 0:
        def f(z):
            if z == INF:
                return INF if e > 0 else 0
            if z == 0:
                return 0 if e > 0 else INF
            try:
                return float(z) ** float(e)
            except OverflowError:
                return INF
        a, b = f(lo), f(hi)
        if e > 0:
            return (a, b, li, hi_in)
        return (b, a, hi_in and hi < INF, li and lo > 0)
    if e == -1 and hi < 0:
        return (1 / float(hi) if hi else -INF, 1 / float(lo)
                if lo > -INF else 0, hi_in, li)
    return FULL


def mono_range(m, c):
    r = (1, 1, True, True)
    for a, e in m:
        r = iv_mul(r, iv_pow(atom_range(a), e))
    if c != 1:
        f = float(c) if c.denominator != 1 else int(c)
        r = iv_mul(r, (f, f, True, True))
    return r


_rng_cache = {}


def rng(p):
    """Interval (lo, hi, lo attained?, hi attained?) of a formula."""
    r = _rng_cache.get(p)
    if r is not None:
        return r
    _rng_cache[p] = FULL
    lo, hi, li, hi_in = 0, 0, True, True
    for m, c in p.t.items():
        x = mono_range(m, c)
        lo = lo + x[0]
        hi = hi + x[1]
        li = li and x[2]
        hi_in = hi_in and x[3]
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
    r = (lo, hi, li and lo > -INF, hi_in and hi < INF)
    r = refine(p, r)
    _rng_cache[p] = r
    return r


def meet(x, y):
    lo, li = (x[0], x[2]) if x[0] > y[0] else (y[0], y[2]) if y[0] > x[0] \
        else (x[0], x[2] and y[2])
    hi, hh = (x[1], x[3]) if x[1] < y[1] else (y[1], y[3]) if y[1] < x[1] \
        else (x[1], x[3] and y[3])
    return (lo, hi, li, hh)


def refine(p, r):
    """Relational rules on top of plain interval arithmetic."""
    # 1 - x with x in a product form is covered by the plain rule
    # common factor: (a*b - a*c) = a*(b - c)
    if len(p.t) >= 2:
        try:
            c, m, rest = content(p)
        except (IndexError, ValueError):
            m = ()
        if m:
            f = mono_range(tuple(m), 1)
            x = iv_mul(f, iv_scale(rng(rest), c))
            r = meet(r, x)
        # denominators: multiply out a positive pow and look at the sign
        den = {}
        for mm in p.t:
            for a, e in mm:
                if e < 0 and e.denominator == 1:
                    den[a] = max(den.get(a, 0), -e)
        if den and len(den) <= 3:
            q = p
            ok = True
            dr = (1, 1, True, True)
            for a, e in den.items():
                ar = atom_range(a)
                if ar[0] < 0 or (ar[0] == 0 and ar[2] and a.op != "pow"
                                 and False):
                    ok = False
                    break
                base = a.args[0] if a.op in ("pow", "grp") else Poly.atom(a)
                q2 = ZERO
                for mm, cc in q.t.items():
                    d = dict(mm)
                    x = d.pop(a, 0) + e
                    rest = Poly({tuple(sorted(d.items(),
                                              key=lambda z: z[0].uid)): cc})
                    q2 = q2 + rest * power(base, x)
                q = q2
            if ok and q != p:
                s = rng(q)
                if s[0] >= 0:
                    r = meet(r, (0, INF, s[2] or s[0] > 0, False)
                             if s[0] > 0 or s[2] else (0, INF, False, False))
                if s[1] <= 0:
                    r = meet(r, (-INF, 0, False, s[3]))
    # digamma(a) - digamma(b), a <= b
    dg = [(m[0][0], c) for m, c in p.t.items() if len(m) == 1 and
          m[0][1] == 1 and m[0][0].op == "fn" and m[0][0].args[0] ==
          "digamma"]
    if len(dg) == 2 and len(p.t) == 2 and dg[0][1] == -dg[1][1]:
        (x, cx), (y, cy) = dg
        if cx < 0:
            (x, cx), (y, cy) = (y, cy), (x, cx)
        A, B = x.args[1][0], y.args[1][0]
        ra = rng(A)
        if ra[0] >= 0:
            s = rng(B - A)
            if s[0] >= 0:
                r = meet(r, (-INF, 0, False, s[2]))
            elif s[1] <= 0:
                r = meet(r, (0, INF, s[3], False))
    # sums of such differences: group digammas pairwise
    if len(dg) > 2 and len(dg) == len(p.t):
        r = meet(r, pair_digamma(dg))
    # x - max_v x(v) <= 0
    for m, c in p.t.items():
        if c == -1 and len(m) == 1 and m[0][1] == 1 and \
                m[0][0].op == "max":
            rest = p + Poly.atom(m[0][0])
            if matches(rest, m[0][0]):
                r = meet(r, (-INF, 0, False, True))
    return r


def pair_digamma(dg):
    pos = [a for a, c in dg for _ in range(int(c)) if c > 0 and
           c.denominator == 1]
    neg = [a for a, c in dg for _ in range(int(-c)) if c < 0 and
           c.denominator == 1]
    if len(pos) != len(neg):
        return FULL
    used = set()
    for x in pos:
        for k, y in enumerate(neg):
            if k not in used and rng(x.args[1][0])[0] >= 0 and rng(
                    y.args[1][0] - x.args[1][0])[0] >= 0:
                used.add(k)
                break
        else:
            return FULL
    return (-INF, 0, False, True)


def iv_scale(x, c):
    f = float(c) if Fraction(c).denominator != 1 else int(c)
    return iv_mul(x, (f, f, True, True))


def matches(p, a):
    """Is p an instance of the body of binder a (some index)?"""
    d, hi, body = a.args[0], a.args[1], a.args[2]
    for v in p.free():
        if v.op == "iv":
            if open_body(body, d, Poly.atom(v)) == p:
                return True
    for e in index_candidates(p):
        if open_body(body, d, e) == p:
            return True
    return False


def index_candidates(p, n=12):
    out = []
    for a in p.atoms():
        stack = [a]
        while stack and len(out) < n:
            x = stack.pop()
            if x.op in ("el", "draw", "opq"):
                for i in x.args[1]:
                    if i not in out:
                        out.append(i)
                    stack.extend(i.atoms())
            elif x.op == "fn":
                for q in x.args[1]:
                    stack.extend(q.atoms())
    return out


# ---------------------------------------------------------------- show
def show(p, n=6):
    if not p.t:
        return "0"
    out = []
    for m, c in list(p.t.items())[:n]:
        s = "*".join(show_atom(a) + ("" if e == 1 else "^%s" % e)
                     for a, e in m)
        if not s:
            s = str(c)
        elif c != 1:
            s = "%s*%s" % (c, s)
        out.append(s)
    if len(p.t) > n:
        out.append("...")
    return " + ".join(out).replace("+ -", "- ")


def show_atom(a):
    op, g = a.op, a.args
    if op == "iv":
        return "%s%s" % (g[0][0], "_".join(map(str, g[0][1:])))
    if op == "sym":
        return g[0]
    if op == "el":
        return "%s[%s]" % (g[0], ",".join(map(show, g[1])))
    if op in ("draw", "opq"):
        return "%s%s[%s]" % (op, g[0], ",".join(map(show, g[1])))
    if op == "fn":
        return "%s(%s)" % (g[0], ", ".join(map(show, g[1])))
    if op == "ite":
        return "(%s if %r else %s)" % (show(g[1]), g[0], show(g[2]))
    if op == "ind":
        return "[%r]" % g[0]
    if op in ("sum", "prod", "max", "min", "median", "any", "argmax"):
        return "%s(b%s<%s: %s)" % (op, g[0], show(g[1]), show(g[2]))
    if op in ("inv", "logdet", "chol"):
        return "%s(%s)%s" % (op, show(g[2]), "".join(
            "[%s]" % show(x) for x in g[3:]))
    if op in ("pow", "grp"):
        return "(%s)" % show(g[0])
    if op == "powv":
        return "(%s)^(%s)" % (show(g[0]), show(g[1]))
    return op


# -------------------------------------------------- named intermediate values
DEFS = {}            # name -> (parameters, formula)
_by_body = {}
_size = {}


def size(p, cap=100000):
    n = 0
    for m in p.t:
        for a, e in m:
            n += atom_size(a)
            if n > cap:
                return cap
    return n


def atom_size(a):
    r = _size.get(a)
    if r is None:
        r = 1
        for x in a.args:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, Poly):
                    r += size(y)
                elif isinstance(y, Cond):
                    r += sum(size(q) for q in cond_polys(y))
        _size[a] = r
    return r


def all_atoms(p, seen=None):
    """Every atom occurring in p, at any depth."""
    seen = set() if seen is None else seen
    for m in p.t:
        for a, e in m:
            if a in seen:
                continue
            seen.add(a)
            for x in a.args:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, Poly):
                        all_atoms(y, seen)
                    elif isinstance(y, Cond):
                        for q in cond_polys(y):
                            all_atoms(q, seen)
    return seen


def cut(p, limit=30):
    """p, or a name for it when it is long (equal formulas, equal names)."""
    if size(p) <= limit:
        return p
    if any(a.op == "opq" and not DRAWS.get(a.args[0], {}).get("solid")
           for a in all_atoms(p)):
        return p
    free = sorted((a for a in p.free()), key=lambda a: a.uid)
    if any(a.op != "iv" or a.args[0][0] == "b" for a in free):
        return p
    pars = [Atom("iv", ("p", k)) for k in range(len(free))]
    body = _do_subst(p, {a: Poly.atom(q) for a, q in zip(free, pars)})
    name = _by_body.get(body)
    if name is None:
        name = _by_body[body] = "$%d" % (len(DEFS) + 1)
        DEFS[name] = (pars, body)
        r = rng(p)

        def gen(A, idx):
            k = (name, idx)
            if (A.touched is None or A.once) and k in A.memo:
                return A.memo[k]
            v = A.memo[k] = A.poly(body, dict(zip(pars, idx)))
            return v
        SYM[name] = dict(lo=r[0], hi=r[1], lo_in=r[2], hi_in=r[3],
                         int=integral(p), gen=gen)
    return el(name, *[Poly.atom(a) for a in free])


def cut_cond(c, limit):
    """A condition with its long formulas named."""
    if sum(size(q) for q in cond_polys(c)) <= limit:
        return c
    p = cut(ind(c), 1)
    a = p.one_atom()
    if a is not None and a.op == "el":
        return gt(p, 0)
    return c


def expand(p):
    """p with the names replaced by what they stand for."""
    def f(a):
        if a.op == "el" and a.args[0] in DEFS:
            pars, body = DEFS[a.args[0]]
            return expand(_do_subst(body, {
                q: expand(x) for q, x in zip(pars, a.args[1])}))
        return None
    return rebuild(p, f)
