"""Closed forms of loops: recurrences of the locations a loop body writes."""
import ast
from . import term as T
from .term import (P, Give, Poly, Atom, ZERO, ONE, TRUE, FALSE, INF, fresh_index,
                   fresh_id, gt, ge, lt, eq, no, both, either, ite, ind, fn,
                   total, bind as tbind)
from .vg import (Num, Bool, Const, Tup, Ref, Unk, Arr, Axis, ListV, DictV,
                 ObjV, Many, Rest, Layer, Stop, PyRaise, _Return, _Break, _Continue,
                 same_item, Val)


class Undef(Val):
    pass


UNDEF = Undef()


def changed(e, s0, s1):
    """Locations whose content differs between two snapshots."""
    out = []
    for k, v in s1.env.items():
        if s0.env.get(k) is not v and not (
                k in s0.env and same_item(e, s0.env[k], v)):
            out.append(("env", k))
    for i, c in s0.heap.items():
        d = s1.heap.get(i)
        if d is c or d is None:
            continue
        if isinstance(c, ObjV):
            for k, v in d.fields.items():
                w = c.fields.get(k)
                if w is not v and not (w is not None and
                                       same_item(e, w, v)):
                    out.append(("field", i, k))
        else:
            out.append(("cell", i))
    return out


def get(s, loc):
    if loc[0] == "env":
        return s.env.get(loc[1], UNDEF)
    if loc[0] == "field":
        return s.heap[loc[1]].fields.get(loc[2], UNDEF)
    return s.heap[loc[1]]


def put(e, loc, v):
    if isinstance(v, Undef):
        return
    if loc[0] == "env":
        e.frames[-1].env[loc[1]] = v
    elif loc[0] == "field":
        o = e.heap[loc[1]]
        f = dict(o.fields)
        f[loc[2]] = v
        e.heap[loc[1]] = ObjV(o.cls, f)
    else:
        e.heap[loc[1]] = v


class Acc:
    """The unknown value of a location at the start of an iteration."""

    def __init__(self, loc):
        self.loc, self.id = loc, fresh_id()
        self.varlen = None

    def __repr__(self):
        return "acc%d%r" % (self.id, self.loc)


def atom(i, idx):
    return Poly.atom(Atom("opq", i, tuple(P(x) for x in idx)))


def placeholder(e, acc, init):
    """A value of the same form as init with unknown content."""
    T.DRAWS.setdefault(acc.id, dict(dist="acc"))
    if isinstance(init, Num):
        d = T.DRAWS[acc.id]
        d["int"] = init.kind == "i"
        return Num(atom(acc.id, ()), init.kind)
    if isinstance(init, Bool):
        d = T.DRAWS[acc.id]
        d.update(int=True, lo=0, hi=1, lo_in=True, hi_in=True)
        return Bool(eq(atom(acc.id, ()), 1))
    if isinstance(init, Arr):
        return acc_arr(e, acc, init)
    if isinstance(init, Ref) and init.kind == "arr":
        return e.new("arr", acc_arr(e, acc, e.heap[init.i]))
    if isinstance(init, ListV):
        return ListV([Rest(acc.id)])
    if isinstance(init, Ref) and init.kind == "list":
        return e.new("list", ListV([Rest(acc.id)]))
    if isinstance(init, DictV):
        return DictV((), (), init.factory, ("acc", acc.id, init))
    if isinstance(init, Ref) and init.kind == "dict":
        return e.new("dict", DictV((), (), e.heap[init.i].factory,
                                   ("acc", acc.id, e.heap[init.i])))
    return Unk("loop-carried %s" % (acc.loc,))


def acc_arr(e, acc, a):
    T.DRAWS[acc.id]["int"] = a.dt in ("i", "b")
    if a.dt == "b":
        T.DRAWS[acc.id].update(lo=0, hi=1, lo_in=True, hi_in=True)
    shape = list(a.shape)
    if acc.varlen is not None:
        shape = []
        for k, ax in enumerate(a.shape):
            if acc.varlen[k] is None:
                shape.append(ax)
            else:
                shape.append(Axis(atom(acc.varlen[k], ())))
    vs = [fresh_index() for _ in a.shape]
    return Arr(shape, vs, atom(acc.id, vs), a.dt)


def acc_ids(e, v, ids, seen=None):
    """Accumulator ids occurring in a value."""
    out = set()

    def poly(p):
        for a in all_atoms(p):
            if a.op == "opq" and a.args[0] in ids:
                out.add(a.args[0])

    def cond(c):
        for q in c.args:
            (cond if not isinstance(q, Poly) else poly)(q)

    def val(x, depth=0):
        if depth > 6:
            return
        if isinstance(x, Num):
            poly(x.p)
        elif isinstance(x, Bool):
            cond(x.c)
        elif isinstance(x, Tup):
            for y in x.items:
                val(y, depth + 1)
        elif isinstance(x, Ref) and x.kind in ("arr", "list", "dict"):
            val(e.heap[x.i], depth + 1)
        elif isinstance(x, Arr):
            poly(x.body)
            for ax in x.shape:
                poly(ax.n)
                if ax.filt is not None:
                    cond(ax.filt)
        elif isinstance(x, ListV):
            for y in x.items:
                if isinstance(y, Rest):
                    if y.i in ids:
                        out.add(y.i)
                elif isinstance(y, Many):
                    poly(y.n)
                    cond(y.guard)
                    val(y.tmpl, depth + 1)
                else:
                    val(y, depth + 1)
        elif isinstance(x, DictV):
            for _, y in x.items:
                val(y, depth + 1)
            for l in x.layers:
                cond(l.cond)
                val(l.tmpl, depth + 1)
            if x.base is not None and x.base[1] in ids:
                out.add(x.base[1])
    val(v)
    return out


_atoms_memo = {}


def all_atoms(p):
    r = _atoms_memo.get(p)
    if r is not None:
        return r
    out, stack, seen = set(), list(p.atoms()), set()

    def push(x):
        if isinstance(x, Poly):
            stack.extend(x.atoms())
        elif isinstance(x, T.Cond):
            for y in x.args:
                push(y)
        elif isinstance(x, tuple):
            for y in x:
                push(y)
    while stack:
        a = stack.pop()
        if a in seen:
            continue
        seen.add(a)
        out.add(a)
        for x in a.args:
            push(x)
    _atoms_memo[p] = out
    return out


def replace_atoms(p, ids, f):
    """Replace opq atoms with id in ids through f(id, idx)."""
    if not any(a.op == "opq" and a.args[0] in ids for a in all_atoms(p)):
        return p

    def g(a):
        if a.op == "opq" and a.args[0] in ids:
            return f(a.args[0], tuple(replace_atoms(x, ids, f)
                                      for x in a.args[1]))
        if not any(isinstance(x, (Poly, T.Cond, tuple)) for x in a.args):
            return Poly.atom(a)
        return None
    return T.rebuild(p, g)


def lin(p, i, idx):
    """p = a * acc(idx) + b -> (a, b) or None."""
    a, b = ZERO, ZERO
    for m, c in p.t.items():
        hit = [q for q in m if mentions(q[0], i)]
        if not hit:
            b = b + Poly({m: c})
            continue
        if len(hit) > 1:
            return None
        x, ex = hit[0]
        if ex != 1:
            return None
        rest = Poly({tuple(q for q in m if q[0] is not x): c})
        if x.op == "opq" and x.args[0] == i:
            if tuple(x.args[1]) != tuple(idx):
                return None
            a = a + rest
        elif x.op == "ite":
            if cond_mentions(x.args[0], i):
                return None
            u, w = lin(x.args[1], i, idx), lin(x.args[2], i, idx)
            if u is None or w is None:
                return None
            a = a + rest * ite(x.args[0], u[0], w[0])
            b = b + rest * ite(x.args[0], u[1], w[1])
        elif x.op == "grp":
            u = lin(x.args[0], i, idx)
            if u is None:
                return None
            a = a + rest * u[0]
            b = b + rest * u[1]
        else:
            return None
    return a, b


def mentions(a, i):
    return any(x.op == "opq" and x.args[0] == i
               for x in all_atoms(Poly.atom(a)))


def pmentions(p, i):
    return any(x.op == "opq" and x.args[0] == i for x in all_atoms(p))


def cond_mentions(c, i):
    return any(pmentions(q, i) if isinstance(q, Poly) else
               cond_mentions(q, i) for q in c.args)


def recurrence(e, p, i, idx, init, v, t, guard):
    """Closed form at the start of iteration t of acc(idx) := p."""
    g = guard(v)
    if not pmentions(p, i):
        return last_value(e, p, init, v, t, g)
    r = store_form(e, p, i, idx, init, v, t, g)
    if r is not None:
        return r
    ab = lin(p, i, idx)
    if ab is not None:
        a, b = ab
        if a == ONE:
            return init + tbind("sum", v, t, b * ind(g))
        if b == ZERO:
            f = a if g.op == "true" else ite(g, a, ONE)
            return init * tbind("prod", v, t, f)
    # running maximum / minimum
    x = p.one_atom()
    if x is not None:
        me = atom(i, idx)
        cand = None
        if x.op == "fn" and x.args[0] in ("max2", "min2"):
            q = [y for y in x.args[1] if y != me]
            if len(q) == 1 and not pmentions(q[0], i):
                cand = (x.args[0][:3], q[0])
        elif x.op == "ite":
            c, y, z = x.args
            if y == me and not pmentions(z, i):
                other, up = z, gt(z, me)
                if no(c) == up or c == no(up) or c == gt(me, z) or \
                        c == ge(me, z):
                    cand = ("max", z)
                elif c == gt(z, me) or c == ge(z, me):
                    cand = ("min", z)
            elif z == me and not pmentions(y, i):
                if c in (gt(y, me), ge(y, me)):
                    cand = ("max", y)
                elif c in (gt(me, y), ge(me, y)):
                    cand = ("min", y)
        if cand and g.op == "true":
            k, y = cand
            return fn(k + "2", init, tbind(k, v, t, y))
    return None


def last_value(e, p, init, v, t, g):
    if g.op != "true":
        return None
    # the value written by iteration t - 1
    new = T.subst(p, v, t - 1)
    c = gt(t, 0)
    r = e.decide(c)
    if r is True:
        return new
    if init is None:
        return new
    return step_or_init(t, new, T.subst(p, v, P(-1)), init)


def step_or_init(t, new, at0, init):
    """Value at iteration t; the formula may hold at t = 0 as well."""
    if at0 == init:
        return new
    return ite(gt(t, 0), new, init)


def store_form(e, p, i, idx, init, v, t, g):
    """acc[idx] := X if idx == f(v) else acc[idx]."""
    x = p.one_atom()
    if x is None or x.op != "ite":
        return None
    me = atom(i, idx)
    c, y, z = x.args
    if y == me:
        c, y, z = no(c), z, y
    if z != me or pmentions(y, i):
        return None
    parts = list(c.args) if c.op == "and" else [c]
    va = v.one_atom()
    for k, q in enumerate(parts):
        if q.op != "eq0":
            continue
        pp = q.args[0]
        co = pp.t.get(((va, 1),))
        if co is None or abs(co) != 1:
            continue
        rest = pp - Poly.atom(va) * co
        if va in rest.free():
            continue
        at = rest * T.qdiv(-1, co)
        cs = [T.subst_cond(o, {v: at}) for m, o in enumerate(parts)
              if m != k]
        cs += [ge(at, 0), gt(t, at), T.subst_cond(g, {v: at})]
        return ite(both(*cs), T.subst(y, v, at), init)
    return None


# ---------------------------------------------------------------- driver
class Solver:
    def __init__(self, e, n, guard, v):
        self.e, self.n, self.guard, self.v = e, n, guard, v
        self.accs = {}
        self.ids = {}
        self.closed = {}       # loc -> function t -> value

    def closed_poly(self, t):
        """Rewriter of acc atoms to their closed form at iteration t."""
        e = self.e

        def f(i, idx):
            if i in self.lens:
                return self.lens[i](t)
            loc = self.ids[i].loc
            val = self.closed[loc](t)
            if isinstance(val, Ref) and val.kind == "arr":
                val = e.heap[val.i]
            if isinstance(val, Num):
                return val.p
            if isinstance(val, Bool):
                return ind(val.c)
            if isinstance(val, Arr):
                return val.at(*idx)
            if isinstance(val, DictV) or isinstance(val, Ref) and \
                    val.kind == "dict":
                return self.dict_entry(i, idx, val, t)
            return atom(self.havoc_of(i), (t,) + tuple(idx))
        ids = set(self.ids) | set(self.lens)
        return lambda p: replace_atoms(p, ids, f)

    def dict_entry(self, i, idx, val, t):
        return atom(self.havoc_of(i), (t,) + tuple(idx))

    def havoc_of(self, i):
        h = self.havocs.get(i)
        if h is None:
            d = T.DRAWS.get(i, {})
            h = self.havocs[i] = fresh_id()
            T.DRAWS[h] = {k: x for k, x in d.items()}
            T.DRAWS[h]["dist"] = "havoc"
        return h

    havocs = None
    lens = None


def solve(e, n, guard, bind, run, forever=False):
    """Run a loop over v < n with guard; True when left by break."""
    if not forever:
        if e.decide(gt(n, 0)) is False:
            return False
    v = fresh_index()
    s0 = e.snapshot()
    S = Solver(e, n, guard, v)
    S.havocs, S.lens = {}, {}
    S.share, S.apart = {}, set()
    nd0, nm0, nr0 = len(e.draws), len(e.marks), len(e.may_raise)
    loop_facts = [guard(v)] if forever else [gt(n, v), guard(v)]

    def body():
        bind(v)
        run()

    place = {}
    paths = None
    for attempt in range(10):
        e.restore(s0)
        for loc, acc in S.accs.items():
            place[loc] = placeholder(e, acc, init_of(s0, loc))
            put(e, loc, place[loc])
        s1 = e.snapshot()
        e.loopvars.append((v, n, guard(v)))
        e.facts += [f for f in loop_facts if f.op != "true"]
        del e.draws[nd0:], e.marks[nm0:], e.may_raise[nr0:]
        try:
            paths = e.explore(body)
        finally:
            e.loopvars.pop()
        for conds, kind, val, s in paths:
            for i, c in s.heap.items():
                if i not in e.heap:
                    e.heap[i] = c
        again = False
        for conds, kind, val, s in paths:
            for loc in changed(e, s1, s):
                if loc not in S.accs:
                    acc = Acc(loc)
                    S.accs[loc] = acc
                    S.ids[acc.id] = acc
                    again = True
                elif kind == "ok" and not again:
                    again |= need_varlen(e, S, loc, place[loc],
                                         get(s, loc), init_of(s0, loc))
        if not again:
            again = split_lengths(e, S, [s for c, k, val, s in paths
                                         if k == "ok"])
        if not again:
            break
    else:
        raise Stop("loop does not stabilise")
    heap = e.heap
    e.restore(s0)
    e.heap.update({i: c for i, c in heap.items() if i not in e.heap})
    oks = [(c, s) for c, k, val, s in paths if k == "ok"]
    for c, k, val, s in paths:
        if k == "raise":
            m = e.lib.Need(
                id=None, kind="raise", what=val.name, cond=no(both(*c)),
                shape=[], vars=[], params={}, arrays={},
                loops=list(e.loopvars) + [(v, n, guard(v))],
                facts=list(e.facts), where=val.where or e.where(),
                func=e.func_name())
            e.marks.append(m)
    exits = [(c, k, val, s) for c, k, val, s in paths
             if k in ("return", "break")]
    if not oks and not exits:
        r = [val for c, k, val, s in paths if k == "raise"][0]
        if not forever and not e.choose(gt(n, 0)):
            return False
        raise r
    common = set(oks[0][0]) if oks else set()
    for c, s in oks:
        common &= set(c)
    # value after one iteration
    new = {}
    for loc in S.accs:
        val = None
        for c, s in oks:
            x = get(s, loc)
            if isinstance(x, Undef):
                continue
            cc = both(*[q for q in c if q not in common])
            if val is None:
                val = x
            else:
                val = merge_content(e, cc, x, val)
        new[loc] = val if val is not None else init_of(s0, loc)
    order_and_close(e, S, s0, new, v)
    at_v = S.closed_poly(v)
    # recorded events get the closed forms
    for rec in e.draws[nd0:]:
        rec.rewrite(e, at_v)
    for rec in e.marks[nm0:]:
        rec.rewrite(e, at_v)
    out_n = n
    left = None
    if exits:
        ex = []
        for c, k, val, s in exits:
            cc = T.map_cond(both(*[q for q in c]), at_v)
            ex.append((cc, k, val, s))
        anyc = either(*[x[0] for x in ex])
        taken = True
        if not forever:
            taken = e.choose(gt(total(v, n, ind(both(guard(v), anyc))), 0))
        if taken:
            at = exit_index(e, v, anyc, forever)
            fs = [T.subst_cond(anyc, {v: at})]
            if not forever:
                fs.append(gt(n, at))
            fs.append(T.subst_cond(guard(v), {v: at}))
            for q in fs:
                if q.op != "true" and q not in e.facts:
                    e.facts.append(q)
            e.univ.append((v, at, no(anyc)))
            pick = ex[-1]
            for x in ex[:-1]:
                if e.choose(T.subst_cond(x[0], {v: at})):
                    pick = x
                    break
            left = (at, pick)
            out_n = at
        else:
            e.univ.append((v, n, both(guard(v), no(anyc))))
    keep = [T.map_cond(q, at_v) for q in common]
    if keep and oks:
        e.univ.append((v, out_n, both(*keep)))
    if forever and left is not None:
        for rec in e.draws[nd0:] + e.marks[nm0:]:
            rec.rewrite(e, lambda p: T.rebuild(
                p, lambda a: out_n if a is n.one_atom() else
                (None if any(isinstance(z, (Poly, T.Cond, tuple))
                             for z in a.args) else Poly.atom(a))))
    for loc in S.accs:
        put(e, loc, S.closed[loc](out_n))
    if left is None:
        return False
    at, (cc, k, val, s) = left
    at_e = S.closed_poly(at)

    def fin(p):
        return at_e(T.subst(p, v, at))
    for loc in changed(e, s1_locs(S, place, s0), s):
        pass
    for loc in S.accs:
        x = get(s, loc)
        if same_content(e, x, place[loc]):
            continue
        put(e, loc, map_content(e, x, fin, S))
    if k == "break":
        return True
    raise _Return(e.map_val(val, fin))


def s1_locs(S, place, s0):
    return s0


def same_content(e, x, y):
    if x is y:
        return True
    if isinstance(x, Val) and isinstance(y, Val):
        return same_item(e, x, y)
    return False


def init_of(s0, loc):
    if loc[0] != "env" and loc[1] not in s0.heap:
        raise Stop("in-place change of a rebound array in a loop")
    return get(s0, loc)


def exit_index(e, v, c, forever):
    """The first index where condition c holds."""
    # K - v <= 0  ->  K
    va = v.one_atom()
    q = c
    p = None
    if q.op == "gt0":
        p = q.args[0]
        # v - K > 0 for integers: first v is K + 1
        co = p.t.get(((va, 1),))
        if co == 1 and va not in (p - v).free() and T.integral(p):
            k = 1 - (p - v)
            return clip(e, k)
    if q.op == "not" and q.args[0].op == "gt0":
        p = q.args[0].args[0]
        co = p.t.get(((va, 1),))
        if co == -1 and va not in (p + v).free() and T.integral(p):
            return clip(e, p + v)
    outer = tuple(x[0] for x in e.loopvars)

    def first(A, idx, env):
        env = dict(zip([q.one_atom() for q in outer], idx))
        for t in range(48):
            env[va] = t
            if A.cond(c, env):
                return t
        raise Give("loop runs too long to evaluate")
    i = e.opaque(lo=0, integer=True, gen=first)
    return Poly.atom(Atom("opq", i, outer))


def clip(e, k):
    r = e.decide(ge(k, 0))
    if r is True:
        return k
    if r is False:
        return ZERO
    return fn("max2", k, ZERO)


def merge_content(e, c, x, y):
    if x is y:
        return x
    if isinstance(x, Arr) and isinstance(y, Arr):
        r = e.merge_arr(c, x, y)
        return r if r is not None else None
    if isinstance(x, ListV) and isinstance(y, ListV):
        return e.merge_list(c, x, y)
    if isinstance(x, DictV) and isinstance(y, DictV):
        return merge_dict(e, c, x, y)
    if isinstance(x, Val) and isinstance(y, Val):
        return e.merge(c, x, y)
    return None


def merge_dict(e, c, x, y):
    if x.base != y.base:
        return None
    if len(x.items) == len(y.items) and len(x.layers) == len(y.layers) and \
            all(a is b for (_, a), (_, b) in zip(x.items, y.items)) and \
            all(a is b for a, b in zip(x.layers, y.layers)):
        return x
    if x.items != y.items:
        return None
    a, b, g = (x, y, c) if len(x.layers) > len(y.layers) else (y, x, no(c))
    k = len(b.layers)
    if len(a.layers) == k or not all(
            p is q for p, q in zip(a.layers, b.layers)):
        return None
    return DictV(x.items, tuple(b.layers) + tuple(
        Layer(l.var, both(l.cond, g), l.tmpl) for l in a.layers[k:]),
        x.factory, x.base)


def map_content(e, x, f, S):
    if isinstance(x, Arr):
        return Arr([a.map(f) for a in x.shape], x.vars, f(x.body), x.dt)
    if isinstance(x, Val):
        return e.map_val(x, f)
    if isinstance(x, ListV):
        return ListV([e.map_item(i, f) for i in x.items])
    return x


def length_of(e, S, loc, k, x):
    if isinstance(x, Ref) and x.kind == "arr":
        x = e.heap[x.i]
    if isinstance(x, Arr) and len(x.shape) > k and x.shape[k].filt is None:
        return x.shape[k].n
    return None


def split_lengths(e, S, snaps):
    """Lengths assumed equal must stay equal over one iteration."""
    by = {}
    for loc, acc in S.accs.items():
        for k, i in enumerate(acc.varlen or ()):
            if i is not None:
                by.setdefault(i, []).append((loc, k))
    again = False
    for i, places in by.items():
        if len(places) < 2:
            continue
        for s in snaps:
            old = e.snapshot()
            e.restore(s)
            ns = [length_of(e, S, loc, k, get(s, loc))
                  for loc, k in places]
            e.restore(old)
            if any(x is None or x != ns[0] for x in ns):
                for loc, k in places[1:]:
                    j = fresh_id()
                    T.DRAWS[j] = dict(T.DRAWS[i])
                    S.accs[loc].varlen[k] = j
                    S.apart.add((loc, k))
                again = True
                break
    return again


def need_varlen(e, S, loc, old, new, init=None):
    if isinstance(old, Ref) and old.kind == "arr":
        old = e.heap[old.i]
    if isinstance(new, Ref) and new.kind == "arr":
        new = e.heap[new.i]
    if not (isinstance(old, Arr) and isinstance(new, Arr)):
        return False
    if old.ndim != new.ndim:
        return False
    acc = S.accs[loc]
    diff = [k for k in range(old.ndim)
            if not old.shape[k].same(new.shape[k])]
    if acc.varlen is None:
        acc.varlen = [None] * old.ndim
    more = False
    for k in diff:
        if acc.varlen[k] is None:
            n0 = length_of(e, S, loc, k, init)
            if n0 is not None and n0 in S.share and \
                    (loc, k) not in S.apart:
                acc.varlen[k] = S.share[n0]
                more = True
                continue
            i = fresh_id()
            if n0 is not None:
                S.share.setdefault(n0, i)
            lo = T.rng(old.shape[k].n)[0]
            T.DRAWS[i] = dict(dist="length", lo=max(0, lo), hi=INF,
                              lo_in=True, hi_in=False, int=True)
            acc.varlen[k] = i
            more = True
    return more


def order_and_close(e, S, s0, new, v):
    todo = dict(S.accs)
    ids = set(S.ids)
    deps = {}
    for loc, acc in todo.items():
        deps[loc] = {S.ids[i].loc for i in acc_ids(e, new[loc], ids)} - {
            loc}
    lens_of = {}
    for loc, acc in todo.items():
        for i in (acc.varlen or ()):
            if i is not None:
                lens_of[i] = loc
    done = set()
    while todo:
        ready = [l for l in todo if not (deps[l] - done)]
        if not ready:
            # mutual dependency: the one most others need is unknown
            l = max(todo, key=lambda q: sum(q in deps[x] for x in todo))
            S.closed[l] = havoc(e, S, s0, l, new[l])
            done.add(l)
            del todo[l]
            continue
        for l in ready:
            x = new[l]
            S.closed[l] = close(e, S, s0, l, x, v)
            done.add(l)
            del todo[l]


def rewrite_deps(e, S, loc, x, v):
    ids = {i for i in S.ids if S.ids[i].loc in S.closed}
    if not ids and not S.lens:
        return x
    f = S.closed_poly(v)
    own = S.accs[loc].id

    def g(p):
        return f(p)
    # only already closed accumulators are rewritten
    sub = Solver(e, S.n, S.guard, v)
    sub.ids = {i: S.ids[i] for i in ids}
    sub.closed = S.closed
    sub.havocs, sub.lens = S.havocs, S.lens
    return map_content(e, x, sub.closed_poly(v), S)


def close(e, S, s0, loc, x, v):
    acc = S.accs[loc]
    init = init_of(s0, loc)
    try:
        x = rewrite_deps(e, S, loc, x, v)
    except Stop:
        return havoc(e, S, s0, loc, x)
    if isinstance(x, Num) and isinstance(init, (Num, Undef)):
        def c(t):
            p = recurrence(e, x.p, acc.id, (), None if isinstance(
                init, Undef) else init.p, v, P(t), S.guard)
            return None if p is None else Num(p, x.kind)
        if not (isinstance(init, Undef) and pmentions(x.p, acc.id)):
            r = c(fresh_index())
            if r is not None:
                return c
    if isinstance(x, Bool) and isinstance(init, (Bool, Undef)):
        if not cond_mentions(x.c, acc.id) and S.guard(v).op == "true":
            def c(t):
                y = T.subst_cond(x.c, {v: P(t) - 1})
                if isinstance(init, Undef):
                    return Bool(y)
                g = gt(t, 0)
                return Bool(either(both(g, y), both(no(g), init.c)))
            return c
    ax = e.heap[x.i] if isinstance(x, Ref) and x.kind == "arr" else x
    ai = e.heap[init.i] if isinstance(init, Ref) and init.kind == "arr" \
        else init
    if isinstance(ax, Arr) and isinstance(ai, (Arr, Undef)):
        r = close_arr(e, S, acc, ax, ai, v, wrap=isinstance(x, Ref))
        if r is not None:
            return r
    lx = e.heap[x.i] if isinstance(x, Ref) and x.kind == "list" else x
    li = e.heap[init.i] if isinstance(init, Ref) and init.kind == "list" \
        else init
    if isinstance(lx, ListV) and isinstance(li, (ListV, Undef)):
        r = close_list(e, S, acc, lx, li, v, wrap=isinstance(x, Ref))
        if r is not None:
            return r
    dx = e.heap[x.i] if isinstance(x, Ref) and x.kind == "dict" else x
    di = e.heap[init.i] if isinstance(init, Ref) and init.kind == "dict" \
        else init
    if isinstance(dx, DictV) and isinstance(di, DictV):
        r = close_dict(e, S, acc, dx, di, v, wrap=isinstance(x, Ref))
        if r is not None:
            return r
    if isinstance(x, Val) and not acc_ids(e, x, {acc.id}) and \
            S.guard(v).op == "true" and isinstance(init, Undef):
        return lambda t: e.subst_val(x, v, P(t) - 1)
    if isinstance(x, Val) and not acc_ids(e, x, {acc.id}) and \
            S.guard(v).op == "true" and isinstance(x, (Ref, Tup)) and \
            e.decide(gt(S.n, 0)) is True:
        return lambda t: e.subst_val(x, v, P(t) - 1)
    return havoc(e, S, s0, loc, x)


def close_arr(e, S, acc, x, init, v, wrap):
    if isinstance(init, Undef):
        if acc_ids(e, x, {acc.id}) or S.guard(v).op != "true":
            return None

        def c0(t):
            r = Arr([a.map(lambda p: T.subst(p, v, P(t) - 1))
                     for a in x.shape], x.vars,
                    T.subst(x.body, v, P(t) - 1), x.dt)
            return e.new("arr", r) if wrap else r
        return c0
    if x.ndim != init.ndim:
        return None
    if acc.varlen and any(i is not None for i in acc.varlen):
        return close_varlen(e, S, acc, x, init, v, wrap)
    if not all(a.same(b) for a, b in zip(x.shape, init.shape)):
        # overwritten by a fresh array of another size
        if not acc_ids(e, x, {acc.id}) and S.guard(v).op == "true" and \
                e.decide(gt(S.n, 0)) is True:
            def c2(t):
                r = Arr([a.map(lambda p: T.subst(p, v, P(t) - 1))
                         for a in x.shape], x.vars,
                        T.subst(x.body, v, P(t) - 1), x.dt)
                return e.new("arr", r) if wrap else r
            return c2
        return None
    dt = x.dt if x.dt == init.dt else "f"

    def c(t):
        p = recurrence(e, x.body, acc.id, x.vars, init.at(*x.vars), v, P(t),
                       S.guard)
        if p is None:
            return None
        r = Arr(init.shape, x.vars, p, dt)
        return e.new("arr", r) if wrap else r
    if c(fresh_index()) is None:
        return None
    return c


def close_varlen(e, S, acc, x, init, v, wrap):
    """Arrays that change length: known only when a prefix is kept."""
    axes = [k for k, i in enumerate(acc.varlen) if i is not None]
    if len(axes) != 1:
        return None
    k = axes[0]
    own = {acc.id, acc.varlen[k]}
    if S.guard(v).op == "true" and all(a.filt is None for a in x.shape) and \
            not acc_ids(e, x, own):
        # recomputed by every iteration from other, already closed values
        y0, ym = init.at(*x.vars), T.subst(x.body, v, P(-1))

        def size(t):
            return step_or_init(P(t), T.subst(x.shape[k].n, v, P(t) - 1),
                                T.subst(x.shape[k].n, v, P(-1)),
                                init.shape[k].n)
        S.lens[acc.varlen[k]] = size

        def c0(t):
            t = P(t)
            sh = [Axis(size(t)) if i == k else a
                  for i, a in enumerate(init.shape)]
            r = Arr(sh, x.vars, step_or_init(
                t, T.subst(x.body, v, t - 1), ym, y0), x.dt)
            return e.new("arr", r) if wrap else r
        return c0
    known = S.lens.get(acc.varlen[k])   # closed with another array's
    L = known(v) if known is not None else atom(acc.varlen[k], ())
    me = atom(acc.id, x.vars)
    grows = T.rng(x.shape[k].n - L)[0] >= 0
    kept = T.assume(x.body, gt(L, x.vars[k])) == me
    hl = fresh_id()
    lo = T.rng(init.shape[k].n)[0]
    T.DRAWS[hl] = dict(dist="length", lo=max(0, lo), hi=INF, lo_in=True,
                       hi_in=False, int=True)
    # constant growth per iteration has a closed length
    ab = lin(x.shape[k].n, acc.varlen[k], ())
    if known is not None:
        ab = None
        if L == init.shape[k].n + v:
            step = x.shape[k].n - L
            if v.one_atom() not in step.free():
                ab = (ONE, step)
    h = fresh_id()
    T.DRAWS[h] = dict(T.DRAWS[acc.id], dist="havoc", int=x.dt == "i")
    L0 = init.shape[k].n

    def length(t):
        if known is not None:
            return known(t)
        if ab is not None and ab[0] == ONE:
            return L0 + tbind("sum", v, P(t), ab[1] * ind(S.guard(v)))
        return atom(hl, (t,))
    S.lens[acc.varlen[k]] = length
    if grows and kept and not (ab is not None and ab[0] == ONE):
        e.facts.append(ge(length(S.n), L0))

    # one entry appended per iteration: entry L0 + t comes from iteration t
    entry = None
    if grows and kept and ab is not None and ab == (ONE, ONE) and \
            S.guard(v).op == "true":
        el_ = T.subst(T.assume(x.body, no(gt(L, x.vars[k]))), x.vars[k], L)
        el_ = replace_atoms(el_, {acc.varlen[k]}, lambda i, idx: L0 + v)
        if not pmentions(el_, acc.id):
            entry = el_
    if entry is None:
        keep_range(e, acc, x, init, h)

    def c(t):
        n = length(t)
        vs = [fresh_index() for _ in init.shape]
        sh = [Axis(n) if i == k else a for i, a in enumerate(init.shape)]
        if entry is not None:
            late = T.subst_many(entry, dict(
                [(v, vs[k] - L0)] + [(x.vars[i], vs[i])
                                     for i in range(len(vs)) if i != k]))
            body = ite(gt(L0, vs[k]), init.at(*vs), late)
        elif grows and kept:
            body = ite(gt(L0, vs[k]), init.at(*vs), atom(h, vs))
        else:
            body = atom(h, [P(t)] + vs)
        r = Arr(sh, vs, body, x.dt)
        r.prefix = grows and kept
        return e.new("arr", r) if wrap else r
    return c


def keep_range(e, acc, x, init, h):
    """Give a carried array an interval every iteration preserves."""
    b0 = init.body
    for i, ax in zip(init.vars, init.shape):
        b0 = T.assume(b0, both(gt(ax.n, i), ge(i, 0)))
    i0 = T.rng(b0)
    for lo, hi in ((0, 1), (0, INF)):
        if i0[0] < lo or i0[1] > hi:
            continue
        d = T.DRAWS[acc.id]
        old = dict(d)
        d.update(lo=lo, hi=hi, lo_in=True, hi_in=hi < INF)
        T.forget_ranges()
        r = T.rng(x.body)
        if r[0] >= lo and r[1] <= hi:
            T.DRAWS[h].update(lo=lo, hi=hi, lo_in=True, hi_in=hi < INF)
            return
        d.clear()
        d.update(old)
        T.forget_ranges()


def close_list(e, S, acc, x, init, v, wrap):
    items = x.items
    if isinstance(init, Undef) or not (
            items and isinstance(items[0], Rest) and items[0].i == acc.id):
        if acc_ids(e, x, {acc.id}) or S.guard(v).op != "true":
            return None
        if not isinstance(init, Undef) and e.decide(gt(S.n, 0)) is not True:
            return None

        def c0(t):
            r = ListV([e.map_item(i, lambda p: T.subst(p, v, P(t) - 1))
                       for i in items])
            return e.new("list", r) if wrap else r
        return c0
    tail = items[1:]
    if acc_ids(e, ListV(tail), {acc.id}):
        return None
    if len(tail) == 0:
        def c1(t):
            return e.new("list", init) if wrap else init
        return c1
    if len(tail) != 1:
        return None
    q = tail[0]
    g = S.guard(v)
    if isinstance(q, Many):
        if q.n != ONE:
            return None
        g = both(g, q.guard)
        q = q.tmpl

    def c(t):
        r = ListV(list(init.items) + [Many(v, P(t), q, g)])
        return e.new("list", r) if wrap else r
    return c


def close_dict(e, S, acc, x, init, v, wrap):
    if x.base is None or x.base[:2] != ("acc", acc.id):
        return None
    if x.items:
        return None
    if acc_ids(e, DictV((), x.layers), {acc.id}):
        return None
    va = v.one_atom()
    lay = []
    for l in x.layers:
        parts = list(l.cond.args) if l.cond.op == "and" else [l.cond]
        hit = [q for q in parts if q == eq(l.var, v)]
        if not hit:
            return None
        lay.append((l, [q for q in parts if q not in hit]))

    def c(t):
        out = list(init.layers)
        for l, rest in lay:
            cs = [T.subst_cond(q, {v: l.var}) for q in rest]
            cs += [gt(t, l.var), ge(l.var, 0),
                   T.subst_cond(S.guard(v), {v: l.var})]
            out.append(Layer(l.var, both(*cs),
                             e.subst_val(l.tmpl, v, l.var)))
        r = DictV(init.items, out, init.factory, init.base)
        return e.new("dict", r) if wrap else r
    return c


def havoc(e, S, s0, loc, x):
    """Unknown value, the same for the same iteration."""
    acc = S.accs[loc]
    init = init_of(s0, loc)
    wrap = isinstance(init, Ref) and init.kind in ("arr", "list", "dict")
    c = e.heap[init.i] if wrap else init
    hid = S.havoc_of(acc.id)
    if isinstance(init, Num) and isinstance(x, Num):
        T.DRAWS[hid]["int"] = init.kind == "i" and x.kind == "i"
        return lambda t: Num(atom(hid, (t,)), x.kind)
    if isinstance(init, Bool) and isinstance(x, Bool):
        T.DRAWS[hid].update(int=True, lo=0, hi=1, lo_in=True, hi_in=True)
        return lambda t: Bool(eq(atom(hid, (t,)), 1))
    if isinstance(c, Arr):
        y = e.heap[x.i] if isinstance(x, Ref) and x.kind == "arr" else x
        if isinstance(y, Arr) and y.ndim == c.ndim:
            if acc.varlen and any(i is not None for i in acc.varlen):
                r = close_varlen(e, S, acc, y, c, S.v, wrap)
                if r is not None:
                    return r
            elif all(a.same(b) for a, b in zip(y.shape, c.shape)):
                keep_range(e, acc, y, c, hid)

                def f(t):
                    vs = [fresh_index() for _ in c.shape]
                    r = Arr(c.shape, vs, atom(hid, [P(t)] + vs), y.dt)
                    return e.new("arr", r) if wrap else r
                return f
    for i in (acc.varlen or ()):
        if i is not None:
            S.lens[i] = lambda t, i=i: atom(S.havoc_of(i), (t,))
    if isinstance(c, DictV):
        g = fresh_id()
        T.DRAWS[g] = dict(dist="havoc")

        def f(t):
            r = DictV((), (), c.factory, ("havoc", hid, c, P(t)))
            return e.new("dict", r) if wrap else r
        return f
    if isinstance(c, ListV):
        def f(t):
            r = ListV([Rest(hid)])
            return e.new("list", r) if wrap else r
        return f
    return lambda t: Unk("loop-carried %s" % (loc,))


def solve_while(e, st):
    """A while loop; True when left by break."""
    ni = e.opaque(lo=0, integer=True)
    T.DRAWS[ni]["dist"] = "length"
    N = Poly.atom(Atom("opq", ni, tuple(x[0] for x in e.loopvars)))
    broke = []

    def run():
        if not e.truth(e.eval(st.test)):
            raise _Break()
        e.block(st.body)
    # a condition that is false at once
    try:
        c = e.cond(e.eval(st.test))
        if e.decide(c) is False:
            return False
    except Stop:
        pass
    for _ in range(getattr(e, "peel", 0)):
        # a loop the settings bound: iterations one at a time
        if not e.truth(e.eval(st.test)):
            return False
        try:
            e.block(st.body)
        except _Break:
            return True
        except _Continue:
            pass
    if getattr(e, "peel", 0):
        raise Stop("loop longer than the settings allow")
    solve(e, N, lambda i: TRUE, lambda i: None, run, forever=True)
    return False
