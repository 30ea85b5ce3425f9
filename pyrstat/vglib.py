"""numpy, scipy and built-in operations on index-notation values."""
from fractions import Fraction
from . import term as T
from .term import (P, Poly, Atom, ZERO, ONE, TRUE, FALSE, INF, fresh_index,
                   fresh_id, gt, ge, lt, le, eq, no, both, either, ite, ind,
                   fn, power, total, bind)

FN = {}
SPECIAL = {}


def lib(*names):
    def deco(f):
        for n in names:
            FN[n] = f
        return f
    return deco


class RngV(object):
    pass


def _vg():
    from . import vg
    return vg


from .vg import (Num, Bool, Const, Tup, Ref, Func, Bound, Cls, Mod, Ext,
                 Meth, Range, SliceV, Lazy, Unk, Val, Arr, Axis, ListV, DictV,
                 ObjV, Many, Rest, Layer, Stop, PyRaise, NONE, FV, Draw,
                 to_cond)


class Rng(Val):
    """A random generator."""

    def __init__(self, name="rng"):
        self.name = name


class Opaque(Val):
    """An object that answers every method through a handler."""

    def __init__(self, name, handler, attrs=None):
        self.name, self.handler, self.attrs = name, handler, attrs or {}


class Frame_(Val):
    """A data frame or series: an array with a name of its own."""

    def __init__(self, kind, ref):
        self.kind, self.ref = kind, ref


PI = Poly.atom(Atom("sym", "pi"))
T.SYM["pi"] = dict(lo=3.14159265358, hi=3.1415926536, lo_in=False,
                   hi_in=False, int=False, gen=lambda a, i: 3.141592653589793)
EPS = Poly.atom(Atom("sym", "eps"))
T.SYM["eps"] = dict(lo=0, hi=1e-15, lo_in=False, hi_in=False, int=False,
                    gen=lambda a, i: 2.220446049250313e-16)
PINF = Poly.const(INF)


# ------------------------------------------------------------ conversions
def toarr(e, v):
    """Value as Arr."""
    if isinstance(v, Num):
        return Arr((), (), v.p, v.kind)
    if isinstance(v, Bool):
        return Arr((), (), ind(v.c), "b")
    if isinstance(v, Ref) and v.kind == "arr":
        return e.heap[v.i]
    if isinstance(v, Const) and isinstance(v.v, (int, float)):
        return Arr((), (), P(v.v), "f")
    if isinstance(v, Range):
        st = v.step or ONE
        n = v.hi - v.lo
        if st == P(-1):
            n = v.lo - v.hi
        elif st != ONE:
            n = -fn("floor", (v.lo - v.hi) / st)
        i = fresh_index()
        if e.decide(ge(n, 0)) is not True:
            n = fn("max2", n, ZERO)
        return Arr((Axis(n),), (i,), v.lo + i * st, "i")
    if isinstance(v, Tup):
        return stack(e, v.items)
    if isinstance(v, Ref) and v.kind == "list":
        items = e.heap[v.i].items
        if all(isinstance(x, Val) for x in items):
            return stack(e, items)
        return many_arr(e, items)
    if isinstance(v, Lazy):
        return many_arr(e, [lazy_many(e, v)])
    if isinstance(v, Frame_):
        return e.heap[v.ref.i]
    raise Stop("not an array: %r at %s" % (v, e.where()))


def lazy_many(e, v):
    i = fresh_index()
    e.loopvars.append((i, v.n, v.guard(i)))
    try:
        x = v.elem(i)
    finally:
        e.loopvars.pop()
    return Many(i, v.n, x, v.guard(i))


def many_arr(e, items):
    parts = []
    for it in items:
        if isinstance(it, Many):
            a = toarr(e, it.tmpl)
            ax = Axis(it.n, None if it.guard.op == "true" else
                      T.subst_cond(it.guard, {it.var: FV}))
            if ax.filt is not None and ax.n == ONE:
                raise Stop("conditional list entry")
            parts.append(Arr((ax,) + a.shape, (it.var,) + a.vars, a.body,
                             a.dt))
        elif isinstance(it, Val):
            a = toarr(e, it)
            parts.append(Arr((Axis(ONE),) + a.shape,
                             (fresh_index(),) + a.vars, a.body, a.dt))
        else:
            # entries the evaluator lost: any length, any numbers
            i, j = e.opaque(lo=0, integer=True), e.opaque()
            T.DRAWS[i]["dist"] = T.DRAWS[j]["dist"] = "unknown"
            lv = tuple(x[0] for x in e.loopvars)
            u = fresh_index()
            parts.append(Arr((Axis(Poly.atom(Atom("opq", i, lv))),), (u,),
                             Poly.atom(Atom("opq", j, lv + (u,))), "f"))
    return concat(e, parts, 0) if len(parts) != 1 else parts[0]


def dtjoin(ds):
    ds = set(ds)
    if "f" in ds:
        return "f"
    if "i" in ds:
        return "i"
    return "b" if ds else "f"


def stack(e, items):
    if any(isinstance(x, Unk) for x in items):
        raise Stop("array with unknown items")
    if any(isinstance(x, Const) and not isinstance(x.v, (int, float))
           for x in items):
        raise Stop("array of objects")
    arrs = [toarr(e, x) for x in items]
    if not arrs:
        return Arr((Axis(ZERO),), (fresh_index(),), ZERO, "f")
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise Stop("ragged array")
    i = fresh_index()
    body = arrs[-1].body
    vs = arrs[-1].vars
    for k in range(len(arrs) - 2, -1, -1):
        body = ite(eq(i, k), arrs[k].at(*vs), body)
    return Arr((Axis(P(len(arrs))),) + arrs[0].shape, (i,) + vs, body,
               dtjoin(a.dt for a in arrs))


def put(e, a):
    """Arr -> value (0-d arrays become numbers)."""
    if a.ndim == 0:
        return Num(e.named(a).body, a.dt)
    return e.new("arr", a)


def is_unk(*vs):
    return any(isinstance(v, Unk) for v in vs)


# ------------------------------------------------------------ broadcasting
def same_axis(e, x, y):
    """The axis two operands share, or None for unknown."""
    if x.same(y):
        return x
    if x.is_one():
        return y
    if y.is_one():
        return x
    if x.filt is not None or y.filt is not None:
        return None
    if x.filt is None and y.filt is None:
        d = (x.n - y.n).value()
        if d is not None and d != 0:
            raise PyRaise("ValueError", e.where(), "shapes")
        r = e.decide(eq(x.n, y.n))
        if r is False:
            one = [q for q in (x, y) if e.decide(eq(q.n, 1)) is not False]
            if not one:
                raise PyRaise("ValueError", e.where(), "shapes")
        if r is None:
            e.assumed.append((e.where(), eq(x.n, y.n)))
        # the more specific length
        return x if len(repr(x.n)) <= len(repr(y.n)) else y
    return None


def broadcast(e, arrs):
    nd = max(a.ndim for a in arrs)
    shape, vs = [], []
    for k in range(nd):
        ax = Axis(ONE)
        for a in arrs:
            j = k - (nd - a.ndim)
            if j >= 0:
                ax = same_axis(e, ax, a.shape[j])
                if ax is None:
                    raise Stop("lengths of masked arrays at %s" % e.where())
        shape.append(ax)
        vs.append(fresh_index())
    bodies = []
    for a in arrs:
        idx = []
        for j in range(a.ndim):
            k = j + nd - a.ndim
            idx.append(ZERO if a.shape[j].is_one() and
                       not shape[k].is_one() else vs[k])
        bodies.append(a.at(*idx))
    return shape, vs, bodies


def ew(e, f, *vals, dt=None):
    if is_unk(*vals):
        return Unk("element-wise")
    if all(isinstance(v, (Num, Bool)) or isinstance(v, Const) and
           isinstance(v.v, (int, float)) for v in vals):
        ps = [ind(v.c) if isinstance(v, Bool) else P(v.v) if isinstance(
            v, Const) else v.p for v in vals]
        k = dt or dtjoin(v.kind if isinstance(v, Num) else "b"
                         for v in vals)
        r = f(*ps)
        if dt == "b":
            return Bool(to_cond(r))
        if k == "b":
            k = "i"
        return Num(r, k)
    arrs = [toarr(e, v) for v in vals]
    sh, vs, bodies = broadcast(e, arrs)
    k = dt or dtjoin(a.dt for a in arrs)
    if k == "b" and dt is None:
        k = "i"
    return put(e, Arr(sh, vs, f(*bodies), k))


BIN = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b,
    "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b,
    "Pow": lambda a, b: power(a, b),
    "FloorDiv": lambda a, b: fn("floor", a / b),
    "Mod": lambda a, b: mod(a, b),
}


def mod(a, b):
    if a.value() is not None and b.value() not in (None, 0):
        return P(a.value() % b.value())
    if b == ONE and T.integral(a):
        return ZERO
    return Poly.atom(Atom("fn", "mod", (P(a), P(b))))


def binop(e, op, a, b):
    if op == "MatMult":
        return matmul(e, a, b)
    if op == "BitAnd":
        return ew(e, lambda x, y: ind(both(to_cond(x), to_cond(y))), a, b,
                  dt="b")
    if op == "BitOr":
        return ew(e, lambda x, y: ind(either(to_cond(x), to_cond(y))), a, b,
                  dt="b")
    if op == "BitXor":
        return ew(e, lambda x, y: x + y - x * y * 2, a, b, dt="b")
    lists = [isinstance(v, Ref) and v.kind == "list" for v in (a, b)]
    if op == "Add" and all(lists):
        return e.list_(e.heap[a.i].items + e.heap[b.i].items)
    if op == "Add" and isinstance(a, Tup) and isinstance(b, Tup):
        return Tup(a.items + b.items)
    if op == "Mult" and lists[0] and isinstance(b, Num):
        return list_times(e, a, b)
    if op == "Mult" and lists[1] and isinstance(a, Num):
        return list_times(e, b, a)
    if isinstance(a, Const) and isinstance(a.v, str):
        return Const("<string>")
    if is_unk(a, b):
        return Unk("arithmetic")
    if op not in BIN:
        raise Stop("operator %s" % op)
    dt = "f" if op == "Div" else None
    if op == "Pow":
        ks = [kind_of(e, v) for v in (a, b)]
        if ks == ["i", "i"]:
            bp = num(e, b) if isinstance(b, Num) else None
            dt = "i" if bp is not None and T.rng(bp)[0] >= 0 else "f"
    return ew(e, BIN[op], a, b, dt=dt)


def kind_of(e, v):
    if isinstance(v, Num):
        return v.kind
    if isinstance(v, Ref) and v.kind == "arr":
        return e.heap[v.i].dt
    return "f"


def list_times(e, a, n):
    items = e.heap[a.i].items
    k = n.p.value()
    if k is not None:
        return e.list_(items * int(k))
    if len(items) == 1 and isinstance(items[0], Val):
        return e.list_([Many(fresh_index(), nonneg(e, n.p), items[0])])
    raise Stop("list repetition")


def nonneg(e, n):
    return n if e.decide(ge(n, 0)) is True else fn("max2", n, ZERO)


CMP = {"Eq": eq, "NotEq": lambda a, b: no(eq(a, b)), "Lt": lt, "LtE": le,
       "Gt": gt, "GtE": ge}


def compare(e, op, a, b):
    if op in ("Is", "IsNot"):
        r = identical(e, a, b)
        if r is None:
            return Unk("is")
        return Bool(TRUE if r == (op == "Is") else FALSE)
    if op in ("In", "NotIn"):
        c = contains(e, b, a)
        if c is None:
            return Unk("in")
        return Bool(c if op == "In" else no(c))
    if is_unk(a, b):
        return Unk("comparison")
    num_ = (Num, Bool)
    if isinstance(a, num_) and isinstance(b, num_) or e.is_arr(a) or \
            e.is_arr(b):
        if isinstance(a, Const) or isinstance(b, Const):
            return Bool(FALSE if op == "Eq" else TRUE)
        f = CMP[op]
        return ew(e, lambda x, y: ind(f(x, y)), a, b, dt="b")
    if op in ("Eq", "NotEq"):
        if isinstance(a, (Const, Num, Ext, Cls, Tup)) and isinstance(
                b, (Const, Num, Ext, Cls, Tup)):
            if isinstance(a, Tup) and isinstance(b, Tup):
                if len(a.items) != len(b.items):
                    r = FALSE
                else:
                    r = both(*[e.cond(compare(e, "Eq", x, y)) for x, y in
                               zip(a.items, b.items)])
            elif isinstance(a, Const) and isinstance(b, Const):
                r = TRUE if a.v == b.v else FALSE
            elif isinstance(a, Ext) and isinstance(b, Ext):
                r = TRUE if a.name == b.name else FALSE
            else:
                r = TRUE if a is b else FALSE
            return Bool(r if op == "Eq" else no(r))
    return Unk("comparison of %r and %r" % (a, b))


def identical(e, a, b):
    if is_unk(a, b):
        return None
    if isinstance(a, Const) and isinstance(b, Const):
        return a.v is b.v or a.v == b.v
    if isinstance(a, Ext) and isinstance(b, Ext):
        return a.name == b.name
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.i == b.i
    if isinstance(a, Bool) and isinstance(b, Bool):
        if a.c == b.c:
            return True
        return None
    return a is b


def contains(e, box, x):
    if isinstance(box, Tup) or isinstance(box, Ref) and box.kind == "list" \
            and all(isinstance(q, Val) for q in e.heap[box.i].items):
        items = box.items if isinstance(box, Tup) else e.heap[box.i].items
        cs = []
        for q in items:
            v = compare(e, "Eq", x, q)
            if isinstance(v, Unk):
                return None
            cs.append(e.cond(v))
        return either(*cs) if cs else FALSE
    if e.is_arr(box) and isinstance(x, Num):
        a = e.A(box)
        if a.ndim == 1:
            v = a.vars[0]
            return gt(total(v, a.shape[0].n, ind(both(
                a.shape[0].guard(v), eq(a.body, x.p)))), 0)
    if isinstance(box, Ref) and box.kind == "dict":
        d = e.heap[box.i]
        if isinstance(x, Const):
            return TRUE if any(k.v == x.v for k, _ in d.items if isinstance(
                k, Const)) else FALSE
        if isinstance(x, Num) and d.base is None:
            return dict_has(d, x.p)
    return None


def dict_has(d, k):
    if d.base is not None and d.base[0] == "lazy":
        raise Stop("keys of a defaultdict")
    cs = [eq(q.p, k) for q, _ in d.items if isinstance(q, Num)]
    cs += [T.subst_cond(l.cond, {l.var: k}) for l in d.layers]
    if d.base is not None and d.base[0] == "sym":
        cs.append(d.base[2](k))
    return either(*cs) if cs else FALSE


# ------------------------------------------------------------ subscripts
def norm_index(e, i, n):
    """Non-negative position for a possibly negative index."""
    v = i.value()
    if v is not None:
        if v >= 0:
            return i
        return n + i
    lo, hi = T.rng(i)[:2]
    if lo >= 0:
        return i
    if hi < 0:
        return n + i
    r = e.decide(ge(i, 0))
    if r is True:
        return i
    if r is False:
        return n + i
    return ite(ge(i, 0), i, n + i)


def slice_bounds(e, s, n):
    """(start, step, length) of a slice of an axis of length n."""
    def val(x):
        if x is None or isinstance(x, Const) and x.v is None:
            return None
        if isinstance(x, Num):
            return x.p
        if is_unk(x):
            raise Stop("slice bound")
        a = toarr(e, x)
        if a.ndim == 0:
            return a.body
        raise Stop("slice bound")
    lo, hi, st = val(s.lo), val(s.hi), val(s.step)
    st = ONE if st is None else st
    k = st.value()
    if k is None or k == 0:
        raise Stop("slice step")

    def clampn(x, low, high):
        r = e.decide(le(x, high))
        if r is not True:
            x = high if r is False else fn("min2", x, high)
        r = e.decide(ge(x, low))
        if r is not True:
            x = low if r is False else fn("max2", x, low)
        return x
    if k > 0:
        a = ZERO if lo is None else clampn(norm_index(e, lo, n), ZERO, n)
        b = n if hi is None else clampn(norm_index(e, hi, n), ZERO, n)
        m = b - a
        if k != 1:
            m = -fn("floor", (a - b) / st)
    else:
        a = n - 1 if lo is None else clampn(norm_index(e, lo, n), P(-1),
                                            n - 1)
        b = P(-1) if hi is None else clampn(norm_index(e, hi, n), P(-1),
                                            n - 1)
        m = a - b
        if k != -1:
            m = -fn("floor", (b - a) / (-st))
    return a, st, nonneg(e, m)


def getitem(e, o, k):
    if isinstance(o, Unk):
        return Unk("item of unknown")
    if isinstance(o, Opaque):
        return o.handler(e, "__getitem__", k, {})
    if any(isinstance(x, Unk) for x in k):
        return Unk("unknown subscript")
    if isinstance(o, Tup) or isinstance(o, Ref) and o.kind == "list":
        return list_item(e, o, k[0])
    if isinstance(o, Ref) and o.kind == "dict":
        return dict_item(e, o, k[0] if len(k) == 1 else Tup(k))
    if isinstance(o, Range):
        if isinstance(k[0], Num):
            st = o.step or ONE
            return Num(o.lo + k[0].p * st, "i")
        return getitem(e, put(e, toarr(e, o)), k)
    if isinstance(o, Frame_):
        return Unk("frame item")
    if isinstance(o, (Num, Bool)):
        a = toarr(e, o)
        return put(e, take(e, a, k))
    if e.is_arr(o):
        r = put(e, take(e, e.A(o), k))
        if e.is_arr(r) and all(isinstance(x, (SliceV, Num)) or isinstance(
                x, Const) for x in k):
            e.views[r.i] = (o, k)
        return r
    if isinstance(o, Ref) and o.kind == "obj":
        m, c = e.heap[o.i].cls.find("__getitem__")
        if m is not None:
            return e.call_func(m, [o] + list(k), {})
    if isinstance(o, Const) and isinstance(o.v, (tuple, str)) and \
            isinstance(k[0], Num):
        return Const(o.v[int(k[0].p.value())])
    raise Stop("subscript of %r at %s" % (o, e.where()))


def list_item(e, o, k):
    items = o.items if isinstance(o, Tup) else e.heap[o.i].items
    if isinstance(k, SliceV):
        return list_slice(e, o, items, k)
    if not isinstance(k, Num):
        if e.is_arr(k) and e.A(k).ndim == 0:
            k = Num(e.A(k).body, "i")
        else:
            raise Stop("list index")
    if all(isinstance(x, Val) for x in items):
        i = k.p.value()
        if i is None:
            v = None
            kk = norm_index(e, k.p, P(len(items)))
            for j in range(len(items) - 1, -1, -1):
                v = items[j] if v is None else e.merge(eq(kk, j), items[j],
                                                       v)
            if v is None:
                raise PyRaise("IndexError", e.where())
            return v
        if not -len(items) <= i < len(items):
            raise PyRaise("IndexError", e.where())
        return items[int(i)]
    if len(items) == 1 and isinstance(items[0], Many):
        m = items[0]
        if m.guard.op == "true":
            return e.subst_val(m.tmpl, m.var, norm_index(e, k.p, m.n))
    v = k.p.value()
    if v is not None and v < 0 and isinstance(items[int(v)], Val) if (
            v is not None and v < 0 and -v <= len(items)) else False:
        return items[int(v)]
    if v is not None and v >= 0 and all(isinstance(x, Val) for x in
                                        items[:int(v) + 1]):
        return items[int(v)]
    # piecewise over concatenated parts
    if all(isinstance(x, Val) or isinstance(x, Many) and
           x.guard.op == "true" for x in items):
        n = ZERO
        parts = []
        for x in items:
            ln = x.n if isinstance(x, Many) else ONE
            parts.append((n, ln, x))
            n = n + ln
        i = norm_index(e, k.p, n)
        v = None
        for off, ln, x in reversed(parts):
            y = e.subst_val(x.tmpl, x.var, i - off) if isinstance(
                x, Many) else x
            v = y if v is None else e.merge(lt(i, off + ln), y, v)
        return v
    return Unk("list item")


def list_slice(e, o, items, s):
    def c(x):
        if x is None or isinstance(x, Const) and x.v is None:
            return None
        v = x.p.value()
        if v is None:
            raise Stop("list slice")
        return int(v)
    if all(isinstance(x, Val) for x in items):
        r = list(items)[c(s.lo):c(s.hi):c(s.step)]
        return Tup(r) if isinstance(o, Tup) else e.list_(r)
    if len(items) == 1 and isinstance(items[0], Many) and \
            items[0].guard.op == "true":
        m = items[0]
        a, st, n = slice_bounds(e, s, m.n)
        v = fresh_index()
        return e.list_([Many(v, n, e.subst_val(m.tmpl, m.var, a + st * v))])
    if s.lo is None and s.hi is None and s.step is None:
        return e.list_(items)
    return Unk("list slice")


def dict_item(e, o, k):
    d = e.heap[o.i]
    if isinstance(k, Const):
        for q, v in reversed(d.items):
            if isinstance(q, Const) and q.v == k.v:
                return v
        if d.base is None and d.factory is None and not d.layers:
            raise PyRaise("KeyError", e.where())
        return Unk("dict item")
    if not isinstance(k, Num):
        return Unk("dict item")
    v = None
    missing = FALSE if d.base is not None and d.base[0] == "lazy" else \
        no(dict_has(d, k.p))
    if d.base is not None:
        if d.base[0] == "sym":
            v = d.base[1](k.p)
        elif d.base[0] == "lazy":
            v = d.base[1](k.p)
        else:
            return Unk("item of a loop-carried dict")
    r = e.decide(missing)
    if r is not False and d.factory is not None:
        nf = len(e.facts)
        if missing.op != "true":
            e.facts.append(missing)
        try:
            x = e.call(d.factory, [], {})
        finally:
            del e.facts[nf:]
        if d.base is not None:
            v = e.merge(d.base[2](k.p), v, x)
        else:
            v = x
        key = fresh_index()
        d2 = e.heap[o.i]
        e.heap[o.i] = DictV(d2.items, d2.layers + (Layer(
            key, both(eq(key, k.p), missing), x),), d2.factory, d2.base)
    elif v is None and r is True:
        raise PyRaise("KeyError", e.where())
    for l in d.layers:
        c = T.subst_cond(l.cond, {l.var: k.p})
        if c.op == "false":
            continue
        x = e.subst_val(l.tmpl, l.var, k.p)
        v = x if v is None else e.merge(c, x, v)
    for q, x in d.items:
        if isinstance(q, Num):
            v = x if v is None else e.merge(eq(q.p, k.p), x, v)
    return v if v is not None else Unk("dict item")


def as_index_arr(e, x):
    """Integer or boolean index array, or None."""
    if e.is_arr(x):
        return e.A(x)
    if isinstance(x, (Tup, Range)) or isinstance(x, Ref) and x.kind == "list":
        return toarr(e, x)
    return None


def take(e, a, k):
    """a[k] for a list of subscripts."""
    k = list(k)
    nidx = sum(1 for x in k if not (isinstance(x, Const) and (
        x.v is None or x.v is Ellipsis)))
    # a two-dimensional mask
    for p, x in enumerate(k):
        if isinstance(x, Const) and x.v is Ellipsis:
            k[p:p + 1] = [SliceV(None, None, None)] * (a.ndim - nidx)
            break
    if nidx > a.ndim:
        raise PyRaise("IndexError", e.where(), "too many indices")
    shape, vs, idx = [], [], []
    adv = []                 # (position in result, array)
    ax = 0
    for x in k:
        if isinstance(x, Const) and x.v is None:
            shape.append(Axis(ONE))
            vs.append(fresh_index())
            continue
        A_ = a.shape[ax]
        if isinstance(x, Num):
            if A_.filt is not None:
                raise Stop("position in a masked array at %s" % e.where())
            i = x.p
            check_bound(e, i, A_.n)
            j = norm_index(e, i, A_.n)
            need(e, both(ge(j, 0), gt(A_.n, j)), "index within the array")
            idx.append(j)
        elif isinstance(x, SliceV):
            if x.lo is None and x.hi is None and x.step is None:
                shape.append(A_)
                v = fresh_index()
                vs.append(v)
                idx.append(v)
            else:
                if A_.filt is not None:
                    raise Stop("slice of a masked array")
                st, step, n = slice_bounds(e, x, A_.n)
                v = fresh_index()
                shape.append(Axis(n))
                vs.append(v)
                idx.append(st + step * v)
        elif isinstance(x, Bool):
            raise Stop("boolean subscript")
        else:
            b = as_index_arr(e, x)
            if b is None:
                raise Stop("subscript %r" % (x,))
            if b.dt == "b" and b.ndim == 1:
                v = fresh_index()
                f = b.cond(FV)
                f = f if A_.filt is None else both(f, A_.filt)
                if b.shape[0].filt is not None:
                    f = both(f, b.shape[0].filt)
                shape.append(Axis(A_.n, None if f.op == "true" else f))
                vs.append(v)
                idx.append(v)
            elif b.dt == "b":
                raise Stop("mask of two dimensions")
            elif b.ndim == 0:
                idx.append(norm_index(e, b.body, A_.n))
            else:
                if A_.filt is not None:
                    raise Stop("gather from a masked array")
                adv.append((len(shape), b, len(idx), A_.n))
                idx.append(None)
        ax += 1
    for j in range(ax, a.ndim):
        v = fresh_index()
        shape.append(a.shape[j])
        vs.append(v)
        idx.append(v)
    if adv:
        arrs = [b for _, b, _, _ in adv]
        sh, bv, bodies = broadcast(e, arrs)
        pos = adv[0][0]
        for (p, b, q, n), body in zip(adv, bodies):
            idx[q] = body if T.rng(body)[0] >= 0 else norm_index(e, body, n)
            need(e, both(ge(idx[q], 0), gt(n, idx[q])),
                 "index array within the array", sh, bv)
        shape[pos:pos] = sh
        vs[pos:pos] = bv
    return Arr(shape, vs, a.at(*idx), a.dt)


def check_bound(e, i, n):
    v = (n - i).value()
    if v is not None and v <= 0 and T.rng(i)[0] >= 0:
        raise PyRaise("IndexError", e.where())
    if i.value() is not None and i.value() < 0:
        w = (n + i).value()
        if w is not None and w < 0:
            raise PyRaise("IndexError", e.where())


def row(e, v, i):
    a = e.A(v)
    r = Arr(a.shape[1:], a.vars[1:], T.subst(a.body, a.vars[0], P(i)), a.dt)
    return put(e, r)


def setitem(e, o, k, v):
    if isinstance(o, (Unk, Opaque)):
        return
    if isinstance(o, Ref) and o.kind == "dict":
        d = e.heap[o.i]
        key = k[0]
        if isinstance(key, Const):
            e.heap[o.i] = DictV(tuple(x for x in d.items if not (isinstance(
                x[0], Const) and x[0].v == key.v)) + ((key, v),), d.layers,
                d.factory, d.base)
            return
        if isinstance(key, Num):
            if d.items:
                raise Stop("mixed dict")
            i = fresh_index()
            e.heap[o.i] = DictV(d.items, d.layers + (Layer(
                i, eq(i, key.p), v),), d.factory, d.base)
            return
        raise Stop("dict store")
    if isinstance(o, Ref) and o.kind == "list":
        items = list(e.heap[o.i].items)
        if isinstance(k[0], Num) and all(isinstance(x, Val) for x in items):
            i = k[0].p.value()
            if i is not None:
                items[int(i)] = v
                e.heap[o.i] = ListV(items)
                return
            items = [e.merge(eq(k[0].p, j), v, x) for j, x in
                     enumerate(items)]
            e.heap[o.i] = ListV(items)
            return
        if isinstance(k[0], Num) and len(items) == 1 and isinstance(
                items[0], Many) and items[0].guard.op == "true":
            m = items[0]
            e.heap[o.i] = ListV([Many(m.var, m.n, e.merge(
                eq(m.var, norm_index(e, k[0].p, m.n)), v, m.tmpl))])
            return
        i = fresh_id()
        T.DRAWS[i] = dict(dist="unknown")
        e.heap[o.i] = ListV([Rest(i)])
        return
    if not e.is_arr(o):
        raise Stop("store into %r" % (o,))
    if o.i in e.views:
        b, lo = e.views[o.i][0], base_offset(e, o, k)
        if lo is None:
            raise Stop("store through a view")
        setitem(e, b, [Num(k[0].p + lo, "i")], v)
    a = e.A(o)
    if any(isinstance(x, Unk) for x in k) or is_unk(v):
        h = fresh_id()
        T.DRAWS[h] = dict(dist="unknown")
        e.heap[o.i] = Arr(a.shape, a.vars, Poly.atom(Atom(
            "opq", h, tuple(x[0] for x in e.loopvars) + tuple(a.vars))),
            a.dt)
        return
    e.heap[o.i] = e.named(store(e, a, k, v))


def base_offset(e, o, k):
    """Where a one-dimensional view starts in its base, when known."""
    b, q = e.views[o.i]
    if not T.FOLD[0] or len(q) != 1 or not isinstance(q[0], SliceV) or \
            len(k) != 1 or not isinstance(k[0], Num):
        return None
    s = q[0]
    if any(x is not None and not isinstance(x, (Num, Const))
           for x in (s.lo, s.hi, s.step)) or s.step is not None:
        return None
    i = k[0].p.value()
    lo = ZERO if s.lo is None or isinstance(s.lo, Const) else s.lo.p
    if lo.value() is None or lo.value() < 0 or i is None or i < 0:
        return None
    return lo


def store(e, a, k, v):
    x = toarr(e, v)
    k = list(k)
    nidx = sum(1 for q in k if not (isinstance(q, Const) and
                                    q.v is None))
    for p, q in enumerate(k):
        if isinstance(q, Const) and q.v is Ellipsis:
            k[p:p + 1] = [SliceV(None, None, None)] * (a.ndim - nidx + 1)
            break
    k += [SliceV(None, None, None)] * (a.ndim - len(k))
    conds, vidx, vax = [], [], []
    arrs = [as_index_arr(e, q) for q in k]
    adv = [j for j, b in enumerate(arrs) if b is not None and
           b.dt != "b" and b.ndim > 0]
    if len(k) == 1 and arrs[0] is not None and arrs[0].dt == "b" and \
            arrs[0].ndim == a.ndim:
        c = arrs[0].cond(*a.vars)
        if x.ndim == 0:
            return Arr(a.shape, a.vars, ite(c, x.body, a.body), a.dt)
        if a.ndim == 1 and x.ndim == 1 and x.shape[0].filt is not None:
            return Arr(a.shape, a.vars, ite(c, x.at(a.vars[0]), a.body),
                       a.dt)
        raise Stop("masked store")
    done = {}
    if adv:
        # one of the index arrays must be the identity (or an offset)
        sh, bv, bodies = broadcast(e, [arrs[j] for j in adv])
        if len(bv) != 1:
            raise Stop("scatter")
        u = bv[0]
        pin = None
        for j, b in zip(adv, bodies):
            d = b - u
            if u.one_atom() not in d.free():
                pin = (j, a.vars[j] - d)
                break
        if pin is None:
            raise Stop("scatter")
        at = pin[1]
        conds += [ge(at, 0), gt(sh[0].n, at)]
        if sh[0].filt is not None:
            conds.append(sh[0].guard(at))
        for j, b in zip(adv, bodies):
            if j != pin[0]:
                conds.append(eq(a.vars[j], T.subst(b, u, at)))
        first = True
        for j in adv:
            done[j] = [at] if first else []
            first = False
    for j, q in enumerate(k):
        if j in done:
            vidx += done[j]
            vax += [Axis(a.shape[j].n)] * len(done[j])
            continue
        if isinstance(q, Num):
            conds.append(eq(a.vars[j], norm_index(e, q.p, a.shape[j].n)))
        elif isinstance(q, SliceV):
            if q.lo is None and q.hi is None and q.step is None:
                vidx.append(a.vars[j])
            else:
                st, step, n = slice_bounds(e, q, a.shape[j].n)
                if step != ONE:
                    raise Stop("store with a step")
                conds += [ge(a.vars[j], st), gt(st + n, a.vars[j])]
                vidx.append(a.vars[j] - st)
        elif arrs[j] is not None and arrs[j].dt == "b" and \
                arrs[j].ndim == 1:
            conds.append(arrs[j].cond(a.vars[j]))
            vidx.append(a.vars[j])
        elif arrs[j] is not None and arrs[j].ndim == 0:
            conds.append(eq(a.vars[j], norm_index(e, arrs[j].body,
                                                  a.shape[j].n)))
        else:
            raise Stop("store index %r" % (q,))
    if x.ndim > len(vidx):
        extra = x.ndim - len(vidx)
        if all(s.is_one() for s in x.shape[:extra]):
            x = Arr(x.shape[extra:], x.vars[extra:], subst0(x, extra), x.dt)
        else:
            raise PyRaise("ValueError", e.where(), "shapes")
    off = len(vidx) - x.ndim
    idx = [ZERO if x.shape[j].is_one() else vidx[off + j]
           for j in range(x.ndim)]
    c = both(*conds)
    return Arr(a.shape, a.vars, ite(c, x.at(*idx), a.body), a.dt)


def subst0(x, k):
    return T.subst_many(x.body, {v: ZERO for v in x.vars[:k]})


# ------------------------------------------------------------ reductions
def axis_no(a, axis):
    if axis is None or isinstance(axis, Const) and axis.v is None:
        return None
    if isinstance(axis, Tup):
        return tuple(int(x.p.value()) % a.ndim for x in axis.items)
    v = axis.p.value()
    if v is None:
        raise Stop("axis")
    if not -max(a.ndim, 1) <= v < max(a.ndim, 1):
        raise PyRaise("ValueError", "", "axis")
    return int(v) % max(a.ndim, 1)


def reduce_(e, kind, a, axis=None, keep=False, empty=False):
    """sum/prod/max/min/any/all/argmax of Arr a along axis."""
    ks = axis_no(a, axis)
    if ks is None:
        ks = tuple(range(a.ndim))
        if kind in ("argmax", "argmin") and a.ndim > 1:
            raise Stop("flat argmax")
    elif isinstance(ks, int):
        ks = (ks,)
    if a.ndim == 0:
        if kind in ("argmax", "argmin"):
            return Arr((), (), ZERO, "i")
        return a
    body, dt = a.body, a.dt
    for k in sorted(ks, reverse=True):
        ax, v = a.shape[k], a.vars[k]
        g = ax.guard(v)
        dt = a.dt
        if kind == "sum":
            body = total(v, ax.n, body * ind(g))
            dt = "i" if a.dt == "b" else a.dt
        elif kind == "prod":
            body = bind("prod", v, ax.n, body if g.op == "true" else
                        ite(g, body, ONE))
        elif kind == "max":
            if ax.filt is None and not empty:
                need(e, gt(ax.n, 0), "maximum of a non-empty array")
            body = bind("max", v, ax.n, body if g.op == "true" else
                        ite(g, body, -PINF))
        elif kind == "min":
            if ax.filt is None and not empty:
                need(e, gt(ax.n, 0), "minimum of a non-empty array")
            body = bind("min", v, ax.n, body if g.op == "true" else
                        ite(g, body, PINF))
        elif kind == "median":
            if g.op != "true" or a.ndim > 1 and len(ks) > 1:
                raise Stop("median of a masked array")
            body = bind("median", v, ax.n, body)
            dt = "f"
        elif kind in ("argmax", "argmin"):
            if kind == "argmin":
                body = -body
            if g.op != "true":
                raise Stop("argmax of a masked array")
            need(e, gt(ax.n, 0), "argmax of a non-empty array")
            score = body
            body = bind("argmax", v, ax.n, body)
            if e.fix is not None and a.ndim == 1:
                x = e.fix(lambda A: A.index(body, {}))
                if x is not None:
                    e.marks.append(dict(kind="argmax", v=v, n=ax.n,
                                        body=score, val=x, at=len(e.draws),
                                        func=e.func_name(),
                                        where=e.where()))
                    body = P(x)
            dt = "i"
        elif kind == "any":
            body = ind(gt(total(v, ax.n, ind(both(g, to_cond(body)))), 0))
            dt = "b"
        elif kind == "all":
            body = ind(eq(total(v, ax.n, ind(both(g, no(to_cond(body))))),
                          0))
            dt = "b"
    sh = [x for j, x in enumerate(a.shape) if j not in ks]
    vs = [x for j, x in enumerate(a.vars) if j not in ks]
    if keep:
        sh = [Axis(ONE) if j in ks else x for j, x in enumerate(a.shape)]
        vs = [fresh_index() if j in ks else x
              for j, x in enumerate(a.vars)]
    return Arr(sh, vs, body, dt)


def mean_(e, a, axis=None, keep=False):
    s = reduce_(e, "sum", a, axis, keep)
    ks = axis_no(a, axis)
    ks = range(a.ndim) if ks is None else [ks] if isinstance(ks, int) else ks
    n = ONE
    for k in ks:
        n = n * a.shape[k].length()
    return Arr(s.shape, s.vars, s.body / n, "f")


def cumul(e, kind, a, axis=None):
    if a.ndim == 0:
        a = Arr((Axis(ONE),), (fresh_index(),), a.body, a.dt)
    if axis is None and a.ndim != 1:
        raise Stop("flat cumulative sum")
    k = 0 if axis is None else axis_no(a, axis)
    ax, v = a.shape[k], a.vars[k]
    if ax.filt is not None:
        raise Stop("cumulative sum of a masked array")
    u = fresh_index()
    body = T.subst(a.body, v, u)
    body = bind(kind, u, v + 1, body)
    return Arr(a.shape, a.vars, body, a.dt)


def concat(e, arrs, axis=0):
    arrs = [a if a.ndim else Arr((Axis(ONE),), (fresh_index(),), a.body,
                                 a.dt) for a in arrs]
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise PyRaise("ValueError", e.where(), "dimensions")
    k = axis % nd
    arrs = [a for a in arrs if a.shape[k].n != ZERO] or arrs[:1]
    if len(arrs) == 1:
        return arrs[0]
    if any(a.shape[k].filt is not None for a in arrs):
        raise Stop("concatenation of masked arrays")
    vs = [fresh_index() for _ in range(nd)]
    offs, n = [], ZERO
    for a in arrs:
        offs.append(n)
        n = n + a.shape[k].n
    body = None
    for a, off in zip(reversed(arrs), reversed(offs)):
        idx = list(vs)
        idx[k] = vs[k] - off
        x = a.at(*idx)
        body = x if body is None else ite(
            lt(vs[k], off + a.shape[k].n), x, body)
    sh = list(arrs[0].shape)
    sh[k] = Axis(n)
    return Arr(sh, vs, body, dtjoin(a.dt for a in arrs))


# ------------------------------------------------------------ linear algebra
def axes_merge(e, x, y):
    r = same_axis(e, x, y)
    if r is None:
        raise Stop("lengths of masked arrays")
    return r


def matmul(e, a, b):
    if is_unk(a, b):
        return Unk("matmul")
    a, b = toarr(e, a), toarr(e, b)
    if a.ndim == 0 or b.ndim == 0:
        raise PyRaise("ValueError", e.where(), "matmul of a scalar")
    if a.ndim > 2 or b.ndim > 2:
        raise Stop("stacked matmul")
    v = fresh_index()
    ax = contract_axis(e, a.shape[-1], b.shape[0])
    x = T.subst(a.body, a.vars[-1], v)
    y = T.subst(b.body, b.vars[0], v)
    sh = list(a.shape[:-1]) + list(b.shape[1:])
    vs = list(a.vars[:-1])
    new = []
    for w in b.vars[1:]:
        z = fresh_index()
        y = T.subst(y, w, z)
        new.append(z)
    return put(e, Arr(sh, vs + new, total(v, ax.n, x * y * ind(
        ax.guard(v))), "f"))


def contract_axis(e, x, y):
    if x.same(y):
        return x
    if x.is_one() and y.is_one():
        return x
    if x.filt is None and y.filt is None:
        d = (x.n - y.n).value()
        if d is not None and d != 0:
            raise PyRaise("ValueError", e.where(), "shapes")
        if e.decide(eq(x.n, y.n)) is False:
            raise PyRaise("ValueError", e.where(), "shapes")
        return x if len(repr(x.n)) <= len(repr(y.n)) else y
    raise Stop("contraction of masked arrays")


def einsum(e, spec, ops):
    spec = spec.replace(" ", "")
    arrs = [toarr(e, o) for o in ops]
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        out = "".join(sorted(c for c in set(ins) if c != "," and
                             ins.count(c) == 1))
    ins = ins.split(",")
    if "." in spec or len(ins) != len(arrs):
        raise Stop("einsum spec")
    ax, var = {}, {}
    body = ONE
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise PyRaise("ValueError", e.where(), "einsum")
        idx = []
        for c, x in zip(s, a.shape):
            if c in ax:
                ax[c] = contract_axis(e, ax[c], x) if not ax[c].is_one() \
                    else x
            else:
                ax[c] = x
                var[c] = fresh_index()
            idx.append(var[c])
        body = body * a.at(*idx)
    for c in ax:
        if c not in out:
            body = total(var[c], ax[c].n, body * ind(ax[c].guard(var[c])))
    return put(e, Arr([ax[c] for c in out], [var[c] for c in out], body,
                      "f"))


def square(e, a):
    if a.ndim != 2:
        raise PyRaise("LinAlgError", e.where(), "not a matrix")
    return a.shape[0].n


def inv_arr(e, a):
    n = square(e, a)
    x, y = fresh_index(), fresh_index()
    body = T.matrix_atom("inv", a.vars[0], a.vars[1], n, a.body, x, y)
    return Arr(a.shape, (x, y), body, "f")


def logdet(e, a):
    n = square(e, a)
    return T.matrix_atom("logdet", a.vars[0], a.vars[1], n, a.body)


def quad_form(d, A, n, u, w):
    """sum over u, w of d(u) A(u, w) d(w)."""
    return total(u, n, total(w, n, d(u) * A(u, w) * d(w)))


# ------------------------------------------------------------ draws
def record(e, dist, shape, vs, params, lo=-INF, hi=INF, lo_in=False,
           hi_in=False, integer=False, arrays=None, rng=None):
    site = tuple((f.func.name if f.func else "", ) for f in e.frames[-3:])
    key = (e.path_key, e.seq, e.line, site, dist)
    e.seq += 1
    did = e.draw_ids.get(key)
    if did is None:
        did = e.draw_ids[key] = fresh_id()
    T.DRAWS[did] = dict(dist=dist, lo=lo, hi=hi, lo_in=lo_in, hi_in=hi_in,
                        int=integer)
    lv = [x[0] for x in e.loopvars]
    d = Draw(id=did, dist=dist, shape=list(shape), vars=list(vs),
             params=dict(params), arrays=dict(arrays or {}),
             loops=list(e.loopvars), facts=list(e.facts),
             where=e.where(), func=e.func_name(), rng=rng)
    d.stack = [f.func.name for f in e.frames if f.func is not None]
    e.draws.append(d)
    if dist in DRAW_GEN:
        T.DRAWS[did]["gen"] = lambda A, idx, env: DRAW_GEN[dist](
            A, A.draws.get(did, d), idx)
    return did, lv


def draw_env(d, idx):
    """Loop and element indices of one entry of a draw."""
    vs = [x[0] for x in d.loops] + list(d.vars)
    return {v.one_atom(): i for v, i in zip(vs, idx)}


def _u(A, d, idx):
    from .witness import h01
    return h01(A.seed, "draw", A.alias.get(d.id, d.id), *idx)


def gen_binomial(A, d, idx):
    env = draw_env(d, idx)
    n, p = A.poly(d.params["n"], env), A.poly(d.params["p"], env)
    if p != p or n != n or n < 0:
        return 0
    if p <= 0:
        return 0
    if p >= 1:
        return int(n)
    return int(_u(A, d, idx) * (n + 1))


def gen_uniform(A, d, idx):
    env = draw_env(d, idx)
    lo, hi = A.poly(d.params["low"], env), A.poly(d.params["high"], env)
    return lo + (hi - lo) * (0.01 + 0.98 * _u(A, d, idx))


def gen_choice(A, d, idx):
    env = draw_env(d, idx)
    n = A.index(d.params["n"], env)
    if "p" in d.arrays:
        a = d.arrays["p"]
        us = []
        for j in range(n):
            e2 = dict(env)
            e2[a.vars[0].one_atom()] = j
            us.append(A.poly(a.body, e2))
        pos = [j for j in range(n) if us[j] > 1e-12]
        if pos:
            return pos[int(_u(A, d, idx) * len(pos))]
    return int(_u(A, d, idx) * n)


def gen_dirichlet(A, d, idx):
    from .witness import h01
    env = draw_env(d, idx)
    n = A.index(T.DRAWS[d.id]["n"], env)
    us = [0.05 + h01(A.seed, "draw", A.alias.get(d.id, d.id),
                     *(tuple(idx[:-1]) + (j,)))
          for j in range(n)]
    return us[idx[-1]] / sum(us)


DRAW_GEN = {"binomial": gen_binomial, "uniform": gen_uniform,
            "choice": gen_choice, "dirichlet": gen_dirichlet}


def _rewrite(self, e, f):
    self.params = {k: f(p) for k, p in self.params.items()}
    self.arrays = {k: Arr([x.map(f) for x in a.shape], a.vars, f(a.body),
                          a.dt) for k, a in self.arrays.items()}
    self.shape = [x.map(f) for x in self.shape]
    self.facts = [T.map_cond(c, f) for c in self.facts]
    self.loops = [(v, f(n), T.map_cond(g, f)) for v, n, g in self.loops]


Draw.rewrite = _rewrite


class Need(Draw):
    """A condition an operation needs in order not to raise."""

    def rewrite(self, e, f):
        _rewrite(self, e, f)
        self.cond = T.map_cond(self.cond, f)


def need(e, cond, what, shape=(), vs=()):
    if cond.op == "true":
        return
    nf = len(e.facts)
    for ax, v in zip(shape, vs):
        e.facts += [gt(ax.n, v)]
        if ax.filt is not None:
            e.facts.append(ax.guard(v))
    try:
        r = e.decide(cond)
    finally:
        del e.facts[nf:]
    e.needs = getattr(e, "needs", 0) + 1
    if r is True:
        return
    m = Need(id=None, kind="need", what=what, cond=cond, shape=list(shape),
             vars=list(vs), params={}, arrays={}, loops=list(e.loopvars),
             facts=list(e.facts), where=e.where(), func=e.func_name())
    e.marks.append(m)


def size_shape(e, size):
    if size is None or isinstance(size, Const) and size.v is None:
        return None
    if isinstance(size, Tup):
        return [Axis(num(e, x)) for x in size.items]
    if isinstance(size, Num):
        return [Axis(size.p)]
    if isinstance(size, Ref) and size.kind == "list":
        return [Axis(num(e, x)) for x in e.heap[size.i].items]
    if e.is_arr(size) and e.A(size).ndim == 0:
        return [Axis(e.A(size).body)]
    raise Stop("size")


def num(e, v):
    if isinstance(v, Num):
        return v.p
    if isinstance(v, Bool):
        return ind(v.c)
    if isinstance(v, Const) and isinstance(v.v, (int, float)):
        return P(v.v)
    a = toarr(e, v)
    if a.ndim == 0:
        return a.body
    if all(x.is_one() for x in a.shape):
        return a.at(*[ZERO] * a.ndim)
    raise Stop("number expected at %s" % e.where())


def draw_ew(e, dist, params, size=None, **rngkw):
    """Element-wise draw with named parameter values."""
    names = list(params)
    if is_unk(*params.values()):
        # parameters the evaluator could not follow: the draw is unknown too
        record(e, dist, [], [], {k: (Poly.atom(Atom("opq", unk_id(), ())) if
                                     is_unk(v) else ZERO)
                                 for k, v in params.items()}, **rngkw)
        e.draws[-1].unknown = True
        return Unk("draw with unknown parameters")
    arrs = [toarr(e, params[k]) for k in names]
    sh = size_shape(e, size)
    if arrs:
        ash, avs, bodies = broadcast(e, arrs)
    else:
        ash, avs, bodies = [], [], []
    if sh is not None:
        if len(ash) > len(sh):
            raise PyRaise("ValueError", e.where(), "size")
        vs = [fresh_index() for _ in sh]
        off = len(sh) - len(ash)
        mp = {}
        for j, v in enumerate(avs):
            mp[v] = ZERO if ash[j].is_one() and not sh[off + j].is_one() \
                else vs[off + j]
            if not ash[j].is_one():
                d = (ash[j].n - sh[off + j].n).value()
                if d is not None and d != 0:
                    raise PyRaise("ValueError", e.where(), "size")
        bodies = [T.subst_many(b, mp) for b in bodies]
        ash, avs = sh, vs
    did, lv = record(e, dist, ash, avs, dict(zip(names, bodies)), **rngkw)
    body = Poly.atom(Atom("draw", did, tuple(lv) + tuple(avs)))
    if size is None or isinstance(size, Const):
        # scalars stay scalars
        pass
    return put(e, Arr(ash, avs, body, "i" if rngkw.get("integer") else "f"))


def unk_id():
    i = fresh_id()
    T.DRAWS[i] = dict(dist="unknown")
    return i


def args_of(names, args, kw, defaults=None):
    out = dict(defaults or {})
    for n, v in zip(names, args):
        out[n] = v
    for k, v in kw.items():
        out[k] = v
    return out


def rng_call(e, r, name, args, kw):
    A = args_of
    if name in ("uniform", "random", "random_sample"):
        if name != "uniform":
            p = A(["size"], args, kw, {"size": NONE})
            p.update(low=Num(0), high=Num(1))
        else:
            p = A(["low", "high", "size"], args, kw,
                  {"low": Num(0), "high": Num(1), "size": NONE})
        lo, hi = -INF, INF
        if not is_unk(p["low"], p["high"]):
            la, ha = toarr(e, p["low"]), toarr(e, p["high"])
            lo, hi = T.rng(la.body)[0], T.rng(ha.body)[1]
        pos = lo >= 0
        lin = not (pos and T.rng(la.body)[0] == 0 and
                   not T.rng(la.body)[2]) if pos else True
        return draw_ew(e, "uniform", dict(low=p["low"], high=p["high"]),
                       p["size"], lo=lo, hi=hi, lo_in=lin, hi_in=False,
                       rng=r)
    if name == "beta":
        p = A(["a", "b", "size"], args, kw, {"size": NONE})
        return draw_ew(e, "beta", dict(a=p["a"], b=p["b"]), p["size"], lo=0,
                       hi=1, lo_in=True, hi_in=True, rng=r)
    if name == "binomial":
        p = A(["n", "p", "size"], args, kw, {"size": NONE})
        hi = INF
        if not is_unk(p["n"]):
            hi = T.rng(toarr(e, p["n"]).body)[1]
        return draw_ew(e, "binomial", dict(n=p["n"], p=p["p"]), p["size"],
                       lo=0, hi=hi, lo_in=True, hi_in=True, integer=True,
                       rng=r)
    if name in ("normal", "standard_normal", "exponential", "gamma",
                "gumbel", "standard_exponential", "standard_gamma",
                "poisson", "geometric", "integers", "chisquare", "laplace"):
        names = {"normal": ["loc", "scale"], "gamma": ["shape", "scale"],
                 "exponential": ["scale"], "poisson": ["lam"],
                 "geometric": ["p"], "standard_gamma": ["shape"],
                 "integers": ["low", "high"], "gumbel": ["loc", "scale"],
                 "chisquare": ["df"], "laplace": ["loc", "scale"]}.get(
                     name, [])
        p = A(names + ["size"], args, kw, {"size": NONE})
        size = p.pop("size")
        p = {k: v for k, v in p.items() if k in names and not isinstance(
            v, Const)}
        integer = name in ("poisson", "geometric", "integers")
        lo = 0 if name in ("exponential", "gamma", "poisson", "geometric",
                           "standard_gamma", "standard_exponential",
                           "chisquare") else -INF
        return draw_ew(e, name, p, size, lo=lo, lo_in=True, integer=integer,
                       rng=r)
    if name == "dirichlet":
        p = A(["alpha", "size"], args, kw, {"size": NONE})
        if is_unk(p["alpha"]):
            return Unk("dirichlet")
        a = toarr(e, p["alpha"])
        if not (isinstance(p["size"], Const)):
            raise Stop("dirichlet size")
        did, lv = record(e, "dirichlet", a.shape, a.vars, dict(
            alpha=a.body), lo=0, hi=1, lo_in=True, hi_in=True, rng=r)
        T.DRAWS[did]["n"] = a.shape[0].n
        return put(e, Arr(a.shape, a.vars, Poly.atom(Atom(
            "draw", did, tuple(lv) + tuple(a.vars))), "f"))
    if name == "choice":
        p = A(["a", "size", "replace", "p"], args, kw,
              {"size": NONE, "p": NONE})
        if isinstance(p["a"], Num):
            n = p["a"].p
            arr = None
        else:
            arr = toarr(e, p["a"])
            n = arr.shape[0].n
        sh = size_shape(e, p["size"]) or []
        vs = [fresh_index() for _ in sh]
        prm, ars = {}, {}
        if not isinstance(p["p"], Const) and not is_unk(p["p"]):
            ars["p"] = toarr(e, p["p"])
        prm["n"] = n
        did, lv = record(e, "choice", sh, vs, prm, arrays=ars, lo=0, hi=INF,
                         lo_in=True, integer=True, rng=r)
        T.DRAWS[did]["below"] = n
        body = Poly.atom(Atom("draw", did, tuple(lv) + tuple(vs)))
        if e.fix is not None and not sh and not lv:
            x = e.fix(lambda A: chosen(A, n, ars.get("p"), len(e.draws)))
            if x is not None:
                e.marks.append(dict(kind="choice", n=n, p=ars.get("p"),
                                    val=x, at=len(e.draws),
                                    func=e.func_name(), where=e.where()))
                body = P(x)
        if arr is not None:
            body = arr.at(body)
        return put(e, Arr(sh, vs, body, "i" if arr is None else arr.dt))
    if name in ("multinomial", "permutation", "shuffle", "multivariate_normal",
                "spawn"):
        return Unk("rng." + name)
    return Unk("rng." + name)


def chosen(A, n, p, at):
    """One of the values a choice can take."""
    n = A.index(n, {})
    xs = list(range(n))
    if p is not None:
        v = p.vars[0].one_atom()
        xs = [i for i in xs if A.poly(p.body, {v: i}) > 0]
    return xs[int(A.uniform("choice", at) * len(xs))]


# ------------------------------------------------------------ distributions
def mvn_parts(e, x, mean, cov, result):
    """Evaluate f at every point: (shape, vars, quad, logdet, dim)."""
    x, m, c = toarr(e, x), toarr(e, mean), toarr(e, cov)
    if c.ndim == 0:
        c = Arr((Axis(ONE), Axis(ONE)), (fresh_index(), fresh_index()),
                c.body, c.dt)
    if c.ndim == 1:
        raise Stop("diagonal covariance")
    if m.ndim == 0:
        m = Arr((Axis(ONE),), (fresh_index(),), m.body, m.dt)
    n = c.shape[0].n
    if n == ONE:
        if x.ndim == 0:
            x = Arr((Axis(ONE),), (fresh_index(),), x.body, x.dt)
        elif x.ndim == 1:
            x = Arr((x.shape[0], Axis(ONE)), (x.vars[0], fresh_index()),
                    x.body, x.dt)
    ci = inv_arr(e, c)
    ld = logdet(e, c)
    pts = x.shape[:-1]
    pv = x.vars[:-1]
    u, w = fresh_index(), fresh_index()

    def d(i):
        r = T.subst(x.body, x.vars[-1], i) - m.at(
            ZERO if m.shape[0].is_one() else i)
        return T.cut(r, 1) if e.cut else r
    q = total(u, n, total(w, n, d(u) * ci.at(u, w) * d(w)))
    # scipy squeezes the result
    sh = [s for s in pts if not s.is_one()]
    vs = [v for s, v in zip(pts, pv) if not s.is_one()]
    one = {v: ZERO for s, v in zip(pts, pv) if s.is_one()}
    q = T.subst_many(q, one)
    return sh, vs, q, ld, n


def mvn_logpdf_body(q, ld, n):
    return (n * fn("log", PI * 2) + ld + q) * Fraction(-1, 2)


@lib("scipy.stats.multivariate_normal.logpdf")
def f_mvn_logpdf(e, args, kw):
    p = args_of(["x", "mean", "cov", "allow_singular"], args, kw,
                {"mean": NONE, "cov": Num(1)})
    if is_unk(p["x"], p["mean"], p["cov"]):
        return Unk("logpdf")
    sh, vs, q, ld, n = mvn_parts(e, p["x"], p["mean"], p["cov"], None)
    return put(e, Arr(sh, vs, mvn_logpdf_body(q, ld, n), "f"))


@lib("scipy.stats.multivariate_normal.pdf")
def f_mvn_pdf(e, args, kw):
    p = args_of(["x", "mean", "cov", "allow_singular"], args, kw,
                {"mean": NONE, "cov": Num(1)})
    if is_unk(p["x"], p["mean"], p["cov"]):
        return Unk("pdf")
    sh, vs, q, ld, n = mvn_parts(e, p["x"], p["mean"], p["cov"], None)
    return put(e, Arr(sh, vs, fn("exp", mvn_logpdf_body(q, ld, n)), "f"))


@lib("scipy.stats.multivariate_normal.rvs")
def f_mvn_rvs(e, args, kw):
    p = args_of(["mean", "cov", "size"], args, kw, {"size": NONE})
    if is_unk(p["mean"], p["cov"]):
        return Unk("rvs")
    m, c = toarr(e, p["mean"]), toarr(e, p["cov"])
    ax = m.shape[0] if m.ndim else (c.shape[0] if c.ndim else Axis(ONE))
    sh = [] if ax.is_one() else [ax]
    vs = [fresh_index() for _ in sh]
    did, lv = record(e, "mvn", sh, vs, {}, arrays=dict(mean=m, cov=c),
                     rng=p.get("random_state"))
    return put(e, Arr(sh, vs, Poly.atom(Atom("draw", did, tuple(lv) +
                                             tuple(vs))), "f"))


@lib("scipy.stats.invwishart.rvs", "scipy.stats.wishart.rvs")
def f_iw_rvs(e, args, kw, name="scipy.stats.invwishart.rvs"):
    p = args_of(["df", "scale", "size"], args, kw, {"size": NONE})
    if is_unk(p["df"], p["scale"]):
        return Unk("rvs")
    s = toarr(e, p["scale"])
    ax = s.shape[0] if s.ndim else Axis(ONE)
    sh = [] if ax.is_one() else [ax, ax]
    vs = [fresh_index() for _ in sh]
    did, lv = record(e, name.split(".")[2], sh, vs, dict(
        df=num(e, p["df"])), arrays=dict(scale=s),
        rng=p.get("random_state"))
    T.DRAWS[did]["spd"] = True
    if not sh:
        T.DRAWS[did].update(lo=0, lo_in=False)
    return put(e, Arr(sh, vs, Poly.atom(Atom("draw", did, tuple(lv) +
                                             tuple(vs))), "f"))


SPECIAL["scipy.stats.invwishart.rvs"] = SPECIAL[
    "scipy.stats.wishart.rvs"] = f_iw_rvs


@lib("scipy.stats.norm.pdf", "scipy.stats.norm.logpdf")
def f_norm_pdf(e, args, kw, name="pdf"):
    p = args_of(["x", "loc", "scale"], args, kw,
                {"loc": Num(0), "scale": Num(1)})

    def f(x, m, s):
        q = (x - m) * (x - m) / (s * s)
        l = (fn("log", PI * 2) + q) * Fraction(-1, 2) - fn("log", s)
        return l if name.endswith("logpdf") else fn("exp", l)
    return ew(e, f, p["x"], p["loc"], p["scale"], dt="f")


SPECIAL["scipy.stats.norm.pdf"] = SPECIAL[
    "scipy.stats.norm.logpdf"] = f_norm_pdf


def betaln_(a, b):
    return fn("loggamma", a) + fn("loggamma", b) - fn("loggamma", a + b)


@lib("scipy.stats.beta.logpdf", "scipy.stats.beta.pdf")
def f_beta_logpdf(e, args, kw, name="logpdf"):
    p = args_of(["x", "a", "b"], args, kw)

    def f(x, a, b):
        l = fn("log", x) * (a - 1) + fn("log", 1 - x) * (b - 1) - \
            betaln_(a, b)
        return l if name.endswith("logpdf") else fn("exp", l)
    return ew(e, f, p["x"], p["a"], p["b"], dt="f")


SPECIAL["scipy.stats.beta.logpdf"] = SPECIAL[
    "scipy.stats.beta.pdf"] = f_beta_logpdf


@lib("scipy.stats.binom.logpmf")
def f_binom(e, args, kw):
    p = args_of(["k", "n", "p"], args, kw)
    return ew(e, lambda k, n, q: fn("loggamma", n + 1) - fn(
        "loggamma", k + 1) - fn("loggamma", n - k + 1) + k * fn("log", q) +
        (n - k) * fn("log", 1 - q), p["k"], p["n"], p["p"], dt="f")


@lib("scipy.stats.betabinom.logpmf")
def f_betabinom(e, args, kw):
    p = args_of(["k", "n", "a", "b"], args, kw)
    return ew(e, lambda k, n, a, b: fn("loggamma", n + 1) - fn(
        "loggamma", k + 1) - fn("loggamma", n - k + 1) + betaln_(
        k + a, n - k + b) - betaln_(a, b), p["k"], p["n"], p["a"], p["b"],
        dt="f")


@lib("scipy.stats.dirichlet.logpdf")
def f_dirichlet(e, args, kw):
    p = args_of(["x", "alpha"], args, kw)
    if is_unk(*p.values()):
        return Unk("dirichlet")
    x, a = toarr(e, p["x"]), toarr(e, p["alpha"])
    v = fresh_index()
    n = contract_axis(e, x.shape[0], a.shape[0]).n
    b = total(v, n, fn("loggamma", a.at(v)))
    return Num(total(v, n, (a.at(v) - 1) * fn("log", x.at(v))) - b + fn(
        "loggamma", total(v, n, a.at(v))))


# ------------------------------------------------------------ numpy: basic
def simple(name, *names, dt="f"):
    def f(e, args, kw):
        return ew(e, lambda x: fn(name, x), args[0], dt=dt)
    for n in names:
        FN[n] = f


simple("log", "numpy.log", "math.log")
simple("exp", "numpy.exp", "math.exp")
simple("digamma", "scipy.special.digamma", "scipy.special.psi")
simple("loggamma", "scipy.special.loggamma", "scipy.special.gammaln",
       "math.lgamma")
simple("expit", "scipy.special.expit")
for _n in ("sin", "cos", "tan", "tanh", "arctan", "sign"):
    simple(_n, "numpy." + _n)


@lib("numpy.abs", "numpy.absolute", "numpy.fabs", "builtins.abs",
     "math.fabs")
def f_abs(e, args, kw):
    return ew(e, lambda x: fn("abs", x), args[0])


@lib("numpy.sqrt", "math.sqrt")
def f_sqrt(e, args, kw):
    return ew(e, lambda x: T.sqrt(x), args[0], dt="f")


@lib("numpy.square")
def f_square(e, args, kw):
    return ew(e, lambda x: x * x, args[0])


@lib("numpy.log1p")
def f_log1p(e, args, kw):
    return ew(e, lambda x: fn("log", x + 1), args[0], dt="f")


@lib("numpy.expm1")
def f_expm1(e, args, kw):
    return ew(e, lambda x: fn("exp", x) - 1, args[0], dt="f")


@lib("numpy.log2")
def f_log2(e, args, kw):
    return ew(e, lambda x: fn("log", x) / fn("log", P(2)), args[0], dt="f")


@lib("numpy.floor", "math.floor")
def f_floor(e, args, kw):
    return ew(e, lambda x: fn("floor", x), args[0])


@lib("numpy.ceil", "math.ceil")
def f_ceil(e, args, kw):
    return ew(e, lambda x: -fn("floor", -x), args[0])


@lib("numpy.negative")
def f_neg(e, args, kw):
    return ew(e, lambda x: -x, args[0])


@lib("numpy.reciprocal")
def f_recip(e, args, kw):
    return ew(e, lambda x: 1 / x, args[0], dt="f")


@lib("scipy.special.betaln")
def f_betaln(e, args, kw):
    return ew(e, betaln_, args[0], args[1], dt="f")


@lib("scipy.special.gamma", "math.gamma")
def f_gamma(e, args, kw):
    return ew(e, lambda x: fn("exp", fn("loggamma", x)), args[0], dt="f")


@lib("scipy.special.beta")
def f_betafn(e, args, kw):
    return ew(e, lambda a, b: fn("exp", betaln_(a, b)), args[0], args[1],
              dt="f")


@lib("scipy.special.logit")
def f_logit(e, args, kw):
    return ew(e, lambda x: fn("log", x) - fn("log", 1 - x), args[0], dt="f")


@lib("scipy.special.xlogy")
def f_xlogy(e, args, kw):
    return ew(e, lambda x, y: ite(eq(x, 0), ZERO, x * fn("log", y)),
              args[0], args[1], dt="f")


for _n, _op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"),
                ("divide", "Div"), ("true_divide", "Div"), ("power", "Pow"),
                ("mod", "Mod"), ("remainder", "Mod"),
                ("floor_divide", "FloorDiv"), ("matmul", "MatMult")):
    FN["numpy." + _n] = (lambda op: lambda e, a, k: binop(
        e, op, a[0], a[1]))(_op)
for _n, _op in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"),
                ("less_equal", "LtE"), ("greater", "Gt"),
                ("greater_equal", "GtE")):
    FN["numpy." + _n] = (lambda op: lambda e, a, k: compare(
        e, op, a[0], a[1]))(_op)


def outer(e, f, a, b, dt=None):
    if is_unk(a, b):
        return Unk("outer")
    x, y = toarr(e, a), toarr(e, b)
    vs2 = [fresh_index() for _ in y.vars]
    return put(e, Arr(list(x.shape) + list(y.shape), list(x.vars) + vs2,
                      f(x.body, y.at(*vs2)), dt or dtjoin((x.dt, y.dt))))


for _n, _op in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"),
                ("less_equal", "LtE"), ("greater", "Gt"),
                ("greater_equal", "GtE")):
    FN["numpy.%s.outer" % _n] = (lambda op: lambda e, a, k: outer(
        e, lambda x, y: ind(CMP[op](x, y)), a[0], a[1], "b"))(_op)
for _n, _op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"),
                ("divide", "Div")):
    FN["numpy.%s.outer" % _n] = (lambda op: lambda e, a, k: outer(
        e, BIN[op], a[0], a[1]))(_op)


@lib("numpy.outer")
def f_outer(e, args, kw):
    if is_unk(*args):
        return Unk("outer")
    a = [toarr(e, x) for x in args]
    a = [put(e, Arr((Axis(ONE),), (fresh_index(),), x.body, x.dt))
         if x.ndim == 0 else put(e, x) for x in a]
    if any(e.A(x).ndim != 1 for x in a):
        raise Stop("outer of matrices")
    return outer(e, lambda x, y: x * y, a[0], a[1])


@lib("numpy.maximum", "numpy.fmax")
def f_maximum(e, args, kw):
    return ew(e, lambda x, y: fn("max2", x, y), args[0], args[1])


@lib("numpy.minimum", "numpy.fmin")
def f_minimum(e, args, kw):
    return ew(e, lambda x, y: fn("min2", x, y), args[0], args[1])


@lib("numpy.clip")
def f_clip(e, args, kw):
    p = args_of(["a", "a_min", "a_max"], args, kw)
    r = p["a"]
    lo, hi = p.get("a_min", NONE), p.get("a_max", NONE)
    if not isinstance(lo, Const):
        r = ew(e, lambda x, y: fn("max2", x, y), r, lo)
    if not isinstance(hi, Const):
        r = ew(e, lambda x, y: fn("min2", x, y), r, hi)
    return r


@lib("numpy.where")
def f_where(e, args, kw):
    if len(args) != 3:
        return Unk("where")
    return ew(e, lambda c, a, b: ite(to_cond(c), a, b), *args, dt=dtjoin(
        kind_of(e, x) for x in args[1:]))


@lib("numpy.logical_and")
def f_land(e, args, kw):
    return binop(e, "BitAnd", args[0], args[1])


@lib("numpy.logical_or")
def f_lor(e, args, kw):
    return binop(e, "BitOr", args[0], args[1])


@lib("numpy.logical_not", "numpy.invert")
def f_lnot(e, args, kw):
    return ew(e, lambda x: ind(no(to_cond(x))), args[0], dt="b")


@lib("numpy.isinf", "numpy.isnan", "numpy.isneginf", "numpy.isposinf")
def f_isinf(e, args, kw):
    def f(x):
        if any(a.op == "inf" for a in x.atoms()) and x.single():
            return ONE
        return ZERO
    v = args[0]
    if isinstance(v, Num) and all(a.op != "ite" for a in v.p.atoms()):
        r = T.rng(v.p)
        return Bool(TRUE if f(v.p) == ONE else FALSE)
    return Unk("isinf")


@lib("numpy.isfinite")
def f_isfinite(e, args, kw):
    return Unk("isfinite")


def shape_of(e, v):
    if isinstance(v, Num):
        return [Axis(v.p)]
    if isinstance(v, Tup):
        return [Axis(num(e, x)) for x in v.items]
    if isinstance(v, Ref) and v.kind == "list":
        return [Axis(num(e, x)) for x in e.heap[v.i].items]
    raise Stop("shape")


def dtype_of(e, kw, args=(), pos=None, default="f"):
    d = kw.get("dtype")
    if d is None and pos is not None and len(args) > pos:
        d = args[pos]
    if d is None or isinstance(d, Const) and d.v is None:
        return default
    if isinstance(d, Ext):
        n = d.name.rsplit(".", 1)[-1]
        if n.startswith(("int", "uint")):
            return "i"
        if n.startswith("bool"):
            return "b"
        if n.startswith("float"):
            return "f"
    if isinstance(d, Const) and isinstance(d.v, str):
        return {"i": "i", "b": "b", "f": "f"}.get(d.v[0], "f")
    return default


def full(e, shape, val, dt):
    sh = shape_of(e, shape)
    sh = [Axis(nonneg(e, x.n)) for x in sh]
    return e.new("arr", Arr(sh, [fresh_index() for _ in sh], val, dt))


@lib("numpy.zeros")
def f_zeros(e, args, kw):
    p = args_of(["shape", "dtype"], args, kw)
    return full(e, p["shape"], ZERO, dtype_of(e, p))


@lib("numpy.ones")
def f_ones(e, args, kw):
    p = args_of(["shape", "dtype"], args, kw)
    return full(e, p["shape"], ONE, dtype_of(e, p))


@lib("numpy.full")
def f_full(e, args, kw):
    p = args_of(["shape", "fill_value", "dtype"], args, kw)
    return full(e, p["shape"], num(e, p["fill_value"]), dtype_of(
        e, p, default=kind_of(e, p["fill_value"])))


@lib("numpy.empty")
def f_empty(e, args, kw):
    p = args_of(["shape", "dtype"], args, kw)
    sh = [Axis(nonneg(e, x.n)) for x in shape_of(e, p["shape"])]
    i = fresh_id()
    T.DRAWS[i] = dict(dist="uninitialised")
    vs = [fresh_index() for _ in sh]
    return e.new("arr", Arr(sh, vs, Poly.atom(Atom("opq", i, tuple(
        x[0] for x in e.loopvars) + tuple(vs))), dtype_of(e, p)))


@lib("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like",
     "numpy.full_like")
def f_like(e, args, kw, name="zeros"):
    a = toarr(e, args[0])
    val = ZERO
    if "ones" in name:
        val = ONE
    if "full" in name:
        val = num(e, args[1] if len(args) > 1 else kw["fill_value"])
    if "empty" in name:
        i = fresh_id()
        T.DRAWS[i] = dict(dist="uninitialised")
        val = Poly.atom(Atom("opq", i, tuple(
            x[0] for x in e.loopvars) + tuple(a.vars)))
    return put(e, Arr(a.shape, a.vars, val, dtype_of(e, kw, default=a.dt)))


for _n in ("zeros", "ones", "empty", "full"):
    SPECIAL["numpy.%s_like" % _n] = f_like


@lib("numpy.eye", "numpy.identity")
def f_eye(e, args, kw):
    n = num(e, args[0])
    v, w = fresh_index(), fresh_index()
    return e.new("arr", Arr((Axis(n), Axis(n)), (v, w), ind(eq(v, w)), "f"))


@lib("numpy.array", "numpy.asarray", "numpy.copy", "numpy.ascontiguousarray",
     "numpy.asanyarray", "numpy.float64", "numpy.int64", "builtins.float",
     "numpy.int32")
def f_array(e, args, kw, name="numpy.array"):
    v = args[0]
    if is_unk(v):
        return Unk("array")
    if name in ("numpy.float64", "builtins.float"):
        if isinstance(v, Const) and isinstance(v.v, str):
            return Num(PINF if "-" not in v.v else -PINF)
        a = toarr(e, v)
        return put(e, Arr(a.shape, a.vars, a.body, "f"))
    if name == "numpy.asarray" and e.is_arr(v) and not kw and \
            len(args) == 1:
        return v
    a = toarr(e, v)
    dt = dtype_of(e, kw, args, 1, a.dt)
    body = a.body
    if dt == "i" and a.dt == "f":
        body = fn("floor", body)
    if a.ndim == 0:
        return Num(body, dt)
    return e.new("arr", Arr(a.shape, a.vars, body, dt))


for _n in ("numpy.array", "numpy.asarray", "numpy.copy", "numpy.float64",
           "builtins.float", "numpy.int64"):
    SPECIAL[_n] = f_array


@lib("builtins.int")
def f_int(e, args, kw):
    if not args:
        return Num(0, "i")
    v = args[0]
    if is_unk(v):
        return Unk("int")
    if isinstance(v, Bool):
        return Num(ind(v.c), "i")
    p = num(e, v)
    if T.integral(p):
        return Num(p, "i")
    r = e.decide(ge(p, 0))
    if r is True:
        return Num(fn("floor", p), "i")
    return Num(fn("trunc", p), "i")


@lib("builtins.bool", "numpy.bool_")
def f_bool(e, args, kw):
    return Bool(e.cond(args[0])) if args else Bool(FALSE)


@lib("numpy.atleast_1d")
def f_atl1(e, args, kw):
    v = args[0]
    if is_unk(v):
        return v
    a = toarr(e, v)
    if a.ndim >= 1:
        return v if e.is_arr(v) else e.new("arr", a)
    return e.new("arr", Arr((Axis(ONE),), (fresh_index(),), a.body, a.dt))


@lib("numpy.atleast_2d")
def f_atl2(e, args, kw):
    v = args[0]
    if is_unk(v):
        return v
    a = toarr(e, v)
    if a.ndim >= 2:
        return v if e.is_arr(v) else e.new("arr", a)
    if a.ndim == 1:
        return e.new("arr", Arr((Axis(ONE), a.shape[0]), (
            fresh_index(), a.vars[0]), a.body, a.dt))
    return e.new("arr", Arr((Axis(ONE), Axis(ONE)), (
        fresh_index(), fresh_index()), a.body, a.dt))


@lib("numpy.arange")
def f_arange(e, args, kw):
    a = [num(e, x) for x in args]
    if "stop" in kw:
        a.append(num(e, kw["stop"]))
    if len(a) == 1:
        r = Range(ZERO, a[0])
    else:
        r = Range(a[0], a[1], a[2] if len(a) > 2 else None)
    x = toarr(e, r)
    dt = dtype_of(e, kw, default="i" if all(map(T.integral, a)) else "f")
    return e.new("arr", Arr(x.shape, x.vars, x.body, dt))


@lib("numpy.linspace")
def f_linspace(e, args, kw):
    p = args_of(["start", "stop", "num"], args, kw, {"num": Num(50, "i")})
    a, b, n = [num(e, p[k]) for k in ("start", "stop", "num")]
    v = fresh_index()
    return e.new("arr", Arr((Axis(n),), (v,), a + (b - a) * v / (n - 1),
                            "f"))


@lib("numpy.repeat")
def f_repeat(e, args, kw):
    p = args_of(["a", "repeats", "axis"], args, kw)
    if is_unk(*p.values()):
        return Unk("repeat")
    a = toarr(e, p["a"])
    n = num(e, p["repeats"])
    if a.ndim == 0 or a.ndim == 1 and a.shape[0].is_one():
        x = a.body if a.ndim == 0 else a.at(ZERO)
        return e.new("arr", Arr((Axis(nonneg(e, n)),), (fresh_index(),), x,
                                a.dt))
    if a.ndim == 1 and a.shape[0].filt is None:
        v = fresh_index()
        return e.new("arr", Arr((Axis(a.shape[0].n * n),), (v,), a.at(
            fn("floor", v / n)), a.dt))
    raise Stop("repeat")


@lib("numpy.tile")
def f_tile(e, args, kw):
    a = toarr(e, args[0])
    if a.ndim == 0:
        return full(e, args[1], a.body, a.dt)
    if a.ndim == 1 and isinstance(args[1], Tup) and len(
            args[1].items) == 2 and num(e, args[1].items[1]) == ONE:
        return e.new("arr", Arr((Axis(num(e, args[1].items[0])),
                                 a.shape[0]), (fresh_index(), a.vars[0]),
                                a.body, a.dt))
    raise Stop("tile")


@lib("numpy.broadcast_to")
def f_bcast(e, args, kw):
    a = toarr(e, args[0])
    sh = shape_of(e, args[1])
    z = Arr(sh, [fresh_index() for _ in sh], ZERO, "f")
    s2, vs, b = broadcast(e, [z, a])
    return put(e, Arr(s2, vs, b[1], a.dt))


@lib("numpy.concatenate", "numpy.hstack", "numpy.append", "numpy.vstack",
     "numpy.stack", "numpy.column_stack", "numpy.row_stack")
def f_concat(e, args, kw, name="numpy.concatenate"):
    if name == "numpy.append":
        if is_unk(*args):
            return Unk("append")
        if "axis" in kw or len(args) > 2:
            raise Stop("append axis")
        arrs = [toarr(e, x) for x in args[:2]]
        if any(a.ndim > 1 for a in arrs):
            raise Stop("append")
        return put(e, concat(e, arrs))
    seq = args[0]
    if is_unk(seq):
        return Unk("concatenate")
    if isinstance(seq, Tup):
        items = seq.items
    elif isinstance(seq, Ref) and seq.kind == "list":
        items = e.heap[seq.i].items
        if not all(isinstance(x, Val) for x in items):
            return Unk("concatenate")
    else:
        raise Stop("concatenate")
    if is_unk(*items):
        return Unk("concatenate")
    arrs = [toarr(e, x) for x in items]
    ax = kw.get("axis", args[1] if len(args) > 1 else Num(0, "i"))
    k = int(num(e, ax).value())
    if name in ("numpy.vstack", "numpy.row_stack"):
        arrs = [a if a.ndim >= 2 else Arr((Axis(ONE),) + a.shape, (
            fresh_index(),) + a.vars, a.body, a.dt) for a in arrs]
    if name == "numpy.stack":
        out = []
        for a in arrs:
            sh, vs = list(a.shape), list(a.vars)
            kk = k % (a.ndim + 1)
            sh.insert(kk, Axis(ONE))
            vs.insert(kk, fresh_index())
            out.append(Arr(sh, vs, a.body, a.dt))
        arrs = out
        k = k % arrs[0].ndim
    if name == "numpy.column_stack":
        arrs = [a if a.ndim >= 2 else Arr(a.shape + (Axis(ONE),), a.vars + (
            fresh_index(),), a.body, a.dt) for a in arrs]
        k = 1
    if name == "numpy.hstack":
        k = 0 if arrs[0].ndim < 2 else 1
    return put(e, concat(e, arrs, k))


for _n in ("concatenate", "hstack", "append", "vstack", "stack",
           "column_stack", "row_stack"):
    SPECIAL["numpy." + _n] = f_concat


def red_fn(kind):
    def f(e, args, kw):
        v = args[0]
        if isinstance(v, (Lazy,)):
            v = put(e, toarr(e, v))
        if is_unk(v):
            return Unk(kind)
        a = toarr(e, v)
        axis = kw.get("axis", args[1] if len(args) > 1 else None)
        keep = "keepdims" in kw and e.cond(kw["keepdims"]).op == "true"
        if "where" in kw:
            raise Stop("where=")
        if kind == "mean":
            return put(e, mean_(e, a, axis, keep))
        r = reduce_(e, kind, a, axis, keep, "initial" in kw)
        if "initial" in kw and kind in ("max", "min"):
            x = num(e, kw["initial"])
            if x != (-PINF if kind == "max" else PINF):
                r = Arr(r.shape, r.vars, fn(kind + "2", r.body, x), r.dt)
        if kind in ("any", "all") and r.ndim == 0:
            return Bool(to_cond(r.body))
        return put(e, r)
    return f


for _k, _ns in (("sum", ("sum",)), ("prod", ("prod",)),
                ("max", ("max", "amax", "nanmax")),
                ("min", ("min", "amin", "nanmin")), ("mean", ("mean",)),
                ("any", ("any",)), ("all", ("all",)),
                ("argmax", ("argmax",)), ("argmin", ("argmin",)),
                ("median", ("median", "nanmedian"))):
    for _n in _ns:
        FN["numpy." + _n] = red_fn(_k)


@lib("numpy.average")
def f_average(e, args, kw):
    p = args_of(["a", "axis", "weights"], args, kw,
                {"axis": NONE, "weights": NONE})
    if isinstance(p["weights"], Const):
        return put(e, mean_(e, toarr(e, p["a"]), p["axis"]))
    a, w = toarr(e, p["a"]), toarr(e, p["weights"])
    k = axis_no(a, p["axis"])
    if k is None or w.ndim != 1 or isinstance(k, tuple):
        if a.ndim == 1 and w.ndim == 1:
            k = 0
        else:
            raise Stop("average")
    ax = contract_axis(e, a.shape[k], w.shape[0])
    v = a.vars[k]
    wv = w.at(v) * ind(ax.guard(v))
    body = total(v, ax.n, a.body * wv) / total(v, ax.n, wv)
    return put(e, Arr([x for j, x in enumerate(a.shape) if j != k],
                      [x for j, x in enumerate(a.vars) if j != k], body,
                      "f"))


@lib("numpy.cumsum")
def f_cumsum(e, args, kw):
    if is_unk(args[0]):
        return Unk("cumsum")
    return put(e, cumul(e, "sum", toarr(e, args[0]), kw.get(
        "axis", args[1] if len(args) > 1 else None)))


@lib("numpy.cumprod")
def f_cumprod(e, args, kw):
    if is_unk(args[0]):
        return Unk("cumprod")
    return put(e, cumul(e, "prod", toarr(e, args[0]), kw.get(
        "axis", args[1] if len(args) > 1 else None)))


@lib("numpy.diff")
def f_diff(e, args, kw):
    a = toarr(e, args[0])
    if a.ndim != 1 or len(args) > 1 or kw:
        raise Stop("diff")
    v = fresh_index()
    return put(e, Arr((Axis(a.shape[0].n - 1),), (v,), a.at(v + 1) - a.at(v),
                      a.dt))


@lib("numpy.flip", "numpy.flipud")
def f_flip(e, args, kw):
    a = toarr(e, args[0])
    if a.ndim != 1 or a.shape[0].filt is not None:
        raise Stop("flip")
    v = fresh_index()
    return put(e, Arr(a.shape, (v,), a.at(a.shape[0].n - 1 - v), a.dt))


@lib("numpy.bincount")
def f_bincount(e, args, kw):
    p = args_of(["x", "weights", "minlength"], args, kw,
                {"weights": NONE, "minlength": Num(0, "i")})
    if is_unk(*p.values()):
        return Unk("bincount")
    x = toarr(e, p["x"])
    if x.ndim != 1:
        raise PyRaise("ValueError", e.where())
    ax, i = x.shape[0], x.vars[0]
    m = index_bound(e, x)
    ml = num(e, p["minlength"])
    if ml != ZERO:
        m = fn("max2", m, ml)
    v = fresh_index()
    t = ind(both(eq(x.body, v), ax.guard(i)))
    dt = "i"
    if not isinstance(p["weights"], Const):
        w = toarr(e, p["weights"])
        t = t * w.at(i)
        dt = "f"
    return e.new("arr", Arr((Axis(m),), (v,), total(i, ax.n, t), dt))


def index_bound(e, x):
    """max(x) + 1 of a 1-d integer array."""
    ax, i = x.shape[0], x.vars[0]
    b = x.body if ax.filt is None else ite(ax.guard(i), x.body, P(-1))
    r = bind("max", i, ax.n, b)
    return r + 1


@lib("numpy.unique")
def f_unique(e, args, kw):
    v = args[0]
    if is_unk(v):
        return Unk("unique")
    x = toarr(e, v)
    if x.ndim != 1:
        raise Stop("unique")
    outs = [k for k in ("return_index", "return_inverse", "return_counts")
            if k in kw and e.cond(kw[k]).op == "true"]
    ax, i = x.shape[0], x.vars[0]
    if x.dt not in ("i", "b"):
        # opaque arrays, evaluated from the entries when asked
        lv = [q[0] for q in e.loopvars]

        def cells(A, idx):
            env = dict(zip([q.one_atom() for q in lv], idx))
            out = []
            for t in range(A.index(ax.n, env)):
                env[i.one_atom()] = t
                if A.cond(ax.guard(i), env):
                    out.append(A.poly(x.body, env))
            return out

        def at(f):
            def g(A, idx, env):
                xs = cells(A, idx)
                us = sorted(set(xs))
                r = f(xs, us)
                if not idx[len(lv):]:
                    return r
                if not 0 <= idx[-1] < len(r):
                    from .witness import Undefined
                    raise Undefined("index")
                return r[idx[-1]]
            return g
        some = 1 if T.rng(ax.n)[0] >= 1 and ax.filt is None else 0
        k = Poly.atom(Atom("opq", e.opaque(
            lo=some, integer=True, gen=at(lambda xs, us: len(us))),
            tuple(lv)))
        lo, hi = T.rng(x.body)[:2]
        r = [opaque_arr(e, [Axis(k)], lo=lo, hi=hi,
                        gen=at(lambda xs, us: us))]
        for o in outs:
            f, sh, lo = {
                "return_counts": (lambda xs, us: [xs.count(u) for u in us],
                                  Axis(k), 1),
                "return_inverse": (lambda xs, us: [us.index(z) for z in xs],
                                   ax, 0),
                "return_index": (lambda xs, us: [xs.index(u) for u in us],
                                 Axis(k), 0)}[o]
            r.append(opaque_arr(e, [sh], integer=True, lo=lo, gen=at(f)))
        return Tup(r) if outs else r[0]
    m = index_bound(e, x)
    cnt = total(i, ax.n, ind(both(eq(x.body, FV), ax.guard(i))))
    u = fresh_index()
    axu = Axis(m, gt(cnt, 0))
    r = e.new("arr", Arr((axu,), (u,), u, x.dt))
    if not outs:
        return r
    res = [r]
    for o in outs:
        if o == "return_counts":
            w = fresh_index()
            res.append(e.new("arr", Arr((axu,), (w,), T.subst(
                cnt, FV, w), "i")))
        elif o == "return_inverse":
            # rank of the value among the used ones
            w = fresh_index()
            rank = total(w, x.body, ind(gt(T.subst(cnt, FV, w), 0)))
            res.append(e.new("arr", Arr(x.shape, x.vars, rank, "i")))
        else:
            res.append(Unk("return_index"))
    return Tup(res)


def opaque_arr(e, shape, integer=False, lo=-INF, hi=INF, gen=None):
    i = e.opaque(lo=lo, hi=hi, integer=integer, gen=gen)
    if gen is not None and not e.loopvars:
        T.DRAWS[i]["solid"] = True
    vs = [fresh_index() for _ in shape]
    return e.new("arr", Arr(shape, vs, Poly.atom(Atom("opq", i, tuple(
        x[0] for x in e.loopvars) + tuple(vs))), "i" if integer else "f"))


def order_gen(e, a, f):
    """Generator of f(entries) for a one-dimensional array."""
    lv = [q[0] for q in e.loopvars]
    ax, i = a.shape[0], a.vars[0]

    def gen(A, idx, env):
        en = dict(zip([q.one_atom() for q in lv], idx))
        xs = []
        for t in range(A.index(ax.n, en)):
            en[i.one_atom()] = t
            if A.cond(ax.guard(i), en):
                xs.append(A.poly(a.body, en))
        r = f(xs)
        if not 0 <= idx[-1] < len(r):
            from .witness import Undefined
            raise Undefined("index")
        return r[idx[-1]]
    return gen


def ranks(xs):
    # numpy's default order of equal entries is arbitrary: here the first
    # comes first
    return sorted(range(len(xs)), key=lambda t: xs[t])


@lib("numpy.argsort")
def f_argsort(e, args, kw):
    if is_unk(args[0]):
        return Unk("argsort")
    a = toarr(e, args[0])
    if a.ndim != 1:
        return opaque_arr(e, a.shape, integer=True, lo=0)
    return opaque_arr(e, [Axis(a.shape[0].length())], integer=True, lo=0,
                      gen=order_gen(e, a, ranks))


@lib("numpy.sort", "builtins.sorted")
def f_sort(e, args, kw):
    if is_unk(args[0]):
        return Unk("sort")
    if isinstance(args[0], Ref) and args[0].kind == "list":
        return Unk("sort")
    a = toarr(e, args[0])
    lo, hi = T.rng(a.body)[:2]
    return opaque_arr(e, [Axis(x.length()) for x in a.shape],
                      integer=a.dt == "i", lo=lo, hi=hi,
                      gen=order_gen(e, a, sorted) if a.ndim == 1 else None)


@lib("numpy.delete")
def f_delete(e, args, kw):
    if is_unk(*args):
        return Unk("delete")
    a = toarr(e, args[0])
    j = num(e, args[1])
    if a.ndim != 1 or a.shape[0].filt is not None:
        raise Stop("delete")
    v = fresh_index()
    j = norm_index(e, j, a.shape[0].n)
    return put(e, Arr((Axis(a.shape[0].n - 1),), (v,), a.at(
        v + ind(ge(v, j))), a.dt))


@lib("numpy.einsum")
def f_einsum(e, args, kw):
    if is_unk(*args[1:]):
        return Unk("einsum")
    return einsum(e, args[0].v, args[1:])


@lib("numpy.dot")
def f_dot(e, args, kw):
    if is_unk(*args):
        return Unk("dot")
    a, b = [toarr(e, x) for x in args[:2]]
    if a.ndim == 0 or b.ndim == 0:
        return binop(e, "Mult", args[0], args[1])
    return matmul(e, args[0], args[1])


@lib("numpy.inner", "numpy.vdot")
def f_inner(e, args, kw):
    if is_unk(*args):
        return Unk("inner")
    a, b = [toarr(e, x) for x in args[:2]]
    if a.ndim == 1 and b.ndim == 1:
        return matmul(e, args[0], args[1])
    raise Stop("inner")


@lib("numpy.trace")
def f_trace(e, args, kw):
    if is_unk(*args):
        return Unk("trace")
    a = toarr(e, args[0])
    if a.ndim != 2:
        raise PyRaise("ValueError", e.where())
    v = fresh_index()
    return Num(total(v, a.shape[0].n, a.at(v, v)))


@lib("numpy.diag", "numpy.diagonal")
def f_diag(e, args, kw):
    if is_unk(*args):
        return Unk("diag")
    a = toarr(e, args[0])
    v, w = fresh_index(), fresh_index()
    if a.ndim == 2:
        return put(e, Arr((a.shape[0],), (v,), a.at(v, v), a.dt))
    return put(e, Arr((a.shape[0], a.shape[0]), (v, w), a.at(v) * ind(
        eq(v, w)), a.dt))


@lib("numpy.transpose")
def f_transpose(e, args, kw):
    if is_unk(*args):
        return Unk("transpose")
    if len(args) > 1 or kw:
        raise Stop("transpose axes")
    a = toarr(e, args[0])
    return put(e, Arr(a.shape[::-1], a.vars[::-1], a.body, a.dt))


@lib("numpy.linalg.inv", "numpy.linalg.pinv", "scipy.linalg.inv")
def f_inv(e, args, kw):
    if is_unk(*args):
        return Unk("inv")
    return put(e, inv_arr(e, toarr(e, args[0])))


@lib("numpy.linalg.det")
def f_det(e, args, kw):
    if is_unk(*args):
        return Unk("det")
    return Num(fn("exp", logdet(e, toarr(e, args[0]))))


@lib("numpy.linalg.norm")
def f_norm(e, args, kw):
    if len(args) != 1 or kw or is_unk(*args):
        return Unk("norm")
    a = toarr(e, args[0])
    r = a.body * a.body
    for ax, v in zip(reversed(a.shape), reversed(a.vars)):
        if ax.filt is not None:
            return Unk("norm")
        i = fresh_index()
        r = total(i, ax.n, T.subst(r, v, i))
    return Num(T.sqrt(r))


@lib("numpy.linalg.slogdet")
def f_slogdet(e, args, kw):
    if is_unk(*args):
        return Unk("slogdet")
    return Tup([Num(1), Num(logdet(e, toarr(e, args[0])))])


@lib("numpy.linalg.solve")
def f_solve(e, args, kw):
    if is_unk(*args):
        return Unk("solve")
    return matmul(e, put(e, inv_arr(e, toarr(e, args[0]))), args[1])


@lib("numpy.linalg.cholesky")
def f_chol(e, args, kw):
    return Unk("cholesky")


@lib("numpy.cov")
def f_cov(e, args, kw):
    p = args_of(["m", "y", "rowvar", "bias", "ddof"], args, kw)
    if is_unk(*p.values()) or "y" in p and not isinstance(p["y"], Const):
        return Unk("cov")
    a = toarr(e, p["m"])
    if a.ndim == 1:
        a = Arr((Axis(ONE), a.shape[0]), (fresh_index(), a.vars[0]), a.body,
                a.dt)
    if "rowvar" in p and e.cond(p["rowvar"]).op == "false":
        a = Arr(a.shape[::-1], a.vars[::-1], a.body, a.dt)
    if "aweights" in kw or "fweights" in kw:
        return Unk("cov")
    ax = a.shape[1]
    n = ax.length()
    den = n - 1
    if "bias" in p and e.cond(p["bias"]).op == "true":
        den = n
    if "ddof" in p and not isinstance(p["ddof"], Const):
        den = n - num(e, p["ddof"])
    v, w, i = fresh_index(), fresh_index(), fresh_index()
    g = ind(ax.guard(i))

    def m(r):
        k = fresh_index()
        return total(k, ax.n, a.at(r, k) * ind(ax.guard(k))) / n
    body = total(i, ax.n, (a.at(v, i) - m(v)) * (a.at(w, i) - m(w)) * g) / den
    if a.shape[0].is_one():
        return Num(T.subst_many(body, {v: ZERO, w: ZERO}))
    return e.new("arr", Arr((a.shape[0], a.shape[0]), (v, w), body, "f"))


@lib("numpy.var", "numpy.std")
def f_var(e, args, kw, name="numpy.var"):
    if is_unk(*args):
        return Unk("var")
    a = toarr(e, args[0])
    axis = kw.get("axis", args[1] if len(args) > 1 else None)
    k = axis_no(a, axis)
    if a.ndim == 1:
        k = 0
    if k is None or isinstance(k, tuple):
        raise Stop("var")
    m = mean_(e, a, Num(k, "i"), True)
    sh, vs, (x, y) = broadcast(e, [a, m])
    d = Arr(sh, vs, (x - y) * (x - y), "f")
    s = reduce_(e, "sum", d, Num(k, "i"))
    dd = num(e, kw["ddof"]) if "ddof" in kw else ZERO
    body = s.body / (a.shape[k].length() - dd)
    if name.endswith("std"):
        body = T.sqrt(body)
    return put(e, Arr(s.shape, s.vars, body, "f"))


SPECIAL["numpy.var"] = SPECIAL["numpy.std"] = f_var


@lib("scipy.special.logsumexp", "numpy.logaddexp.reduce")
def f_lse(e, args, kw):
    if is_unk(*args):
        return Unk("logsumexp")
    a = toarr(e, args[0])
    axis = kw.get("axis", args[1] if len(args) > 1 else None)
    x = Arr(a.shape, a.vars, fn("exp", a.body), "f")
    keep = "keepdims" in kw and e.cond(kw["keepdims"]).op == "true"
    s = reduce_(e, "sum", x, axis, keep)
    return put(e, Arr(s.shape, s.vars, fn("log", s.body), "f"))


@lib("scipy.special.softmax")
def f_softmax(e, args, kw):
    if is_unk(*args):
        return Unk("softmax")
    a = toarr(e, args[0])
    axis = kw.get("axis", args[1] if len(args) > 1 else None)
    x = Arr(a.shape, a.vars, fn("exp", a.body), "f")
    s = reduce_(e, "sum", x, axis, True)
    sh, vs, (p, q) = broadcast(e, [x, s]) if s.ndim else (
        x.shape, x.vars, (x.body, s.body))
    return put(e, Arr(sh, vs, p / q, "f"))


@lib("scipy.special.multigammaln")
def f_mgl(e, args, kw):
    a, d = num(e, args[0]), num(e, args[1])
    v = fresh_index()
    return Num(d * (d - 1) / 4 * fn("log", PI) + total(v, d, fn(
        "loggamma", a - v / 2)))


@lib("numpy.finfo", "numpy.iinfo")
def f_finfo(e, args, kw):
    return Const(("finfo",))


@lib("numpy.errstate", "warnings.catch_warnings", "numpy.seterr",
     "warnings.simplefilter", "warnings.warn", "builtins.print",
     "warnings.filterwarnings")
def f_none(e, args, kw):
    return Const("<context>")


@lib("numpy.shape")
def f_shape(e, args, kw):
    if isinstance(args[0], Unk):
        return attr(e, args[0], "shape")
    return Tup([Num(x.length(), "i") for x in toarr(e, args[0]).shape])


@lib("numpy.size")
def f_size(e, args, kw):
    return attr(e, args[0], "size")


@lib("numpy.ndim")
def f_ndim(e, args, kw):
    if isinstance(args[0], (Unk, Const)):
        return attr(e, args[0], "ndim") if isinstance(args[0], Unk) else \
            Num(0, "i")
    return Num(toarr(e, args[0]).ndim, "i")


@lib("numpy.reshape")
def f_reshape(e, args, kw):
    return arr_method(e, args[0], "reshape", args[1:], kw)


@lib("numpy.ravel")
def f_ravel(e, args, kw):
    return arr_method(e, args[0], "ravel", [], {})


@lib("numpy.squeeze")
def f_squeeze(e, args, kw):
    return arr_method(e, args[0], "squeeze", [], kw)


@lib("numpy.expand_dims")
def f_expand(e, args, kw):
    a = toarr(e, args[0])
    k = int(num(e, args[1] if len(args) > 1 else kw["axis"]).value())
    k = k % (a.ndim + 1)
    sh, vs = list(a.shape), list(a.vars)
    sh.insert(k, Axis(ONE))
    vs.insert(k, fresh_index())
    return put(e, Arr(sh, vs, a.body, a.dt))


@lib("numpy.allclose", "numpy.isclose", "numpy.array_equal")
def f_unk(e, args, kw):
    return Unk("comparison")


@lib("numpy.searchsorted", "numpy.digitize")
def f_search(e, args, kw):
    return Unk("searchsorted")


def opq_num(e, lo=-INF, hi=INF, integer=False):
    i = e.opaque(lo=lo, hi=hi, integer=integer)
    return Num(Poly.atom(Atom("opq", i, tuple(x[0] for x in e.loopvars))),
               "i" if integer else "f")


@lib("scipy.optimize.brentq", "scipy.optimize.bisect", "scipy.optimize.ridder",
     "scipy.optimize.brenth", "scipy.optimize.toms748")
def f_brentq(e, args, kw):
    """A root between the ends of the bracket."""
    p = args_of(["f", "a", "b"], args, kw)
    lo = hi = None
    try:
        lo, hi = T.rng(num(e, p["a"]))[0], T.rng(num(e, p["b"]))[1]
    except (Stop, KeyError):
        lo, hi = -INF, INF
    return opq_num(e, lo, hi)


@lib("scipy.integrate.quad")
def f_quad(e, args, kw):
    return Tup([opq_num(e), opq_num(e)])


@lib("scipy.optimize.minimize_scalar", "scipy.optimize.minimize")
def f_minimize(e, args, kw):
    p = args_of(["fun", "x0"], args, kw)
    lo, hi = -INF, INF
    b = kw.get("bounds")
    try:
        if b is not None:
            a = toarr(e, b)
            r0 = T.rng(a.at(ZERO, ZERO) if a.ndim == 2 else a.at(ZERO))
            r1 = T.rng(a.at(ZERO, ONE) if a.ndim == 2 else a.at(ONE))
            if a.ndim == 1 or a.shape[0].is_one():
                lo, hi = r0[0], r1[1]
    except Stop:
        pass
    if "x0" in p:
        x0 = toarr(e, p["x0"])
        x = opaque_arr(e, x0.shape or (Axis(ONE),), lo=lo, hi=hi)
    else:
        x = opq_num(e, lo, hi)
    okv = Bool(eq(opq_num(e, 0, 1, True).p, 1))
    return Opaque("result", lambda e, n, a, k: Unk("result"),
                  {"x": x, "success": okv, "fun": opq_num(e)})


# ------------------------------------------------------------ rng
@lib("numpy.random.default_rng")
def f_rng(e, args, kw):
    if args and isinstance(args[0], Rng):
        return args[0]
    return Rng("seeded")


@lib("numpy.random.RandomState")
def f_rs(e, args, kw):
    return Rng("RandomState")


def give_labels(e, r, k):
    """Labels of a clustering into k groups: none of them empty."""
    from .witness import h01
    ats = [x for x in e.heap[r.i].body.atoms() if x.op == "opq"]
    if not isinstance(k, Num) or len(ats) != 1:
        return
    i, kp = ats[0].args[0], k.p

    def gen(A, idx, env):
        m = A.index(kp, env)
        given = getattr(A, "over", {}).get("kmeans")
        if given is not None:
            return given(A, idx)
        if idx[-1] < m:
            return idx[-1]
        return int(m * h01(A.seed, "labels", A.alias.get(i, i), *idx))
    T.DRAWS[i].update(gen=gen, dist="opaque", solid=not e.loopvars)


@lib("sklearn.cluster.KMeans", "sklearn.cluster.SpectralClustering")
def f_kmeans(e, args, kw):
    k = kw.get("n_clusters", args[0] if args else Num(8, "i"))

    def h(e, name, a, kw):
        if name in ("fit_predict", "predict"):
            y = toarr(e, a[0])
            r = opaque_arr(e, [y.shape[0]], integer=True, lo=0)
            give_labels(e, r, k)
            return r
        if name == "fit":
            return o
        return Unk("sklearn." + name)
    o = Opaque("sklearn", h)
    return o


@lib("tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.trange")
def f_tqdm(e, args, kw):
    if args:
        return args[0]
    return Opaque("tqdm", lambda e, n, a, k: NONE)


# ------------------------------------------------------------ builtins
@lib("builtins.len")
def f_len(e, args, kw):
    if is_unk(args[0]):
        return Num(Poly.atom(Atom("opq", e.opaque(lo=0, integer=True),
                                  ())), "i")
    return Num(length(e, args[0]), "i")


def length(e, v):
    if isinstance(v, Tup):
        return P(len(v.items))
    if isinstance(v, Range):
        return toarr(e, v).shape[0].n
    if isinstance(v, Ref):
        c = e.heap[v.i]
        if v.kind == "arr":
            if not c.shape:
                raise PyRaise("TypeError", e.where(), "len of a scalar")
            return c.shape[0].length()
        if v.kind == "list":
            n = ZERO
            for x in c.items:
                if isinstance(x, Many):
                    n = n + total(x.var, x.n, ind(x.guard))
                elif isinstance(x, Rest):
                    T.DRAWS.setdefault(("len", x.i), dict(
                        dist="length", lo=0, hi=INF, lo_in=True,
                        hi_in=False, int=True))
                    n = n + Poly.atom(Atom("opq", ("len", x.i), ()))
                else:
                    n = n + 1
            return n
        if v.kind == "dict":
            if c.base is None and not c.layers:
                return P(len(c.items))
            return Poly.atom(Atom("opq", e.opaque(lo=0, integer=True), ()))
        if v.kind == "obj":
            m, k = c.cls.find("__len__")
            if m is not None:
                return num(e, e.call_func(m, [v], {}))
    if isinstance(v, Const) and isinstance(v.v, (str, tuple)):
        return P(len(v.v))
    if isinstance(v, Frame_):
        return e.heap[v.ref.i].shape[0].n
    if isinstance(v, (Num, Bool)):
        raise PyRaise("TypeError", e.where(), "len of a number")
    raise Stop("len of %r" % (v,))


@lib("builtins.range")
def f_range(e, args, kw):
    if is_unk(*args):
        return Unk("range")
    a = [num(e, x) for x in args]
    if len(a) == 1:
        return Range(ZERO, a[0])
    return Range(a[0], a[1], a[2] if len(a) > 2 else None)


@lib("builtins.enumerate")
def f_enumerate(e, args, kw):
    p = args_of(["it", "start"], args, kw, {"start": Num(0, "i")})
    s = num(e, p["start"])
    it = e.iterable(p["it"])
    if isinstance(it, list):
        return Tup([Tup([Num(s + i, "i"), x]) for i, x in enumerate(it)])

    def count(i):
        if it.guard(i).op == "true":
            return Num(s + i, "i")
        w = fresh_index()
        return Num(s + total(w, i, ind(it.guard(w))), "i")
    return Lazy(it.n, it.guard, lambda i: Tup([count(i), it.elem(i)]))


@lib("builtins.zip")
def f_zip(e, args, kw):
    its = [e.iterable(a) for a in args]
    if all(isinstance(i, list) for i in its):
        return Tup([Tup(list(t)) for t in zip(*its)])
    lz = [i if isinstance(i, Lazy) else None for i in its]
    if any(z is None for z in lz):
        k = min(len(i) for i in its if isinstance(i, list))
        # a fixed number of elements
        out = []
        for j in range(k):
            row_ = []
            for i in its:
                if isinstance(i, list):
                    row_.append(i[j])
                else:
                    if i.guard(P(j)).op != "true":
                        raise Stop("zip of masked")
                    if e.decide(gt(i.n, j)) is not True:
                        raise Stop("zip lengths")
                    row_.append(i.elem(P(j)))
            out.append(Tup(row_))
        return Tup(out)
    g0 = lz[0].guard
    n = lz[0].n
    for z in lz[1:]:
        v = fresh_index()
        if z.guard(v) != g0(v):
            raise Stop("zip of different masks")
        if z.n != n:
            r = e.decide(eq(z.n, n))
            if r is not True:
                if e.decide(le(n, z.n)) is True:
                    continue
                if e.decide(le(z.n, n)) is True:
                    n = z.n
                    continue
                n = fn("min2", n, z.n)
    return Lazy(n, g0, lambda i: Tup([z.elem(i) for z in lz]))


@lib("builtins.reversed")
def f_reversed(e, args, kw):
    it = e.iterable(args[0])
    if isinstance(it, list):
        return Tup(it[::-1])
    return Lazy(it.n, lambda i: it.guard(it.n - 1 - i),
                lambda i: it.elem(it.n - 1 - i))


@lib("builtins.map")
def f_map(e, args, kw):
    it = e.iterable(args[1])
    if len(args) != 2:
        raise Stop("map")
    if isinstance(it, list):
        return Tup([e.call(args[0], [x]) for x in it])
    return Lazy(it.n, it.guard, lambda i: e.call(args[0], [it.elem(i)]))


@lib("builtins.list")
def f_list(e, args, kw):
    if not args:
        return e.list_([])
    if is_unk(args[0]):
        return Unk("list")
    it = e.iterable(args[0])
    if isinstance(it, list):
        return e.list_(it)
    return e.list_([lazy_many(e, it)])


@lib("builtins.tuple")
def f_tuple(e, args, kw):
    if not args:
        return Tup([])
    it = e.iterable(args[0])
    if isinstance(it, list):
        return Tup(it)
    return e.list_([lazy_many(e, it)])


@lib("builtins.dict")
def f_dict(e, args, kw):
    items = [(Const(k), v) for k, v in kw.items()]
    if args:
        if isinstance(args[0], Ref) and args[0].kind == "dict":
            d = e.heap[args[0].i]
            return e.new("dict", DictV(d.items + tuple(items), d.layers,
                                       None, d.base))
        return Unk("dict")
    return e.new("dict", DictV(items))


@lib("builtins.set", "builtins.frozenset")
def f_set(e, args, kw):
    if not args:
        return Tup([])
    if e.is_arr(args[0]):
        return f_unique(e, args, {})
    return Unk("set")


@lib("collections.defaultdict")
def f_defaultdict(e, args, kw):
    if args and getattr(e, "lazy", False):
        t = lazy_items(e, args[0])
        if t is not None:
            return e.new("dict", DictV((), (), args[0], ("lazy", t)))
    return e.new("dict", DictV((), (), args[0] if args else None))


def lazy_items(e, factory):
    """What the factory makes for a key: the same whenever it is asked
    for, since independent draws have no order."""
    k = fresh_index()
    n = e.opaque(lo=1, integer=True)
    e.loopvars.append((k, Poly.atom(Atom("opq", n, ())), T.TRUE))
    try:
        x = e.call(factory, [], {})
    except (Stop, PyRaise):
        return None
    finally:
        e.loopvars.pop()
    return lambda i: e.subst_val(x, k, i)


@lib("builtins.sum")
def f_bsum(e, args, kw):
    v = args[0]
    if is_unk(v):
        return Unk("sum")
    it = e.iterable(v)
    r = args[1] if len(args) > 1 else Num(0, "i")
    if isinstance(it, list):
        for x in it:
            r = binop(e, "Add", r, x)
        return r
    m = lazy_many(e, it)
    a = toarr(e, m.tmpl)
    s = Arr(a.shape, a.vars, total(m.var, m.n, a.body * ind(m.guard)),
            "i" if a.dt == "b" else a.dt)
    return binop(e, "Add", r, put(e, s)) if len(args) > 1 else put(e, s)


def bminmax(kind):
    def f(e, args, kw):
        if is_unk(*args):
            return Unk(kind)
        if len(args) == 1:
            v = args[0]
            it = e.iterable(v)
            if isinstance(it, list):
                args = it
            else:
                a = toarr(e, v)
                if a.ndim != 1:
                    raise Stop("max of rows")
                if "default" in kw:
                    r = reduce_(e, kind, a, empty=True)
                    some = gt(a.shape[0].n, 0) if a.shape[0].filt is None \
                        else None
                    if some is None:
                        raise Stop("default of a masked maximum")
                    return put(e, Arr((), (), ite(
                        some, r.body, num(e, kw["default"])), r.dt))
                return put(e, reduce_(e, kind, a))
        if not args:
            if "default" in kw:
                return kw["default"]
            raise PyRaise("ValueError", e.where())
        r = num(e, args[0])
        k = kind_of(e, args[0])
        for x in args[1:]:
            r = fn(kind + "2", r, num(e, x))
            k = dtjoin((k, kind_of(e, x)))
        return Num(r, k)
    return f


FN["builtins.max"] = bminmax("max")
FN["builtins.min"] = bminmax("min")


def bany(kind):
    def f(e, args, kw):
        it = e.iterable(args[0])
        if isinstance(it, list):
            cs = [e.cond(x) for x in it]
            return Bool(either(*cs) if kind == "any" else both(*cs))
        m = lazy_many(e, it)
        c = e.cond(m.tmpl)
        if kind == "any":
            return Bool(gt(total(m.var, m.n, ind(both(m.guard, c))), 0))
        return Bool(eq(total(m.var, m.n, ind(both(m.guard, no(c)))), 0))
    return f


FN["builtins.any"] = bany("any")
FN["builtins.all"] = bany("all")


@lib("builtins.round", "numpy.round", "numpy.around")
def f_round(e, args, kw):
    return Unk("round")


@lib("builtins.str", "builtins.repr", "builtins.format")
def f_str(e, args, kw):
    return Const("<string>")


@lib("builtins.hasattr")
def f_hasattr(e, args, kw):
    o, n = args[0], args[1].v
    if isinstance(o, Ref) and o.kind == "obj":
        c = e.heap[o.i]
        return Bool(TRUE if n in c.fields or c.cls.find(n)[0] is not None
                    else FALSE)
    if e.is_arr(o):
        return Bool(TRUE if n in ("shape", "ndim", "T", "size", "__len__",
                                  "sum") else FALSE)
    return Unk("hasattr")


@lib("builtins.getattr")
def f_getattr(e, args, kw):
    try:
        return e.getattr(args[0], args[1].v)
    except PyRaise as ex:
        if ex.name == "AttributeError" and len(args) > 2:
            return args[2]
        raise


@lib("builtins.setattr")
def f_setattr(e, args, kw):
    e.setfield(args[0], args[1].v, args[2])
    return NONE


@lib("builtins.callable")
def f_callable(e, args, kw):
    return Bool(TRUE if isinstance(args[0], (Func, Bound, Cls, Ext)) else
                FALSE)


def typename(e, v):
    if isinstance(v, Num):
        return {"i": "builtins.int", "f": "builtins.float",
                "b": "builtins.bool"}[v.kind]
    if isinstance(v, Bool):
        return "builtins.bool"
    if isinstance(v, Tup):
        return "builtins.tuple"
    if isinstance(v, Ref):
        return {"arr": "numpy.ndarray", "list": "builtins.list",
                "dict": "builtins.dict"}.get(v.kind)
    if isinstance(v, Rng):
        return "numpy.random.RandomState" if v.name == "RandomState" else \
            "numpy.random.Generator"
    if isinstance(v, Const):
        return {str: "builtins.str", type(None): "builtins.NoneType",
                tuple: "builtins.tuple"}.get(type(v.v))
    if isinstance(v, Range):
        return "builtins.range"
    if isinstance(v, Frame_):
        return "pandas." + v.kind
    return None


@lib("builtins.type")
def f_type(e, args, kw):
    v = args[0]
    if is_unk(v):
        return Unk("type")
    if isinstance(v, Ref) and v.kind == "obj":
        return e.heap[v.i].cls
    n = typename(e, v)
    return Ext(n) if n else Unk("type")


@lib("builtins.isinstance")
def f_isinstance(e, args, kw):
    v, t = args
    if is_unk(v):
        return Unk("isinstance")
    ts = flat(t)
    if any(isinstance(x, Unk) for x in ts):
        return Unk("isinstance")
    for x in ts:
        if isinstance(x, Cls):
            if isinstance(v, Ref) and v.kind == "obj" and x in e.heap[
                    v.i].cls.mro:
                return Bool(TRUE)
            if isinstance(v, Opaque) and x.name == v.name:
                return Bool(TRUE)
        elif isinstance(x, Ext):
            n = typename(e, v)
            m = x.name
            if n == m:
                return Bool(TRUE)
            if m in ("numbers.Number", "numbers.Real") and isinstance(
                    v, (Num, Bool)):
                return Bool(TRUE)
            if m in ("numbers.Integral",) and isinstance(v, Num) and \
                    v.kind == "i":
                return Bool(TRUE)
            if m == "builtins.int" and isinstance(v, Bool):
                return Bool(TRUE)
            if m in ("collections.abc.Sequence",) and n in (
                    "builtins.list", "builtins.tuple"):
                return Bool(TRUE)
    return Bool(FALSE)


def flat(t):
    if isinstance(t, Tup):
        out = []
        for x in t.items:
            out += flat(x)
        return out
    return [t]


@lib("builtins.issubclass")
def f_issub(e, args, kw):
    if isinstance(args[0], Cls):
        return Bool(TRUE if any(x in args[0].mro for x in flat(args[1]))
                    else FALSE)
    return Unk("issubclass")


@lib("builtins.id", "builtins.hash")
def f_id(e, args, kw):
    return Unk("id")


@lib("builtins.object.__init__")
def f_oinit(e, args, kw):
    return NONE


@lib("copy.copy", "copy.deepcopy")
def f_copy(e, args, kw, name="copy.copy"):
    return deep(e, args[0], 0 if name.endswith("deepcopy") else 9)


SPECIAL["copy.copy"] = SPECIAL["copy.deepcopy"] = f_copy


def deep(e, v, d):
    if isinstance(v, Ref):
        c = e.heap[v.i]
        if v.kind == "arr":
            return e.new("arr", c)
        if v.kind == "list":
            return e.new("list", ListV([deep(e, x, d + 1) if isinstance(
                x, Val) and d < 5 else x for x in c.items]))
        if v.kind == "dict":
            return e.new("dict", DictV([(k, deep(e, x, d + 1) if d < 5 else
                                         x) for k, x in c.items], c.layers,
                                       c.factory, c.base))
        return Unk("copy of an object")
    if isinstance(v, Tup) and d < 5:
        return Tup([deep(e, x, d + 1) for x in v.items])
    return v


# ------------------------------------------------------------ dispatch
def call(e, f, args, kw):
    if isinstance(f, Meth):
        return method(e, f.recv, f.name, args, kw)
    name = f.name
    h = FN.get(name)
    if h is not None:
        if name in SPECIAL:
            return h(e, args, kw, name=name)
        return h(e, args, kw)
    n = name.rsplit(".", 1)[-1]
    from .vg import BUILTIN_EXC
    if n in BUILTIN_EXC or n.endswith(("Error", "Warning", "Exception")):
        return Const(("exc", n))
    e.unknown.add(name)
    if name.startswith(("numpy.random.",)):
        return Unk("global random state")
    return Unk(name)


def ext_attr(e, name):
    if name in ("numpy.inf", "math.inf", "numpy.Inf", "numpy.PINF"):
        return Num(PINF)
    if name in ("numpy.pi", "math.pi"):
        return Num(PI)
    if name in ("numpy.e", "math.e"):
        return Num(fn("exp", ONE))
    if name in ("numpy.newaxis",):
        return NONE
    if name in ("numpy.nan", "math.nan"):
        return Unk("nan")
    if name in ("numpy.NINF",):
        return Num(-PINF)
    return Ext(name)


def attr(e, o, name):
    if isinstance(o, Unk):
        return Unk("attribute of unknown")
    if isinstance(o, Frame_):
        if name == "columns":
            return Const(("columns",))
        if name == "name":
            return NONE
        if name in ("shape", "ndim", "size", "T"):
            return attr(e, o.ref, name)
        if name == "values":
            return o.ref
        return Meth(o, name)
    if isinstance(o, Opaque):
        if name in o.attrs:
            return o.attrs[name]
        return Meth(o, name)
    if isinstance(o, Const) and isinstance(o.v, tuple) and o.v and \
            o.v[0] == "finfo":
        return Num(EPS) if name in ("eps", "tiny", "resolution",
                                    "smallest_normal") else Unk("finfo")
    if e.is_arr(o) or isinstance(o, (Num, Bool)):
        a = toarr(e, o)
        if name == "shape":
            return Tup([Num(x.length(), "i") for x in a.shape])
        if name == "ndim":
            return Num(a.ndim, "i")
        if name == "size":
            n = ONE
            for x in a.shape:
                n = n * x.length()
            return Num(n, "i")
        if name == "T":
            return put(e, Arr(a.shape[::-1], a.vars[::-1], a.body, a.dt))
        if name == "dtype":
            return Ext({"f": "numpy.float64", "i": "numpy.int64",
                        "b": "numpy.bool_"}[a.dt])
        if name == "real":
            return o
        return Meth(o, name)
    if isinstance(o, Rng) and name in ("bit_generator",):
        return o
    if isinstance(o, Func) and name == "__name__":
        return Const(o.name)
    return Meth(o, name)


def method(e, o, name, args, kw):
    if isinstance(o, Unk):
        return Unk("method of unknown")
    if isinstance(o, Rng):
        return rng_call(e, o, name, args, kw)
    if isinstance(o, Opaque):
        return o.handler(e, name, args, kw)
    if isinstance(o, Frame_):
        if name in ("to_numpy", "copy"):
            return e.new("arr", e.heap[o.ref.i]) if name == "to_numpy" \
                else o
        return Unk("frame method")
    if isinstance(o, Ref) and o.kind == "list":
        return list_method(e, o, name, args, kw)
    if isinstance(o, Ref) and o.kind == "dict":
        return dict_method(e, o, name, args, kw)
    if e.is_arr(o) or isinstance(o, (Num, Bool)):
        return arr_method(e, o, name, args, kw)
    if isinstance(o, Const) and isinstance(o.v, str):
        return Const("<string>") if name in ("format", "join", "strip") \
            else Unk("string method")
    if isinstance(o, Tup) and name in ("index", "count"):
        return Unk("tuple method")
    if isinstance(o, Const):
        return Unk("method of constant")
    raise Stop("method %s of %r" % (name, o))


def list_method(e, o, name, args, kw):
    c = e.heap[o.i]
    if name == "append":
        e.heap[o.i] = ListV(c.items + (args[0],))
        return NONE
    if name == "extend":
        it = e.iterable(args[0])
        if isinstance(it, list):
            e.heap[o.i] = ListV(c.items + tuple(it))
        else:
            e.heap[o.i] = ListV(c.items + (lazy_many(e, it),))
        return NONE
    if name == "copy":
        return e.list_(c.items)
    if name == "clear":
        e.heap[o.i] = ListV([])
        return NONE
    if name == "insert" and all(isinstance(x, Val) for x in c.items):
        i = num(e, args[0]).value()
        if i is not None:
            it = list(c.items)
            it.insert(int(i), args[1])
            e.heap[o.i] = ListV(it)
            return NONE
    if name == "pop" and not args and c.items and isinstance(
            c.items[-1], Val):
        e.heap[o.i] = ListV(c.items[:-1])
        return c.items[-1]
    if name in ("index", "count"):
        return Unk("list." + name)
    raise Stop("list.%s" % name)


def dict_method(e, o, name, args, kw):
    d = e.heap[o.i]
    if name == "get":
        if isinstance(args[0], Const):
            for q, v in reversed(d.items):
                if isinstance(q, Const) and q.v == args[0].v:
                    return v
            return args[1] if len(args) > 1 else NONE
        return Unk("dict.get")
    if name in ("items", "keys", "values") and not d.layers and \
            d.base is None:
        return Tup([Tup([k, v]) if name == "items" else k if
                    name == "keys" else v for k, v in d.items])
    if name == "copy":
        return e.new("dict", d)
    if name == "update" and args and isinstance(args[0], Ref) and \
            args[0].kind == "dict":
        for k, v in e.heap[args[0].i].items:
            setitem(e, o, [k], v)
        return NONE
    if name in ("items", "keys", "values"):
        return Unk("dict." + name)
    raise Stop("dict.%s" % name)


def arr_method(e, o, name, args, kw):
    a = toarr(e, o)
    full_ = "numpy." + name
    if name in ("sum", "prod", "max", "min", "mean", "any", "all", "argmax",
                "argmin", "cumsum", "cumprod", "var", "std", "dot", "clip", "repeat",
                "argsort", "trace", "diagonal", "round"):
        f = FN[full_]
        if full_ in SPECIAL:
            return f(e, [o] + list(args), kw, name=full_)
        return f(e, [o] + list(args), kw)
    if name in ("copy", "__copy__", "__array__"):
        return put(e, a)
    if name == "astype":
        dt = dtype_of(e, {"dtype": args[0] if args else kw.get("dtype")},
                      default=a.dt)
        body = fn("floor", a.body) if dt == "i" and a.dt == "f" else a.body
        return put(e, Arr(a.shape, a.vars, body, dt))
    if name == "transpose" and not args:
        return put(e, Arr(a.shape[::-1], a.vars[::-1], a.body, a.dt))
    if name == "item" and not args:
        return Num(num(e, o), a.dt)
    if name in ("ravel", "flatten"):
        if a.ndim == 1:
            return put(e, a)
        if a.ndim == 2 and a.shape[1].is_one():
            return put(e, Arr(a.shape[:1], a.vars[:1], T.subst(
                a.body, a.vars[1], ZERO), a.dt))
        if a.ndim == 2 and a.shape[0].is_one():
            return put(e, Arr(a.shape[1:], a.vars[1:], T.subst(
                a.body, a.vars[0], ZERO), a.dt))
        if a.ndim == 0:
            return e.new("arr", Arr((Axis(ONE),), (fresh_index(),), a.body,
                                    a.dt))
        raise Stop("ravel")
    if name == "squeeze":
        k = [j for j, s in enumerate(a.shape) if s.is_one()]
        body = T.subst_many(a.body, {a.vars[j]: ZERO for j in k})
        return put(e, Arr([s for j, s in enumerate(a.shape) if j not in k],
                          [v for j, v in enumerate(a.vars) if j not in k],
                          body, a.dt))
    if name == "tolist":
        if a.ndim == 1 and a.shape[0].filt is None:
            k = a.shape[0].n.value()
            if k is not None and k < 8:
                return e.list_([Num(a.at(P(j)), a.dt)
                                for j in range(int(k))])
            return e.list_([Many(a.vars[0], a.shape[0].n, Num(a.body,
                                                              a.dt))])
        return Unk("tolist")
    if name == "fill":
        e.heap[o.i] = Arr(a.shape, a.vars, num(e, args[0]), a.dt)
        return NONE
    if name == "resize":
        n = num(e, args[0] if not isinstance(args[0], Tup) else
                args[0].items[0])
        if a.ndim != 1:
            raise Stop("resize")
        e.heap[o.i] = Arr((Axis(n),), a.vars, ite(lt(
            a.vars[0], a.shape[0].n), a.body, ZERO), a.dt)
        return NONE
    if name == "reshape":
        sh = args[0].items if len(args) == 1 and isinstance(
            args[0], Tup) else list(args)
        ns = [num(e, x) for x in sh]
        return put(e, reshape(e, a, ns))
    raise Stop("array method %s" % name)


def reshape(e, a, ns):
    live = [(s, v) for s, v in zip(a.shape, a.vars) if not s.is_one()]
    body = T.subst_many(a.body, {v: ZERO for s, v in zip(
        a.shape, a.vars) if s.is_one()})
    if len(ns) == 1:
        if len(live) == 1:
            return Arr([live[0][0]], [live[0][1]], body, a.dt)
        if not live:
            return Arr([Axis(ONE)], [fresh_index()], body, a.dt)
        raise Stop("reshape")
    # one long axis, the rest of length one
    if len(live) <= 1:
        sh, vs, used = [], [], False
        for n in ns:
            if n == ONE:
                sh.append(Axis(ONE))
                vs.append(fresh_index())
            elif not used and live:
                sh.append(live[0][0])
                vs.append(live[0][1])
                used = True
            elif not live and n == P(-1):
                sh.append(Axis(ONE))
                vs.append(fresh_index())
            else:
                raise Stop("reshape")
        if live and not used:
            raise Stop("reshape")
        return Arr(sh, vs, body, a.dt)
    # same shape
    if len(ns) == len(a.shape) and all(
            n == P(-1) or n == s.n for n, s in zip(ns, a.shape)):
        return a
    raise Stop("reshape")
