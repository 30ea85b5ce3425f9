"""Effect / alias / taint abstract interpreter over the package sources.

Forward abstract interpretation, fully context sensitive (calls are inlined up
to a recursion bound), joining at merges and iterating loops to a fixpoint.
The abstract value is a product of points-to set (allocation sites with
recency), scalar kinds, small constant sets, callables and dependence labels.
No package code runs.
"""
import ast
import builtins

from .front import Program, AnalysisBroken, c3

LIMIT = 8
E = frozenset()


class Dead(Exception):
    """The current abstract state is unreachable."""


class Budget(AnalysisBroken):
    pass


# ---------------------------------------------------------------- callables
class Func:
    __slots__ = ("node", "module", "cls", "fid", "name", "defaults",
                 "kwdefaults", "deco", "qual")

    def __init__(self, node, module, cls, fid, name, defaults, kwdefaults,
                 deco, qual):
        self.node, self.module, self.cls, self.fid = node, module, cls, fid
        self.name, self.defaults = name, defaults
        self.kwdefaults, self.deco, self.qual = kwdefaults, deco, qual

    def __repr__(self):
        return "<Func %s>" % self.qual


class Cls:
    __slots__ = ("name", "module", "bases", "ns", "mro", "node", "extbases")

    def __repr__(self):
        return "<Cls %s>" % self.name


class Bound:
    __slots__ = ("fn", "self_", "_h")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_
        self._h = hash((id(fn), self_))

    def __eq__(self, o):
        return (isinstance(o, Bound) and o.fn is self.fn
                and o.self_ == self.self_)

    def __hash__(self):
        return self._h


class Ext:
    """External (library) attribute path, or a builtin."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return "<Ext %s>" % self.path


class ExtM:
    """Bound method of an external/builtin-kind object."""
    __slots__ = ("name", "recv", "_h")

    def __init__(self, name, recv):
        self.name, self.recv = name, recv
        self._h = hash((name, recv))

    def __eq__(self, o):
        return (isinstance(o, ExtM) and o.name == self.name
                and o.recv == self.recv)

    def __hash__(self):
        return self._h


class Partial:
    __slots__ = ("fn", "args", "kwargs", "_h")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs
        self._h = hash((fn, args, kwargs))

    def __eq__(self, o):
        return (isinstance(o, Partial) and o.fn == self.fn and
                o.args == self.args and o.kwargs == self.kwargs)

    def __hash__(self):
        return self._h


class Mod:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Mod) and o.name == self.name

    def __hash__(self):
        return hash(("mod", self.name))


class Super:
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def __eq__(self, o):
        return (isinstance(o, Super) and o.cls is self.cls
                and o.self_ == self.self_)

    def __hash__(self):
        return hash((id(self.cls), self.self_))


# ---------------------------------------------------------------- values
class V:
    __slots__ = ("refs", "sc", "consts", "fns", "lab", "_h", "_ar")

    def __init__(self, refs=E, sc=E, consts=None, fns=E, lab=E):
        self._ar = None
        self.refs, self.sc, self.fns, self.lab = refs, sc, fns, lab
        self.consts = consts if sc else None
        self._h = hash((refs, sc, self.consts, fns, lab))

    def __eq__(self, o):
        return self is o or (
            isinstance(o, V) and self._h == o._h and self.refs == o.refs and self.sc == o.sc and
            self.consts == o.consts and self.fns == o.fns and
            self.lab == o.lab)

    def __hash__(self):
        return self._h

    def __repr__(self):
        s = []
        if self.refs:
            s.append("refs=%s" % sorted(map(str, self.refs)))
        if self.sc:
            s.append("sc=%s" % "|".join(sorted(self.sc)))
            if self.consts is not None:
                s.append("=%s" % sorted(map(repr, self.consts)))
        if self.fns:
            s.append("fns=%s" % list(self.fns))
        if self.lab:
            s.append("lab=%s" % sorted(map(str, self.lab)))
        return "V(%s)" % ",".join(s)

    def allrefs(self):
        """References of the value and of the callables it may be."""
        r = self._ar
        if r is None:
            r = self.refs
            for f in self.fns:
                r = r | fn_refs(f)
            self._ar = r
        return r

    def with_lab(self, lab):
        if not lab or lab <= self.lab:
            return self
        return V(self.refs, self.sc, self.consts, self.fns, self.lab | lab)

    def is_const(self):
        return (not self.refs and not self.fns and self.consts is not None)

    def const(self):
        """The single Python constant this value is, or raise KeyError."""
        if self.is_const() and len(self.consts) == 1:
            return next(iter(self.consts))[1]
        raise KeyError

    def bottom(self):
        return not (self.refs or self.sc or self.fns)


def fn_refs(f):
    if isinstance(f, Bound):
        r = f.self_.allrefs()
        return r if isinstance(f.fn, Func) else r | fn_refs(f.fn)
    if isinstance(f, Super):
        return f.self_.allrefs()
    if isinstance(f, ExtM):
        return f.recv.allrefs()
    if isinstance(f, Partial):
        r = f.fn.allrefs() if isinstance(f.fn, V) else E
        for x in f.args:
            r = r | x.allrefs()
        for _, x in f.kwargs:
            r = r | x.allrefs()
        return r
    if isinstance(f, Func):
        r = E
        for x in list(f.defaults) + list(
                f.kwdefaults.values() if isinstance(f.kwdefaults, dict)
                else f.kwdefaults or ()):
            if isinstance(x, V):
                r = r | x.allrefs()
        return r
    return E


def kind_of_const(c):
    if c is None:
        return "none"
    t = type(c).__name__
    return {"bool": "bool", "int": "int", "float": "float", "str": "str",
            "bytes": "bytes", "ellipsis": "ellipsis",
            "complex": "float"}.get(t, "any")


def const(c, lab=E):
    return V(E, frozenset([kind_of_const(c)]),
             frozenset([(type(c).__name__, c)]), E, lab)


def scalar(*kinds, lab=E):
    return V(E, frozenset(kinds), None, E, lab)


def ref(loc, lab=E):
    return V(frozenset([loc]), E, None, E, lab)


def fnv(f, lab=E):
    return V(E, E, None, frozenset([f]), lab)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
BOT = V()


def vjoin(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a == b:
        return a
    if not a.sc:
        consts = b.consts
    elif not b.sc:
        consts = a.consts
    elif a.consts is None or b.consts is None:
        consts = None
    else:
        consts = a.consts | b.consts
        if len(consts) > LIMIT:
            consts = None
    return V(a.refs | b.refs, a.sc | b.sc, consts, a.fns | b.fns,
             a.lab | b.lab)


# ---------------------------------------------------------------- heap
class H:
    __slots__ = ("kind", "cls", "fields", "elem", "items", "length", "lab",
                 "multi", "base", "ndim", "maybe", "ext", "_rs")

    def __init__(self, kind, cls=None, fields=None, elem=None, items=None,
                 length=None, lab=E, multi=False, base=E, ndim=None,
                 maybe=False, ext=None):
        self.kind, self.cls = kind, cls
        self.fields = fields or {}
        self.elem, self.items, self.length = elem, items, length
        self.lab, self.multi, self.base = lab, multi, base
        self.ndim, self.maybe, self.ext = ndim, maybe, ext
        self._rs = None

    def copy(self, **kw):
        h = H.__new__(H)
        h.kind, h.cls, h.fields = self.kind, self.cls, self.fields
        h.elem, h.items, h.length = self.elem, self.items, self.length
        h.lab, h.multi, h.base = self.lab, self.multi, self.base
        h.ndim, h.maybe, h.ext = self.ndim, self.maybe, self.ext
        h._rs = None
        for k, v in kw.items():
            setattr(h, k, v)
        return h

    def refset(self):
        """Every location the object refers to directly."""
        r = self._rs
        if r is None:
            out = set(self.base)
            if self.elem is not None:
                out |= self.elem.allrefs()
            if self.items:
                for x in self.items.values():
                    out |= x.allrefs()
            if self.fields:
                for x in self.fields.values():
                    out |= x.allrefs()
            r = self._rs = frozenset(out)
        return r

    def __eq__(self, o):
        if self is o:
            return True
        for s in ("kind", "cls", "length", "multi", "ndim", "maybe", "lab",
                  "base", "elem", "ext"):
            if getattr(self, s) != getattr(o, s):
                return False
        return self.fields == o.fields and self.items == o.items

    __hash__ = None


def djoin(a, b):
    if a is b:
        return a
    out = dict(a)
    for k, v in b.items():
        out[k] = vjoin(out.get(k), v)
    return out


def hjoin(a, b):
    if a is b or a == b:
        return a
    kind = a.kind if a.kind == b.kind else "any"
    cls = a.cls if a.cls is b.cls else None
    items = elem = None
    if a.items is not None and b.items is not None and (
            a.kind in ("dict", "inst", "defaultdict")
            or set(a.items) == set(b.items)):
        items = djoin(a.items, b.items)
        elem = vjoin(a.elem, b.elem)
    else:
        elem = vjoin(a.elem, b.elem)
        for it in (a.items, b.items):
            if it is not None:
                for v in it.values():
                    elem = vjoin(elem, v)
    return H(kind, cls, djoin(a.fields, b.fields), elem, items,
             a.length if a.length == b.length else None, a.lab | b.lab,
             a.multi or b.multi, a.base | b.base,
             a.ndim if a.ndim == b.ndim else None, a.maybe or b.maybe,
             a.ext if a.ext == b.ext else None)


class State:
    __slots__ = ("heap", "envs")

    def __init__(self, heap=None, envs=None):
        self.heap = heap if heap is not None else {}
        self.envs = envs if envs is not None else {}

    def copy(self):
        return State(dict(self.heap), {k: dict(v) for k, v in
                                       self.envs.items()})

    def __eq__(self, o):
        return self.heap == o.heap and self.envs == o.envs

    __hash__ = None


def sjoin(a, b):
    if a is None:
        return b
    if b is None or a is b:
        return a
    heap = dict(a.heap)
    for k, h in b.heap.items():
        o = heap.get(k)
        heap[k] = h if o is None else hjoin(o, h)
    envs = {}
    for f in set(a.envs) | set(b.envs):
        ea, eb = a.envs.get(f), b.envs.get(f)
        envs[f] = dict(ea or eb) if (ea is None or eb is None) else djoin(
            ea, eb)
    return State(heap, envs)


def ren_v(v, m):
    if v is None or not v.refs:
        # bound callables may capture references
        if v is not None and v.fns:
            return _ren_fns(v, m)
        return v
    if not any(r in m for r in v.refs):
        return _ren_fns(v, m) if v.fns else v
    v2 = V(frozenset(m.get(r, r) for r in v.refs), v.sc, v.consts, v.fns,
           v.lab)
    return _ren_fns(v2, m) if v2.fns else v2


def _ren_fns(v, m):
    ch = False
    out = []
    for f in v.fns:
        if isinstance(f, Bound):
            s = ren_v(f.self_, m)
            if s is not f.self_:
                f, ch = Bound(f.fn, s), True
        elif isinstance(f, ExtM):
            s = ren_v(f.recv, m)
            if s is not f.recv:
                f, ch = ExtM(f.name, s), True
        elif isinstance(f, Super):
            s = ren_v(f.self_, m)
            if s is not f.self_:
                f, ch = Super(f.cls, s), True
        out.append(f)
    if not ch:
        return v
    return V(v.refs, v.sc, v.consts, frozenset(out), v.lab)


class Loc(int):
    """Abstract location: allocation key plus age ('r'ecent or 'o'lder).

    One object per (key, age) and engine; the integer value is its identity.
    """
    def __repr__(self):
        return "%s%s@%s" % (self.desc, "" if self.age == "r" else "'",
                            self.step)

    __str__ = __repr__


class Event:
    __slots__ = ("kind", "data", "where", "step", "func", "loop", "stack")

    def __init__(self, kind, data, where, step, func, loop, stack):
        self.kind, self.data, self.where = kind, data, where
        self.step, self.func, self.loop = step, func, loop
        self.stack = stack

    def __repr__(self):
        return "%s %s at %s in %s" % (self.kind, self.data, self.where,
                                      self.func)


EXC_PARENT = {
    "IndexError": "LookupError", "KeyError": "LookupError",
    "NotImplementedError": "RuntimeError", "ZeroDivisionError":
    "ArithmeticError", "FloatingPointError": "ArithmeticError",
    "OverflowError": "ArithmeticError", "ModuleNotFoundError": "ImportError",
    "UnicodeError": "ValueError", "LinAlgError": "ValueError",
}

SC_TYPES = {"none": {"builtins.NoneType"}, "bool": {"builtins.bool"},
            "int": {"builtins.int"}, "float": {"builtins.float"},
            "str": {"builtins.str"}, "bytes": {"builtins.bytes"},
            "npint": {"numpy.int64"}, "npfloat": {"numpy.float64"},
            "npbool": {"numpy.bool_"}, "slice": {"builtins.slice"}}
SC_BASES = {"bool": {"builtins.bool", "builtins.int", "numbers.Number",
                     "numbers.Integral", "numbers.Real"},
            "int": {"builtins.int", "numbers.Number", "numbers.Integral",
                    "numbers.Real"},
            "float": {"builtins.float", "numbers.Number", "numbers.Real"},
            "str": {"builtins.str", "collections.abc.Sequence",
                    "collections.abc.Iterable"},
            "npint": {"numpy.int64", "numpy.integer", "numpy.number",
                      "numpy.generic", "numbers.Number", "numbers.Integral",
                      "numbers.Real", "numpy.signedinteger"},
            "npfloat": {"numpy.float64", "numpy.floating", "numpy.number",
                        "numpy.generic", "builtins.float", "numbers.Number",
                        "numbers.Real", "numpy.inexact"},
            "npbool": {"numpy.bool_", "numpy.generic"},
            "none": {"builtins.NoneType"}}
KIND_BASES = {"ndarray": {"numpy.ndarray", "collections.abc.Iterable"},
              "list": {"builtins.list", "collections.abc.Sequence",
                       "collections.abc.Iterable"},
              "tuple": {"builtins.tuple", "collections.abc.Sequence",
                        "collections.abc.Iterable"},
              "dict": {"builtins.dict", "collections.abc.Mapping",
                       "collections.abc.Iterable"},
              "set": {"builtins.set", "collections.abc.Iterable"},
              "defaultdict": {"builtins.dict", "collections.defaultdict",
                              "collections.abc.Mapping",
                              "collections.abc.Iterable"},
              "df": {"pandas.DataFrame"}, "series": {"pandas.Series"},
              "gen": {"numpy.random.Generator"}, "index": {"pandas.Index"},
              "rstate": {"numpy.random.RandomState"}}
KIND_TYPE = {"ndarray": "numpy.ndarray", "list": "builtins.list",
             "tuple": "builtins.tuple", "dict": "builtins.dict",
             "defaultdict": "collections.defaultdict", "set": "builtins.set",
             "df": "pandas.DataFrame", "series": "pandas.Series",
             "gen": "numpy.random.Generator", "index": "pandas.Index",
             "rstate": "numpy.random.RandomState"}


class Frame:
    __slots__ = ("func", "fid", "ret_state", "ret_val", "pc", "loops",
                 "module", "cls", "globals_", "nonlocals", "self_")

    def __init__(self, func, fid, module, cls):
        self.func, self.fid, self.module, self.cls = func, fid, module, cls
        self.ret_state = None
        self.ret_val = None
        self.pc = E
        self.loops = []
        self.globals_ = set()
        self.nonlocals = {}
        self.self_ = None


from .effext import ExtModels  # noqa: E402


class Eff(ExtModels):
    MAXROUNDS = 40

    def __init__(self, program=None):
        self.prog = program or Program()
        self.st = State()
        self.events = []
        self.event_keys = set()
        self.frames = []
        self.handlers = []
        self.ctx = 0
        self.ctx_ids = {}
        self.ctx_step = {}
        self.step = "init"
        self.step_no = 0
        self.pc_base = E
        self.mod_ns = {}
        self.mod_state = {}
        self.loop_depth = 0
        self.node = None
        self.calls = 0
        self.stack = []
        self.analysed = set()
        self.callsites = set()
        self.cutoffs = 0
        self.abort_fields = None
        self.abort_pending = {}
        self.reads = None
        self.ghost_loc = None       # object whose writes are tracked
        self.ghost_attrs = E        # attributes whose writes arm the ghost
        self.ghost_pre = E          # locations whose mutation arms it
        self.hooks = []
        self.locs = {}
        self.raw_hooks = []
        self.unknown_ext = set()
        self.node_ids = {}
        self.max_calls = 400000
        self._begin("init")
        for name in sorted(self.prog.modules):
            self.load_module(name)

    # ------------------------------------------------------------ steps
    def _begin(self, label):
        self.step_no += 1
        self.step = "%s" % label
        self.ctx = self.ctx_ids.setdefault((0, "step", self.step_no),
                                           len(self.ctx_ids) + 1)

    # ------------------------------------------------------------ events
    def where(self, node=None):
        node = node or self.node
        mod = None
        for fr in reversed(self.frames):
            mod = fr.module
            break
        rel = mod.rel if mod is not None else "?"
        return "%s:%s" % (rel, getattr(node, "lineno", 0))

    def func_name(self):
        return self.frames[-1].func.qual if self.frames and \
            self.frames[-1].func else "<module>"

    def emit(self, kind, **data):
        w = self.where()
        if self.raw_hooks and kind in ("mutate", "setattr"):
            for h in self.raw_hooks:
                h(kind, data, w)
        try:
            key = (kind, tuple(sorted(data.items(), key=lambda x: x[0])), w,
                   self.step_no, self.loop_depth > 0, len(self.stack))
            hash(key)
        except TypeError:
            key = None
        if key is not None:
            if key in self.event_keys:
                return
            self.event_keys.add(key)
        ev = Event(kind, data, w, self.step_no, self.func_name(),
                   self.loop_depth, tuple(f.func.qual for f in self.frames
                                          if f.func))
        self.events.append(ev)
        for h in self.hooks:
            h(ev)

    # ------------------------------------------------------------ pc labels
    @property
    def pc(self):
        p = self.pc_base
        for f in self.frames:
            if f.pc:
                p = p | f.pc
        return p

    # ------------------------------------------------------------ alloc
    def mkloc(self, key, age, step, desc):
        loc = self.locs.get((key, age))
        if loc is None:
            loc = Loc(1000000 + len(self.locs))
            loc.key, loc.age, loc.step, loc.desc = key, age, step, desc
            self.locs[(key, age)] = loc
        return loc

    def alloc(self, kind, tag="", node=None, **kw):
        node = node or self.node
        nid = self.node_ids.setdefault(id(node), (len(self.node_ids), node))[0]
        key = (nid, tag, self.ctx)
        loc = self.locs.get((key, "r"))
        if loc is None:
            loc = self.mkloc(key, "r", self.step, "%s:%s%s" % (
                kind, getattr(node, "lineno", "?"), tag and "." + tag))
        h = H(kind, **kw)
        pc = self.pc
        if pc:
            h = h.copy(lab=h.lab | pc)
        old = self.st.heap.get(loc)
        if old is not None:
            h = hjoin(old, h).copy(multi=True)
        self.st.heap[loc] = h
        return loc

    def new(self, kind, tag="", lab=E, **kw):
        return ref(self.alloc(kind, tag, **kw), lab)

    def fresh_array(self, lab=E, ndim=None, tag="", length=None):
        return ref(self.alloc("ndarray", tag,
                              elem=V(E, frozenset(["npfloat", "npint"]), None, E, lab),
                              ndim=ndim, length=length))

    def opaque(self, lab=E, tag="", ext=None):
        return ref(self.alloc("opaque", tag, elem=V(E, frozenset(["any"]),
                                                    None, E, lab), ext=ext))

    # ------------------------------------------------------------ reading
    def heap(self, loc):
        h = self.st.heap.get(loc)
        if h is None:
            h = H("any")
            self.st.heap[loc] = h
        return h

    def elem_of(self, loc, seen=None):
        """Joined element value of a container location (through bases)."""
        h = self.heap(loc)
        v = h.elem
        if h.items is not None:
            for x in h.items.values():
                v = vjoin(v, x)
        if h.base:
            seen = seen or set()
            for b in h.base:
                if b not in seen:
                    seen.add(b)
                    v = vjoin(v, self.elem_of(b, seen))
        return v if v is not None else BOT

    def deep_labels(self, v, seen=None):
        """All labels on a value and everything reachable from it."""
        seen = set() if seen is None else seen
        out = set(v.lab)
        work = [v]
        while work:
            x = work.pop()
            out |= x.lab
            for f in x.fns:
                if isinstance(f, (Bound,)):
                    pass
                elif isinstance(f, ExtM):
                    work.append(f.recv)
            for loc in x.refs:
                if loc in seen:
                    continue
                seen.add(loc)
                h = self.heap(loc)
                if h.kind in ("gen", "rstate", "inst"):
                    continue
                out |= h.lab
                if h.elem is not None:
                    work.append(h.elem)
                if h.items is not None:
                    work.extend(h.items.values())
                work.extend(h.fields.values())
                for b in h.base:
                    if b not in seen:
                        work.append(ref(b))
        return frozenset(out)

    def reach(self, v, stop_kinds=("gen", "rstate")):
        seen = set()
        work = [v]
        while work:
            x = work.pop()
            for f in x.fns:
                if isinstance(f, (Bound, Super)):
                    work.append(f.self_)
                elif isinstance(f, ExtM):
                    work.append(f.recv)
            for loc in x.refs:
                if loc in seen:
                    continue
                h = self.heap(loc)
                if h.kind in stop_kinds:
                    continue
                seen.add(loc)
                if h.elem is not None:
                    work.append(h.elem)
                if h.items is not None:
                    work.extend(h.items.values())
                work.extend(h.fields.values())
                for b in h.base:
                    work.append(ref(b))
        return seen

    def roots(self, loc):
        """The location and every base it is a view of."""
        seen, work = set(), [loc]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work.extend(self.heap(x).base)
        return seen

    # ------------------------------------------------------------ mutation
    def mutate(self, v, how, elem=None, sure=True, length=None,
               keep_len=False, resize=False):
        """In-place mutation of every container `v` may be."""
        sure = sure and not (v.sc)
        pc = self.pc
        for loc in v.refs:
            h0 = self.heap(loc)
            if h0.kind in ("gen", "rstate"):
                continue
            for r in self.roots(loc):
                h = self.heap(r)
                if self.ghost_loc is not None and r in self.ghost_pre:
                    g = self.heap(self.ghost_loc)
                    fl = dict(g.fields)
                    fl["$armed"] = TRUE
                    self.st.heap[self.ghost_loc] = g.copy(fields=fl)
                    self.flush_abort()
                    h = self.heap(r)
                self.emit("mutate", loc=r, how=how,
                          sure=sure and not h0.maybe)
                lab = pc | v.lab
                el = h.elem
                if elem is not None:
                    el = vjoin(el, elem.with_lab(lab))
                elif lab and el is not None:
                    el = el.with_lab(lab)
                items = h.items
                ln = h.length if keep_len else length
                if items is not None and h.kind not in ("dict", "defaultdict"):
                    for x in items.values():
                        el = vjoin(el, x)
                    items = None
                self.st.heap[r] = h.copy(elem=el, items=items, length=ln,
                                         lab=h.lab | lab)

    def set_attr(self, obj, name, val):
        pc = self.pc
        val = val.with_lab(pc)
        locs = list(obj.refs)
        for f in obj.fns:
            if isinstance(f, Cls):
                self.emit("classwrite", cls=f.name, name=name)
                f.ns[name] = vjoin(f.ns.get(name), val)
            elif isinstance(f, Ext):
                self.emit("extwrite", path=f.path + "." + name)
            elif isinstance(f, Mod):
                self.emit("globalwrite", path=f.name + "." + name)
                ns = self.mod_ns[f.name]
                ns[name] = vjoin(ns.get(name), val)
        for loc in locs:
            h = self.heap(loc)
            if h.kind == "inst":
                prop = self.class_attr(h.cls, name)
                done = False
                if prop is not None:
                    for f in prop.fns:
                        if isinstance(f, Func) and "property" in f.deco:
                            setter = self.class_attr(h.cls, name + ".setter")
                            if setter is not None:
                                for s in setter.fns:
                                    self.call_func(s, [ref(loc), val], {})
                                done = True
                if done:
                    continue
            old = h.fields.get(name)
            self.emit("setattr", loc=loc, name=name, val=val, old=old)
            fields = dict(h.fields)
            if len(locs) == 1 and loc.age == "r" and not h.multi:
                fields[name] = val
            else:
                fields[name] = vjoin(old, val)
            if loc == self.ghost_loc and name in self.ghost_attrs:
                fields["$armed"] = TRUE
                self.flush_abort()
            if h.kind == "ndarray" and name in ("shape", "T", "flat", "data"):
                self.mutate(ref(loc), "attribute " + name)
                h = self.heap(loc)
            self.st.heap[loc] = h.copy(fields=fields)

    # ------------------------------------------------------------ modules
    def load_module(self, name):
        if name in self.mod_ns:
            return self.mod_ns[name]
        m = self.prog.modules.get(name)
        if m is None:
            return None
        ns = self.mod_ns[name] = {}
        ns["__name__"] = const(name)
        fid = ("mod", name)
        self.st.envs[fid] = ns
        fr = Frame(None, fid, m, None)
        saved = (self.frames, self.ctx, self.node)
        self.frames = self.frames + [fr]
        try:
            for s in m.tree.body:
                try:
                    self.exec_stmt(s)
                except Dead:
                    break
        finally:
            self.frames, self.ctx, self.node = saved
        # module namespaces live outside the branching state
        self.st.envs.pop(fid, None)
        self.mod_ns[name] = ns
        return ns

    def module_attr(self, modname, attr):
        ns = self.load_module(modname)
        if ns is not None and attr in ns:
            return ns[attr]
        sub = modname + "." + attr
        if sub in self.prog.modules:
            self.load_module(sub)
            return fnv(Mod(sub))
        return None

    def find_class(self, name):
        """A public class exported by the package."""
        v = self.module_attr("pyrichlet", name)
        if v is None:
            for mod in ("pyrichlet.mixture_models",
                        "pyrichlet.weight_models"):
                v = self.module_attr(mod, name)
                if v is not None:
                    break
        if v is None:
            raise AnalysisBroken("public class %s is missing" % name)
        for f in v.fns:
            if isinstance(f, Cls):
                return f
        raise AnalysisBroken("public name %s is not a class" % name)

    def class_attr(self, cls, name):
        if cls is None:
            return None
        for c in cls.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    # ------------------------------------------------------------ frames
    def env(self):
        return self.st.envs.get(self.frames[-1].fid)

    def lookup(self, name):
        fr = self.frames[-1]
        if name in fr.globals_:
            v = self.mod_ns[fr.module.name].get(name)
            if v is not None:
                return v
        fid = fr.fid
        while fid is not None:
            if fid[0] == "mod":
                break
            env = self.st.envs.get(fid)
            if env is not None and name in env:
                return env[name]
            fid = fid[2]
        ns = self.mod_ns.get(fr.module.name, {})
        if name in ns:
            return ns[name]
        env = self.st.envs.get(("mod", fr.module.name))
        if env and name in env:
            return env[name]
        if hasattr(builtins, name) or name == "__file__":
            return fnv(Ext("builtins." + name))
        return None

    def assign_name(self, name, val):
        fr = self.frames[-1]
        val = val.with_lab(self.pc)
        if name in fr.globals_:
            self.emit("globalwrite", path=fr.module.name + "." + name)
            ns = self.mod_ns[fr.module.name]
            ns[name] = vjoin(ns.get(name), val)
            return
        if name in fr.nonlocals:
            fid = fr.fid[2]
            while fid is not None and fid[0] != "mod":
                env = self.st.envs.get(fid)
                if env is not None and name in env:
                    env[name] = val
                    return
                fid = fid[2]
        if fr.fid[0] == "mod":
            self.mod_ns[fr.module.name][name] = val
            return
        if fr.fid[0] == "class":
            self.st.envs[fr.fid][name] = val
            return
        self.st.envs[fr.fid][name] = val

    # ------------------------------------------------------------ calls
    def call_func(self, fn, args, kwargs, star=None, dstar=None):
        self.calls += 1
        if self.calls > self.max_calls:
            raise Budget("call budget exceeded")
        depth = sum(1 for f in self.frames if f.func is not None and
                    f.func.node is fn.node)
        if depth >= 3 or len(self.frames) > 60:
            self.cutoffs += 1
            raise Dead()
        self.analysed.add(fn.qual)
        node = self.node
        self.callsites.add((self.where(), fn.qual))
        key = (self.ctx, self.node_ids.setdefault(
            id(node), (len(self.node_ids), node))[0], id(fn.node))
        saved_ctx, saved_node = self.ctx, self.node
        self.ctx = self.ctx_ids.setdefault(key, len(self.ctx_ids) + 1)
        fid = ("fn", self.ctx, fn.fid)
        env = self.bind(fn, args, kwargs, star, dstar)
        fr = Frame(fn, fid, fn.module, fn.cls)
        if args:
            fr.self_ = args[0]
        old_env = self.st.envs.get(fid)
        self.st.envs[fid] = env
        before = set(self.st.heap)
        self.frames.append(fr)
        self.stack.append(fn.qual)
        saved_depth = self.loop_depth
        try:
            if isinstance(fn.node, ast.Lambda):
                try:
                    v = self.ev(fn.node.body)
                    fr.ret_val = v.with_lab(fr.pc)
                    fr.ret_state = self.st
                except Dead:
                    pass
            else:
                is_gen = self.is_generator(fn.node)
                self.exec_block(fn.node.body)
                if self.st is not None:
                    if is_gen:
                        self.do_return(self.gen_result(fr))
                    else:
                        self.do_return(NONE)
        finally:
            self.frames.pop()
            self.stack.pop()
            self.ctx, self.node = saved_ctx, saved_node
            self.loop_depth = saved_depth
        self.st = fr.ret_state
        if self.st is None:
            raise Dead()
        # free the environment unless a closure may still use it
        if old_env is not None:
            self.st.envs[fid] = old_env
        elif not self.has_closure(fn.node):
            self.st.envs.pop(fid, None)
        self.gc(before, fr.ret_val)
        return fr.ret_val.with_lab(E)

    CLOSURE = {}

    def has_closure(self, node):
        r = self.CLOSURE.get(id(node))
        if r is None:
            r = any(isinstance(n, (ast.FunctionDef, ast.Lambda,
                                   ast.GeneratorExp, ast.ClassDef))
                    for n in ast.walk(node) if n is not node)
            self.CLOSURE[id(node)] = r
        return r

    IS_GEN = {}

    def is_generator(self, node):
        r = self.IS_GEN.get(id(node))
        if r is None:
            r = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                    for n in walk_scope(node))
            self.IS_GEN[id(node)] = r
        return r

    def gc(self, before, ret):
        """Drop what the finished call allocated and nothing refers to."""
        heap = self.st.heap
        new = [l for l in heap if l not in before]
        if len(new) < 4:
            return
        newset = set(new)
        live = set()

        def add(rs):
            x = rs & newset
            if x:
                x = x - live
                if x:
                    live.update(x)
                    work.extend(x)
        work = []
        add(ret.allrefs())
        for env in self.st.envs.values():
            for v in env.values():
                if v.refs or v.fns:
                    add(v.allrefs())
        for l, h in heap.items():
            if l in before:
                add(h.refset())
        while work:
            h = heap.get(work.pop())
            if h is not None:
                add(h.refset())
        if len(live) < len(new):
            for l in new:
                if l not in live:
                    del heap[l]

    def gen_result(self, fr):
        v = self.st.envs[fr.fid].get("$yield", BOT)
        return self.new("iter", "yield", elem=v)

    def do_return(self, v):
        fr = self.frames[-1]
        v = v.with_lab(self.pc)
        fr.ret_val = v if fr.ret_val is None else vjoin(fr.ret_val, v)
        fr.ret_state = sjoin(fr.ret_state, self.st)
        self.st = None

    def bind(self, fn, args, kwargs, star=None, dstar=None):
        a = fn.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if a.vararg:
            el = None
            for x in extra:
                el = vjoin(el, x)
            if star is not None:
                el = vjoin(el, star)
            items = {i: x for i, x in enumerate(extra)} if star is None \
                else None
            env[a.vararg.arg] = self.new(
                "tuple", "varargs", elem=None if items is not None else el,
                items=items, length=len(extra) if star is None else None)
        elif extra:
            self.raise_("TypeError")
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in env and k in names[:len(args)]:
                    self.raise_("TypeError")
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            h = self.new("dict", "kwargs", items=dict(rest),
                         elem=dstar, length=len(rest))
            env[a.kwarg.arg] = h
        elif rest:
            self.emit("badkwarg", func=fn.qual, names=tuple(sorted(rest)))
            self.raise_("TypeError")
        nd = len(fn.defaults)
        for i, n in enumerate(names):
            if n not in env:
                k = i - (len(names) - nd)
                if k >= 0:
                    env[n] = fn.defaults[k]
                elif star is not None or dstar is not None:
                    env[n] = vjoin(star, dstar)
                else:
                    self.emit("missingarg", func=fn.qual, name=n)
                    self.raise_("TypeError")
            elif star is not None and i >= len(args):
                env[n] = vjoin(env[n], star)
        for n, d in zip(kwonly, fn.kwdefaults):
            if n not in env:
                if d is None:
                    self.emit("missingarg", func=fn.qual, name=n)
                    self.raise_("TypeError")
                env[n] = d
        return env

    def raise_(self, exc, val=None):
        """Abstractly raise exception class name `exc`."""
        self.emit("raise", exc=exc)
        if self.abort_fields is not None:
            self.note_abort()
        if self.handlers:
            self.handlers[-1].append((exc, self.st.copy(), self.where(),
                                      self.func_name()))
        raise Dead()

    def may_raise(self, exc="Exception"):
        if self.handlers and self.handlers[-1] is not None:
            hl = self.handlers[-1]
            if getattr(hl, "try_", False):
                hl.append((exc, self.st.copy(), self.where(),
                           self.func_name()))
        if self.abort_fields is not None:
            self.note_abort()

    def note_abort(self):
        if self.ghost_loc is not None:
            a = self.heap(self.ghost_loc).fields.get("$armed")
            if a is None or ("bool", True) not in (a.consts or ()):
                return
        for loc, h in self.st.heap.items():
            if h.kind != "inst":
                continue
            d = self.abort_pending.setdefault(loc, {})
            for k, v in h.fields.items():
                o = d.get(k)
                if o is not v:
                    d[k] = v if o is None else vjoin(o, v)

    def flush_abort(self):
        """A further write of tracked data: earlier abort points count."""
        if self.abort_fields is None or not self.abort_pending:
            return
        for loc, f in self.abort_pending.items():
            d = self.abort_fields.setdefault(loc, {})
            for k, v in f.items():
                d[k] = vjoin(d.get(k), v)
        self.abort_pending = {}

    def call(self, fv, args, kwargs, star=None, dstar=None):
        """Call every callable `fv` may be; join results."""
        fns = list(fv.fns)
        inst = []
        for loc in fv.refs:
            h = self.heap(loc)
            if h.kind == "inst":
                m = self.class_attr(h.cls, "__call__")
                if m is not None:
                    for f in m.fns:
                        inst.append(Bound(f, ref(loc)))
                    continue
            inst.append(ExtM("__call__", ref(loc)))
        fns += inst
        if not fns:
            if fv.sc and fv.sc <= {"none", "int", "float", "str", "bool"}:
                self.raise_("TypeError")
            labs = fv.lab
            for a in list(args) + list(kwargs.values()):
                labs |= self.deep_labels(a)
            self.may_raise()
            return V(E, frozenset(["any"]), None, E, labs)
        if len(fns) == 1:
            return self.call1(fns[0], args, kwargs, star, dstar).with_lab(
                fv.lab)
        st0 = self.st
        out_s = out_v = None
        for f in sorted(fns, key=repr):
            self.st = st0.copy()
            try:
                v = self.call1(f, args, kwargs, star, dstar)
            except Dead:
                continue
            out_v = v if out_v is None else vjoin(out_v, v)
            out_s = sjoin(out_s, self.st)
        if out_s is None:
            raise Dead()
        self.st = out_s
        return out_v.with_lab(fv.lab)

    def call1(self, f, args, kwargs, star=None, dstar=None):
        if isinstance(f, Func):
            if any(d in ("functools.lru_cache", "functools.cache",
                         "functools.cached_property") for d in f.deco):
                self.emit("memoised", func=f.qual)
            return self.call_func(f, args, kwargs, star, dstar)
        if isinstance(f, Bound):
            return self.call1(f.fn, [f.self_] + list(args), kwargs, star,
                              dstar)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, star, dstar)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + list(args), kw, star, dstar)
        if isinstance(f, Ext):
            return self.ext_call(f.path, args, kwargs, star, dstar)
        if isinstance(f, ExtM):
            return self.ext_method(f.name, f.recv, args, kwargs, star, dstar)
        return V(E, frozenset(["any"]), None, E)

    def exc_name(self, v):
        for f in v.fns:
            if isinstance(f, Cls):
                return f.name
            if isinstance(f, Ext):
                return f.path.split(".")[-1]
        for loc in v.refs:
            h = self.heap(loc)
            if h.cls is not None:
                return h.cls.name
            if h.ext:
                return h.ext.split(".")[-1]
        return "Exception"

    def exc_matches(self, name, handler):
        if handler in ("Exception", "BaseException"):
            return True
        seen = name
        while seen:
            if seen == handler:
                return True
            if seen in EXC_PARENT:
                seen = EXC_PARENT[seen]
                continue
            break
        for m in self.mod_ns.values():
            v = m.get(name)
            if v is not None:
                for f in v.fns:
                    if isinstance(f, Cls):
                        return any(c.name == handler for c in f.mro) or \
                            handler in f.extbases
        return False

    def instantiate(self, cls, args, kwargs, star=None, dstar=None):
        # abstract classes cannot be instantiated
        ab = self.abstract_methods(cls)
        if ab:
            self.emit("abstract", cls=cls.name, names=tuple(sorted(ab)))
            self.raise_("TypeError")
        if any(b.split(".")[-1] in ("Exception", "BaseException", "ValueError",
                                    "TypeError", "RuntimeError",
                                    "AttributeError")
               for c in cls.mro for b in c.extbases):
            return ref(self.alloc("opaque", "exc", cls=cls))
        loc = self.alloc("inst", cls.name, cls=cls)
        obj = ref(loc)
        init = self.class_attr(cls, "__init__")
        if init is not None:
            self.call(V(E, E, None, frozenset(
                Bound(f, obj) for f in init.fns)), args, kwargs, star, dstar)
        return obj

    def abstract_methods(self, cls):
        if not any("ABC" in b or "ABCMeta" in b for c in cls.mro
                   for b in c.extbases):
            return set()
        names = set()
        for c in cls.mro:
            for n, v in c.ns.items():
                for f in v.fns:
                    if isinstance(f, Func) and any(
                            "abstractmethod" in d for d in f.deco):
                        names.add(n)
        out = set()
        for n in names:
            v = self.class_attr(cls, n)
            for f in v.fns:
                if isinstance(f, Func) and any(
                        "abstractmethod" in d for d in f.deco):
                    out.add(n)
        return out

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            try:
                self.exec_stmt(s)
            except Dead:
                self.st = None
                return

    def exec_stmt(self, s):
        self.node = s
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken("unsupported statement %s at %s" % (
                type(s).__name__, self.where(s)))
        m(s)

    def x_Pass(self, s):
        pass

    def x_Expr(self, s):
        self.ev(s.value)

    def x_Import(self, s):
        for a in s.names:
            top = a.name.split(".")[0]
            if a.name in self.prog.modules or top == "pyrichlet":
                self.load_module(a.name)
                self.assign_name(a.asname or top,
                                 fnv(Mod(a.name if a.asname else top)))
            else:
                self.assign_name(a.asname or top,
                                 fnv(Ext(a.name if a.asname else top)))

    def x_ImportFrom(self, s):
        base = self.prog.rel_name(self.frames[-1].module, s.level, s.module)
        for a in s.names:
            if base in self.prog.modules or base.split(".")[0] == "pyrichlet":
                if a.name == "*":
                    ns = self.load_module(base) or {}
                    for k, v in list(ns.items()):
                        if not k.startswith("_"):
                            self.assign_name(k, v)
                    continue
                v = self.module_attr(base, a.name)
                if v is None:
                    v = fnv(Ext(base + "." + a.name))
                self.assign_name(a.asname or a.name, v)
            elif a.name != "*":
                self.assign_name(a.asname or a.name,
                                 fnv(Ext(base + "." + a.name)))

    def deco_names(self, s):
        out = []
        for d in s.decorator_list:
            if isinstance(d, ast.Call):
                d = d.func
            if isinstance(d, ast.Attribute) and d.attr in ("setter",
                                                           "deleter"):
                out.append("prop." + d.attr)
                continue
            try:
                v = self.ev(d)
            except Dead:
                continue
            for f in v.fns:
                if isinstance(f, Ext):
                    out.append(f.path.replace("builtins.", ""))
        return tuple(out)

    def mk_func(self, s, name):
        fr = self.frames[-1]
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = [None if d is None else self.ev(d) for d in a.kw_defaults]
        deco = self.deco_names(s) if isinstance(s, ast.FunctionDef) else ()
        fid = None
        cls = fr.cls
        if fr.fid[0] == "fn":
            fid = fr.fid
        elif fr.fid[0] == "class":
            fid = fr.fid[2]
        qual = name
        if fr.fid[0] == "class":
            qual = fr.fid[1] + "." + name
        elif fr.func is not None:
            qual = fr.func.qual + "." + name
        key = (id(s), fid, tuple(defaults), tuple(kwd))
        cache = self.__dict__.setdefault("_fcache", {})
        if key not in cache:
            cache[key] = Func(s, fr.module, cls if fr.fid[0] != "mod" else
                              None, fid, name, defaults, kwd, deco, qual)
        return cache[key]

    def x_FunctionDef(self, s):
        f = self.mk_func(s, s.name)
        if "prop.setter" in f.deco:
            self.assign_name(s.name + ".setter", fnv(f))
            return
        if "prop.deleter" in f.deco:
            return
        self.assign_name(s.name, fnv(f))

    def x_ClassDef(self, s):
        fr = self.frames[-1]
        c = Cls()
        c.name, c.module, c.node = s.name, fr.module, s
        c.bases, c.extbases = [], []
        for b in s.bases:
            v = self.ev(b)
            for f in v.fns:
                if isinstance(f, Cls):
                    c.bases.append(f)
                elif isinstance(f, Ext):
                    c.extbases.append(f.path.replace("builtins.", ""))
        for k in s.keywords:
            if k.arg == "metaclass":
                v = self.ev(k.value)
                for f in v.fns:
                    if isinstance(f, Ext):
                        c.extbases.append("metaclass:" + f.path)
        c.mro = c3(c, [b.mro for b in c.bases], c.bases)
        fid = ("class", s.name, fr.fid if fr.fid[0] == "fn" else None)
        self.st.envs[fid] = {}
        cf = Frame(None, fid, fr.module, c)
        self.frames.append(cf)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        c.ns = dict(self.st.envs.pop(fid))
        self.assign_name(s.name, fnv(c))

    def x_Return(self, s):
        v = NONE if s.value is None else self.ev(s.value)
        self.do_return(v)

    def x_Raise(self, s):
        name = "Exception"
        if s.exc is not None:
            v = self.ev(s.exc)
            name = self.exc_name(v)
        self.node = s
        self.raise_(name)

    def x_Assert(self, s):
        t, lab = self.test(s.test)
        if t is False:
            self.raise_("AssertionError")
        if t is None:
            st = self.st.copy()
            self.refine(s.test, False)
            try:
                self.raise_("AssertionError")
            except Dead:
                pass
            self.st = st
            self.refine(s.test, True)

    def x_Global(self, s):
        self.frames[-1].globals_.update(s.names)

    def x_Nonlocal(self, s):
        for n in s.names:
            self.frames[-1].nonlocals[n] = True

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                self.ev(t.slice)
                self.node = s
                self.mutate(b, "del item")
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                for loc in b.refs:
                    h = self.heap(loc)
                    self.emit("setattr", loc=loc, name=t.attr, val=BOT,
                              old=h.fields.get(t.attr))
                    f = dict(h.fields)
                    f.pop(t.attr, None)
                    self.st.heap[loc] = h.copy(fields=f)
            elif isinstance(t, ast.Name):
                e = self.st.envs.get(self.frames[-1].fid)
                if e is not None:
                    e.pop(t.id, None)

    def x_Assign(self, s):
        v = self.ev(s.value)
        self.node = s
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            v = self.ev(s.value)
            self.node = s
            self.assign(s.target, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value)
            self.set_attr(obj, t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value)
            idx = self.ev_index(t.slice)
            self.node = t
            self.store_item(obj, idx, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(v, t.elts)
            for e, p in zip(t.elts, parts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, p)
                else:
                    self.assign(e, p)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise AnalysisBroken("assignment target %s" % type(t).__name__)

    def unpack(self, v, elts):
        n = len(elts)
        out = [None] * n
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        for loc in v.refs:
            h = self.heap(loc)
            if h.items is not None and h.kind in ("tuple", "list") and \
                    not star and len(h.items) == n:
                for i in range(n):
                    out[i] = vjoin(out[i], h.items[i].with_lab(h.lab | v.lab))
            else:
                el = self.iter_elem(ref(loc, v.lab))
                for i in range(n):
                    if star and i == star[0]:
                        out[i] = vjoin(out[i], self.new(
                            "list", "star%d" % i, elem=el))
                    else:
                        out[i] = vjoin(out[i], el)
        if v.sc and not v.refs:
            el = V(E, frozenset(["any"]), None, E, v.lab)
            out = [vjoin(o, el) for o in out]
        return [BOT if o is None else o for o in out]

    def store_item(self, obj, idx, v, node):
        v = v.with_lab(self.pc)
        lab = obj.lab | idx.lab
        for loc in obj.refs:
            h = self.heap(loc)
            if h.kind == "inst":
                m = self.class_attr(h.cls, "__setitem__")
                if m is not None:
                    self.call(V(E, E, None, frozenset(
                        Bound(f, ref(loc)) for f in m.fns)), [idx, v], {})
                continue
            if h.kind in ("dict", "defaultdict"):
                self.emit("mutate", loc=loc, how="item store", sure=True)
                try:
                    k = idx.const()
                except KeyError:
                    k = None
                    known = False
                else:
                    known = not isinstance(k, (list, dict))
                items = dict(h.items) if h.items is not None else {}
                el = h.elem
                if known and len(obj.refs) == 1 and loc.age == "r" and \
                        not h.multi:
                    items[k] = v.with_lab(lab)
                else:
                    if known and k in items:
                        items[k] = vjoin(items[k], v.with_lab(lab))
                    else:
                        el = vjoin(el, v.with_lab(lab))
                self.st.heap[loc] = h.copy(
                    items=items, elem=el, length=None,
                    fields=dict(h.fields, **{"$keys": vjoin(
                        h.fields.get("$keys"), idx)}))
            else:
                elem = v
                if h.kind == "ndarray":
                    elem = V(E, frozenset(["npfloat", "npint"]), None, E,
                             self.deep_labels(v) | lab)
                self.mutate(V(frozenset([loc]), obj.sc, None, E, lab),
                            "item store", elem, keep_len=True)

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t))
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value)
            self.node = s
            cur = self.get_attr(obj, t.attr)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value)
            idx = self.ev_index(t.slice)
            self.node = s
            cur = self.get_item(obj, idx, t, aug=True)
        else:
            raise AnalysisBroken("augmented target")
        val = self.ev(s.value)
        self.node = s
        new = self.aug(cur, val, s.op)
        if isinstance(t, ast.Name):
            self.assign_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            self.set_attr(obj, t.attr, new)
        else:
            self.store_item(obj, idx, new, t)

    def aug(self, cur, val, op):
        mut = frozenset(l for l in cur.refs if self.heap(l).kind in
                        ("ndarray", "list", "set", "df", "series", "dict"))
        res = None
        if mut:
            kinds = {self.heap(l).kind for l in mut}
            el = None
            if kinds & {"list", "set"}:
                el = self.iter_elem(val) if val.refs else val
            else:
                el = V(E, frozenset(["npfloat", "npint"]), None, E,
                       self.deep_labels(val))
            m = V(mut, cur.sc, cur.consts, E, cur.lab)
            self.mutate(m, "augmented assignment", el,
                        keep_len=not (kinds & {"list", "set"}))
            res = V(mut, E, None, E, cur.lab)
        rest = V(cur.refs - mut, cur.sc, cur.consts, cur.fns, cur.lab)
        if not rest.bottom():
            r = self.binop(rest, val, op)
            res = r if res is None else vjoin(res, r)
        return res if res is not None else BOT

    def test(self, e):
        v = self.ev(e)
        return self.truth(v), v.lab | self.cond_labels(v)

    def cond_labels(self, v):
        out = set(v.lab)
        for loc in v.refs:
            h = self.heap(loc)
            if h.kind not in ("inst", "gen", "rstate"):
                out |= h.lab
                if h.kind == "ndarray" and h.elem is not None:
                    out |= self.elem_of(loc).lab
        return frozenset(out)

    def x_If(self, s):
        t, lab = self.test(s.test)
        if t is True:
            self.refine(s.test, True)
            return self.exec_block(s.body)
        if t is False:
            self.refine(s.test, False)
            return self.exec_block(s.orelse)
        fr = self.frames[-1]
        saved = fr.pc
        st0 = self.st.copy()
        fr.pc = saved | lab
        res_pc = saved
        self.refine(s.test, True)
        self.exec_block(s.body)
        a = self.st
        pa = fr.pc
        fr.pc = saved | lab
        self.st = st0
        self.refine(s.test, False)
        self.exec_block(s.orelse)
        b = self.st
        pb = fr.pc
        if (a is None) != (b is None):
            res_pc = saved | lab
            res_pc |= (pa if a is not None else pb)
        fr.pc = res_pc
        self.st = sjoin(a, b)

    # ---- loops
    def age_loop(self, st, before):
        """Rename the locations allocated since `before` to their older twin."""
        m = {}
        for loc in st.heap:
            if loc.age == "r" and loc not in before:
                m[loc] = self.mkloc(loc.key, "o", loc.step, loc.desc)
        if not m:
            return st
        heap = {}
        mk = frozenset(m)
        for loc, h in st.heap.items():
            h2 = h if h.refset().isdisjoint(mk) else ren_h(h, m)
            tgt = m.get(loc, loc)
            if tgt in heap:
                heap[tgt] = hjoin(heap[tgt], h2)
            else:
                heap[tgt] = h2
        envs = {}
        for f, e in st.envs.items():
            envs[f] = {k: v if v.allrefs().isdisjoint(mk) else ren_v(v, m)
                       for k, v in e.items()}
        return State(heap, envs)

    def loop(self, s, head, is_for, iterv=None, must=False):
        """Fixpoint for a loop; `head()` runs the test/target binding."""
        fr = self.frames[-1]
        saved_pc = fr.pc
        before = frozenset(self.st.heap)
        entry = self.st
        cur = entry.copy()
        exit_st = None
        brk_st = None
        self.loop_depth += 1
        rounds = 0
        while True:
            rounds += 1
            if rounds > self.MAXROUNDS:
                raise Budget("loop at %s did not stabilise" % self.where(s))
            self.st = cur.copy()
            self.node = s
            rec = {"brk": None, "cont": None}
            fr.loops.append(rec)
            ex = head()
            # `ex` is the state in which the loop is left at its head
            if self.st is not None:
                self.exec_block(s.body)
            fr.loops.pop()
            back = sjoin(self.st, rec["cont"])
            if rec["brk"] is not None:
                brk_st = sjoin(brk_st, rec["brk"])
            exit_st = ex
            if back is None:
                break
            back = self.age_loop(back, before)
            nxt = sjoin(cur, back)
            if nxt == cur:
                break
            cur = nxt
        self.loop_depth -= 1
        if must:
            # executes at least once: leaving needs one pass through the body
            if rounds > 0 and back is not None:
                self.st = back
                fr.loops.append({"brk": None, "cont": None})
                fr.loops.pop()
                exit_st = back
            else:
                exit_st = None
        return exit_st, brk_st

    def x_While(self, s):
        fr = self.frames[-1]
        saved = fr.pc

        def head():
            t, lab = self.test(s.test)
            fr.pc = fr.pc | lab
            if t is False:
                ex = self.st
                self.st = None
                return ex
            if t is True:
                self.refine(s.test, True)
                return None
            ex = self.st.copy()
            keep = self.st
            self.st = ex
            try:
                self.refine(s.test, False)
                ex = self.st
            except Dead:
                ex = None
            self.st = keep
            self.refine(s.test, True)
            return ex
        ex, brk = self.loop(s, head, False)
        fr.pc = saved
        self.st = ex
        if ex is not None and s.orelse:
            self.exec_block(s.orelse)
        self.st = sjoin(self.st, brk)

    def x_For(self, s):
        fr = self.frames[-1]
        saved = fr.pc
        itv = self.ev(s.iter)
        self.node = s
        n = self.known_len(itv)
        el = self.iter_elem(itv)
        if n == 0 or (el.bottom() and itv.refs and n is None and all(
                self.heap(l).kind in ("list", "tuple", "dict", "set")
                and self.heap(l).elem is None and not self.heap(l).items
                for l in itv.refs)):
            if s.orelse:
                self.exec_block(s.orelse)
            return
        lab = self.struct_labels(itv)
        items = self.exact_items(itv)
        if items is not None and len(items) <= 4:
            # unroll exactly known short sequences (may leave early)
            brk = None
            for it in items:
                if self.st is None:
                    break
                rec = {"brk": None, "cont": None}
                fr.loops.append(rec)
                self.loop_depth += 1
                self.assign(s.target, it)
                self.exec_block(s.body)
                self.loop_depth -= 1
                fr.loops.pop()
                self.st = sjoin(self.st, rec["cont"])
                brk = sjoin(brk, rec["brk"])
            if self.st is not None and s.orelse:
                self.exec_block(s.orelse)
            self.st = sjoin(self.st, brk)
            return

        def head():
            ex = self.st.copy()
            fr.pc = fr.pc | lab
            self.node = s
            cur = self.iter_elem(itv)
            self.assign(s.target, cur if not cur.bottom() else el)
            return ex
        must = n is not None and n > 0
        ex, brk = self.loop(s, head, True, must=must)
        fr.pc = saved
        self.st = ex
        if ex is not None and s.orelse:
            self.exec_block(s.orelse)
        self.st = sjoin(self.st, brk)

    def x_Break(self, s):
        fr = self.frames[-1]
        rec = fr.loops[-1]
        rec["brk"] = sjoin(rec["brk"], self.st)
        self.st = None

    def x_Continue(self, s):
        fr = self.frames[-1]
        rec = fr.loops[-1]
        rec["cont"] = sjoin(rec["cont"], self.st)
        self.st = None

    def x_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.exec_block(s.body)

    def x_Try(self, s):
        coll = TryList()
        self.handlers.append(coll)
        self.may_raise_enabled = True
        self.exec_block(s.body)
        if self.st is not None and s.orelse:
            self.handlers.pop()
            self.exec_block(s.orelse)
        else:
            self.handlers.pop()
        out = self.st
        pend = []
        for exc, st, w, fn in coll:
            handled = False
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = ["BaseException"]
                else:
                    self.st = st.copy()
                    tv = self.ev(h.type)
                    for f in tv.fns:
                        names.append(self.exc_name(fnv(f)))
                    for l in tv.refs:
                        e = self.elem_of(l)
                        for f in e.fns:
                            names.append(self.exc_name(fnv(f)))
                if exc == "Exception" or any(self.exc_matches(exc, n)
                                             for n in names):
                    pend.append((h, st))
                    if exc != "Exception" or names == ["BaseException"] or \
                            "Exception" in names:
                        handled = True
                        break
            if not handled and self.handlers:
                self.handlers[-1].append((exc, st, w, fn))
        groups = {}
        for h, st in pend:
            groups[id(h)] = (h, sjoin(groups[id(h)][1] if id(h) in groups
                                      else None, st))
        for h, st in groups.values():
            self.st = st.copy()
            if h.name:
                self.assign_name(h.name, V(E, frozenset(["any"]), None))
            self.exec_block(h.body)
            out = sjoin(out, self.st)
        self.st = out
        if s.finalbody:
            if self.st is None and coll:
                # run it for the exceptional paths as well
                keep = None
                for exc, st, w, fn in coll:
                    keep = sjoin(keep, st)
                self.st = keep.copy()
                self.exec_block(s.finalbody)
                self.st = None
            else:
                self.exec_block(s.finalbody)

    x_TryStar = x_Try

    def x_Match(self, s):
        v = self.ev(s.subject)
        st0 = self.st
        out = None
        fr = self.frames[-1]
        saved = fr.pc
        fr.pc = fr.pc | v.lab
        done = False
        for c in s.cases:
            if done:
                break
            t = None
            if isinstance(c.pattern, ast.MatchValue):
                pv = self.ev(c.pattern.value)
                t = self.truth(self.compare(v, pv, ast.Eq()))
            elif isinstance(c.pattern, ast.MatchAs) and \
                    c.pattern.pattern is None and c.guard is None:
                t = True
            if t is False:
                continue
            self.st = st0.copy()
            if isinstance(c.pattern, ast.MatchAs) and c.pattern.name:
                self.assign_name(c.pattern.name, v)
            self.exec_block(c.body)
            out = sjoin(out, self.st)
            if t is True and c.guard is None:
                done = True
        fr.pc = saved
        self.st = out if done else sjoin(out, st0)

    # ------------------------------------------------------------ refinement
    def refine(self, e, val):
        """Narrow the state knowing that test `e` evaluated to `val`."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, not val)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) == val:
                for x in e.values:
                    self.refine(x, val)
            return
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            l, r = e.left, e.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and \
                    isinstance(r, ast.Constant):
                want = val == isinstance(op, (ast.Is, ast.Eq))
                self.refine_const(l, r.value, want)
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == "isinstance" and len(e.args) == 2:
            cur = self.peek(e.args[0])
            if cur is None:
                return
            try:
                ty = self.ev(e.args[1])
            except Dead:
                return
            parts = []
            for loc in cur.refs:
                t = self.isinstance_(ref(loc), ty)
                if t is None or t == val:
                    parts.append(ref(loc, cur.lab))
            for k in cur.sc:
                x = V(E, frozenset([k]), None if cur.consts is None else
                      frozenset(c for c in cur.consts
                                if kind_of_const(c[1]) == k), E, cur.lab)
                t = self.isinstance_(x, ty)
                if t is None or t == val:
                    parts.append(x)
            for f in cur.fns:
                parts.append(fnv(f, cur.lab))
            out = None
            for p in parts:
                out = vjoin(out, p)
            if out is not None:
                self.poke(e.args[0], out)
            return
        if isinstance(e, (ast.Name, ast.Attribute)):
            cur = self.peek(e)
            if cur is None:
                return
            if val and "none" in cur.sc and len(cur.sc) + len(cur.refs) + \
                    len(cur.fns) > 1:
                self.poke(e, self.minus_none(cur))
            if cur.is_const():
                keep = frozenset(c for c in cur.consts if bool(c[1]) == val)
                if keep and keep != cur.consts:
                    self.poke(e, V(E, frozenset(kind_of_const(c[1])
                                                for c in keep), keep, E,
                                   cur.lab))
            elif cur.sc == frozenset(["bool"]) and not cur.refs:
                self.poke(e, const(val, cur.lab))

    def minus_none(self, v):
        sc = v.sc - {"none"}
        consts = v.consts
        if consts is not None:
            consts = frozenset(c for c in consts if c[1] is not None)
        return V(v.refs, sc, consts, v.fns, v.lab)

    def refine_const(self, e, c, want):
        cur = self.peek(e)
        if cur is None:
            return
        if want:
            k = kind_of_const(c)
            if c is None:
                if "none" in cur.sc or "any" in cur.sc:
                    self.poke(e, const(None, cur.lab))
            elif cur.is_const():
                keep = frozenset(x for x in cur.consts if x[1] == c)
                if keep:
                    self.poke(e, V(E, frozenset([kind_of_const(x[1])
                                                 for x in keep]), keep, E,
                                   cur.lab))
            elif cur.sc and k in cur.sc and not cur.refs and k == "str":
                self.poke(e, const(c, cur.lab))
        else:
            if c is None and "none" in cur.sc:
                n = self.minus_none(cur)
                if not n.bottom():
                    self.poke(e, n)
            elif cur.is_const() and c is not None:
                keep = frozenset(x for x in cur.consts if x[1] != c)
                if keep:
                    self.poke(e, V(E, frozenset(kind_of_const(x[1])
                                                for x in keep), keep, E,
                                   cur.lab))

    def peek(self, e):
        if isinstance(e, ast.Name):
            env = self.st.envs.get(self.frames[-1].fid)
            return env.get(e.id) if env else None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            b = self.peek(e.value)
            if b is not None and len(b.refs) == 1 and not b.sc and not b.fns:
                loc = next(iter(b.refs))
                h = self.heap(loc)
                if h.kind == "inst" and loc.age == "r" and not h.multi:
                    return h.fields.get(e.attr)
        return None

    def poke(self, e, v):
        if v.bottom():
            return
        if isinstance(e, ast.Name):
            self.st.envs[self.frames[-1].fid][e.id] = v
        elif isinstance(e, ast.Attribute):
            b = self.peek(e.value)
            loc = next(iter(b.refs))
            h = self.heap(loc)
            self.st.heap[loc] = h.copy(fields=dict(h.fields, **{e.attr: v}))

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        saved = self.node
        self.node = e
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken("unsupported expression %s at %s" % (
                type(e).__name__, self.where(e)))
        try:
            return m(e)
        finally:
            self.node = saved

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        v = self.lookup(e.id)
        if v is None:
            self.emit("unbound", name=e.id)
            self.raise_("NameError")
        return v

    def e_JoinedStr(self, e):
        lab = E
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                lab = lab | self.ev(x.value).lab
        return scalar("str", lab=lab)

    def e_Lambda(self, e):
        return fnv(self.mk_func(e, "<lambda>"))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign_name(e.target.id, v)
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        v = NONE if e.value is None else self.ev(e.value)
        env = self.st.envs[self.frames[-1].fid]
        env["$yield"] = vjoin(env.get("$yield"), v)
        return scalar("any")

    def e_YieldFrom(self, e):
        v = self.iter_elem(self.ev(e.value))
        env = self.st.envs[self.frames[-1].fid]
        env["$yield"] = vjoin(env.get("$yield"), v)
        return scalar("any")

    def seq(self, e, kind):
        items, n, el = {}, 0, None
        exact = True
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                xi = self.exact_items(v)
                if xi is not None:
                    for y in xi:
                        items[n] = y
                        n += 1
                else:
                    exact = False
                    el = vjoin(el, self.iter_elem(v))
            else:
                items[n] = self.ev(x)
                n += 1
        self.node = e
        if exact:
            return self.new(kind, items=items, length=n)
        for v in items.values():
            el = vjoin(el, v)
        return self.new(kind, elem=el)

    def e_Tuple(self, e):
        return self.seq(e, "tuple")

    def e_List(self, e):
        return self.seq(e, "list")

    def e_Set(self, e):
        el = None
        for x in e.elts:
            el = vjoin(el, self.ev(x))
        return self.new("set", elem=el)

    def e_Dict(self, e):
        items, el = {}, None
        keys = None
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v)
            if k is None:
                for loc in vv.refs:
                    h = self.heap(loc)
                    if h.items is not None:
                        items.update(h.items)
                    el = vjoin(el, h.elem)
                continue
            kv = self.ev(k)
            keys = vjoin(keys, kv)
            try:
                items[kv.const()] = vv
            except (KeyError, TypeError):
                el = vjoin(el, vv.with_lab(kv.lab))
        self.node = e
        f = {} if keys is None else {"$keys": keys}
        return self.new("dict", items=items, elem=el, fields=f,
                        length=len(items) if el is None else None)

    def comp(self, e, gens, leaf):
        """Run comprehension generators to a (weak) fixpoint."""
        fr = self.frames[-1]
        saved_pc = fr.pc
        out = []

        def run(i):
            if i == len(gens):
                out.append(leaf())
                return
            g = gens[i]
            itv = self.ev(g.iter)
            self.node = e
            if self.known_len(itv) == 0:
                return
            el = self.iter_elem(itv)
            if el.bottom():
                return
            fr.pc = fr.pc | self.struct_labels(itv)
            before = frozenset(self.st.heap)
            cur = self.st
            for _ in range(6):
                st1 = cur.copy()
                self.st = st1
                self.assign(g.target, self.iter_elem(itv))
                dead = False
                for c in g.ifs:
                    t, lab = self.test(c)
                    fr.pc = fr.pc | lab
                    if t is False:
                        dead = True
                        break
                    self.refine(c, True)
                if not dead:
                    try:
                        run(i + 1)
                    except Dead:
                        self.st = None
                if self.st is None:
                    nxt = cur
                else:
                    for loc, h in list(self.st.heap.items()):
                        if loc not in before and not h.multi:
                            self.st.heap[loc] = h.copy(multi=True)
                    nxt = sjoin(cur, self.st)
                if nxt == cur:
                    break
                cur = nxt
            self.st = cur

        # comprehension variables live in their own scope
        env = self.st.envs.get(fr.fid)
        names = [n.id for g in gens for n in ast.walk(g.target)
                 if isinstance(n, ast.Name)]
        if fr.fid[0] == "mod":
            env = self.mod_ns[fr.module.name]
        saved = {n: env[n] for n in names if env and n in env}
        run(0)
        env = self.st.envs.get(fr.fid) if fr.fid[0] != "mod" else \
            self.mod_ns[fr.module.name]
        for n in names:
            env.pop(n, None)
        env.update(saved)
        plab = fr.pc
        fr.pc = saved_pc
        self.node = e
        return out, plab

    def e_ListComp(self, e):
        out, lab = self.comp(e, e.generators, lambda: self.ev(e.elt))
        el = None
        for v in out:
            el = vjoin(el, v)
        if el is not None:
            el = el.with_lab(lab)
        return self.new("list", elem=el, length=0 if el is None else None)

    def e_GeneratorExp(self, e):
        v = self.e_ListComp(e)
        return v

    def e_SetComp(self, e):
        out, lab = self.comp(e, e.generators, lambda: self.ev(e.elt))
        el = None
        for v in out:
            el = vjoin(el, v)
        return self.new("set", elem=el)

    def e_DictComp(self, e):
        out, lab = self.comp(e, e.generators, lambda: (self.ev(e.key),
                                                       self.ev(e.value)))
        el = keys = None
        for k, v in out:
            keys = vjoin(keys, k)
            el = vjoin(el, v.with_lab(k.lab))
        return self.new("dict", items={}, elem=el,
                        fields={} if keys is None else {"$keys": keys})

    def e_IfExp(self, e):
        t, lab = self.test(e.test)
        if t is not None:
            self.refine(e.test, t)
            return self.ev(e.body if t else e.orelse)
        st0 = self.st.copy()
        fr = self.frames[-1]
        saved = fr.pc
        fr.pc = saved | lab
        res = None
        out = None
        self.refine(e.test, True)
        try:
            res = self.ev(e.body)
            out = self.st
        except Dead:
            pass
        self.st = st0
        self.refine(e.test, False)
        try:
            b = self.ev(e.orelse)
            res = vjoin(res, b)
            out = sjoin(out, self.st)
        except Dead:
            pass
        fr.pc = saved
        if out is None:
            raise Dead()
        self.st = out
        return res.with_lab(lab)

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        res = None
        lab = E
        fr = self.frames[-1]
        saved = fr.pc
        pend = None
        for i, x in enumerate(e.values):
            v = self.ev(x)
            t = self.truth(v)
            last = i == len(e.values) - 1
            if last:
                res = vjoin(res, v)
                break
            if t is None:
                res = vjoin(res, v)
                lab = lab | self.cond_labels(v)
                fr.pc = fr.pc | lab
                pend = sjoin(pend, self.st.copy())
                self.refine(x, is_and)
            elif t == is_and:
                self.refine(x, is_and)
                continue
            else:
                res = vjoin(res, v)
                break
        fr.pc = saved
        self.st = sjoin(self.st, pend)
        return res.with_lab(lab)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            lab = self.cond_labels(v)
            if t is None:
                return scalar("bool", lab=lab)
            return const(not t, lab)
        if v.is_const():
            try:
                out = set()
                for _, c in v.consts:
                    r = -c if isinstance(e.op, ast.USub) else (
                        +c if isinstance(e.op, ast.UAdd) else ~c)
                    out.add((type(r).__name__, r))
                return V(E, frozenset(kind_of_const(c[1]) for c in out),
                         frozenset(out), E, v.lab)
            except TypeError:
                self.raise_("TypeError")
        return self.arith([v], ast.Sub())

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.node = e
        return self.binop(a, b, e.op)

    PY = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b,
          ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b,
          ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
          ast.Pow: lambda a, b: a ** b,
          ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b,
          ast.BitXor: lambda a, b: a ^ b}

    def binop(self, a, b, op):
        f = self.PY.get(type(op))
        if f is not None and a.is_const() and b.is_const() and \
                len(a.consts) * len(b.consts) <= LIMIT:
            out = set()
            ok = True
            for _, x in a.consts:
                for _, y in b.consts:
                    if isinstance(x, str) and isinstance(y, int) or (
                            isinstance(op, ast.Pow) and
                            isinstance(y, int) and abs(y) > 64):
                        ok = False
                        break
                    try:
                        r = f(x, y)
                        out.add((type(r).__name__, r))
                    except ZeroDivisionError:
                        pass
                    except Exception:
                        ok = False
                        break
            if ok and out:
                return V(E, frozenset(kind_of_const(c[1]) for c in out),
                         frozenset(out), E, a.lab | b.lab)
        ka = {self.heap(l).kind for l in a.refs}
        kb = {self.heap(l).kind for l in b.refs}
        if ka and ka <= {"list", "tuple"} and (
                kb <= {"list", "tuple"} and kb or isinstance(op, ast.Mult)):
            el = self.iter_elem(a)
            if kb:
                el = vjoin(el, self.iter_elem(b))
            ia, ib = self.exact_items(a), self.exact_items(b) if kb else None
            kind = next(iter(ka))
            if ia is not None and ib is not None and len(ia) + len(ib) < 12:
                its = ia + ib
                return self.new(kind, items=dict(enumerate(its)),
                                length=len(its), lab=a.lab | b.lab)
            return self.new(kind, elem=el, lab=a.lab | b.lab)
        if "str" in a.sc and isinstance(op, (ast.Mod, ast.Add)) and \
                not a.refs:
            return scalar("str", lab=a.lab | b.lab)
        if "none" in a.sc and len(a.sc) == 1 and not a.refs and not a.fns:
            self.raise_("TypeError")
        return self.arith([a, b], op)

    def arith(self, vs, op=None):
        """Result of an arithmetic/ufunc-like operation on `vs`."""
        lab = E
        arr = []
        others = E
        for v in vs:
            lab = lab | self.num_labels(v)
            for loc in v.refs:
                h = self.heap(loc)
                if h.kind in ("ndarray", "list", "tuple", "df", "series",
                              "opaque", "any", "index", "iter", "range"):
                    arr.append((loc, h))
        # user-defined operator on instances: not modelled
        if any("any" in v.sc for v in vs) and not arr:
            return V(E, frozenset(["any"]), None, E, lab)
        only_arr = any(v.refs and not v.sc for v in vs)
        out = None
        if arr:
            nd = 0
            for v in vs:
                for loc in v.refs:
                    h = self.heap(loc)
                    k = h.ndim if h.kind == "ndarray" else None
                    nd = None if (k is None or nd is None) else max(nd, k)
            out = self.fresh_array(lab, nd)
        if not only_arr:
            sc = E
            for v in vs:
                sc = sc | v.sc
            k = "npfloat"
            if isinstance(op, ast.Div):
                intish = ()
            elif isinstance(op, ast.Pow):
                intish = ("int", "float")
            elif op is not None:
                intish = ("int",)
            else:
                intish = ("int", "float")
            if sc and sc <= {"int", "bool"} and intish:
                s = scalar(*intish, lab=lab)
            elif sc and sc <= {"int", "bool", "npint"} and intish and \
                    op is not None:
                s = scalar("npint", lab=lab)
            elif sc and sc <= {"int", "float", "bool"}:
                s = scalar("float", lab=lab)
            else:
                s = scalar(*k, lab=lab)
            out = s if out is None else vjoin(out, s)
        return out

    def num_labels(self, v):
        """Labels of a numeric value including array contents."""
        out = set(v.lab)
        for loc in v.refs:
            h = self.heap(loc)
            if h.kind in ("gen", "rstate", "inst"):
                continue
            out |= h.lab
            out |= self.deep_labels(ref(loc))
        return frozenset(out)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            self.node = e
            c = self.compare(left, right, op)
            if res is None:
                res = c
            else:
                t1, t2 = self.truth(res), self.truth(c)
                if t1 is False or t2 is False:
                    res = const(False, res.lab | c.lab)
                elif t1 and t2:
                    res = const(True, res.lab | c.lab)
                else:
                    res = scalar("bool", lab=res.lab | c.lab)
            left = right
        return res

    def compare(self, a, b, op):
        lab = a.lab | b.lab
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.same(a, b)
            if r is None:
                return scalar("bool", lab=lab)
            return const(r == isinstance(op, ast.Is), lab)
        if isinstance(op, (ast.In, ast.NotIn)):
            lab = lab | self.deep_labels(b)
            items = self.exact_items(b)
            keys = None
            if len(b.refs) == 1:
                h = self.heap(next(iter(b.refs)))
                if h.kind == "dict" and h.elem is None and \
                        h.items is not None and not h.multi:
                    items = [const(k) for k in h.items]
            if items is not None and not b.sc:
                rs = [self.same(a, x, eq=True) for x in items]
                if any(r is True for r in rs):
                    return const(isinstance(op, ast.In), lab)
                if all(r is False for r in rs):
                    return const(isinstance(op, ast.NotIn), lab)
            return scalar("bool", lab=lab)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            arr = any(self.heap(l).kind in ("ndarray", "df", "series")
                      for v in (a, b) for l in v.refs)
            if not arr:
                r = self.same(a, b, eq=True)
                if r is not None:
                    return const(r == isinstance(op, ast.Eq), lab)
        ops = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
               ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}
        f = ops.get(type(op))
        if f is not None and a.is_const() and b.is_const():
            rs = set()
            for _, x in a.consts:
                for _, y in b.consts:
                    try:
                        rs.add(bool(f(x, y)))
                    except TypeError:
                        self.raise_("TypeError")
            if len(rs) == 1:
                return const(rs.pop(), lab)
            return scalar("bool", lab=lab)
        self.emit("compare", op=type(op).__name__, left=a, right=b)
        arrs = any(self.heap(l).kind in ("ndarray", "df", "series", "opaque",
                                         "any")
                   for v in (a, b) for l in v.refs)
        if arrs:
            return self.arith([a, b])
        lab = self.num_labels(a) | self.num_labels(b)
        return scalar("bool", lab=lab)

    def same(self, a, b, eq=False):
        """Definite identity/equality of two values: True/False/None."""
        if a.is_const() and b.is_const():
            if len(a.consts) == 1 and len(b.consts) == 1:
                x, y = next(iter(a.consts)), next(iter(b.consts))
                if x == y or (eq and x[1] == y[1]):
                    return True
                return False
            if not any(p == q or (eq and p[1] == q[1]) for p in a.consts
                       for q in b.consts):
                return False
            return None
        if "any" in a.sc or "any" in b.sc:
            return None

        def parts(v):
            return (set(v.sc), v.refs, v.fns)
        sa, ra, fa = parts(a)
        sb, rb, fb = parts(b)
        if fa and fb and not (sa or sb or ra or rb):
            if len(fa) == 1 and len(fb) == 1:
                return fa == fb
            if not fa & fb:
                return False
            return None
        none_a = a.sc == frozenset(["none"]) and not ra and not fa
        none_b = b.sc == frozenset(["none"]) and not rb and not fb
        if none_b:
            if none_a:
                return True
            if "none" not in sa:
                return False
            return None
        if none_a:
            if "none" not in sb:
                return False
            return None
        if a.is_const() and not b.is_const() or b.is_const() and \
                not a.is_const():
            c, o = (a, b) if a.is_const() else (b, a)
            kc = {kind_of_const(x[1]) for x in c.consts}
            if not o.sc and kc <= {"str", "int", "float", "bool"}:
                if any(self.heap(l).kind in ("ndarray", "opaque", "any",
                                             "series", "df")
                       for l in o.refs):
                    return None
                return False
            if kc == {"str"} and "str" not in o.sc and not o.refs:
                return False
        if ra and rb and not (sa or sb or fa or fb) and not eq:
            if not (ra & rb):
                return False
        return None

    def truth(self, v):
        res = set()
        if v.consts is not None and v.sc:
            for _, c in v.consts:
                res.add(bool(c))
        elif v.sc:
            for k in v.sc:
                if k == "none":
                    res.add(False)
                else:
                    return None
        for f in v.fns:
            res.add(True)
        for loc in v.refs:
            h = self.heap(loc)
            if h.kind in ("inst", "gen", "rstate", "opaque"):
                if h.kind == "inst" and (self.class_attr(h.cls, "__len__") or
                                         self.class_attr(h.cls, "__bool__")):
                    return None
                if h.kind == "opaque":
                    return None
                res.add(True)
            elif h.kind in ("list", "tuple", "dict", "set") and \
                    h.length is not None and not h.multi:
                res.add(h.length > 0)
            else:
                return None
        if len(res) == 1:
            return res.pop()
        return None

    def e_Attribute(self, e):
        b = self.ev(e.value)
        self.node = e
        return self.get_attr(b, e.attr)

    def get_attr(self, b, name):
        res = None
        st_needed = []
        for f in b.fns:
            v = self.attr_of_fn(f, name)
            if v is not None:
                res = vjoin(res, v)
        for loc in b.refs:
            v = self.attr_of_loc(loc, name)
            if v is not None:
                res = vjoin(res, v)
        if b.sc:
            if b.sc == frozenset(["none"]) and not b.refs and not b.fns:
                self.emit("noneattr", name=name)
                self.raise_("AttributeError")
            sc = b.sc - {"none"}
            if sc:
                sv = V(E, sc, None if b.consts is None else b.consts, E,
                       b.lab)
                if name in ("T", "real"):
                    res = vjoin(res, sv)
                elif name in ("shape",):
                    res = vjoin(res, self.new("tuple", "shape", items={},
                                              length=0))
                elif name in ("ndim", "size"):
                    res = vjoin(res, scalar("int", lab=b.lab))
                else:
                    res = vjoin(res, fnv(ExtM(name, sv)))
        if res is None:
            self.emit("noattr", name=name, obj=b)
            self.raise_("AttributeError")
        return res.with_lab(b.lab)

    def attr_of_fn(self, f, name):
        if isinstance(f, Mod):
            v = self.module_attr(f.name, name)
            if v is None and name not in ("__name__", "__doc__", "__version__",
                                          "__file__"):
                return fnv(Ext(f.name + "." + name))
            return v if v is not None else scalar("str")
        if isinstance(f, Ext):
            return self.ext_attr(f.path, name)
        if isinstance(f, Cls):
            if name in ("__name__", "__qualname__", "__module__", "__doc__"):
                return scalar("str")
            if name == "__dict__":
                return self.opaque(tag="clsdict")
            v = self.class_attr(f, name)
            if v is None:
                return None
            out = None
            for g in v.fns:
                if isinstance(g, Func) and "classmethod" in g.deco:
                    out = vjoin(out, fnv(Bound(g, fnv(f))))
                else:
                    out = vjoin(out, fnv(g))
            rest = V(v.refs, v.sc, v.consts, E, v.lab)
            if not rest.bottom():
                out = vjoin(out, rest)
            return out
        if isinstance(f, Super):
            for loc in f.self_.refs:
                h = self.heap(loc)
                mro = h.cls.mro if h.cls else f.cls.mro
                k = mro.index(f.cls) if f.cls in mro else -1
                for c in mro[k + 1:]:
                    if name in c.ns:
                        v = c.ns[name]
                        return V(E, E, None, frozenset(
                            Bound(g, f.self_) if isinstance(g, Func) and
                            "staticmethod" not in g.deco else g
                            for g in v.fns), v.lab)
                return fnv(Ext("builtins.object." + name))
            return None
        if isinstance(f, Func):
            if name in ("__name__", "__doc__", "__qualname__"):
                return scalar("str")
            return fnv(Ext("function." + name))
        if isinstance(f, Bound):
            if name == "__self__":
                return f.self_
            if name == "__func__":
                return fnv(f.fn)
            return scalar("any")
        if isinstance(f, ExtM):
            return fnv(Ext("method." + f.name + "." + name))
        return None

    def attr_of_loc(self, loc, name):
        h = self.heap(loc)
        if h.kind == "inst":
            if name in h.fields:
                v = h.fields[name]
                self.emit_read(loc, name)
                return v
            v = self.class_attr(h.cls, name)
            if v is not None:
                out = None
                for f in v.fns:
                    if isinstance(f, Func):
                        if "property" in f.deco or \
                                "functools.cached_property" in f.deco:
                            out = vjoin(out, self.call_func(f, [ref(loc)],
                                                            {}))
                        elif "staticmethod" in f.deco:
                            out = vjoin(out, fnv(f))
                        elif "classmethod" in f.deco:
                            out = vjoin(out, fnv(Bound(f, fnv(h.cls))))
                        else:
                            out = vjoin(out, fnv(Bound(f, ref(loc))))
                    else:
                        out = vjoin(out, fnv(f))
                rest = V(v.refs, v.sc, v.consts, E, v.lab)
                if not rest.bottom():
                    out = vjoin(out, rest)
                return out
            if name == "__class__":
                return fnv(h.cls)
            if name == "__dict__":
                el = None
                for x in h.fields.values():
                    el = vjoin(el, x)
                return self.new("dict", "vars", items=dict(h.fields))
            g = self.class_attr(h.cls, "__getattr__")
            if g is not None:
                return self.call(V(E, E, None, frozenset(
                    Bound(f, ref(loc)) for f in g.fns)), [const(name)], {})
            return None
        return self.ext_obj_attr(loc, h, name)

    def emit_read(self, loc, name):
        if self.reads is not None:
            self.reads.add((loc, name))

    # ---- subscripts
    def ev_index(self, s):
        v = self.ev(s)
        return v

    def e_Slice(self, e):
        lab = E
        cs = []
        for x in (e.lower, e.upper, e.step):
            if x is None:
                cs.append(NONE)
            else:
                v = self.ev(x)
                cs.append(v)
                lab = lab | v.lab
        self.node = e
        try:
            c = tuple(x.const() for x in cs)
            consts = frozenset([("slice", ("slice",) + c)])
        except KeyError:
            consts = None
        return V(E, frozenset(["slice"]), consts, E, lab)

    def e_Subscript(self, e):
        b = self.ev(e.value)
        i = self.ev_index(e.slice)
        self.node = e
        return self.get_item(b, i, e)

    def get_item(self, b, idx, node, aug=False):
        res = None
        lab = b.lab | idx.lab
        if b.sc == frozenset(["none"]) and not b.refs and not b.fns:
            self.emit("nonesub")
            self.raise_("TypeError")
        for loc in sorted(b.refs, key=repr):
            h = self.heap(loc)
            if h.kind == "inst":
                m = self.class_attr(h.cls, "__getitem__")
                if m is not None:
                    v = self.call(V(E, E, None, frozenset(
                        Bound(f, ref(loc)) for f in m.fns)), [idx], {})
                    res = vjoin(res, v)
                continue
            if h.kind in ("dict", "defaultdict"):
                res = vjoin(res, self.dict_get(loc, h, idx))
            elif h.kind in ("list", "tuple", "range", "iter"):
                res = vjoin(res, self.list_get(loc, h, idx))
            elif h.kind == "ndarray":
                res = vjoin(res, self.array_get(loc, h, idx))
            else:
                res = vjoin(res, self.ext_get_item(loc, h, idx))
        if b.sc - {"none"} or (b.fns and res is None):
            k = "str" if b.sc == frozenset(["str"]) else "any"
            res = vjoin(res, V(E, frozenset([k]), None, E, lab))
        if res is None:
            self.raise_("LookupError")
        self.may_raise("LookupError")
        if not b.sc and not b.fns and b.refs and idx.is_const() and all(
                self.heap(l).kind in ("ndarray", "list", "tuple") and
                self.slice_len(self.heap(l), [idx]) == 0 for l in b.refs):
            lab = idx.lab       # empty, whichever object it is taken from
        return res.with_lab(lab)

    def dict_get(self, loc, h, idx):
        res = None
        try:
            k = idx.const()
            if isinstance(k, (list, dict)):
                raise KeyError
            known = True
        except KeyError:
            known, k = False, None
        items = h.items or {}
        if known and k in items and h.elem is None:
            return items[k].with_lab(h.lab)
        if known and k in items:
            res = vjoin(items[k], h.elem)
            return res.with_lab(h.lab)
        res = h.elem
        if not known:
            for v in items.values():
                res = vjoin(res, v)
        if h.kind == "defaultdict":
            fac = h.fields.get("$factory")
            if fac is not None and not fac.bottom() and "none" not in fac.sc:
                self.emit("mutate", loc=loc, how="defaultdict insert on read",
                          sure=True)
                v = self.call(fac, [], {}).with_lab(self.pc | idx.lab)
                h = self.heap(loc)
                self.st.heap[loc] = h.copy(elem=vjoin(h.elem, v), length=None)
                res = vjoin(res, v)
        if res is None:
            self.emit("keymiss", loc=loc, key=repr(k))
            if h.elem is None and known and not h.multi:
                self.raise_("KeyError")
            return None
        return res.with_lab(h.lab)

    def list_get(self, loc, h, idx):
        el = self.elem_of(loc)
        out = None
        if "slice" in idx.sc:
            its = self.exact_items(ref(loc))
            done = False
            if its is not None and idx.consts is not None and \
                    len(idx.consts) == 1:
                c = next(iter(idx.consts))[1]
                if isinstance(c, tuple) and c[0] == "slice":
                    sub = its[slice(*c[1:])]
                    out = self.new(h.kind if h.kind in ("list", "tuple")
                                   else "list", "sl",
                                   items=dict(enumerate(sub)),
                                   length=len(sub), lab=h.lab)
                    done = True
            if not done:
                out = vjoin(out, self.new(
                    h.kind if h.kind in ("list", "tuple") else "list", "sl",
                    elem=el if not el.bottom() else None, lab=h.lab))
            if idx.sc == frozenset(["slice"]):
                return out
        if h.items is not None and idx.is_const():
            try:
                k = idx.const()
                n = len(h.items)
                if isinstance(k, int) and -n <= k < n:
                    return vjoin(out, h.items[k % n].with_lab(h.lab))
                if isinstance(k, int) and h.length == n and \
                        h.kind == "tuple" and h.elem is None:
                    return out           # IndexError
            except KeyError:
                pass
        if el.bottom():
            return out
        return vjoin(out, el.with_lab(h.lab))

    def view(self, loc, ndim=None, maybe=False, tag="view", length=None):
        h = self.heap(loc)
        if h.kind not in ("ndarray",):
            return ref(loc)
        return ref(self.alloc("ndarray", tag, base=frozenset([loc]),
                              elem=None, ndim=ndim, length=length,
                              maybe=maybe or h.maybe, lab=h.lab))

    def array_get(self, loc, h, idx):
        el = self.elem_of(loc)
        lab = el.lab | h.lab | self.num_labels(idx)
        sc = V(E, frozenset(["npfloat", "npint"]), None, E, lab)
        parts = self.exact_items(idx) if idx.refs else None
        kinds = []
        if parts is not None and all(self.heap(l).kind == "tuple"
                                     for l in idx.refs) and not idx.sc:
            ps = parts
        else:
            ps = [idx]
        nints = nslice = nnew = nfancy = 0
        for p in ps:
            if p.refs:
                nfancy += 1
            elif p.sc == frozenset(["slice"]):
                nslice += 1
            elif p.sc == frozenset(["none"]):
                nnew += 1
            elif p.sc == frozenset(["ellipsis"]):
                nslice += 1
            elif p.sc <= {"int", "npint", "npfloat", "bool", "float"} and \
                    p.sc:
                nints += 1
            else:
                nfancy += 1
                kinds.append("?")
        if nfancy:
            nd = None
            if h.ndim is not None and len(ps) == 1:
                nd = h.ndim
            return self.fresh_array(lab, nd, "fancy") if not (
                "?" in kinds) else vjoin(
                self.fresh_array(lab, None, "fancy"), sc)
        if nslice and not nints and not nnew and \
                self.slice_len(h, ps) == 0:
            # nothing of the array survives in an empty slice
            return ref(self.alloc("ndarray", "empty", ndim=h.ndim, length=0,
                                  elem=V(E, frozenset(["npfloat", "npint"]))))
        if h.ndim is not None:
            nd = h.ndim - nints + nnew
            if nd <= 0:
                return sc
            return self.view(loc, nd, length=self.slice_len(h, ps))
        if nints and not nslice and not nnew:
            # rank unknown: an element or a view of a row
            return vjoin(sc, self.view(loc, None, maybe=True))
        return self.view(loc, None, maybe=bool(nints),
                         length=self.slice_len(h, ps))

    def slice_len(self, h, ps):
        if len(ps) == 1 and ps[0].consts is not None and \
                len(ps[0].consts) == 1:
            c = next(iter(ps[0].consts))[1]
            if isinstance(c, tuple) and c[0] == "slice":
                if c[2] == 0 and c[3] is None:
                    return 0
                if h.length is not None:
                    return len(range(h.length)[slice(*c[1:])])
        return None

    # ---- iteration helpers
    def known_len(self, v):
        if v.sc or v.fns or not v.refs:
            return None
        out = set()
        for loc in v.refs:
            h = self.heap(loc)
            if h.multi and h.kind not in ("ndarray",):
                return None
            if h.length is None:
                return None
            out.add(h.length)
        return out.pop() if len(out) == 1 else None

    def exact_items(self, v):
        if v.sc or v.fns or len(v.refs) != 1:
            return None
        h = self.heap(next(iter(v.refs)))
        if h.kind in ("tuple", "list", "iter") and h.items is not None and \
                h.elem is None:
            return [h.items[i].with_lab(h.lab | v.lab)
                    for i in sorted(h.items)]
        return None

    def struct_labels(self, v):
        out = set(v.lab)
        for loc in v.refs:
            for r in self.roots(loc):
                h = self.heap(r)
                out |= h.lab
                f = h.fields.get("$src")
                if f is not None:
                    out |= self.struct_labels(f)
        return frozenset(out)

    def iter_elem(self, v):
        res = None
        for loc in sorted(v.refs, key=repr):
            h = self.heap(loc)
            if h.kind in ("list", "tuple", "set", "iter", "range"):
                x = self.elem_of(loc)
                res = vjoin(res, x.with_lab(h.lab))
            elif h.kind in ("dict", "defaultdict"):
                k = h.fields.get("$keys")
                if h.items:
                    for c in h.items:
                        k = vjoin(k, const(c))
                if k is None:
                    k = V(E, frozenset(["any"]), None, E)
                res = vjoin(res, k.with_lab(h.lab))
            elif h.kind == "ndarray":
                el = self.elem_of(loc)
                lab = el.lab | h.lab
                sc = V(E, frozenset(["npfloat", "npint"]), None, E, lab)
                if h.ndim == 1:
                    res = vjoin(res, sc)
                elif h.ndim is not None:
                    res = vjoin(res, self.view(loc, h.ndim - 1, tag="row"))
                else:
                    res = vjoin(res, vjoin(sc, self.view(
                        loc, None, maybe=True, tag="row")))
            elif h.kind == "inst":
                m = self.class_attr(h.cls, "__iter__")
                if m is not None:
                    it = self.call(V(E, E, None, frozenset(
                        Bound(f, ref(loc)) for f in m.fns)), [], {})
                    res = vjoin(res, self.iter_elem(it))
            else:
                el = h.elem if h.elem is not None else scalar("any")
                res = vjoin(res, el.with_lab(h.lab))
        if v.sc and not v.refs:
            res = vjoin(res, V(E, frozenset(["any"]), None, E, v.lab))
        return (res if res is not None else BOT).with_lab(v.lab)

    # ---- call expressions
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and \
                self.lookup("super") == fnv(Ext("builtins.super")):
            fr = self.frames[-1]
            if e.args:
                c = self.ev(e.args[0])
                s = self.ev(e.args[1]) if len(e.args) > 1 else fr.self_
                for f in c.fns:
                    if isinstance(f, Cls):
                        return fnv(Super(f, s))
            k = len(self.frames) - 1
            while k >= 0 and (self.frames[k].cls is None or
                              self.frames[k].self_ is None):
                k -= 1
            if k < 0:
                raise AnalysisBroken("super() outside a method")
            return fnv(Super(self.frames[k].cls, self.frames[k].self_))
        f = self.ev(e.func)
        args, kwargs = [], {}
        star = dstar = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                its = self.exact_items(v)
                if its is not None and star is None:
                    args.extend(its)
                else:
                    star = vjoin(star, self.iter_elem(v))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                for loc in v.refs:
                    h = self.heap(loc)
                    if h.items is not None:
                        for n, x in h.items.items():
                            if isinstance(n, str):
                                kwargs[n] = x
                    if h.elem is not None:
                        dstar = vjoin(dstar, h.elem)
            else:
                kwargs[k.arg] = v
        self.node = e
        return self.call(f, args, kwargs, star, dstar)

    # ------------------------------------------------------------ isinstance
    def type_names(self, ty):
        out = set()
        for f in ty.fns:
            if isinstance(f, Ext):
                out.add(f.path)
            elif isinstance(f, Cls):
                out.add(f)
        for loc in ty.refs:
            h = self.heap(loc)
            el = self.elem_of(loc)
            out |= self.type_names(el)
        return out

    def isinstance_(self, v, ty):
        names = self.type_names(ty)
        res = set()
        for k in v.sc:
            if k == "any":
                return None
            b = SC_BASES.get(k, set())
            res.add(bool(b & {n for n in names if isinstance(n, str)}))
        for loc in v.refs:
            h = self.heap(loc)
            if h.kind == "inst":
                res.add(any(c in names for c in h.cls.mro))
            elif h.kind in KIND_BASES:
                res.add(bool(KIND_BASES[h.kind] &
                             {n for n in names if isinstance(n, str)}))
            elif h.kind == "foreign":
                res.add(False)
            else:
                return None
        for f in v.fns:
            res.add(False if "builtins.type" not in names and
                    "collections.abc.Callable" not in names else True)
        if len(res) == 1:
            return res.pop()
        return None

    # ------------------------------------------------------------ harness API
    def do(self, label, thunk):
        """Run one abstract client step; returns (value or None, exits)."""
        self._begin(label)
        outer = []
        self.handlers.append(outer)
        st_before = self.st
        hfr = Frame(HARNESS, ("fn", self.ctx, None), HARNESS.module, None)
        self.st.envs[hfr.fid] = {}
        self.frames.append(hfr)
        n = self.node
        self.node = ast.Pass(lineno=0, col_offset=0)
        self.keep = getattr(self, "keep", [])
        self.keep.append(self.node)
        try:
            v = thunk()
        except Dead:
            v = None
            self.st = None
        finally:
            self.frames.pop()
            self.handlers.pop()
            self.node = n
        if self.st is not None:
            self.st.envs.pop(hfr.fid, None)
        return v, outer

    def method(self, obj, name, *args, **kwargs):
        def thunk():
            m = self.get_attr(obj, name)
            return self.call(m, list(args), kwargs)
        return self.do(name, thunk)

    def construct(self, cls, **kwargs):
        return self.do("construct", lambda: self.call(
            fnv(cls), [], kwargs))

    def ext_value(self, kind, name, lab=E, ndim=None, **kw):
        """A caller-owned object."""
        node = ast.Pass(lineno=0, col_offset=0)
        self.keep = getattr(self, "keep", [])
        self.keep.append(node)
        nid = self.node_ids.setdefault(id(node), (len(self.node_ids), node))[0]
        loc = self.mkloc((nid, name, 0), "r", "caller",
                         "%s<%s>" % (kind, name))
        el = V(E, frozenset(["npfloat", "npint"]), None, E, lab)
        self.st.heap[loc] = H(kind, elem=el, ndim=ndim, **kw)
        return ref(loc, E)


class TryList(list):
    try_ = True


class _HM:
    rel = "<client>"
    name = "<client>"


class _HF:
    qual = "<client>"
    module = _HM
    node = None


HARNESS = _HF


def ren_h(h, m):
    ch = {}
    if h.elem is not None:
        x = ren_v(h.elem, m)
        if x is not h.elem:
            ch["elem"] = x
    if h.items:
        it = {k: ren_v(v, m) for k, v in h.items.items()}
        if any(it[k] is not h.items[k] for k in it):
            ch["items"] = it
    if h.fields:
        f = {k: ren_v(v, m) for k, v in h.fields.items()}
        if any(f[k] is not h.fields[k] for k in f):
            ch["fields"] = f
    if h.base and any(b in m for b in h.base):
        ch["base"] = frozenset(m.get(b, b) for b in h.base)
    return h.copy(**ch) if ch else h


def walk_scope(node):
    work = list(ast.iter_child_nodes(node))
    while work:
        n = work.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        work.extend(ast.iter_child_nodes(n))
