"""Value numbering of the package's functions into index-notation terms.

An abstract evaluator over the syntax tree: numeric values are terms
(term.py), arrays are index functions, objects live in a heap, loops over a
symbolic range are summarised by solving their recurrences (sums, products,
maxima, element-wise stores, appends, last values); what has no closed form is
replaced by an unknown.  Branches that the known facts do not decide are
followed both ways, each under its own condition.
"""
import ast
from fractions import Fraction
from . import term as T
from .term import (P, Poly, Cond, Atom, ZERO, ONE, TRUE, FALSE, INF, Give,
                   fresh_index, fresh_id, gt, ge, lt, le, eq, no, both,
                   either, ite, ind, fn, power, total, subst_many)
from .front import Program, AnalysisBroken, c3


class Stop(Exception):
    """A construct the evaluator has no rule for: undecided."""


class PyRaise(Exception):
    def __init__(self, name, where, msg=""):
        self.name, self.where, self.msg = name, where, msg
        Exception.__init__(self, name)


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ---------------------------------------------------------------- values
class Val:
    pass


class Num(Val):
    def __init__(self, p, kind="f"):
        self.p, self.kind = P(p), kind

    def __repr__(self):
        return "Num(%r)" % self.p


class Bool(Val):
    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "Bool(%r)" % self.c


class Const(Val):
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Const(%r)" % (self.v,)


NONE = Const(None)


class Tup(Val):
    def __init__(self, items):
        self.items = list(items)


class Ref(Val):
    """A heap reference: kind in arr, list, dict, obj, rng."""

    def __init__(self, kind, i):
        self.kind, self.i = kind, i

    def __repr__(self):
        return "%s#%s" % (self.kind, self.i)


class Func(Val):
    def __init__(self, node, module, env=None, cls=None):
        self.node, self.module, self.env, self.cls = node, module, env, cls
        self.name = getattr(node, "name", "<lambda>")


class Bound(Val):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Cls(Val):
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases, self.mro, self.members = [], [self], {}

    def find(self, name):
        for c in self.mro:
            if isinstance(c, Cls) and name in c.members:
                return c.members[name], c
        return None, None


class Super(Val):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Mod(Val):
    def __init__(self, name):
        self.name = name


class Ext(Val):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class Meth(Val):
    """Method of a built-in value."""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Range(Val):
    def __init__(self, lo, hi, step=None):
        self.lo, self.hi, self.step = lo, hi, step


class SliceV(Val):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Lazy(Val):
    """zip/enumerate/map/generator: length, guard and element functions."""

    def __init__(self, n, guard, elem):
        self.n, self.guard, self.elem = n, guard, elem


class Unk(Val):
    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "Unk(%s)" % self.why


# heap contents (immutable)
FV = Poly.atom(Atom("iv", ("f", 0)))


class Axis:
    __slots__ = ("n", "filt")

    def __init__(self, n, filt=None):
        self.n, self.filt = P(n), filt

    def same(self, o):
        return self.n == o.n and self.filt == o.filt

    def guard(self, v):
        if self.filt is None:
            return TRUE
        return T.subst_cond(self.filt, {FV: v})

    def length(self):
        if self.filt is None:
            return self.n
        v = fresh_index()
        return total(v, self.n, ind(self.guard(v)))

    def is_one(self):
        return self.filt is None and self.n == ONE

    def map(self, f):
        return Axis(f(self.n), None if self.filt is None else
                    T.map_cond(self.filt, f))

    def __repr__(self):
        return "%r%s" % (self.n, "" if self.filt is None else "|")


class Arr:
    def __init__(self, shape, vars_, body, dt="f"):
        self.shape, self.vars, self.body, self.dt = (
            tuple(shape), tuple(vars_), P(body), dt)

    def at(self, *idx):
        return subst_many(self.body, dict(zip(self.vars, idx)))

    def cond(self, *idx):
        """Condition of a boolean array at idx."""
        return to_cond(self.at(*idx))

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return "Arr(%s: %r)" % (list(self.shape), self.body)


def to_cond(p):
    """Condition p != 0 for an indicator formula."""
    v = p.value()
    if v is not None:
        return TRUE if v else FALSE
    a = p.one_atom()
    if a is not None and a.op == "ind":
        return a.args[0]
    q = ONE - p
    a = q.one_atom()
    if a is not None and a.op == "ind":
        return no(a.args[0])
    s = p.single()
    if s and s[0] == 1 and all(a.op == "ind" for a, e in s[1]):
        return both(*[a.args[0] for a, e in s[1]])
    return no(eq(p, 0))


class Many:
    """n values tmpl(var), for var < n with guard(var)."""

    def __init__(self, var, n, tmpl, guard=TRUE):
        self.var, self.n, self.tmpl, self.guard = var, n, tmpl, guard


class Rest:
    """The contents a list or dict had before (placeholder)."""

    def __init__(self, i):
        self.i = i


class ListV:
    def __init__(self, items):
        self.items = tuple(items)


class Layer:
    """dict entries key(var) -> value(var) for var with cond; `key` is the
    variable itself."""

    def __init__(self, var, cond, tmpl):
        self.var, self.cond, self.tmpl = var, cond, tmpl


class DictV:
    def __init__(self, items=(), layers=(), factory=None, base=None):
        self.items = tuple(items)         # (const key, value), latest last
        self.layers = tuple(layers)       # latest last
        self.factory, self.base = factory, base


class ObjV:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Snap:
    __slots__ = ("heap", "env", "facts", "univ", "draws", "marks")

    def __init__(self, heap, env, facts, univ):
        self.heap, self.env, self.facts, self.univ = heap, env, facts, univ


class Draw:
    def __init__(self, **kw):
        self.__dict__.update(kw)


BUILTIN_EXC = {"ValueError", "TypeError", "AttributeError", "KeyError",
               "IndexError", "NotImplementedError", "AssertionError",
               "RuntimeError", "Exception", "ZeroDivisionError",
               "StopIteration", "ArithmeticError", "OverflowError"}
EXC_BASE = {"NotFittedError": ("ValueError", "AttributeError")}
MAX_PATHS = 300


class Frame:
    def __init__(self, func, module, env, cls=None):
        self.func, self.module, self.env, self.cls = func, module, env, cls


class Engine:
    def __init__(self, prog=None):
        from . import vglib
        self.lib = vglib
        self.prog = prog or Program()
        self.heap = {}
        self.nid = 0
        self.frames = []
        self.facts = []
        self.univ = []            # (v, n, cond): cond for every v < n
        self.decisions = []       # stack of [prefix, taken, conds]
        self.loopvars = []        # (index Poly, n Poly, guard Cond)
        self.draws = []
        self.marks = []           # other recorded events
        self.may_raise = []
        self.ns = {}
        self.classes = {}
        self.calls = 0
        self.analysed = set()
        self.hooks = {}           # qualified function name -> replacement
        self.guide = None         # picks the side of a branch
        self.fix = None           # picks the value of a discrete choice
        self.watch = {}           # qualified name -> callback(args, result)
        self.depth = 0
        self.budget = 400000
        self.line = 0
        self.stub = {}
        self.cut = 0              # longest formula kept without a name
        self.views = {}           # array made by slicing -> its base
        self.assumed = []         # lengths taken to agree
        self.unknown = set()      # library functions without a rule
        self.path_key = ()
        self.seq = 0
        self.draw_ids = {}

    # ------------------------------------------------------------ modules
    def namespace(self, mod):
        if mod in self.ns:
            return self.ns[mod]
        m = self.prog.modules.get(mod)
        if m is None:
            raise Stop("module %s" % mod)
        ns = self.ns[mod] = {"__name__": Const(mod)}
        self._scan(m, m.tree.body, ns)
        return ns

    def _scan(self, m, body, ns):
        for st in body:
            if isinstance(st, ast.ImportFrom):
                base = self.prog.rel_name(m, st.level, st.module)
                for a in st.names:
                    full = base + "." + a.name
                    if base == "__future__":
                        continue
                    if full in self.prog.modules:
                        ns[a.asname or a.name] = Mod(full)
                    elif base in self.prog.modules:
                        ns[a.asname or a.name] = ("lazy", base, a.name)
                    else:
                        ns[a.asname or a.name] = Ext(full)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        ns[a.asname] = Mod(a.name) if a.name in \
                            self.prog.modules else Ext(a.name)
                    else:
                        r = a.name.split(".")[0]
                        ns[r] = Mod(r) if r in self.prog.modules else Ext(r)
            elif isinstance(st, ast.FunctionDef):
                ns[st.name] = Func(st, m)
            elif isinstance(st, ast.ClassDef):
                ns[st.name] = ("class", st)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                tg = st.targets if isinstance(st, ast.Assign) else [
                    st.target]
                if st.value is not None:
                    for t in tg:
                        if isinstance(t, ast.Name):
                            ns[t.id] = ("expr", st.value)
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for k, q in enumerate(t.elts):
                                if isinstance(q, ast.Name):
                                    ns[q.id] = ("item", st.value, k)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._scan(m, h.body, ns)
                self._scan(m, st.body, ns)
            elif isinstance(st, ast.If):
                self._scan(m, st.orelse, ns)
                self._scan(m, st.body, ns)

    def global_(self, mod, name):
        ns = self.namespace(mod)
        if name not in ns:
            return None
        v = ns[name]
        if isinstance(v, tuple):
            if v[0] == "lazy":
                x = self.global_(v[1], v[2])
                if x is None:
                    raise Stop("import %s.%s" % v[1:])
                ns[name] = x
            elif v[0] == "class":
                ns[name] = self.make_class(v[1], self.prog.modules[mod])
            elif v[0] in ("expr", "item"):
                ns[name] = Unk("cycle")
                self.frames.append(Frame(None, self.prog.modules[mod], {}))
                try:
                    x = self.eval(v[1])
                    if v[0] == "item":
                        x = self.unpack(x, None)[v[2]]
                finally:
                    self.frames.pop()
                ns[name] = x
            v = ns[name]
        return v

    def make_class(self, node, m):
        key = (m.name, node.name)
        if key in self.classes:
            return self.classes[key]
        c = Cls(node.name, node, m)
        self.classes[key] = c
        bases = []
        for b in node.bases:
            self.frames.append(Frame(None, m, {}))
            try:
                x = self.eval(b)
            finally:
                self.frames.pop()
            bases.append(x)
        c.bases = bases
        known = [b for b in bases if isinstance(b, Cls)]
        c.mro = c3(c, [b.mro for b in known], known)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                c.members[st.name] = Func(st, m, cls=c)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.members[t.id] = ("expr", st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for k, q in enumerate(t.elts):
                            c.members[q.id] = ("item", st.value, k)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                c.members[st.target.id] = ("expr", st.value)
        return c

    def cls(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        c = self.global_(mod, name)
        if not isinstance(c, Cls):
            raise AnalysisBroken("no class %s" % dotted)
        return c

    # ------------------------------------------------------------ heap
    def new(self, kind, content):
        if kind == "arr":
            content = self.named(content)
        self.nid += 1
        self.heap[self.nid] = content
        return Ref(kind, self.nid)

    def named(self, a):
        """Arr whose entries have a name when their formula is long."""
        if not self.cut or a.dt == "b":
            return a
        b = T.cut(a.body, self.cut)
        return a if b is a.body else Arr(a.shape, a.vars, b, a.dt)

    def arr(self, shape, vars_, body, dt="f"):
        return self.new("arr", Arr(shape, vars_, body, dt))

    def list_(self, items):
        return self.new("list", ListV(items))

    def A(self, v):
        return self.heap[v.i]

    def is_arr(self, v):
        return isinstance(v, Ref) and v.kind == "arr"

    def obj_fields(self, v):
        return self.heap[v.i].fields

    def setfield(self, v, name, val):
        o = self.heap[v.i]
        f = dict(o.fields)
        f[name] = val
        self.heap[v.i] = ObjV(o.cls, f)

    def snapshot(self):
        return Snap(dict(self.heap), dict(self.frames[-1].env)
                    if self.frames else {}, list(self.facts),
                    list(self.univ))

    def restore(self, s):
        self.heap = dict(s.heap)
        if self.frames:
            self.frames[-1].env.clear()
            self.frames[-1].env.update(s.env)
        self.facts = list(s.facts)
        self.univ = list(s.univ)

    # ------------------------------------------------------------ facts
    def decide(self, c):
        """True, False or None."""
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        for f in reversed(self.facts):
            r = T.implies(f, c)
            if r is not None:
                return r
        if len(self.facts) > 1:
            r = T.implies(both(*self.facts), c)
            if r is not None:
                return r
            r = T.slack_decide(c, self.facts)
            if r is not None:
                return r
        for v, n, g in self.univ:
            r = self.instance(v, n, g, c)
            if r is not None:
                return r
        if c.op == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        if c.op == "and":
            rs = [self.decide(x) for x in c.args]
            if False in rs:
                return False
            if all(r is True for r in rs):
                return True
        return None

    def instance(self, v, n, g, c):
        for q in conds_polys(c):
            cand = [Poly.atom(a) for a in q.free() if a.op == "iv"]
            cand += T.index_candidates(q)
            for i in cand:
                gi = T.subst_cond(g, {v: i})
                r = T.implies(gi, c)
                if r is not None and self.quick(ge(i, 0)) and \
                        self.quick(lt(i, n)):
                    return r
        return None

    def quick(self, c):
        if c.op in ("true", "false"):
            return c.op == "true"
        for f in self.facts:
            if T.implies(f, c) is True:
                return True
        return T.implies(both(*self.facts), c) is True

    def choose(self, c):
        """Follow one side of an undecided branch (all sides in turn)."""
        r = self.decide(c)
        if r is not None:
            return r
        if not self.decisions:
            raise Stop("branch outside exploration")
        d = self.decisions[-1]
        k = len(d[1])
        t = d[0][k] if k < len(d[0]) else True
        if self.guide is not None and len(self.decisions) == 1:
            t = self.guide(c)
        d[1].append(t)
        x = c if t else no(c)
        d[2].append(x)
        if x not in self.facts:
            self.facts.append(x)
        return t

    def explore(self, fun, limit=MAX_PATHS):
        """[(conds, kind, value, snapshot)] over all branch decisions."""
        snap = self.snapshot()
        nf = len(self.facts)
        out, pending = [], [()]
        nfr = len(self.frames)
        pk0, seq0 = self.path_key, self.seq
        nlv = len(self.loopvars)
        here = pk0 + ((seq0, self.line),)
        while pending:
            if len(out) >= limit:
                raise Stop("too many paths")
            pre = pending.pop()
            self.restore(snap)
            self.path_key, self.seq = here, 0
            nd0, nm0 = len(self.draws), len(self.marks)
            self.decisions.append([pre, [], []])
            try:
                kind, val = "ok", fun()
            except PyRaise as ex:
                kind, val = "raise", ex
            except _Return as ex:
                kind, val = "return", ex.v
            except _Break:
                kind, val = "break", None
            except _Continue:
                kind, val = "ok", None
            finally:
                d = self.decisions.pop()
                del self.frames[nfr:], self.loopvars[nlv:]
            if self.guide is None or self.decisions:
                for i in range(len(pre), len(d[1])):
                    pending.append(tuple(d[1][:i]) + (not d[1][i],))
            sn = self.snapshot()
            sn.draws = self.draws[nd0:]
            sn.marks = self.marks[nm0:]
            out.append((d[2], kind, val, sn))
        self.path_key, self.seq = pk0, seq0 + 1
        self.restore(snap)
        assert len(self.facts) == nf
        return out

    # ------------------------------------------------------------ running
    def where(self):
        m = self.frames[-1].module if self.frames else None
        return "%s:%d" % (m.rel if m else "?", self.line)

    def func_name(self):
        for f in reversed(self.frames):
            if f.func is not None:
                c = f.cls
                return (c.name + "." if c else "") + f.func.name
        return "?"

    def call(self, f, args=(), kw=None):
        kw = dict(kw or {})
        args = list(args)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_] + args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Cls):
            return self.construct(f, args, kw)
        if isinstance(f, (Ext, Meth)):
            return self.lib.call(self, f, args, kw)
        if isinstance(f, Unk):
            return Unk("call of unknown")
        if isinstance(f, Ref) and f.kind == "obj":
            m, c = self.heap[f.i].cls.find("__call__")
            if m is not None:
                return self.call_func(m, [f] + args, kw)
        raise Stop("call of %r" % (f,))

    def construct(self, cls, args, kw):
        if self.is_exception(cls):
            return Const(("exc", cls.name))
        o = self.new("obj", ObjV(cls, {}))
        m, c = cls.find("__init__")
        if m is not None:
            self.call_func(m, [o] + args, kw)
        return o

    def is_exception(self, cls):
        for c in cls.mro:
            for b in c.bases:
                if isinstance(b, Ext) and b.name.rsplit(".", 1)[-1] in \
                        BUILTIN_EXC | {"NotFittedError"}:
                    return True
        return False

    def exc_names(self, cls):
        out = []
        for c in cls.mro:
            out.append(c.name)
            for b in c.bases:
                if isinstance(b, Ext):
                    out.append(b.name.rsplit(".", 1)[-1])
        return out

    def call_func(self, f, args, kw):
        self.calls += 1
        self.budget -= 1
        if self.budget < 0:
            raise Stop("budget")
        if self.depth > 60:
            raise Stop("recursion")
        qual = (f.cls.name + "." if f.cls else "") + f.name
        if qual in self.hooks:
            r = self.hooks[qual](self, f, args, kw)
            if r is not None:
                return r
        self.analysed.add("%s:%s" % (f.module.rel, qual))
        node = f.node
        decos = [d.id if isinstance(d, ast.Name) else
                 d.attr if isinstance(d, ast.Attribute) else ""
                 for d in getattr(node, "decorator_list", ())]
        env = self.bind_args(f, args, kw)
        fr = Frame(f, f.module, env, f.cls)
        fr.outer = f.env
        self.frames.append(fr)
        self.depth += 1
        saved_line = self.line
        nfr = len(self.frames)
        try:
            if isinstance(node, ast.Lambda):
                r = self.eval(node.body)
            else:
                gen = is_generator(node)
                if gen:
                    raise Stop("generator function")
                r = NONE
                try:
                    self.block(node.body)
                except _Return as ex:
                    r = ex.v
        finally:
            del self.frames[nfr - 1:]
            self.depth -= 1
            self.line = saved_line
        if qual in self.watch:
            self.watch[qual](self, args, r)
        return r

    def bind_args(self, f, args, kw):
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        kwn = [x.arg for x in a.kwonlyargs]
        rest = list(args)
        for n in names:
            if rest:
                env[n] = rest.pop(0)
        if rest:
            if a.vararg:
                env[a.vararg.arg] = Tup(rest)
            else:
                raise PyRaise("TypeError", self.where(),
                              "too many arguments")
        elif a.vararg:
            env[a.vararg.arg] = Tup([])
        extra = {}
        for n, v in kw.items():
            if n in env:
                raise PyRaise("TypeError", self.where(), "duplicate " + n)
            if n in names or n in kwn:
                env[n] = v
            elif a.kwarg:
                extra[n] = v
            else:
                raise PyRaise("TypeError", self.where(),
                              "unexpected keyword " + n)
        if a.kwarg:
            env[a.kwarg.arg] = self.new("dict", DictV(
                [(Const(n), v) for n, v in extra.items()]))
        dn = names[len(names) - len(a.defaults):]
        for n, d in zip(dn, a.defaults):
            if n not in env:
                env[n] = self.default(f, d)
        for n, d in zip(kwn, a.kw_defaults):
            if n not in env and d is not None:
                env[n] = self.default(f, d)
        for n in names + kwn:
            if n not in env:
                raise PyRaise("TypeError", self.where(), "missing " + n)
        return env

    def default(self, f, node):
        self.frames.append(Frame(None, f.module, {}))
        try:
            return self.eval(node)
        finally:
            self.frames.pop()

    # ------------------------------------------------------------ statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        self.line = st.lineno
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Stop("statement %s at %s" % (type(st).__name__,
                                               self.where()))
        m(st)

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value)

    def s_Pass(self, st):
        pass

    def s_Assert(self, st):
        if not self.truth(self.eval(st.test)):
            raise PyRaise("AssertionError", self.where())

    def s_Global(self, st):
        raise Stop("global")

    s_Nonlocal = s_Global

    def s_Import(self, st):
        ns = {}
        self._scan(self.frames[-1].module, [st], ns)
        self.frames[-1].env.update(ns)

    def s_ImportFrom(self, st):
        ns = {}
        m = self.frames[-1].module
        self._scan(m, [st], ns)
        for k, v in ns.items():
            if isinstance(v, tuple):
                v = self.global_(v[1], v[2])
            self.frames[-1].env[k] = v

    def s_FunctionDef(self, st):
        self.frames[-1].env[st.name] = Func(
            st, self.frames[-1].module, env=self.frames[-1])

    def s_Return(self, st):
        raise _Return(self.eval(st.value) if st.value else NONE)

    def s_Break(self, st):
        raise _Break()

    def s_Continue(self, st):
        raise _Continue()

    def s_Raise(self, st):
        name, w = "Exception", self.where()
        if st.exc is not None:
            x = self.eval(st.exc)
            if isinstance(x, Const) and isinstance(x.v, tuple):
                name = x.v[1]
            elif isinstance(x, Cls):
                name = x.name
            elif isinstance(x, Ext):
                name = x.name.rsplit(".", 1)[-1]
        raise PyRaise(name, w)

    def s_If(self, st):
        if self.truth(self.eval(st.test)):
            self.block(st.body)
        else:
            self.block(st.orelse)

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].env.pop(t.id, None)
            else:
                raise Stop("del")

    def s_With(self, st):
        for it in st.items:
            v = self.eval(it.context_expr)
            if not (isinstance(v, Unk) or isinstance(v, Const)):
                raise Stop("with")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, Unk("with"))
        self.block(st.body)

    def s_Try(self, st):
        try:
            self.block(st.body)
        except PyRaise as ex:
            for h in st.handlers:
                if self.handles(h, ex):
                    if h.name:
                        self.frames[-1].env[h.name] = Unk("exception")
                    try:
                        self.block(h.body)
                    finally:
                        self.block(st.finalbody)
                    return
            self.block(st.finalbody)
            raise
        except (_Return, _Break, _Continue):
            self.block(st.finalbody)
            raise
        self.block(st.orelse)
        self.block(st.finalbody)

    def handles(self, h, ex):
        if h.type is None:
            return True
        v = self.eval(h.type)
        for x in (v.items if isinstance(v, Tup) else [v]):
            n = x.name.rsplit(".", 1)[-1] if isinstance(
                x, (Ext, Cls)) else None
            if n in ("Exception", "BaseException") or n == ex.name:
                return True
            if n in EXC_BASE.get(ex.name, ()):
                return True
        return False

    def s_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def s_AugAssign(self, st):
        t = st.target
        cur = self.eval(as_load(t))
        v = self.eval(st.value)
        r = self.binop(type(st.op).__name__, cur, v)
        if self.is_arr(cur) and self.is_arr(r):
            # in place: the cell changes
            a, b = self.A(cur), self.A(r)
            if len(a.shape) == len(b.shape):
                self.heap[cur.i] = self.named(b)
                return
        if isinstance(cur, Ref) and cur.kind == "list" and isinstance(
                r, Ref) and r.kind == "list":
            self.heap[cur.i] = self.heap[r.i]
            return
        self.assign(t, r)

    def assign(self, t, v):
        if self.cut and isinstance(v, Num):
            v = Num(T.cut(v.p, self.cut), v.kind)
        if isinstance(t, ast.Name):
            self.frames[-1].env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            if isinstance(o, Ref) and o.kind == "obj":
                self.setfield(o, t.attr, v)
            elif isinstance(o, Unk):
                pass
            else:
                raise Stop("attribute store on %r" % (o,))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.index(t.slice)
            self.store_item(o, k, v)
        elif isinstance(t, ast.Starred):
            raise Stop("starred target")
        else:
            raise Stop("target")

    def unpack(self, v, n):
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Ref) and v.kind == "list":
            it = self.heap[v.i].items
            if all(isinstance(x, Val) for x in it):
                return list(it)
        if isinstance(v, Unk):
            return [Unk(v.why) for _ in range(n)]
        if self.is_arr(v) and n is not None:
            return [self.lib.getitem(self, v, [Num(k, "i")])
                    for k in range(n)]
        if v is not None and n is not None:
            try:
                return [self.lib.getitem(self, v, [Num(k, "i")])
                        for k in range(n)]
            except Stop:
                pass
        raise Stop("unpack %r" % (v,))

    def store_item(self, o, k, v):
        self.lib.setitem(self, o, k, v)

    # ------------------------------------------------------------ loops
    def s_For(self, st):
        it = self.iterable(self.eval(st.iter))
        brk = self.loop(it, lambda x: self.assign(st.target, x), st.body)
        if not brk and st.orelse:
            self.block(st.orelse)

    def iterable(self, v):
        """-> list of values, or Lazy."""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Lazy):
            return v
        if isinstance(v, Range):
            lo, hi, step = v.lo, v.hi, v.step or ONE
            if step == ONE:
                n = hi - lo
                c = n.value()
                if c is not None:
                    if c > 12:
                        return Lazy(n, lambda i: TRUE,
                                    lambda i: Num(lo + i, "i"))
                    return [Num(lo + i, "i") for i in range(max(0, int(c)))]
                r = self.decide(ge(n, 0))
                if r is not True:
                    # an empty range when hi < lo
                    n = fn("max2", n, ZERO) if r is None else ZERO
                return Lazy(n, lambda i: TRUE, lambda i: Num(lo + i, "i"))
            if step == P(-1):
                n = lo - hi
                if n.value() is not None:
                    return [Num(lo - i, "i") for i in range(max(0, int(
                        n.value())))]
                return Lazy(n, lambda i: TRUE, lambda i: Num(lo - i, "i"))
            s = step.value()
            if s is not None and (hi - lo).value() is not None:
                return [Num(q, "i") for q in range(
                    int(lo.value()), int(hi.value()), int(s))] if \
                    lo.value() is not None else self._stop("range")
            if s is not None and s > 0 or s is None:
                n = -fn("floor", (lo - hi) / step)
                return Lazy(n, lambda i: TRUE,
                            lambda i: Num(lo + i * step, "i"))
            raise Stop("range step")
        if isinstance(v, Ref):
            c = self.heap[v.i]
            if v.kind == "list":
                if all(isinstance(x, Val) for x in c.items):
                    return list(c.items)
                if len(c.items) == 1 and isinstance(c.items[0], Many):
                    m = c.items[0]
                    return Lazy(m.n, lambda i: T.subst_cond(
                        m.guard, {m.var: i}), lambda i: self.subst_val(
                        m.tmpl, m.var, i))
                raise Stop("iteration over mixed list")
            if v.kind == "arr":
                if not c.shape:
                    raise PyRaise("TypeError", self.where())
                ax = c.shape[0]
                k = ax.n.value()
                if k is not None and k <= 6 and ax.filt is None:
                    return [self.lib.getitem(self, v, [Num(i, "i")])
                            for i in range(int(k))]
                return Lazy(ax.n, ax.guard, lambda i: self.lib.row(
                    self, v, i))
            if v.kind == "dict" and not c.layers and c.base is None:
                return [k for k, _ in c.items]
        if isinstance(v, Unk):
            n = Poly.atom(Atom("opq", self.opaque(lo=0, integer=True), ()))
            return Lazy(n, lambda i: TRUE, lambda i: Unk("element"))
        if isinstance(v, Const) and isinstance(v.v, str):
            return [Const(ch) for ch in v.v]
        raise Stop("iteration over %r at %s" % (v, self.where()))

    def _stop(self, why):
        raise Stop(why)

    def opaque(self, lo=-INF, hi=INF, integer=False, gen=None, **kw):
        i = fresh_id()
        T.DRAWS[i] = dict(dist="opaque" if gen else "unknown", lo=lo, hi=hi, lo_in=lo > -INF,
                          hi_in=hi < INF, int=integer, gen=gen, **kw)
        return i

    def loop(self, it, bind, body):
        """Run a for loop; True when left by break."""
        if isinstance(it, list):
            for x in it:
                try:
                    bind(x)
                    self.block(body)
                except _Continue:
                    continue
                except _Break:
                    return True
            return False
        return self.symbolic_loop(it.n, it.guard,
                                  lambda i: bind(it.elem(i)),
                                  lambda: self.block(body))

    def symbolic_loop(self, n, guard, bind, run):
        from .loops import solve
        return solve(self, n, guard, bind, run)

    def s_While(self, st):
        from .loops import solve_while
        if T.FOLD[0] and self.guide is not None and \
                len(self.decisions) == 1:
            if self.steps(st):
                return
        elif solve_while(self, st):
            return
        if st.orelse:
            self.block(st.orelse)

    def steps(self, st):
        """A while loop one turn after the other; True when left by break."""
        for _ in range(60):
            if not self.truth(self.eval(st.test)):
                return False
            try:
                self.block(st.body)
            except _Continue:
                continue
            except _Break:
                return True
        raise Stop("long loop")

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Stop("expression %s at %s" % (type(e).__name__,
                                                self.where()))
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool):
            return Bool(TRUE if v else FALSE)
        if isinstance(v, int):
            return Num(v, "i")
        if isinstance(v, float):
            return Num(Poly.const(Fraction(repr(v))) if v == v and
                       abs(v) != INF else Poly.const(v), "f")
        return Const(v)

    def e_JoinedStr(self, e):
        return Const("<string>")

    def e_Name(self, e):
        fr = self.frames[-1]
        while fr is not None:
            if e.id in fr.env:
                return fr.env[e.id]
            nxt = getattr(fr, "outer", None)
            if nxt is None:
                break
            fr = nxt
        g = self.global_(self.frames[-1].module.name, e.id)
        if g is not None:
            return g
        return Ext("builtins." + e.id)

    def e_Tuple(self, e):
        return Tup(self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                it = self.iterable(v)
                if not isinstance(it, list):
                    raise Stop("starred")
                out += it
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        return self.list_(self.elts(e.elts))

    def e_Set(self, e):
        return Tup(self.elts(e.elts))

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v)
                items += list(self.heap[d.i].items)
            else:
                items.append((self.eval(k), self.eval(v)))
        return self.new("dict", DictV(items))

    def e_Lambda(self, e):
        return Func(e, self.frames[-1].module, env=self.frames[-1],
                    cls=self.frames[-1].cls)

    def e_IfExp(self, e):
        c = self.cond(self.eval(e.test))
        r = self.decide(c)
        if r is None:
            # both sides as values, when they merge
            try:
                n = len(self.draws)
                sn = self.snapshot()
                nd = len(self.decisions[-1][1]) if self.decisions else 0
                a = self.eval(e.body)
                b = self.eval(e.orelse)
                if len(self.draws) == n and (not self.decisions or len(
                        self.decisions[-1][1]) == nd) and isinstance(
                        a, Num) and isinstance(b, Num):
                    return Num(ite(c, a.p, b.p),
                               a.kind if a.kind == b.kind else "f")
                self.restore(sn)
            except (PyRaise, Stop):
                self.restore(sn)
        return self.eval(e.body if self.choose(c) else e.orelse)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        conds = []
        for k, x in enumerate(e.values):
            v = self.eval(x)
            if isinstance(v, (Bool, Num)) or self.is_arr(v):
                c = self.cond(v)
                r = self.decide(c)
                if r is None:
                    conds.append(c)
                    if self.pure(e.values[k + 1:]):
                        continue
                    if self.choose(c) == isand:
                        conds.pop()
                        continue
                    conds.pop()
                    return v
                if r != isand:
                    if conds:
                        return Bool(both(*conds, FALSE) if isand else
                                    either(*conds, TRUE))
                    return v
            else:
                t = self.truth(v)
                if t != isand:
                    return v
        if conds:
            return Bool(both(*conds) if isand else either(*conds))
        return v

    def pure(self, es):
        """May these be evaluated whatever the earlier operands are?"""
        for x in es:
            for q in ast.walk(x):
                if isinstance(q, ast.Call):
                    f = q.func
                    if isinstance(f, ast.Name) and f.id in (
                            "len", "isinstance", "type", "hasattr"):
                        continue
                    return False
                if isinstance(q, ast.Subscript):
                    return False
        return True

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return Bool(no(self.cond(v)))
        if isinstance(e.op, ast.USub):
            return self.lib.ew(self, lambda a: -a, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.lib.ew(self, lambda a: ONE - a, v, dt="b")
        raise Stop("unary")

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            v = self.lib.compare(self, type(op).__name__, left, right)
            if out is None:
                out = v
            else:
                out = Bool(both(self.cond(out), self.cond(v)))
            left = right
        return out

    def cond(self, v):
        """Truth of a value as a condition."""
        if isinstance(v, Bool):
            return v.c
        if isinstance(v, Num):
            if v.kind == "b":
                return to_cond(v.p)
            return no(eq(v.p, 0))
        if isinstance(v, Const):
            return TRUE if v.v else FALSE
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, Unk):
            i = self.opaque(lo=0, hi=1, integer=True)
            return eq(Poly.atom(Atom("opq", i, tuple(
                x[0] for x in self.loopvars))), 1)
        if isinstance(v, Ref):
            c = self.heap[v.i]
            if v.kind == "arr":
                n = c.ndim
                if n == 0:
                    return self.cond(Num(c.body, c.dt))
                one = all(x.is_one() for x in c.shape)
                if one:
                    return self.cond(Num(c.at(*[ZERO] * n), c.dt))
                raise Stop("truth of an array")
            if v.kind in ("list", "dict"):
                return gt(self.lib.length(self, v), 0)
            return TRUE
        return TRUE

    def truth(self, v):
        return self.choose(self.cond(v))

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def getattr(self, o, name):
        if isinstance(o, Ref) and o.kind == "obj":
            c = self.heap[o.i]
            if name in c.fields:
                return c.fields[name]
            m, k = c.cls.find(name)
            if m is not None:
                return self.member(m, k, o)
            if name == "__class__":
                return c.cls
            raise PyRaise("AttributeError", self.where(), name)
        if isinstance(o, Cls):
            m, k = o.find(name)
            if isinstance(m, Func):
                return m
            if m is not None:
                return self.member(m, k, None)
            if name == "__name__":
                return Const(o.name)
            raise PyRaise("AttributeError", self.where(), name)
        if isinstance(o, Super):
            obj = self.heap[o.self_.i]
            mro = obj.cls.mro
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.members:
                    return self.member(k.members[name], k, o.self_)
            if name == "__init__":
                return Ext("builtins.object.__init__")
            raise PyRaise("AttributeError", self.where(), name)
        if isinstance(o, Mod):
            full = o.name + "." + name
            if full in self.prog.modules:
                return Mod(full)
            v = self.global_(o.name, name)
            if v is None:
                raise PyRaise("AttributeError", self.where(), name)
            return v
        if isinstance(o, Ext):
            return self.lib.ext_attr(self, o.name + "." + name)
        return self.lib.attr(self, o, name)

    def member(self, m, k, o):
        if isinstance(m, Func):
            deco = [getattr(d, "id", getattr(d, "attr", ""))
                    for d in m.node.decorator_list]
            if "staticmethod" in deco:
                return m
            if "property" in deco:
                return self.call_func(m, [o], {})
            if "classmethod" in deco:
                return Bound(m, self.heap[o.i].cls if o else k)
            return Bound(m, o) if o is not None else m
        if isinstance(m, tuple):
            self.frames.append(Frame(None, k.module, {}))
            try:
                v = self.eval(m[1])
                if m[0] == "item":
                    v = self.unpack(v, None)[m[2]]
                return v
            finally:
                self.frames.pop()
        return m

    def e_Call(self, e):
        self.line = e.lineno
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and not e.args:
            fr = self.frames[-1]
            first = fr.func.node.args.args[0].arg
            return Super(fr.cls, fr.env[first])
        fv = self.eval(f)
        args = self.elts(e.args)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if isinstance(v, Ref) and v.kind == "dict":
                    for kk, vv in self.heap[v.i].items:
                        kw[kk.v] = vv
                else:
                    raise Stop("** of %r" % (v,))
            else:
                kw[k.arg] = v
        self.line = e.lineno
        return self.call(fv, args, kw)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.index(e.slice)
        return self.lib.getitem(self, o, k)

    def index(self, s):
        """Subscript as a list of index values."""
        if isinstance(s, ast.Tuple):
            return [self.eval(x) for x in s.elts]
        return [self.eval(s)]

    def e_Slice(self, e):
        return SliceV(*[None if x is None else self.eval(x)
                        for x in (e.lower, e.upper, e.step)])

    def e_Starred(self, e):
        raise Stop("starred")

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_ListComp(self, e):
        return self.comprehension(e)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def comprehension(self, e):
        acc = self.list_([])
        fr = self.frames[-1]
        saved = dict(fr.env)
        name = "%acc" + str(fresh_id())
        fr.env[name] = acc

        def level(k):
            if k == len(e.generators):
                v = self.eval(e.elt)
                c = self.heap[acc.i]
                self.heap[acc.i] = ListV(c.items + (v,))
                return
            g = e.generators[k]

            def bind(x):
                self.assign(g.target, x)

            def run():
                for t in g.ifs:
                    if not self.truth(self.eval(t)):
                        raise _Continue()
                level(k + 1)
            it = self.iterable(self.eval(g.iter))
            if isinstance(it, list):
                for x in it:
                    bind(x)
                    try:
                        run()
                    except _Continue:
                        continue
            else:
                self.symbolic_loop(it.n, it.guard,
                                   lambda i: bind(it.elem(i)), run)
        level(0)
        keep = {k: v for k, v in fr.env.items() if k in saved}
        fr.env.clear()
        fr.env.update(keep)
        return acc

    def e_DictComp(self, e):
        g = e.generators[0]
        if len(e.generators) != 1:
            raise Stop("dict comprehension")
        it = self.iterable(self.eval(g.iter))
        fr = self.frames[-1]
        saved = dict(fr.env)
        if isinstance(it, list):
            items = []
            for x in it:
                self.assign(g.target, x)
                if all(self.truth(self.eval(t)) for t in g.ifs):
                    items.append((self.eval(e.key), self.eval(e.value)))
            r = DictV(items)
        else:
            v = fresh_index()
            self.loopvars.append((v, it.n, it.guard(v)))
            nf = len(self.facts)
            self.facts += [gt(it.n, v), it.guard(v)]
            try:
                self.assign(g.target, it.elem(v))
                c = both(it.guard(v), gt(it.n, v), *[
                    self.cond(self.eval(t)) for t in g.ifs])
                key = self.eval(e.key)
                val = self.eval(e.value)
            finally:
                self.loopvars.pop()
                del self.facts[nf:]
            if not isinstance(key, Num):
                raise Stop("dict comprehension key")
            if key.p != v:
                raise Stop("dict comprehension key is not the index")
            r = DictV((), [Layer(v, c, val)])
        fr.env.clear()
        fr.env.update(saved)
        return self.new("dict", r)

    # ------------------------------------------------------------ helpers
    def subst_val(self, v, var, e):
        return self.map_val(v, lambda p: T.subst(p, var, P(e)))

    def map_val(self, v, f):
        if isinstance(v, Num):
            q = f(v.p)
            return v if q is v.p else Num(q, v.kind)
        if isinstance(v, Bool):
            return Bool(T.map_cond(v.c, f))
        if isinstance(v, Tup):
            return Tup([self.map_val(x, f) for x in v.items])
        if isinstance(v, Ref):
            c = self.heap.get(v.i)
            if v.kind == "arr":
                r = Arr([x.map(f) for x in c.shape], c.vars, f(c.body), c.dt)
                if r.body == c.body and all(
                        x.same(y) for x, y in zip(r.shape, c.shape)):
                    return v
                return self.new("arr", r)
            if v.kind == "list":
                items = [self.map_item(x, f) for x in c.items]
                if all(x is y for x, y in zip(items, c.items)):
                    return v
                return self.new("list", ListV(items))
            if v.kind == "dict":
                items = [(k, self.map_val(x, f)) for k, x in c.items]
                layers = [Layer(l.var, T.map_cond(l.cond, f),
                                self.map_val(l.tmpl, f)) for l in c.layers]
                if all(x is y for (_, x), (_, y) in zip(items, c.items)) \
                        and not layers:
                    return v
                return self.new("dict", DictV(items, layers, c.factory,
                                              c.base))
            return v
        if isinstance(v, Range):
            return Range(f(v.lo), f(v.hi), v.step and f(v.step))
        return v

    def map_item(self, x, f):
        if isinstance(x, Many):
            return Many(x.var, f(x.n), self.map_val(x.tmpl, f),
                        T.map_cond(x.guard, f))
        if isinstance(x, Rest):
            return x
        return self.map_val(x, f)

    def merge(self, c, a, b):
        """Value that is a when c holds and b otherwise."""
        if a is b:
            return a
        if c.op == "true":
            return a
        if c.op == "false":
            return b
        if self.cut:
            c = T.cut_cond(c, self.cut)
        if isinstance(a, (Num, Bool)) and isinstance(b, (Num, Bool)):
            if isinstance(a, Bool) and isinstance(b, Bool):
                return Bool(either(both(c, a.c), both(no(c), b.c)))
            x = a if isinstance(a, Num) else Num(ind(a.c), "b")
            y = b if isinstance(b, Num) else Num(ind(b.c), "b")
            return Num(ite(c, x.p, y.p), x.kind if x.kind == y.kind
                       else "f")
        if isinstance(a, Const) and isinstance(b, Const) and a.v == b.v:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind:
            if a.i == b.i:
                return a
            x, y = self.heap[a.i], self.heap[b.i]
            if a.kind == "arr":
                r = self.merge_arr(c, x, y)
                if r is not None:
                    return self.new("arr", r)
            if a.kind == "list":
                r = self.merge_list(c, x, y)
                if r is not None:
                    return self.new("list", r)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(
                a.items) == len(b.items):
            return Tup([self.merge(c, x, y) for x, y in zip(a.items,
                                                            b.items)])
        return Unk("merge of %r and %r" % (type(a).__name__,
                                           type(b).__name__))

    def merge_arr(self, c, x, y):
        if x.ndim != y.ndim:
            return None
        if all(p.same(q) for p, q in zip(x.shape, y.shape)):
            return Arr(x.shape, x.vars, ite(c, x.body, y.at(*x.vars)),
                       x.dt if x.dt == y.dt else "f")
        if any(p.filt is not None or q.filt is not None
               for p, q in zip(x.shape, y.shape)):
            return None
        sh = [Axis(ite(c, p.n, q.n)) for p, q in zip(x.shape, y.shape)]
        return Arr(sh, x.vars, ite(c, x.body, y.at(*x.vars)),
                   x.dt if x.dt == y.dt else "f")

    def merge_list(self, c, x, y):
        if len(x.items) != len(y.items):
            # the longer one has extra items under a condition
            a, b = (x, y) if len(x.items) > len(y.items) else (y, x)
            k = len(b.items)
            if all(p is q or same_item(self, p, q) for p, q in
                   zip(a.items, b.items)):
                g = c if a is x else no(c)
                tail = []
                for it in a.items[k:]:
                    if isinstance(it, Many):
                        tail.append(Many(it.var, it.n, it.tmpl,
                                         both(it.guard, g)))
                    elif isinstance(it, Val):
                        tail.append(Many(fresh_index(), ONE, it, g))
                    else:
                        return None
                return ListV(list(b.items) + tail)
            return None
        out = []
        for p, q in zip(x.items, y.items):
            if p is q or same_item(self, p, q):
                out.append(p)
            elif isinstance(p, Val) and isinstance(q, Val):
                out.append(self.merge(c, p, q))
            else:
                return None
        return ListV(out)

    # ------------------------------------------------------------ scenarios
    def top(self):
        m = self.prog.modules["pyrichlet"]
        self.frames.append(Frame(None, m, {}))

    def method(self, obj, name, *args, **kw):
        return self.call(self.getattr(obj, name), list(args), kw)


def same_item(e, p, q):
    if p is q:
        return True
    if isinstance(p, Rest) and isinstance(q, Rest):
        return p.i == q.i
    if isinstance(p, Num) and isinstance(q, Num):
        return p.p == q.p
    if isinstance(p, Const) and isinstance(q, Const):
        return p.v == q.v
    if isinstance(p, Ref) and isinstance(q, Ref):
        if p.i == q.i:
            return True
    return False


def conds_polys(c):
    if c.op in ("gt0", "eq0"):
        return [c.args[0]]
    out = []
    for x in c.args:
        if isinstance(x, Cond):
            out += conds_polys(x)
    return out


def as_load(t):
    import copy
    x = copy.copy(t)
    x.ctx = ast.Load()
    return x


def is_generator(node):
    for x in ast.walk(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False
