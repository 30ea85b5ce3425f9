"""The bundled data: which columns and rows a loader returns.

The loaders are interpreted over an abstract table: a data frame is a list of
columns and a list of rows of the bundled file (its header and its missing
cells are read from the file), whatever the cells are otherwise.
"""
import ast
import csv
import os
from .front import Program, AnalysisBroken, REPO
from .vg import Stop
from .report import Report

MISSING = {"", "NA", "NaN", "nan", "N/A", "NULL", "null", "None", "n/a",
           "#N/A", "-nan", "-NaN", "<NA>"}


class Source:
    """A bundled file."""

    def __init__(self, path):
        with open(path, newline="") as fh:
            rows = list(csv.reader(fh))
        self.path = path
        self.names = [h if h else "Unnamed: %d" % i
                      for i, h in enumerate(rows[0])]
        self.raw = rows[0]
        self.rows = [r for r in rows[1:] if r]
        self.n = len(self.rows)

    def missing(self, c, r):
        return self.rows[r][c].strip() in MISSING

    def numeric(self, c):
        try:
            for r in range(self.n):
                if not self.missing(c, r):
                    float(self.rows[r][c])
            return True
        except ValueError:
            return False

    def key(self, c, r):
        v = self.rows[r][c]
        try:
            return (0, float(v))
        except ValueError:
            return (1, v)


class Files:
    """The directory of the bundled files."""

    def __init__(self, path):
        self.path = path


class Frame:
    def __init__(self, src, cols, rows, index, names=None):
        self.src, self.cols, self.rows = src, list(cols), list(rows)
        self.index = list(index)            # labels, parallel to rows
        self.names = list(names) if names else [src.names[c] for c in cols]

    def with_(self, **kw):
        a = dict(src=self.src, cols=self.cols, rows=self.rows,
                 index=self.index, names=self.names)
        a.update(kw)
        return Frame(**a)

    def pick(self, pos):
        return self.with_(cols=[self.cols[i] for i in pos],
                          names=[self.names[i] for i in pos])

    def take(self, at):
        return self.with_(rows=[self.rows[i] for i in at],
                          index=[self.index[i] for i in at])

    def pos(self, name):
        if self.names.count(name) != 1:
            raise Stop("column %r" % (name,))
        return self.names.index(name)


class Series:
    def __init__(self, src, col, rows, index, name=None):
        self.src, self.col, self.rows, self.index = src, col, rows, index
        self.name = name


class Arr:
    """An array of the cells of some columns (one column: a vector)."""

    def __init__(self, src, cols, rows, flat):
        self.src, self.cols, self.rows, self.flat = src, cols, rows, flat


class Flags:
    """Truth values of rows (or cells) of a frame."""

    def __init__(self, rows, vals, index=None):
        self.rows, self.vals, self.index = rows, vals, index


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Name:
    def __init__(self, dotted):
        self.dotted = dotted


class Fun:
    def __init__(self, node, module):
        self.node, self.module = node, module


class Bound:
    def __init__(self, obj, attr):
        self.obj, self.attr = obj, attr


BUILTINS = {"list": list, "range": range, "len": len, "str": str,
            "tuple": tuple, "set": set, "sorted": sorted, "zip": zip,
            "dict": dict, "int": int, "slice": slice, "reversed": reversed,
            "enumerate": enumerate, "min": min, "max": max, "sum": sum,
            "bool": bool}
PLAIN = (int, float, str, bytes, bool, list, tuple, set, dict, range, slice,
         type(None), frozenset, zip, enumerate)


class Loader:
    def __init__(self, prog):
        self.prog = prog
        self.globals = {}
        self.files = set()
        self.depth = 0
        self.steps = 0

    # ------------------------------------------------------------- names
    def module_env(self, m):
        if m.name in self.globals:
            return self.globals[m.name]
        env = self.globals[m.name] = {"__name__": m.name,
                                      "__file__": m.path}
        for st in m.tree.body:
            self.top(st, env, m)
        return env

    def top(self, st, env, m):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    env[a.asname] = self.module(a.name)
                else:
                    env[a.name.split(".")[0]] = self.module(
                        a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            base = self.prog.rel_name(m, st.level, st.module)
            for a in st.names:
                env[a.asname or a.name] = self.member(base, a.name)
        elif isinstance(st, ast.FunctionDef):
            env[st.name] = Fun(st, m)
        elif isinstance(st, ast.Try):
            for x in st.body:
                self.top(x, env, m)
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            try:
                self.stmt(st, env, m)
            except Stop:
                pass

    def module(self, name):
        return self.prog.modules.get(name) or Name(name)

    def member(self, base, name):
        full = base + "." + name
        if full in self.prog.modules:
            return self.prog.modules[full]
        d = os.path.join(REPO, *full.split("."))
        if base in self.prog.modules:
            env = self.module_env(self.prog.modules[base])
            if name in env:
                return env[name]
            if os.path.isdir(d):
                return Name(full)
            raise Stop("name %s" % full)
        return Name(full)

    # -------------------------------------------------------- statements
    def run(self, fun, args=(), kw=None):
        self.depth += 1
        if self.depth > 20:
            raise Stop("recursion")
        a = fun.node.args
        menv = self.module_env(fun.module)
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg or a.kwarg:
            raise Stop("variable arguments")
        for n, v in zip(names, args):
            env[n] = v
        env.update(kw or {})
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = self.ev(d, {}, fun.module)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.ev(d, {}, fun.module)
        try:
            self.block(fun.node.body, env, fun.module)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def block(self, body, env, m):
        for st in body:
            self.stmt(st, env, m)

    def stmt(self, st, env, m):
        self.steps += 1
        if self.steps > 20000:
            raise Stop("too many steps")
        if isinstance(st, ast.Return):
            raise Ret(None if st.value is None else self.ev(st.value, env,
                                                            m))
        if isinstance(st, ast.Assign):
            v = self.ev(st.value, env, m)
            for t in st.targets:
                self.assign(t, v, env, m)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env, m), env, m)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(ast.BinOp(left=st.target, op=st.op, right=st.value),
                        env, m)
            self.assign(st.target, v, env, m)
        elif isinstance(st, ast.Expr):
            self.ev(st.value, env, m)
        elif isinstance(st, ast.Pass):
            pass
        elif isinstance(st, ast.If):
            self.block(st.body if self.truth(self.ev(st.test, env, m))
                       else st.orelse, env, m)
        elif isinstance(st, ast.For):
            it = self.ev(st.iter, env, m)
            if not isinstance(it, PLAIN):
                raise Stop("loop over %r" % (it,))
            for v in it:
                self.assign(st.target, v, env, m)
                self.block(st.body, env, m)
        elif isinstance(st, ast.With):
            for x in st.items:
                v = self.ev(x.context_expr, env, m)
                if x.optional_vars is not None:
                    self.assign(x.optional_vars, v, env, m)
            self.block(st.body, env, m)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                else:
                    o = self.ev(t.value, env, m)
                    k = self.ev(t.slice, env, m)
                    if not isinstance(o, Frame):
                        raise Stop("del")
                    self.drop_in_place(o, [k])
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            self.top(st, env, m)
        elif isinstance(st, ast.Assert):
            pass
        else:
            raise Stop("statement %s" % type(st).__name__)

    def assign(self, t, v, env, m):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, (tuple, list)) or len(v) != len(t.elts):
                raise Stop("unpacking")
            for x, y in zip(t.elts, v):
                self.assign(x, y, env, m)
        else:
            raise Stop("assignment to %s" % type(t).__name__)

    def truth(self, v):
        if isinstance(v, PLAIN):
            return bool(v)
        raise Stop("truth value")

    # ------------------------------------------------------- expressions
    def ev(self, x, env, m):
        if isinstance(x, ast.Constant):
            return x.value
        if isinstance(x, ast.Name):
            if x.id in env:
                return env[x.id]
            g = self.module_env(m)
            if x.id in g:
                return g[x.id]
            if x.id in BUILTINS:
                return BUILTINS[x.id]
            raise Stop("name %s" % x.id)
        if isinstance(x, ast.Attribute):
            return self.attr(self.ev(x.value, env, m), x.attr)
        if isinstance(x, (ast.Tuple, ast.List, ast.Set)):
            v = []
            for y in x.elts:
                if isinstance(y, ast.Starred):
                    v += list(self.ev(y.value, env, m))
                else:
                    v.append(self.ev(y, env, m))
            return {ast.Tuple: tuple, ast.List: list, ast.Set: set}[type(x)](
                v)
        if isinstance(x, ast.Dict):
            return {self.ev(k, env, m): self.ev(v, env, m)
                    for k, v in zip(x.keys, x.values)}
        if isinstance(x, ast.Slice):
            return slice(*[None if y is None else self.ev(y, env, m)
                           for y in (x.lower, x.upper, x.step)])
        if isinstance(x, ast.Subscript):
            return self.sub(self.ev(x.value, env, m),
                            self.ev(x.slice, env, m))
        if isinstance(x, ast.Call):
            f = self.ev(x.func, env, m)
            args = []
            for y in x.args:
                if isinstance(y, ast.Starred):
                    args += list(self.ev(y.value, env, m))
                else:
                    args.append(self.ev(y, env, m))
            kw = {}
            for k in x.keywords:
                if k.arg is None:
                    kw.update(self.ev(k.value, env, m))
                else:
                    kw[k.arg] = self.ev(k.value, env, m)
            return self.call(f, args, kw)
        if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            if len(x.generators) != 1:
                raise Stop("comprehension")
            g = x.generators[0]
            out = []
            it = self.ev(g.iter, env, m)
            if not isinstance(it, PLAIN):
                raise Stop("loop over %r" % (it,))
            for v in it:
                e2 = dict(env)
                self.assign(g.target, v, e2, m)
                if all(self.truth(self.ev(c, e2, m)) for c in g.ifs):
                    out.append(self.ev(x.elt, e2, m))
            return set(out) if isinstance(x, ast.SetComp) else out
        if isinstance(x, ast.IfExp):
            return self.ev(x.body if self.truth(self.ev(x.test, env, m))
                           else x.orelse, env, m)
        if isinstance(x, ast.Lambda):
            raise Stop("lambda")
        if isinstance(x, ast.JoinedStr):
            out = ""
            for v in x.values:
                if isinstance(v, ast.Constant):
                    out += v.value
                else:
                    y = self.ev(v.value, env, m)
                    if not isinstance(y, (str, int)):
                        raise Stop("format")
                    out += str(y)
            return out
        if isinstance(x, ast.UnaryOp):
            v = self.ev(x.operand, env, m)
            if isinstance(v, Flags) and isinstance(x.op, ast.Invert):
                return Flags(v.rows, flip(v.vals), v.index)
            if isinstance(v, PLAIN):
                if isinstance(x.op, ast.USub):
                    return -v
                if isinstance(x.op, ast.Not):
                    return not v
            raise Stop("operator")
        if isinstance(x, ast.BinOp):
            a, b = self.ev(x.left, env, m), self.ev(x.right, env, m)
            return self.binop(x.op, a, b)
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            a, b = (self.ev(x.left, env, m),
                    self.ev(x.comparators[0], env, m))
            if isinstance(a, PLAIN) and isinstance(b, PLAIN):
                op = type(x.ops[0]).__name__
                fs = {"Eq": lambda: a == b, "NotEq": lambda: a != b,
                      "Lt": lambda: a < b, "Gt": lambda: a > b,
                      "LtE": lambda: a <= b, "GtE": lambda: a >= b,
                      "In": lambda: a in b, "NotIn": lambda: a not in b,
                      "Is": lambda: a is b, "IsNot": lambda: a is not b}
                return fs[op]()
            if b is None and isinstance(x.ops[0], (ast.Is, ast.IsNot)):
                return isinstance(x.ops[0], ast.IsNot)
            if isinstance(a, Index) and isinstance(b, str) and isinstance(
                    x.ops[0], (ast.Eq, ast.NotEq)):
                return [(n == b) == isinstance(x.ops[0], ast.Eq)
                        for n in a.names]
            raise Stop("comparison")
        if isinstance(x, ast.BoolOp):
            v = None
            for y in x.values:
                v = self.ev(y, env, m)
                if self.truth(v) != isinstance(x.op, ast.And):
                    return v
            return v
        raise Stop("expression %s" % type(x).__name__)

    def binop(self, op, a, b):
        if isinstance(a, Files) and isinstance(op, ast.Div):
            return Files(os.path.join(a.path, b))
        if isinstance(a, Flags) and isinstance(b, Flags):
            if a.rows != b.rows or isinstance(a.vals[0], list) or \
                    isinstance(b.vals[0], list):
                raise Stop("truth values of different rows")
            if isinstance(op, ast.BitAnd):
                return Flags(a.rows, [x and y for x, y in zip(
                    a.vals, b.vals)], a.index)
            if isinstance(op, ast.BitOr):
                return Flags(a.rows, [x or y for x, y in zip(
                    a.vals, b.vals)], a.index)
        if isinstance(a, PLAIN) and isinstance(b, PLAIN):
            try:
                if isinstance(op, ast.Add):
                    return a + b
                if isinstance(op, ast.Sub):
                    return a - b
                if isinstance(op, ast.Mult):
                    return a * b
                if isinstance(op, ast.Mod):
                    return a % b
            except TypeError:
                pass
        raise Stop("operator %s" % type(op).__name__)

    # ------------------------------------------------------------ tables
    def attr(self, o, a):
        if isinstance(o, Name):
            return Name(o.dotted + "." + a)
        if hasattr(o, "tree"):          # a module of the package
            return self.member(o.name, a)
        if isinstance(o, Frame):
            if a in ("iloc", "loc"):
                return Bound(o, a)
            if a == "columns":
                return Index(o.names)
            if a == "values":
                return self.to_array(o)
            if a == "shape":
                return (len(o.rows), len(o.cols))
            if a in o.names and a not in ("drop", "pop", "copy"):
                return self.sub(o, a)
            return Bound(o, a)
        if isinstance(o, Series):
            if a == "values":
                return self.to_array(o)
            return Bound(o, a)
        return Bound(o, a)

    def to_array(self, o):
        if isinstance(o, Frame):
            return Arr(o.src, o.cols, o.rows, False)
        return Arr(o.src, [o.col], o.rows, True)

    def column(self, f, i):
        return Series(f.src, f.cols[i], f.rows, f.index, f.names[i])

    def sub(self, o, k):
        if isinstance(o, Bound) and isinstance(o.obj, Frame):
            f = o.obj
            if not isinstance(k, tuple):
                k = (k, slice(None))
            r, c = k
            if o.attr == "iloc":
                f = self.rows_at(f, r)
                if isinstance(c, bool):
                    raise Stop("column")
                if isinstance(c, int):
                    return self.column(f, range(len(f.cols))[c])
                if isinstance(c, (slice, list, tuple, range)):
                    return f.pick(positions(c, len(f.cols)))
                raise Stop("iloc column %r" % (c,))
            if o.attr == "loc":
                if isinstance(r, Flags):
                    f = self.rows_where(f, r)
                elif not (isinstance(r, slice) and r == slice(None)):
                    raise Stop("loc rows")
                return self.sub_cols(f, c)
        if isinstance(o, Bound) and isinstance(o.obj, Series):
            raise Stop("series indexer")
        if isinstance(o, Frame):
            if isinstance(k, Flags):
                return self.rows_where(o, k)
            if isinstance(k, slice):
                return self.rows_at(o, k)
            return self.sub_cols(o, k)
        if isinstance(o, Arr):
            if isinstance(k, tuple) and len(k) == 2 and not o.flat and \
                    isinstance(k[0], slice):
                rows = o.rows[k[0]]
                if isinstance(k[1], int):
                    return Arr(o.src, [o.cols[k[1]]], rows, True)
                p = positions(k[1], len(o.cols))
                return Arr(o.src, [o.cols[i] for i in p], rows, False)
            if isinstance(k, slice):
                return Arr(o.src, o.cols, o.rows[k], o.flat)
            raise Stop("array index")
        if isinstance(o, Series):
            if isinstance(k, Flags):
                f = self.rows_where(Frame(o.src, [o.col], o.rows, o.index),
                                    k)
                return self.column(f, 0)
            raise Stop("series index")
        if isinstance(o, Index):
            if isinstance(k, int):
                return o.names[k]
            if isinstance(k, slice):
                return Index(o.names[k])
            if isinstance(k, list) and all(isinstance(x, bool) for x in k):
                return Index([n for n, x in zip(o.names, k) if x])
            raise Stop("index of the columns")
        if isinstance(o, PLAIN):
            try:
                return o[k]
            except (TypeError, IndexError, KeyError):
                raise Stop("index")
        raise Stop("subscript of %r" % (o,))

    def sub_cols(self, f, c):
        if isinstance(c, str):
            return self.column(f, f.pos(c))
        if isinstance(c, Index):
            c = c.names
        if isinstance(c, slice):
            lo = None if c.start is None else f.pos(c.start)
            hi = None if c.stop is None else f.pos(c.stop) + 1
            return f.pick(range(len(f.cols))[slice(lo, hi)])
        if isinstance(c, (list, tuple)):
            if c and all(isinstance(x, bool) for x in c):
                return f.pick([i for i, x in enumerate(c) if x])
            return f.pick([f.pos(x) for x in c])
        raise Stop("columns %r" % (c,))

    def rows_at(self, f, r):
        if isinstance(r, slice):
            return f.take(range(len(f.rows))[r])
        if isinstance(r, (list, range)):
            return f.take(positions(r, len(f.rows)))
        raise Stop("rows")

    def rows_where(self, f, k):
        if isinstance(k.vals[0], list):
            raise Stop("cells")
        t = dict(zip(k.rows, k.vals))
        if len(t) != len(k.rows) or any(r not in t for r in f.rows):
            raise Stop("rows of another table")
        return f.take([i for i, r in enumerate(f.rows) if t[r]])

    def drop_in_place(self, f, names):
        keep = [i for i, n in enumerate(f.names) if n not in names]
        if len(keep) != len(f.names) - len(names):
            raise Stop("column to drop")
        f.cols = [f.cols[i] for i in keep]
        f.names = [f.names[i] for i in keep]

    # ------------------------------------------------------------- calls
    def call(self, f, args, kw):
        if isinstance(f, Fun):
            return self.run(f, args, kw)
        if isinstance(f, Name):
            return self.library(f.dotted, args, kw)
        if isinstance(f, Bound):
            return self.method(f.obj, f.attr, args, kw)
        if f in BUILTINS.values():
            if f is str and len(args) == 1 and isinstance(args[0], Files):
                return args[0]
            if f is list and args and isinstance(args[0], Index):
                return list(args[0].names)
            if f is len and isinstance(args[0], (Frame, Series, Arr)):
                return len(args[0].rows)
            if all(isinstance(a, PLAIN) for a in args):
                try:
                    return f(*args, **kw)
                except (TypeError, ValueError):
                    raise Stop("builtin")
        raise Stop("call")

    def library(self, n, args, kw):
        last = n.split(".")[-1]
        if n.startswith(("importlib.resources", "importlib_resources",
                         "pkg_resources")):
            if last in ("files", "path", "as_file", "resource_filename"):
                if last == "as_file":
                    return args[0]
                base = args[0]
                if isinstance(base, Name):
                    base = base.dotted
                elif hasattr(base, "tree"):
                    base = base.name
                if not isinstance(base, str):
                    raise Stop("package of the data")
                f = Files(os.path.join(REPO, *base.split(".")))
                for a in args[1:]:
                    f = Files(os.path.join(f.path, a))
                return f
        if n in ("os.path.join", "posixpath.join"):
            return Files(os.path.join(*[a.path if isinstance(a, Files) else a
                                        for a in args]))
        if n in ("os.path.dirname", "os.path.abspath", "os.path.realpath"):
            p = args[0].path if isinstance(args[0], Files) else args[0]
            return Files(getattr(os.path, last)(p))
        if n in ("pathlib.Path", "os.fspath", "str"):
            return args[0] if isinstance(args[0], Files) else Files(args[0])
        if n in ("pandas.read_csv",):
            return self.read_csv(args, kw)
        if n in ("numpy.array", "numpy.asarray", "numpy.copy") and isinstance(
                args[0], (Frame, Series, Arr)):
            if isinstance(args[0], Arr):
                return args[0]
            return self.to_array(args[0])
        if n in ("pandas.isna", "pandas.isnull"):
            return self.method(args[0], "isna", [], {})
        if n in ("pandas.notna", "pandas.notnull"):
            return self.method(args[0], "notna", [], {})
        if n in ("pandas.DataFrame",) and len(args) == 1 and isinstance(
                args[0], Frame) and not kw:
            return args[0].with_()
        raise Stop("call of %s" % n)

    def read_csv(self, args, kw):
        kw = dict(kw)
        if args:
            kw["filepath_or_buffer"] = args[0]
        p = kw.pop("filepath_or_buffer", None)
        if isinstance(p, Files):
            p = p.path
        if not isinstance(p, str) or not os.path.isfile(p):
            raise Stop("file to read")
        src = Source(p)
        self.files.add(os.path.relpath(p, REPO))
        use = kw.pop("usecols", None)
        ic = kw.pop("index_col", None)
        for k in ("dtype", "encoding", "engine", "sep", "low_memory",
                  "memory_map"):
            if k == "sep" and kw.get(k, ",") != ",":
                raise Stop("separator")
            kw.pop(k, None)
        if kw:
            raise Stop("read_csv(%s)" % ", ".join(kw))
        cols = list(range(len(src.names)))
        if use is not None:
            if isinstance(use, Index):
                use = use.names
            if not isinstance(use, (list, tuple, set, range)):
                raise Stop("usecols")
            use = list(use)
            if all(isinstance(x, int) for x in use):
                cols = sorted(set(use))
            else:
                cols = sorted({src.names.index(x) for x in use
                               if x in src.names})
                if len(cols) != len(set(use)):
                    raise Stop("usecols")
            if any(c < 0 or c >= len(src.names) for c in cols):
                raise Stop("usecols")
        rows = list(range(src.n))
        index = list(rows)
        if ic is not None and ic is not False:
            if isinstance(ic, str):
                if ic not in src.names:
                    raise Stop("index_col")
                c = src.names.index(ic)
            elif isinstance(ic, int):
                c = cols[ic]
            else:
                raise Stop("index_col")
            if c not in cols:
                raise Stop("index_col")
            cols.remove(c)
            index = [src.rows[r][c] for r in rows]
        return Frame(src, cols, rows, index)

    def method(self, o, a, args, kw):
        if isinstance(o, Files):
            if a in ("joinpath", "__truediv__"):
                return Files(os.path.join(o.path, *args))
            if a in ("as_posix", "__str__", "resolve", "open", "absolute"):
                return o
        if isinstance(o, Frame):
            return self.frame_method(o, a, args, dict(kw))
        if isinstance(o, Series):
            if a in ("to_numpy", "array"):
                return self.to_array(o)
            if a in ("copy", "astype", "reset_index", "rename"):
                return Series(o.src, o.col, o.rows, list(range(len(
                    o.rows))) if a == "reset_index" else o.index, o.name)
            if a in ("isna", "isnull", "notna", "notnull"):
                v = [o.src.missing(o.col, r) for r in o.rows]
                return Flags(o.rows, flip(v) if a[0] == "n" else v, o.index)
            if a == "dropna":
                at = [i for i, r in enumerate(o.rows)
                      if not o.src.missing(o.col, r)]
                return Series(o.src, o.col, [o.rows[i] for i in at],
                              [o.index[i] for i in at], o.name)
        if isinstance(o, Arr):
            if a in ("copy", "astype"):
                return o
            if a in ("ravel", "flatten") and len(o.cols) == 1:
                return Arr(o.src, o.cols, o.rows, True)
        if isinstance(o, Flags):
            if a in ("to_numpy", "copy"):
                return o
            if a in ("all", "any") and isinstance(o.vals[0], list):
                ax = kw.get("axis", args[0] if args else 0)
                if ax in (1, "columns"):
                    f = all if a == "all" else any
                    return Flags(o.rows, [f(v) for v in o.vals], o.index)
        if isinstance(o, Index):
            if a in ("tolist", "to_list"):
                return list(o.names)
            if a in ("drop", "difference"):
                x = args[0]
                x = [x] if isinstance(x, str) else list(x)
                r = [n for n in o.names if n not in x]
                return Index(sorted(r) if a == "difference" else r)
            if a == "get_loc":
                return o.names.index(args[0])
        if isinstance(o, (str, list, dict, tuple, set)) and all(
                isinstance(x, PLAIN) for x in args):
            try:
                return getattr(o, a)(*args, **kw)
            except (AttributeError, TypeError, ValueError, KeyError):
                raise Stop("method %s" % a)
        raise Stop("method %s of %s" % (a, type(o).__name__))

    def frame_method(self, o, a, args, kw):
        if a == "copy":
            return o.with_()
        if a == "to_numpy":
            return self.to_array(o)
        if a in ("isna", "isnull", "notna", "notnull"):
            v = [[o.src.missing(c, r) for c in o.cols] for r in o.rows]
            return Flags(o.rows, flip(v) if a[0] == "n" else v, o.index)
        if a == "dropna":
            ax = kw.pop("axis", args[0] if args else 0)
            sub = kw.pop("subset", None)
            how = kw.pop("how", "any")
            again = kw.pop("ignore_index", False)
            inplace = kw.pop("inplace", False)
            if kw:
                raise Stop("dropna(%s)" % ", ".join(kw))
            if ax in (1, "columns"):
                if sub is not None or inplace:
                    raise Stop("dropna")
                f = any if how == "any" else all
                return o.pick([i for i, c in enumerate(o.cols) if not f(
                    o.src.missing(c, r) for r in o.rows)])
            if isinstance(sub, Index):
                sub = sub.names
            if isinstance(sub, str):
                sub = [sub]
            cols = o.cols if sub is None else [o.cols[o.pos(n)]
                                               for n in sub]
            f = any if how == "any" else all
            r = o.take([i for i, x in enumerate(o.rows) if not f(
                o.src.missing(c, x) for c in cols)])
            if again:
                r.index = list(range(len(r.rows)))
            if inplace:
                o.rows, o.index = r.rows, r.index
                return None
            return r
        if a == "drop":
            cols = kw.pop("columns", None)
            lab = kw.pop("labels", args[0] if args else None)
            ax = kw.pop("axis", args[1] if len(args) > 1 else 0)
            inplace = kw.pop("inplace", False)
            if kw or (cols is None and ax not in (1, "columns")):
                raise Stop("drop of rows")
            x = cols if cols is not None else lab
            if isinstance(x, Index):
                x = x.names
            x = [x] if isinstance(x, str) else list(x)
            r = o.with_()
            self.drop_in_place(r, x)
            if inplace:
                o.cols, o.names = r.cols, r.names
                return None
            return r
        if a == "pop":
            i = o.pos(args[0])
            s = self.column(o, i)
            self.drop_in_place(o, [args[0]])
            return s
        if a == "get":
            return self.sub(o, args[0])
        if a == "reset_index":
            if not (kw.get("drop") or (args and args[-1] is True)):
                raise Stop("reset_index")
            return o.with_(index=list(range(len(o.rows))))
        if a == "set_index":
            i = o.pos(args[0])
            idx = [o.src.rows[r][o.cols[i]] for r in o.rows]
            r = o.with_(index=idx)
            self.drop_in_place(r, [args[0]])
            return r
        if a == "select_dtypes":
            inc, exc = kw.get("include", args[0] if args else None), kw.get(
                "exclude")
            def kind(x):
                x = x if isinstance(x, (list, tuple)) else [x]
                ks = set()
                for y in x:
                    y = y.dotted if isinstance(y, Name) else y
                    if y in ("number", "numpy.number", "float", "float64",
                             float):
                        ks.add(True)
                    elif y in ("object", object, "O"):
                        ks.add(False)
                    else:
                        raise Stop("type")
                return ks
            if inc is not None:
                k = kind(inc)
                return o.pick([i for i, c in enumerate(o.cols)
                               if o.src.numeric(c) in k])
            k = kind(exc)
            return o.pick([i for i, c in enumerate(o.cols)
                           if o.src.numeric(c) not in k])
        if a == "sort_values":
            by = kw.get("by", args[0] if args else None)
            by = [by] if isinstance(by, str) else by
            if set(kw) - {"by", "kind"} or not by:
                raise Stop("sort_values")
            cs = [o.cols[o.pos(n)] for n in by]
            return o.take(sorted(range(len(o.rows)), key=lambda i: [
                o.src.key(c, o.rows[i]) for c in cs]))
        if a in ("astype", "infer_objects", "convert_dtypes"):
            return o.with_()
        if a == "filter" and set(kw) <= {"items"} and kw:
            return self.sub_cols(o, list(kw["items"]))
        if a == "head":
            return o.take(range(len(o.rows))[:args[0] if args else 5])
        if a == "tail":
            return o.take(range(len(o.rows))[-(args[0] if args else 5):])
        if a == "drop_duplicates" and not args and not kw:
            seen, at = set(), []
            for i, r in enumerate(o.rows):
                t = tuple(o.src.rows[r][c] for c in o.cols)
                if t not in seen:
                    seen.add(t)
                    at.append(i)
            return o.take(at)
        if a == "pipe" and isinstance(args[0], Fun):
            return self.run(args[0], [o] + args[1:], kw)
        raise Stop("DataFrame.%s" % a)


class Index:
    def __init__(self, names):
        self.names = list(names)


def flip(v):
    return [flip(x) if isinstance(x, list) else not x for x in v]


def positions(c, n):
    if isinstance(c, slice):
        return list(range(n)[c])
    if isinstance(c, (list, tuple)) and c and all(
            isinstance(x, bool) for x in c):
        return [i for i, x in enumerate(c) if x]
    out = []
    for x in c:
        if not isinstance(x, int) or not -n <= x < n:
            raise Stop("position")
        out.append(x % n)
    return out


def judge(f, lab):
    """Messages about (features, labels)."""
    out = []
    src = f.src
    label = [i for i, n in enumerate(src.names) if n == "species"]
    ident = [i for i, h in enumerate(src.raw) if not h.strip()]
    want = [i for i in range(len(src.names)) if i not in label + ident and
            src.numeric(i)]
    extra = [src.names[c] for c in f.cols if c not in want]
    if extra:
        out.append(("columns", "the features contain %s, which is no "
                    "measurement" % ", ".join(extra)))
    lost = [src.names[c] for c in want if c not in f.cols]
    if lost:
        out.append(("columns", "the measurements %s are missing from the "
                    "features" % ", ".join(lost)))
    if lab.cols != label:
        out.append(("labels", "the labels are the column %s" % ", ".join(
            src.names[c] for c in lab.cols)))
    if f.rows != lab.rows:
        k = next((i for i, (a, b) in enumerate(zip(f.rows, lab.rows))
                  if a != b), min(len(f.rows), len(lab.rows)))
        out.append(("alignment", "features and labels are not of the same "
                    "rows (%d and %d rows, first difference at %d)" % (
                        len(f.rows), len(lab.rows), k)))
    gap = [r for r in f.rows if any(src.missing(c, r) for c in f.cols)]
    if gap:
        out.append(("missing", "the features of row %d of the file are "
                    "incomplete" % (gap[0] + 1)))
    full = [r for r in range(src.n) if not any(
        src.missing(c, r) for c in want + label)]
    if sorted(f.rows) != full and not gap:
        miss = sorted(set(full) - set(f.rows))
        if miss:
            out.append(("rows", "complete row %d of the file is left out (%d "
                        "rows are)" % (miss[0] + 1, len(miss))))
        elif len(set(f.rows)) != len(f.rows):
            out.append(("rows", "a row is returned twice"))
    return out


def c23(rep):
    """The loaders return aligned, label-free features."""
    rep.rule = (
        "Each loader is interpreted over an abstract table (columns and rows "
        "of the bundled file, with its header and missing cells): the "
        "features returned are exactly the numeric measurement columns of "
        "every complete row, the labels the species column of the same rows "
        "in the same order.")
    rep.assumptions += ["pandas functions follow their documentation"]
    prog = Program()
    m = prog.modules.get("pyrichlet.utils")
    if m is None:
        raise AnalysisBroken("no module pyrichlet.utils")
    ld = Loader(prog)
    names = ["load_chaetocnema", "load_penguins"]
    try:
        env = ld.module_env(m)
    except Stop as ex:
        rep.skip("module: %s" % ex)
        return
    names += [n for n, v in env.items() if n.startswith("load_") and
              isinstance(v, Fun) and n not in names]
    parts = ("features are the measurements", "labels are the species",
             "rows are aligned", "no cell is missing",
             "every complete row is kept")
    kinds = ("columns", "labels", "alignment", "missing", "rows")
    for n in names:
        f = env.get(n)
        if f is None:
            raise AnalysisBroken("no loader %s" % n)
        rep.count("loaders")
        try:
            v = ld.run(f) if isinstance(f, Fun) else None
            if not (isinstance(v, tuple) and len(v) == 2):
                raise Stop("result of another form")
            x, y = v
            if isinstance(x, Frame):
                x = ld.to_array(x)
            elif not isinstance(x, Arr) or x.flat:
                raise Stop("features of another form")
            if isinstance(y, Series):
                y = ld.to_array(y)
            if not isinstance(y, Arr) or not y.flat:
                raise Stop("labels of another form")
            if x.src is not y.src and x.src.path != y.src.path:
                raise Stop("two files")
        except (Stop, IndexError, KeyError, TypeError, AttributeError,
                OSError) as ex:
            rep.skip("%s: %s" % (n, str(ex)[:120] or type(ex).__name__))
            continue
        rep.count("rows", len(x.rows))
        bad = judge(x, y)
        for kind, what in zip(kinds, parts):
            ms = [t for k, t in bad if k == kind]
            if ms:
                rep.bad("%s %s" % (n, kind), "%s: %s" % (n, ms[0]))
            else:
                rep.ok("%s: %s" % (n, what))
    rep.samples.append("files: %s" % ", ".join(sorted(ld.files)))
