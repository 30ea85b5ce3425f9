"""Client scenarios for the effect engine: classes, constructor settings and
caller-owned inputs, all found through the package's public names."""
import ast

from .front import AnalysisBroken, Program
from .eff import (Eff, V, H, E, Cls, Func, const, scalar, ref, NONE, vjoin)

_PROG = None


def program():
    global _PROG
    if _PROG is None:
        _PROG = Program()
    return _PROG


def engine(rep=None):
    return Eff(program())


def top(e):
    ns = e.mod_ns.get("pyrichlet")
    if ns is None:
        raise AnalysisBroken("package pyrichlet cannot be loaded")
    return ns


def exported(e, base):
    """Exported concrete classes deriving from the exported class `base`."""
    out = {}
    for name, v in top(e).items():
        for f in v.fns:
            if isinstance(f, Cls) and f.name != base and any(
                    c.name == base for c in f.mro):
                out[f.name] = f
    return [out[n] for n in sorted(out)]


def mixtures(e):
    out = exported(e, "BaseGaussianMixture")
    if not out:
        raise AnalysisBroken("no exported subclass of BaseGaussianMixture")
    return out


def weights(e):
    out = exported(e, "BaseWeight")
    if not out:
        raise AnalysisBroken("no exported subclass of BaseWeight")
    return out


def by_name(e, name):
    v = top(e).get(name)
    for f in (v.fns if v is not None else ()):
        if isinstance(f, Cls):
            return f
    return e.find_class(name)


def method(e, cls, name):
    v = e.class_attr(cls, name)
    if v is not None:
        for f in v.fns:
            if isinstance(f, Func):
                return f
    return None


def need(e, cls, name):
    f = method(e, cls, name)
    if f is None:
        raise AnalysisBroken("public method %s.%s is gone" % (cls.name, name))
    return f


def params(fn):
    """[(name, default AST or None, kind)] of a function, without self."""
    a = fn.node.args
    pos = a.posonlyargs + a.args
    d = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    out = [(p.arg, x) for p, x in zip(pos, d)][1:]
    out += [(p.arg, x) for p, x in zip(a.kwonlyargs, a.kw_defaults)]
    return out


def public_methods(e, cls):
    seen = {}
    for c in cls.mro:
        for n, v in c.ns.items():
            if n.startswith("_") or n in seen or "." in n:
                continue
            for f in v.fns:
                if isinstance(f, Func) and "property" not in f.deco:
                    seen[n] = f
    return seen


def option_values(cls, param):
    """Strings the class compares the option `param` with."""
    out = set()
    for c in cls.mro:
        if c.node is None:
            continue
        for x in ast.walk(c.node):
            if not isinstance(x, ast.Compare):
                continue
            names = set()
            for y in ast.walk(x):
                if isinstance(y, ast.Attribute):
                    names.add(y.attr)
                elif isinstance(y, ast.Name):
                    names.add(y.id)
            if param in names:
                for y in ast.walk(x):
                    if isinstance(y, ast.Constant) and isinstance(
                            y.value, str):
                        out.add(y.value)
                # comparison against a local/class-level collection
                for nm in names - {param, "self"}:
                    for z in ast.walk(c.node):
                        if isinstance(z, ast.Assign) and any(
                                isinstance(t, (ast.Name, ast.Attribute)) and
                                getattr(t, "id", getattr(t, "attr", None)) ==
                                nm for t in z.targets):
                            for y in ast.walk(z.value):
                                if isinstance(y, ast.Constant) and isinstance(
                                        y.value, str):
                                    out.add(y.value)
    return out


INT_PARAMS = {"n", "total_iter", "burn_in", "subsample_steps",
              "p_optim_max_steps", "truncation_length"}


def settings(e, cls, **over):
    """Symbolic constructor settings, one abstract value per keyword."""
    init = method(e, cls, "__init__")
    kw = {}
    for name, d in params(init):
        if name in over:
            continue
        if name in ("rng", "weight_model"):
            continue
        if isinstance(d, ast.Constant):
            v = d.value
            if isinstance(v, bool):
                kw[name] = const(v)
            elif isinstance(v, int) and name in INT_PARAMS:
                kw[name] = scalar("int")
            elif isinstance(v, (int, float)):
                kw[name] = scalar("int", "float")
        elif isinstance(d, ast.UnaryOp):
            kw[name] = scalar("int")
    kw.update(over)
    return kw


def variants(e, cls):
    """Constructor variants that fix the settings the code branches on."""
    init = method(e, cls, "__init__")
    names = [n for n, _ in params(init)]
    if "p_method" in names:
        out = [{"x": const(0)}, {"x": const(1)}]
        for m in sorted(option_values_all(e, cls, "p_method")):
            out.append({"x": const(0.5), "p_method": const(m)})
        return out
    if "p" in names and "alpha" in names and "x" not in names:
        return [{}]
    return [{}]


def option_values_all(e, cls, param):
    vals = set(option_values(cls, param))
    wm = weight_class_of(e, cls)
    if wm is not None:
        vals |= option_values(wm, param)
    d = dict(params(method(e, cls, "__init__"))).get(param)
    if isinstance(d, ast.Constant) and isinstance(d.value, str):
        vals.add(d.value)
    return vals


_WM = {}


def weight_class_of(e, cls):
    """Weighting model class a mixture class builds."""
    if not any(c.name == "BaseGaussianMixture" for c in cls.mro):
        return None
    if cls.name in _WM:
        nm = _WM[cls.name]
        return by_name(e, nm) if nm else None
    e2 = Eff(e.prog)
    c2 = by_name(e2, cls.name)
    m, _ = e2.construct(c2, rng=e2.ext_value("gen", "rng"))
    nm = None
    if m is not None:
        for loc in m.refs:
            wm = e2.heap(loc).fields.get("weight_model")
            for l2 in (wm.refs if wm else ()):
                nm = e2.heap(l2).cls.name if e2.heap(l2).cls else None
    _WM[cls.name] = nm
    return by_name(e, nm) if nm else None


def obs(e, kind, name="y", lab=E):
    """Caller-owned observations of one of the accepted forms."""
    if kind == "array2":
        return e.ext_value("ndarray", name, lab=lab, ndim=2)
    if kind == "array1":
        return e.ext_value("ndarray", name, lab=lab, ndim=1)
    if kind == "frame":
        v = e.ext_value("df", name, lab=lab)
        return v
    if kind == "series":
        return e.ext_value("series", name, lab=lab)
    if kind == "list1":
        v = e.ext_value("list", name)
        l = next(iter(v.refs))
        e.st.heap[l] = e.st.heap[l].copy(elem=scalar("int", "float", lab=lab),
                                         length=None)
        return v
    if kind == "list2":
        v = e.ext_value("list", name)
        inner = e.ext_value("list", name + "_row")
        li = next(iter(inner.refs))
        e.st.heap[li] = e.st.heap[li].copy(elem=scalar("int", "float",
                                                       lab=lab))
        l = next(iter(v.refs))
        e.st.heap[l] = e.st.heap[l].copy(elem=inner)
        return v
    if kind == "list_arrays":
        v = e.ext_value("list", name)
        inner = e.ext_value("ndarray", name + "_row", lab=lab, ndim=1)
        l = next(iter(v.refs))
        e.st.heap[l] = e.st.heap[l].copy(elem=inner)
        return v
    raise KeyError(kind)


OBS_KINDS = ["array2", "array1", "frame", "series", "list1", "list2"]


def one(v):
    for l in v.refs:
        return l
    raise AnalysisBroken("no object")


def field(e, obj, name):
    out = None
    for l in obj.refs:
        out = vjoin(out, e.heap(l).fields.get(name))
    return out


def build(e, cls, **over):
    kw = settings(e, cls, **over)
    if "rng" not in kw:
        kw["rng"] = e.ext_value("gen", "rng")
    m, ex = e.construct(cls, **kw)
    return m, ex


def queries(e, cls, prefix):
    return {n: f for n, f in public_methods(e, cls).items()
            if n.startswith(prefix)}


def query_args(e, fn, kind=None, lab=E):
    """Argument tuples to call a query with: defaults and given points."""
    names = [n for n, _ in params(fn)]
    kw = {}
    if kind is not None and "y" in names:
        kw["y"] = obs(e, kind, "q", lab)
    return kw


def query_variants(e, fn, lab=E, kinds=("array2",)):
    """Keyword variants of a query (thunks building fresh caller inputs)."""
    names = [n for n, _ in params(fn)]
    out = [("defaults", lambda: {})]
    if "y" in names:
        for k in kinds:
            def mk(k=k):
                kw = {"y": obs(e, k, "q", lab)}
                return kw
            out.append(("y=%s" % k, mk))
    if "dim" in names:
        out.append(("dim=int", lambda: {"dim": scalar("int", lab=lab)}))

        def mkd():
            d = e.ext_value("list", "dim", lab=lab)
            l = one(d)
            e.st.heap[l] = e.st.heap[l].copy(elem=scalar("int", lab=lab))
            return {"dim": d}
        out.append(("dim=list", mkd))
        if "y" in names:
            def mkyd():
                kw = mkd()
                kw["y"] = obs(e, "array2", "q", lab)
                return kw
            out.append(("y,dim=list", mkyd))
    if "component" in names:
        out.append(("component", lambda: {"component": scalar("int",
                                                              lab=lab)}))
    if "full" in names:
        def mkf():
            return {"full": const(True)}
        out.append(("full", mkf))
        if "y" in names:
            def mkfy():
                return {"full": const(True), "y": obs(e, "array2", "q", lab)}
            out.append(("y,full", mkfy))
    if "periods" in names:
        out.append(("periods", lambda: {"periods": scalar("int", lab=lab)}))
    if "n_clusters" in names:
        out.append(("n_clusters", lambda: {"n_clusters": scalar(
            "int", lab=lab)}))
    for n, d in params(fn):
        if n in ("y", "dim", "component", "full", "periods", "n_clusters"):
            continue
        if isinstance(d, ast.Constant) and isinstance(d.value, bool):
            out.append((n, lambda n=n, d=d: {n: const(not d.value)}))
    return out
