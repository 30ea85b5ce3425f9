"""Checks decided by the effect / alias / dependence engine."""
import ast

from .front import AnalysisBroken
from .eff import (V, E, Cls, Func, const, scalar, ref, NONE, vjoin, Loc)
from . import scen
from .scen import (engine, mixtures, weights, build, obs, params, one, field,
                   queries, query_variants, variants, settings, by_name,
                   public_methods, method, need, OBS_KINDS)
from .report import Report, finish, run_tasks


def gibbs_inits(e, cls):
    return documented(e, cls, "fit_gibbs", "init_method")


def documented(e, cls, meth, param):
    """Option values named in the docstring entry of `param` + default."""
    f = need(e, cls, meth)
    vals = []
    d = dict(params(f)).get(param)
    if isinstance(d, ast.Constant) and isinstance(d.value, str):
        vals.append(d.value)
    doc = ast.get_docstring(f.node) or ""
    on = False
    import re
    for line in doc.split("\n"):
        if re.match(r"^\s*%s\s*:" % re.escape(param), line):
            on = True
            continue
        if on:
            if re.match(r"^\w+\s*:", line.strip()) and not line.startswith(
                    "    "):
                break
            m = re.match(r"^\s*[\"'](\w[\w-]*)[\"']\s*:", line)
            if m and m.group(1) not in vals:
                vals.append(m.group(1))
    return vals


# ------------------------------------------------------------------ C01
def c01_judge(rep, e, label, allowed):
    for ev in e.events:
        if ev.kind == "globalrng":
            rep.bad("%s %s" % (ev.where, ev.func),
                    "uses process-wide random state %s (reached from %s)"
                    % (ev.data["path"], label))
        elif ev.kind == "entropy":
            rep.bad("%s %s" % (ev.where, ev.func),
                    "uses hidden entropy %s (reached from %s)"
                    % (ev.data["path"], label))
        elif ev.kind == "draw":
            bad = set(ev.data["sources"]) - allowed
            if not ev.data["sources"]:
                bad = {("unknown",)}
            if not bad:
                rep.ok("%s %s in %s" % (ev.where, ev.data["method"],
                                        ev.func))
            elif bad == {("unknown",)}:
                rep.skip("%s: generator of %s not resolved"
                         % (ev.where, ev.data["method"]))
            else:
                src = sorted(str(b[0]) if b[0] != "seed" else
                             "fixed seed %r" % (b[1],) for b in bad
                             if b != ("unknown",))
                rep.bad("%s %s" % (ev.where, ev.func),
                        "%s draws from %s instead of the generator given "
                        "at construction (reached from %s)" % (
                            ev.data["method"], ", ".join(src), label))
    rep.engine(e)


def rng_mode(e, mode):
    if mode == "generator":
        g = e.ext_value("gen", "rng")
        return g, {("caller", one(g))}
    if mode == "seed":
        return scalar("int", lab=frozenset(["SEED"])), {("seed", "SEED")}
    return const(0, frozenset(["SEED"])), {("seed", "SEED"), ("seed", 0)}


def c01_mixture(rep, cname, vi, mode):
    e = engine()
    cls = by_name(e, cname)
    var = variants(e, cls)[vi]
    g, allowed = rng_mode(e, mode)
    m, ex = build(e, cls, rng=g, **var)
    label = "%s(rng=%s)" % (cls.name, mode)
    if m is None:
        rep.skip("%s cannot be constructed" % label)
        return
    base = e.st
    has_n = "n" in [p for p, _ in params(method(e, cls, "__init__"))]
    for meth in ("fit_gibbs", "fit_variational"):
        for init in documented(e, cls, meth, "init_method"):
            for ng in (False, True):
                if ng and (mode != "generator" or
                           meth == "fit_variational" and not has_n):
                    continue
                e.st = base.copy()
                kw = {"init_method": const(init)}
                if meth == "fit_gibbs" and ng:
                    kw["init_groups"] = scalar("int")
                if meth == "fit_variational" and not ng:
                    kw["n_groups"] = scalar("int")
                e.method(m, meth, obs(e, "array2"), **kw)
                rep.count("scenarios")
                if e.st is None or mode != "generator" or ng:
                    continue
                pre = "gibbs_" if meth == "fit_gibbs" else "var_"
                fitted = e.st
                for q, fn in sorted(queries(e, cls, pre).items()):
                    for vn, mk in query_variants(e, fn):
                        e.st = fitted.copy()
                        e.method(m, q, **mk())
                        rep.count("scenarios")
    c01_judge(rep, e, label, allowed)


def c01_weight(rep, cname, vi, mode):
    e = engine()
    cls = by_name(e, cname)
    var = variants(e, cls)[vi]
    g, allowed = rng_mode(e, mode)
    m, ex = build(e, cls, rng=g, **var)
    if m is None:
        rep.skip("%s cannot be constructed" % cls.name)
        return
    base = e.st
    for fitted in (False, True):
        e.st = base.copy()
        if fitted:
            e.method(m, "fit", e.ext_value("ndarray", "d", ndim=1))
        st = e.st
        for name, args in weight_ops(e, m):
            if st is None:
                break
            e.st = st.copy()
            e.method(m, name, *args)
            rep.count("scenarios")
    c01_judge(rep, e, cls.name, allowed)


def weight_ops(e, m):
    return [("random", [scalar("int")]), ("random", []),
            ("complete", [scalar("int")]), ("tail", [scalar("float")]),
            ("random_assignment", [scalar("int")]),
            ("weighting_log_likelihood", []),
            ("assignation_log_likelihood", [])]


def c01(rep):
    rep.rule = ("every draw reached from a constructor, fit, query or weight "
                "operation has as its only source the generator or seed given "
                "at construction; no process-wide random state, clock or "
                "other entropy is reachable")
    e0 = engine()
    tasks = []
    for cls in mixtures(e0):
        for vi in range(len(variants(e0, cls))):
            for mode in ("generator",) if vi else ("generator", "seed",
                                                   "zero"):
                tasks.append((c01_mixture, (cls.name, vi, mode)))
    for cls in weights(e0):
        for vi in range(len(variants(e0, cls))):
            for mode in ("generator", "seed"):
                tasks.append((c01_weight, (cls.name, vi, mode)))
    slow_first(tasks)
    run_tasks(rep, tasks)


def slow_first(tasks):
    tasks.sort(key=lambda t: (not any("Bernoulli" in str(a) for a in t[1]),
                              not any("Mixture" in str(a) for a in t[1])))


def is_sub(e, name, target):
    return name == target or e.exc_matches(name, target) is True


KIND = {"gibbs_": "fit_gibbs", "var_": "fit_variational"}


def fit_kw(e, cls, meth, init=None, fixed=True):
    """Keyword arguments of a cold fit with the given initialisation."""
    kw = {}
    if init is not None:
        kw["init_method"] = const(init)
    if meth == "fit_variational":
        kw["n_groups"] = scalar("int")
    return kw


def exits_key(ex):
    return sorted(set("%s at %s" % (x[0], x[2]) for x in ex))


NFE = "NotFittedError"


def c02_refused(rep, e, m, cls, prefix, cond):
    """In the current state every query of the family must only refuse."""
    base = e.st
    for q, fn in sorted(queries(e, cls, prefix).items()):
        for vn, mk in query_variants(e, fn, kinds=("array2",)):
            e.st = base.copy()
            n0 = len(e.events)
            v, ex = e.method(m, q, **mk())
            rep.count("scenarios")
            what = "%s.%s(%s) %s" % (cls.name, q, vn, cond)
            if e.st is not None:
                rep.bad("%s answers %s" % (fn.qual, cond),
                        "%s: a result is returned instead of raising %s"
                        % (what, NFE))
                continue
            odd = [x for x in ex if not is_sub(e, x[0], NFE)]
            if odd:
                rep.bad("%s %s raises %s %s" % (odd[0][2], fn.qual,
                                                odd[0][0], cond),
                        "%s: raises %s, not %s" % (what, ", ".join(
                            exits_key(odd)), NFE))
            elif not ex:
                rep.skip("%s: no exit found" % what)
            else:
                rep.ok(what)
    e.st = base


def c02_mixture(rep, cname, prefix):
    e = engine()
    cls = by_name(e, cname)
    own = KIND[prefix]
    other = [k for k in KIND.values() if k != own][0]
    if not queries(e, cls, prefix):
        raise AnalysisBroken("no %s* queries" % prefix)
    need(e, cls, own)
    m, ex = build(e, cls, **variants(e, cls)[0])
    base = e.st
    e.st = base.copy()
    c02_refused(rep, e, m, cls, prefix, "before any fit")
    for init in documented(e, cls, other, "init_method"):
        if other == "fit_gibbs" and init == "variational":
            continue                 # runs the other fit as well
        e.st = base.copy()
        e.method(m, other, obs(e, "array2"), **fit_kw(e, cls, other, init))
        if e.st is None:
            rep.count("other_fit_impossible")
            continue
        c02_refused(rep, e, m, cls, prefix, "after %s only" % other)
    # aborted refit
    for init in documented(e, cls, own, "init_method"):
        e.st = base.copy()
        e.method(m, own, obs(e, "array2"), **fit_kw(e, cls, own, init))
        if e.st is None:
            rep.count("own_fit_impossible")
            continue
        fitted = e.st
        # what the queries of this family read
        e.reads = set()
        for q, fn in sorted(queries(e, cls, prefix).items()):
            for vn, mk in query_variants(e, fn):
                e.st = fitted.copy()
                e.method(m, q, **mk())
        mloc = one(m)
        e.st = fitted.copy()
        attrs = {a for l, a in e.reads if l == mloc}
        e.reads = None
        # flags: attributes read as plain booleans / constants do not count
        h = e.heap(mloc)
        data = {a for a in attrs if a in h.fields and
                not (h.fields[a].sc and not h.fields[a].refs and
                     h.fields[a].sc <= {"bool"})}
        pre = set()
        for a in data:
            f = h.fields[a]
            pre |= {l for l in e.reach(f) if l != mloc}
        for warm in (False, True):
            fn = need(e, cls, own)
            if warm and "warm_start" not in dict(params(fn)):
                continue
            e.st = fitted.copy()
            hh = e.heap(mloc)
            fl = dict(hh.fields)
            fl["$armed"] = const(False)
            e.st.heap[mloc] = hh.copy(fields=fl)
            e.ghost_loc, e.ghost_attrs, e.ghost_pre = mloc, data, pre
            e.abort_fields, e.abort_pending = {}, {}
            kw = fit_kw(e, cls, own, init)
            if warm:
                kw["warm_start"] = const(True)
            e.method(m, own, obs(e, "array2"), **kw)
            ab = e.abort_fields
            e.abort_fields, e.ghost_loc = None, None
            e.ghost_attrs, e.ghost_pre = E, E
            if not ab:
                rep.skip("%s.%s: no point where a refit can be aborted"
                         % (cname, own))
                continue
            st = fitted.copy()
            for l, d in ab.items():
                if l in st.heap:
                    f2 = dict(st.heap[l].fields)
                    f2.update(d)
                    st.heap[l] = st.heap[l].copy(fields=f2)
            e.st = st
            c02_refused(rep, e, m, cls, prefix, "after an aborted %s%s" % (
                "warm " if warm else "", own))
    rep.engine(e)


def c02_weight(rep, cname):
    e = engine()
    cls = by_name(e, cname)
    m, ex = build(e, cls, **variants(e, cls)[0])
    if m is None:
        rep.skip("%s cannot be constructed" % cname)
        return
    base = e.st
    fns = {n: f for n, f in queries(e, cls, "variational_").items()
           if f.cls is not None and f.cls.name != "BaseWeight"}
    for cond in ("before any variational fit", "after fit(d) only",
                 "after drawing only"):
        e.st = base.copy()
        if cond.startswith("after fit"):
            e.method(m, "fit", e.ext_value("ndarray", "d", ndim=1))
        elif cond.startswith("after draw"):
            e.method(m, "random", scalar("int"))
        if e.st is None:
            continue
        st = e.st
        for n, f in sorted(fns.items()):
            args = [("", lambda: {})]
            for p, d in params(f):
                if d is None:
                    args = [("j", lambda p=p: {p: scalar("int")})]
                elif p == "variational_d":
                    pass
            for an, mk in args:
                e.st = st.copy()
                v, ex = e.method(m, n, **mk())
                rep.count("scenarios")
                what = "%s.%s(%s) %s" % (cname, n, an, cond)
                odd = [x for x in ex if not is_sub(e, x[0], NFE)]
                if e.st is not None:
                    rep.bad("%s answers %s" % (f.qual, cond),
                            "%s: returns a value instead of raising %s"
                            % (what, NFE))
                elif odd:
                    rep.bad("%s raises %s" % (f.qual, odd[0][0]),
                            "%s: raises %s" % (what, exits_key(odd)))
                else:
                    rep.ok(what)
    rep.engine(e)


def c02(rep):
    rep.rule = ("from the abstract states 'new', 'only the other fit "
                "completed' and 'refit aborted after it began to replace "
                "data the queries read' no path of any query of the family "
                "reaches its end, and every exit raises NotFittedError")
    e0 = engine()
    tasks = []
    for cls in mixtures(e0):
        for p in KIND:
            tasks.append((c02_mixture, (cls.name, p)))
    for cls in weights(e0):
        tasks.append((c02_weight, (cls.name,)))
    slow_first(tasks)
    run_tasks(rep, tasks)


# ------------------------------------------------------------------ C03
def same_value(a, b):
    """The write stores what was there (one known object or constant)."""
    if a is None or b is None:
        return False
    if a.is_const() and b.is_const():
        return len(a.consts) == 1 and a.consts == b.consts
    return (not a.sc and not a.fns and a.refs == b.refs and
            len(a.refs) == 1 and next(iter(a.refs)).age == "r")


def is_none(v):
    return v is None or v.sc == frozenset(["none"]) and not v.refs \
        and not v.fns


def c03_query(rep, e, m, label, q, kw, cache_attrs):
    """Run one query; report writes to what existed before it."""
    pre = set(e.st.heap)
    model = e.reach(m)
    n0 = len(e.events)
    bad = []

    def hook(kind, data, where):
        loc = data["loc"]
        if loc not in pre or loc not in model or loc.step == "caller":
            return
        if e.heap(loc).kind in ("gen", "rstate"):
            return
        if kind == "setattr":
            if same_value(data["old"], data["val"]):
                return
            if is_none(data["old"]):
                cache_attrs.add(data["name"])
                return
            bad.append((where, e.func_name(), "rebinds %s" % data["name"]))
        else:
            bad.append((where, e.func_name(), "changes %s in place (%s)" % (
                loc.desc, data["how"])))
    e.raw_hooks.append(hook)
    try:
        v, ex = e.method(m, q, **kw)
    finally:
        e.raw_hooks.remove(hook)
    rep.count("scenarios")
    for ev in e.events[n0:]:
        if ev.kind in ("classwrite", "globalwrite", "extwrite"):
            bad.append((ev.where, ev.func, "writes shared state %s" % (
                ev.data.get("name") or ev.data.get("path"))))
    for where, func, what in bad:
        rep.bad("%s %s" % (where, func), "%s %s" % (label, what))
    if not bad:
        rep.ok("%s leaves the model unchanged" % label)
    return v


def c03_later(rep, e, m, cls, label, fitted, names, run1):
    """State a query newly created must not leak into another result."""
    e.st = fitted.copy()
    run1()
    if e.st is None:
        return
    st = e.st
    for q, fn in names:
        for vn, mk in query_variants(e, fn):
            e.st = st.copy()
            v, ex = e.method(m, q, **mk())
            if v is None or e.st is None:
                continue
            if "FIRST" in e.deep_labels(v):
                rep.bad("%s after %s" % (q, label),
                        "the result of %s.%s(%s) depends on the arguments of "
                        "an earlier %s" % (cls.name, q, vn, label))
            else:
                rep.ok()


def c03_mixture(rep, cname, prefix):
    e = engine()
    cls = by_name(e, cname)
    own = KIND[prefix]
    m, ex = build(e, cls, **variants(e, cls)[0])
    base = e.st
    getters = {n: f for n, f in public_methods(e, cls).items()
               if n.startswith("get_")}
    for init in documented(e, cls, own, "init_method"):
        e.st = base.copy()
        e.method(m, own, obs(e, "array2"), **fit_kw(e, cls, own, init))
        if e.st is None:
            continue
        fitted = e.st
        names = sorted(queries(e, cls, prefix).items()) + \
            sorted(getters.items())
        for q, fn in names:
            for vi, (vn, mk) in enumerate(query_variants(
                    e, fn, kinds=("array2", "array1", "frame", "list2"))):
                e.st = fitted.copy()
                cache = set()
                label = "%s.%s(%s)" % (cls.name, q, vn)
                c03_query(rep, e, m, label, q, mk(), cache)
                if cache:
                    def run1(vi=vi, fn=fn, q=q):
                        lk = query_variants(
                            e, fn, frozenset(["FIRST"]),
                            ("array2", "array1", "frame", "list2"))[vi][1]
                        e.method(m, q, **lk())
                    c03_later(rep, e, m, cls, label, fitted, names, run1)
    rep.engine(e)


def weight_queries(e, cls):
    out = []
    for n, f in sorted(public_methods(e, cls).items()):
        if n.startswith(("variational_", "get_")) or \
                n == "weighting_log_likelihood":
            out.append((n, f))
    return out


def weight_query_kw(e, f, lab=E):
    kw = {}
    for p, d in params(f):
        if d is None:
            kw[p] = scalar("int", lab=lab)
        elif p == "variational_d":
            kw[p] = e.ext_value("ndarray", "vd", lab=lab, ndim=2)
    return kw


def weight_states(e, m, cls):
    """(label, state) of a weighting model after each kind of operation."""
    base = e.st
    out = []
    e.method(m, "random", scalar("int"))
    if e.st is not None:
        out.append(("after random(n)", e.st))
        e.method(m, "fit", e.ext_value("ndarray", "d", ndim=1))
        if e.st is not None:
            e.method(m, "random")
            if e.st is not None:
                out.append(("after fit and random", e.st))
                drawn = e.st
                fv = method(e, cls, "fit_variational")
                if fv is not None and fv.cls.name != "BaseWeight":
                    e.method(m, "fit_variational",
                             e.ext_value("ndarray", "vd", ndim=2))
                    if e.st is not None:
                        out.append(("after fit_variational", e.st))
    e.st = base
    return out


def c03_weight(rep, cname, vi):
    e = engine()
    cls = by_name(e, cname)
    m, ex = build(e, cls, **variants(e, cls)[vi])
    if m is None:
        rep.skip("%s cannot be constructed" % cname)
        return
    names = weight_queries(e, cls)
    for cond, st in weight_states(e, m, cls):
        for q, f in names:
            e.st = st.copy()
            cache = set()
            label = "%s.%s %s" % (cname, q, cond)
            c03_query(rep, e, m, label, q, weight_query_kw(e, f), cache)
            if cache:
                e.st = st.copy()
                e.method(m, q, **weight_query_kw(e, f, frozenset(["FIRST"])))
                if e.st is None:
                    continue
                st2 = e.st
                for q2, f2 in names:
                    e.st = st2.copy()
                    v, _ = e.method(m, q2, **weight_query_kw(e, f2))
                    if v is not None and e.st is not None and \
                            "FIRST" in e.deep_labels(v):
                        rep.bad("%s after %s" % (f2.qual, f.qual),
                                "%s depends on the arguments of an earlier "
                                "%s" % (q2, q))
    rep.engine(e)


def c03(rep):
    rep.rule = ("no path of a query, getter, variational expectation or "
                "weighting log-likelihood writes an attribute of, or mutates "
                "(itself or through an alias) any object reachable from, the "
                "model as it was before the call; state a query creates does "
                "not make a later result depend on the earlier arguments")
    e0 = engine()
    tasks = []
    for cls in mixtures(e0):
        for p in KIND:
            tasks.append((c03_mixture, (cls.name, p)))
    for cls in weights(e0):
        for vi in range(len(variants(e0, cls))):
            tasks.append((c03_weight, (cls.name, vi)))
    slow_first(tasks)
    run_tasks(rep, tasks)


# ------------------------------------------------------------------ C04
def frozen_locs(e, m):
    """Locations reachable from a recorded draw or the recorded MAP draw."""
    out = set()
    for loc in m.refs:
        f = e.heap(loc).fields
        for name in ("sim_params", "map_sim_params"):
            v = f.get(name)
            if v is None:
                continue
            if name == "sim_params":
                el = None
                for l in v.refs:
                    x = e.elem_of(l)
                    el = vjoin(el, x)
                v = el
            if v is None:
                continue
            out |= e.reach(v)
    return out


def c04_mixture(rep, cname, vi):
    e = engine()
    cls = by_name(e, cname)
    m, ex = build(e, cls, **variants(e, cls)[vi])
    mloc = one(m)
    for a in ("sim_params", "map_sim_params"):
        if a not in e.heap(mloc).fields:
            raise AnalysisBroken("mixtures no longer have %s" % a)
    base = e.st
    label = [""]
    cache = {}
    hits = [0]

    def hook(kind, data, where):
        loc = data["loc"]
        if loc == mloc:
            return
        h = e.heap(loc)
        if h.kind in ("gen", "rstate"):
            return
        hits[0] += 1
        fr = frozen_locs(e, m)
        if loc in fr or h.base and (e.roots(loc) & fr):
            rep.bad("%s %s" % (where, e.func_name()),
                    "%s: %s of %s, which a recorded draw may hold" % (
                        label[0], "in-place change (%s)" % data.get("how")
                        if kind == "mutate" else "write to attribute " +
                        data.get("name", "?"), loc.desc))
    e.raw_hooks.append(hook)
    for init in documented(e, cls, "fit_gibbs", "init_method"):
        e.st = base.copy()
        label[0] = "fit_gibbs(%s)" % init
        e.method(m, "fit_gibbs", obs(e, "array2"),
                 **fit_kw(e, cls, "fit_gibbs", init))
        if e.st is None:
            continue
        fitted = e.st
        rep.ok("%s.%s" % (cname, label[0]))
        ops = []
        ops.append(("warm fit_gibbs", "fit_gibbs", lambda: (
            [obs(e, "array2")], {"warm_start": const(True),
                                 "init_method": const(init)})))
        ops.append(("fit_variational", "fit_variational", lambda: (
            [obs(e, "array2")], {"n_groups": scalar("int")})))
        for q, fn in sorted(queries(e, cls, "gibbs_").items()):
            for vn, mk in query_variants(e, fn):
                ops.append(("%s(%s)" % (q, vn), q,
                            lambda mk=mk: ([], mk())))
        for lb, name, mk in ops:
            e.st = fitted.copy()
            label[0] = lb
            a, k = mk()
            e.method(m, name, *a, **k)
            rep.ok("%s.%s" % (cname, lb))
            rep.count("scenarios")
            if name == "fit_gibbs" and e.st is not None:
                warm = e.st
                for q in sorted(queries(e, cls, "gibbs_")):
                    e.st = warm.copy()
                    e.method(m, q)
        # direct use of the weighting model by the caller
        e.st = fitted.copy()
        wm = field(e, m, "weight_model")
        for name, args in weight_ops(e, wm) + [
                ("fit", None), ("reset", [])]:
            e.st = fitted.copy()
            label[0] = "weight_model." + name
            if args is None:
                args = [e.ext_value("ndarray", "d", ndim=1)]
            e.method(wm, name, *args)
            rep.ok("%s.%s" % (cname, label[0]))
    rep.count("writes_examined", hits[0])
    rep.engine(e)


def c04(rep):
    rep.rule = ("at every attribute write and in-place mutation executed by "
                "fits, warm fits, queries and weight operations the target "
                "is not reachable from an element of sim_params or from "
                "map_sim_params in the heap of that moment")
    e0 = engine()
    tasks = []
    for cls in mixtures(e0):
        for vi in range(len(variants(e0, cls))):
            tasks.append((c04_mixture, (cls.name, vi)))
    slow_first(tasks)
    run_tasks(rep, tasks)


# ------------------------------------------------------------------ C05
IMMUTABLE = ("index",)


def c05_writes(rep, e, n0, label):
    n = 0
    for ev in e.events[n0:]:
        if ev.kind not in ("mutate", "setattr"):
            continue
        n += 1
        loc = ev.data["loc"]
        if loc.step == "caller" and e.heap(loc).kind not in ("gen", "rstate"):
            rep.bad("%s %s changes %s" % (ev.where, ev.func, loc.desc),
                    "%s: %s of the caller's %s" % (
                        label, ev.data.get("how") or "attribute write",
                        loc.desc))
    rep.count("writes_examined", n)
    rep.ok(label)


def c05_retained(rep, e, m, given, label):
    """No object reachable from the model shares storage with `given`."""
    own = e.reach(given)
    got = e.reach(m, ("gen", "rstate", "index"))
    for l in sorted(got & own, key=repr):
        if e.heap(l).kind in IMMUTABLE:
            continue
        holder = c05_holder(e, m, l)
        rep.bad("%s keeps the caller's %s" % (holder, l.desc.split("@")[0]),
                "%s: after the call %s still refers to the caller's %s"
                % (label, holder, l.desc))
        return
    rep.ok("%s retains nothing" % label)


def c05_holder(e, m, target):
    for loc in sorted(e.reach(m), key=repr):
        h = e.heap(loc)
        if h.kind != "inst":
            continue
        for name, v in sorted(h.fields.items()):
            seen = set()
            work = [v]
            while work:
                x = work.pop()
                for l in x.refs:
                    if l in seen:
                        continue
                    seen.add(l)
                    if l == target:
                        return "%s.%s" % (h.cls.name if h.cls else "?", name)
                    hh = e.heap(l)
                    if hh.kind in ("inst", "gen", "index"):
                        continue
                    if hh.elem is not None:
                        work.append(hh.elem)
                    if hh.items:
                        work.extend(hh.items.values())
                    work.extend(hh.fields.values())
                    for b in hh.base:
                        work.append(ref(b))
    return "the model"


def array_settings(e, cls):
    """Settings a caller may give as an array or list."""
    out = []
    init = method(e, cls, "__init__")
    names = [n for n, _ in params(init)]
    if any(c.name == "BaseGaussianMixture" for c in cls.mro):
        b = by_name(e, "BaseGaussianMixture")
        names += [n for n, _ in params(method(e, b, "__init__"))]
    for n in ("mu_prior", "psi_prior", "alpha"):
        if n in names:
            out.append(n)
    return out


def obs_array(e, name, form):
    if form == "list":
        if name == "psi_prior":
            return obs(e, "list2", name)
        return obs(e, "list1", name)
    return obs(e, "array2" if name == "psi_prior" else "array1", name)


def c05_mixture(rep, cname, meth):
    e = engine()
    cls = by_name(e, cname)
    prefix = [k for k, v in KIND.items() if v == meth][0]
    inits = documented(e, cls, meth, "init_method")
    start = e.st
    for form in ("array", "list"):
        for k, var in enumerate(variants(e, cls)):
            if form == "list" and k:
                continue
            e.st = start.copy()
            over = {n: obs_array(e, n, form) for n in array_settings(e, cls)
                    if n != "alpha"}
            n0 = len(e.events)
            m, ex = build(e, cls, **dict(over, **var))
            c05_writes(rep, e, n0, "%s(%s priors)" % (cname, form))
            if m is None:
                rep.skip("%s cannot be built with %s priors" % (cname, form))
                continue
            base = e.st
            kinds = OBS_KINDS + ["list_arrays"]
            for kind in kinds if (form == "array" and k == 0) else \
                    ["array2"]:
                for init in inits:
                    if kind != "array2" and init != inits[0]:
                        continue
                    e.st = base.copy()
                    n0 = len(e.events)
                    y = obs(e, kind)
                    label = "%s.%s(%s, %s)" % (cname, meth, kind, init)
                    e.method(m, meth, y, **fit_kw(e, cls, meth, init))
                    rep.count("scenarios")
                    c05_writes(rep, e, n0, label)
                    if e.st is None:
                        continue
                    c05_retained(rep, e, m, y, label)
                    if init != inits[0] or k:
                        continue
                    fitted = e.st
                    for q, fn in sorted(queries(e, cls, prefix).items()):
                        for vn, mk in query_variants(e, fn, kinds=kinds if
                                                     kind == "array2" else
                                                     ("array2",)):
                            if kind != "array2" and vn != "defaults":
                                continue
                            e.st = fitted.copy()
                            n1 = len(e.events)
                            e.method(m, q, **mk())
                            rep.count("scenarios")
                            c05_writes(rep, e, n1, "%s.%s(%s)" % (
                                cname, q, vn))
                    # a warm start is a fit as well
                    e.st = fitted.copy()
                    n1 = len(e.events)
                    y2 = obs(e, kind)
                    e.method(m, meth, y2, warm_start=const(True),
                             **fit_kw(e, cls, meth, init))
                    c05_writes(rep, e, n1, "warm " + label)
                    if e.st is not None:
                        c05_retained(rep, e, m, y2, "warm " + label)
    rep.engine(e)


def c05_weight(rep, cname, vi):
    e = engine()
    cls = by_name(e, cname)
    start = e.st
    for form in ("plain", "array", "list"):
        e.st = start.copy()
        over = {} if form == "plain" else {
            n: obs_array(e, n, form) for n in array_settings(e, cls)}
        if form != "plain" and not over:
            continue
        n0 = len(e.events)
        m, ex = build(e, cls, **dict(over, **variants(e, cls)[vi]))
        c05_writes(rep, e, n0, "%s(%s settings)" % (cname, form))
        if m is None:
            continue
        base = e.st
        for dk in ("array1", "list1"):
            e.st = base.copy()
            d = obs(e, dk, "d")
            n1 = len(e.events)
            e.method(m, "fit", d)
            c05_writes(rep, e, n1, "%s.fit(%s)" % (cname, dk))
            if e.st is None:
                rep.skip("%s.fit(%s) has no normal exit" % (cname, dk))
                continue
            c05_retained(rep, e, m, d, "%s.fit(%s)" % (cname, dk))
            fitted = e.st
            for name, args in weight_ops(e, m):
                e.st = fitted.copy()
                n1 = len(e.events)
                e.method(m, name, *args)
                rep.count("scenarios")
                c05_writes(rep, e, n1, "%s.%s after fit(%s)" % (
                    cname, name, dk))
            e.st = fitted.copy()
            n1 = len(e.events)
            e.method(m, "assignation_log_likelihood", obs(e, dk, "d2"))
            c05_writes(rep, e, n1, "%s.assignation_log_likelihood(%s)" % (
                cname, dk))
        fv = method(e, cls, "fit_variational")
        if fv is not None and fv.cls.name != "BaseWeight":
            e.st = base.copy()
            n1 = len(e.events)
            e.method(m, "fit_variational", e.ext_value("ndarray", "vd",
                                                       ndim=2))
            c05_writes(rep, e, n1, "%s.fit_variational" % cname)
            if e.st is not None:
                st = e.st
                for q, f in weight_queries(e, cls):
                    e.st = st.copy()
                    n1 = len(e.events)
                    e.method(m, q, **weight_query_kw(e, f))
                    c05_writes(rep, e, n1, "%s.%s" % (cname, q))
    rep.engine(e)


def c05_functions(rep):
    """Public helper functions working on caller arrays."""
    e = engine()
    ns = e.mod_ns.get("pyrichlet.utils.functions", {})
    for name, v in sorted(ns.items()):
        for f in v.fns:
            if isinstance(f, Func) and f.module.name == \
                    "pyrichlet.utils.functions":
                base = e.st
                e.st = base.copy()
                n0 = len(e.events)
                a = f.node.args
                args = [e.ext_value("ndarray", p.arg, ndim=None)
                        for p in a.args]
                e.do(name, lambda: e.call(V(fns=frozenset([f])), args, {}))
                c05_writes(rep, e, n0, name)
                e.st = base
    rep.engine(e)


def c05(rep):
    rep.rule = ("no write or in-place mutation on any path has a caller's "
                "array, list, series or frame (or a view of one) as target, "
                "and after a fit no object reachable from the model is, or "
                "is a view of, the observations or assignments given")
    rep.assumptions = ["pandas Index objects are immutable"]
    e0 = engine()
    tasks = [(c05_functions, ())]
    for cls in mixtures(e0):
        for meth in KIND.values():
            tasks.append((c05_mixture, (cls.name, meth)))
    for cls in weights(e0):
        for vi in range(len(variants(e0, cls))):
            tasks.append((c05_weight, (cls.name, vi)))
    slow_first(tasks)
    run_tasks(rep, tasks)


# ------------------------------------------------------------------ C06
OLD = frozenset(["OLD"])
STATE_NOTES = ("var_converged", "map_log_likelihood")


def old_fields(e, m, depth=3):
    """Attributes of the model (and of its weighting model) carrying OLD."""
    out = []
    for loc in m.refs:
        h = e.heap(loc)
        for n, v in sorted(h.fields.items()):
            if "OLD" in e.deep_labels(v):
                out.append(n)
            for l2 in v.refs:
                if e.heap(l2).kind == "inst":
                    for n2, v2 in sorted(e.heap(l2).fields.items()):
                        if "OLD" in e.deep_labels(v2):
                            out.append(n + "." + n2)
    return out


def c06_phase1(e, m, cls, seq, kw1, ask=True):
    """Earlier fits and queries; everything they produce is labelled OLD."""
    e.pc_base = OLD
    try:
        for meth, init in seq:
            before = e.st.copy()
            e.method(m, meth, obs(e, "array2", "yold", OLD),
                     **dict(fit_kw(e, cls, meth, init), **kw1))
            if e.st is None:
                e.st = before
                return False
            prefix = [k for k, v in KIND.items() if v == meth][0]
            if not ask:
                continue
            for q, fn in sorted(queries(e, cls, prefix).items()):
                st = e.st
                e.method(m, q)
                if e.st is None:
                    e.st = st
    finally:
        e.pc_base = E
    return True


def c06_mixture(rep, cname, vi):
    e = engine()
    cls = by_name(e, cname)
    m, ex = build(e, cls, **variants(e, cls)[vi])
    if m is None:
        rep.skip("%s cannot be constructed" % cname)
        return
    base = e.st
    combos = [(("fit_gibbs",), "fit_gibbs"),
              (("fit_variational",), "fit_variational"),
              (("fit_gibbs",), "fit_variational"),
              (("fit_variational",), "fit_gibbs"),
              (("fit_gibbs", "fit_variational"), "fit_gibbs"),
              (("fit_gibbs", "fit_variational"), "fit_variational")]
    for seq, last in combos:
        inits1 = {k: documented(e, cls, k, "init_method") for k in
                  KIND.values()}
        deep = rep.tier == "thorough"
        for k2, init2 in enumerate(documented(e, cls, last, "init_method")):
            for alt in range(2):
                if alt and (len(seq) > 1 or not deep and (k2 or vi)):
                    continue
                if k2 and vi and not deep:
                    continue
                e.st = base.copy()
                s1 = [(k, inits1[k][alt % len(inits1[k])]) for k in seq]
                if not c06_phase1(e, m, cls, s1, {},
                                  deep or not (alt or k2)):
                    rep.count("earlier_fit_impossible")
                    continue
                for ng in (False, True):
                    if ng and not deep and (alt or k2 or len(seq) > 1):
                        continue
                    label = "%s: %s(%s%s) after %s" % (
                        cname, last, init2, ", groups given" if ng else "",
                        "+".join("%s(%s)" % x for x in s1))
                    kw = {"init_method": const(init2)}
                    if last == "fit_gibbs":
                        if ng:
                            kw["init_groups"] = scalar("int")
                    elif ng:
                        kw["n_groups"] = scalar("int")
                    st1 = e.st
                    c06_second(rep, e, m, cls, label, last, kw)
                    e.st = st1.copy()
    rep.engine(e)


def c06_second(rep, e, m, cls, label, last, kw):
    e.st = e.st.copy()
    e.method(m, last, obs(e, "array2", "ynew"), **kw)
    rep.count("scenarios")
    if e.st is None:
        rep.count("refit_impossible")
        return
    fitted = e.st
    prefix = [k for k, v in KIND.items() if v == last][0]
    results = []
    for q, fn in sorted(queries(e, cls, prefix).items()):
        for vn, mk in query_variants(e, fn):
            results.append((q, vn, mk))
    if last == "fit_gibbs":
        for q, fn in sorted(public_methods(e, cls).items()):
            if q.startswith("get_"):
                results.append((q, "", lambda: {}))
    hit = []
    for q, vn, mk in results:
        e.st = fitted.copy()
        v, ex = e.method(m, q, **mk())
        if v is None or e.st is None:
            continue
        if "OLD" in e.deep_labels(v):
            hit.append("%s(%s)" % (q, vn))
        else:
            rep.ok("%s: %s(%s)" % (label, q, vn))
    e.st = fitted.copy()
    notes = ["gibbs_fitted", "map_log_likelihood"] if last == "fit_gibbs" \
        else ["var_fitted", "var_converged"]
    for a in notes:
        v = field(e, m, a)
        if v is not None and "OLD" in e.deep_labels(v):
            hit.append("attribute " + a)
        elif v is not None:
            rep.ok("%s: %s" % (label, a))
    if hit:
        keep = [f for f in old_fields(e, m)]
        rep.bad("%s keeps earlier state (%s)" % (last, ", ".join(keep)[:200]),
                "%s: %s depend on the earlier fit; attributes still holding "
                "its values: %s" % (label, ", ".join(hit[:6]),
                                    ", ".join(keep)[:400]))


def c06(rep):
    rep.rule = ("dependence analysis (data and control): with every value "
                "produced before the cold fit labelled, no query result, "
                "getter result, convergence flag or MAP record after it "
                "carries the label")
    rep.assumptions = ["the random generator is shared by design and "
                       "exempt"]
    e0 = engine()
    tasks = []
    for cls in mixtures(e0):
        for vi in range(len(variants(e0, cls))):
            tasks.append((c06_mixture, (cls.name, vi)))
    slow_first(tasks)
    run_tasks(rep, tasks)


# ------------------------------------------------------------------ C07
RECORDS = ("sim_params", "n_groups", "n_atoms", "n_log_likelihood",
           "affinity_matrix", "total_saved_steps", "map_sim_params",
           "map_log_likelihood")
GROW = ("list.append", "list.extend", "list.insert", "augmented assignment",
        "dict.setdefault", "dict.update", "item store", "list.__iadd__")
GIBBS_STATE = ("d", "theta", "u")
VAR_STATE = ("var_d", "var_theta", "var_k")


def c07_mixture(rep, cname, meth, vi):
    e = engine()
    cls = by_name(e, cname)
    m, ex = build(e, cls, **variants(e, cls)[vi])
    if m is None:
        rep.skip("%s cannot be constructed" % cname)
        return
    mloc = one(m)
    wms = set(field(e, m, "weight_model").refs)
    base = e.st
    gibbs = meth == "fit_gibbs"
    state = GIBBS_STATE if gibbs else VAR_STATE
    prefix = [k for k, v in KIND.items() if v == meth][0]
    for init in documented(e, cls, meth, "init_method"):
        e.st = base.copy()
        if not c06_phase1(e, m, cls, [(meth, init)], {}):
            rep.count("fit_impossible")
            continue
        fitted = e.st
        missing = [a for a in state if a not in e.heap(mloc).fields]
        if missing:
            rep.skip("%s has no attribute %s" % (cname, missing[0]))
            continue
        for init2 in documented(e, cls, meth, "init_method"):
            for given in (False, True):
                e.st = fitted.copy()
                kw = {"warm_start": const(True), "init_method": const(init2)}
                if given:
                    kw["init_groups" if gibbs else "n_groups"] = \
                        scalar("int")
                label = "%s.%s(warm_start, %s) after %s" % (
                    cname, meth, init2, init)
                c07_warm(rep, e, m, mloc, wms, label, meth, kw, state,
                         gibbs)
    rep.engine(e)


def c07_warm(rep, e, m, mloc, wms, label, meth, kw, state, gibbs):
    bad = []
    seen = {"append": 0, "state": 0, "writes": 0}
    rec_locs = {}
    for a in RECORDS:
        v = field(e, m, a)
        for l in (v.refs if v is not None else ()):
            rec_locs[l] = a
    st_locs = {}
    for a in state:
        v = field(e, m, a)
        for l in (v.refs if v is not None else ()):
            st_locs[l] = a
    pre = set(e.st.heap)

    def hook(kind, data, where):
        loc = data["loc"]
        f = e.func_name()
        if kind == "setattr":
            name, val = data["name"], data["val"]
            if loc == mloc or loc in wms:
                seen["writes"] += 1
            old = "OLD" in e.deep_labels(val)
            if loc == mloc:
                if gibbs and name in RECORDS:
                    if name == "sim_params":
                        seen["append"] += 1
                    prev = data["old"]
                    if not old and prev is not None and \
                            "OLD" in e.deep_labels(prev):
                        bad.append((where, f, "drops the recorded %s" % name))
                if name in state:
                    seen["state"] += 1
                    if not old:
                        bad.append((where, f, "replaces %s by a value that "
                                    "does not come from the previous run"
                                    % name))
                if name == "weight_model":
                    bad.append((where, f, "replaces the weighting model"))
            elif loc in wms and e.loop_depth == 0:
                prev = data["old"]
                if not old and prev is not None and not same_value(
                        prev, val) and "OLD" in e.deep_labels(prev):
                    bad.append((where, f, "resets the weighting model's %s "
                                "before the first step" % name))
        else:
            how = data["how"]
            if loc in rec_locs and gibbs:
                if rec_locs[loc] == "sim_params":
                    seen["append"] += 1
                if how not in GROW:
                    bad.append((where, f, "removes from the recorded %s (%s)"
                                % (rec_locs[loc], how)))
            if loc in st_locs and e.loop_depth == 0 and how not in GROW:
                bad.append((where, f, "changes %s in place (%s) before the "
                            "first step" % (st_locs[loc], how)))
    e.raw_hooks.append(hook)
    try:
        e.method(m, meth, obs(e, "array2", "ywarm"), **kw)
    finally:
        e.raw_hooks.remove(hook)
    rep.count("scenarios")
    rep.count("writes_examined", seen["writes"])
    for where, f, what in bad:
        rep.bad("%s %s" % (where, f), "%s: %s" % (label, what))
    if e.st is None:
        rep.bad("%s cannot be warm started" % meth,
                "%s has no path to its end" % label)
        return
    if gibbs and not seen["append"]:
        rep.bad("%s records nothing" % meth,
                "%s: no path adds to the recorded draws" % label)
    elif not seen["state"]:
        rep.bad("%s makes no step" % meth,
                "%s: no path updates %s" % (label, ", ".join(state)))
    elif not bad:
        rep.ok(label)
    if gibbs:
        for a in ("sim_params", "map_sim_params", "map_log_likelihood"):
            v = field(e, m, a)
            if v is None or "OLD" not in e.deep_labels(v):
                rep.bad("warm %s loses %s" % (meth, a),
                        "%s: afterwards %s holds nothing of the previous "
                        "run" % (label, a))
            else:
                rep.ok()


def c07(rep):
    rep.rule = ("with the previous run's state labelled, a warm fit makes no "
                "write that removes from the record, replaces the MAP record "
                "or the sampler state by an unrelated value, or resets the "
                "weighting model before the first step; it appends to the "
                "record and updates the state")
    e0 = engine()
    tasks = []
    for cls in mixtures(e0):
        for meth in KIND.values():
            for vi in range(len(variants(e0, cls))):
                tasks.append((c07_mixture, (cls.name, meth, vi)))
    slow_first(tasks)
    run_tasks(rep, tasks)


# ------------------------------------------------------------------ C17
DATA_ATTRS = {"y", "_column_names", "sim_params", "n_groups", "n_atoms",
              "affinity_matrix", "total_saved_steps", "map_sim_params",
              "map_log_likelihood", "d", "theta", "u", "var_d", "var_theta",
              "var_k", "n_log_likelihood"}


def bad_inputs(e):
    def box(kind):
        v = e.ext_value(kind, "y" + kind)
        return v
    return [("str", lambda: const("data")), ("dict", lambda: box("dict")),
            ("set", lambda: box("set")), ("tuple", lambda: box("tuple")),
            ("bytes", lambda: scalar("bytes"))]


def c17_mixture(rep, cname, meth):
    e = engine()
    cls = by_name(e, cname)
    m, ex = build(e, cls, **variants(e, cls)[0])
    if m is None:
        rep.skip("%s cannot be constructed" % cname)
        return
    mloc = one(m)
    wms = set(field(e, m, "weight_model").refs)
    base = e.st
    prefix = [k for k, v in KIND.items() if v == meth][0]
    init = documented(e, cls, meth, "init_method")[0]
    f = need(e, cls, meth)
    fitted = None
    for kind in OBS_KINDS + ["list_arrays"]:
        e.st = base.copy()
        v, ex = e.method(m, meth, obs(e, kind), **fit_kw(e, cls, meth, init))
        rep.count("scenarios")
        if e.st is None:
            te = [x for x in ex if is_sub(e, x[0], "TypeError")]
            if kind == "array2" and not te:
                rep.count("family_not_fittable")
                break
            rep.bad("%s rejects %s" % (f.qual, kind),
                    "%s.%s does not accept observations given as %s: %s" % (
                        cname, meth, kind, exits_key(ex)[:3]))
            continue
        y = field(e, m, "y")
        nd = e.arr_ndim(y) if y is not None else None
        if nd == 2:
            rep.ok("%s.%s(%s): y has two dimensions" % (cname, meth, kind))
        elif nd is not None:
            rep.bad("%s %s" % (f.qual, kind), "%s.%s(%s) keeps observations "
                    "with %d dimensions" % (cname, meth, kind, nd))
        else:
            rep.ok("%s.%s(%s) accepted" % (cname, meth, kind))
        if kind == "array2":
            fitted = e.st
    if fitted is None:
        rep.engine(e)
        return
    # queries
    for q, fn in sorted(queries(e, cls, prefix).items()):
        names = [n for n, _ in params(fn)]
        if "y" not in names:
            continue
        for kind in OBS_KINDS + ["list_arrays"]:
            e.st = fitted.copy()
            v, ex = e.method(m, q, y=obs(e, kind, "q"))
            rep.count("scenarios")
            if e.st is None:
                rep.bad("%s rejects %s" % (fn.qual, kind),
                        "%s.%s does not accept points given as %s: %s" % (
                            cname, q, kind, exits_key(ex)[:3]))
            else:
                rep.ok("%s.%s(%s) accepted" % (cname, q, kind))
        for kind, mk in bad_inputs(e):
            e.st = fitted.copy()
            v, ex = e.method(m, q, y=mk())
            c17_rejected(rep, e, cname, fn, q, kind, ex, [])
    for kind, mk in bad_inputs(e) + [("none", lambda: NONE),
                                     ("number", lambda: scalar("int"))]:
        for warm in (False, True):
            e.st = fitted.copy()
            writes = []

            def hook(k, data, where):
                if data["loc"] == mloc and k == "setattr" and \
                        data["name"] in DATA_ATTRS:
                    writes.append((where, e.func_name(), data["name"]))
                elif data["loc"] in wms and k == "setattr":
                    writes.append((where, e.func_name(), "weight_model.%s"
                                   % data["name"]))
            e.raw_hooks.append(hook)
            kw = fit_kw(e, cls, meth, init)
            if warm:
                kw["warm_start"] = const(True)
            v, ex = e.method(m, meth, mk(), **kw)
            e.raw_hooks.remove(hook)
            c17_rejected(rep, e, cname, f, meth, kind, ex, writes)
    rep.engine(e)


def c17_rejected(rep, e, cname, fn, name, kind, ex, writes):
    rep.count("scenarios")
    label = "%s.%s(%s)" % (cname, name, kind)
    odd = [x for x in ex if not is_sub(e, x[0], "TypeError")]
    if e.st is not None:
        rep.bad("%s accepts %s" % (fn.qual, kind),
                "%s ends normally instead of raising TypeError" % label)
    elif odd:
        rep.bad("%s %s with %s" % (odd[0][2], fn.qual, kind),
                "%s raises %s" % (label, exits_key(odd)[:3]))
    elif writes:
        rep.bad("%s %s" % writes[0][:2], "%s: %s is changed before the "
                "TypeError" % (label, writes[0][2]))
    elif not ex:
        rep.skip("%s: no exit found" % label)
    else:
        rep.ok("%s raises TypeError" % label)


def c17_eff(rep):
    e0 = engine()
    tasks = []
    for cls in mixtures(e0):
        for meth in KIND.values():
            tasks.append((c17_mixture, (cls.name, meth)))
    slow_first(tasks)
    return tasks


def c17(rep):
    rep.rule = ("every accepted form reaches a normal exit of both fits and "
                "of every query and is stored with two dimensions; every "
                "other type leaves only through TypeError, before any write "
                "to data, draws or the weighting model")
    from .checks_prob import values_c17
    rep.rule += ("; the answers extracted from the source are the same "
                 "formulas whatever form the observations and points have")
    run_tasks(rep, c17_eff(rep) + values_c17())


# ------------------------------------------------------------------ C18
def base_params(e):
    b = by_name(e, "BaseGaussianMixture")
    return [(n, d) for n, d in params(method(e, b, "__init__"))
            if n != "weight_model"]


def sig(e, a, depth=0):
    """Comparable description of a value, without identities."""
    if a is None:
        return None
    parts = []
    for l in a.refs:
        h = e.heap(l)
        if h.kind in ("gen", "rstate") or l.step == "caller":
            parts.append(("obj", str(l.desc)))
        elif depth > 4:
            parts.append((h.kind,))
        else:
            its = tuple(sorted((str(k), sig(e, v, depth + 1))
                               for k, v in (h.items or {}).items()))
            parts.append((h.kind, h.cls.name if h.cls else None, h.ndim,
                          sig(e, h.elem, depth + 1), its, tuple(sorted(
                              map(str, h.lab)))))
    return (tuple(sorted(map(str, parts))), tuple(sorted(a.sc)),
            None if a.consts is None else tuple(sorted(map(str, a.consts))),
            tuple(sorted(map(str, a.lab))))


def setting_values(e, cls, wcls, mode):
    """name -> thunk of a value for every setting, by scenario."""
    names = {}
    for n, d in params(method(e, cls, "__init__")):
        names.setdefault(n, d)
    for n, d in base_params(e):
        names.setdefault(n, d)
    names.pop("weight_model", None)
    names.pop("rng", None)
    out = {}
    for i, (n, d) in enumerate(sorted(names.items())):
        dv = d.value if isinstance(d, ast.Constant) else None
        lab = frozenset(["set:" + n])
        if n in ("mu_prior", "psi_prior"):
            if mode != "defaults":
                out[n] = (lambda n=n: obs_array(e, n, "array"))
        elif isinstance(dv, bool):
            out[n] = (lambda lab=lab, dv=dv: const(not dv, lab))
        elif isinstance(dv, str):
            opts = sorted(option_values_of(e, cls, n) - {dv})
            out[n] = (lambda lab=lab, v=(opts or [dv])[0]: const(v, lab))
        elif n == "nu_prior" or isinstance(dv, (int, float)):
            isint = isinstance(dv, int) and n in scen.INT_PARAMS
            num = {"total_iter": 1013, "burn_in": 17,
                   "subsample_steps": 3}.get(n)
            if num is None:
                num = (2 + i) if isint else (0.5 if n == "x" else
                                             0.25 + 0.03125 * i)
            out[n] = (lambda lab=lab, v=num: const(v, lab))
    return out


def option_values_of(e, cls, n):
    return scen.option_values_all(e, cls, n)


def c18_mixture(rep, cname):
    e = engine()
    cls = by_name(e, cname)
    wcls = scen.weight_class_of(e, cls)
    bcls = by_name(e, "BaseGaussianMixture")
    if wcls is None:
        rep.skip("%s: weighting model not found" % cname)
        return
    wnames = [n for n, _ in params(method(e, wcls, "__init__"))]
    bnames = [n for n, _ in base_params(e)]
    mnames = [n for n, _ in params(method(e, cls, "__init__"))]
    full = setting_values(e, cls, wcls, "full")
    # every scenario: (label, {setting: thunk})
    scen_list = [("all settings given", full), ("no setting given", {})]
    for n in sorted(full):
        scen_list.append(("only %s given" % n, {n: full[n]}))
        if n in ("total_iter", "mu_prior", "psi_prior"):
            continue
        for z in (0, False):
            v = full[n]().consts
            k = next(iter(v))[0] if v and len(v) == 1 else None
            if k in ("int", "float") and z == 0 and z is not False or k == "bool" and \
                    z is False:
                zz = {"int": 0, "float": 0.0, "bool": False}[k]
                scen_list.append(("%s=%r" % (n, zz), {
                    n: (lambda n=n, zz=zz: const(
                        zz, frozenset(["set:" + n])))}))
    start = e.st
    for label, sc in scen_list:
        e.st = start.copy()
        rng = e.ext_value("gen", "rng")
        kw = {n: t() for n, t in sc.items()}
        st0 = e.st
        n0 = len(e.events)
        m, ex = e.construct(cls, rng=rng, **kw)
        rep.count("scenarios")
        badkw = [ev for ev in e.events[n0:] if ev.kind in ("badkwarg",
                                                           "missingarg")]
        mst = e.st
        # the same settings given to the two parts directly
        wkw = {n: v for n, v in kw.items() if n in wnames}
        bkw = {n: v for n, v in kw.items() if n in bnames}
        other = [n for n in kw if n not in wnames and n not in bnames]
        for n in other:
            rep.bad("%s.%s is not a setting of its parts" % (cname, n),
                    "%s accepts %s, which neither %s nor the base has" % (
                        cname, n, wcls.name))
        e.st = st0.copy()
        w, wex = e.construct(wcls, rng=rng, **wkw)
        b = None
        if w is not None and e.st is not None:
            b, bex = e.construct(bcls, weight_model=w, rng=rng, **bkw)
        dst = e.st if b is not None else None
        what = "%s(%s)" % (cname, label)
        if badkw:
            ev = badkw[0]
            rep.bad("%s does not accept %s" % (cname, ", ".join(
                ev.data.get("names", (ev.data.get("name"),)))),
                "%s: %s rejects the keyword(s)" % (what, ev.data["func"]))
            continue
        if (mst is None) != (dst is None):
            rep.bad("%s construction" % cname, "%s %s although the parts %s "
                    "these settings" % (
                        what, "fails" if mst is None else "succeeds",
                        "accept" if mst is None else "reject"))
            continue
        if mst is None:
            rep.ok("%s rejected by both" % what)
            continue
        e.st = mst
        mf = {n: sig(e, v) for n, v in e.heap(one(m)).fields.items()}
        wm = field(e, m, "weight_model")
        if wm is None or len(wm.refs) != 1:
            rep.skip("%s: weighting model not unique" % what)
            continue
        wf = {n: sig(e, v) for n, v in e.heap(one(wm)).fields.items()}
        raw = {n: v for n, v in e.heap(one(m)).fields.items()}
        e.st = dst
        bf = {n: sig(e, v) for n, v in e.heap(one(b)).fields.items()}
        df = {n: sig(e, v) for n, v in e.heap(one(w)).fields.items()}
        for n in sorted(set(wf) | set(df)):
            if wf.get(n) != df.get(n):
                rep.bad("%s weight_model.%s" % (cname, n),
                        "%s: the weighting model's %s is %s, given directly "
                        "it is %s" % (what, n, wf.get(n), df.get(n)))
            else:
                rep.ok()
        for n in sorted(bf):
            if n == "weight_model":
                continue
            if bf[n] != mf.get(n):
                rep.bad("%s.%s" % (cname, n),
                        "%s: %s is %s, given directly to the base it is %s"
                        % (what, n, mf.get(n), bf[n]))
            else:
                rep.ok("%s: %s" % (what, n))
        for n in set(mnames) & set(mf) - set(bnames):
            if n in df and mf[n] != df[n]:
                rep.bad("%s.%s differs from its weighting model's" % (
                    cname, n), "%s: %s is %s, in the weighting model %s" % (
                        what, n, mf[n], df[n]))
    rep.engine(e)


def c18(rep):
    rep.rule = ("for every setting, given alone, together with all others, "
                "or with a falsy value, the abstract fields of the mixture "
                "and of its weighting model equal those of a directly "
                "constructed base and weighting model")
    e0 = engine()
    run_tasks(rep, [(c18_mixture, (cls.name,)) for cls in mixtures(e0)])


# ------------------------------------------------------------------ C19
ADVERTISED = {"fit_gibbs": ["kmeans", "random", "variational"],
              "fit_variational": ["kmeans", "random"],
              "p_method": ["static", "independent", "geometric",
                           "max-likelihood", "inverse-sampling"]}
BOGUS = ["no-such-option", "", "K-MEANS", None, 0]


def union(a, b):
    return list(a) + [x for x in b if x not in a]


def c19_fit(rep, cname, meth):
    e = engine()
    cls = by_name(e, cname)
    f = need(e, cls, meth)
    m, ex = build(e, cls, **variants(e, cls)[0])
    if m is None:
        rep.skip("%s cannot be constructed" % cname)
        return
    base = e.st
    wm = field(e, m, "weight_model")
    supports_var = variational_supported(e, wm)
    states = [("new", base)]
    e.st = base.copy()
    e.method(m, meth, obs(e, "array2"), **fit_kw(e, cls, meth, "kmeans"))
    if e.st is not None:
        states.append(("fitted", e.st))
    elif meth == "fit_gibbs":
        rep.bad("%s kmeans" % f.qual, "%s.%s has no normal exit" % (
            cname, meth))
    refuse = set()
    good = union(ADVERTISED[meth], documented(e, cls, meth, "init_method"))
    others = [v for m2 in KIND.values() for v in union(
        ADVERTISED[m2], documented(e, cls, m2, "init_method"))
        if v not in good]
    for sn, st in states:
        for b in list(BOGUS) + others:
            for warm in (False, True):
                e.st = st.copy()
                pre = set(e.st.heap)
                n0 = len(e.events)
                kw = {"init_method": const(b)}
                if warm:
                    kw["warm_start"] = const(True)
                if meth == "fit_variational":
                    kw["n_groups"] = scalar("int")
                writes = []

                def hook(k, data, where):
                    if data["loc"] in pre:
                        writes.append((where, e.func_name(),
                                       data.get("name") or data.get("how")))
                y = obs(e, "array2")
                e.raw_hooks.append(hook)
                v, ex = e.method(m, meth, y, **kw)
                e.raw_hooks.remove(hook)
                draws = [ev for ev in e.events[n0:] if ev.kind == "draw"]
                rep.count("scenarios")
                label = "%s.%s(init_method=%r%s) on a %s object" % (
                    cname, meth, b, ", warm" if warm else "", sn)
                if e.st is not None:
                    rep.bad("%s accepts unknown init_method" % f.qual,
                            "%s ends normally" % label)
                elif writes:
                    rep.bad("%s %s" % writes[0][:2], "%s: %s is written "
                            "before the value is rejected" % (
                                label, writes[0][2]))
                elif draws:
                    rep.bad("%s %s" % (draws[0].where, draws[0].func),
                            "%s: draws before the value is rejected" % label)
                elif not ex:
                    rep.skip("%s: no exit found" % label)
                else:
                    refuse |= {(x[0], x[2]) for x in ex}
                    rep.ok(label)
    for val in union(ADVERTISED[meth], documented(e, cls, meth,
                                                  "init_method")):
        e.st = base.copy()
        v, ex = e.method(m, meth, obs(e, "array2"),
                         **fit_kw(e, cls, meth, val))
        rep.count("scenarios")
        label = "%s.%s(init_method=%r)" % (cname, meth, val)
        hit = [x for x in ex if (x[0], x[2]) in refuse]
        needs_var = val == "variational" or meth == "fit_variational"
        if hit:
            rep.bad("%s refuses %s" % (f.qual, val), "%s reaches the "
                    "rejection at %s" % (label, hit[0][2]))
        elif e.st is None and (not needs_var or supports_var):
            rep.bad("%s %s" % (f.qual, val), "%s has no normal exit: %s" % (
                label, exits_key(ex)[:3]))
        elif e.st is None and not any(is_sub(e, x[0], "NotImplementedError")
                                      for x in ex):
            rep.bad("%s %s" % (f.qual, val), "%s: %s" % (
                label, exits_key(ex)[:3]))
        else:
            rep.ok(label)
    rep.engine(e)


def variational_supported(e, wm):
    for l in (wm.refs if wm is not None else ()):
        f = method(e, e.heap(l).cls, "fit_variational")
        if f is not None and f.cls is not None and \
                f.cls.name != "BaseWeight":
            return True
    return False


def c19_p_method(rep, cname):
    e = engine()
    cls = by_name(e, cname)
    start = e.st
    init = method(e, cls, "__init__")
    mixture = any(c.name == "BaseGaussianMixture" for c in cls.mro)
    for b in BOGUS:
        e.st = start.copy()
        m, ex = build(e, cls, x=const(0.5), p_method=const(b))
        rep.count("scenarios")
        if e.st is not None:
            rep.bad("%s accepts unknown p_method" % cname,
                    "%s(p_method=%r) is accepted at construction" % (
                        cname, b))
        elif not ex:
            rep.skip("%s(p_method=%r): no exit" % (cname, b))
        else:
            rep.ok("%s(p_method=%r) rejected" % (cname, b))

    def ops(m, wm):
        out = []
        st = e.st
        for name, args in [("random", [scalar("int")]),
                           ("complete", [scalar("int")]),
                           ("fit+random", [])]:
            e.st = st.copy()
            if name == "fit+random":
                e.method(wm, "random", scalar("int"))
                if e.st is None:
                    continue
                e.method(wm, "fit", e.ext_value("ndarray", "d", ndim=1))
                if e.st is None:
                    continue
                v, ex = e.method(wm, "random")
            else:
                v, ex = e.method(wm, name, *args)
            out.append((name, e.st, ex))
        return out
    # where an unknown value would end during sampling
    e.st = start.copy()
    vals = union(ADVERTISED["p_method"], sorted(
        scen.option_values_all(e, cls, "p_method")))
    ref_sites = set()
    m, ex = build(e, cls, x=const(0.5), p_method=const(vals[0]))
    if m is not None:
        wm = field(e, m, "weight_model") if mixture else m
        if "p_method" in e.heap(one(wm)).fields:
            h = e.heap(one(wm))
            fl = dict(h.fields)
            fl["p_method"] = const("no-such-option")
            e.st.heap[one(wm)] = h.copy(fields=fl)
            for name, st, ex in ops(m, wm):
                ref_sites |= {(x[0], x[2]) for x in ex}
    # failures every value can reach have nothing to do with the option
    normal = None
    for val in vals:
        e.st = start.copy()
        m, ex = build(e, cls, x=const(0.5), p_method=const(val))
        if m is None:
            continue
        wm = field(e, m, "weight_model") if mixture else m
        sites = {x[2] for _, _, exs in ops(m, wm) for x in exs}
        normal = sites if normal is None else normal & sites
    normal = normal or set()
    for val in vals:
        for x in (const(0), const(0.5), const(1)):
            e.st = start.copy()
            m, ex = build(e, cls, x=x, p_method=const(val))
            rep.count("scenarios")
            label = "%s(p_method=%r, x=%r)" % (cname, val, x.const())
            if m is None:
                if val in ADVERTISED["p_method"]:
                    rep.bad("%s refuses p_method %s" % (cname, val),
                            "%s is rejected: %s" % (label, exits_key(ex)[:2]))
                continue
            wm = field(e, m, "weight_model") if mixture else m
            for name, st, ex in ops(m, wm):
                hit = [z for z in ex if (z[0], z[2]) in ref_sites and
                       not z[2] in normal]
                if x.const() == 0.5 and hit:
                    rep.bad("%s p_method %s unknown later" % (cname, val),
                            "%s: %s ends at the unknown-option failure %s" % (
                                label, name, hit[0][2]))
                elif st is None:
                    rep.bad("%s p_method %s fails" % (cname, val),
                            "%s: %s has no normal exit: %s" % (
                                label, name, exits_key(ex)[:2]))
                else:
                    rep.ok("%s: %s" % (label, name))
    rep.engine(e)


def c19(rep):
    rep.rule = ("every advertised option value reaches a normal exit and "
                "never the rejection; every other value leaves by an "
                "exception before any write to the object and any draw; "
                "every value accepted at construction is handled when used")
    e0 = engine()
    tasks = []
    for cls in mixtures(e0):
        for meth in KIND.values():
            tasks.append((c19_fit, (cls.name, meth)))
    for cls in mixtures(e0) + weights(e0):
        if "p_method" in [n for n, _ in params(method(e0, cls, "__init__"))]:
            tasks.append((c19_p_method, (cls.name,)))
    slow_first(tasks)
    run_tasks(rep, tasks)


# ------------------------------------------------------------------ C20
VAR_FAMILY = ("fit_variational", "variational_mean_log_w_j",
              "variational_mean_log_p_d__w", "variational_mean_log_p_w",
              "variational_mean_log_q_w", "variational_mean_w_j",
              "variational_mode_w_j")


def doc_classes(prog):
    """{module: [class]} listed in the documentation's model index."""
    import os
    import re
    path = os.path.join(prog.repo, "docs", "models.rst")
    if not os.path.exists(path):
        raise AnalysisBroken("docs/models.rst is missing")
    out, mod, listing = {}, None, False
    for line in open(path):
        m = re.match(r"\.\. currentmodule::\s*(\S+)", line)
        if m:
            mod, listing = m.group(1), False
            continue
        m = re.match(r"\.\. auto(class|module)::\s*(\S+)", line)
        if m:
            out.setdefault(mod, []).append(m.group(2).split(".")[-1])
            continue
        if re.match(r"\.\. autosummary::", line):
            listing = True
            continue
        if listing:
            if line.strip() and not line.startswith(" "):
                listing = False
            m = re.match(r"\s+([A-Za-z_]\w*)\s*$", line)
            if m and listing:
                out.setdefault(mod, []).append(m.group(1))
    return out


def trivial_body(f):
    """The function does nothing but pass / docstring / raise."""
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and
         isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in b) or (
        len(b) == 1 and isinstance(b[0], ast.Expr) and isinstance(
            b[0].value, ast.Call) and isinstance(
                b[0].value.func, ast.Attribute) and isinstance(
                    b[0].value.func.value, ast.Call) and getattr(
                        b[0].value.func.value.func, "id", "") == "super")


def c20_families(e):
    fam = [n for n in VAR_FAMILY]
    b = by_name(e, "BaseWeight")
    for n in public_methods(e, b):
        if "variational" in n and n not in fam:
            fam.append(n)
    return fam


def c20(rep):
    rep.rule = ("class table: concreteness (abstract set after MRO "
                "resolution), overriding of the drawing, completing and "
                "likelihood methods with a non-trivial body, all-or-none "
                "overriding of the variational family, construction of each "
                "mixture with its weighting model, equality of documented "
                "and exported class names")
    e = engine()
    ws, ms = weights(e), mixtures(e)
    start = e.st
    fam = c20_families(e)
    for cls in ws + ms:
        e.st = start.copy()
        ab = e.abstract_methods(cls)
        if ab:
            rep.bad("%s is abstract" % cls.name, "%s leaves %s abstract" % (
                cls.name, ", ".join(sorted(ab))))
        else:
            rep.ok("%s is concrete" % cls.name)
        m, ex = build(e, cls)
        if m is None:
            rep.bad("%s construction" % cls.name,
                    "%s cannot be constructed: %s" % (
                        cls.name, exits_key(ex)[:3]))
        else:
            rep.ok("%s constructs" % cls.name)
    for cls in ws:
        for n in ("random", "complete", "weighting_log_likelihood"):
            f = method(e, cls, n)
            if f is None or f.cls is None or f.cls.name == "BaseWeight" or \
                    trivial_body(f):
                rep.bad("%s.%s missing" % (cls.name, n),
                        "%s does not implement %s" % (cls.name, n))
                continue
            e.st = start.copy()
            m, ex = build(e, cls)
            if m is None:
                continue
            e.method(m, "random", scalar("int"))
            if e.st is None:
                rep.bad("%s.random(n)" % cls.name, "%s.random(n) has no "
                        "normal exit" % cls.name)
                continue
            args = [scalar("int")] if n != "weighting_log_likelihood" else []
            v, ex = e.method(m, n, *args)
            if v is None or e.st is None:
                rep.bad("%s.%s" % (cls.name, n), "%s.%s has no normal exit: "
                        "%s" % (cls.name, n, exits_key(ex)[:3]))
            elif is_none(v):
                rep.bad("%s.%s" % (cls.name, n), "%s.%s returns None" % (
                    cls.name, n))
            else:
                rep.ok("%s.%s implemented" % (cls.name, n))
        have, lack = [], []
        for n in fam:
            f = method(e, cls, n)
            ok = f is not None and f.cls is not None and \
                f.cls.name != "BaseWeight" and not trivial_body(f)
            (have if ok else lack).append(n)
        if have and lack:
            rep.bad("%s variational family" % cls.name,
                    "%s implements %s but not %s" % (
                        cls.name, ", ".join(have), ", ".join(lack)))
        else:
            rep.ok("%s: %s" % (cls.name, "whole variational family" if have
                               else "no variational method"))
        if have and not lack:
            e.st = start.copy()
            m, ex = build(e, cls)
            v, ex = e.method(m, "fit_variational",
                             e.ext_value("ndarray", "vd", ndim=2))
            if e.st is None:
                rep.bad("%s.fit_variational" % cls.name, "%s.fit_variational "
                        "has no normal exit: %s" % (cls.name,
                                                    exits_key(ex)[:3]))
                continue
            st = e.st
            for n in fam:
                f = method(e, cls, n)
                if n == "fit_variational":
                    continue
                e.st = st.copy()
                kw = {p: scalar("int") for p, d in params(f) if d is None}
                v, ex = e.method(m, n, **kw)
                if v is None or e.st is None:
                    rep.bad("%s.%s" % (cls.name, n), "%s.%s has no normal "
                            "exit after fit_variational: %s" % (
                                cls.name, n, exits_key(ex)[:3]))
                elif is_none(v):
                    rep.bad("%s.%s" % (cls.name, n), "%s.%s returns None"
                            % (cls.name, n))
                else:
                    rep.ok("%s.%s answers" % (cls.name, n))
    e.st = start.copy()
    built = {}
    for cls in ms:
        w = scen.weight_class_of(e, cls)
        if w is not None:
            built.setdefault(w.name, []).append(cls.name)
    for cls in ws:
        if cls.name not in built:
            rep.bad("no mixture over %s" % cls.name,
                    "no public mixture class builds a %s" % cls.name)
        else:
            rep.ok("%s -> %s" % (cls.name, built[cls.name]))
    # documentation and exports
    docs = doc_classes(e.prog)
    for modname, base in (("pyrichlet.weight_models", "BaseWeight"),
                          ("pyrichlet.mixture_models",
                           "BaseGaussianMixture")):
        listed = docs.get(modname, [])
        if not listed:
            raise AnalysisBroken("docs/models.rst lists nothing for %s" %
                                 modname)
        ns = e.mod_ns.get(modname) or {}
        topns = scen.top(e)
        for n in listed:
            for where, space in ((modname, ns), ("pyrichlet", topns)):
                v = space.get(n)
                if v is None or not any(isinstance(f, Cls) for f in v.fns):
                    rep.bad("%s not importable from %s" % (n, where),
                            "docs/models.rst documents %s.%s, which is not "
                            "importable from %s" % (modname, n, where))
                else:
                    rep.ok("%s.%s importable" % (where, n))
        for space in (ns, topns):
            for n, v in sorted(space.items()):
                for f in v.fns:
                    if isinstance(f, Cls) and not n.startswith("_") and any(
                            c.name == base for c in f.mro):
                        if n not in listed:
                            rep.bad("%s undocumented" % n, "%s is importable "
                                    "but missing from docs/models.rst" % n)
                        else:
                            rep.ok()
        # every model defined in a module of the subpackage is exported
        for mn, mns in sorted(e.mod_ns.items()):
            if not mn.startswith(modname + "."):
                continue
            for n, v in sorted(mns.items()):
                for f in v.fns:
                    if isinstance(f, Cls) and f.module.name == mn and \
                            not n.startswith("_") and any(
                                c.name == base for c in f.mro):
                        if n not in topns:
                            rep.bad("%s not exported" % n, "%s defines %s "
                                    "but the package does not export it" % (
                                        mn, n))
                        else:
                            rep.ok()
    rep.engine(e)
