"""Models of library functions for the effect/alias/taint analysis.

Every model states: which argument may be aliased by the result, which argument
is modified in place, what is drawn from which generator, and the rank of the
result when it is known.  Unknown numpy/scipy functions default to "fresh
result depending on all arguments, nothing modified" and are listed in the
evidence.
"""
E = frozenset()

# result may be (or be a view of) the first argument
ALIAS = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray",
         "atleast_1d", "atleast_2d", "atleast_3d", "squeeze", "ravel",
         "reshape", "transpose", "swapaxes", "moveaxis", "rollaxis",
         "expand_dims", "broadcast_to", "flip", "flipud", "fliplr", "rot90",
         "diagonal", "real", "imag", "require", "asmatrix", "matrix_transpose",
         "permute_dims", "asarray_chkfinite", "split", "array_split",
         "hsplit", "vsplit", "nan_to_num_nocopy", "asmatrix", "unstack"}
# first argument modified in place
MUTATORS = {"copyto", "put", "place", "putmask", "fill_diagonal",
            "put_along_axis"}
SCALAR_RED = {"sum", "prod", "mean", "max", "min", "amax", "amin", "std",
              "var", "median", "argmax", "argmin", "all", "any", "ptp",
              "nansum", "nanmax", "nanmin", "nanmean", "count_nonzero",
              "average", "nanargmax"}
INT_RED = {"argmax", "argmin", "count_nonzero"}
SHAPE_FROM_ARG = {"zeros", "ones", "empty", "full"}
LIKE = {"zeros_like", "ones_like", "empty_like", "full_like"}
SAME_RANK = {"log", "exp", "sqrt", "abs", "absolute", "square", "negative",
             "log1p", "expm1", "sign", "floor", "ceil", "rint", "argsort",
             "sort", "isnan", "isfinite", "isinf", "logical_not", "digamma",
             "psi", "loggamma", "gammaln", "copy", "inv", "cumsum_axis",
             "clip", "reciprocal", "round", "around", "delete", "nan_to_num"}
RANK1 = {"bincount", "linspace", "arange", "cumsum", "cumprod", "unique",
         "repeat", "append", "insert", "nonzero", "flatnonzero",
         "searchsorted", "diff", "histogram", "delete"}
RANK2 = {"outer", "eye", "identity", "cov", "corrcoef", "vstack", "tril",
         "triu", "column_stack"}
NDARRAY_MUT = {"fill", "sort", "resize", "partition", "put", "itemset",
               "setflags", "setfield"}
NDARRAY_VIEW = {"reshape", "ravel", "view", "transpose", "squeeze",
                "swapaxes", "diagonal"}
NDARRAY_RED = SCALAR_RED | {"trace"}
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort",
            "reverse"}
DICT_MUT = {"setdefault", "update", "pop", "clear", "popitem"}
SET_MUT = {"add", "discard", "remove", "clear", "update", "pop"}

GEN_DRAWS = None  # every method of a Generator except these is a draw
GEN_NONDRAW = {"bit_generator", "spawn", "__getstate__"}

ENTROPY_MODULES = ("random.", "secrets.", "uuid.", "time.", "datetime.",
                   "os.urandom", "os.getpid", "os.times", "os.getrandom",
                   "threading.get_ident", "tempfile.")
ENTROPY_BUILTINS = {"id", "hash", "input"}

# library estimators that draw random numbers unless given a random_state
RANDOM_ESTIMATORS = {
    "KMeans", "MiniBatchKMeans", "BisectingKMeans", "SpectralClustering",
    "GaussianMixture", "BayesianGaussianMixture", "PCA", "TruncatedSVD",
    "FastICA", "NMF", "TSNE", "MDS", "SpectralEmbedding",
    "AffinityPropagation", "k_means", "kmeans_plusplus",
    "spectral_clustering", "RandomForestClassifier", "shuffle", "resample",
    "train_test_split", "SpectralBiclustering", "SpectralCoclustering",
    "MiniBatchDictionaryLearning", "make_blobs"}


def tail(path):
    return path.split(".")[-1]


class ExtModels:

    # ------------------------------------------------------------ helpers
    def all_labels(self, args, kwargs, star=None, dstar=None):
        lab = set()
        for a in list(args) + list(kwargs.values()):
            lab |= self.deep_labels(a)
        for x in (star, dstar):
            if x is not None:
                lab |= self.deep_labels(x)
        return frozenset(lab)

    def arr_ndim(self, v):
        """Rank of a numeric value if known."""
        nd = set()
        if v.sc - {"none"}:
            nd.add(0)
        for loc in v.refs:
            h = self.heap(loc)
            if h.kind == "ndarray":
                nd.add(h.ndim)
            elif h.kind in ("list", "tuple", "range", "iter"):
                el = self.elem_of(loc)
                k = self.arr_ndim(el) if not el.bottom() else 0
                nd.add(None if k is None else k + 1)
            elif h.kind in ("df",):
                nd.add(2)
            elif h.kind in ("series", "index"):
                nd.add(1)
            else:
                nd.add(None)
        if len(nd) == 1:
            return nd.pop()
        return None

    def shape_rank(self, v):
        """Rank of an array created with shape argument `v`."""
        if v.sc and not v.refs:
            return 1
        its = self.exact_items(v)
        if its is not None:
            return len(its)
        return None

    def const_or(self, v, default=None):
        if v is None:
            return default
        try:
            return v.const()
        except KeyError:
            return default

    # ------------------------------------------------------------ randomness
    def gen_sources(self, v, seen=None):
        """Root sources of a random generator / seed value.

        Returns a set of ("caller", loc) | ("seed", labels/const) |
        ("unseeded",) | ("global",) | ("unknown",).
        """
        out = set()
        seen = seen if seen is not None else set()
        for loc in v.refs:
            if loc in seen:
                continue
            seen.add(loc)
            h = self.heap(loc)
            if loc.step == "caller":
                out.add(("caller", loc))
                continue
            src = h.fields.get("$seed")
            if src is not None:
                out |= self.gen_sources(src, seen)
            elif h.kind in ("gen", "rstate", "seedseq", "bitgen"):
                out.add(("unknown",))
            else:
                # arrays/lists of draws used as seeds
                labs = self.deep_labels(V1(loc))
                got = {l for l in labs if isinstance(l, tuple) and
                       l[0] == "draw"}
                if got:
                    for l in got:
                        out |= set(l[1])
                elif any(isinstance(l, str) and l.startswith("SEED")
                         for l in labs):
                    out.add(("seed", "SEED"))
                else:
                    out.add(("unknown",))
        for f in v.fns:
            p = getattr(f, "path", "")
            if p.startswith("numpy.random"):
                out.add(("global",))
            else:
                out.add(("unknown",))
        if v.sc:
            if "none" in v.sc:
                out.add(("unseeded",))
            if v.sc - {"none"}:
                got = {l for l in v.lab if isinstance(l, tuple) and
                       l[0] == "draw"}
                if got:
                    for l in got:
                        out |= set(l[1])
                elif any(isinstance(l, str) and l.startswith("SEED")
                         for l in v.lab):
                    out.add(("seed", "SEED"))
                elif v.consts is not None:
                    for _, c in v.consts:
                        if c is not None:
                            out.add(("seed", c))
                else:
                    out.add(("unknown",))
        return out

    def draw(self, src, method, lab, ndim=None, kinds=("npfloat",),
             may_scalar=True, tag=""):
        """Record a random draw from `src` and return its value."""
        srcs = frozenset(self.gen_sources(src))
        self.emit("draw", method=method, sources=srcs)
        lab = lab | frozenset([("draw", srcs)])
        if ndim == 0:
            return V2(frozenset(kinds), lab)
        arr = self.fresh_array(lab, ndim, "draw" + tag)
        if may_scalar and ndim is None:
            return self._vj(arr, V2(frozenset(kinds), lab))
        return arr

    def _vj(self, a, b):
        from .eff import vjoin
        return vjoin(a, b)

    def make_gen(self, kind, seed, lab=E):
        from .eff import const
        if seed is None:
            seed = const(None)
        return self.new(kind, "rng", fields={"$seed": seed}, lab=lab)

    # ------------------------------------------------------------ attributes
    def ext_attr(self, path, name):
        from .eff import fnv, scalar, Ext, V
        full = path + "." + name
        if path == "numpy" and name in ("inf", "pi", "e", "nan", "Inf",
                                        "PINF", "euler_gamma", "NAN", "NaN"):
            import math
            val = {"inf": math.inf, "Inf": math.inf, "PINF": math.inf,
                   "pi": math.pi, "e": math.e}.get(name)
            if val is not None:
                from .eff import const
                return const(val)
            return scalar("float")
        if path == "math" and name in ("inf", "pi", "e", "nan", "tau"):
            return scalar("float")
        if path == "numpy" and name == "newaxis":
            from .eff import NONE
            return NONE
        if path.startswith("builtins.") and name in ("__name__", "__doc__"):
            return scalar("str")
        return fnv(Ext(full))

    def ext_obj_attr(self, loc, h, name):
        from .eff import fnv, scalar, ExtM, ref, V, NONE
        lab = h.lab
        k = h.kind
        if k == "foreign":
            return V(E, frozenset(["any"]), None, E, h.lab)
        if k == "ndarray":
            if name == "T":
                return self.view(loc, h.ndim, tag="T")
            if name in ("real", "imag", "flat", "base"):
                return self.view(loc, h.ndim, tag=name)
            if name == "shape":
                sl = self.elem_of(loc).lab | lab if False else lab
                return self.new("tuple", "shape", elem=scalar("int", lab=sl),
                                length=h.ndim) if h.ndim is None else \
                    self.new("tuple", "shape", items={
                        i: scalar("int", lab=sl) for i in range(h.ndim)},
                        length=h.ndim)
            if name == "size":
                if h.length == 0:
                    from .eff import const
                    return const(0, lab)
                return scalar("int", lab=lab)
            if name in ("ndim",):
                if h.ndim is not None:
                    from .eff import const
                    return const(h.ndim, lab)
                return scalar("int", lab=lab)
            if name in ("dtype",):
                return fnv(ExtM("dtype", ref(loc)))
            return fnv(ExtM(name, ref(loc)))
        if k == "df":
            if name in ("values",):
                return ref(self.alloc("ndarray", "values", ndim=2,
                                      base=frozenset([loc])))
            if name == "T":
                return ref(self.alloc("df", "T", base=frozenset([loc])))
            if name in ("columns", "index"):
                return ref(self.alloc("index", name, base=frozenset([loc])))
            if name in ("shape",):
                return self.new("tuple", "shape", items={
                    0: scalar("int"), 1: scalar("int")}, length=2)
            if name == "ndim":
                from .eff import const
                return const(2)
            if name in ("iloc", "loc", "iat", "at"):
                return ref(self.alloc("dfidx", name, base=frozenset([loc])))
            return fnv(ExtM(name, ref(loc)))
        if k == "series":
            if name in ("values", "array"):
                return ref(self.alloc("ndarray", "values", ndim=1,
                                      base=frozenset([loc])))
            if name == "name":
                return h.fields.get("name", V(E, frozenset(["none", "str"])))
            if name in ("index",):
                return ref(self.alloc("index", name, base=frozenset([loc])))
            if name == "shape":
                return self.new("tuple", "shape", items={0: scalar("int")},
                                length=1)
            if name == "ndim":
                from .eff import const
                return const(1)
            return fnv(ExtM(name, ref(loc)))
        if k in ("gen", "rstate"):
            if name in ("bit_generator", "_bit_generator"):
                return ref(loc)
            return fnv(ExtM(name, ref(loc)))
        if k in ("opaque",):
            if name.endswith("_") and not name.startswith("_"):
                # fitted attribute of a library estimator
                el = h.elem
                return self.fresh_array(
                    (el.lab if el is not None else E) | lab, None, name)
            return fnv(ExtM(name, ref(loc)))
        return fnv(ExtM(name, ref(loc)))

    def ext_get_item(self, loc, h, idx):
        from .eff import scalar, ref, V
        el = h.elem
        lab = h.lab | (el.lab if el is not None else E) | idx.lab
        if h.kind == "dfidx":
            return ref(self.alloc("df", "sel", base=h.base, lab=lab))
        if h.kind == "df":
            return ref(self.alloc("df", "sel", base=frozenset([loc]),
                                  lab=lab))
        if h.kind in ("series", "index"):
            return V(E, frozenset(["any"]), None, E, lab)
        return self.opaque(lab, "item")

    # ------------------------------------------------------------ functions
    def ext_call(self, path, args, kwargs, star=None, dstar=None):
        self.may_raise()
        if path.startswith("builtins."):
            return self.builtin(path[9:], args, kwargs, star, dstar)
        lab = self.all_labels(args, kwargs, star, dstar)
        self.emit("extcall", path=path)
        if path.startswith("numpy.random."):
            return self.np_random(path[13:], args, kwargs, lab)
        if path.startswith("numpy."):
            return self.np_call(path[6:], args, kwargs, lab)
        for p in ENTROPY_MODULES:
            if path.startswith(p) or path == p.rstrip("."):
                self.emit("entropy", path=path)
                return self._vj(self.opaque(frozenset(["ENTROPY"]), "ent"),
                                V2(frozenset(["float", "int"]),
                                   frozenset(["ENTROPY"])))
        name = tail(path)
        if path.startswith("sklearn.") or path.startswith("scipy.cluster"):
            return self.estimator(path, args, kwargs, lab)
        if path.startswith("scipy.stats."):
            return self.scipy_stats(path[12:], args, kwargs, lab)
        if path.startswith("scipy."):
            return self.scipy_call(path[6:], args, kwargs, lab)
        if path in ("collections.defaultdict",):
            from .eff import NONE
            fac = args[0] if args else kwargs.get("default_factory", NONE)
            el = None
            if len(args) > 1:
                for l in args[1].refs:
                    h = self.heap(l)
                    el = self._vj2(el, self.elem_of(l))
            return self.new("defaultdict", "dd", items={}, elem=el,
                            fields={"$factory": fac}, length=0)
        if path in ("collections.OrderedDict",):
            return self.builtin("dict", args, kwargs, star, dstar)
        if path in ("collections.deque",):
            return self.builtin("list", args[:1], {}, None, None)
        if path in ("collections.Counter",):
            from .eff import scalar
            return self.new("dict", "counter", elem=scalar("int", lab=lab))
        if path in ("copy.copy", "copy.deepcopy"):
            return self.copy_value(args[0], path.endswith("deepcopy"))
        if path == "functools.partial":
            from .eff import fnv, Partial
            return fnv(Partial(args[0], tuple(args[1:]),
                               tuple(sorted(kwargs.items()))))
        if path == "functools.reduce":
            el = self.iter_elem(args[1])
            acc = args[2] if len(args) > 2 else el
            for _ in range(4):
                from .eff import vjoin
                n = vjoin(acc, self.call(args[0], [acc, el], {}))
                if n == acc:
                    break
                acc = n
            return acc
        if path.startswith("tqdm."):
            if args:
                from .eff import ref
                el = self.iter_elem(args[0])
                n = self.known_len(args[0])
                return self.new("iter", "tqdm", elem=el,
                                lab=self.struct_labels(args[0]), length=n)
            return self.opaque(lab, "tqdm")
        if path.startswith("pandas."):
            return self.pandas_call(path[7:], args, kwargs, lab)
        if path.startswith("itertools."):
            return self.itertools(path[10:], args, kwargs, lab)
        if path.startswith("math."):
            from .eff import scalar
            n = path[5:]
            return scalar("int" if n in ("floor", "ceil", "comb") else
                          "float", lab=lab)
        if path.startswith("warnings.") or path.startswith("logging."):
            from .eff import NONE
            return NONE if path.startswith("warnings.") else \
                self.opaque(E, "log")
        if path.startswith("operator."):
            return self.operator(path[9:], args, kwargs, lab)
        self.unknown_ext.add(path)
        return self.opaque(lab, "call", ext=path)

    def _vj2(self, a, b):
        from .eff import vjoin
        return vjoin(a, b)

    def operator(self, name, args, kwargs, lab):
        import ast
        m = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult,
             "truediv": ast.Div}
        if name in m and len(args) == 2:
            return self.binop(args[0], args[1], m[name]())
        if name in ("itemgetter", "attrgetter"):
            return self.opaque(lab, "getter")
        return self.arith(list(args)) if args else self.opaque(lab)

    def itertools(self, name, args, kwargs, lab):
        from .eff import vjoin
        if name == "repeat":
            n = self.const_or(args[1]) if len(args) > 1 else None
            return self.new("iter", "repeat", elem=args[0], length=n,
                            lab=lab)
        if name in ("chain", "accumulate", "islice", "takewhile",
                    "dropwhile", "cycle", "compress"):
            el = None
            use = args if name == "chain" else (
                args[1:] if name in ("takewhile", "dropwhile") else args[:1])
            for a in use:
                el = vjoin(el, self.iter_elem(a))
            return self.new("iter", name, elem=el, lab=lab)
        if name in ("product", "combinations", "permutations",
                    "zip_longest"):
            its = {i: self.iter_elem(a) for i, a in enumerate(args)}
            t = self.new("tuple", "prod", items=its, length=len(its))
            return self.new("iter", name, elem=t, lab=lab)
        if name == "count":
            from .eff import scalar
            return self.new("iter", name, elem=scalar("int", lab=lab))
        return self.opaque(lab, name)

    def copy_value(self, v, deep):
        from .eff import ref, V, vjoin
        out = None
        for loc in v.refs:
            h = self.heap(loc)
            if h.kind in ("gen", "rstate"):
                c = ref(self.alloc(h.kind, "copy", fields={
                    "$seed": ref(loc)}))
            else:
                el = self.elem_of(loc)
                kw = dict(cls=h.cls, fields=dict(h.fields),
                          elem=None if el.bottom() else el,
                          items=None if h.items is None else dict(h.items),
                          length=h.length, lab=h.lab, ndim=h.ndim,
                          ext=h.ext)
                if h.items is not None:
                    kw["elem"] = h.elem
                if deep:
                    def dc(x, depth=0):
                        if not x.refs or depth > 3:
                            return x
                        labs = self.deep_labels(x)
                        return V(frozenset([self.alloc(
                            "ndarray" if all(self.heap(l).kind == "ndarray"
                                             for l in x.refs) else "opaque",
                            "deep%d" % depth, elem=V(
                                E, frozenset(["npfloat", "npint"]), None, E, labs),
                            multi=True)]), x.sc, x.consts, x.fns, x.lab)
                    if kw["elem"] is not None:
                        kw["elem"] = dc(kw["elem"])
                    if kw["items"] is not None:
                        kw["items"] = {k: dc(x) for k, x in
                                       kw["items"].items()}
                    kw["fields"] = {k: (x if k.startswith("$") else dc(x))
                                    for k, x in kw["fields"].items()}
                c = ref(self.alloc(h.kind, "copy", **kw))
            out = vjoin(out, c)
        rest = V(E, v.sc, v.consts, v.fns, v.lab)
        if not rest.bottom():
            out = vjoin(out, rest)
        return out if out is not None else v

    # ------------------------------------------------------------ numpy
    def np_random(self, name, args, kwargs, lab):
        from .eff import const, scalar, ref
        if name in ("default_rng", "Generator", "RandomState", "PCG64",
                    "MT19937", "Philox", "SFC64", "SeedSequence"):
            seed = args[0] if args else (kwargs.get("seed") or
                                         kwargs.get("bit_generator") or
                                         kwargs.get("entropy"))
            kind = {"default_rng": "gen", "Generator": "gen",
                    "RandomState": "rstate"}.get(name, "rstate")
            if name == "default_rng" and seed is not None and seed.refs and \
                    all(self.heap(l).kind == "gen" for l in seed.refs) and \
                    not seed.sc:
                return seed
            return self.make_gen(kind, seed)
        if name == "get_state":
            self.emit("globalrng", path="numpy.random.get_state")
            return self.opaque(frozenset(["ENTROPY"]), "state")
        self.emit("globalrng", path="numpy.random." + name)
        if name in ("seed", "set_state"):
            from .eff import NONE
            return NONE
        if name == "shuffle" and args:
            self.mutate(args[0], "shuffle", keep_len=True)
        return self._vj(self.fresh_array(lab | {"ENTROPY"}, None, "grand"),
                        scalar("npfloat", "npint", lab=lab | {"ENTROPY"}))

    def np_call(self, name, args, kwargs, lab):
        from .eff import (const, scalar, ref, V, vjoin, NONE, fnv, Ext)
        out = kwargs.get("out")
        if out is not None and not (out.sc == frozenset(["none"])):
            tgt = out
            for l in list(out.refs):
                if self.heap(l).kind == "tuple":
                    tgt = self.elem_of(l)
            self.mutate(tgt, "out= of numpy." + name, V(
                E, frozenset(["npfloat", "npint"]), None, E, lab), keep_len=True)
            return tgt
        base = name.split(".")
        fn = base[-1]
        if name in ("array", "linalg.asarray"):
            copy = self.const_or(kwargs.get("copy"), True)
            if copy is True:
                return self.fresh_copy(args[0] if args else
                                       kwargs.get("object"), lab)
            return self.alias(args[0], "asarray", lab, args, kwargs)
        if name == "copy":
            return self.fresh_copy(args[0] if args else kwargs.get("a"), lab)
        if name in ("add.at", "subtract.at", "multiply.at", "maximum.at",
                    "minimum.at"):
            self.mutate(args[0], "ufunc.at", V(E, frozenset(["npfloat", "npint"]),
                                                None, E, lab), keep_len=True)
            return NONE
        if fn in MUTATORS:
            self.mutate(args[0], "numpy." + fn, V(
                E, frozenset(["npfloat", "npint"]), None, E, lab), keep_len=True)
            return NONE
        if fn in ALIAS and len(base) == 1:
            return self.alias(args[0] if args else kwargs.get("a"), fn, lab,
                              args, kwargs)
        if fn == "outer" and len(base) == 2:
            a, b = self.arr_ndim(args[0]), self.arr_ndim(args[1])
            return self.fresh_array(lab, None if a is None or b is None else
                                    a + b)
        if fn in ("reduce", "accumulate") and len(base) == 2:
            if fn == "accumulate":
                return self.fresh_array(lab, self.arr_ndim(args[0]))
            return self.reduction("sum", args, kwargs, lab)
        if fn in SHAPE_FROM_ARG:
            sh = args[0] if args else kwargs.get("shape")
            nd = self.shape_rank(sh) if sh is not None else None
            ln = None
            if sh is not None and nd == 1:
                ln = self.const_or(sh)
                if not isinstance(ln, int):
                    its = self.exact_items(sh)
                    ln = self.const_or(its[0]) if its else None
            return self.fresh_array(lab, nd, length=ln if isinstance(
                ln, int) else None)
        if fn in LIKE:
            return self.fresh_array(lab, self.arr_ndim(args[0]))
        if fn in SCALAR_RED and len(base) == 1:
            return self.reduction(fn, args, kwargs, lab)
        if name == "unique":
            extra = [k for k in ("return_index", "return_inverse",
                                 "return_counts")
                     if self.const_or(kwargs.get(k), False)]
            pos = [self.const_or(a, False) for a in args[1:4]]
            n = 1 + len(extra) + sum(1 for p in pos if p is True)
            if n == 1:
                return self.fresh_array(lab, 1)
            return self.new("tuple", "uniq", items={
                i: self.fresh_array(lab, 1, "u%d" % i) for i in range(n)},
                length=n)
        if fn == "where" and len(args) == 1 or fn == "nonzero":
            return self.new("tuple", "where", elem=self.fresh_array(lab, 1))
        if fn in ("slogdet", "eigh", "eig", "svd", "qr", "lstsq", "histogram",
                  "meshgrid", "unravel_index", "frexp", "modf", "divmod"):
            n = {"svd": 3, "lstsq": 4}.get(fn, 2)
            return self.new("tuple", fn, items={
                i: vjoin(self.fresh_array(lab, None, "o%d" % i),
                         scalar("npfloat", "npint", lab=lab)) for i in range(n)},
                length=n)
        if fn in ("det", "norm", "cond", "trace", "vdot", "matrix_rank"):
            nd = self.arr_ndim(args[0]) if args else None
            if nd in (1, 2):
                return scalar("npfloat", "npint", lab=lab)
            return vjoin(self.fresh_array(lab, None),
                         scalar("npfloat", "npint", lab=lab))
        if fn in ("finfo", "iinfo", "errstate", "dtype", "printoptions",
                  "seterr", "seterrcall", "set_printoptions", "geterr"):
            if fn in ("seterr", "set_printoptions", "seterrcall"):
                self.emit("globalstate", path="numpy." + fn)
            return self.opaque(lab, fn)
        if fn in ("float64", "float32", "float16", "double", "longdouble"):
            return vjoin(scalar("npfloat", "npint", lab=lab), BOTV) if (
                not args or not args[0].refs) else self.fresh_array(lab)
        if fn in ("int64", "int32", "intp", "int8", "uint8", "integer"):
            return scalar("npint", lab=lab)
        if fn in ("bool_",):
            return scalar("npbool", lab=lab)
        if fn in ("ndim", "size", "isscalar", "array_equal", "allclose",
                  "array_equiv", "may_share_memory", "shares_memory",
                  "result_type", "issubdtype", "alen"):
            return scalar("int" if fn in ("ndim", "size") else "bool",
                          lab=lab)
        if fn == "shape":
            v = args[0]
            r = self.arr_ndim(v)
            if r is not None:
                return self.new("tuple", "shape", items={
                    i: scalar("int", lab=lab) for i in range(r)}, length=r)
            return self.new("tuple", "shape", elem=scalar("int", lab=lab))
        if fn in ("seterr",):
            return self.opaque(lab)
        if fn in ("vectorize", "frompyfunc", "apply_along_axis",
                  "fromfunction", "apply_over_axes", "piecewise"):
            if args and (args[0].fns):
                try:
                    r = self.call(args[0], [V2(frozenset(["npfloat", "npint"]), lab)]
                                  * 1, {})
                    lab = lab | self.deep_labels(r)
                except Exception:
                    pass
            return self.fresh_array(lab)
        if fn == "array2string":
            return scalar("str", lab=lab)
        # ranks
        nd = None
        if fn in ("cumsum", "cumprod"):
            nd = self.arr_ndim(args[0]) if "axis" in kwargs or \
                len(args) > 1 else 1
        elif fn in RANK1 and "axis" not in kwargs and not (
                fn in ("repeat", "append", "insert", "delete") and
                len(args) > (2 if fn in ("repeat",) else 3)):
            nd = 1
        elif fn in RANK2:
            nd = 2
        elif fn in SAME_RANK or fn in ("linalg.inv",):
            nd = self.arr_ndim(args[0]) if args else None
        elif fn in ("concatenate", "hstack"):
            its = self.iter_elem(args[0])
            nd = self.arr_ndim(its) if not its.bottom() else None
        elif fn == "stack":
            its = self.iter_elem(args[0])
            k = self.arr_ndim(its) if not its.bottom() else None
            nd = None if k is None else k + 1
        elif fn == "tile":
            r = args[1] if len(args) > 1 else kwargs.get("reps")
            a = self.arr_ndim(args[0])
            k = self.shape_rank(r) if r is not None else None
            nd = None if a is None or k is None else max(a, k)
        elif fn in ("dot", "matmul", "einsum", "tensordot", "inner", "kron"):
            nd = None
            if fn == "einsum" and args:
                s = self.const_or(args[0])
                if isinstance(s, str) and "->" in s:
                    nd = len(s.split("->")[1].strip())
            elif fn in ("dot", "matmul") and len(args) == 2:
                a, b = self.arr_ndim(args[0]), self.arr_ndim(args[1])
                if a is not None and b is not None and a <= 2 and b <= 2:
                    nd = max(a + b - 2, 0) if min(a, b) > 0 else max(a, b)
        elif fn in ("maximum", "minimum", "add", "subtract", "multiply",
                    "divide", "true_divide", "power", "equal", "not_equal",
                    "less", "less_equal", "greater", "greater_equal",
                    "logical_and", "logical_or", "logaddexp", "where",
                    "mod", "remainder", "floor_divide", "float_power"):
            ks = [self.arr_ndim(a) for a in args]
            nd = None if any(k is None for k in ks) else max(ks)
        if nd == 0:
            return scalar("npfloat", "npint", lab=lab)
        if nd is None and all(not a.refs for a in args) and args and \
                fn not in ("array", "eye"):
            return scalar("npfloat", "npint", lab=lab)
        return self.fresh_array(lab, nd)

    def fresh_copy(self, v, lab):
        """np.array(v): a fresh array with v's contents."""
        nd = self.arr_ndim(v)
        ln = self.known_len(v) if v.refs else None
        el = None
        objs = None
        for loc in v.refs:
            e = self.elem_of(loc)
            for l in e.refs:
                if self.heap(l).kind in ("dict", "inst", "opaque"):
                    objs = self._vj2(objs, e)
        a = self.fresh_array(lab, nd, "copy", ln)
        if objs is not None:
            for l in a.refs:
                h = self.heap(l)
                self.st.heap[l] = h.copy(elem=self._vj2(h.elem, objs))
        return a

    def alias(self, v, fn, lab, args=(), kwargs=None):
        """A function whose result may share memory with its argument."""
        from .eff import scalar, ref, vjoin, V
        kwargs = kwargs or {}
        res = None
        if v is None:
            return self.fresh_array(lab)
        if v.sc - {"none"} or (v.sc and not v.refs):
            if fn in ("atleast_2d",):
                nd = 2
            elif fn in ("atleast_1d",):
                nd = 1
            else:
                nd = 0
            if nd:
                res = self.fresh_array(lab, nd, "sc")
            else:
                res = self.fresh_array(lab, 0, "sc") if fn in (
                    "asarray",) else scalar("npfloat", "npint", lab=lab)
        for loc in sorted(v.refs, key=repr):
            h = self.heap(loc)
            if h.kind == "ndarray":
                nd = h.ndim
                if fn in ("asarray", "asanyarray", "ascontiguousarray",
                          "require", "asfortranarray") or (
                        fn == "atleast_1d" and nd and nd >= 1) or (
                        fn == "atleast_2d" and nd and nd >= 2):
                    res = vjoin(res, ref(loc))
                    continue
                if fn == "atleast_1d":
                    nd = None if nd is None else max(nd, 1)
                elif fn == "atleast_2d":
                    nd = None if nd is None else max(nd, 2)
                elif fn == "atleast_3d":
                    nd = 3
                elif fn == "ravel":
                    nd = 1
                elif fn == "expand_dims":
                    nd = None if nd is None else nd + 1
                elif fn == "squeeze":
                    nd = None
                elif fn == "diagonal":
                    nd = None if nd is None else nd - 1
                elif fn in ("reshape", "broadcast_to"):
                    sh = args[1] if len(args) > 1 else kwargs.get(
                        "newshape", kwargs.get("shape"))
                    nd = self.shape_rank(sh) if sh is not None else None
                res = vjoin(res, self.view(loc, nd, tag=fn))
            elif h.kind in ("df", "series", "index"):
                nd = {"df": 2}.get(h.kind, 1)
                if fn == "atleast_2d":
                    nd = 2
                res = vjoin(res, ref(self.alloc(
                    "ndarray", "as", base=frozenset([loc]), ndim=nd)))
            else:
                nd = self.arr_ndim(ref(loc))
                if fn == "atleast_2d" and nd is not None:
                    nd = max(nd, 2)
                res = vjoin(res, self.fresh_array(lab, nd, "seq",
                                                  self.known_len(ref(loc))))
        if fn in ("split", "array_split", "hsplit", "vsplit", "unstack"):
            return self.new("list", "split", elem=res)
        return res if res is not None else self.fresh_array(lab)

    def reduction(self, fn, args, kwargs, lab):
        from .eff import scalar, vjoin
        axis = kwargs.get("axis")
        if axis is None and len(args) > 1:
            axis = args[1]
        kd = self.const_or(kwargs.get("keepdims"), False)
        kind = ("npint",) if fn in INT_RED else ("npfloat", "npint")
        if fn in ("all", "any"):
            kind = ("npbool",)
        if axis is None or axis.sc == frozenset(["none"]) and not axis.refs:
            if not kd:
                return scalar(*kind, lab=lab)
        nd = self.arr_ndim(args[0]) if args else None
        if kd:
            return self.fresh_array(lab, nd)
        if nd is not None and axis is not None and not axis.refs:
            nd -= 1
            if nd == 0:
                return scalar(*kind, lab=lab)
            return self.fresh_array(lab, nd)
        if nd == 1:
            return scalar(*kind, lab=lab)
        return self.fresh_array(lab, None)

    # ------------------------------------------------------------ scipy etc.
    def scipy_stats(self, name, args, kwargs, lab):
        from .eff import scalar, vjoin, const, NONE
        parts = name.split(".")
        fn = parts[-1]
        if fn == "rvs":
            rs = kwargs.get("random_state")
            srcs = rs if rs is not None else None
            lab2 = self.all_labels(args, {k: v for k, v in kwargs.items()
                                          if k != "random_state"})
            if srcs is None or srcs.sc == frozenset(["none"]) and \
                    not srcs.refs:
                self.emit("globalrng", path="scipy.stats." + name)
                return vjoin(self.fresh_array(lab2 | {"ENTROPY"}, None),
                             scalar("npfloat", "npint", lab=lab2 | {"ENTROPY"}))
            return self.draw(srcs, "scipy.stats." + name, lab2)
        if len(parts) == 1:
            return self.opaque(lab, "dist", ext="scipy.stats." + name)
        return vjoin(self.fresh_array(lab, None),
                     scalar("npfloat", "npint", lab=lab))

    def scipy_call(self, name, args, kwargs, lab):
        from .eff import scalar, vjoin
        fn = tail(name)
        # call-backs
        for a in args:
            if a.fns:
                try:
                    r = self.call(a, [V2(frozenset(["npfloat", "npint"]), lab)], {})
                    lab = lab | self.deep_labels(r)
                except Exception as ex:
                    from .eff import Dead
                    if not isinstance(ex, Dead):
                        raise
        if fn in ("minimize", "minimize_scalar", "root", "differential_"
                  "evolution", "basinhopping", "dual_annealing"):
            if fn in ("differential_evolution", "basinhopping",
                      "dual_annealing"):
                rs = kwargs.get("seed") or kwargs.get("rng")
                if rs is None:
                    self.emit("globalrng", path="scipy." + name)
                else:
                    self.draw(rs, fn, lab)
            return self.opaque(lab, fn, ext="scipy." + name)
        if fn in ("quad", "ldl", "eigh", "svd", "qr", "lu", "lu_factor",
                  "cho_factor", "linear_sum_assignment", "nquad"):
            n = {"ldl": 3, "svd": 3, "lu": 3}.get(fn, 2)
            return self.new("tuple", fn, items={
                i: vjoin(self.fresh_array(lab, None, "o%d" % i),
                         scalar("npfloat", "npint", lab=lab)) for i in range(n)},
                length=n)
        if fn in ("digamma", "loggamma", "gammaln", "psi", "beta", "betaln",
                  "gamma", "expit", "logit", "multigammaln", "xlogy",
                  "polygamma", "entr", "log1p", "expm1"):
            ks = [self.arr_ndim(a) for a in args]
            if all(k == 0 for k in ks):
                return scalar("npfloat", "npint", lab=lab)
            if any(k is None for k in ks):
                return vjoin(self.fresh_array(lab, None),
                             scalar("npfloat", "npint", lab=lab))
            return self.fresh_array(lab, max(ks))
        if fn in ("logsumexp", "softmax", "log_softmax"):
            if fn == "logsumexp":
                return self.reduction("sum", args, kwargs, lab)
            return self.fresh_array(lab, self.arr_ndim(args[0]))
        if fn in ("inv", "pinv", "cholesky", "sqrtm", "expm", "solve",
                  "cho_solve", "solve_triangular", "block_diag"):
            if self.const_or(kwargs.get("overwrite_a"), False) or \
                    self.const_or(kwargs.get("overwrite_b"), False):
                for a in args[:2]:
                    self.mutate(a, "overwrite", keep_len=True)
            return self.fresh_array(lab, 2)
        if fn in ("brentq", "bisect", "newton", "det", "fminbound"):
            return scalar("float", lab=lab)
        return vjoin(self.fresh_array(lab, None, fn),
                     scalar("npfloat", "npint", lab=lab))

    def estimator(self, path, args, kwargs, lab):
        """Constructor (or function) of sklearn / scipy.cluster."""
        from .eff import scalar, vjoin, const
        name = tail(path)
        rs = kwargs.get("random_state")
        if rs is None:
            rs = kwargs.get("rng")
        if rs is None:
            rs = kwargs.get("seed")
        fields = {}
        random = name in RANDOM_ESTIMATORS or path.startswith(
            "scipy.cluster.vq.kmeans")
        lab2 = self.all_labels(args, {k: v for k, v in kwargs.items()
                                      if k not in ("random_state", "seed",
                                                   "rng")})
        if name and name[0].islower():
            if random:
                if rs is None or "none" in rs.sc:
                    self.emit("globalrng", path=path)
                    lab2 = lab2 | {"ENTROPY"}
                else:
                    self.draw(rs, path, lab2)
            return vjoin(self.fresh_array(lab2, None, name), self.new(
                "tuple", name, elem=self.fresh_array(lab2, None, name)))
        if random:
            fields["$random"] = rs if rs is not None else const(None)
        return self.new("opaque", name, elem=V2(frozenset(["any"]), lab2),
                        fields=fields, ext=path)

    def pandas_call(self, name, args, kwargs, lab):
        from .eff import ref
        if name in ("DataFrame", "read_csv", "concat", "read_table"):
            base = E
            if name == "DataFrame" and args:
                base = frozenset(l for l in args[0].refs)
            return ref(self.alloc("df", "df", base=base, lab=lab))
        if name == "Series":
            base = frozenset(l for l in args[0].refs) if args else E
            return ref(self.alloc("series", "series", base=base, lab=lab))
        return self.opaque(lab, "pd", ext="pandas." + name)

    # ------------------------------------------------------------ methods
    def ext_method(self, name, recv, args, kwargs, star=None, dstar=None):
        from .eff import vjoin, V, scalar, Dead
        self.may_raise()
        res = None
        lab = self.all_labels(args, kwargs, star, dstar)
        dead = 0
        locs = sorted(recv.refs, key=repr)
        for loc in locs:
            h = self.heap(loc)
            k = h.kind
            m = getattr(self, "m_" + k, None)
            if m is None:
                m = self.m_opaque
            try:
                res = vjoin(res, m(loc, h, name, args, kwargs, lab))
            except Dead:
                dead += 1
                if dead == len(locs) and not recv.sc:
                    raise
        if recv.sc:
            sl = recv.lab | lab
            if recv.sc & {"str"}:
                if name in ("split", "splitlines", "rsplit", "partition"):
                    res = vjoin(res, self.new("list", "split",
                                              elem=scalar("str", lab=sl)))
                elif name in ("startswith", "endswith", "isdigit", "isalpha",
                              "isidentifier"):
                    res = vjoin(res, scalar("bool", lab=sl))
                elif name in ("lower", "upper", "strip") and \
                        recv.is_const() and not args:
                    from .eff import kind_of_const
                    out = frozenset(("str", getattr(c[1], name)())
                                    for c in recv.consts)
                    res = vjoin(res, V(E, frozenset(["str"]), out, E, sl))
                else:
                    res = vjoin(res, scalar("str", lab=sl))
            else:
                if name in ("sum", "mean", "max", "min", "item", "copy",
                            "astype", "prod", "round", "conj", "conjugate"):
                    res = vjoin(res, V(E, recv.sc, None, E, sl))
                elif name in ("argmax", "argmin"):
                    res = vjoin(res, scalar("npint", lab=sl))
                elif name in ("reshape", "ravel", "flatten"):
                    nd = 1 if name != "reshape" else (
                        len(args) if args else None)
                    res = vjoin(res, self.fresh_array(sl, nd))
                else:
                    res = vjoin(res, V(E, frozenset(["any"]), None, E, sl))
        if res is None:
            return V(E, frozenset(["any"]), None, E, lab)
        return res

    def m_gen(self, loc, h, name, args, kwargs, lab):
        from .eff import ref, NONE, scalar
        src = ref(loc)
        if name == "spawn":
            g = self.make_gen("gen", src)
            return self.new("list", "spawn", elem=g)
        if name in ("__getstate__", "__reduce__"):
            return self.opaque(E)
        if name == "__setstate__":
            self.emit("draw", method=name,
                      sources=frozenset(self.gen_sources(src)))
            return NONE
        if name == "shuffle":
            srcs = frozenset(self.gen_sources(src))
            self.emit("draw", method=name, sources=srcs)
            self.mutate(args[0], "shuffle", V2(
                frozenset(["npfloat", "npint"]), frozenset([("draw", srcs)])),
                keep_len=True)
            return NONE
        out = kwargs.get("out")
        size = kwargs.get("size")
        pos = {"beta": 2, "binomial": 2, "uniform": 2, "normal": 2,
               "dirichlet": 1, "random": 0, "standard_normal": 0,
               "gamma": 2, "integers": 2, "choice": 1, "exponential": 1,
               "poisson": 1, "multinomial": 2, "geometric": 1,
               "permutation": 9, "standard_gamma": 1, "gumbel": 2,
               "standard_exponential": 0, "chisquare": 1,
               "multivariate_normal": 2, "multivariate_hypergeometric": 2}
        np_ = pos.get(name)
        if size is None and np_ is not None and len(args) > np_:
            size = args[np_]
        nd = None
        if size is not None and not (size.sc == frozenset(["none"]) and
                                     not size.refs):
            nd = self.shape_rank(size)
            if nd is not None and "none" in size.sc:
                nd = None
            if name in ("dirichlet", "multinomial", "multivariate_normal") \
                    and nd is not None:
                nd += 1
        elif name in ("dirichlet", "multinomial", "permutation",
                      "multivariate_normal"):
            nd = 1
        else:
            ks = [self.arr_ndim(a) for a in list(args)[:np_] + [
                v for k, v in kwargs.items()
                if k not in ("size", "endpoint", "dtype", "method", "out",
                             "replace", "shuffle", "p" if name == "choice"
                             else "")]]
            if name == "choice":
                nd = 0
            elif all(k is not None for k in ks):
                nd = max(ks) if ks else 0
        kinds = ("npint",) if name in ("binomial", "integers", "poisson",
                                       "geometric", "choice") else (
            "npfloat",)
        r = self.draw(src, name, lab, nd, kinds)
        if out is not None:
            self.mutate(out, "out= of draw", keep_len=True)
        return r

    def m_rstate(self, loc, h, name, args, kwargs, lab):
        if name in ("get_state", "set_state", "seed"):
            from .eff import NONE
            if name == "seed":
                self.emit("reseed", loc=loc)
            return NONE
        return self.m_gen(loc, h, name, args, kwargs, lab)

    def m_ndarray(self, loc, h, name, args, kwargs, lab):
        from .eff import scalar, ref, V, NONE, vjoin, const
        el = self.elem_of(loc)
        slab = el.lab | h.lab | lab
        if name in NDARRAY_MUT:
            e = V(E, frozenset(["npfloat", "npint"]), None, E, lab)
            ln = None
            if name == "resize" and args:
                c = self.const_or(args[0])
                ln = c if isinstance(c, int) else None
            self.mutate(ref(loc), "method " + name, e, length=ln,
                        keep_len=name not in ("resize",))
            return NONE
        if name in NDARRAY_VIEW:
            nd = h.ndim
            if name == "reshape":
                if len(args) == 1:
                    nd = self.shape_rank(args[0])
                else:
                    nd = len(args)
            elif name == "ravel":
                nd = 1
            elif name == "squeeze":
                nd = None
            elif name == "diagonal":
                nd = 1
            return self.view(loc, nd, tag=name)
        if name == "astype":
            if self.const_or(kwargs.get("copy"), True) is True:
                return self.fresh_array(slab, h.ndim, "astype", h.length)
            return vjoin(ref(loc), self.fresh_array(slab, h.ndim, "astype"))
        if name in ("copy", "__copy__", "__deepcopy__"):
            return self.fresh_array(slab, h.ndim, "copy", h.length)
        if name == "flatten":
            return self.fresh_array(slab, 1, "flatten")
        if name == "tolist":
            e = scalar("float", "int", lab=slab)
            if h.ndim == 2:
                e = self.new("list", "tolist_row", elem=e)
            return self.new("list", "tolist", elem=e)
        if name in ("item",):
            return scalar("float", "int", lab=slab)
        if name in NDARRAY_RED:
            return self.reduction(name, [ref(loc)] + list(args), kwargs,
                                  slab)
        if name in ("cumsum", "cumprod"):
            return self.fresh_array(slab, h.ndim if args or "axis" in kwargs
                                    else 1)
        if name in ("dot", "__matmul__"):
            return self.np_call("dot", [ref(loc)] + list(args), kwargs, slab)
        if name in ("argsort", "clip", "round", "conj", "conjugate",
                    "repeat", "take", "compress", "choose", "nonzero",
                    "searchsorted"):
            if name == "nonzero":
                return self.new("tuple", "nz",
                                elem=self.fresh_array(slab, 1))
            nd = 1 if name == "repeat" and "axis" not in kwargs and \
                len(args) < 2 else h.ndim
            return self.fresh_array(slab, nd)
        if name in ("any", "all"):
            return self.reduction(name, [ref(loc)] + list(args), kwargs,
                                  slab)
        if name in ("tobytes", "tostring", "dumps"):
            return scalar("bytes", lab=slab)
        if name.startswith("__i") and name.endswith("__") and name not in (
                "__iter__", "__index__", "__int__", "__invert__"):
            self.mutate(ref(loc), name, V(E, frozenset(["npfloat", "npint"]), None, E,
                                          lab), keep_len=True)
            return ref(loc)
        return vjoin(self.fresh_array(slab, None, name),
                     scalar("npfloat", "npint", lab=slab))

    def m_list(self, loc, h, name, args, kwargs, lab):
        from .eff import ref, NONE, scalar, vjoin, BOT
        if name in LIST_MUT:
            el = self.elem_of(loc)
            e = None
            if name == "append" and args:
                e = args[0]
            elif name == "extend" and args:
                e = self.iter_elem(args[0])
            elif name == "insert" and len(args) > 1:
                e = args[1]
            exact = (name == "append" and loc.age == "r" and not h.multi and
                     h.items is not None and h.elem is None and
                     self.loop_depth == 0 and len(h.items) < 8)
            self.emit("listop", loc=loc, op=name, elem=e)
            if exact:
                self.emit("mutate", loc=loc, how="list." + name, sure=True)
                its = dict(h.items)
                its[len(its)] = e.with_lab(self.pc)
                self.st.heap[loc] = h.copy(items=its, length=len(its),
                                           lab=h.lab | self.pc)
                return NONE
            if name == "clear":
                self.emit("mutate", loc=loc, how="list.clear", sure=True)
                if loc.age == "r" and not h.multi:
                    self.st.heap[loc] = h.copy(items={}, elem=None, length=0)
                return NONE
            self.mutate(ref(loc), "list." + name, e,
                        keep_len=name in ("sort", "reverse"))
            if name == "pop":
                return el
            return NONE
        if name == "copy":
            return ref(self.alloc("list", "copy", elem=h.elem,
                                  items=None if h.items is None else
                                  dict(h.items), length=h.length, lab=h.lab))
        if name in ("index", "count"):
            return scalar("int", lab=lab | h.lab)
        return self.opaque(lab | h.lab)

    m_iter = m_list

    def m_tuple(self, loc, h, name, args, kwargs, lab):
        from .eff import scalar
        if name in ("index", "count"):
            return scalar("int", lab=lab | h.lab)
        return self.opaque(lab | h.lab)

    def m_set(self, loc, h, name, args, kwargs, lab):
        from .eff import ref, NONE
        if name in SET_MUT:
            e = args[0] if args else None
            if name == "update" and args:
                e = self.iter_elem(args[0])
            el = self.elem_of(loc)
            self.mutate(ref(loc), "set." + name, e)
            return el if name == "pop" else NONE
        el = self.elem_of(loc)
        for a in args:
            el = self._vj2(el, self.iter_elem(a))
        return self.new("set", name, elem=el, lab=h.lab | lab)

    def m_dict(self, loc, h, name, args, kwargs, lab):
        from .eff import ref, NONE, vjoin, BOT, scalar, V
        el = self.elem_of(loc)
        keys = self.iter_elem(ref(loc))
        if name in ("get",):
            r = self.peek_dict(loc, h, args[0])
            d = args[1] if len(args) > 1 else NONE
            return d if r is None else vjoin(r, d)
        if name == "keys":
            return self.new("iter", "keys", elem=keys, lab=h.lab)
        if name == "values":
            return self.new("iter", "values",
                            elem=None if el.bottom() else el, lab=h.lab)
        if name == "items":
            if h.items is not None and h.elem is None and len(h.items) <= 12:
                from .eff import const
                its = {}
                for i, (k, v) in enumerate(sorted(h.items.items(),
                                                  key=lambda x: repr(x[0]))):
                    its[i] = self.new("tuple", "it%d" % i, items={
                        0: const(k), 1: v}, length=2)
                return self.new("iter", "items", items=its,
                                length=len(its), lab=h.lab)
            t = self.new("tuple", "kv", items={0: keys, 1: el}, length=2)
            return self.new("iter", "items", elem=t, lab=h.lab)
        if name == "copy":
            return ref(self.alloc(h.kind, "copy", elem=h.elem,
                                  items=None if h.items is None else
                                  dict(h.items), length=h.length,
                                  fields=dict(h.fields), lab=h.lab))
        if name in DICT_MUT:
            e = None
            self.emit("listop", loc=loc, op=name, elem=None)
            if name == "clear":
                self.emit("mutate", loc=loc, how="dict.clear", sure=True)
                if loc.age == "r" and not h.multi:
                    self.st.heap[loc] = h.copy(items={}, elem=None, length=0)
                return NONE
            if name == "setdefault":
                e = args[1] if len(args) > 1 else NONE
            elif name == "update":
                for a in args:
                    for l in a.refs:
                        e = vjoin(e, self.elem_of(l))
                for v in kwargs.values():
                    e = vjoin(e, v)
                if args and loc.age == "r" and not h.multi:
                    its = dict(h.items or {})
                    ok = True
                    for a in args:
                        for l in a.refs:
                            hh = self.heap(l)
                            if hh.items is not None and hh.elem is None and \
                                    len(a.refs) == 1:
                                its.update(hh.items)
                            else:
                                ok = False
                    its.update(kwargs)
                    if ok:
                        self.emit("mutate", loc=loc, how="dict.update",
                                  sure=True)
                        self.st.heap[loc] = h.copy(items=its, length=None)
                        return NONE
            self.mutate(ref(loc), "dict." + name, e)
            if name == "setdefault":
                return vjoin(el, e)
            if name in ("pop",):
                r = el
                if len(args) > 1:
                    r = vjoin(r, args[1])
                return r
            return NONE
        return self.opaque(lab | h.lab)

    m_defaultdict = m_dict

    def peek_dict(self, loc, h, idx):
        try:
            k = idx.const()
            if h.items and k in h.items:
                return self._vj2(h.items[k], h.elem)
        except (KeyError, TypeError):
            pass
        el = self.elem_of(loc)
        return None if el.bottom() else el

    def m_df(self, loc, h, name, args, kwargs, lab):
        from .eff import ref, NONE, vjoin, scalar
        inplace = self.const_or(kwargs.get("inplace"), False)
        if inplace or name in ("insert", "pop", "update", "__setitem__"):
            self.mutate(ref(loc), "pandas." + name)
            return NONE if name != "pop" else self.opaque(lab)
        if name in ("to_numpy", "__array__"):
            nd = 2 if h.kind == "df" else 1
            if self.const_or(kwargs.get("copy"), False) is True:
                el = self.elem_of(loc)
                return self.fresh_array(el.lab | h.lab | lab, nd, "tonp")
            return ref(self.alloc("ndarray", "tonp", base=frozenset([loc]),
                                  ndim=nd))
        if name in ("copy",):
            el = self.elem_of(loc)
            return ref(self.alloc(h.kind, "copy", elem=el, lab=h.lab | lab,
                                  fields=dict(h.fields)))
        if name in ("dropna", "astype", "reset_index", "drop", "rename",
                    "sort_values", "fillna", "sort_index", "head", "tail",
                    "select_dtypes", "transpose", "squeeze", "to_frame"):
            kind = h.kind
            if name == "to_frame":
                kind = "df"
            return ref(self.alloc(kind, name, base=frozenset([loc]),
                                  lab=lab))
        if name in ("tolist", "to_list"):
            el = self.elem_of(loc)
            return self.new("list", "tolist", elem=el)
        el = self.elem_of(loc)
        return vjoin(self.opaque(el.lab | lab | h.lab, name),
                     scalar("npfloat", "npint", lab=el.lab | lab | h.lab))

    m_series = m_df

    def m_index(self, loc, h, name, args, kwargs, lab):
        if name in ("to_numpy", "tolist"):
            return self.fresh_array(lab, 1) if name == "to_numpy" else \
                self.new("list", "tolist", elem=V2(frozenset(["any"]), lab))
        return self.opaque(lab | h.lab, name)

    def m_opaque(self, loc, h, name, args, kwargs, lab):
        from .eff import ref, scalar, vjoin, V, const
        el = h.elem
        olab = (el.lab if el is not None else E) | h.lab | lab
        ext = h.ext or ""
        rnd = h.fields.get("$random")
        if rnd is not None and name in ("fit", "fit_predict", "predict",
                                        "fit_transform", "sample",
                                        "transform"):
            if name.startswith("fit") or name == "sample":
                if "none" in rnd.sc:
                    self.emit("globalrng", path=ext + "." + name)
                    olab = olab | {"ENTROPY"}
                if rnd.refs or (rnd.sc - {"none"}):
                    d = self.draw(rnd, ext + "." + name, olab)
                    olab = olab | d.lab | self.deep_labels(d)
        if name == "rvs":
            rs = kwargs.get("random_state")
            if rs is None or "none" in rs.sc:
                self.emit("globalrng", path=ext + ".rvs")
                olab = olab | {"ENTROPY"}
            if rs is not None and (rs.refs or rs.sc - {"none"}):
                return self.draw(rs, ext + ".rvs", olab)
            return vjoin(self.fresh_array(olab, None),
                         scalar("npfloat", "npint", lab=olab))
        if name in ("fit", "set_params", "partial_fit"):
            self.st.heap[loc] = h.copy(elem=V2(frozenset(["any"]), olab))
            return ref(loc)
        if ext.startswith("scipy.stats"):
            return vjoin(self.fresh_array(olab, None, name),
                         scalar("npfloat", "npint", lab=olab))
        if name in ("fit_predict", "predict", "fit_transform"):
            self.st.heap[loc] = h.copy(elem=V2(frozenset(["any"]), olab))
            return self.fresh_array(olab, 1 if "predict" in name else 2,
                                    name)
        return self.opaque(olab, name)

    def m_any(self, loc, h, name, args, kwargs, lab):
        return self.m_opaque(loc, h, name, args, kwargs, lab)

    # ------------------------------------------------------------ builtins
    def builtin(self, name, args, kwargs, star, dstar):
        from .eff import (const, scalar, ref, V, vjoin, NONE, fnv, Ext, BOT,
                          Func, Cls, Bound)
        lab = E
        for a in args:
            lab = lab | a.lab
        if name == "len":
            v = args[0]
            n = self.known_len(v)
            sl = self.struct_labels(v)
            if n is not None:
                return const(n, sl)
            out = None
            for loc in v.refs:
                h = self.heap(loc)
                if h.kind == "inst":
                    m = self.class_attr(h.cls, "__len__")
                    if m is not None:
                        out = vjoin(out, self.call(V(E, E, None, frozenset(
                            Bound(f, ref(loc)) for f in m.fns)), [], {}))
                        continue
                out = vjoin(out, scalar("int", lab=sl))
            return out if out is not None else scalar("int", lab=sl)
        if name == "isinstance":
            t = self.isinstance_(args[0], args[1])
            if t is None:
                return scalar("bool", lab=args[0].lab)
            return const(t, args[0].lab)
        if name == "type":
            out = None
            v = args[0]
            from .eff import SC_TYPES, KIND_TYPE
            for k in v.sc:
                if k not in SC_TYPES:
                    return self.opaque(lab, "type")
                for p in SC_TYPES[k]:
                    out = vjoin(out, fnv(Ext(p)))
            for loc in v.refs:
                h = self.heap(loc)
                if h.kind == "inst":
                    out = vjoin(out, fnv(h.cls))
                elif h.kind in KIND_TYPE:
                    out = vjoin(out, fnv(Ext(KIND_TYPE[h.kind])))
                else:
                    return self.opaque(lab, "type")
            for f in v.fns:
                out = vjoin(out, fnv(Ext("builtins.function")))
            return out.with_lab(v.lab) if out is not None else \
                self.opaque(lab)
        if name in ("range",):
            n = None
            cs = [self.const_or(a, "?") for a in args]
            try:
                if all(isinstance(c, int) for c in cs):
                    n = len(range(*cs))
            except Exception:
                n = None
            return self.new("range", elem=scalar("int", lab=lab), length=n,
                            lab=lab)
        if name == "enumerate":
            el = self.iter_elem(args[0])
            n = self.known_len(args[0])
            if n == 0 or el.bottom():
                return self.new("iter", "enum0", items={}, length=0) if \
                    n == 0 else self.new("iter", "enum0", elem=None,
                                         lab=self.struct_labels(args[0]))
            t = self.new("tuple", "enum", items={
                0: scalar("int", lab=lab), 1: el}, length=2)
            self.mark_multi(t)
            return self.new("iter", "enumi", elem=t, length=n,
                            lab=self.struct_labels(args[0]))
        if name == "zip":
            its = {}
            ns = set()
            sl = set()
            for i, a in enumerate(args):
                its[i] = self.iter_elem(a)
                ns.add(self.known_len(a))
                sl |= self.struct_labels(a)
            t = self.new("tuple", "zip", items=its, length=len(its))
            self.mark_multi(t)
            return self.new("iter", "zipi", elem=t,
                            length=ns.pop() if len(ns) == 1 else None,
                            lab=frozenset(sl))
        if name in ("list", "tuple", "set", "frozenset", "sorted",
                    "reversed", "iter"):
            kind = {"list": "list", "tuple": "tuple", "set": "set",
                    "frozenset": "set", "sorted": "list",
                    "reversed": "iter", "iter": "iter"}[name]
            if not args:
                return self.new(kind, items={}, length=0)
            v = args[0]
            its = self.exact_items(v)
            sl = self.struct_labels(v)
            if its is not None and name in ("list", "tuple", "iter"):
                return self.new(kind, items=dict(enumerate(its)),
                                length=len(its), lab=sl)
            if its is not None and name == "reversed":
                return self.new(kind, items=dict(enumerate(its[::-1])),
                                length=len(its), lab=sl)
            el = self.iter_elem(v)
            return self.new(kind, elem=None if el.bottom() else el, lab=sl,
                            length=self.known_len(v)
                            if name != "set" else None)
        if name == "dict":
            items, el = dict(kwargs), dstar
            f = {}
            if args:
                for l in args[0].refs:
                    h = self.heap(l)
                    if h.kind in ("dict", "defaultdict"):
                        if h.items is not None:
                            for k, x in h.items.items():
                                items.setdefault(k, x)
                        el = vjoin(el, h.elem)
                        if "$keys" in h.fields:
                            f["$keys"] = h.fields["$keys"]
                    else:
                        e = self.iter_elem(ref(l))
                        kv = self.unpack(e, [None, None])
                        el = vjoin(el, kv[1])
                        f["$keys"] = vjoin(f.get("$keys"), kv[0])
            return self.new("dict", items=items, elem=el, fields=f,
                            length=len(items) if el is None else None)
        if name in ("max", "min", "sum", "abs", "round", "pow", "divmod"):
            lab = E
            for a in args:
                lab = lab | self.num_labels(a)
            if name in ("max", "min") and len(args) == 1 or name == "sum":
                el = self.iter_elem(args[0])
                if any(self.heap(l).kind in ("ndarray",) and
                       self.heap(l).ndim != 0 for l in el.refs):
                    if name == "sum":
                        return self.fresh_array(lab)
                k = el.sc or frozenset(["npfloat", "npint"])
                return V(E, k - {"none"} or frozenset(["any"]), None, E,
                         lab | el.lab)
            if name in ("max", "min"):
                out = None
                if all(a.is_const() and len(a.consts) == 1 for a in args):
                    cs = [a.const() for a in args]
                    try:
                        return const((max if name == "max" else min)(cs),
                                     lab)
                    except TypeError:
                        pass
                for a in args:
                    out = vjoin(out, V(a.refs, a.sc, None, E, lab))
                return out
            if name == "divmod":
                return self.new("tuple", "dm", items={
                    0: scalar("int", lab=lab), 1: scalar("int", lab=lab)},
                    length=2)
            return self.arith(list(args))
        if name in ("int", "float", "bool", "str", "repr", "complex",
                    "bytes", "format", "chr", "ord", "ascii"):
            if not args:
                return const({"int": 0, "float": 0.0, "bool": False,
                              "str": ""}.get(name))
            lab = lab | self.num_labels(args[0]) if name in (
                "int", "float", "bool") else lab
            if args[0].is_const() and name in ("int", "float", "bool",
                                               "str"):
                f = {"int": int, "float": float, "bool": bool,
                     "str": str}[name]
                try:
                    out = frozenset((type(f(c)).__name__, f(c))
                                    for _, c in args[0].consts)
                    return V(E, frozenset([name]), out, E, lab)
                except (TypeError, ValueError, OverflowError):
                    self.raise_("TypeError")
            if name == "bool":
                t = self.truth(args[0])
                if t is not None:
                    return const(t, lab)
            k = {"repr": "str", "format": "str", "chr": "str",
                 "ord": "int", "complex": "float",
                 "ascii": "str"}.get(name, name)
            return scalar(k, lab=lab)
        if name == "getattr":
            try:
                n = args[1].const()
            except KeyError:
                return self.opaque(lab)
            if len(args) > 2:
                h = self.has_attr(args[0], n)
                if h is False:
                    return args[2]
                r = None
                try:
                    r = self.get_attr(args[0], n)
                except Exception:
                    if h is True:
                        raise
                return r if h is True else vjoin(r, args[2])
            return self.get_attr(args[0], n)
        if name == "setattr":
            try:
                n = args[1].const()
            except KeyError:
                for loc in args[0].refs:
                    self.emit("setattr", loc=loc, name="*", val=args[2],
                              old=None)
                return NONE
            self.set_attr(args[0], n, args[2])
            return NONE
        if name == "hasattr":
            h = self.has_attr(args[0], self.const_or(args[1]))
            return scalar("bool", lab=lab) if h is None else const(h, lab)
        if name == "callable":
            v = args[0]
            if v.fns and not v.refs and not v.sc:
                return const(True, lab)
            return scalar("bool", lab=lab)
        if name == "print":
            return NONE
        if name in ("any", "all"):
            el = self.iter_elem(args[0])
            l2 = self.struct_labels(args[0]) | self.num_labels(el)
            return scalar("bool", lab=l2)
        if name in ("map", "filter"):
            el = [self.iter_elem(a) for a in args[1:]]
            sl = E
            for a in args[1:]:
                sl = sl | self.struct_labels(a)
            if any(x.bottom() for x in el):
                return self.new("iter", name, elem=None, lab=sl)
            if name == "map":
                r = self.call(args[0], el, {})
            else:
                if args[0].fns:
                    r0 = self.call(args[0], el, {})
                    sl = sl | self.num_labels(r0)
                r = el[0]
            return self.new("iter", name, elem=r, lab=sl)
        if name == "next":
            el = self.iter_elem(args[0])
            if len(args) > 1:
                return vjoin(el, args[1])
            return el
        if name in ENTROPY_BUILTINS:
            self.emit("entropy", path="builtins." + name)
            return scalar("int", lab=lab | {"ENTROPY"})
        if name == "slice":
            cs = [self.const_or(a, "?") for a in args]
            if "?" in cs:
                return V(E, frozenset(["slice"]), None, E, lab)
            if len(cs) == 1:
                cs = [None, cs[0]]
            cs += [None] * (3 - len(cs))
            return V(E, frozenset(["slice"]),
                     frozenset([("slice", ("slice",) + tuple(cs))]), E, lab)
        if name == "vars":
            return self.get_attr(args[0], "__dict__")
        if name in ("issubclass",):
            return scalar("bool", lab=lab)
        if name == "open":
            self.emit("io", path="open")
            return self.opaque(lab, "file")
        if name in ("object",):
            return self.opaque(lab, "object")
        if name.startswith("object."):
            return NONE
        if name == "property":
            return args[0]
        if name in ("eval", "exec", "compile", "__import__", "globals",
                    "locals", "delattr"):
            self.emit("dynamic", path=name)
            return self.opaque(lab)
        if name[:1].isupper():
            # exception classes and the like
            return self.new("opaque", "exc", ext="builtins." + name)
        return self.opaque(lab, name)

    def mark_multi(self, v):
        for l in v.refs:
            self.st.heap[l] = self.heap(l).copy(multi=True)

    def has_attr(self, v, name):
        res = set()
        for loc in v.refs:
            h = self.heap(loc)
            if h.kind == "inst":
                res.add(name in h.fields or
                        self.class_attr(h.cls, name) is not None)
            else:
                return None
        if v.sc or v.fns:
            return None
        return res.pop() if len(res) == 1 else None


def V1(loc):
    from .eff import ref
    return ref(loc)


def V2(sc, lab):
    from .eff import V
    return V(E, sc, None, E, lab)


class _B:
    pass


BOTV = None
