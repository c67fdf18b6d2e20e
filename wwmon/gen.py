"""Hostile but legal workloads: data sets, parameters and prediction inputs."""
import numpy as np
import pandas as pd


class Case:
    """One call history seed: data, constructor parameters, fit arguments and prediction inputs."""

    def __init__(self):
        self.task = None
        self.X = None
        self.y = None
        self.sw = None
        self.cat = None
        self.params = {}
        self.Xt = None
        self.kinds = None

    def describe(self):
        return dict(
            task=self.task, shape=list(self.X.shape), container=type(self.X).__name__,
            columns=list(self.kinds), weights=None if self.sw is None else "yes",
            categorical=None if self.cat is None else [int(c) for c in np.atleast_1d(self.cat)],
            params={k: (v if isinstance(v, (int, float, str, bool, type(None))) else repr(v))
                    for k, v in self.params.items()},
        )

    def new(self, **over):
        from wildwood import ForestClassifier, ForestRegressor

        cls = ForestClassifier if self.task == "clf" else ForestRegressor
        p = dict(self.params)
        p.update(over)
        return cls(**p)

    def fit(self, **over):
        f = self.new(**over)
        kw = {}
        if self.sw is not None:
            kw["sample_weight"] = self.sw
        if self.cat is not None:
            kw["categorical_features"] = self.cat
        kw.update(getattr(self, "fit_kw", {}))
        return f.fit(self.X, self.y, **kw)


NUM_KINDS = ["normal", "int_few", "ties", "const", "skew", "binary", "nan", "big", "tiny", "uniq_int", "cat_int",
             "cat_nan", "nan_tail", "offset"]


def num_column(rng, kind, n, nt):
    """A numerical column for fit (n values) and for prediction (nt values)."""
    N = n + nt
    if kind == "normal":
        c = rng.randn(N)
    elif kind == "int_few":
        c = rng.randint(0, rng.randint(2, 12), N).astype(float)
    elif kind == "ties":
        c = np.round(rng.randn(N) * rng.choice([1, 3]), 1)
    elif kind == "const":
        c = np.full(N, float(rng.randint(-3, 4)))
        c[n:] += rng.choice([0.0, 0.0, 1.0, -1.0], nt)
    elif kind == "skew":
        c = np.exp(rng.randn(N) * 3)
    elif kind == "binary":
        c = (rng.rand(N) < rng.choice([0.5, 0.1])).astype(float)
    elif kind == "nan":
        c = rng.randn(N)
        c[rng.rand(N) < rng.choice([0.05, 0.3, 0.6])] = np.nan
    elif kind == "nan_tail":  # missing only at prediction
        c = rng.randn(N)
        c[n:][rng.rand(nt) < 0.4] = np.nan
    elif kind == "big":
        c = rng.randn(N) * 1e12
    elif kind == "tiny":
        c = rng.randn(N) * 1e-12
    elif kind == "offset":
        c = 1e6 + rng.randn(N)
    elif kind == "uniq_int":
        c = rng.permutation(N).astype(float) - N // 2
    elif kind in ("cat_int", "cat_nan"):
        k = int(rng.choice([2, 3, 5, 8, 15, 33, 63, 64, 65, 128, 200]))
        c = rng.randint(0, k, N).astype(float) * 3 - 7
        if kind == "cat_nan":
            c[rng.rand(N) < 0.15] = np.nan
        # unknown categories at prediction
        m = rng.rand(nt) < 0.15
        c[n:][m] = 1e4 + rng.randint(0, 3, m.sum())
    else:
        raise KeyError(kind)
    out = c[:n]
    if kind in ("nan", "cat_nan") and np.isnan(out).all():
        out = out.copy()
        out[0] = 0.0
        c[0] = 0.0
    return c[:n].copy(), c[n:].copy()


DF_KINDS = ["normal", "nan", "ties", "int_col", "str", "str_nan", "category", "bool", "f32", "const", "uniq_int",
            "cat_int", "str_many", "category_unused", "int_small"]


def df_column(rng, kind, n, nt):
    N = n + nt
    if kind in NUM_KINDS:
        a, b = num_column(rng, kind, n, nt)
        return pd.Series(a), pd.Series(b)
    if kind == "int_col":
        c = rng.randint(-1000, 1000, N)
        return pd.Series(c[:n]), pd.Series(c[n:])
    if kind == "int_small":
        c = rng.randint(0, 7, N).astype(np.int32)
        return pd.Series(c[:n]), pd.Series(c[n:])
    if kind == "f32":
        c = rng.randn(N).astype(np.float32)
        return pd.Series(c[:n]), pd.Series(c[n:])
    if kind in ("str", "str_nan", "str_many"):
        k = rng.randint(2, 9) if kind != "str_many" else int(rng.choice([30, 64, 127, 128, 129, 255, 256, 300]))
        c = np.array(["c%03d" % v for v in rng.randint(0, k, N)], dtype=object)
        m = rng.rand(nt) < 0.12
        c[n:][m] = "zz_unknown"
        if kind == "str_nan":
            m = rng.rand(N) < 0.15
            c[m] = np.nan
            if m[:n].all():
                c[0] = "c000"
        return pd.Series(c[:n]), pd.Series(c[n:])
    if kind in ("category", "category_unused"):
        k = rng.randint(2, 12)
        cats = ["k%02d" % v for v in rng.permutation(k)]
        c = np.array(cats, dtype=object)[rng.randint(0, k, N)]
        extra = ["unused"] if kind == "category_unused" else []
        a = pd.Series(pd.Categorical(c[:n], categories=cats + extra))
        b = pd.Series(pd.Categorical(c[n:], categories=cats + extra))
        return a, b
    if kind == "bool":
        c = rng.rand(N) < 0.5
        return pd.Series(c[:n]), pd.Series(c[n:])
    raise KeyError(kind)


def draw_n(rng, small=False):
    r = rng.rand()
    if small:
        return int(rng.randint(6, 60))
    if r < 0.25:
        return int(rng.randint(6, 30))
    if r < 0.75:
        return int(rng.randint(30, 150))
    if r < 0.97:
        return int(rng.randint(150, 450))
    if r < 0.995:
        return int(rng.randint(800, 1500))
    return int(rng.randint(2500, 6000))


def gen_X(rng, case, n=None, nt=None, p=None, container=None, kinds=None):
    n = n or draw_n(rng)
    nt = nt or int(rng.randint(1, 60) if rng.rand() < 0.98 else rng.randint(300, 2500))
    p = p or int(rng.choice([1, 2, 3, 4, 5, 8]) if n > 2000 or rng.rand() < 0.985 else rng.choice([17, 33, 66]))
    container = container or rng.choice(["array", "array", "dataframe"])
    case.cat = None
    if container == "array":
        if kinds is None and rng.rand() < 0.06:  # every column categorical
            kinds = list(rng.choice([k for k in NUM_KINDS if k.startswith("cat_")], p))
        kinds = kinds or list(rng.choice(NUM_KINDS, p))
        cols = [num_column(rng, k, n, nt) for k in kinds]
        X = np.column_stack([a for a, _ in cols])
        Xt = np.column_stack([b for _, b in cols])
        if rng.rand() < 0.3:
            X = np.asfortranarray(X)
        catcols = [i for i, k in enumerate(kinds) if k.startswith("cat_")]
        if catcols or rng.rand() < 0.3:
            mask = np.zeros(len(kinds), dtype=bool)
            mask[catcols] = True
            if rng.rand() < 0.3:
                extra = [i for i, k in enumerate(kinds) if k in ("int_few", "ties", "binary", "const")]
                mask[[i for i in extra if rng.rand() < 0.5]] = True
            if rng.rand() < 0.5 or not mask.any():
                case.cat = mask
            else:
                case.cat = np.flatnonzero(mask)
        case.X, case.Xt = X, Xt
    else:
        kinds = kinds or list(rng.choice(DF_KINDS, p))
        cols = [df_column(rng, k, n, nt) for k in kinds]
        names = ["f%d" % i for i in range(len(kinds))]
        if rng.rand() < 0.15:
            names = ["dup"] * len(kinds)  # duplicate column names are legal in pandas
        X = pd.concat([a for a, _ in cols], axis=1)
        Xt = pd.concat([b for _, b in cols], axis=1)
        X.columns = names
        Xt.columns = names
        if rng.rand() < 0.3:
            X.index = rng.permutation(len(X)) * 7
        if rng.rand() < 0.25:
            mask = np.array([k in ("str", "str_nan", "category", "bool", "cat_int", "str_many",
                                   "category_unused", "int_small") for k in kinds])
            case.cat = mask
        case.X, case.Xt = X, Xt
    case.kinds = kinds
    return case


def feature_signal(case, rng):
    """A numerical score from the columns so that targets depend on the features."""
    X = case.X
    n = X.shape[0]
    s = np.zeros(n)
    for j in range(X.shape[1]):
        c = X.iloc[:, j] if isinstance(X, pd.DataFrame) else pd.Series(X[:, j])
        codes = c.rank(method="dense").to_numpy(dtype=float) if c.dtype.kind in "uif" else \
            pd.Series(pd.factorize(c)[0]).astype(float).to_numpy()
        codes = np.nan_to_num(codes, nan=-1.0)
        perm = rng.permutation(int(codes.max()) + 3) if rng.rand() < 0.5 else np.arange(int(codes.max()) + 3)
        v = perm[(codes + 1).astype(int)].astype(float)
        sd = v.std()
        if sd > 0:
            s += rng.randn() * (v - v.mean()) / sd
    return s


def gen_y(rng, case, n_classes=None, labels=None):
    n = case.X.shape[0]
    s = feature_signal(case, rng) + rng.randn(n) * rng.choice([0.05, 0.5, 2.0])
    if case.task == "clf":
        K = n_classes or int(rng.choice([2, 2, 2, 3, 3, 4, 6]) if rng.rand() < 0.98 else rng.choice([9, 17, 33]))
        K = min(K, n)
        if rng.rand() < 0.7:
            q = np.sort(rng.rand(K - 1))
            y = np.searchsorted(np.quantile(s, q), s)
        else:
            y = rng.randint(0, K, n)
        # every class present
        idx = rng.permutation(n)[:K]
        y[idx] = np.arange(K)
        labels = labels or rng.choice(["int", "int", "str", "neg", "float"])
        if labels == "str":
            y = np.array(["lab%d" % v for v in range(K)])[y]
        elif labels == "neg":
            y = y * 7 - 5
        elif labels == "float":
            y = y.astype(float)
        case.y = y
    else:
        r = rng.rand()
        y = s
        if r < 0.15:
            y = np.round(s)
        elif r < 0.25:
            y = s * 100.0
        elif r < 0.32:
            y = s * 1e4 + 3e4
        elif r < 0.4:
            y = s * 1e-3
        elif r < 0.5:
            y = rng.randint(0, 3, n).astype(float)
        elif r < 0.53:
            y = np.full(n, 2.5)
        if rng.rand() < 0.3:
            y = y.astype(np.float32)
        case.y = y
    return case


def gen_weights(rng, case, mode=None):
    n = case.X.shape[0]
    if mode is None and case.task == "reg" and n < 50:
        mode = str(rng.choice(["none", "none", "int", "float", "ones"]))
    mode = mode or rng.choice(["none", "none", "int", "float", "ones", "zeros"], p=[0.35, 0.2, 0.15, 0.15, 0.05, 0.1])
    if mode == "none":
        case.sw = None
    elif mode == "int":
        case.sw = rng.randint(1, 5, n).astype(float)
    elif mode == "float":
        case.sw = rng.rand(n) * 2 + 0.05
    elif mode == "ones":
        case.sw = np.ones(n)
    else:
        case.sw = rng.randint(0, 4, n).astype(float)
        case.sw[rng.permutation(n)[: max(1, n // 2)]] += 1.0
    if mode in ("int", "float", "zeros") and rng.rand() < 0.12:
        case.sw = case.sw * float(rng.choice([0.01, 0.25, 40.0, 300.0, 5000.0]))
    if case.sw is not None and rng.rand() < 0.5:
        case.sw = case.sw.astype(np.float32)
    case.wmode = mode
    return case


def gen_params(rng, case, **force):
    p = case.X.shape[1]
    d = dict(
        n_estimators=int(rng.choice([1, 2, 3, 5]) if rng.rand() < 0.985 else rng.choice([11, 24])),
        step=float(rng.choice([0.01, 0.3, 1.0, 1.0, 1.0, 5.0, 100.0])),
        aggregation=bool(rng.rand() < 0.75),
        max_depth=None if rng.rand() < 0.6 else int(rng.randint(2, 7)),
        min_samples_split=2 if rng.rand() < 0.6 else int(rng.randint(2, 15)),
        min_samples_leaf=1 if rng.rand() < 0.6 else int(rng.randint(1, 8)),
        max_bins=256 if rng.rand() < 0.4 else int(rng.choice([3, 4, 7, 15, 16, 17, 63, 64, 65, 128, 255, 257, 600])),
        random_state=int(rng.randint(0, 2 ** 31 - 1)),
    )
    if rng.rand() < 0.08:
        d["random_state"] = int(rng.choice([0, 0, 1, 42, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]))
    if rng.rand() < 0.2:
        d["step"] = float(10.0 ** rng.uniform(-2, 2))
    r = rng.rand()
    d["max_features"] = (
        None if r < 0.4 else "auto" if r < 0.55 else "sqrt" if r < 0.6 else "log2" if r < 0.65
        else float(rng.rand() * 0.99 + 0.01) if r < 0.75 else int(rng.randint(1, p + 1))
    )
    d["cat_min_categories"] = rng.choice(["log", "log", "sqrt"]) if rng.rand() < 0.8 else int(rng.randint(4, 30))
    if not isinstance(d["cat_min_categories"], int):
        d["cat_min_categories"] = str(d["cat_min_categories"])
    if case.task == "clf":
        d["criterion"] = str(rng.choice(["gini", "entropy"]))
        d["dirichlet"] = float(rng.choice([0.5, 0.5, 0.01, 1e-4, 1.0, 10.0]))
        if rng.rand() < 0.2:
            d["dirichlet"] = float(10.0 ** rng.uniform(-4, 1))
        d["class_weight"] = "balanced" if rng.rand() < 0.3 else None
        d["multiclass"] = "ovr" if rng.rand() < 0.25 else "multinomial"
        d["cat_split_strategy"] = str(rng.choice(["binary", "all", "random"]))
        if not d["aggregation"] and rng.rand() < 0.2:
            d["dirichlet"] = 0.0
    d.update(force)
    if case.task != "clf":
        for k in ("criterion", "dirichlet", "class_weight", "multiclass", "cat_split_strategy"):
            d.pop(k, None)
    if d["aggregation"] and d.get("dirichlet") == 0.0:
        d["dirichlet"] = 0.5  # refused by fit
    case.params = d
    return case


def gen_case(rng, task=None, n=None, nt=None, p=None, container=None, kinds=None, n_classes=None, wmode=None,
             labels=None, **force):
    case = Case()
    case.task = task or str(rng.choice(["clf", "clf", "reg"]))
    gen_X(rng, case, n=n, nt=nt, p=p, container=container, kinds=kinds)
    gen_y(rng, case, n_classes=n_classes, labels=labels)
    gen_weights(rng, case, wmode)
    gen_params(rng, case, **force)
    if case.params.get("dirichlet") == 0.0 and case.wmode == "zeros":
        case.params["dirichlet"] = 0.5
    return case


SHAPES = ["shape_%s_%s" % (s, t) for s in ("rows", "batch", "columns", "trees", "classes") for t in ("clf", "reg")
          if (s, t) != ("classes", "reg")]


def shape_case(rng, name, **force):
    """Sizes beyond those drawn by default: many rows, a large prediction batch, many columns, trees or classes."""
    _, s, t = name.split("_")
    kw = dict(task=t)
    if s == "rows":
        kw.update(n=int(rng.randint(4000, 12000)), p=2, n_estimators=2, max_depth=int(rng.randint(4, 9)))
    elif s == "batch":
        kw.update(n=300, nt=int(rng.randint(3000, 9000)), p=2, n_estimators=2)
    elif s == "columns":
        kw.update(n=200, p=int(rng.choice([40, 70, 130])), n_estimators=2)
    elif s == "trees":
        kw.update(n=80, n_estimators=int(rng.choice([20, 40, 65])), p=3)
    else:
        kw.update(n=600, n_classes=int(rng.choice([11, 20, 40])), p=3, n_estimators=2)
    kw.update(force)
    return gen_case(rng, **kw)


def chain_case(rng, task, deep_left, group=3, n=None, **force):
    """A tree that peels off a few rows per level, on the left or on the right: deep, with many nodes pending."""
    n = n or int(rng.randint(150, 400))
    kw = dict(p=2, container="array", kinds=["uniq_int", "const"], wmode="none", labels="int", n_classes=3,
              min_samples_leaf=1, min_samples_split=2, max_depth=None, class_weight=None, max_features=None,
              n_estimators=2, max_bins=600)
    kw.update(force)
    c = gen_case(rng, task=task, n=n, **kw)
    c.cat = np.array([False, False])
    r = np.argsort(np.argsort(c.X[:, 0]))
    r = (r if deep_left else n - 1 - r) // group
    c.y = 1.5 ** np.minimum(r, 70).astype(float) if task == "reg" else r % 3
    return c


def used(rng, case, p=0.35, **over):
    """A forest with the parameters of the case; with probability p it has already been fitted on other data
    (rows repeated and permuted, other targets, other label names, other weights) and has predicted."""
    f = case.new(**over)
    if rng.rand() >= p:
        return f
    n = case.X.shape[0]
    idx = rng.permutation(np.concatenate([np.arange(n), rng.randint(0, n, int(rng.randint(0, 6)))]))
    X = case.X.iloc[idx] if isinstance(case.X, pd.DataFrame) else case.X[idx]
    y = np.asarray(case.y)[idx]
    if case.task == "clf":
        y = rng.permutation(np.unique(y, return_inverse=True)[1])
        r = rng.rand()
        if r < 0.6:
            y = np.array(["old%03d" % v for v in range(int(y.max()) + 1)])[y]
        elif r < 0.8 and int(y.max()) >= 2:
            y = np.minimum(y, int(y.max()) - 1)
    else:
        y = rng.permutation(y) * 3.0 + 1.0
    kw = {}
    if case.cat is not None:
        kw["categorical_features"] = case.cat
    if rng.rand() < 0.5:
        kw["sample_weight"] = rng.randint(1, 4, len(y)).astype(float)
    f.fit(X, y, **kw)
    if rng.rand() < 0.5:
        f.predict(case.Xt)
    f.wwmon_used = True
    return f
