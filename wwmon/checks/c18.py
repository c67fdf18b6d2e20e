"""C18: data sets: every row exactly once, encoded from the training rows only, described faithfully."""
import os

import numpy as np
import pandas as pd

from wwmon import engine

TECHNIQUE = ("runtime monitor: rows of random and bundled data sets carry an identity through Dataset.extract, every cell of the "
             "four arrays is then recomputed from its raw row; digests of the raw data before and after; signals against "
             "their formulas")
RULE = ("each case builds a random data set (columns in any order, declared, undeclared and dropped, text or numbers as categories, "
        "categories unseen in the training part, options changed between calls) or loads a bundled one, extracts it 2 to 4 times and "
        "checks every cell; non-trivial: at least one categorical and one continuous column, or a bundled data set; distinct: by hash of "
        "the arrays")
ASSUMPTIONS = ["continuous columns hold finite numbers, categorical columns no missing value",
               "one_hot_encode together with pd_df_categories is not a supported combination",
               "data sets that need the network are not loaded"]
WARM = False
QUICK = dict(seconds=12)
THOROUGH = dict(seconds=240)
REQUIRED = ["rows_traced", "cells_checked", "one_hot_cells", "ordinal_cells", "standardized_cells", "unseen_categories", "splits",
            "stratified_classes", "repeated_extracts", "other_split", "bundled", "regression", "from_csv", "dataframes",
            "dropped_modalities", "options_changed", "raw_compared", "signals", "make_regression", "undeclared_columns",
            "rare_classes", "repeated_rows"]
LOADERS = ["breastcancer", "boston", "cardio", "churn", "letter", "satimage", "spambase", "diabetes"]


def prepare(tier, seed, scratch):
    engine.import_wildwood()
    import wildwood.datasets.loaders  # noqa
    import wildwood.datasets.signals  # noqa


def directed(tier):
    return ["load_" + n for n in LOADERS] + ["signal_%s" % s for s in ("heavisine", "bumps", "blocks", "doppler")] + \
        ["csv_0", "csv_1", "drop_0", "drop_1", "frame_0", "frame_1", "reg_0", "reg_1", "order_0", "order_1"] + ["dups_%d" % i for i in range(4)]


# ---------------------------------------------------------------- signals
POS = np.array([0.1, 0.13, 0.15, 0.23, 0.25, 0.4, 0.44, 0.65, 0.76, 0.78, 0.81])


def signal_ref(x, name):
    x = x.astype(np.float64)
    if name == "heavisine":
        return 4 * np.sin(4 * np.pi * x) - np.sign(x - 0.3) - np.sign(0.72 - x)
    if name == "bumps":
        h = np.array([4, 5, 3, 4, 5, 4.2, 2.1, 4.3, 3.1, 5.1, 4.2])
        w = np.array([0.005, 0.005, 0.006, 0.01, 0.01, 0.03, 0.01, 0.01, 0.005, 0.008, 0.005])
        return (h / (1 + np.abs(x[:, None] - POS) / w) ** 4).sum(axis=1)
    if name == "blocks":
        h = np.array([4, -5, 3, -4, 5, -4.2, 2.1, 4.3, -3.1, 2.1, -4.2])
        return 2.0 + ((1 + np.sign(x[:, None] - POS)) * h / 2).sum(axis=1)
    return np.sqrt(x * (1 - x)) * np.sin(2 * np.pi * 1.05 / (x + 0.05)) + 0.5


def signals(rep, rng, name):
    from wildwood.datasets.signals import get_signal, make_regression

    for _ in range(4):
        n = int(rng.choice([2, 3, 10, 100, 1000]))
        x = rng.rand(n)
        if rng.rand() < 0.4:
            x = np.sort(x)
        f32 = rng.rand() < 0.3
        if f32:
            x = x.astype(np.float32)
        x0 = x.copy()
        y = get_signal(x, name)
        r = signal_ref(x, name)
        if r.max() - r.min() < 1e-3:
            continue
        r = (r - r.min()) / (r.max() - r.min())
        rep.ev("signals", n)
        tol = 2e-2 if f32 else 1e-8
        jump = np.zeros(n, dtype=bool)  # single-precision arguments may fall on the other side of a jump
        for p in np.concatenate([POS, [0.3, 0.72]]):
            jump |= np.abs(x - p) < 1e-6
        if not (x == x0).all():
            rep.bad("get_signal(%s) modified its input" % name)
        if not jump.any() and not (np.abs(y - r) <= tol).all():
            i = int(np.argmax(np.abs(y - r)))
            rep.bad("get_signal(%s) at %r gives %r, the definition %r" % (name, float(x[i]), float(y[i]), float(r[i])))
            return
    n = int(rng.randint(5, 400))
    s = int(rng.randint(10 ** 6))
    X, y = make_regression(n_samples=n, signal=name, noise=0.0, random_state=s)
    rep.ev("make_regression")
    rep.check(X.shape == (n, 1) and y.shape == (n,) and (np.diff(X[:, 0]) >= 0).all() and X.min() >= 0 and X.max() <= 1,
              "make_regression(%d, %s): shapes %s %s or inputs not sorted in [0, 1]" % (n, name, X.shape, y.shape))
    rep.check(np.allclose(y, get_signal(np.ascontiguousarray(X[:, 0]), name)), "make_regression without noise is not the signal %s" % name)
    X2, y2 = make_regression(n_samples=n, signal=name, noise=0.1, random_state=s)
    X3, y3 = make_regression(n_samples=n, signal=name, noise=0.1, random_state=s)
    rep.check(np.array_equal(X2, X3) and np.array_equal(y2, y3) and np.array_equal(X, X2),
              "make_regression(random_state=%d) is not reproducible" % s)
    if n > 100:
        sd = float(np.std(y2 - y))
        rep.check(0.05 < sd < 0.2, "make_regression(noise=0.1) adds noise of standard deviation %g" % sd)
    rep.nontrivial = True
    rep.set_sig(X, y2)


# ---------------------------------------------------------------- random data sets
def build(rng, name, rep):
    from wildwood.datasets.dataset import Dataset

    n = int(rng.randint(24, 300))
    task = "regression" if (name or "").startswith("reg") or rng.rand() < 0.25 else \
        str(rng.choice(["binary-classification", "multiclass-classification"]))
    ncont, ncat = int(rng.randint(0, 4)), int(rng.randint(0, 4))
    if name is not None:
        ncont, ncat = 2, 2
    cols, cont, cat = {}, ["id"], []
    cols["id"] = pd.Series(np.arange(n).astype(float) if rng.rand() < 0.5 else np.arange(n))
    for i in range(ncont):
        k = rng.randint(4)
        c = [rng.randn(n) * 10 ** rng.randint(-3, 4), rng.randint(-5, 6, n), np.full(n, 3.5), np.exp(rng.randn(n))][k]
        cols["num%d" % i] = pd.Series(c)
        cont.append("num%d" % i)
    for i in range(ncat):
        K = int(rng.choice([2, 3, 5, 12, max(3, n // 3)]))
        v = rng.randint(0, K, n)
        if rng.rand() < 0.6:
            c = pd.Series(np.array(["m%02d" % u for u in rng.permutation(K)], dtype=object)[v])
        else:
            c = pd.Series(v * 3 - 4)
        if rng.rand() < 0.7:
            c = c.astype("category")
        cols["cat%d" % i] = c
        cat.append("cat%d" % i)
    if rng.rand() < 0.4 or (name or "").startswith("order"):
        cols["extra"] = pd.Series(rng.randn(n))
        rep.ev("undeclared_columns")
    if task == "regression":
        lab = pd.Series(rng.randn(n) * 3)
        rep.ev("regression")
    else:
        K = 2 if task.startswith("binary") else int(rng.randint(3, 6))
        v = np.minimum(rng.randint(0, K + 2, n), K - 1)
        v[: 4 * K] = np.tile(np.arange(K), 4)
        if K > 2 and rng.rand() < 0.5:  # a class of two rows: often absent from the test part
            rare = int(rng.randint(0, K))
            v[v == rare] = (rare + 1) % K
            v[:2] = rare
            rep.ev("rare_classes")
        v = rng.permutation(v)
        lab = [pd.Series(v), pd.Series(np.array(["y%d" % u for u in range(K)])[v]), pd.Series(v * 5 - 3)][rng.randint(3)]
    label = "target"
    cols[label] = lab
    order = list(cols)
    rng.shuffle(order)
    df = pd.DataFrame({c: cols[c] for c in order})
    cont, cat = [cont[i] for i in rng.permutation(len(cont))], [cat[i] for i in rng.permutation(len(cat))]
    ds = Dataset("random", task, label_column=label, continuous_columns=cont, categorical_columns=cat or None,
                 test_size=float(rng.choice([0.2, 0.3, 0.5])), drop_columns=None)
    if (name or "").startswith("csv") or (name is None and rng.rand() < 0.2):
        rep.ev("from_csv")
        path = os.path.join(os.environ["WWMON_SCRATCH"], "ds-%d-%d.csv" % (os.getpid(), rng.randint(10 ** 9)))
        out = df.copy()
        if "extra" in out and rng.rand() < 0.7:
            ds.drop_columns = ["extra"]
        out.to_csv(path, index=False, float_format="%.17g")
        ds.load_from_csv(path, dtype={c: df[c].dtype if df[c].dtype.name != "category" else "category" for c in cols})
        os.remove(path)
        back = ds.df_raw
        if ds.drop_columns:
            out = out.drop(columns=["extra"])
        if list(back.columns) != list(out.columns):
            rep.bad("load_from_csv: columns %s instead of %s" % (list(back.columns), list(out.columns)))
        for c in out.columns:
            if not (np.asarray(back[c], dtype=object).astype(str) == np.asarray(out[c], dtype=object).astype(str)).all():
                a = pd.to_numeric(pd.Series(np.asarray(back[c], dtype=object)), errors="coerce")
                b = pd.to_numeric(pd.Series(np.asarray(out[c], dtype=object)), errors="coerce")
                if not np.allclose(a, b):
                    rep.bad("load_from_csv: column %s differs from the file" % c)
    else:
        ds.df_raw = df
    return ds


def snapshot(df):
    return (tuple(df.columns), tuple(str(t) for t in df.dtypes), tuple(df.index),
            tuple(pd.util.hash_pandas_object(df, index=True).tolist()))


def dense(A):
    return np.asarray(A.todense()) if hasattr(A, "todense") else np.asarray(A)


def audit(rep, ds, df, out, idcol, tag):
    """Every cell of the extracted arrays against the raw rows."""
    Xtr, Xte, ytr, yte = out
    frame = isinstance(Xtr, pd.DataFrame)
    if frame:
        rep.ev("dataframes")
        if list(Xtr.columns) != list(ds.columns_) or list(Xte.columns) != list(ds.columns_):
            rep.bad("%s: the DataFrame's columns are not columns_" % tag)
            return False
    cont, cat = list(ds.continuous_columns or []), list(ds.categorical_columns or [])
    n = len(df)
    A, B = (np.column_stack([np.asarray(X.iloc[:, j]).astype(float) for j in range(X.shape[1])]) if frame else dense(X).astype(float)
            for X in (Xtr, Xte))
    ytr, yte = np.asarray(ytr), np.asarray(yte)
    ntr, nte = A.shape[0], B.shape[0]
    rep.ev("splits")
    if ntr + nte != n or ytr.shape[0] != ntr or yte.shape[0] != nte:
        rep.bad("%s: %d training and %d test rows (targets %d, %d) from %d" % (tag, ntr, nte, ytr.shape[0], yte.shape[0], n))
        return False
    want = int(np.ceil(ds.test_size * n - 1e-9)) if isinstance(ds.test_size, float) else int(ds.test_size)
    if nte != want:
        rep.bad("%s: %d test rows of %d, test_size=%r" % (tag, nte, n, ds.test_size))
        return False
    # identity of the rows: a continuous column with distinct values is mapped by an increasing function
    if idcol is not None:
        if idcol not in list(ds.columns_):
            rep.bad("%s: column %s is not in columns_ %s" % (tag, idcol, ds.columns_))
            return False
        j = list(ds.columns_).index(idcol)
        z = np.concatenate([A[:, j], B[:, j]])
        raw = df[idcol].to_numpy().astype(float)
        if np.unique(z).size != n:
            rep.bad("%s: the %d distinct values of column %s became %d: rows lost or repeated, or columns_ names another column"
                    % (tag, n, idcol, np.unique(z).size))
            return False
        ids = np.empty(n, dtype=np.int64)
        ids[np.argsort(z)] = np.argsort(raw)
    else:
        # repeated rows: compare multisets of (continuous values, codes, target); nothing is standardised here
        cc = [df[c].to_numpy().astype(float) for c in cont]
        for c in cat:
            v = np.asarray(df[c], dtype=object)
            cc.append(np.array([sorted(set(v.tolist())).index(u) for u in v], dtype=float))
        lab = np.asarray(df[ds.label_column])
        cc.append(lab.astype(float) if ds.task == "regression" else np.unique(lab, return_inverse=True)[1].astype(float))
        R = np.column_stack(cc)
        G = np.column_stack([np.vstack([A, B]), np.concatenate([ytr, yte]).astype(float)])
        rep.ev("repeated_rows", n)
        if G.shape != R.shape or not np.allclose(R[np.lexsort(R.T)], G[np.lexsort(G.T)]):
            rep.bad("%s: with repeated rows, the rows of the two parts are not the rows of the raw data" % tag)
            return False
        return True
    rep.ev("rows_traced", n)
    tr, te = ids[:ntr], ids[ntr:]
    # expected matrix
    names, exp = [], []
    for c in cont:
        v = df[c].to_numpy().astype(float)
        if ds.standardize:
            m, s = v[tr].mean(), v[tr].std()
            if s <= 1e-12 * max(1.0, abs(m)):
                s = 1.0
            v = (v - m) / s
            rep.ev("standardized_cells", n)
        names.append(c)
        exp.append(v)
    ncat_names = []
    for c in cat:
        v = np.asarray(df[c], dtype=object)
        cats = sorted(set(v[tr].tolist()))
        code = {u: i for i, u in enumerate(cats)}
        k = np.array([code.get(u, -1) for u in v])
        rep.ev("unseen_categories", int((k < 0).sum()))
        if ds.one_hot_encode:
            first = 1 if ds.drop == "first" else 0
            rep.ev("dropped_modalities", first)
            for i in range(first, len(cats)):
                names.append("%s#%d" % (c, i))
                exp.append((k == i).astype(float))
            rep.ev("one_hot_cells", n * len(cats))
        else:
            names.append(c)
            exp.append(k.astype(float))
            rep.ev("ordinal_cells", n)
        ncat_names.append(c)
    if list(ds.columns_) != names:
        rep.bad("%s: columns_ is %s, the columns are %s" % (tag, list(ds.columns_)[:12], names[:12]))
        return False
    E = np.column_stack(exp)
    if A.shape[1] != E.shape[1] or B.shape[1] != E.shape[1] or ds.n_columns_ != E.shape[1]:
        rep.bad("%s: %d and %d columns (n_columns_=%s), expected %d" % (tag, A.shape[1], B.shape[1], ds.n_columns_, E.shape[1]))
        return False
    for nm, M, rows in (("training", A, tr), ("test", B, te)):
        d = np.abs(M - E[rows])
        tol = 1e-6 * (1 + np.abs(E[rows]))
        rep.ev("cells_checked", d.size)
        if not (d <= tol).all():
            i, j = np.argwhere(~(d <= tol))[0]
            rep.bad("%s: %s row %d (raw row %d), column %s: %r instead of %r" % (tag, nm, i, rows[i], names[j], M[i, j], E[rows[i], j]))
            return False
    # targets
    lab = np.asarray(df[ds.label_column])
    if ds.task == "regression":
        okk = np.allclose(np.concatenate([ytr, yte]).astype(float).ravel(), lab[ids].astype(float))
    else:
        u, inv, cnt = np.unique(lab, return_inverse=True, return_counts=True)
        okk = np.array_equal(np.asarray(ds.classes_), u) and ds.n_classes_ == u.size and \
            np.array_equal(np.concatenate([ytr, yte]), inv[ids])
        got = np.bincount(inv[te], minlength=u.size)
        rep.ev("stratified_classes", u.size)
        if (np.abs(got - cnt * nte / n) >= 1 + 1e-9).any():
            rep.bad("%s: test class counts %s, proportional shares %s" % (tag, got, np.round(cnt * nte / n, 2)))
            return False
        pr = cnt / n
        g = (1 - (pr ** 2).sum()) / (1 - 1 / u.size)
        if abs(ds.scaled_gini_ - g) > 1e-9 or abs(ds.compute_gini() - (1 - (pr ** 2).sum())) > 1e-9:
            rep.bad("%s: scaled_gini_ is %r, expected %r" % (tag, ds.scaled_gini_, g))
            return False
    if not okk:
        rep.bad("%s: targets do not belong to their rows" % tag)
        return False
    # what the data set says about itself
    say = (ds.n_samples_in_, ds.n_samples_train_, ds.n_samples_test_, ds.n_features_in_, ds.n_features_categorical_, ds.n_features_continuous_)
    true = (n, ntr, nte, len(cont) + len(cat), len(cat), len(cont))
    if say != true:
        rep.bad("%s: the data set reports (rows, train, test, features, categorical, continuous) = %s, it has %s" % (tag, say, true))
        return False
    cf = ds.categorical_features_
    if not ds.one_hot_encode and cat:
        m = np.array([c in cat for c in names])
        if cf is None or not np.array_equal(np.asarray(cf), m):
            rep.bad("%s: categorical_features_ is %s, the categorical columns are %s" % (tag, cf, m))
            return False
    elif cf is not None and (len(cf) != len(names) or np.asarray(cf).any()):
        rep.bad("%s: categorical_features_ is %s although no column is categorical" % (tag, cf))
        return False
    return True


def same(a, b):
    def eq(u, v):
        if isinstance(u, pd.DataFrame):
            return isinstance(v, pd.DataFrame) and u.equals(v)
        return np.array_equal(dense(u), dense(v))
    return all(eq(u, v) for u, v in zip(a, b))


def run_case(rep, rng, name, tier):
    if name is not None and name.startswith("signal_"):
        return signals(rep, rng, name[7:])
    if name is None and rng.rand() < 0.1:
        return signals(rep, rng, str(rng.choice(["heavisine", "bumps", "blocks", "doppler"])))
    idcol = "id"
    if name is not None and name.startswith("load_"):
        import wildwood.datasets.loaders as L

        ds = getattr(L, name)()
        rep.ev("bundled")
        df = ds.df_raw
        added = None
        # is there a continuous column with distinct values? otherwise give the data set one
        if not any(df[c].nunique() == len(df) for c in ds.continuous_columns):
            df = df.copy()
            idcol = df.shape[1] if isinstance(df.columns[0], (int, np.integer)) else "wwmon id"
            df[idcol] = rng.permutation(len(df)).astype(float)
            ds.df_raw = df
            ds.continuous_columns = list(ds.continuous_columns) + [idcol]
            added = idcol
        else:
            idcol = [c for c in ds.continuous_columns if df[c].nunique() == len(df)][0]
        try:
            Xr, yr = getattr(L, name)(raw=True)
        except TypeError:
            Xr = None
        if Xr is not None:
            rep.ev("raw_compared")
            ok = len(Xr) == len(df) and ds.label_column not in Xr.columns
            ok = ok and set(Xr.columns) == set(c for c in df.columns if c not in (ds.label_column, added))
            ok = ok and (np.asarray(yr).astype(str) == np.asarray(df[ds.label_column]).astype(str)).all()
            for c in Xr.columns if ok else []:
                a, b = np.asarray(Xr[c]), np.asarray(df[c])
                ok = ok and ((a.astype(str) == b.astype(str)).all() or np.allclose(a.astype(float), b.astype(float)))
            rep.check(ok, "%s(raw=True) and the data set hold different data" % name)
    else:
        ds = build(rng, name, rep)
        df = ds.df_raw
        if (name or "").startswith("dups"):
            # whole rows repeated; every category occurs often enough to be in the training part
            n = len(df)
            df = df.iloc[np.tile(np.arange(n), 4)[rng.permutation(4 * n)]].reset_index(drop=True)
            ds.df_raw = df
            idcol = None
    snap = snapshot(df)
    sigs = []
    rounds = int(rng.randint(2, 5))
    for r in range(rounds):
        if r or (name is not None and not name.startswith("load_")):
            ds.one_hot_encode = bool(rng.rand() < 0.5)
            ds.standardize = bool(rng.rand() < 0.5)
            ds.drop = "first" if rng.rand() < 0.2 or (name or "").startswith("drop") else None
            if (name or "").startswith("drop"):
                ds.one_hot_encode = True
            ds.pd_df_categories = bool(not ds.one_hot_encode and (rng.rand() < 0.3 or (name or "").startswith("frame")))
            if idcol is None:
                ds.one_hot_encode = ds.standardize = False
            if (name or "").startswith("frame"):
                ds.one_hot_encode, ds.pd_df_categories = False, True
            rep.ev("options_changed")
        s = int(rng.choice([0, 1, 42, rng.randint(10 ** 6)]))
        tag = "%s one_hot_encode=%s standardize=%s drop=%s pd_df_categories=%s random_state=%d" % (
            ds.name, ds.one_hot_encode, ds.standardize, ds.drop, ds.pd_df_categories, s)
        np.random.seed(int(rng.randint(10 ** 6)))
        out = ds.extract(random_state=s)
        if not audit(rep, ds, df, out, idcol, tag):
            return
        if ds.df_raw is not df or snapshot(df) != snap:
            rep.bad("%s: extract changed the raw data" % tag)
            return
        np.random.seed(int(rng.randint(10 ** 6)))
        again = ds.extract(random_state=s)
        rep.ev("repeated_extracts")
        if not same(out, again):
            rep.bad("%s: a second extract with the same random_state differs" % tag)
            return
        other = ds.extract(random_state=s + 1)
        rep.ev("other_split")
        if len(df) > 50 and same(out, other):
            rep.bad("%s: random_state=%d gives the same split" % (tag, s + 1))
            return
        sigs.append(dense(out[0].to_numpy().astype(float) if isinstance(out[0], pd.DataFrame) else out[0]).astype(float))
    rep.nontrivial = (name or "").startswith("load_") or (bool(ds.categorical_columns) and bool(ds.continuous_columns))
    rep.set_sig(*sigs)
    if name is not None and not name.startswith("load_"):
        rep.sample = dict(case=name, task=ds.task, rows=len(df), columns=[str(c) for c in df.columns],
                          declared=[list(map(str, ds.continuous_columns)), list(map(str, ds.categorical_columns or []))])
