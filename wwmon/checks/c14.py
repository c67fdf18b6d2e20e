"""C14: results depend on values only, not on batch, layout or container."""
import numpy as np
import pandas as pd

from wwmon import gen, ref

TECHNIQUE = ("metamorphic runtime monitor: the same values are presented in other batches, orders, memory layouts, dtypes, "
             "indices and containers, to predict and to fit; outputs and leaves of every row compared")
RULE = ("each case fits a forest and compares 4 to 8 presentations of the same rows; non-trivial: some tree has 3 or more "
        "nodes; distinct: by hash of parameters and outputs")
ASSUMPTIONS = ["dtype changes are limited to those that keep every value exactly; float16 is left out (pandas refuses it)",
               "outputs are compared within 1e-5 (order of additions), leaves exactly"]
QUICK = dict(seconds=17)
THOROUGH = dict(seconds=420)
REQUIRED = ["batch_large", "all_columns_categorical", "rows_compared", "batch_permuted", "batch_single", "batch_subset", "batch_mixed", "batch_all_missing",
            "layout_predict", "dtype_predict", "container_predict", "index_predict", "fit_layout", "fit_dtype",
            "fit_container", "fit_declared", "category_predict", "fit_category", "regressors", "classifiers", "unknown_rows",
            "object_fit", "refits", "batch_refilled", "refilled_fit", "fits_on_used_forest"]
TOL = 1e-5


def directed(tier):
    out = []
    for k in ("array", "dataframe", "declared", "allcat", "cats", "int", "f32", "object", "manycat"):
        out += ["%s_clf" % k, "%s_reg" % k]
    return out + ["ovr", "noagg", "big", "huge_clf", "huge_reg"]


def make(rng, name):
    g = gen.gen_case
    n = int(rng.randint(12, 200))
    if name is None:
        r = rng.rand()
        task = str(rng.choice(["clf", "reg"]))
        kind = str(rng.choice(["array", "dataframe", "declared", "cats", "int", "f32", "manycat", "object", "allcat"],
                              p=[.2, .22, .13, .1, .08, .08, .08, .06, .05]))
    elif name in ("ovr", "noagg", "big"):
        c = g(rng, task="clf", n=2500 if name == "big" else 120, n_classes=4, p=4, **({"multiclass": "ovr"} if name == "ovr" else
              {"aggregation": False} if name == "noagg" else {}))
        return c, "array" if not ref.is_df(c.X) else "dataframe"
    else:
        kind, task = name.split("_")
    if kind == "huge":
        return g(rng, task=task, n=n, p=2, container="array", kinds=["nan", "nan"], n_estimators=2), "array"
    if kind in ("array", "dataframe"):
        c = g(rng, task=task, n=n, container=kind)
    elif kind == "declared":
        c = g(rng, task=task, n=n, container="array", kinds=["normal", "cat_int", "nan", "cat_nan", "ties"])
        m = np.array([False, True, False, True, bool(rng.randint(2))])
        c.cat = m if rng.rand() < 0.5 else np.flatnonzero(m)
    elif kind == "allcat":
        c = g(rng, task=task, n=n, container="array", kinds=["cat_int", "ties", "cat_nan"][: int(rng.randint(1, 4))])
        c.cat = np.arange(c.X.shape[1])
        c.cat = c.cat if rng.rand() < 0.5 else c.cat >= 0
    elif kind == "cats":
        c = g(rng, task=task, n=n, container="dataframe", kinds=["str", "category", "str_nan", "normal"])
        c.cat = None
    elif kind == "manycat":
        c = g(rng, task=task, n=max(n, 150), container="dataframe", kinds=["str_many", "str_nan", "nan"])
        m = rng.rand(len(c.X)) < 0.3
        c.X.iloc[np.flatnonzero(m), 0] = np.nan
        c.cat = None
    elif kind == "int":
        c = g(rng, task=task, n=n, container="array", kinds=["int_few", "uniq_int", "binary"])
        c.X, c.Xt = np.ascontiguousarray(c.X).round(), c.Xt.round()
        if rng.rand() < 0.5:  # the whole range of a byte
            lo = int(rng.choice([0, -128]))
            for A in (c.X, c.Xt):
                A[:, 1] = rng.randint(lo, lo + 256, len(A))
                A[:, 0] = np.clip(A[:, 0], lo, lo + 255)
                A[:, 2] = np.clip(A[:, 2], lo, lo + 255)
            c.y = c.y if rng.rand() < 0.3 else (c.X[:, 1] + 20 * rng.randn(len(c.X)) > lo + 128).astype(int if task == "clf" else float)
    elif kind == "f32":
        c = g(rng, task=task, n=n, container="array", kinds=["normal", "skew", "nan", "offset"])
        c.X, c.Xt = c.X.astype(np.float32).astype(float), c.Xt.astype(np.float32).astype(float)
    elif kind == "object":
        c = g(rng, task=task, n=n, container="array", kinds=["normal", "uniq_int", "offset"])
        # values that float32 can hold: see the known finding of C12
        c.X, c.Xt = c.X.astype(np.float32).astype(float), c.Xt.astype(np.float32).astype(float)
        c.cat = None  # declared numerical columns of object arrays are taken as categorical, as documented
    return c, kind


def kind_of(name):
    return name.split("_")[0] if name else None


def take(X, idx):
    return X.iloc[idx] if ref.is_df(X) else X[idx]


def cat_vstack(X, Z):
    if not ref.is_df(X):
        return np.vstack([X, Z])
    out = []
    for j in range(X.shape[1]):
        a, b = X.iloc[:, j], Z.iloc[:, j]
        if a.dtype.name == "category" and b.dtype.name == "category":
            out.append(pd.Series(pd.api.types.union_categoricals([a, b])))
        else:
            out.append(pd.concat([a, b], ignore_index=True))
    df = pd.concat(out, axis=1)
    df.columns = X.columns
    return df


def observe(f, X):
    f.n_jobs = 1
    P = np.asarray(ref.outputs(f, X), dtype=np.float64)
    A = np.asarray(f.apply(X)).astype(np.int64)
    if A.shape[0] != len(f.trees) or A.shape[1] != X.shape[0]:
        A = A.T
    return P, A.T  # rows first


def compare(rep, ev, got, want, what):
    rep.ev(ev)
    rep.ev("rows_compared", want[0].shape[0])
    P, A = got
    Q, B = want
    if P.shape != Q.shape:
        rep.bad("%s: output has shape %s instead of %s" % (what, P.shape, Q.shape))
        return False
    if not np.array_equal(A, B):
        i = int(np.argwhere((A != B).any(axis=1))[0, 0])
        rep.bad("%s: row %d goes to leaves %s instead of %s" % (what, i, A[i].tolist()[:8], B[i].tolist()[:8]))
        return False
    s = max(1.0, float(np.abs(Q).max()))
    d = np.abs(P - Q)
    if not (d <= TOL * s).all():
        i = int(np.argmax(d.reshape(d.shape[0], -1).max(axis=1)))
        rep.bad("%s: row %d is predicted %s instead of %s" % (what, i, np.array(P[i]).tolist(), np.array(Q[i]).tolist()))
        return False
    return True


def layouts(rng, X):
    """The same values in another memory layout."""
    if ref.is_df(X):
        k = int(rng.randint(6))
        if k == 4:
            Z = X.copy()
            m = len(X)
            Z.index = [np.arange(m)[::-1], np.arange(m)[::-1] * 0.5, pd.date_range("2020-01-01", periods=m)[::-1],
                       pd.MultiIndex.from_arrays([np.arange(m)[::-1] % 3, np.arange(m)[::-1]]),
                       ["%06d" % i for i in range(m)][::-1]][int(rng.randint(5))]
            return Z, "reversed index"
        if k == 5:
            Z = X.copy()
            q = X.shape[1]
            Z.columns = [list(range(q))[::-1], ["z%d" % i for i in range(q)][::-1], ["same"] * q,
                         list(rng.permutation(q)), [("a", -i) for i in range(q)]][int(rng.randint(5))]
            return Z, "columns named %r" % (list(Z.columns),)
        if k == 0:
            Z = X.copy()
            Z.index = rng.permutation(len(X)) * 3 - 7
            return Z, "index"
        if k == 1:
            Z = X.copy()
            Z.index = ["r"] * len(X)
            return Z, "constant index"
        if k == 2:
            Z = pd.concat([X, X], axis=0)
            return Z.iloc[: len(X)], "slice"
        Z = X.copy()
        Z.columns = ["other%d" % i for i in range(X.shape[1])]
        return Z, "column names"
    k = int(rng.randint(5))
    if k == 0:
        return np.asfortranarray(X), "F"
    if k == 1:
        return np.ascontiguousarray(X), "C"
    if k == 2:
        big = np.full((2 * X.shape[0], 2 * X.shape[1]), 77, dtype=X.dtype)
        big[1::2, ::2] = X
        return big[1::2, ::2], "strided"
    if k == 3:
        return np.ascontiguousarray(X[::-1, ::-1])[::-1, ::-1], "reversed"
    Z = X.copy()
    Z.setflags(write=False)
    return Z, "read-only"


def dtypes(rng, kind, X):
    if ref.is_df(X):
        Z = X.copy()
        cols = []
        for j in range(Z.shape[1]):
            c = Z.iloc[:, j]
            if c.dtype.kind == "i":
                opts = ["int64", "float64"]
                if c.abs().max() < 100:
                    opts += ["int8", "uint8" if c.min() >= 0 else "int16", "float32"]
                elif c.abs().max() < 30000:
                    opts += ["int16", "int32", "float32"]
                c = c.astype(str(rng.choice(opts)))
            elif c.dtype == np.float32:
                c = c.astype(np.float64)
            elif c.dtype == np.float64 and c.notna().all() and (c == c.round()).all() and c.abs().max() < 1e6:
                c = c.astype(str(rng.choice(["int64", "int32", "float32"])))
            cols.append(c)
        Z = pd.concat(cols, axis=1)
        Z.columns = X.columns
        return Z
    if kind == "f32":
        return X.astype(np.float32)
    if kind == "int":
        lim = np.abs(X).max()
        opts = ["int64", "int32", "float64"]
        for d in ("int8", "uint8", "int16", "uint16", "uint32", "uint64"):
            if X.min() >= np.iinfo(d).min and X.max() <= np.iinfo(d).max:
                opts.append(d)
        if lim < 2 ** 24:
            opts.append("float32")
        if len(opts) > 6 or rng.rand() < 0.5:
            return X.astype(str(rng.choice(opts)))
        return X.astype(str(rng.choice(["int64", "int32", "int16" if lim < 30000 else "int64",
                                        "float32" if lim < 1e6 else "int64"])))
    if kind == "object":
        return X.astype(object)
    return None


def recategorize(rng, X, fitX):
    """String columns as category (or back), with categories in another order."""
    cols = []
    for j in range(X.shape[1]):
        c, ft = X.iloc[:, j], fitX.iloc[:, j]
        if c.dtype.name == "category":
            r = rng.rand()
            if r < 0.4:
                c = pd.Series(np.asarray(c, dtype=object), index=c.index)
            elif r < 0.8:
                c = c.cat.set_categories(list(rng.permutation(np.asarray(c.cat.categories, dtype=object))))
            else:
                c = c.cat.remove_unused_categories()
        elif c.dtype == object:
            if rng.rand() < 0.7:
                c = c.astype("category")
                if rng.rand() < 0.5:
                    c = c.cat.set_categories(list(rng.permutation(np.asarray(c.cat.categories, dtype=object))))
        if c.dtype.name == "category" and rng.rand() < 0.5:
            c = c.cat.as_ordered()
        cols.append(c)
    Z = pd.concat(cols, axis=1)
    Z.columns = X.columns
    return Z


def fit_kw(case):
    kw = {}
    if case.sw is not None:
        kw["sample_weight"] = case.sw
    return kw


def dress(rng, v):
    """The same targets or weights in another container."""
    r = rng.rand()
    if v is None or r < 0.5:
        return v
    v = np.asarray(v)
    if r < 0.65:
        return pd.Series(v, index=rng.permutation(v.size) * 2 + 1)
    if r < 0.75:
        return v.tolist()
    if r < 0.9:
        return np.repeat(v, 2)[::2]
    return v[::-1].copy()[::-1]


def run_case(rep, rng, name, tier):
    case, kind = make(rng, name)
    rep.ev("classifiers" if case.task == "clf" else "regressors")
    f = case.fit()
    X, Xt = case.X, case.Xt
    rows = cat_vstack(X[: min(len(X), 60)], Xt) if not ref.is_df(X) else cat_vstack(X.iloc[: min(len(X), 60)], Xt)
    base = observe(f, rows)
    n = rows.shape[0]
    rep.ev("unknown_rows", len(Xt))
    # ---- prediction: batches
    perm = rng.permutation(n)
    sub = lambda o, i: (o[0][i], o[1][i])
    if not compare(rep, "batch_permuted", observe(f, take(rows, perm)), sub(base, perm), "permuted batch"):
        return
    for i in rng.randint(0, n, 4):
        i = np.array([int(i)])
        if not compare(rep, "batch_single", observe(f, take(rows, i)), sub(base, i), "row %d alone" % i[0]):
            return
    i = rng.randint(0, n, int(rng.choice([2, 3, 31, 63, 64, 65, 130])))
    if not compare(rep, "batch_subset", observe(f, take(rows, i)), sub(base, i), "subset with repetitions"):
        return
    # a large batch in which the rows with a missing value come last
    if (name is not None and name.endswith("_clf")) or rng.rand() < 0.2:
        i = rng.randint(0, n, int(rng.choice([1030, 2500, 5000, 10500])))
        nanrow = (rows.isna().to_numpy() if ref.is_df(rows) else pd.isna(rows)).any(axis=1)
        i = i[np.argsort(nanrow[i], kind="stable")]
        if rng.rand() < 0.5:
            keep = np.flatnonzero(nanrow[i])[1:]
            i = np.delete(i, keep)
        if not compare(rep, "batch_large", observe(f, take(rows, i)), sub(base, i), "batch of %d rows" % i.size):
            return
    if kind_of(name) == "huge":  # hundreds of thousands of rows, a missing value only in the last
        nanrow = pd.isna(rows)
        for j in range(2):
            full, last = np.flatnonzero(~nanrow.any(axis=1)), np.flatnonzero(nanrow[:, j])
            if full.size and last.size:
                i = np.concatenate([rng.choice(full, int(rng.randint(270000, 330000))), last[:1]])
                rep.ev("huge_batches")
                if not compare(rep, "batch_large", observe(f, take(rows, i)), sub(base, i), "batch of %d rows" % i.size):
                    return
    # rows together with hostile neighbours
    if ref.is_df(rows):
        hostile = None
    else:
        hostile = np.full((5, rows.shape[1]), np.nan)
        hostile[3:] = 1e9
        hostile[4] = -1e9
    if hostile is not None:
        Z = np.vstack([rows, hostile])[rng.permutation(n + 5)] if False else np.vstack([hostile, rows])
        got = observe(f, Z)
        if not compare(rep, "batch_mixed", (got[0][5:], got[1][5:]), base, "batch with missing and far rows"):
            return
        # batches that are entirely missing in all columns or in some
        h = (got[0][:3], got[1][:3])
        if not compare(rep, "batch_all_missing", observe(f, hostile[:3]), h, "batch of entirely missing rows"):
            return
    else:
        # the rows where a column is missing, alone
        for j in range(rows.shape[1]):
            i = np.flatnonzero(rows.iloc[:, j].isna().to_numpy())
            if i.size:
                if not compare(rep, "batch_all_missing", observe(f, take(rows, i)), sub(base, i),
                               "rows whose column %d is missing, alone" % j):
                    return
        known = np.arange(min(len(X), 60))
        if not compare(rep, "batch_mixed", observe(f, take(rows, known)), sub(base, known), "training rows alone"):
            return
    # the same object holding other rows at each call
    i = rng.randint(0, n, int(rng.randint(1, 70)))
    Z = take(rows, i).copy()
    if not compare(rep, "batch_refilled", observe(f, Z), sub(base, i), "batch buffer"):
        return
    for _ in range(2):
        i = rng.randint(0, n, i.size)
        if ref.is_df(Z):
            for j in range(Z.shape[1]):
                Z.isetitem(j, take(rows, i).iloc[:, j].array)
        else:
            Z[...] = rows[i]
        if not compare(rep, "batch_refilled", observe(f, Z), sub(base, i), "batch buffer refilled with other rows"):
            return
    # ---- prediction: layouts, dtypes, containers
    for _ in range(2):
        Z, what = layouts(rng, rows)
        if not compare(rep, "index_predict" if ref.is_df(rows) else "layout_predict", observe(f, Z), base,
                       "prediction with layout %s" % what):
            return
    Z = dtypes(rng, kind, rows)
    if Z is not None:
        if not compare(rep, "dtype_predict", observe(f, Z), base, "prediction with dtype %s" % (
                Z.dtypes.tolist() if ref.is_df(Z) else Z.dtype)):
            return
    if not ref.is_df(rows):
        Z = pd.DataFrame(rows, columns=["z%d" % j for j in range(rows.shape[1])])
        if not compare(rep, "container_predict", observe(f, Z), base, "prediction on a DataFrame"):
            return
    elif all(c.dtype.kind in "uif" for _, c in rows.items()) and not any(
            c.dtype.name == "category" for _, c in rows.items()):
        if not compare(rep, "container_predict", observe(f, rows.to_numpy(dtype=np.float64)), base, "prediction on an array"):
            return
    if ref.is_df(rows) and any(c.dtype == object or c.dtype.name == "category" for _, c in rows.items()):
        if not compare(rep, "category_predict", observe(f, recategorize(rng, rows, X)), base,
                       "prediction with other category dtypes"):
            return
    # ---- fit: the same values presented otherwise
    todo = ["layout", "dtype", "container", "declared", "category", "refit"]
    rng.shuffle(todo)
    for what in todo[: (3 if name is None else 6)]:
        g, ev = None, None
        kw = fit_kw(case)
        yy = dress(rng, case.y)
        if "sample_weight" in kw:
            kw["sample_weight"] = dress(rng, kw["sample_weight"])
        rep.ev("dressed_targets", yy is not case.y)
        decl = case.cat
        if decl is not None and np.size(decl) and (
            np.all(decl) if np.asarray(decl).dtype.kind == "b" else len(set(decl)) == X.shape[1]
        ):
            rep.ev("all_columns_categorical")
        if what == "layout":
            Z, lab = layouts(rng, X)
            ev, lab = "fit_layout", "fit with layout %s" % lab
            g = gen.used(rng, case)
            if decl is not None:
                kw["categorical_features"] = decl
            g.fit(Z, yy, **kw)
        elif what == "dtype":
            Z = dtypes(rng, kind, X)
            if Z is None:
                continue
            ev, lab = "fit_dtype", "fit with another dtype"
            rep.ev("object_fit", kind == "object")
            g = gen.used(rng, case)
            if decl is not None:
                kw["categorical_features"] = decl
            g.fit(Z, yy, **kw)
        elif what == "container":
            p = X.shape[1]
            if ref.is_df(X):
                if decl is None or np.asarray(decl).dtype.kind != "b" or any(c.dtype.kind not in "uif" for _, c in X.items()):
                    continue
                Z = X.to_numpy(dtype=np.float64)
            else:
                Z = pd.DataFrame(X, columns=["z%d" % j for j in range(p)])
                if decl is None:
                    if np.isnan(X).any():
                        continue
            ev, lab = "fit_container", "fit on another container"
            g = gen.used(rng, case)
            if decl is not None:
                kw["categorical_features"] = decl
            g.fit(Z, yy, **kw)
        elif what == "declared":
            if decl is None:
                continue
            d = np.asarray(decl)
            mask = d if d.dtype.kind == "b" else np.isin(np.arange(X.shape[1]), d)
            forms = [mask, mask.tolist(), tuple(bool(b) for b in mask)]
            if mask.any():
                ix = np.flatnonzero(mask)
                forms += [ix, ix.tolist(), rng.permutation(ix), ix.astype(np.int32), np.concatenate([ix, ix[:1]])]
            form = forms[int(rng.randint(len(forms)))]
            ev, lab = "fit_declared", "categorical features declared as %r" % (form,)
            if rng.rand() < 0.5:
                g = case.new(categorical_features=form)
                g.fit(X, yy, **kw)
                lab += " at construction"
            else:
                g = gen.used(rng, case)
                g.fit(X, yy, categorical_features=form, **kw)
        elif what == "category":
            if not ref.is_df(X) or not any(c.dtype == object for _, c in X.items()):
                continue
            cols = []
            for _, c in X.items():
                cols.append(c.astype("category") if c.dtype == object and rng.rand() < 0.7 else c)
            Z = pd.concat(cols, axis=1)
            Z.columns = X.columns
            ev, lab = "fit_category", "fit with string columns as category"
            g = gen.used(rng, case)
            if decl is not None:
                kw["categorical_features"] = decl
            g.fit(Z, yy, **kw)
        else:
            ev, lab = "refits", "fit again with the same values"
            g = f
            if decl is not None:
                kw["categorical_features"] = decl
            Z = X.copy()
            if not ref.is_df(X) and rng.rand() < 0.6:
                # the caller's buffer held other values when the forest was first fitted on it
                Z = X[rng.permutation(len(X))].copy()
                g = case.new()
                g.fit(Z, yy, **kw)
                observe(g, Z)
                Z[...] = X
                rep.ev("refilled_fit")
            g.fit(Z, yy, **kw)
        if hasattr(g, "wwmon_used"):
            rep.ev("fits_on_used_forest")
            lab += " (on a forest fitted before on other data)"
        if not compare(rep, ev, observe(g, rows), base, lab):
            return
    rep.nontrivial = max(len(f.get_nodes(k)) for k in range(len(f.trees))) >= 3
    rep.set_sig(base[0], base[1])
    if name is None and rng.rand() < 0.01:
        rep.sample = dict(case.describe(), kind=kind)
