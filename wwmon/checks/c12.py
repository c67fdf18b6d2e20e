"""C12: binning is order preserving, complete and consistent between fit and transform."""
import math

import numpy as np
import pandas as pd

from wwmon import gen

TECHNIQUE = ("runtime monitor on the encoder: learned maps observed through transform on training rows, unseen rows, boundary "
             "probes and shuffled batches; order, separation, balance, bijection and missing-bin rules checked by an "
             "independent oracle on raw values")
RULE = ("each case fits an encoder (directly or inside a forest) on random mixed columns and checks every column on several "
        "batches; non-trivial: some column uses 3 or more bins; distinct: by hash of the binned matrices")
ASSUMPTIONS = ["values below 1e300 in magnitude; distinct neighbouring training values further apart than rounding",
               "missing values in arrays of objects or strings are documented as unsupported"]
QUICK = dict(seconds=16)
THOROUGH = dict(seconds=420)
REQUIRED = ["numerical_columns", "categorical_columns", "order_checks", "separation_checks", "balance_checks",
            "bijections", "missing_bins", "unknown_bins", "missing_only_at_transform", "type_decisions", "subsampled",
            "inverse_checks", "unknown_refused", "forest_encoders", "large_batches", "infinite_values", "infinite_training_values", "extreme_values", "subsampled_balance", "object_arrays", "many_categories", "reordered_categories"]

NAMES = ["edge_%d" % k for k in range(12)] + ["sub_%d" % k for k in range(4)] + ["obj_%d" % k for k in range(4)] + \
        ["big_cats_arr", "big_cats_df", "all_nan_arr", "all_nan_df", "one_row", "large", "very_large", "huge_values",
         "tiny_values", "object_f32"]


def directed(tier):
    return list(NAMES)


# ------------------------------------------------------------------------------------------------- columns
# a column: dict(kind, train (list/array), test, ser (how it is put in a dataframe))


def numeric(rng, n, nt, edge=None):
    k = edge or str(rng.choice(["normal", "ties", "intu", "skew", "heavy", "few", "cluster", "f32", "bigint", "near", "neg0"]))
    N = n + nt
    if k == "normal":
        c = rng.randn(N)
    elif k == "ties":
        c = np.round(rng.randn(N), int(rng.randint(0, 3)))
    elif k == "intu":
        c = rng.randint(-500, 500, N).astype(float)
    elif k == "skew":
        c = np.exp(rng.randn(N) * rng.choice([1, 4, 20]))
    elif k == "heavy":  # one value takes most of the mass
        c = rng.randn(N)
        c[rng.rand(N) < rng.choice([0.3, 0.7, 0.95])] = float(rng.choice([0.0, -5.0, 5.0, 0.3]))
    elif k == "few":
        c = rng.randint(0, int(rng.choice([1, 2, 3, 4, 6, 20, 60])), N) * 0.1
    elif k == "cluster":
        c = rng.randint(0, 4, N) * 1e3 + rng.randn(N) * 1e-3
    elif k == "f32":
        c = rng.randn(N).astype(np.float32).astype(float)
    elif k == "bigint":
        c = 2.0 ** 40 + rng.randint(0, 1000, N)
    elif k == "near":  # values one part in 1e12 apart
        c = 1.0 + rng.randint(0, 50, N) * 1e-12
    else:
        c = np.where(rng.rand(N) < 0.3, rng.choice([0.0, -0.0], N), rng.randint(-3, 4, N) * 1.0)
    return c[:n].copy(), c[n:].copy()


def add_nan(rng, a, b):
    r = rng.rand()
    if r < 0.35:
        return a, b
    if r < 0.7:
        a[rng.rand(a.size) < rng.choice([0.02, 0.2, 0.8])] = np.nan
        if np.isnan(a).all():
            a[0] = 0.5
    b[rng.rand(b.size) < 0.3] = np.nan
    return a, b


def exactly(rng, n, nt, u):
    """A column with exactly u distinct training values (u <= n)."""
    vals = np.sort(rng.choice(100000, u, replace=False)).astype(float) / 7.0
    a = np.concatenate([vals, rng.choice(vals, n - u)])
    rng.shuffle(a)
    b = rng.choice(vals, nt) + rng.choice([0.0, 0.0, 0.01, -0.01], nt)
    return a, b


def codes_of(values):
    return pd.factorize(pd.Series(np.asarray(values, dtype=object)))[0]


def check_numeric(rep, j, tr, te, btr, bte, max_bins, subsampled, label):
    rep.ev("numerical_columns")
    v = np.concatenate([tr, te]).astype(float)
    b = np.concatenate([btr, bte]).astype(np.int64)
    na = np.isnan(v)
    w, c = v[~na], b[~na]
    if c.size and (c.min() < 0 or c.max() >= max_bins):
        rep.bad("%s column %d: bin %d for max_bins=%d" % (label, j, c.max(), max_bins))
        return False
    o = np.argsort(w, kind="stable")
    ws, cs = w[o], c[o]
    rep.ev("order_checks", max(0, ws.size - 1))
    d = np.diff(cs)
    if (d < 0).any():
        i = int(np.flatnonzero(d < 0)[0])
        rep.bad("%s column %d: %r -> bin %d but %r -> bin %d" % (label, j, ws[i], cs[i], ws[i + 1], cs[i + 1]))
        return False
    same = np.diff(ws) == 0
    if (d[same] != 0).any():
        i = int(np.flatnonzero(same & (d != 0))[0])
        rep.bad("%s column %d: the value %r goes to bins %d and %d" % (label, j, ws[i], cs[i], cs[i + 1]))
        return False
    if na.any():
        m = np.unique(b[na])
        rep.ev("missing_bins")
        rep.ev("missing_only_at_transform", bool(np.isnan(te).any() and not np.isnan(tr).any()))
        if m.size != 1:
            rep.bad("%s column %d: missing values go to bins %s" % (label, j, m[:5].tolist()))
            return False
        if c.size and m[0] <= c.max():
            rep.bad("%s column %d: missing values share bin %d with the value %r" % (label, j, m[0], w[np.argmax(c)]))
            return False
    t = tr[~np.isnan(tr)].astype(float)
    bt = btr[~np.isnan(tr)].astype(np.int64)
    if t.size == 0 or subsampled:
        return True
    u, first = np.unique(t, return_index=True)
    if u.size <= max_bins:
        gap = np.diff(u)
        mag = np.maximum(np.abs(u[1:]), np.abs(u[:-1]))
        ok = np.isinf(mag) | (gap > 4 * np.spacing(np.where(np.isinf(mag), 0.0, mag)))
        ub = bt[first]
        rep.ev("separation_checks", int(ok.sum()))
        sep = np.diff(ub) > 0
        if (ok & ~sep).any():
            i = int(np.flatnonzero(ok & ~sep)[0])
            rep.bad("%s column %d: %d distinct values, max_bins=%d, but %r and %r share bin %d"
                    % (label, j, u.size, max_bins, u[i], u[i + 1], ub[i]))
            return False
    else:
        # rows of a bin strictly below its largest value: at most one quantile interval
        lim = t.size / max_bins + 2.0
        o = np.argsort(bt, kind="stable")
        for k in np.unique(bt):
            z = t[bt == k]
            inside = int((z < z.max()).sum())
            rep.ev("balance_checks")
            if inside > lim:
                rep.bad("%s column %d: bin %d holds %d rows below its largest value, %d rows in %d bins"
                        % (label, j, k, inside, t.size, max_bins))
                return False
    return True


def check_categorical(rep, j, tr, te, btr, bte, label, declared=()):
    rep.ev("categorical_columns")
    rep.ev("bijections")
    tr = np.asarray(tr, dtype=object)
    te = np.asarray(te, dtype=object)
    m = {}
    extra = set()
    na_tr = pd.isna(tr)
    for v, b in zip(tr[~na_tr], btr[~na_tr].tolist()):
        if m.setdefault(v, b) != b:
            rep.bad("%s column %d: category %r goes to bins %d and %d" % (label, j, v, m[v], b))
            return None
    inv = {}
    for v, b in m.items():
        if b in inv:
            rep.bad("%s column %d: categories %r and %r share bin %d" % (label, j, v, inv[b], b))
            return None
        inv[b] = v
    for b in np.unique(btr[na_tr]).tolist():
        extra.add(b)
        rep.ev("missing_bins")
    rep.ev("many_categories", len(m) > 127)
    for v, b in zip(te, bte.tolist()):
        if pd.isna(v):
            extra.add(b)
            rep.ev("missing_bins")
            rep.ev("missing_only_at_transform", not na_tr.any())
        elif v in m:
            if m[v] != b:
                rep.bad("%s column %d: category %r goes to bin %d at fit and %d later" % (label, j, v, m[v], b))
                return None
        elif v in declared:  # a category of the training dtype without a training row: known, with a bin of its own
            if b in inv and inv[b] != v:
                rep.bad("%s column %d: categories %r and %r share bin %d" % (label, j, v, inv[b], b))
                return None
            m[v] = b
            inv[b] = v
        else:
            extra.add(b)
            rep.ev("unknown_bins")
    if len(extra) > 1:
        rep.bad("%s column %d: missing values and unknown categories go to bins %s" % (label, j, sorted(extra)))
        return None
    for b in extra:
        if b in inv:
            rep.bad("%s column %d: missing or unknown values share bin %d with category %r" % (label, j, b, inv[b]))
            return None
    return m


def cmin(cmc, n):
    if isinstance(cmc, (int, np.integer)):
        return int(cmc)
    return int(max(2, math.floor(math.log(n)))) if cmc == "log" else int(max(2, math.floor(math.sqrt(n))))


def object_f32(rep, rng):
    """Numerical columns of object arrays with values that float32 cannot hold (known finding)."""
    from wildwood.preprocessing import Encoder, features_bitarray_to_array

    n = 30
    v = np.sort(rng.choice(1000, n, replace=False)) + 2.0 ** 24
    X = np.empty((n, 2), dtype=object)
    X[:, 0] = ["a", "b", "c"] * 10
    X[:, 1] = list(v)
    enc = Encoder(max_bins=64, is_categorical=None, handle_unknown="consider_missing", random_state=0).fit(X)
    b = features_bitarray_to_array(enc.transform(X))[:, 1].astype(int)
    rep.nontrivial = True
    rep.set_sig(b)
    rep.ev("object_arrays")
    if b.max() == n - 1 and np.array_equal(b, np.arange(n)):
        return
    t = (v[1:] + v[:-1]) / 2
    rounded = np.searchsorted(t, v.astype(np.float32).astype(float), side="left")
    if np.array_equal(b, rounded):
        rep.bad("[key:object_f32] column of an object array with the distinct values %s...: bins %s..." % (
            v[:6].tolist(), b[:6].tolist()))
    else:
        rep.bad("column of an object array with %d distinct values %s: bins %s" % (n, v.tolist(), b.tolist()))


def run_case(rep, rng, name, tier):
    from wildwood.preprocessing import Encoder, features_bitarray_to_array

    if name == "object_f32":
        return object_f32(rep, rng)
    n = int(rng.choice([2, 3, 5, 10, 40, 64, 65, 100, 200, 500])) + int(rng.randint(0, 3))
    nt = int(rng.randint(1, 80))
    p = int(rng.randint(1, 7))
    max_bins = int(rng.choice([3, 4, 5, 8, 16, 31, 64, 100, 128, 255, 256, 257, 400]))
    container = str(rng.choice(["array", "df", "df"]))
    cmc = rng.choice(["log", "sqrt"]) if rng.rand() < 0.7 else int(rng.randint(4, 30))
    cmc = cmc if isinstance(cmc, int) else str(cmc)
    subsample = None
    if name is not None:
        if name.startswith("edge"):
            max_bins = int(rng.choice([3, 4, 7, 16, 64, 255, 256]))
            n = max_bins * 2 + int(rng.randint(0, 40)) + 5
        if name.startswith("obj"):
            container = "object"
        if name == "large":
            n, max_bins, p = 20000, 256, 3
        if name == "very_large":
            n, max_bins, p, container = 130000, int(rng.choice([16, 256])), 2, "array"
        if name in ("huge_values", "tiny_values"):
            container = str(rng.choice(["array", "df"]))
        if name == "one_row":
            n = 1
        if name.startswith("big_cats"):
            container = "array" if name.endswith("arr") else "df"
            n = 1500
        if name.startswith("all_nan"):
            container = "array" if name.endswith("arr") else "df"
    elif rng.rand() < 0.1:
        container = "object"
    if (name or "").startswith("sub") or (name is None and rng.rand() < 0.004):
        n = int(rng.randint(52000, 70000))
        subsample = 50000
        p = min(p, 3)
        max_bins = int(rng.choice([4, 8, 16]))
        container = str(rng.choice(["array", "df"]))

    cols, kinds = [], []  # (train values, test values, is numeric dtype)
    for j in range(p):
        if (name or "").startswith("edge"):
            u = max_bins + int(rng.choice([-1, 0, 1, 2]))
            a, b = exactly(rng, n, nt, max(2, u))
            if rng.rand() < 0.4:
                b[rng.rand(nt) < 0.3] = np.nan
            if rng.rand() < 0.3:
                a[rng.permutation(n)[:2]] = a[0]
                k = rng.permutation(n)[:3]
                keep = set(a[np.setdiff1d(np.arange(n), k)])
                a[[i for i in k if a[i] in keep]] = np.nan
            kind = "num"
        elif (name or "").startswith("all_nan") and j == 0:
            a, b = np.full(n, np.nan), np.full(nt, np.nan)
            b[rng.rand(nt) < 0.5] = 1.0
            kind = "num"
        elif (name or "").startswith("big_cats") and container == "df":
            a, b = gen.df_column(rng, "str_many", n, nt)
            kind = "str"
        elif container == "array" or rng.rand() < 0.5:
            a, b = numeric(rng, n, nt)
            if container != "object" and (rng.rand() < 0.06 or name in ("huge_values", "tiny_values")):
                s = -1.0 if name == "tiny_values" or (name is None and rng.rand() < 0.3) else 1.0
                a, b = (rng.choice([-1.0, 1.0, 1.0], z.size) * 10.0 ** (s * rng.uniform(20, 290, z.size)) for z in (a, b))
                rep.ev("extreme_values")
            if name == "very_large":
                a = np.sort(a)[::-1 if rng.rand() < 0.5 else 1].copy()
            if (name or "").startswith("big_cats"):
                k = int(rng.choice([126, 127, 128, 129, 255, 256, 257, 400]))
                a, b = (rng.randint(0, k, n) * 1.0), (rng.randint(0, k + 3, nt) * 1.0)
            if container != "object":
                a, b = add_nan(rng, a, b)
            else:  # transform rounds these to float32 (known finding, see object_f32): exact values only
                a, b = a.astype(np.float32).astype(float), b.astype(np.float32).astype(float)
            kind = "num"
        else:
            kind = str(rng.choice(["str", "str_nan", "category", "bool", "int", "str_many", "category_unused"]))
            if container == "object":
                kind = "str"
            if kind == "int":
                a, b = rng.randint(-40, 40, n), rng.randint(-45, 45, nt)
                kind = "num"
            else:
                a, b = gen.df_column(rng, kind, n, nt)
        if subsample is not None and kind == "num" and rng.rand() < 0.6:
            a = np.sort(a)  # rows in the order of the column: a subset that is not drawn at random shows
            if rng.rand() < 0.5:
                a = a[::-1].copy()
        if kind == "num" and container != "object" and np.asarray(a).dtype.kind == "f" and subsample is None and rng.rand() < 0.25:
            b[rng.rand(nt) < 0.2] = np.inf
            b[rng.rand(nt) < 0.2] = -np.inf
            if np.unique(a[~np.isnan(a)]).size + 2 <= max_bins and n > 4 and rng.rand() < 0.5:
                i = rng.permutation(n)
                c = a.copy()
                c[i[:1]] = np.inf
                c[i[1:1 + int(rng.randint(2))]] = -np.inf
                if np.isfinite(c).any():
                    a = c
                    rep.ev("infinite_training_values")
            rep.ev("infinite_values")
        cols.append((a, b))
        kinds.append(kind)
    # containers
    if container == "array":
        X = np.column_stack([a for a, _ in cols]).astype(float)
        Xt = np.column_stack([b for _, b in cols]).astype(float)
        dt = str(rng.choice(["f8", "f8", "f4", "i8", "i4", "i2"]))
        if dt in ("i8", "i4", "i2"):
            if not np.isfinite(X).all() or not np.isfinite(Xt).all() or np.abs(np.vstack([X, Xt])).max() > 30000:
                dt = "f8"
        Z = np.abs(np.vstack([X, Xt, np.zeros((1, p))]))
        if dt == "f4" and Z[np.isfinite(Z)].max() > 1e30:
            dt = "f8"
        X, Xt = X.astype(dt), Xt.astype(dt)
        if rng.rand() < 0.4:
            X = np.asfortranarray(X)
        if rng.rand() < 0.3:
            Xt = np.asfortranarray(Xt)
    elif container == "object":
        X = np.empty((n, p), dtype=object)
        Xt = np.empty((nt, p), dtype=object)
        for j, (a, b) in enumerate(cols):
            X[:, j] = list(np.asarray(a, dtype=object))
            Xt[:, j] = list(np.asarray(b, dtype=object))
        rep.ev("object_arrays")
    else:
        X = pd.concat([pd.Series(a) for a, _ in cols], axis=1)
        Xt = pd.concat([pd.Series(b) for _, b in cols], axis=1)
        X.columns = Xt.columns = ["c%d" % j for j in range(p)]
        if rng.rand() < 0.3:
            Xt.index = rng.permutation(nt) + 1000
    cell = lambda Z, j: (Z.iloc[:, j].to_numpy() if isinstance(Z, pd.DataFrame) else Z[:, j])
    decl = None
    if rng.rand() < 0.5 and container != "object":
        decl = rng.rand(p) < 0.5
        if container == "df":
            decl = decl | np.array([k != "num" for k in kinds])
        if (name or "").startswith("big_cats"):
            decl[:] = True
    elif (name or "").startswith("edge"):
        decl = np.zeros(p, dtype=bool)
    elif (name or "").startswith("big_cats") and container == "array":
        decl = np.ones(p, dtype=bool)
    use_forest = name != "one_row" and container != "object" and n >= 6 and rng.rand() < 0.3 and subsample is None
    rs = int(rng.randint(0, 10000))
    if use_forest:
        from wildwood import ForestRegressor

        kw = dict(n_estimators=1, max_bins=max_bins, cat_min_categories=cmc, max_depth=2, random_state=rs)
        if isinstance(cmc, int) and cmc < 4:
            kw["cat_min_categories"] = cmc = "log"
        f = ForestRegressor(**kw).fit(X, np.arange(n) * 1.0, categorical_features=decl)
        enc = f._encoder
        rep.ev("forest_encoders")
        is_cat = np.asarray(f.is_categorical_).astype(bool)
    else:
        enc = Encoder(max_bins=max_bins, cat_min_categories=cmc, is_categorical=decl, subsample=subsample,
                      handle_unknown="consider_missing", random_state=rs)
        if rng.rand() < 0.3:  # no residue of an earlier fit
            enc.fit(X[: max(1, n // 2)])
        r = enc.fit(X)
        rep.check(r is enc, "fit does not return the encoder")
        is_cat = np.asarray(enc.is_categorical_).astype(bool)
    T = lambda Z: features_bitarray_to_array(enc.transform(Z)).astype(np.int64)
    B, Bt = T(X), T(Xt)
    if B.shape != X.shape or Bt.shape != Xt.shape:
        rep.bad("binned matrix has shape %s for %s" % (B.shape, X.shape))
        return
    # the same value, the same bin: any other batch
    pick = rng.randint(0, n, int(rng.randint(1, 40)))
    sub = X.iloc[pick] if isinstance(X, pd.DataFrame) else X[pick]
    if not np.array_equal(T(sub), B[pick]):
        rep.bad("rows binned in another batch get other bins")
        return
    if rng.rand() < 0.1 or name is not None:  # a large batch in which the rows with a missing value come last
        nanrow = (X.isna().to_numpy() if isinstance(X, pd.DataFrame) else pd.isna(X)).any(axis=1)
        pick = rng.randint(0, n, int(rng.choice([1100, 3000, 10500])))
        pick = pick[np.argsort(nanrow[pick], kind="stable")]
        sub = X.iloc[pick] if isinstance(X, pd.DataFrame) else X[pick]
        rep.ev("large_batches")
        if not np.array_equal(T(sub), B[pick]):
            rep.bad("rows binned in a batch of %d rows get other bins" % pick.size)
            return
    k = int(rng.randint(nt))
    one = Xt.iloc[k: k + 1] if isinstance(Xt, pd.DataFrame) else Xt[k: k + 1]
    if not np.array_equal(T(one)[0], Bt[k]):
        rep.bad("a row binned alone gets bins %s, in a batch %s" % (T(one)[0].tolist(), Bt[k].tolist()))
        return
    label = "%s encoder (max_bins=%d)" % (container, max_bins)
    if isinstance(Xt, pd.DataFrame) and any(k.startswith("category") for k in kinds):
        Zt = Xt.copy()  # the same values with the categories listed in another order
        for j, kd in enumerate(kinds):
            if kd.startswith("category"):
                c = Zt.iloc[:, j]
                Zt.isetitem(j, pd.Series(pd.Categorical(np.asarray(c, dtype=object), ordered=bool(rng.rand() < 0.5), categories=list(
                    rng.permutation(np.asarray(c.cat.categories, dtype=object)))), index=c.index))
        rep.ev("reordered_categories")
        if not np.array_equal(T(Zt), Bt):
            rep.bad("%s: other bins when the categories are listed in another order" % label)
            return
    for j in range(p):
        tr, te = cell(X, j), cell(Xt, j)
        # type decision
        num = kinds[j] == "num"
        rep.ev("type_decisions")
        if decl is not None and num:
            want = {bool(decl[j])}
        elif not num and container == "df":
            want = {True}
        else:
            u = pd.Series(list(tr)).nunique()
            c = cmin(cmc, n)
            want = {u <= c}
            if num and pd.isna(pd.Series(list(tr))).any() and container == "array" and u == c:
                want = {True, False}  # whether the missing value counts as a distinct one is not documented
            if not num:
                want = {True}  # strings that are no numbers
        if bool(is_cat[j]) not in want:
            rep.bad("%s column %d (%s, declared %s, %d distinct): categorical=%s"
                    % (label, j, kinds[j], None if decl is None else bool(decl[j]),
                       pd.Series(list(tr)).nunique(), bool(is_cat[j])))
            return
        if is_cat[j]:
            declared = set(X.iloc[:, j].cat.categories) if kinds[j].startswith("category") else ()
            m = check_categorical(rep, j, tr, te, B[:, j], Bt[:, j], label, declared)
            if m is None:
                return
        else:
            a = np.asarray(tr, dtype=float)
            b = np.asarray(te, dtype=float)
            # boundary probes: midpoints and neighbours of training values
            if not check_numeric(rep, j, a, b, B[:, j], Bt[:, j], max_bins, subsample is not None, label):
                return
            if subsample is not None:
                rep.ev("subsampled")
                t = a[~np.isnan(a)]
                if np.unique(t).size > 400:
                    frac = np.bincount(B[~np.isnan(a), j], minlength=max_bins) / t.size
                    rep.ev("subsampled_balance")
                    # sampling without replacement of subsample rows; ties only make bins smaller or equal
                    lim = 1.0 / max_bins + 6 * math.sqrt(1.0 / max_bins / 50000) + 0.005
                    ties = np.unique(t, return_counts=True)[1].max() / t.size
                    if frac.max() > lim + ties:
                        rep.bad("%s column %d: a bin holds %.3f of the rows" % (label, j, frac.max()))
                        return
    # probes on the numerical columns: predictions far out and just around training values
    if not is_cat.all() and container == "array" and X.dtype.kind == "f":
        P = X[rng.randint(0, n, 60)].copy()
        for j in np.flatnonzero(~is_cat):
            s = np.nan_to_num(X[:, j])
            q = s[rng.randint(0, n, 60)]
            P[:, j] = np.concatenate([q[:15], np.nextafter(q[15:30], np.inf, dtype=q.dtype),
                                      np.nextafter(q[30:45], -np.inf, dtype=q.dtype),
                                      q[45:53] * 1.5 + 1, -np.abs(q[53:]) * 3 - 1])
        Bp = T(P)
        for j in np.flatnonzero(~is_cat):
            if not check_numeric(rep, j, np.asarray(X[:, j], float), np.asarray(P[:, j], float), B[:, j], Bp[:, j],
                                 max_bins, True, label + " probes"):
                return
    # inverse transform: the category, or an interval that holds the value
    if container != "object" and not use_forest and rng.rand() < 0.5 and not (name or "").startswith("all_nan"):
        inv = enc.inverse_transform(enc.transform(X))
        for j in range(p):
            c = list(inv.iloc[:, j])
            tr = cell(X, j)
            for i in rng.randint(0, n, 25):
                rep.ev("inverse_checks")
                if not is_cat[j] and tr[i] in (np.inf, -np.inf):
                    continue
                if pd.isna(tr[i]):
                    ok = pd.isna(c[i])
                elif is_cat[j]:
                    ok = c[i] == tr[i]
                else:
                    ok = (not pd.isna(c[i])) and tr[i] in c[i]
                if not ok:
                    rep.bad("%s column %d: inverse_transform turns %r into %r" % (label, j, tr[i], c[i]))
                    return
    # handle_unknown="error"
    if is_cat.any() and not use_forest and rng.rand() < 0.5:
        e2 = Encoder(max_bins=max_bins, cat_min_categories=cmc, is_categorical=decl, subsample=subsample,
                     handle_unknown="error", random_state=rs).fit(X)
        if not np.array_equal(features_bitarray_to_array(e2.transform(X)), B):
            rep.bad("%s: handle_unknown changes the bins of known values" % label)
            return
        unknown = np.zeros(nt, dtype=bool)
        for j in np.flatnonzero(is_cat):
            known = set(np.asarray(cell(X, j), dtype=object).tolist())
            if kinds[j].startswith("category"):
                known |= set(X.iloc[:, j].cat.categories)
            unknown |= np.array([(not pd.isna(v)) and v not in known for v in cell(Xt, j)])
        good = Xt.iloc[~unknown] if isinstance(Xt, pd.DataFrame) else Xt[~unknown]
        if len(good):
            if not np.array_equal(features_bitarray_to_array(e2.transform(good)), Bt[~unknown]):
                Z = features_bitarray_to_array(e2.transform(good)).astype(int)
                w = np.argwhere(Z != Bt[~unknown])[0]
                rep.bad("%s: handle_unknown changes the bins of known values: %r (categorical %s): %d, %d" % (
                    label, cell(good, w[1])[w[0]], is_cat[w[1]], Z[w[0], w[1]], Bt[~unknown][w[0], w[1]]))
                return
        if unknown.any():
            try:
                e2.transform(Xt)
                rep.bad("%s: unknown categories accepted with handle_unknown='error'" % label)
                return
            except ValueError:
                rep.ev("unknown_refused")
    rep.nontrivial = bool((B.max(axis=0) >= 2).any())
    rep.set_sig(B, Bt, container, max_bins)
    if name is None and rng.rand() < 0.01:
        rep.sample = dict(container=container, n=n, max_bins=max_bins, kinds=kinds, categorical=is_cat.tolist(),
                          bins_used=[int(x) + 1 for x in B.max(axis=0)])
