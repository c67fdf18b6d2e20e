"""C01: predictions are probabilities, labels and in-range targets."""
import numpy as np
import pandas as pd

from wwmon import gen, ref

TECHNIQUE = ("runtime monitor: range, normalisation, finiteness and argmax assertions on every prediction of forests and "
             "trees, over hostile data sets, numeric regimes and prediction rows")
RULE = ("each case draws a data set, parameters in extreme ranges (step 1e-6 to 1e6, dirichlet 1e-12 to 1e6, weights 1e-6 "
        "to 1e6, targets up to 1e12) and prediction rows (missing, unknown, far out of range) and checks every output row; "
        "non-trivial: some tree has 3 or more nodes; distinct: by hash of outputs and data")
ASSUMPTIONS = ["probabilities may leave [0, 1] or sum to one only up to 1e-5",
               "regression predictions may leave the range of the targets only by the rounding of a single-precision sum",
               "every tree has some in-bag weight; squared targets times weights times step stay below 1e37"]
QUICK = dict(seconds=18)
THOROUGH = dict(seconds=420)
REQUIRED = ["proba_rows", "label_rows", "regression_rows", "extreme_step", "extreme_dirichlet", "ovr_forests",
            "zero_score_rows", "single_class", "separable_rows", "tree_rows", "far_rows"]


def directed(tier):
    return ["single_class_%d" % i for i in range(3)] + ["zero_scores_%d" % i for i in range(4)] + \
        ["separable_%d" % i for i in range(6)] + ["huge_losses_%d" % i for i in range(6)] + \
        ["huge_reg_%d" % i for i in range(6)] + ["constant_target", "many_classes", "deep", "n2", "n3", "n4",
                                                 "cat_unknown_only", "all_missing_rows", "large"] + gen.SHAPES


def extremes(rng, case):
    p = case.params
    if rng.rand() < 0.5:
        p["step"] = float(10.0 ** rng.uniform(-6, 6))
    if case.task == "clf" and rng.rand() < 0.5:
        p["dirichlet"] = float(10.0 ** rng.uniform(-12, 6))
    if case.sw is not None and rng.rand() < 0.4 and case.wmode != "zeros":
        case.sw = case.sw * 10.0 ** rng.uniform(-6, 5)
    if case.task == "reg" and rng.rand() < 0.3:
        case.y = np.asarray(case.y, dtype=float) * 10.0 ** rng.uniform(-12, 6) + rng.choice([0, 0, 10.0 ** rng.uniform(0, 8)])
    return case


def make(rng, name):
    g = gen.gen_case
    if name is not None and name.startswith("shape_"):
        return gen.shape_case(rng, name)
    if name is None:
        c = g(rng)
        return extremes(rng, c) if rng.rand() < 0.7 else c
    if name.startswith("single_class"):
        c = g(rng, task="clf", multiclass="multinomial")
        c.y = np.array(["only"] * c.X.shape[0])
        return c
    if name.startswith("zero_scores"):
        return g(rng, task="clf", n_classes=4, n=80, multiclass="ovr", aggregation=False, dirichlet=0.0, wmode="none",
                 n_estimators=int(rng.choice([1, 2])), min_samples_leaf=1, min_samples_split=2, max_depth=None)
    if name.startswith("separable"):
        K = int(rng.choice([2, 3, 5]))
        c = g(rng, task="clf", n=300, p=3, container="array", kinds=["normal"] * 3, n_classes=K, wmode="none",
              n_estimators=15, min_samples_leaf=1, min_samples_split=2, max_depth=None, max_features=None, max_bins=256,
              dirichlet=0.01, step=1.0)
        q = np.digitize(c.X[:, 1], np.quantile(c.X[:, 1], np.arange(1, K) / K))
        labs = {0: np.arange(K) * 3 - 4, 1: np.array(["b%d" % i for i in range(K)]), 2: np.arange(K)[::-1] * 1.0}[rng.randint(3)]
        c.y = labs[q]
        c.separable = True
        return c
    if name.startswith("huge_losses"):
        c = g(rng, task="clf", n=400, aggregation=True)
        c.params["step"] = float(rng.choice([1e3, 1e5, 1e6]))
        c.params["dirichlet"] = float(rng.choice([1e-12, 1e-8, 1e-4]))
        return c
    if name.startswith("huge_reg"):
        c = g(rng, task="reg", n=300, aggregation=True, wmode="none")
        c.y = rng.randn(300) * 10.0 ** rng.randint(3, 13)
        c.params["step"] = float(rng.choice([1.0, 100.0, 1e4]))
        return c
    if name == "constant_target":
        c = g(rng, task="reg", n=100)
        c.y = np.full(100, -3.25)
        return c
    if name == "many_classes":
        return g(rng, task="clf", n=400, n_classes=60)
    if name == "deep":
        c = g(rng, task="reg", n=800, p=1, container="array", kinds=["uniq_int"], wmode="none", aggregation=False,
              max_depth=None, min_samples_split=2, min_samples_leaf=1)
        c.cat = None
        c.y = 2.0 ** (-c.X[:, 0] / 40.0)
        return c
    if name in ("n2", "n3", "n4"):
        return g(rng, n=int(name[1:]), task="clf" if name != "n3" else "reg", wmode="none")
    if name == "cat_unknown_only":
        c = g(rng, n=150, container="dataframe", kinds=["str", "category", "normal"])
        c.Xt = c.Xt.copy()
        c.Xt.isetitem(0, pd.Series(["never"] * len(c.Xt), index=c.Xt.index, dtype=object))
        return c
    if name == "all_missing_rows":
        c = g(rng, n=150, container="array", kinds=["normal", "nan", "cat_int"])
        c.Xt = np.full_like(c.Xt, np.nan)
        return c
    if name == "large":
        return g(rng, n=3000, n_estimators=4)
    raise KeyError(name)


def check_proba(rep, P, n, K, what, ntrain):
    if P.shape != (n, K):
        rep.bad("%s has shape %s, expected %s" % (what, P.shape, (n, K)))
        return False
    if not np.isfinite(P).all():
        i = int(np.flatnonzero(~np.isfinite(P).all(axis=1))[0])
        rep.bad("%s row %d is not finite: %s" % (what, i, P[i]))
        return False
    # class weights and their total are summed separately in single precision
    tol = 1e-5 + 6e-8 * ntrain
    if P.min() < -1e-6 or P.max() > 1 + tol:
        i = int(np.flatnonzero((P < -1e-6).any(axis=1) | (P > 1 + tol).any(axis=1))[0])
        rep.bad("%s row %d leaves [0, 1]: %s" % (what, i, P[i]))
        return False
    d = np.abs(P.sum(axis=1) - 1)
    if d.max() > tol:
        i = int(d.argmax())
        rep.bad("%s row %d sums to %.8g: %s" % (what, i, P[i].sum(), P[i]))
        return False
    return True


def far(rng, Xt):
    if isinstance(Xt, pd.DataFrame):
        return None
    Z = np.array(Xt, dtype=float)
    Z *= 10.0 ** rng.randint(0, 12, Z.shape)
    Z[rng.rand(*Z.shape) < 0.2] = np.nan
    m = rng.rand(*Z.shape) < 0.2
    Z[m] = rng.choice([np.inf, -np.inf, 1e300, -1e300, 0.0, -0.0, 5e-324, 1e18, -1e18], m.sum())
    return Z


def run_case(rep, rng, name, tier):
    case = make(rng, name)
    f = case.fit()
    if not 1e-3 < case.params["step"] < 1e3:
        rep.ev("extreme_step")
    clf = case.task == "clf"
    if clf and not 1e-4 < case.params["dirichlet"] < 100:
        rep.ev("extreme_dirichlet")
    Xs = [case.X, case.Xt, case.Xt[:1]]
    fz = far(rng, case.Xt)
    if fz is not None:
        Xs.append(fz)
        rep.ev("far_rows", len(fz))
    sig = []
    if clf:
        classes = np.unique(case.y)
        K = classes.size
        ok = np.array_equal(f.classes_, classes) and f.n_classes_ == K
        if not rep.check(ok, "classes_ is %r for labels %r" % (f.classes_, classes)):
            return
        ovr = f.multiclass == "ovr" and K > 2
        rep.ev("ovr_forests", ovr)
        rep.ev("single_class", K == 1)
        for X in Xs:
            n = X.shape[0]
            P = f.predict_proba(X)
            if not check_proba(rep, P, n, K, "predict_proba", len(case.X)):
                return
            rep.ev("proba_rows", n)
            L = f.predict(X)
            rep.ev("label_rows", n)
            if L.shape != (n,) or not np.isin(L, classes).all():
                rep.bad("predict returns %r" % (L[:5],))
                return
            li = np.searchsorted(classes, L)
            if (P[np.arange(n), li] < P.max(axis=1)).any():
                i = int(np.flatnonzero(P[np.arange(n), li] < P.max(axis=1))[0])
                rep.bad("row %d: predict gives %r, probabilities are %s" % (i, L[i], P[i]))
                return
            if ovr:
                rep.ev("zero_score_rows", int((np.ptp(P, axis=1) == 0).sum()))
            sig.append(P)
        PT = f.predict_proba_trees(case.Xt)
        Kt = 2 if ovr and K > 2 else K
        if not rep.check(PT.shape == (len(f.trees), case.Xt.shape[0], Kt), "predict_proba_trees has shape %s" % (PT.shape,)):
            return
        if not check_proba(rep, PT.reshape(-1, Kt), PT.shape[0] * PT.shape[1], Kt, "predict_proba_trees", len(case.X)):
            return
        rep.ev("tree_rows", PT.shape[0] * PT.shape[1])
        if getattr(case, "separable", False):
            rep.ev("separable_rows", case.X.shape[0])
            acc = float((f.predict(case.X) == case.y).mean())
            if acc < 0.9:
                rep.bad("labels are a step function of one feature but %.0f%% of the training rows are predicted right"
                        % (100 * acc))
                return
    else:
        y = np.asarray(case.y, dtype=np.float32).astype(float)
        lo, hi = y.min(), y.max()
        n0 = case.X.shape[0]
        tol = (n0 + 32) * ref.EPS32 * np.abs(y).max() + 1e-30
        for X in Xs:
            n = X.shape[0]
            P = f.predict(X)
            rep.ev("regression_rows", n)
            if P.shape != (n,) or not np.isfinite(P).all():
                rep.bad("predict returns %s" % (P[~np.isfinite(P)][:5] if P.shape == (n,) else P.shape,))
                return
            if P.min() < lo - tol or P.max() > hi + tol:
                rep.bad("prediction range [%.9g, %.9g] leaves the range of the targets [%.9g, %.9g]"
                        % (P.min(), P.max(), lo, hi))
                return
            sig.append(P)
        PT = f.predict_trees(case.Xt)
        rep.ev("tree_rows", PT.size)
        if PT.shape != (len(f.trees), case.Xt.shape[0]) or not np.isfinite(PT).all() or PT.min() < lo - tol or \
                PT.max() > hi + tol:
            rep.bad("predict_trees: shape %s, range [%r, %r], targets in [%r, %r]" % (PT.shape, PT.min(), PT.max(), lo, hi))
            return
    rep.nontrivial = any(len(f.get_nodes(k)) >= 3 for k in range(len(f.trees)))
    rep.set_sig(*sig)
    if name is None and rng.rand() < 0.01:
        rep.sample = case.describe()
