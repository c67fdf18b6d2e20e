"""C07: splits minimise the impurity among the candidates."""
import itertools

import numpy as np

from wwmon import gen, ref
from wwmon.splits import Scan

TECHNIQUE = ("runtime monitor: reference split search in double precision at every split node of fitted trees; "
             "exhaustive category subsets for small binary and regression nodes")
RULE = ("each case draws data, weights, criterion, strategy and limits, fits, and searches again for the best split at the "
        "split nodes (at most 60 per tree); non-trivial: at least one split node audited; distinct: by hash of the "
        "chosen splits and data")
ASSUMPTIONS = ["two scores closer than the bound on single-precision summation are tied",
               "cuts between tied categories and cuts leaving a child with negligible weight are not claimed optimal"]
QUICK = dict(seconds=20)
THOROUGH = dict(seconds=480)
REQUIRED = ["split_nodes", "own_feature_optimal", "rank_checked", "subset_enumerations", "categorical_nodes",
            "regression_nodes", "entropy_nodes", "prefix_checked", "weighted_nodes", "all_features_nodes", "class_draws"]
PMIN = 1e-10


def directed(tier):
    return ["cat_bin_%d" % i for i in range(4)] + ["cat_reg_%d" % i for i in range(4)] + \
        ["multi_%s_%d" % (s, i) for s in ("binary", "all", "random") for i in range(2)] + \
        ["msl_%d" % i for i in range(4)] + ["last_bin", "first_bin", "random_class_0", "random_class_1", "nan_split", "nan_split_reg", "wide", "large"] + \
        ["%s_bins_%s" % (w, t) for w in ("high", "low") for t in ("clf", "reg")] + \
        ["noagg_large_clf", "noagg_large_reg", "binaries_clf", "binaries_reg", "scaled_up", "scaled_down"] + gen.SHAPES


def make(rng, name):
    g = gen.gen_case
    if name is not None and name.startswith("shape_"):
        return gen.shape_case(rng, name)
    if name is None:
        r = rng.rand()
        if r < 0.15:
            name = "cat_bin_r"
        elif r < 0.3:
            name = "cat_reg_r"
        elif r < 0.4:
            name = "msl_r"
        elif r < 0.45:
            name = str(rng.choice(["noagg_large_clf", "noagg_large_reg", "binaries_clf", "binaries_reg", "scaled_up",
                                   "scaled_down"], p=[0.05, 0.05, 0.2, 0.2, 0.25, 0.25]))
        elif r < 0.48:
            name = "%s_bins_%s" % (rng.choice(["high", "low"]), rng.choice(["clf", "reg"]))
    if name is None:
        return g(rng, n=int(rng.randint(10, 300)))
    if name.startswith("cat_bin"):
        return g(rng, task="clf", n_classes=2, n=int(rng.randint(40, 250)), p=int(rng.randint(1, 5)), container="dataframe",
                 kinds=list(rng.choice(["str", "category", "str_nan", "int_small", "bool"], rng.randint(1, 5))),
                 aggregation=False, min_samples_leaf=1, multiclass="multinomial",
                 cat_split_strategy=str(rng.choice(["binary", "all"])))
    if name.startswith("cat_reg"):
        return g(rng, task="reg", n=int(rng.randint(40, 250)), container="dataframe",
                 kinds=list(rng.choice(["str", "category", "str_nan", "int_small"], rng.randint(1, 5))),
                 aggregation=False, min_samples_leaf=1)
    if name.startswith("multi_"):
        return g(rng, task="clf", n_classes=4, n=200, container="dataframe", kinds=["str", "category", "normal", "str_many"],
                 cat_split_strategy=name.split("_")[1], max_features=None)
    if name.startswith("msl"):
        return g(rng, n=int(rng.randint(60, 300)), min_samples_leaf=int(rng.randint(2, 20)), aggregation=True,
                 max_features=None)
    if name in ("last_bin", "first_bin"):
        c = g(rng, task="clf", n=60, p=2, container="array", kinds=["uniq_int", "normal"], n_classes=2, wmode="none",
              aggregation=False, max_features=None, min_samples_leaf=1, multiclass="multinomial", labels="int",
              max_bins=256)
        c.cat = np.array([False, False])
        t = np.sort(c.X[:, 0])
        c.y = (c.X[:, 0] >= (t[-3] if name == "last_bin" else t[3])).astype(int)
        return c
    if name.startswith(("high_bins", "low_bins")):
        # the best threshold lies among the last (or first) of 255 bins
        task = name.split("_")[2]
        c = g(rng, task=task, n=1500, nt=50, p=2, container="array", kinds=["normal", "skew"], n_classes=2, wmode="none",
              aggregation=False, max_features=None, min_samples_leaf=1, multiclass="multinomial", labels="int",
              max_bins=256, n_estimators=3, max_depth=6)
        c.cat = np.array([False, False])
        q = rng.uniform(0.82, 0.98)
        x = c.X[:, 0]
        up = x > np.quantile(x, q) if name.startswith("high") else x < np.quantile(x, 1 - q)
        c.y = (up ^ (rng.rand(1500) < 0.03)).astype(int if task == "clf" else float)
        return c
    if name.startswith("noagg_large"):
        # nodes with many rows and categories, without out-of-bag constraints
        return g(rng, task=name.split("_")[2], n=int(rng.randint(1500, 3000)), nt=50, p=4, container="array",
                 kinds=["cat_int", "cat_nan", "normal", "int_few"], aggregation=False, n_estimators=2, max_depth=5,
                 max_features=None, min_samples_leaf=int(rng.choice([1, 30])))
    if name.startswith("binaries"):
        # many features of two values, all considered: the best can be the last ones
        q = int(rng.randint(14, 50))
        return g(rng, task=name.split("_")[1], n=int(rng.randint(60, 250)), p=q, container="array", kinds=["binary"] * q,
                 max_features=None if rng.rand() < 0.5 else q - 1, n_estimators=2, max_depth=4)
    if name.startswith("scaled"):
        c = g(rng, task="reg", n=int(rng.randint(40, 250)), max_features=None)
        y = np.asarray(c.y, dtype=np.float64)
        c.y = (y - y.mean()) / (y.std() + 1e-9) * (1e5 if name == "scaled_up" else 1e-4)
        return c
    if name == "nan_split" or name == "nan_split_reg":
        c = g(rng, task="clf" if name == "nan_split" else "reg", n=120, p=2, container="array", kinds=["nan", "nan"],
              wmode="none", aggregation=False, max_features=None, min_samples_leaf=1)
        c.cat = np.array([False, False])
        c.y = (np.isnan(c.X[:, 0]) * 1.0).astype(int if name == "nan_split" else float)
        return c
    if name == "wide":
        return g(rng, n=150, p=12, container="array", kinds=list(rng.choice(gen.NUM_KINDS, 12)), max_features=4)
    if name == "large":
        return g(rng, n=1500, p=5, max_features=None)
    raise KeyError(name)


def subsets_best(s, h, nb):
    nt, nv, W, A, Q = h
    bins = np.flatnonzero(nt > 0)
    k = bins.size
    M = np.zeros((2 ** (k - 1) - 1, nb), dtype=bool)
    for i in range(1, 2 ** (k - 1)):
        M[i - 1, bins[:-1][[(i >> q) & 1 == 1 for q in range(k - 1)]]] = True
    sc, adm = s.score_left(h, M)
    return float(sc[adm].min()) if adm.any() else np.inf, M.shape[0]


def random_class(rep, rng):
    """cat_split_strategy="random": the class whose frequency sorts the categories is drawn uniformly."""
    from scipy.stats import binomtest

    K, n = int(rng.randint(3, 7)), 160
    case = gen.Case()
    case.task, case.cat, case.kinds = "clf", np.array([True]), ["cat_int"]
    case.X = rng.randint(0, 9, (n, 1)).astype(float)
    case.Xt = case.X[:5]
    case.y = np.concatenate([np.arange(K), rng.randint(0, K, n - K)])
    case.sw, case.wmode = rng.randint(1, 6, n).astype(float), "int"
    case.params = dict(n_estimators=200, aggregation=False, cat_split_strategy="random", max_depth=3,
                       random_state=int(rng.randint(2 ** 31 - 1)))
    o = ref.Obs(case, case.fit())
    tot, hit = np.zeros(K, dtype=int), np.zeros(K, dtype=int)
    for k, v in enumerate(o.views):
        w = v.well_formed()
        if w is not None:
            rep.bad("tree %d malformed: %s" % (k, w))
            return
        sc = Scan(o, k)
        for x in np.flatnonzero(~v.leaf):
            s = sc.node(x)
            h = s.hist(0)
            orders = s.orders(0, True, "all", h)
            if orders is None:
                continue
            tol = s.tol(sc.exact)
            parts, good = [], True
            for bins, keys in orders:
                c, adm = s.cuts(h, bins, keys)
                # a cut between tied categories might be the best one: not decidable
                i = np.argsort(c)
                if not adm.all() or (c.size > 1 and c[i[1]] - c[i[0]] <= 2 * tol):
                    good = False
                    break
                left = frozenset(bins[:i[0] + 1].tolist())
                parts.append(min(left, frozenset(bins.tolist()) - left, key=sorted))
            if not good:
                continue
            nonempty = np.flatnonzero(h[0] > 0)
            m = sc.left_mask(x)[nonempty]
            a, b = frozenset(nonempty[m].tolist()), frozenset(nonempty[~m].tolist())
            got = min(a, b, key=sorted)
            for c in range(K):
                if parts.count(parts[c]) == 1:
                    rep.ev("class_draws")
                    tot[c] += 1
                    hit[c] += got == parts[c]
    for c in range(K):
        pv = binomtest(int(hit[c]), int(tot[c]), 1.0 / K).pvalue if tot[c] else 1.0
        if pv < PMIN:
            rep.bad("cat_split_strategy='random' with %d classes: class %d sorts the categories in %d of %d nodes, expected "
                    "%.1f (p-value %.2g)" % (K, c, hit[c], tot[c], tot[c] / K, pv))
            return
    rep.nontrivial = tot.sum() > 0
    rep.set_sig("random_class", hit, tot)
    rep.sample = dict(classes=K, nodes=tot.tolist(), drawn=hit.tolist())


def run_case(rep, rng, name, tier):
    if name is not None and name.startswith("random_class") or (name is None and rng.rand() < 0.01):
        return random_class(rep, rng)
    case = make(rng, name)
    f = case.fit()
    o = ref.Obs(case, f)
    sig = [o.B]
    for k, v in enumerate(o.views):
        w = v.well_formed()
        if w is not None:
            rep.bad("tree %d malformed: %s" % (k, w))
            return
        sc = Scan(o, k)
        inner = np.flatnonzero(~v.leaf)
        sig += [v.feature, v.thr, v.parts[:64]]
        if inner.size > 60:
            inner = np.concatenate([inner[:20], rng.choice(inner[20:], 40, replace=False)])
        for x in inner:
            s = sc.node(x)
            if s.w[s.rt].sum() <= 0:
                continue
            tol = s.tol(sc.exact)
            j = int(v.feature[x])
            got = sc.chosen_score(s, x)
            cert, poss = sc.bests(s)
            rep.ev("split_nodes")
            if sc.iscat[j]:
                rep.ev("categorical_nodes")
            rep.ev("regression_nodes" if not o.clf else sc.crit + "_nodes")
            if case.sw is not None:
                rep.ev("weighted_nodes")
            where = "tree %d node %d (%d in-bag rows) splits feature %d (%s)" % (
                k, x, s.rt.size, j, "categorical" if sc.iscat[j] else "numerical")
            if np.isfinite(cert[j]):
                rep.ev("own_feature_optimal")
                if got > cert[j] + tol:
                    rep.bad("%s with impurity %.9g, but %.9g is reachable on the same feature (tolerance %.3g)"
                            % (where, got, cert[j], tol))
                    return
            better = np.flatnonzero(cert < got - tol)
            rep.ev("rank_checked")
            if sc.m == sc.p:
                rep.ev("all_features_nodes")
            if better.size > sc.p - sc.m:
                rep.bad("%s with impurity %.9g, but %d of %d features offer less (e.g. feature %d: %.9g) and %d were to "
                        "be considered" % (where, got, better.size, sc.p, better[0], cert[better].min(), sc.m))
                return
            h = s.hist(j)
            nonempty = np.flatnonzero(h[0] > 0)
            if sc.iscat[j]:
                mask = sc.left_mask(x)
                orders = s.orders(j, True, sc.strategy, h)
                if orders is not None:
                    rep.ev("prefix_checked")
                    ok = False
                    for bins, keys in orders:
                        inl = mask[bins]
                        if inl.any() and (~inl).any() and \
                                keys[inl].max() <= keys[~inl].min() + 1e-4 * (abs(keys).max() + 1e-12):
                            ok = True
                    if not ok:
                        rep.bad("%s sending the categories %s left: not a prefix of a prescribed order"
                                % (where, np.flatnonzero(mask)[:20]))
                        return
                if (not o.clf or (o.K == 2 and sc.strategy != "random")) and 2 <= nonempty.size <= 9 and \
                        sc.msl == 1 and not sc.agg and (h[2][nonempty] > 1e-5 * h[2].sum()).all():
                    b, cnt = subsets_best(s, h, int(sc.nbins[j]))
                    rep.ev("subset_enumerations", cnt)
                    if got > b + tol:
                        rep.bad("%s with impurity %.9g, but a subset of the categories reaches %.9g" % (where, got, b))
                        return
            rep.nontrivial = True
    rep.set_sig(*sig)
    if name is None and rng.rand() < 0.02:
        rep.sample = dict(case.describe(), nodes=[v.m for v in o.views])
