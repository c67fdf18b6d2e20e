"""C05: growth, apply and predict follow the same path."""
import numpy as np

from wwmon import gen, ref

TECHNIQUE = ("runtime monitor: independent routing of every row through the observed trees, compared with the rows "
             "recorded during growth, with apply and with predictions")
RULE = ("each case draws a data set (column kinds, missing values, unknown categories, ties, 2 to 1500 rows), parameters "
        "and prediction rows, fits, and audits every node of every tree; non-trivial: at least one tree with 3 or more "
        "nodes; distinct: by a hash of tree structures and data")
ASSUMPTIONS = ["trees are read from the node records of the fitted trees",
               "bins are recomputed from the learned thresholds and categories (C12 checks those)"]
QUICK = dict(seconds=26)
THOROUGH = dict(seconds=420)
REQUIRED = ["nodes_audited", "apply_rows", "categorical_splits", "numerical_splits", "leaf_predictions",
            "unknown_or_missing_rows"]


def directed(tier):
    big = ["big_clf", "big_reg", "many_cats", "many_cats_reg", "wide_cats"]
    small = ["n%d" % n for n in (2, 3, 4, 5, 7, 8, 63, 64, 65, 127, 128, 129)]
    return big + small + gen.SHAPES


def make(rng, name):
    if name is not None and name.startswith("shape_"):
        return gen.shape_case(rng, name)
    if name == "big_clf":
        return gen.gen_case(rng, task="clf", n=9000, nt=500, p=4, container="array",
                            kinds=["normal", "normal", "cat_int", "nan"], n_classes=3, wmode="none", n_estimators=2,
                            aggregation=False, max_depth=None, min_samples_split=2, min_samples_leaf=1, max_bins=256,
                            max_features=None, multiclass="multinomial")
    if name == "big_reg":
        return gen.gen_case(rng, task="reg", n=9000, nt=500, p=4, container="array",
                            kinds=["normal", "normal", "cat_int", "nan"], wmode="none", n_estimators=2,
                            aggregation=True, max_depth=None, min_samples_split=2, min_samples_leaf=1, max_bins=256,
                            max_features=None)
    if name in ("many_cats", "many_cats_reg"):
        return gen.gen_case(rng, task="reg" if name.endswith("reg") else "clf", n=3000, nt=300, p=3,
                            container="dataframe", kinds=["str_many", "str_many", "str_nan"], wmode="none",
                            n_estimators=2, max_depth=None, min_samples_split=2, min_samples_leaf=1,
                            aggregation=False)
    if name == "wide_cats":
        return gen.gen_case(rng, n=700, nt=200, p=8, container="array", kinds=["cat_int"] * 4 + ["cat_nan"] * 4)
    if name is not None and name[0] == "n":
        return gen.gen_case(rng, n=int(name[1:]))
    return gen.gen_case(rng)


def audit_tree(rep, o, k):
    v = o.views[k]
    msg = v.well_formed()
    rep.check(msg is None, "tree %d is not a proper binary tree: %s" % (k, msg))
    if msg is not None:
        return None
    m = v.m
    rep.ev("nodes_audited", m)
    rep.ev("categorical_splits", int((v.iscat & ~v.leaf).sum()))
    rep.ev("numerical_splits", int((~v.iscat & ~v.leaf).sum()))
    iscat = np.asarray(o.f._encoder.is_categorical_, dtype=bool)
    for x in np.flatnonzero(~v.leaf):
        if bool(v.iscat[x]) != bool(iscat[v.feature[x]]):
            rep.bad("tree %d node %d: categorical flag %s on feature %d" % (k, x, v.iscat[x], v.feature[x]))
    nd = v.nodes
    is_left = np.array(nd["is_left"]).astype(bool)
    for x in np.flatnonzero(~v.leaf):
        if not is_left[v.left[x]] or is_left[v.right[x]]:
            rep.bad("tree %d node %d: children not flagged left/right" % (k, x))
    tr, va = v.members(o.B, v.train), v.members(o.B, v.valid)
    for name, mem, part, s, e, cnt in (
        ("in-bag", tr, np.array(v.ctx.partition_train), "start_train", "end_train", "n_samples_train"),
        ("out-of-bag", va, np.array(v.ctx.partition_valid), "start_valid", "end_valid", "n_samples_valid"),
    ):
        S, E, C = (np.array(nd[z]).astype(np.int64) for z in (s, e, cnt))
        for x in range(m):
            rows = mem[x]
            if C[x] != rows.size or E[x] - S[x] != rows.size:
                rep.bad("tree %d node %d: %d %s rows counted in growth, %d reach it by its splits"
                        % (k, x, C[x], name, rows.size))
                return None
            got = np.sort(part[S[x]:E[x]].astype(np.int64))
            if not np.array_equal(got, np.sort(rows)):
                rep.bad("tree %d node %d: %s rows of growth %s differ from those routed %s"
                        % (k, x, name, got[:8], np.sort(rows)[:8]))
                return None
            rep.ev("row_sets_compared")
    return tr


def run_case(rep, rng, name, tier):
    case = make(rng, name)
    f = case.fit()
    o = ref.Obs(case, f)
    ok = True
    for k in range(len(o.views)):
        if audit_tree(rep, o, k) is None:
            ok = False
    if not ok:
        return
    for X in (case.X, case.Xt):
        B = ref.ref_bins(f._encoder, X)
        nb = np.asarray(f._encoder.n_bins_no_missing_values_).astype(np.int64)
        rep.ev("unknown_or_missing_rows", int((B == nb).any(axis=1).sum()))
        ap = np.asarray(f.apply(X)).astype(np.int64)
        rep.check(ap.shape == (len(o.views), X.shape[0]), "apply has shape %s" % (ap.shape,))
        outs = ref.tree_outputs(f, X)
        for k, v in enumerate(o.views):
            leaf = ref.route(v, B)
            rep.ev("apply_rows", leaf.size)
            if not np.array_equal(leaf, ap[k]):
                i = int(np.flatnonzero(leaf != ap[k])[0])
                rep.bad("tree %d row %d: apply gives node %d, the splits lead to leaf %d" % (k, i, ap[k, i], leaf[i]))
                return
            if not case.params.get("aggregation", True):
                rep.ev("leaf_predictions", leaf.size)
                if not np.array_equal(outs[k].astype(np.float64), v.y_pred[leaf]):
                    i = int(np.flatnonzero((outs[k] != v.y_pred[leaf]).reshape(len(leaf), -1).any(axis=1))[0])
                    rep.bad("tree %d row %d: prediction %s is not the one of its leaf %d, %s"
                            % (k, i, outs[k][i], leaf[i], v.y_pred[leaf[i]]))
                    return
            else:
                # convex combination of the nodes on the path
                rep.ev("path_predictions", leaf.size)
                for x in np.unique(leaf):
                    p = v.path(int(x))
                    lo, hi = v.y_pred[p].min(axis=0), v.y_pred[p].max(axis=0)
                    tol = 64 * ref.EPS32 * np.abs(v.y_pred[p]).max()
                    out = outs[k][leaf == x].astype(np.float64)
                    if (out < lo - tol).any() or (out > hi + tol).any():
                        rep.bad("tree %d: rows of leaf %d predicted %s outside the range of the nodes on its path "
                                "[%s, %s]" % (k, x, out[0], lo, hi))
                        return
    # reported nodes
    df = f.get_nodes(0)
    v = o.views[0]
    rep.check(len(df) == v.m and np.array_equal(df["is_left"].to_numpy().astype(bool)[1:],
                  np.isin(np.arange(1, v.m), v.left)) and np.array_equal(df["left_child"].to_numpy()[~v.leaf], v.left[~v.leaf])
              and np.array_equal(df["is_leaf"].to_numpy().astype(bool), v.leaf), "get_nodes differs from the tree")
    mx = max(v.m for v in o.views)
    rep.ev("trees", len(o.views))
    if mx > 2047:
        rep.ev("trees_beyond_initial_capacity")
    rep.nontrivial = mx >= 3
    rep.set_sig(*[v.left for v in o.views], o.B)
    if name is None or name.startswith("big"):
        rep.sample = dict(case.describe(), nodes=[v.m for v in o.views])
