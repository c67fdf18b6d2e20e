"""C19: what a forest reports about its trees is what they are."""
import re
import sys
import types

import numpy as np

from wwmon import gen, ref

TECHNIQUE = ("runtime monitor: a walker that sees only the reported frames (get_nodes, path_leaf, plot_tree) replays apply and the "
             "tree predictions; impurities, counts, ranges and weights recomputed from the bagged rows")
RULE = ("each case fits a forest, replays training and unseen rows through the reported nodes of every tree, before and after "
        "prediction, parameter changes and lightening, and audits every column with a meaning; non-trivial: a tree with 3 or "
        "more nodes; distinct: by hash of the frames")
ASSUMPTIONS = ["the impurity of the root and the thresholds of leaves are place holders; impurities are single-precision",
               "class probabilities are reported with two digits",
               "plot_tree is run against a stand-in for bokeh (not installed) that records what is drawn"]
QUICK = dict(seconds=16)
THOROUGH = dict(seconds=300)
REQUIRED = ["frames", "rows_walked", "paths", "path_steps", "impurities", "weight_recursions", "replayed_predictions",
            "node_probabilities", "single_node_trees", "categorical_nodes", "after_lighten", "after_step", "plots",
            "row_ranges", "ovr_trees", "large_trees", "paths_over_many_bins"]


def directed(tier):
    return ["single_clf", "single_reg", "cats_clf", "cats_reg", "ovr", "deep_clf", "deep_reg", "noagg_clf", "noagg_reg",
            "batch_clf", "manycats", "large_clf", "large_reg", "fine_clf", "fine_reg"] + gen.SHAPES


def make(rng, name):
    g = gen.gen_case
    if name is None:
        return g(rng, n=int(rng.randint(8, 250)))
    if name.startswith("shape_"):
        return gen.shape_case(rng, name)
    t = name[-3:] if name.endswith(("clf", "reg")) else "clf"
    if name.startswith("single"):
        c = g(rng, task=t, n=40, p=2)
        c.params["min_samples_split"] = 500
        return c
    if name.startswith("cats"):
        return g(rng, task=t, n=250, container="dataframe", kinds=["str", "category", "str_nan", "str_many"], max_depth=None,
                 min_samples_leaf=1)
    if name == "manycats":
        c = g(rng, n=2000, p=1, container="array", kinds=["cat_int"], max_bins=256)
        c.X[:, 0] = rng.randint(0, 300, 2000)
        c.Xt[:, 0] = rng.randint(0, 320, len(c.Xt))
        c.cat = np.array([True])
        return c
    if name == "ovr":
        return g(rng, task="clf", n=120, n_classes=4, multiclass="ovr")
    if name.startswith("deep"):
        return g(rng, task=t, n=1500, p=2, container="array", kinds=["normal", "uniq_int"], max_depth=None, min_samples_leaf=1,
                 min_samples_split=2, aggregation=False)
    if name.startswith("large"):
        c = g(rng, task=t, n=6500, nt=100, p=2, container="array", kinds=["normal", "uniq_int"], max_depth=None, wmode="none",
              min_samples_leaf=1, min_samples_split=2, n_estimators=2, max_bins=4000, max_features=None,
              multiclass="multinomial")
        c.cat = None
        c.X[:, 0] = rng.randn(6500)
        c.X[:, 1] = rng.permutation(6500)
        c.y = rng.randn(6500) if t == "reg" else rng.randint(0, 2, 6500)
        return c
    if name.startswith("fine"):
        c = g(rng, task=t, n=2500, nt=200, p=1, container="array", kinds=["normal"], max_depth=None, wmode="none",
              min_samples_leaf=1, min_samples_split=2, n_estimators=2, max_bins=1200, max_features=None,
              multiclass="multinomial")
        c.cat = None
        c.X[:, 0] = rng.permutation(2500)
        c.Xt = rng.randint(0, 2500, (200, 1)).astype(float)
        c.y = rng.randn(2500) if t == "reg" else rng.randint(0, 2, 2500)
        return c
    if name.startswith("noagg"):
        return g(rng, task=t, n=150, aggregation=False)
    return g(rng, task=t, n=200, nt=600)


class Frame:
    """A tree as its reported frame tells it."""

    def __init__(self, df):
        self.m = len(df)
        g = lambda c: df[c].to_numpy()
        self.id = g("node_id").astype(np.int64)
        self.parent = g("parent").astype(np.uint64).astype(np.int64)
        self.left, self.right = g("left_child").astype(np.int64), g("right_child").astype(np.int64)
        self.leaf, self.is_left = g("is_leaf").astype(bool), g("is_left").astype(bool)
        self.depth = g("depth").astype(np.int64)
        self.feature = g("feature").astype(np.uint64).astype(np.int64)
        self.thr = g("bin_threshold").astype(np.uint64)
        self.cat = g("is_split_categorical").astype(bool)
        self.part = list(df["bin_partition"])
        self.cuts = [None] * self.m
        for v in range(self.m):
            if self.cat[v] and not self.leaf[v] and "..." not in self.part[v]:
                self.cuts[v] = np.array([int(z) for z in re.findall(r"\d+", self.part[v])])
        self.df = df

    def structure(self):
        m = self.m
        if not np.array_equal(self.id, np.arange(m)):
            return "node_id is %s..." % self.id[:10].tolist()
        if m != 2 * int(self.leaf.sum()) - 1:
            return "%d nodes and %d leaves" % (m, self.leaf.sum())
        if self.depth[0] != 0:
            return "the root has depth %d" % self.depth[0]
        inner = np.flatnonzero(~self.leaf)
        seen = np.zeros(m, dtype=int)
        for v in inner:
            for c, isl in ((self.left[v], True), (self.right[v], False)):
                if not 0 < c < m:
                    return "child %d of node %d" % (c, v)
                seen[c] += 1
                if self.parent[c] != v or self.depth[c] != self.depth[v] + 1 or self.is_left[c] != isl:
                    return "node %d, %s child of node %d (depth %d), reports parent %d, depth %d, is_left %s" % (
                        c, "left" if isl else "right", v, self.depth[v], self.parent[c], self.depth[c], self.is_left[c])
        if (seen[1:] != 1).any():
            return "node %d has %d parents" % (1 + int((seen[1:] != 1).argmax()), seen[1:][(seen[1:] != 1).argmax()])
        return None

    def steps(self, row):
        """[(node, goes left)] or None where the frame abbreviates a set."""
        v, out = 0, []
        while not self.leaf[v]:
            b = int(row[self.feature[v]])
            if self.cat[v]:
                if self.cuts[v] is None:
                    return None, None
                go = b in self.cuts[v]
            else:
                go = b <= int(self.thr[v])
            out.append((v, go))
            v = int(self.left[v] if go else self.right[v])
        return out, v

    def route(self, B):
        """Leaf of every row, -1 where the frame abbreviates a set."""
        at = np.zeros(len(B), dtype=np.int64)
        for v in self.order():
            if self.leaf[v]:
                continue
            i = np.flatnonzero(at == v)
            if not i.size:
                continue
            b = B[i, self.feature[v]]
            if self.cat[v]:
                if self.cuts[v] is None:
                    at[i] = -1
                    continue
                go = np.isin(b, self.cuts[v])
            else:
                go = b <= int(self.thr[v])
            at[i] = np.where(go, self.left[v], self.right[v])
        return at

    def order(self):
        return np.argsort(self.depth, kind="stable")


def weights_recursion(fr, step):
    """log weights of the aggregation recursion over the reported losses, with error bounds."""
    loss = fr.df["loss_valid"].to_numpy().astype(np.float64)
    lw = np.zeros(fr.m)
    err = np.zeros(fr.m)
    own = -step * loss
    eps = ref.EPS32
    for v in fr.order()[::-1]:
        if fr.leaf[v]:
            lw[v] = own[v]
            err[v] = 2 * eps * abs(own[v])
        else:
            s = lw[fr.left[v]] + lw[fr.right[v]]
            e = err[fr.left[v]] + err[fr.right[v]] + 2 * eps * abs(s)
            lw[v] = np.logaddexp(own[v], s) - np.log(2.0)
            err[v] = max(e, 2 * eps * abs(own[v])) + 4 * eps * abs(lw[v]) + 1e-6
    return own, lw, err + 1e-6


def audit_frame(rep, f, o, k, fr, when):
    e = fr.structure()
    rep.ev("frames")
    if e is not None:
        rep.bad("%s: get_nodes(%d): %s" % (when, k, e))
        return False
    t = f.trees[k]
    for nm, want in (("get_n_leaves", int(fr.leaf.sum())), ("get_depth", int(fr.depth.max())),
                     ("get_actual_depth", int(fr.depth.max()))):
        if not hasattr(t, nm):
            continue
        got = int(getattr(t, nm)())
        if got != want:
            rep.bad("%s: %s of tree %d is %d, its nodes say %d" % (when, nm, k, got, want))
            return False
    if fr.m == 1:
        rep.ev("single_node_trees")
    rep.ev("large_trees", fr.m > 2047)
    rep.ev("categorical_nodes", int((fr.cat & ~fr.leaf).sum()))
    return True


def audit_rows(rep, f, o, k, fr, B, ap, when):
    leaf = fr.route(B)
    ok = leaf >= 0
    rep.ev("rows_walked", int(ok.sum()))
    if (leaf[ok] != ap[k][ok]).any():
        i = int(np.flatnonzero(ok & (leaf != ap[k]))[0])
        rep.bad("%s: tree %d row %d: apply says leaf %d, the reported nodes lead to leaf %d" % (when, k, i, ap[k][i], leaf[i]))
        return None
    return leaf


def audit_predictions(rep, f, o, k, fr, leaf, out, step, agg, when):
    df = fr.df
    if o.clf:
        P = []
        for s in df["y_pred"]:
            P.append([float(z) for z in re.findall(r"[-+0-9.einfa]+", s.replace("[", " ").replace("]", " "))])
        if len({len(p) for p in P}) != 1 or len(P[0]) != out.shape[1]:
            return True  # abbreviated
        P = np.array(P)
        unit = 0.0051
        rep.ev("node_probabilities", P.size)
        if (np.abs(P.sum(axis=1) - 1) > unit * P.shape[1] + 1e-3).any() and f.dirichlet > 0:
            i = int(np.abs(P.sum(axis=1) - 1).argmax())
            rep.bad("%s: tree %d node %d reports the class probabilities %s" % (when, k, i, df["y_pred"].iloc[i]))
            return False
    else:
        P = df["y_pred"].to_numpy().astype(np.float64)[:, None]
        unit = 0.0
        out = out.reshape(-1, 1)
    use = np.flatnonzero(leaf >= 0)
    if not agg:
        rep.ev("replayed_predictions", use.size)
        d = np.abs(P[leaf[use]] - out[use])
        tol = unit + 1e-6 * np.abs(out[use])
        if (d > tol).any():
            i = int(use[np.flatnonzero((d > tol).any(axis=1))[0]])
            rep.bad("%s: tree %d row %d is predicted %s, its leaf %d reports %s" % (when, k, i, out[i], leaf[i], P[leaf[i]]))
            return False
        return True
    own, lw, err = weights_recursion(fr, step)
    got = df["log_weight_tree"].to_numpy().astype(np.float64)
    rep.ev("weight_recursions", fr.m)
    bad = ~(np.abs(got - lw) <= err)
    if bad.any():
        v = int(bad.argmax())
        rep.bad("%s: tree %d node %d reports log_weight_tree %.8g; the reported losses and step %g give %.8g (error bound %.2g)"
                % (when, k, v, got[v], step, lw[v], err[v]))
        return False
    a_err = err + 4 * ref.EPS32 * np.abs(own)
    alo = np.clip(0.5 * np.exp(np.minimum(own - got - a_err, 50)), 0, 1)
    ahi = np.clip(0.5 * np.exp(np.minimum(own - got + a_err, 50)), 0, 1)
    # the two sides of a node share the error of its weight: alpha is 1 at the leaves
    lo, hi = np.zeros_like(P), np.zeros_like(P)
    memo = {}
    for x in np.unique(leaf[use]):
        v = int(x)
        l = P[v] - unit
        h = P[v] + unit
        while v != 0:
            v = int(fr.parent[v])
            pl, ph = P[v] - unit, P[v] + unit
            c = [a * pl + (1 - a) * l for a in (alo[v], ahi[v])]
            d = [a * ph + (1 - a) * h for a in (alo[v], ahi[v])]
            l, h = np.minimum(*c), np.maximum(*d)
        memo[int(x)] = (l, h)
    t = 1e-5 * np.abs(P).max() + 1e-30
    for x, (l, h) in memo.items():
        r = out[use[leaf[use] == x]]
        rep.ev("replayed_predictions", len(r))
        if ((r < l - t) | (r > h + t)).any():
            rep.bad("%s: tree %d: rows of leaf %d are predicted %s; the reported nodes give [%s, %s]" % (when, k, x, r[0], l, h))
            return False
    return True


def audit_training(rep, o, k, fr):
    """Counts, ranges and impurities against the rows of the tree."""
    v = o.views[k]
    df = fr.df
    tr, va = v.members(o.B, v.train), v.members(o.B, v.valid)
    y, _ = o.targets[k]
    wt, wv = o.weights(k)
    g = lambda c: df[c].to_numpy()
    nt, nv = g("n_samples_train").astype(np.int64), g("n_samples_valid").astype(np.int64)
    Wt, Wv = g("w_samples_train").astype(float), g("w_samples_valid").astype(float)
    imp = g("impurity").astype(float)
    st, en, sv, ev = (g(c).astype(np.int64) for c in ("start_train", "end_train", "start_valid", "end_valid"))
    agg = o.case.params.get("aggregation", True)
    crit = o.case.params.get("criterion", "gini")
    for x in range(fr.m):
        if nt[x] != tr[x].size or nv[x] != va[x].size:
            rep.bad("tree %d node %d reports %d and %d samples, %d in-bag and %d out-of-bag rows reach it"
                    % (k, x, nt[x], nv[x], tr[x].size, va[x].size))
            return False
        W, V = wt[tr[x]].sum(), wv[va[x]].sum()
        if abs(Wt[x] - W) > 1e-6 * (nt[x] + 10) * W + 1e-30 or \
                (agg and abs(Wv[x] - V) > 1e-6 * (nv[x] + 10) * V + 1e-30):
            rep.bad("tree %d node %d reports the weights %r and %r, its rows have %r and %r" % (k, x, Wt[x], Wv[x], W, V))
            return False
        rep.ev("row_ranges")
        if en[x] - st[x] != nt[x] or ev[x] - sv[x] != nv[x]:
            rep.bad("tree %d node %d reports ranges [%d, %d) and [%d, %d) for %d and %d rows"
                    % (k, x, st[x], en[x], sv[x], ev[x], nt[x], nv[x]))
            return False
        if not fr.leaf[x]:
            l, r = fr.left[x], fr.right[x]
            if sorted([(st[l], en[l]), (st[r], en[r])]) != sorted([(st[x], st[x] + nt[l]), (st[x] + nt[l], en[x])]) and \
                    sorted([(st[l], en[l]), (st[r], en[r])]) != sorted([(st[x], st[x] + nt[r]), (st[x] + nt[r], en[x])]):
                rep.bad("tree %d node %d: the ranges of its children do not partition [%d, %d)" % (k, x, st[x], en[x]))
                return False
        if x == 0 or W <= 0:
            continue
        yy, ww = y[tr[x]], wt[tr[x]]
        if o.clf:
            want = float(ref.impurity_clf(np.bincount(yy, weights=ww, minlength=o.K)[None], crit)[0]) / W
            # the class weights of a child are differences of sums over the parent
            p = tr[fr.parent[x]]
            d = min(0.3, ref.EPS32 * (p.size / 2 + 8) * wt[p].sum() / W)
            tol = 4 * o.K * d * (1.0 if crit == "gini" else 1.0 - np.log(d)) + 3e-7 * (nt[x] + 16)
        else:
            q = float((ww * yy * yy).sum()) / W
            want = q - (float((ww * yy).sum()) / W) ** 2
            # the histogram sums of the parent, from which the child is taken
            p = tr[fr.parent[x]]
            tol = 4e-7 * (p.size + 16) * float((wt[p] * y[p] ** 2).sum()) / W + 1e-30
        rep.ev("impurities")
        if not abs(imp[x] - want) <= tol:
            rep.bad("tree %d node %d reports impurity %.8g, its %d rows have %.8g (tolerance %.2g)" % (k, x, imp[x], nt[x], want, tol))
            return False
    return True


def audit_paths(rep, rng, f, o, k, fr, X, B, ap):
    i = rng.randint(0, len(B), int(rng.randint(1, 5)))
    if B.shape[1] == 1 and B.max() > 300:
        i = rng.randint(0, len(B), 60)
        rep.ev("paths_over_many_bins", len(i))
    Z = X.iloc[i] if ref.is_df(X) else X[i]
    paths = f.path_leaf(Z, k)
    if len(paths) != len(i):
        rep.bad("path_leaf returns %d paths for %d rows" % (len(paths), len(i)))
        return False
    for r, d in zip(i, paths):
        steps, leaf = fr.steps(B[r])
        if steps is None:
            continue
        rep.ev("paths")
        if len(d) != len(steps):
            rep.bad("path_leaf: tree %d row %d passes %d nodes, the path has %d" % (k, r, len(steps), len(d)))
            return False
        for s, (v, go) in enumerate(steps):
            row = d.iloc[s]
            rep.ev("path_steps")
            ok = int(row["depth"]) == s and int(row["feature"]) == fr.feature[v] and bool(row["is_split_categorical"]) == fr.cat[v]
            ok = ok and str(row["decision"]).startswith("left" if go else "right")
            nums = [int(z) for z in re.findall(r"\d+", str(row["decision"]))]
            ok = ok and nums[:1] == [int(B[r][fr.feature[v]])]
            if fr.cat[v]:
                ok = ok and row["bin_partition"] == fr.part[v]
            else:
                ok = ok and int(row["bin_threshold"]) == int(fr.thr[v])
            if not ok:
                rep.bad("path_leaf: tree %d row %d step %d: %s; the row is at node %d and goes %s"
                        % (k, r, s, row.to_dict(), v, "left" if go else "right"))
                return False
    return True


def plot_module():
    """wildwood.plot against a stand-in for bokeh."""
    if "wildwood.plot" in sys.modules:
        return sys.modules["wildwood.plot"]
    if "bokeh" not in sys.modules:
        drawn = []

        class Source:
            def __init__(self, data=None, **kw):
                self.data = data

            @staticmethod
            def from_df(df):
                return {c: df[c].to_numpy() for c in df.columns}

        class Fig:
            def __init__(self, **kw):
                self.calls = []
                self.outline_line_color = None
                self.axis = self.grid = types.SimpleNamespace(visible=True)
                drawn.append(self)

            def __getattr__(self, nm):
                if nm.startswith("_"):
                    raise AttributeError(nm)

                def rec(*a, **kw):
                    self.calls.append((nm, a, kw))
                    return nm

                return rec

        b, m, p = types.ModuleType("bokeh"), types.ModuleType("bokeh.models"), types.ModuleType("bokeh.plotting")
        m.ColumnDataSource, m.HoverTool = Source, lambda **kw: ("hover", kw)
        p.figure, p.show = lambda *a, **kw: Fig(), lambda *a: None
        b.models, b.plotting, b.drawn = m, p, drawn
        sys.modules.update({"bokeh": b, "bokeh.models": m, "bokeh.plotting": p})
    import importlib

    return importlib.import_module("wildwood.plot")


def audit_plot(rep, f, k, fr):
    mod = plot_module()
    fig = mod.plot_tree(f, k)
    calls = {nm: kw for nm, a, kw in fig.calls}
    seg = calls.get("segment")
    if seg is None or "source" not in seg:
        rep.notes["plot without segments"] += 1
        return True
    d = seg["source"].data
    rep.ev("plots")
    if len(d["node_id"]) != fr.m or not np.array_equal(np.sort(d["node_id"]), np.arange(fr.m)):
        rep.bad("plot_tree draws %d nodes of %d" % (len(d["node_id"]), fr.m))
        return False
    pos = {int(i): (x, y, x0, y0) for i, x, y, x0, y0 in zip(d["node_id"], *(d[c] for c in ("x", "y", "x0", "y0")))}
    for v in range(fr.m):
        x, y, x0, y0 = pos[v]
        if v == 0:
            continue
        q = int(fr.parent[v])
        px, py = pos[q][:2]
        left = fr.left[q] == v
        if (x0, y0) != (px, py) or abs((py - y) - 1) > 1e-9 or (fr.depth[v] < 45 and ((x < px) != left or x == px)):
            rep.bad("plot_tree draws node %d (%s child of %d) at (%s, %s), linked to (%s, %s); the parent is at (%s, %s)"
                    % (v, "left" if left else "right", q, x, y, x0, y0, px, py))
            return False
    if fr.depth.max() < 45 and len({(p[0], p[1]) for p in pos.values()}) != fr.m:
        rep.bad("plot_tree draws two nodes at the same place")
        return False
    return True


def run_case(rep, rng, name, tier):
    case = make(rng, name)
    f = case.fit()
    if (f.n_samples_in_, f.n_features_in_) != case.X.shape:
        rep.bad("the forest reports %s samples and %s features, fitted on %s" % (f.n_samples_in_, f.n_features_in_, case.X.shape))
        return
    o = ref.Obs(case, f)
    agg = case.params.get("aggregation", True)
    ne, K = case.params["n_estimators"], (len(np.unique(case.y)) if o.clf else 1)
    if len(f.trees) > ne:
        rep.ev("ovr_trees", len(f.trees))
    if len(f.trees) not in (ne, ne * K):
        rep.bad("the forest has %d trees for n_estimators=%d" % (len(f.trees), ne))
        return
    X = case.Xt if rng.rand() < 0.6 else case.X
    B = ref.ref_bins(f._encoder, X)
    ks = range(len(f.trees)) if len(f.trees) <= 6 else sorted(rng.choice(len(f.trees), 6, replace=False).tolist())
    first = {k: Frame(f.get_nodes(k)) for k in ks}
    sig = []

    def everything(when):
        ap = np.asarray(f.apply(X)).astype(np.int64)
        outs = ref.tree_outputs(f, X)
        step = float(np.float32(f.step))
        for k in ks:
            fr = Frame(f.get_nodes(k))
            if not audit_frame(rep, f, o, k, fr, when):
                return False
            leaf = audit_rows(rep, f, o, k, fr, B, ap, when)
            if leaf is None:
                return False
            if not audit_predictions(rep, f, o, k, fr, leaf, np.asarray(outs[k], dtype=np.float64), step, agg, when):
                return False
            sig.extend([fr.left, fr.feature, fr.df["loss_valid"].to_numpy()])
        return True

    if not everything("after fit"):
        return
    for k in ks:
        fr = Frame(f.get_nodes(k))
        if fr.df.to_csv() != first[k].df.to_csv():
            rep.bad("predicting changes what get_nodes(%d) reports" % k)
            return
        if fr.m <= 400 and not audit_training(rep, o, k, fr):
            return
        if not audit_paths(rep, rng, f, o, k, fr, X, B, None):
            return
        if fr.m <= 300 and rng.rand() < 0.2 and not audit_plot(rep, f, k, fr):
            return
    if agg and rng.rand() < 0.5:
        f.step = float(rng.choice([0.05, 0.5, 2.0, 20.0, 1e-3, 5e3, 2e6]))
        rep.ev("after_step")
        if not everything("after step=%g" % f.step):
            return
    if rng.rand() < 0.5:
        f.lighten()
        rep.ev("after_lighten")
        if not everything("after lighten"):
            return
    rep.nontrivial = max(fr.m for fr in first.values()) >= 3
    rep.set_sig(*sig)
    if name is None and rng.rand() < 0.03:
        rep.sample = dict(case.describe(), nodes=[fr.m for fr in first.values()])
