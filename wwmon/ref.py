"""Reference semantics in float64 numpy, independent of the compiled code.

Trees are read through `View`; everything else (routing, node statistics, out-of-bag losses, aggregation
over prunings, split scores) is recomputed here from the raw data.
"""
import numpy as np
import pandas as pd

EPS32 = float(np.finfo(np.float32).eps)


def is_df(X):
    return isinstance(X, pd.DataFrame)


def column(X, j):
    return X.iloc[:, j] if is_df(X) else X[:, j]


def ref_bins(enc, X):
    """Binned matrix, from the learned thresholds / categories of the encoder."""
    n = X.shape[0]
    p = X.shape[1]
    B = np.empty((n, p), dtype=np.int64)
    for j in range(p):
        c = column(X, j)
        if enc.is_categorical_[j]:
            cats = list(enc.categories_[j])
            codes = pd.Categorical(pd.Series(np.asarray(c, dtype=object) if is_df(X) else c),
                                   categories=cats).codes.astype(np.int64)
            codes = np.where(codes < 0, len(cats), codes)
            B[:, j] = codes
        else:
            v = np.asarray(c, dtype=np.float64)
            thr = np.asarray(enc.binning_thresholds_[j], dtype=np.float64)
            b = np.searchsorted(thr, v, side="left")
            b[np.isnan(v)] = thr.size + 1
            B[:, j] = b
    return B


def n_bins_with_missing(enc):
    return np.asarray(enc.n_bins_no_missing_values_, dtype=np.int64) + 1


class View:
    """Read-only view on a fitted tree."""

    def __init__(self, forest, k):
        try:
            self._read(forest.trees[k])
        except (AttributeError, KeyError) as e:
            from wwmon.engine import Inconclusive

            raise Inconclusive("tree storage not readable: %s" % e)

    def _read(self, t):
        self.t = t
        self.clf = hasattr(t, "_tree_classifier")
        core = t._tree_classifier if self.clf else t._tree_regressor
        self.core = core
        m = int(core.node_count)
        nodes = np.array(core.nodes[:m])
        self.m = m
        f = lambda name: np.array(nodes[name])
        self.left = f("left_child").astype(np.int64)
        self.right = f("right_child").astype(np.int64)
        self.parent = f("parent").astype(np.int64)
        self.depth = f("depth").astype(np.int64)
        self.leaf = f("is_leaf").astype(bool)
        self.feature = f("feature").astype(np.int64)
        self.thr = f("bin_threshold").astype(np.int64)
        self.iscat = f("is_split_categorical").astype(bool)
        self.ps = f("bin_partition_start").astype(np.int64)
        self.pe = f("bin_partition_end").astype(np.int64)
        self.parts = np.array(core.bin_partitions).astype(np.int64)
        self.nodes = nodes
        self.y_pred = np.array(core.y_pred)[:m].astype(np.float64)
        self.train = None if t._train_indices is None else np.asarray(t._train_indices).astype(np.int64)
        self.valid = None if t._valid_indices is None else np.asarray(t._valid_indices).astype(np.int64)
        ctx = t._tree_classifier_context if self.clf else t._tree_regressor_context
        self.ctx = ctx

    def goes_left(self, v, B):
        if self.iscat[v]:
            return np.isin(B[:, self.feature[v]], self.parts[self.ps[v]: self.pe[v]])
        return B[:, self.feature[v]] <= self.thr[v]

    def well_formed(self):
        """Structure usable by the reference routing; returns an error message or None."""
        m = self.m
        if m < 1:
            return "tree without nodes"
        seen = np.zeros(m, dtype=np.int64)
        stack = [(0, 0)]
        seen[0] += 1
        while stack:
            v, d = stack.pop()
            if self.depth[v] != d:
                return "node %d: stored depth %d, actual depth %d" % (v, self.depth[v], d)
            if self.leaf[v]:
                continue
            l, r = self.left[v], self.right[v]
            for c in (l, r):
                if not (0 < c < m):
                    return "node %d: child index %d out of range [1, %d)" % (v, c, m)
                if self.parent[c] != v:
                    return "node %d: child %d has parent %d" % (v, c, self.parent[c])
                if seen[c]:
                    return "node %d reached twice" % c
                seen[c] += 1
                stack.append((c, d + 1))
            if not (0 <= self.feature[v] < int(self.core.n_features)):
                return "node %d splits on feature %d" % (v, self.feature[v])
            if self.iscat[v]:
                if not (0 <= self.ps[v] < self.pe[v] <= self.parts.size):
                    return "node %d: category set slice [%d, %d) of %d" % (v, self.ps[v], self.pe[v], self.parts.size)
        if not (seen == 1).all():
            return "nodes unreachable from the root: %s" % np.flatnonzero(seen == 0)[:5].tolist()
        return None

    def members(self, B, rows):
        """dict node -> array of the rows (indices into B) that traverse it."""
        out = {0: np.asarray(rows)}
        order = [0]
        i = 0
        while i < len(order):
            v = order[i]
            i += 1
            if self.leaf[v]:
                continue
            r = out[v]
            gl = self.goes_left(v, B[r])
            out[self.left[v]] = r[gl]
            out[self.right[v]] = r[~gl]
            order += [self.left[v], self.right[v]]
        return out

    def topo(self):
        """Nodes, parents before children."""
        order = [0]
        i = 0
        while i < len(order):
            v = order[i]
            i += 1
            if not self.leaf[v]:
                order += [int(self.left[v]), int(self.right[v])]
        return order

    def path(self, leaf):
        p = [int(leaf)]
        while p[-1] != 0:
            p.append(int(self.parent[p[-1]]))
            if len(p) > self.m + 1:
                raise AssertionError("parent pointers form a cycle")
        return p


def route(view, B):
    leaf = np.zeros(B.shape[0], dtype=np.int64)
    for v, rows in view.members(B, np.arange(B.shape[0])).items():
        if view.leaf[v]:
            leaf[rows] = v
    return leaf


# ---------------------------------------------------------------------------------------- targets and weights


def encode_targets(case, forest):
    """Per tree: (targets, base weights) as documented: class indices (or 0/1 for one-versus-rest) and
    sample_weight times the class weights."""
    n = case.X.shape[0]
    base = np.ones(n, dtype=np.float32) if case.sw is None else np.asarray(case.sw, dtype=np.float32)
    ntrees = len(forest.trees)
    if case.task == "reg":
        y = np.asarray(case.y, dtype=np.float32).astype(np.float64)
        return [(y, base.astype(np.float64))] * ntrees
    classes = np.unique(case.y)
    K = classes.size
    yi = np.searchsorted(classes, case.y)
    balanced = case.params.get("class_weight") == "balanced"
    ovr = case.params.get("multiclass") == "ovr" and K > 2

    def bal(z):
        cnt = np.bincount(z)
        w = z.size / (np.count_nonzero(cnt) * cnt[z].astype(float))
        return (base * w).astype(np.float32).astype(np.float64)

    if not ovr:
        w = bal(yi) if balanced else base.astype(np.float64)
        return [(yi, w)] * ntrees
    out = []
    ne = case.params["n_estimators"]
    for k in range(K):
        z = (yi == k).astype(int)
        w = bal(z) if balanced else base.astype(np.float64)
        out += [(z, w)] * ne
    return out


def n_classes_per_tree(case):
    if case.task == "reg":
        return 1
    K = np.unique(case.y).size
    return 2 if (case.params.get("multiclass") == "ovr" and K > 2) else K


def boot_counts(view, base, n):
    """In-bag multiplicities implied by the weights the tree was grown with; None if not observable."""
    if view.ctx is None or view.train is None:
        return None
    eff = np.asarray(view.ctx.sample_weights, dtype=np.float64)
    c = np.zeros(n)
    t = view.train
    b = base[t]
    ok = b > 0
    c[t[ok]] = eff[t[ok]] / b[ok]
    c[t[~ok]] = np.nan  # zero weight: multiplicity not observable, irrelevant
    return c


# ---------------------------------------------------------------------------------------- node statistics


class NodeRef:
    """Reference prediction and out-of-bag loss of each node with bounds on single-precision rounding."""

    def __init__(self, view, B, y, wtrain, wvalid, K, dirichlet, clf, exact=False):
        self.view = view
        m = view.m
        tr = view.members(B, view.train)
        va = view.members(B, view.valid)
        self.tr, self.va = tr, va
        if clf:
            self.pred = np.zeros((m, K))
            self.epred = np.zeros((m, K))
        else:
            self.pred = np.zeros(m)
            self.epred = np.zeros(m)
        self.loss = np.zeros(m)
        self.eloss = np.zeros(m)
        for v in tr:
            r, s = tr[v], va[v]
            w = wtrain[r]
            n = r.size
            u = wvalid[s]
            if clf:
                cnt = np.bincount(y[r], weights=w, minlength=K).astype(float)
                W = cnt.sum()
                den = W + K * dirichlet
                p = (cnt + dirichlet) / den if den > 0 else np.full(K, 1.0 / K)
                e = 2 * ((0 if exact else n) + 8) * EPS32 * p + 1e-12
                self.pred[v] = p
                self.epred[v] = e
                if s.size:
                    q = p[y[s]]
                    with np.errstate(divide="ignore"):
                        ll = -np.log(q)
                    L = float((u * ll).sum())
                    rel = np.where(q > 0, e[y[s]] / np.maximum(q, 1e-300), 0)
                    eL = float((u * (rel + 4 * EPS32 * (1 + np.abs(ll)))).sum()) + 2 * (s.size + 4) * EPS32 * abs(L)
                else:
                    L, eL = 0.0, 0.0
            else:
                W = w.sum()
                p = float((w * y[r]).sum() / W) if W > 0 else 0.0
                mag = float((w * np.abs(y[r])).sum() / W) if W > 0 else 0.0
                e = 2 * (n + 8) * EPS32 * mag + 1e-30
                self.pred[v] = p
                self.epred[v] = e
                if s.size:
                    d = y[s] - p
                    L = float((u * d * d).sum())
                    ee = e + 2 * EPS32 * (np.abs(y[s]) + abs(p))
                    eL = float((u * (2 * np.abs(d) * ee + ee * ee)).sum()) + 2 * (s.size + 6) * EPS32 * L
                else:
                    L, eL = 0.0, 0.0
            self.loss[v] = L
            self.eloss[v] = eL


def sigmoid(x):
    # 1 / (1 + exp(-x)) without overflow
    if x >= 0:
        return 1.0 / (1.0 + np.exp(-x))
    e = np.exp(x)
    return e / (1.0 + e)


def log_mean2(a, b):
    m = max(a, b)
    return m + np.log1p(np.exp(-abs(a - b))) - np.log(2.0)


class AggRef:
    """Context-tree-weighting reference with intervals: log-weights of the subtrees, weights alpha, predictions."""

    def __init__(self, view, nref, step):
        m = view.m
        self.view, self.nref, self.step = view, nref, step
        lo = np.zeros(m)
        hi = np.zeros(m)
        mid = np.zeros(m)
        self.alo = np.zeros(m)
        self.ahi = np.zeros(m)
        self.amid = np.zeros(m)
        for v in reversed(view.topo()):
            L = -step * nref.loss[v]
            e = step * nref.eloss[v] + 4 * EPS32 * abs(L)
            if view.leaf[v]:
                lo[v], hi[v], mid[v] = L - e, L + e, L
                continue
            l, r = view.left[v], view.right[v]
            s = mid[l] + mid[r]
            es = 4 * EPS32 * (abs(mid[l]) + abs(mid[r]))
            slo, shi = lo[l] + lo[r] - es, hi[l] + hi[r] + es
            # alpha = exp(L) / (exp(L) + exp(s))
            ed = 4 * EPS32 * (abs(L) + abs(s)) + 8 * EPS32
            self.amid[v] = sigmoid(L - s)
            self.alo[v] = sigmoid((L - e) - shi - ed)
            self.ahi[v] = sigmoid((L + e) - slo + ed)
            mid[v] = log_mean2(L, s)
            er = 4 * EPS32 * (abs(L) + abs(s) + 1)
            lo[v] = log_mean2(L - e, slo) - er
            hi[v] = log_mean2(L + e, shi) + er
        self.lo, self.hi, self.mid = lo, hi, mid
        # predictions of every leaf, root to leaf
        self._cache = {}

    def predict_leaf(self, leaf):
        leaf = int(leaf)
        if leaf in self._cache:
            return self._cache[leaf]
        nr, view = self.nref, self.view
        path = view.path(leaf)
        mid = nr.pred[path[0]] * 1.0
        lo = nr.pred[path[0]] - nr.epred[path[0]]
        hi = nr.pred[path[0]] + nr.epred[path[0]]
        for v in path[1:]:
            p, e = nr.pred[v], nr.epred[v]
            a0, a1 = self.alo[v], self.ahi[v]
            rd = 6 * EPS32 * (np.abs(p) + np.abs(mid)) + 1e-30
            nlo = np.minimum(a0 * (p - e) + (1 - a0) * lo, a1 * (p - e) + (1 - a1) * lo) - rd
            nhi = np.maximum(a0 * (p + e) + (1 - a0) * hi, a1 * (p + e) + (1 - a1) * hi) + rd
            mid = self.amid[v] * p + (1 - self.amid[v]) * mid
            lo, hi = nlo, nhi
        self._cache[leaf] = (mid, lo, hi)
        return self._cache[leaf]


def brute_force_aggregation(view, nref, step, leaf_of_row, limit=4000):
    """Definition: average over all prunings T of the tree of the prediction of T with weights
    2^{-||T||} exp(-step * loss(T)); ||T|| counts the nodes of T, minus its leaves that are leaves of the full
    tree.  Returns None when there are too many prunings."""

    def count(v):
        return 1 if view.leaf[v] else 1 + count(view.left[v]) * count(view.right[v])

    import sys

    if view.depth.max() > 60:
        return None
    if count(0) > limit:
        return None

    def prunings(v):
        # list of (set of leaves (tuple), number of inner nodes)
        if view.leaf[v]:
            return [((int(v),), 0)]
        out = [((int(v),), 0)]
        for a, na in prunings(view.left[v]):
            for b, nb in prunings(view.right[v]):
                out.append((a + b, na + nb + 1))
        return out

    P = prunings(0)
    logw = np.empty(len(P))
    for i, (leaves, inner) in enumerate(P):
        norm = inner + sum(1 for x in leaves if not view.leaf[x])
        logw[i] = -step * sum(nref.loss[x] for x in leaves) - norm * np.log(2.0)
    logw -= logw.max()
    w = np.exp(logw)
    w /= w.sum()
    res = {}
    for leaf in set(int(v) for v in leaf_of_row):
        anc = set(view.path(leaf))
        acc = 0.0
        for (leaves, _), wi in zip(P, w):
            x = next(u for u in leaves if u in anc)
            acc = acc + wi * nref.pred[x]
        res[leaf] = acc
    return res, len(P)


# ---------------------------------------------------------------------------------------- split search


def impurity_clf(cnt, criterion):
    """weight * impurity of a child from weighted class counts (rows)."""
    cnt = np.asarray(cnt, dtype=float)
    W = cnt.sum(axis=-1)
    with np.errstate(divide="ignore", invalid="ignore"):
        p = cnt / W[..., None]
        if criterion == "gini":
            imp = 1.0 - (p * p).sum(axis=-1)
        else:
            imp = -np.where(p > 0, p * np.log(p), 0.0).sum(axis=-1)
    return np.where(W > 0, W * imp, 0.0)


def impurity_reg(W, S, Q):
    with np.errstate(divide="ignore", invalid="ignore"):
        v = Q - S * S / W
    return np.where(W > 0, v, 0.0)


class SplitRef:
    """Histograms of one node and the best admissible split of each feature."""

    def __init__(self, B, nbins, y, w, rows_t, rows_v, K, clf, criterion, msl, aggregation):
        self.B, self.nbins, self.y, self.w = B, nbins, y, w
        self.rt, self.rv = rows_t, rows_v
        self.K, self.clf, self.criterion, self.msl, self.agg = K, clf, criterion, msl, aggregation

    def hist(self, j):
        nb = int(self.nbins[j])
        bt = self.B[self.rt, j]
        w = self.w[self.rt]
        y = self.y[self.rt]
        nt = np.bincount(bt, minlength=nb)
        nv = np.bincount(self.B[self.rv, j], minlength=nb)
        W = np.bincount(bt, weights=w, minlength=nb)
        if self.clf:
            Y = np.bincount(bt * self.K + y, weights=w, minlength=nb * self.K).reshape(nb, self.K)
            return nt, nv, W, Y, None
        S = np.bincount(bt, weights=w * y, minlength=nb)
        Q = np.bincount(bt, weights=w * y * y, minlength=nb)
        return nt, nv, W, S, Q

    def score_left(self, h, maskbins):
        """weighted impurity of the split sending the bins in the mask (matrix: one row per split) to the left."""
        nt, nv, W, A, Q = h
        M = maskbins.astype(float)
        if self.clf:
            L = M @ A
            R = A.sum(axis=0) - L
            wl, wr = M @ W, W.sum() - M @ W
            sc = impurity_clf(L, self.criterion) + impurity_clf(R, self.criterion)
        else:
            wl = M @ W
            wr = W.sum() - wl
            sl = M @ A
            ql = M @ Q
            sc = impurity_reg(wl, sl, ql) + impurity_reg(wr, A.sum() - sl, Q.sum() - ql)
        ntl = M @ nt
        nvl = M @ nv
        adm = (ntl >= self.msl) & (nt.sum() - ntl >= self.msl)
        if self.agg:
            adm &= (nvl >= self.msl) & (nv.sum() - nvl >= self.msl)
        adm &= (wl > 1e-12) & (wr > 1e-12 * max(1.0, W.sum()))
        return sc, adm

    def orders(self, j, iscat, strategy, h):
        """Orders of the non-empty bins that the documentation prescribes: list of (bins, keys) (keys None for a
        numerical feature).  None when an order is undefined (categories without weight)."""
        nt, nv, W, A, Q = h
        bins = np.flatnonzero(nt > 0)
        if not iscat:
            return [(bins, None)]
        if (W[bins] <= 1e-6 * W.sum()).any():
            return None
        if not self.clf:
            P = (A[bins] / W[bins])[:, None]
            ks = [0]
        else:
            P = A[bins] / W[bins][:, None]
            ks = [min(1, self.K - 1)] if strategy == "binary" else list(range(self.K))
        out = []
        for k in ks:
            i = np.argsort(P[:, k], kind="stable")
            out.append((bins[i], P[i, k]))
        return out

    def cuts(self, h, bins, keys):
        """Scores of the cuts of one order that do not separate tied categories and are clearly admissible."""
        nt, nv, W, A, Q = h
        if bins.size < 2:
            return np.zeros(0), np.zeros(0, dtype=bool)
        ntl = np.cumsum(nt[bins])[:-1]
        wl = np.cumsum(W[bins])[:-1]
        if keys is None:
            nvl = np.cumsum(nv)[bins[:-1]]
        else:
            nvl = np.cumsum(nv[bins])[:-1]
        Wt = W.sum()
        wr = Wt - wl
        if self.clf:
            L = np.cumsum(A[bins], axis=0)[:-1]
            sc = impurity_clf(L, self.criterion) + impurity_clf(A.sum(axis=0) - L, self.criterion)
        else:
            sl = np.cumsum(A[bins])[:-1]
            ql = np.cumsum(Q[bins])[:-1]
            sc = impurity_reg(wl, sl, ql) + impurity_reg(wr, A.sum() - sl, Q.sum() - ql)
        adm = (ntl >= self.msl) & (nt.sum() - ntl >= self.msl)
        if self.agg:
            adm &= (nvl >= self.msl) & (nv.sum() - nvl >= self.msl)
        adm &= (wl > 1e-5 * Wt) & (wr > 1e-5 * Wt)
        if keys is not None:
            sep = (keys[1:] - keys[:-1]) > 1e-5 * (np.abs(keys[1:]) + np.abs(keys[:-1])) + 1e-9 * self.keyscale(h)
            adm &= sep
        return sc, adm

    def keyscale(self, h):
        if self.clf:
            return 1.0
        nt, nv, W, A, Q = h
        return 1e3 * float(np.sqrt(max(Q.sum() / max(W.sum(), 1e-300), 0.0))) + 1e-300

    def best(self, j, iscat, strategy):
        """(certain, possible): the smallest score that every order prescribed guarantees (inf if no admissible cut is
        certain), and the smallest over the orders."""
        h = self.hist(j)
        orders = self.orders(j, iscat, strategy, h)
        if orders is None:
            return np.inf, -np.inf
        per = []
        for bins, keys in orders:
            sc, adm = self.cuts(h, bins, keys)
            per.append(float(sc[adm].min()) if adm.any() else np.inf)
        if iscat and strategy == "random" and self.clf:
            return max(per), min(per)
        return min(per), min(per)

    def scale(self):
        w = self.w[self.rt]
        if self.clf:
            return float(w.sum()) * (1.0 if self.criterion == "gini" else 1.0 + np.log(max(2, self.K)))
        return float((w * self.y[self.rt] ** 2).sum())

    def tol(self, exact):
        """Bound on the single-precision error of a score."""
        if self.clf and exact:
            return 32 * (self.K + 2) * EPS32 * self.scale()
        return 16 * (self.rt.size + int(self.nbins.max()) + self.K) * EPS32 * self.scale() + 1e-30

    def node_impurity(self):
        w = self.w[self.rt]
        y = self.y[self.rt]
        if self.clf:
            return float(impurity_clf(np.bincount(y, weights=w, minlength=self.K)[None], self.criterion)[0])
        return float(impurity_reg(np.array([w.sum()]), np.array([(w * y).sum()]), np.array([(w * y * y).sum()]))[0])


# ---------------------------------------------------------------------------------------- whole forests


class Obs:
    """A fitted forest as the monitors see it."""

    def __init__(self, case, f):
        self.case, self.f = case, f
        self.B = ref_bins(f._encoder, case.X)
        self.views = [View(f, k) for k in range(len(f.trees))]
        self.targets = encode_targets(case, f)
        self.K = n_classes_per_tree(case)
        self.clf = case.task == "clf"
        self.n = case.X.shape[0]

    def weights(self, k):
        """(in-bag weights, out-of-bag weights) of tree k from the multiplicities and the documented weights."""
        v = self.views[k]
        base = self.targets[k][1]
        c = boot_counts(v, base, self.n)
        c = np.nan_to_num(np.rint(c))
        return base * c, base

    def exact_weights(self, k):
        base = self.targets[k][1]
        return bool(np.all(base == np.rint(base)) and base.sum() * 4 < 2 ** 22)

    def noderef(self, k, dirichlet=None):
        v = self.views[k]
        y, base = self.targets[k]
        wt, wv = self.weights(k)
        d = dirichlet if dirichlet is not None else self.case.params.get("dirichlet", 0.0)
        return NodeRef(v, self.B, y, wt, wv, self.K, float(np.float32(d)), self.clf,
                       exact=self.exact_weights(k))


def tree_outputs(f, X):
    """List of the outputs of the individual trees."""
    fb = f._encoder.transform(X)
    return [np.array(t.predict_proba(fb) if hasattr(t, "_tree_classifier") else t.predict(fb)) for t in f.trees]


def outputs(f, X):
    return f.predict_proba(X) if hasattr(f, "predict_proba") else f.predict(X)
