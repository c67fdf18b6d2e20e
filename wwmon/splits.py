"""Shared by C06 and C07: reference split search at the nodes of fitted trees."""
import numpy as np

from wwmon import ref


def max_features_of(case):
    mf, p = case.params.get("max_features", "auto"), case.X.shape[1]
    if mf is None:
        return p
    if mf in ("auto", "sqrt"):
        return max(1, int(np.sqrt(p)))
    if mf == "log2":
        return max(1, int(np.log2(p)))
    if isinstance(mf, float):
        return max(1, int(mf * p))
    return int(mf)


class Scan:
    def __init__(self, o, k):
        self.o, self.k = o, k
        c = o.case
        self.v = o.views[k]
        self.tr = self.v.members(o.B, self.v.train)
        self.va = self.v.members(o.B, self.v.valid)
        self.y, _ = o.targets[k]
        self.wt, self.wv = o.weights(k)
        self.exact = o.exact_weights(k)
        self.nbins = np.asarray(o.f._encoder.n_bins_no_missing_values_).astype(np.int64) + 1
        self.iscat = np.asarray(o.f._encoder.is_categorical_, dtype=bool)
        self.strategy = c.params.get("cat_split_strategy", "binary")
        self.p = c.X.shape[1]
        self.m = max_features_of(c)
        self.agg = c.params.get("aggregation", True)
        self.msl = c.params.get("min_samples_leaf", 1)
        self.mss = c.params.get("min_samples_split", 2)
        self.maxd = c.params.get("max_depth", None)
        self.crit = c.params.get("criterion", "gini")

    def node(self, x):
        o = self.o
        return ref.SplitRef(o.B, self.nbins, self.y, self.wt, self.tr[x], self.va[x], o.K, o.clf, self.crit, self.msl,
                            self.agg)

    def left_mask(self, x):
        v = self.v
        j = v.feature[x]
        b = np.arange(int(self.nbins[j]))
        if v.iscat[x]:
            return np.isin(b, v.parts[v.ps[x]:v.pe[x]])
        return b <= v.thr[x]

    def bests(self, s):
        """(certain, possible) best score of every feature."""
        r = [s.best(j, bool(self.iscat[j]), self.strategy) for j in range(self.p)]
        return np.array([a for a, _ in r]), np.array([b for _, b in r])

    def chosen_score(self, s, x):
        h = s.hist(int(self.v.feature[x]))
        sc, adm = s.score_left(h, self.left_mask(x)[None, :])
        return float(sc[0])
