"""C06: growth limits, justified leaves, and the distribution of the features considered."""
import numpy as np
from math import comb

from wwmon import gen, ref
from wwmon.splits import Scan

TECHNIQUE = ("runtime monitor: limits and stopping reasons audited at every node of fitted trees by a reference split "
             "search; exact-distribution tests of the feature draw over thousands of nodes")
RULE = ("each case draws data and limits, fits and audits all nodes (at most 120 leaves per tree for the stopping reason); "
        "distribution cases grow 150 trees and test the ranks of the chosen features; non-trivial: at least one split "
        "node; distinct: by hash of the tree structures and data")
ASSUMPTIONS = ["a node is called pure or unsplittable only beyond the single-precision error of its impurity",
               "distribution tests reject below probability 1e-10",
               "the root may be split even when it is pure (its impurity is not known before the search)"]
QUICK = dict(seconds=20)
THOROUGH = dict(seconds=420)
REQUIRED = ["split_nodes", "depth_limited", "leaves_justified", "leaf_limit_binding", "split_limit_binding",
            "pure_leaves", "rank_draws", "fresh_draws", "unsplittable_leaves", "valid_limit_binding",
            "deep_draws"]
PMIN = 1e-10

SPECS = [("auto", 9), ("sqrt", 7), ("log2", 9), (0.5, 9), (0.34, 6), (1, 5), (2, 5), (3, 5), (4, 5), (None, 5), (2, 12),
         (1, 2), (1.0, 4), (2, 3), (0.34, 5), (0.5, 7), (0.7, 4), ("log2", 7), ("log2", 3), ("sqrt", 8), ("auto", 3), ("log2", 15),
         (0.1, 4), (0.7, 10), (0.9, 10)]


def directed(tier):
    d = ["dist_%d" % i for i in range(len(SPECS))] + ["deep_%d" % i for i in range(4)]
    d += ["pure_%d" % i for i in range(4)] + ["tight_%d" % i for i in range(10)] + ["exact_%d" % i for i in range(6)]
    d += ["chain_%d" % i for i in range(8)] + ["scaled_up", "scaled_down"]
    return d + gen.SHAPES


def make(rng, name):
    g = gen.gen_case
    if name is not None and name.startswith("shape_"):
        return gen.shape_case(rng, name)
    if name is None:
        r = rng.rand()
        if r < 0.3:
            name = "tight_r"
        elif r < 0.4:
            name = "exact_r"
        elif r < 0.42:
            name = "chain_%d" % rng.randint(8)
        elif r < 0.44:
            name = str(rng.choice(["scaled_up", "scaled_down"]))
    if name is None:
        return g(rng, n=int(rng.randint(8, 300)))
    if name.startswith("pure"):
        c = g(rng, n=int(rng.randint(40, 200)), p=3, kinds=["normal", "int_few", "ties"], container="array",
              wmode="none", min_samples_leaf=1, min_samples_split=2, max_depth=None, class_weight=None) \
            if name.endswith(("0", "1")) else \
            g(rng, task="reg", n=120, p=3, kinds=["normal", "int_few", "ties"], container="array", wmode="int",
              min_samples_leaf=1, min_samples_split=2, max_depth=None)
        if c.task == "reg":
            c.params.pop("class_weight", None)
            c.y = np.floor((c.X[:, 0] > 0) * 3 + (c.X[:, 2] > 0.5) * 1.0)
        return c
    if name.startswith("chain"):
        i = int(name[6:])
        return gen.chain_case(rng, "reg" if i & 1 else "clf", bool(i & 2), aggregation=bool(i & 4))
    if name.startswith("scaled"):
        c = g(rng, task="reg", n=int(rng.randint(40, 250)))
        y = np.asarray(c.y, dtype=np.float64)
        c.y = (y - y.mean()) / (y.std() + 1e-9) * (1e5 if name == "scaled_up" else 1e-4)
        return c
    if name.startswith("tight"):
        return g(rng, n=int(rng.randint(30, 200)), min_samples_leaf=int(rng.randint(1, 12)),
                 min_samples_split=int(rng.randint(2, 25)), max_depth=None if rng.rand() < 0.5 else int(rng.randint(2, 5)),
                 aggregation=bool(rng.rand() < 0.7))
    if name.startswith("exact"):
        # small exact data: every count matters
        return g(rng, n=int(rng.randint(8, 40)), p=int(rng.randint(1, 3)), kinds=None, container="array",
                 wmode="none", max_features=None, min_samples_leaf=int(rng.randint(1, 4)),
                 min_samples_split=int(rng.randint(2, 8)), class_weight=None) if rng.rand() < 0.5 else \
            g(rng, task="clf", n=int(rng.randint(8, 40)), container="array", kinds=["int_few", "normal"], wmode="none",
              max_features=None, class_weight=None)
    raise KeyError(name)


def audit(rep, rng, o, k):
    case, v = o.case, o.views[k]
    w = v.well_formed()
    if w is not None:
        rep.bad("tree %d malformed: %s" % (k, w))
        return False
    sc = Scan(o, k)
    inner = np.flatnonzero(~v.leaf)
    if sc.maxd is not None:
        if v.depth.max() > sc.maxd:
            rep.bad("tree %d has depth %d, max_depth=%d" % (k, v.depth.max(), sc.maxd))
            return False
        rep.ev("depth_limited", int((v.depth == sc.maxd).sum()))
    rep.ev("split_nodes", inner.size)
    root_scale = None
    y_small_int = o.clf or (np.all(sc.y == np.rint(sc.y)) and (np.abs(sc.y).max() ** 2 * sc.wt.sum()) < 2 ** 22)
    for x in inner:
        nt, nv = sc.tr[x].size, sc.va[x].size
        if nt < sc.mss or (sc.agg and nv < sc.mss):
            rep.bad("tree %d node %d was split with %d in-bag and %d out-of-bag rows, min_samples_split=%d"
                    % (k, x, nt, nv, sc.mss))
            return False
        if nt == sc.mss or nv == sc.mss:
            rep.ev("split_limit_binding")
        for c in (v.left[x], v.right[x]):
            ct, cv = sc.tr[c].size, sc.va[c].size
            if ct < sc.msl or (sc.agg and cv < sc.msl):
                rep.bad("tree %d node %d has %d in-bag and %d out-of-bag rows, min_samples_leaf=%d"
                        % (k, c, ct, cv, sc.msl))
                return False
            rep.ev("leaf_limit_binding", ct == sc.msl)
            rep.ev("valid_limit_binding", sc.agg and cv == sc.msl)
        if x != 0 and sc.exact and y_small_int:
            wrows = sc.tr[x][sc.wt[sc.tr[x]] > 0]
            if wrows.size and np.unique(sc.y[wrows]).size == 1:
                rep.bad("tree %d node %d was split although all its %d in-bag rows have target %s"
                        % (k, x, nt, sc.y[wrows[0]]))
                return False
    leaves = np.flatnonzero(v.leaf)
    if leaves.size > 120:
        leaves = rng.choice(leaves, 120, replace=False)
    for x in leaves:
        nt, nv = sc.tr[x].size, sc.va[x].size
        if nt < sc.mss or (sc.agg and nv < sc.mss) or (sc.maxd is not None and v.depth[x] >= sc.maxd):
            rep.ev("leaves_at_limit")
            continue
        if sc.wt[sc.tr[x]].sum() <= 0:
            continue
        s = sc.node(x)
        par = sc.node(v.parent[x]) if x != 0 else s
        tol = par.tol(sc.exact)
        if s.node_impurity() <= tol:
            rep.ev("pure_leaves")
            continue
        cert, _ = sc.bests(s)
        q = int(np.isfinite(cert).sum())
        rep.ev("leaves_justified")
        if q == 0:
            rep.ev("unsplittable_leaves")
        if q > sc.p - sc.m:
            rep.bad("tree %d node %d (%d in-bag, %d out-of-bag rows, depth %d, impurity %.6g) is a leaf although %d of "
                    "the %d features can be split and %d were to be considered"
                    % (k, x, nt, nv, v.depth[x], s.node_impurity(), q, sc.p, sc.m))
            return False
    return True


def binom_p(kk, n, p):
    from scipy.stats import binomtest

    if n == 0:
        return 1.0
    if p in (0.0, 1.0):
        return 0.0 if kk != n * p else 1.0
    return float(binomtest(int(kk), int(n), p).pvalue)


def distribution(rep, rng, idx):
    spec, p = SPECS[idx]
    n = 140
    case = gen.Case()
    case.task = "clf" if rng.rand() < 0.7 else "reg"
    X = rng.randn(n, p)
    case.kinds = ["normal"] * p
    case.X, case.Xt, case.cat = X, X[:5], np.zeros(p, dtype=bool)
    s = X.sum(axis=1) / np.sqrt(p) + 1.5 * rng.randn(n)
    case.y = (s > 0).astype(int) if case.task == "clf" else np.round(s * 8)
    case.sw = rng.randint(1, 6, n).astype(float)
    case.wmode = "int"
    case.params = dict(n_estimators=150, aggregation=bool(rng.rand() < 0.3), max_depth=2, max_features=spec, max_bins=64,
                       random_state=int(rng.randint(2 ** 31 - 1)), n_jobs=int(rng.choice([1, 2])))
    if case.task == "clf":
        case.params["dirichlet"] = 0.5
    f = case.fit()
    o = ref.Obs(case, f)
    ranks, perfeat, inroot, notroot = np.zeros(p), np.zeros((p, 2)), [0, 0], [0, 0]
    m = None
    for k, v in enumerate(o.views):
        if v.well_formed() is not None:
            rep.bad("tree %d malformed: %s" % (k, v.well_formed()))
            return
        sc = Scan(o, k)
        m = sc.m
        info = {}
        for x in np.flatnonzero(~v.leaf):
            sr = sc.node(x)
            cert, poss = sc.bests(sr)
            if not np.isfinite(cert).all():
                continue
            o_ = np.argsort(cert)
            if p > 1 and np.diff(cert[o_]).min() <= 2 * sr.tol(sc.exact):
                rep.ev("nodes_with_near_ties")
                continue
            r = int(np.flatnonzero(o_ == v.feature[x])[0])
            info[x] = (o_, r)
            ranks[r] += 1
            perfeat[o_[0], 0] += 1
            perfeat[o_[0], 1] += r == 0
            rep.ev("rank_draws")
        for x, (o_, r) in info.items():
            if x == 0 or v.parent[x] not in info:
                continue
            po, pr = info[v.parent[x]]
            b = o_[0]
            if b == v.feature[v.parent[x]]:
                inroot[0] += 1
                inroot[1] += r == 0
                rep.ev("fresh_draws")
            elif b in po[:pr]:
                notroot[0] += 1
                notroot[1] += r == 0
                rep.ev("fresh_draws")
    what = "max_features=%r with %d features (%d nodes)" % (spec, p, int(ranks.sum()))
    N = ranks.sum()
    if N < 50:
        rep.notes["distribution case with few usable nodes"] += 1
        return
    probs = np.array([comb(p - 1 - r, m - 1) / comb(p, m) if p - 1 - r >= m - 1 else 0.0 for r in range(p)])
    for r in range(p):
        pv = binom_p(ranks[r], N, probs[r])
        if pv < PMIN:
            rep.bad("%s: the chosen feature has rank %d in %d nodes, expected %.1f (p-value %.2g)"
                    % (what, r, ranks[r], N * probs[r], pv))
            return
    for j in range(p):
        pv = binom_p(perfeat[j, 1], perfeat[j, 0], m / p)
        if pv < PMIN:
            rep.bad("%s: feature %d, best in %d nodes, is chosen in %d of them, expected %.1f (p-value %.2g)"
                    % (what, j, perfeat[j, 0], perfeat[j, 1], perfeat[j, 0] * m / p, pv))
            return
    for nm, (t, s_) in (("was chosen at the parent", inroot), ("was not considered at the parent", notroot)):
        pv = binom_p(s_, t, m / p)
        if pv < PMIN:
            rep.bad("%s: among %d nodes whose best feature %s, it is chosen %d times, expected %.1f (p-value %.2g): not "
                    "drawn afresh" % (what, t, nm, s_, t * m / p, pv))
            return
    rep.ev("distribution_tests", 2 * p + 2)
    rep.nontrivial = True
    rep.set_sig("dist", *[v.feature for v in o.views])
    rep.sample = dict(max_features=repr(spec), n_features=p, nodes=int(N), observed_ranks=ranks.astype(int).tolist(),
                      expected_ranks=np.round(N * probs, 1).tolist(), fresh=[inroot, notroot])


def deep(rep, rng):
    """Fully grown trees on distinct values with one feature considered per node: every node can be split along every
    feature, so the feature of each split node is the one drawn, uniform whatever was drawn before."""
    p, n = int(rng.randint(2, 6)), int(rng.choice([30, 120, 250]))
    case = gen.Case()
    case.task = "clf" if rng.rand() < 0.5 else "reg"
    X = np.argsort(rng.rand(n, p), axis=0).astype(float)
    case.kinds, case.X, case.Xt, case.cat = ["uniq_int"] * p, X, X[:5], np.zeros(p, dtype=bool)
    case.y = rng.randint(0, 3, n) if case.task == "clf" else rng.randn(n)
    case.sw, case.wmode = None, "none"
    case.params = dict(n_estimators=max(8, 6000 // n), aggregation=False, max_features=1, max_bins=256,
                       random_state=int(rng.randint(2 ** 31 - 1)), n_jobs=int(rng.choice([1, 2])))
    o = ref.Obs(case, case.fit())
    seen = {}

    def note(key, hit):
        a = seen.setdefault(key, [0, 0])
        a[0] += 1
        a[1] += bool(hit)

    for k, v in enumerate(o.views):
        if v.well_formed() is not None:
            rep.bad("tree %d malformed: %s" % (k, v.well_formed()))
            return
        mem = v.members(o.B, v.train)
        inner = np.flatnonzero(~v.leaf)
        prev = None
        for x in inner:
            sz = mem[x].size
            size = "2" if sz == 2 else "3" if sz == 3 else "4 to 8" if sz <= 8 else "9 to 30" if sz <= 30 else "more than 30"
            dep = str(v.depth[x]) if v.depth[x] < 3 else "3 to 6" if v.depth[x] <= 6 else "more than 6"
            rep.ev("deep_draws")
            for g in ("%s in-bag rows" % size, "depth %s" % dep):
                for j in range(p):
                    note((g, "split along feature %d" % j), v.feature[x] == j)
                if x != 0:
                    q = v.parent[x]
                    note((g, "split along the feature of their parent"), v.feature[x] == v.feature[q])
                    sib = v.left[q] if v.right[q] == x else v.right[q]
                    if sib < x and not v.leaf[sib]:
                        note((g, "split along the feature of their sibling"), v.feature[x] == v.feature[sib])
                if prev is not None:
                    note((g, "split along the feature of the node split before"), v.feature[x] == v.feature[prev])
            prev = x
    for (g, what), (N, hits) in sorted(seen.items()):
        rep.ev("deep_tests")
        pv = binom_p(hits, N, 1.0 / p)
        if pv < PMIN:
            rep.bad("one feature of %d considered: %d of %d nodes with %s are %s, expected %.1f (p-value %.2g)"
                    % (p, hits, N, g, what, N / p, pv))
            return
    rep.nontrivial = True
    rep.set_sig("deep", *[v.feature for v in o.views])


def run_case(rep, rng, name, tier):
    if name is not None and name.startswith("deep_"):
        return deep(rep, rng)
    if name is None and rng.rand() < (0.005 if tier == "quick" else 0.03):
        return deep(rep, rng)
    if name is not None and name.startswith("dist_"):
        return distribution(rep, rng, int(name[5:]))
    if name is None and rng.rand() < (0.01 if tier == "quick" else 0.03):
        return distribution(rep, rng, int(rng.randint(len(SPECS))))
    case = make(rng, name)
    f = case.fit()
    o = ref.Obs(case, f)
    for k in range(len(o.views)):
        if not audit(rep, rng, o, k):
            return
    rep.nontrivial = max(v.m for v in o.views) >= 3
    rep.set_sig(o.B, *[v.left for v in o.views])
