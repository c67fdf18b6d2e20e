"""C02: a forest prediction is the mean of its trees, each counted exactly once, under every schedule."""
import sys
import threading
import time

import numpy as np

from wwmon import gen, ref

TECHNIQUE = ("runtime monitor under schedule perturbation: tree predictions and accumulations are delayed at random, "
             "forests are predicted from several threads, and every result is compared with the sequential sum of the "
             "observed tree outputs; marker outputs identify each tree in the sum")
RULE = ("each case fits a forest, then runs rounds of 1 to 6 concurrent callers (predict_proba, predict, apply, per-tree "
        "outputs; different batches, n_jobs 1 to 8 or -1) with delays injected around tree predictions and inside the "
        "accumulation of large batches; non-trivial: two tree predictions of one forest overlapped in time; distinct: by "
        "completion orders and outputs")
ASSUMPTIONS = ["delays inside an accumulation are injected by handing the forest an array subclass as tree output: numpy "
               "releases the interpreter lock in large in-place additions, so these interleavings are real",
               "the sum over trees may differ by 1e-9 (order of additions in double precision)"]
QUICK = dict(seconds=20)
THOROUGH = dict(seconds=420)
REQUIRED = ["calls_compared", "concurrent_calls", "rows_compared", "ovr_calls", "regression_calls", "apply_calls",
            "per_tree_calls", "small_score_rows", "alias_checks", "parallel_calls"]


def directed(tier):
    return ["stress_%d" % i for i in range(8)] + ["marker_%d" % i for i in range(8)] + ["ovr_%d" % i for i in range(6)] + \
        ["reg_%d" % i for i in range(4)] + ["plain_%d" % i for i in range(4)] + \
        ["many_trees", "many_trees_reg", "many_trees_ovr"] + ["small_scores_%d" % i for i in range(6)]


class Slow(np.ndarray):
    """Array whose in-place accumulation into another array is a delayed read-modify-write."""

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = tuple(np.asarray(i) if isinstance(i, Slow) else i for i in inputs)
        if out is not None and method == "__call__":
            outs = tuple(np.asarray(o) if isinstance(o, Slow) else o for o in out)
            r = getattr(ufunc, method)(*ins, **kw)
            d = getattr(Slow, "delay", None)
            if d is not None:
                d()
            outs[0][...] = r
            return out[0]
        return getattr(ufunc, method)(*ins, **kw)


class Monitor:
    """Wraps the prediction methods of the trees of one forest; records the calls."""

    def __init__(self, f, rng, scale, marker=False):
        self.f = f
        self.lock = threading.Lock()
        self.log = []
        self.seed = int(rng.randint(2 ** 31 - 1))
        self.rs = np.random.RandomState(self.seed)
        self.scale = scale
        self.saved = []
        self.marker = marker
        self.active = 0
        self.max_active = 0

    def nap(self):
        with self.lock:
            r = self.rs.rand()
            u = self.rs.rand()
        if r < 0.6:
            time.sleep(self.scale * u)

    def wrap(self, k, orig, slow, mark):
        def call(*a, **kw):
            with self.lock:
                self.active += 1
                self.max_active = max(self.max_active, self.active)
                self.log.append(("call", k))
            self.nap()
            out = orig(*a, **kw)
            self.nap()
            with self.lock:
                self.active -= 1
                self.log.append(("return", k))
            if mark:
                out = np.full(np.shape(out), float(4 ** k))
            return np.asarray(out).view(Slow) if slow else out

        return call

    def __enter__(self):
        Slow.delay = staticmethod(self.nap)
        for k, t in enumerate(self.f.trees):
            for nm in ("predict_proba", "predict", "apply", "weighted_depth"):
                if hasattr(type(t), nm):
                    orig = getattr(t, nm)
                    setattr(t, nm, self.wrap(k, orig, nm in ("predict_proba", "predict"),
                                             self.marker and nm in ("predict_proba", "predict")))
                    self.saved.append((t, nm))
        return self

    def __exit__(self, *a):
        for t, nm in self.saved:
            t.__dict__.pop(nm, None)
        Slow.delay = None


def expected(f, case, outs):
    """Documented combination of the outputs of the trees; (array, mask of the rows decided)."""
    S = np.stack([np.asarray(o, dtype=np.float64) for o in outs])
    if case.task == "reg" or f.multiclass != "ovr" or f.n_classes_ <= 2:
        E = S.mean(axis=0)
        return E, np.ones(E.shape[0], dtype=bool)
    K = f.n_classes_
    ne = f.n_estimators
    E = np.stack([S[k * ne:(k + 1) * ne, :, 1].sum(axis=0) for k in range(K)], axis=1)
    tot = E.sum(axis=1)
    e = ref.EPS32
    ok = (tot < 0.5 * e) | (tot > 2 * e)
    E = np.where((tot < 0.5 * e)[:, None], 1.0 / K, E / np.maximum(tot, 1e-300)[:, None])
    return E, ok


def make(rng, name):
    g = gen.gen_case
    kw = dict(n_estimators=int(rng.choice([1, 2, 3, 5, 8, 13])), n=int(rng.randint(30, 200)), max_depth=int(rng.randint(2, 7)))
    name = name or ""
    if name.startswith("ovr"):
        kw.update(task="clf", multiclass="ovr", n_classes=int(rng.randint(3, 6)), n_estimators=int(rng.randint(1, 5)))
    elif name.startswith("reg"):
        kw.update(task="reg")
    elif name.startswith("stress"):
        kw.update(n_estimators=12)
    elif name.startswith("marker"):
        kw.update(n_estimators=int(rng.randint(2, 20)), multiclass="multinomial")
    elif name.startswith("many_trees"):
        kw.update(n_estimators=150)
        if name == "many_trees_reg":
            kw.update(task="reg", n_estimators=int(rng.randint(20, 150)))
        elif name == "many_trees_ovr":
            kw.update(task="clf", multiclass="ovr", n_classes=3, n_estimators=int(rng.randint(15, 60)))
    elif name.startswith("small_scores"):  # one-versus-rest trees that all say "rest", with tiny priors
        kw.update(task="clf", multiclass="ovr", n_classes=int(rng.randint(4, 9)), n_estimators=int(rng.randint(1, 3)),
                  aggregation=bool(rng.rand() < 0.3), dirichlet=float(10.0 ** rng.uniform(-6, -2)), max_depth=None, n=200,
                  min_samples_leaf=1, min_samples_split=2, container="array", kinds=["normal", "skew"], nt=400, wmode="none")
    else:
        if rng.rand() < 0.1:
            kw.update(n_estimators=int(rng.randint(14, 70)))
    return g(rng, **kw)


def tile(X, m):
    n = X.shape[0]
    i = np.arange(m) % n
    return X.iloc[i] if hasattr(X, "iloc") else X[i]


def run_case(rep, rng, name, tier):
    case = make(rng, name)
    f = case.fit()
    clf = case.task == "clf"
    sizes = [int(rng.randint(1, 40)), int(rng.randint(40, 400)), int(rng.randint(600, 2500))]
    batches = [tile(case.Xt if rng.rand() < 0.5 else case.X, m) for m in sizes]
    truth = []
    for X in batches:
        outs = ref.tree_outputs(f, X)
        fb = f._encoder.transform(X)
        ap = np.stack([np.array(t.apply(fb)) for t in f.trees])
        E, ok = expected(f, case, outs)
        truth.append((E, ok, np.stack([np.asarray(o, dtype=np.float64) for o in outs]), ap))
    ovr = clf and f.multiclass == "ovr" and f.n_classes_ > 2
    if ovr:
        for _, _, S, _ in truth:
            tot = S[:, :, 1].sum(axis=0)
            rep.ev("small_score_rows", int(((tot > 1e-6) & (tot < 1e-2 * len(f.trees))).sum()))
    ops = ["proba", "proba", "proba", "apply", "trees"] + (["labels"] if clf else [])
    if not clf and case.params["aggregation"] and hasattr(f, "_weighted_depth"):
        ops.append("wdepth")
        wd = [np.array(f._weighted_depth(X)) for X in batches]
    marker = name is not None and name.startswith("marker")
    sw = sys.getswitchinterval()
    orders = []
    try:
        if rng.rand() < 0.5:
            sys.setswitchinterval(1e-5)
        for rnd in range(4 if tier == "quick" else 10):
            f.n_jobs = int(rng.choice([1, 2, 3, 4, 8, -1], p=[0.15, 0.2, 0.2, 0.2, 0.15, 0.1]))
            ncall = int(rng.choice([1, 2, 4, 6])) if not marker else 1
            plan = [(str(rng.choice(ops)) if not marker else "proba", int(rng.randint(3))) for _ in range(ncall)]
            res = [None] * ncall
            start = threading.Barrier(ncall)

            def caller(i):
                op, b = plan[i]
                X = batches[b]
                start.wait()
                try:
                    if op == "proba":
                        r = ref.outputs(f, X)
                    elif op == "labels":
                        r = f.predict(X)
                    elif op == "apply":
                        r = f.apply(X)
                    elif op == "wdepth":
                        r = f._weighted_depth(X)
                    else:
                        r = f.predict_proba_trees(X) if clf else f.predict_trees(X)
                    res[i] = ("ok", r)
                except Exception as e:
                    res[i] = ("error", "%s: %s" % (type(e).__name__, e))

            with Monitor(f, rng, float(rng.choice([0.0005, 0.002, 0.004])), marker=marker) as mon:
                th = [threading.Thread(target=caller, args=(i,)) for i in range(ncall)]
                for t in th:
                    t.start()
                for t in th:
                    t.join()
            orders.append(tuple(mon.log))
            rep.ev("tree_calls_observed", len(mon.log) // 2)
            if mon.max_active > 1:
                rep.ev("rounds_with_overlapping_tree_calls")
                rep.nontrivial = True
            rep.ev("parallel_calls", f.n_jobs != 1)
            for (op, b), r in zip(plan, res):
                E, ok, per, ap = truth[b]
                what = "%s on %d rows, n_jobs=%d, %d concurrent calls, %d trees" % (
                    op, sizes[b], f.n_jobs, ncall, len(f.trees))
                if r is None or r[0] != "ok":
                    rep.bad("%s: %s" % (what, r))
                    return
                r = np.asarray(r[1])
                rep.ev("calls_compared")
                rep.ev("concurrent_calls", ncall > 1)
                rep.ev("ovr_calls", ovr)
                rep.ev("regression_calls", not clf)
                if marker:
                    if not mon.log:
                        rep.notes["tree outputs are not read through tree.predict(_proba): markers skipped"] += 1
                        continue
                    tot = np.asarray(r, dtype=float) * len(f.trees)
                    want = float(sum(4 ** k for k in range(len(f.trees))))
                    rep.ev("marker_rows", tot.shape[0])
                    if not np.all(np.abs(tot - want) <= 1e-9 * want + 0.01):
                        i = int(np.flatnonzero(np.abs(tot.reshape(len(tot), -1) - want).max(axis=1) > 0.01)[0])
                        v = tot.reshape(len(tot), -1)[i, 0]
                        rep.bad("%s: row %d, multiplicities of the trees in the sum (base 4): %s"
                                % (what, i, np.base_repr(max(0, int(round(v))), 4)[::-1]))
                        return
                    continue
                rep.ev("rows_compared", sizes[b])
                if op == "proba":
                    tol = 1e-9 * max(1.0, float(np.abs(E).max()))
                    if r.shape != E.shape or not (np.abs(r - E)[ok] <= tol).all():
                        if r.shape != E.shape:
                            rep.bad("%s: shape %s" % (what, r.shape))
                        else:
                            bad = np.flatnonzero((np.abs(r - E).reshape(len(r), -1) > tol).any(axis=1) & ok)
                            rep.bad("%s: %d rows differ from the mean of the trees, e.g. row %d: %s instead of %s"
                                    % (what, bad.size, bad[0], r[bad[0]], E[bad[0]]))
                        return
                elif op == "labels":
                    srt = np.sort(E, axis=1)
                    clear = ok & ((srt[:, -1] - srt[:, -2] > 1e-9) if E.shape[1] > 1 else True)
                    if not np.array_equal(r[clear], np.asarray(f.classes_)[E.argmax(axis=1)][clear]):
                        rep.bad("%s: labels differ from the largest mean probability" % what)
                        return
                elif op == "apply":
                    rep.ev("apply_calls")
                    if not np.array_equal(r.astype(np.int64), ap.astype(np.int64)):
                        rep.bad("%s: leaves differ from those of the trees (rows of trees %s)"
                                % (what, np.flatnonzero((r != ap).any(axis=1))[:5] if r.shape == ap.shape else r.shape))
                        return
                elif op == "trees":
                    rep.ev("per_tree_calls")
                    if r.shape != per.shape or not np.array_equal(r.astype(np.float64), per):
                        rep.bad("%s: outputs of the trees differ (trees %s)" % (what, r.shape if r.shape != per.shape else
                                np.flatnonzero((r != per).reshape(len(per), -1).any(axis=1))[:5]))
                        return
                elif op == "wdepth":
                    rep.ev("weighted_depth_calls")
                    if not np.array_equal(r, wd[b]):
                        rep.bad("%s: weighted depths differ from those of a call alone" % what)
                        return
    finally:
        sys.setswitchinterval(sw)
    # results belong to the caller: later calls do not change them
    m = min(b.shape[0] for b in batches)
    A, B = tile(case.X, m), tile(case.X[::-1] if not hasattr(case.X, "iloc") else case.X.iloc[::-1], m)
    f.n_jobs = 1
    fns = [lambda X: ref.outputs(f, X), f.apply, f.predict_proba_trees if clf else f.predict_trees]
    for fn in fns:
        r1 = fn(A)
        c1 = np.array(r1, copy=True)
        r2 = fn(B)
        rep.ev("alias_checks")
        if np.shares_memory(np.asarray(r1), np.asarray(r2)) or not np.array_equal(np.asarray(r1), c1):
            rep.bad("the result of a call is overwritten by the next call")
            return
        np.asarray(r1)[...] = 0
        if not np.array_equal(np.asarray(fn(A)), c1):
            rep.bad("writing in a returned array changes later results")
            return
    rep.set_sig(repr(orders), *[t[0] for t in truth])
    rep.ev("distinct_completion_orders", len(set(orders)))
    if name is None and rng.rand() < 0.05:
        rep.sample = dict(case.describe(), rounds=len(orders), trees=len(f.trees))
