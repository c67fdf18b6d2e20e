"""C16: caller data is never modified and refused calls change nothing."""
import copy
import pickle

import numpy as np
import pandas as pd

from wwmon import gen, ref
from wwmon.checks import c11

TECHNIQUE = ("runtime monitor: byte-level snapshots of all caller objects around every call, read-only buffers as traps, caller "
             "data scrambled after the call; invalid parameters, shapes, types and categories, and faults injected in the "
             "middle of fit, with digests of parameters and outputs before and after")
RULE = ("each case fits a forest, runs every public method on monitored data and then a random sequence of 6 to 25 refused "
        "calls or faults; non-trivial: some tree has 3 or more nodes; distinct: by hash of outputs and calls")
ASSUMPTIONS = ["categorical_features given to a successful fit becomes the parameter of the forest, by design"]
QUICK = dict(seconds=17)
THOROUGH = dict(seconds=420)
REQUIRED = ["snapshots_compared", "readonly_calls", "refused_setters", "refused_set_params", "refused_constructors",
            "refused_predictions", "refused_fits", "refused_fits_fitted", "faults_injected", "interrupts_injected", "unknown_refused",
            "scrambled_after_fit", "returned_arrays_scrambled", "frozen_parameters"]

BAD = dict(
    n_estimators=[0, -1, 1.5, "a", None],
    step=[0.0, -1.0, 1, "1", None],
    aggregation=[1, None, "yes"],
    max_depth=[1, 0, -3, 2.5, "3"],
    min_samples_split=[1, 0, -2, 2.0, None, "2"],
    min_samples_leaf=[0, -1, 1.0, None],
    max_bins=[2, 0, -1, 10.5, None],
    max_features=[0, -1, 0.0, 1.5, -0.2, "foo", [1]],
    n_jobs=[0, -2, 1.5, None, "2"],
    random_state=[-1, 1.5, "a"],
    verbose=[1, "y", None],
    criterion=["foo", 1, None],
    loss=["foo", 1, None],
)
BAD_CLF = dict(dirichlet=[-0.1, 1, None, "a"], class_weight=["foo", {0: 1.0}, 3], multiclass=["foo", 1, None],
               cat_split_strategy=["foo", 1, None])
FROZEN = dict(n_estimators=[7, 1], random_state=[3, None])
FROZEN_CLF = dict(multiclass=["ovr", "multinomial"], cat_split_strategy=["all", "random"])
BAD_AT_FIT = dict(handle_unknown=["x", None, 3], subsample=[3, -1, "a"], cat_min_categories=[2, -5, "foo", None])


def directed(tier):
    return ["array_clf", "array_reg", "df_clf", "df_reg", "f32_clf", "f32_reg", "f32_ovr", "light_clf", "light_reg",
            "balanced", "unknown_df", "unknown_arr", "setters_clf", "setters_reg", "fits_clf", "fits_reg", "faults_clf",
            "faults_reg"]


# ------------------------------------------------------------------------------------------------- snapshots


def snap(o):
    """Everything observable of a caller object."""
    if o is None:
        return None
    if isinstance(o, pd.DataFrame):
        return ("df", [snap(o.iloc[:, j]) for j in range(o.shape[1])], repr(list(o.columns)), repr(list(o.index)))
    if isinstance(o, pd.Series):
        v = o.array
        if o.dtype.name == "category":
            return ("cat", v.codes.tobytes(), repr(list(v.categories)), bool(v.ordered), repr(list(o.index)))
        return ("series", str(o.dtype), repr(list(o)), repr(list(o.index)), o.name)
    if isinstance(o, np.ndarray):
        return ("arr", str(o.dtype), o.shape, o.strides, repr(o.tolist()) if o.dtype == object else o.tobytes(),
                o.flags.writeable)
    return ("obj", repr(o))


class Watch:
    def __init__(self, rep, **objs):
        self.rep, self.objs = rep, objs
        self.before = {k: snap(v) for k, v in objs.items()}

    def check(self, what):
        for k, v in self.objs.items():
            self.rep.ev("snapshots_compared")
            if snap(v) != self.before[k]:
                self.rep.bad("%s changed the caller's %s" % (what, k))
                return False
        return True


def freeze(o):
    if isinstance(o, np.ndarray):
        o.setflags(write=False)
    elif isinstance(o, pd.DataFrame):
        for j in range(o.shape[1]):
            a = o.iloc[:, j].array
            for q in (getattr(a, "_ndarray", None), getattr(a, "_codes", None)):
                if isinstance(q, np.ndarray):
                    q.setflags(write=False)
    return o


def methods(f, clf):
    m = ["predict", "apply"]
    m += ["predict_proba", "predict_proba_trees"] if clf else ["predict_trees"]
    return m


def params(f):
    return repr(sorted((k, repr(v)) for k, v in f.get_params().items()))


def refused(rep, ev, call, what):
    """True if the call raised."""
    try:
        call()
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        rep.ev(ev)
        return True
    rep.bad("%s is accepted" % what)
    return False


def run_case(rep, rng, name, tier):
    name_ = name or str(rng.choice(directed(tier)))
    task = "reg" if name_.endswith("reg") else "clf"
    g = gen.gen_case
    n = int(rng.randint(20, 120))
    if name_.startswith(("array", "unknown_arr")):
        case = g(rng, task=task, n=n, container="array")
    elif name_.startswith(("df", "unknown_df")):
        case = g(rng, task=task, n=n, container="dataframe", **(dict(kinds=["str", "category", "normal"])
                                                               if name_ == "unknown_df" else {}))
    elif name_.startswith("f32"):
        # dtypes that match the internal ones: nothing forces a copy
        case = g(rng, task=task, n=n, container="array", kinds=["normal", "int_few", "nan"], wmode="int",
                 **(dict(multiclass="ovr", n_classes=4) if name_ == "f32_ovr" else {}))
        case.X, case.Xt = np.ascontiguousarray(case.X, dtype=np.float32), np.ascontiguousarray(case.Xt, dtype=np.float32)
        case.sw = np.ascontiguousarray(case.sw, dtype=np.float32)
        if task == "reg":
            case.y = np.ascontiguousarray(case.y, dtype=np.float32)
        elif rng.rand() < 0.5:
            case.y = np.ascontiguousarray(np.unique(case.y, return_inverse=True)[1], dtype=np.float32)
        case.cat = np.array([False, True, False])
    elif name_ == "balanced":
        case = g(rng, task="clf", n=n, class_weight="balanced", wmode=str(rng.choice(["int", "float"])))
        case.sw = np.ascontiguousarray(case.sw, dtype=str(rng.choice(["f4", "f8"])))
    else:
        case = g(rng, task=task, n=n)
    clf = case.task == "clf"
    case.params["n_jobs"] = int(rng.choice([1, 1, 2]))
    # ---- no call modifies or needs to write caller data
    X, y, sw, cat, Xt = (copy.deepcopy(o) for o in (case.X, case.y, case.sw, case.cat, case.Xt))
    y = np.array(y)
    r = rng.rand()
    if r < 0.12:
        y = y.tolist()
    elif r < 0.24:
        y = pd.Series(y, index=rng.permutation(n) * 2)
    if sw is not None and rng.rand() < 0.2:
        sw = sw.tolist() if rng.rand() < 0.5 else pd.Series(sw, index=rng.permutation(n) - 3)
    if cat is not None and rng.rand() < 0.5:  # lists, in any order
        c = np.asarray(cat)
        if c.dtype.kind == "b" and c.any() and rng.rand() < 0.7:
            c = np.flatnonzero(c)
        cat = c.tolist() if c.dtype.kind == "b" else rng.permutation(c)[::-1].tolist()
        rep.ev("listed_categorical_features")
    ro = rng.rand() < 0.6
    if ro:
        for o in (X, y, sw, cat, Xt):
            freeze(o)
    w = Watch(rep, X=X, y=y, sample_weight=sw, categorical_features=cat, Xt=Xt)
    kw = {}
    if sw is not None:
        kw["sample_weight"] = sw
    if cat is not None:
        kw["categorical_features"] = cat
    f = case.new()
    f.fit(X, y, **kw)
    rep.ev("readonly_calls", ro)
    if not w.check("fit%s" % (" on read-only data" if ro else "")):
        return
    for m in methods(f, clf):
        for Z in (X, Xt):
            getattr(f, m)(Z)
            rep.ev("readonly_calls", ro)
            if not w.check(m):
                return
    if name_.startswith("light"):
        f.lighten()
    obs = lambda: c11.digest(f, case)
    try:
        d0 = obs()
    except Exception as e:
        rep.bad("outputs not available after fit and predictions: %s: %s" % (type(e).__name__, e))
        return
    # ---- the forest keeps no live reference to the data
    if not ro and rng.rand() < 0.7:
        rep.ev("scrambled_after_fit")
        twin = case.fit()
        if name_.startswith("light"):
            twin.lighten()
        if isinstance(cat, np.ndarray):
            cat[:] = ~cat if cat.dtype.kind == "b" else (cat + 1) % X.shape[1]
            rep.ev("scrambled_categorical_features")
        elif isinstance(cat, list):
            cat[:] = [not c if isinstance(c, bool) else (c + 1) % X.shape[1] for c in cat]
            rep.ev("scrambled_categorical_features")
        for o in (X, Xt, sw, y):
            if isinstance(o, np.ndarray):
                o[:] = o[::-1].copy() if o.dtype.kind not in "f" else 12345.0
            elif isinstance(o, pd.DataFrame):
                for j in range(o.shape[1]):
                    o.isetitem(j, o.iloc[::-1, j].to_numpy())
        if obs() != d0:
            rep.bad("modifying the caller's arrays after fit changes the forest")
            return
        s = float(case.params["step"]) * 2
        f.step, twin.step = s, s
        if clf and not name_.startswith("light"):
            f.dirichlet, twin.dirichlet = 0.77, 0.77
        if obs() != c11.digest(twin, case):
            rep.bad("modifying the caller's arrays after fit affects later parameter changes")
            return
        d0 = obs()
    # ---- returned arrays belong to the caller
    for m in methods(f, clf):
        r = getattr(f, m)(case.Xt)
        rep.ev("returned_arrays_scrambled")
        if isinstance(r, np.ndarray) and r.flags.writeable and r.size:
            r[:] = r.flat[0] * 0 if r.dtype.kind in "uif" else r.flat[0]
    nodes = f.get_nodes(0)
    for c in nodes.columns:
        if nodes[c].dtype.kind in "uifb":
            try:
                nodes[c].to_numpy()[:] = 0
            except ValueError:
                pass
    if obs() != d0:
        rep.bad("modifying returned arrays changes the forest")
        return
    # ---- refused calls
    calls = []
    fitted_params = params(f)
    bad = dict(BAD, **(BAD_CLF if clf else {}))
    frozen = dict(FROZEN, **(FROZEN_CLF if clf else {}))
    p = case.X.shape[1]
    N = case.X.shape[0]
    kwc = {}
    if case.sw is not None:
        kwc["sample_weight"] = case.sw
    if case.cat is not None:
        kwc["categorical_features"] = case.cat

    def bad_X():
        A = np.zeros((4, p))
        k = int(rng.randint(9))
        if k == 0:
            return np.zeros((4, p + 1)), "an array with a column too many"
        if k == 1:
            return pd.DataFrame(np.zeros((4, p + 1))), "a DataFrame with a column too many"
        if k == 2:
            return np.zeros(p), "a vector"
        if k == 3:
            return np.zeros((2, 3, p)), "a three-dimensional array"
        if k == 4:
            return A.astype(complex), "complex numbers"
        if k == 5:
            return A.tolist(), "a list"
        if k == 6:
            return None, "None"
        if k == 7:
            return pd.Series(np.zeros(p)), "a Series"
        if p > 1:
            return (case.Xt.iloc[:, : p - 1] if ref.is_df(case.Xt) else case.Xt[:, : p - 1]), "a column too few"
        return "x", "a string"

    def other_labels():
        return np.arange(N) % 5 if clf else np.arange(N) * 1.0

    def bad_fit():
        """(X, y, kwargs, text) of a fit that is refused."""
        k = int(rng.randint(12))
        yy = case.y if rng.rand() < 0.3 else other_labels()
        if k == 0:
            return case.X, yy[:-1], {}, "targets too short"
        if k == 1:
            return case.X, yy, dict(sample_weight=np.ones(N - 1)), "weights too short"
        if k == 2:
            return case.X, yy, dict(sample_weight=np.full(N, np.nan)), "missing weights"
        if k == 3:
            return case.X, yy, dict(categorical_features=[p]), "categorical feature out of range"
        if k == 4:
            return case.X, yy, dict(categorical_features=[-1]), "negative categorical feature"
        if k == 5:
            return case.X, yy, dict(categorical_features=[0.5]), "fractional categorical feature"
        if k == 6:
            return case.X, yy, dict(categorical_features=np.ones(p + 1, dtype=bool)), "mask too long"
        if k == 7:
            return np.zeros(N), yy, {}, "vector as X"
        if k == 8:
            return np.zeros((N, p), dtype=complex), yy, {}, "complex X"
        if k == 9:
            return [[0.0] * p] * N, yy, {}, "list as X"
        if k == 10:
            return pd.DataFrame({"a": pd.date_range("2020", periods=N)}), yy, {}, "dates"
        if clf:
            return case.X, rng.randn(N), {}, "continuous labels"
        return case.X, np.column_stack([yy, yy]), {}, "two-dimensional targets"

    todo = int(rng.randint(6, 16 if name is None else 26))
    for _ in range(todo):
        r = rng.rand()
        if name_.startswith("setters"):
            r *= 0.42
        elif name_.startswith("fits"):
            r = 0.62 + 0.2 * r
        elif name_.startswith("faults"):
            r = 0.85 + 0.14 * r
        if r < 0.25:
            k = str(rng.choice(sorted(bad)))
            v = bad[k][int(rng.randint(len(bad[k])))]
            what = "%s = %r" % (k, v)
            if rng.rand() < 0.6:
                ok = refused(rep, "refused_setters", lambda: setattr(f, k, v), what)
            else:
                ok = refused(rep, "refused_set_params", lambda: f.set_params(**{k: v}), "set_params: " + what)
            if not ok:
                return
            q = case.new()
            pb = params(q)
            if not refused(rep, "refused_setters", lambda: setattr(q, k, v), what + " before fit"):
                return
            if params(q) != pb:
                rep.bad("%s is refused before fit but changes the parameters" % what)
                return
        elif r < 0.34:
            k = str(rng.choice(sorted(frozen)))
            v = frozen[k][int(rng.randint(len(frozen[k])))]
            what = "%s = %r after fit" % (k, v)
            if not refused(rep, "frozen_parameters", lambda: setattr(f, k, v), what):
                return
        elif r < 0.42:
            k = str(rng.choice(sorted(bad)))
            v = bad[k][int(rng.randint(len(bad[k])))]
            what = "constructor with %s = %r" % (k, v)
            # loss and criterion are constructor parameters too
            if k in f.get_params() and not refused(rep, "refused_constructors", lambda: case.new(**{k: v}), what):
                return
        elif r < 0.62:
            Z, text = bad_X()
            m = methods(f, clf)[int(rng.randint(len(methods(f, clf))))]
            what = "%s on %s" % (m, text)
            ww = Watch(rep, X=Z)
            if not refused(rep, "refused_predictions", lambda: getattr(f, m)(Z), what) or not ww.check(what):
                return
        elif r < 0.82:
            Z, yy, k2, text = bad_fit()
            what = "fit with %s" % text
            ww = Watch(rep, X=Z, y=yy, **k2)
            if not refused(rep, "refused_fits_fitted", lambda: f.fit(Z, yy, **k2), what) or not ww.check(what):
                return
            if rng.rand() < 0.3:
                q = case.new()
                pb = params(q)
                if not refused(rep, "refused_fits", lambda: q.fit(Z, yy, **k2), what):
                    return
                if params(q) != pb:
                    rep.bad("%s: the refused call changes the parameters" % what)
                    return
                q.fit(case.X, case.y, **kwc)
                if c11.digest(q, case) != c11.digest(case.fit(), case):
                    rep.bad("%s: after the refused call, a valid fit gives another forest" % what)
                    return
        elif r < 0.85:
            k = str(rng.choice(sorted(BAD_AT_FIT)))
            v = BAD_AT_FIT[k][int(rng.randint(len(BAD_AT_FIT[k])))]
            if (k, v) == ("subsample", None):
                continue
            what = "fit with %s = %r" % (k, v)

            def run():
                case.new(**{k: v}).fit(case.X, case.y, **kwc)

            if not refused(rep, "refused_fits", run, what):
                return
        else:
            what = fault(rep, rng, f, case, other_labels(), kwc)
            if what is None:
                continue
        calls.append(what)
        if params(f) != fitted_params:
            rep.bad("%s is refused but changes the parameters: %s instead of %s" % (what, params(f)[-600:], fitted_params[-600:]))
            return
        if rng.rand() < 0.5 or "fit" in what or "fault" in what:
            try:
                d = obs()
            except Exception as e:
                rep.bad("after the refused call (%s) the forest does not predict any more: %s: %s" % (what, type(e).__name__, e))
                return
            if d != d0:
                rep.bad("after the refused call (%s) the forest predicts something else" % what)
                return
    if obs() != d0:
        rep.bad("after the refused calls %s the forest predicts something else" % calls)
        return
    unknown(rep, rng, case, kwc, clf)
    rep.nontrivial = max(len(f.get_nodes(k)) for k in range(len(f.trees))) >= 3
    rep.set_sig(d0, repr(calls))
    if name is None and rng.rand() < 0.01:
        rep.sample = dict(case.describe(), refused=calls[:8])


class Injected(Exception):
    pass


def fault(rep, rng, f, case, y2, kwc):
    """An exception in the middle of fit (or of a prediction) on the fitted forest."""
    import wildwood.forest as wf
    import wildwood.preprocessing.encoder as we

    spots = [(wf, "_parallel_build_trees"), (wf, "_generate_train_valid_samples"), (we, "features_bitarray_fill_column"),
             (we, "_bin_continuous_column"), (we, "_find_binning_thresholds"), (wf, "_accumulate_prediction")]
    spots = [(m, a) for m, a in spots if callable(getattr(m, a, None))]
    if not spots:
        return None
    m, a = spots[int(rng.randint(len(spots)))]
    orig = getattr(m, a)
    left = [int(rng.randint(0, 3))]
    exc = [Injected, Injected, MemoryError, KeyboardInterrupt, SystemExit][int(rng.randint(5))]
    if exc in (KeyboardInterrupt, SystemExit) and f.n_jobs != 1:
        exc = Injected

    def broken(*args, **kw):
        if left[0] == 0:
            raise exc("injected")
        left[0] -= 1
        return orig(*args, **kw)

    # a round trip serves as a backup in case the fault is not reached and fit succeeds
    h = pickle.loads(pickle.dumps(f)) if a != "_accumulate_prediction" else f
    want = params(h), c11.digest(h, case)
    setattr(m, a, broken)
    raised = False
    try:
        try:
            if a == "_accumulate_prediction":
                (f.predict_proba if case.task == "clf" else f.predict)(case.Xt)
            else:
                # other labels and weights, so that what leaks is seen
                h.fit(case.X, y2, sample_weight=np.full(case.X.shape[0], 2.0))
        except (Injected, MemoryError):
            raised = True
        except (KeyboardInterrupt, SystemExit) as e:
            if e.args != ("injected",):
                raise
            raised = True
            rep.ev("interrupts_injected")
    finally:
        setattr(m, a, orig)
    if not raised:
        rep.ev("faults_not_reached")
        return None
    if (params(h), c11.digest(h, case)) != want:
        rep.bad("after a fault in %s in the middle of the call the forest has other parameters or predictions" % a)
    rep.ev("faults_injected")
    return "fault in %s" % a


def unknown(rep, rng, case, kwc, clf):
    """handle_unknown='error'"""
    f = case.new(handle_unknown="error")
    try:
        f.fit(case.X, case.y, **kwc)
    except Exception as e:
        rep.bad("fit with handle_unknown='error' raised %s: %s" % (type(e).__name__, e))
        return
    cats = np.flatnonzero(np.asarray(f.is_categorical_).astype(bool))
    if cats.size == 0:
        return
    j = int(cats[int(rng.randint(cats.size))])
    pick = rng.randint(0, case.X.shape[0], 9)
    good = case.X.iloc[pick].copy() if ref.is_df(case.X) else case.X[pick].copy()
    case2 = copy.copy(case)
    case2.Xt = good
    d0 = c11.digest(f, case2)
    badX = good.copy()
    i = int(rng.randint(9))
    if ref.is_df(case.X):
        c = badX.iloc[:, j]
        if c.dtype.name == "category":
            v = np.asarray(c, dtype=object).copy()
            v[i] = "never seen"
            badX.isetitem(j, pd.Series(pd.Categorical(v), index=c.index))
        elif c.dtype == object:
            v = np.asarray(c, dtype=object).copy()
            v[i] = "never seen"
            badX.isetitem(j, v)
        elif c.dtype.kind in "uif":
            v = c.to_numpy().astype(np.float64)
            v[i] = 987654.0
            badX.isetitem(j, v)
        else:
            return
    else:
        if case.X.dtype.kind != "f":
            return
        badX[i, j] = 987654.0
    m = methods(f, clf)[int(rng.randint(len(methods(f, clf))))]
    if not refused(rep, "unknown_refused", lambda: getattr(f, m)(badX), "%s on an unknown category with handle_unknown='error'" % m):
        return
    if c11.digest(f, case2) != d0:
        rep.bad("after a refused unknown category the forest predicts something else")
