"""C15: labels, class weights and sample weights mean what they say."""
import numpy as np
import pandas as pd

from wwmon import gen, ref
from wwmon.checks import c14

TECHNIQUE = ("metamorphic runtime monitor: forests fitted on renamed labels, other label and weight containers, explicit "
             "weights instead of None or 'balanced', changed targets of zero-weight rows, and separate binary forests instead "
             "of one-versus-rest; outputs and leaves of every row compared")
RULE = ("each case fits a forest and 2 to 5 transformed twins with the same random_state; non-trivial: some tree has 3 or "
        "more nodes; distinct: by hash of the outputs")
ASSUMPTIONS = ["outputs compared within 1e-5, leaves exactly",
               "balanced weights are compared exactly when they are exact in single precision, otherwise by the total "
               "weight of the roots and, if the trees coincide, by their outputs"]
QUICK = dict(seconds=17)
THOROUGH = dict(seconds=420)
REQUIRED = ["classes_checked", "renamings", "unit_weights", "balanced_exact", "balanced_general", "zero_weight_targets_clf",
            "zero_weight_targets_reg", "label_containers", "weight_containers", "ovr_vs_binary", "ovr_balanced",
            "single_class", "two_class_ovr", "predicted_labels", "fits_on_used_forest"]
NAMES = ["rename_%d" % i for i in range(6)] + ["unit_clf", "unit_reg", "unit_ovr"] + ["bal2", "bal3", "bal4", "balw", "balg"] + \
        ["zero_clf", "zero_reg", "zero_ovr", "zero_clf2", "zero_reg2"] + ["cont_clf", "cont_reg", "cont_ovr"] + \
        ["ovr_3", "ovr_4", "ovr_6", "ovr_bal", "ovr_cat", "ovr_w", "single", "two_ovr", "two_large"]


def directed(tier):
    return list(NAMES)


def kw_of(case, **over):
    kw = {}
    if case.sw is not None:
        kw["sample_weight"] = case.sw
    if case.cat is not None:
        kw["categorical_features"] = case.cat
    kw.update(over)
    return {k: v for k, v in kw.items() if v is not None}


def fit(case, y=None, params=None, rng=None, **kw):
    """rng: fit may be called on a forest that was fitted before on other labels, data and weights."""
    f = case.new(**(params or {})) if rng is None else gen.used(rng, case, p=0.5, **(params or {}))
    return f.fit(case.X, case.y if y is None else y, **kw_of(case, **kw))


LABELS = [
    ("int", lambda K, rng: np.arange(K)),
    ("shifted int", lambda K, rng: np.sort(rng.choice(np.arange(-1000, 1000), K, replace=False))),
    ("int8", lambda K, rng: np.sort(rng.choice(np.arange(-100, 100), K, replace=False)).astype(np.int8)),
    ("large int", lambda K, rng: np.arange(K) + 2 ** 40),
    ("int above float32", lambda K, rng: np.arange(K) + 2 ** 24 - 1),
    ("float", lambda K, rng: np.sort(rng.choice(np.arange(-50, 50), K, replace=False)).astype(float)),
    ("str", lambda K, rng: np.array(["c%02d" % i for i in range(K)])),
    ("str of other lengths", lambda K, rng: np.array(sorted(["a" * (i + 1) for i in range(K)]))),
    ("object str", lambda K, rng: np.array(["k%02d" % i for i in range(K)], dtype=object)),
    ("digits", lambda K, rng: np.array(sorted(str(i * 7) for i in range(K)))),
    ("bool", lambda K, rng: np.array([False, True])),
]


def run_case(rep, rng, name, tier):
    if name is None:
        name_ = str(rng.choice(NAMES))
    else:
        name_ = name
    kind = name_.split("_")[0]
    n = int(rng.randint(20, 160)) if rng.rand() < 0.8 else int(rng.randint(160, 400))
    g = gen.gen_case
    if kind in ("bal2", "bal3", "bal4", "balw", "balg"):
        return balanced(rep, rng, kind, n, name)
    if kind == "ovr":
        return ovr(rep, rng, name_, n, name)
    if kind == "rename":
        case = g(rng, task="clf", n=n, labels="int")
    elif kind == "single":
        case = g(rng, task="clf", n=n)
        case.y = np.full(n, case.y[0])
    elif kind == "two":
        case = g(rng, task="clf", n=n if name_ == "two_ovr" else 300, n_classes=2, multiclass="ovr",
                 class_weight="balanced" if rng.rand() < 0.5 else None)
    elif kind == "unit":
        case = g(rng, task="reg" if name_.endswith("reg") else "clf", n=n, wmode="none",
                 **(dict(multiclass="ovr", n_classes=4) if name_.endswith("ovr") else {}))
    elif kind == "zero":
        t = "reg" if "reg" in name_ else "clf"
        case = g(rng, task=t, n=max(n, 60), wmode="zeros", class_weight=None,
                 **(dict(multiclass="ovr", n_classes=3) if name_.endswith("ovr") else {}))
    else:
        case = g(rng, task="reg" if name_.endswith("reg") else "clf", n=n,
                 **(dict(multiclass="ovr", n_classes=4) if name_.endswith("ovr") else {}))
    clf = case.task == "clf"
    n = len(case.y)
    f = fit(case)
    base = c14.observe(f, case.Xt)
    tr = c14.observe(f, case.X)
    if clf:
        rep.ev("classes_checked")
        u = np.unique(case.y)
        if not (np.array_equal(np.asarray(f.classes_), u) and int(f.n_classes_) == u.size):
            rep.bad("classes_ is %r for the labels %r" % (f.classes_, u))
            return
        pl = f.predict(case.Xt)
        rep.ev("predicted_labels", len(pl))
        best = base[0][np.arange(len(pl)), np.searchsorted(u, pl)]
        if not (np.isin(pl, u).all() and (best >= base[0].max(axis=1) - 1e-9).all()):
            rep.bad("predict does not return the label of the largest probability")
            return
        rep.ev("single_class", u.size == 1)

    def same(ev, h, what):
        if hasattr(h, "wwmon_used"):
            rep.ev("fits_on_used_forest")
            what += " (on a forest fitted before on other labels)"
        return c14.compare(rep, ev, c14.observe(h, case.Xt), base, what) and \
            c14.compare(rep, ev, c14.observe(h, case.X), tr, what)

    # ---- one-versus-rest between two classes is the binary forest
    if kind == "two":
        if not same("two_class_ovr", fit(case, rng=rng, params=dict(multiclass="multinomial")), "multiclass='multinomial'"):
            return
    # ---- unit weights
    if case.sw is None and (kind == "unit" or rng.rand() < 0.2):
        one = [np.ones(n), np.ones(n, dtype=np.float32), np.ones(n, dtype=int), [1.0] * n, pd.Series(np.ones(n)),
               np.ones(2 * n)[::2]][int(rng.randint(6))]
        if not same("unit_weights", fit(case, rng=rng, sample_weight=one), "unit weights (%s)" % type(one).__name__):
            return
    # ---- renaming
    if clf and (kind in ("rename", "single", "two") or rng.rand() < 0.3):
        u = np.unique(case.y)
        K = u.size
        codes = np.searchsorted(u, case.y)
        opts = [o for o in LABELS if o[0] != "bool" or K == 2]
        for i in rng.permutation(len(opts))[: 2 if name is None else 5]:
            lab, mk = opts[int(i)]
            names = mk(K, rng)
            if names.size != K or np.unique(names).size != K:
                continue
            h = fit(case, rng=rng, y=names[codes])
            if not same("renamings", h, "labels renamed to %s" % lab):
                return
            pl2 = h.predict(case.Xt)
            if not np.array_equal(np.asarray(h.classes_), names) or \
                    not np.array_equal(np.searchsorted(names, pl2), np.searchsorted(u, f.predict(case.Xt))):
                rep.bad("labels renamed to %s: predicted labels or classes_ do not follow the names: %r %r"
                        % (lab, h.classes_, names))
                return
    # ---- containers of labels and weights
    if kind == "cont" or rng.rand() < 0.25:
        y = np.asarray(case.y)
        forms = [("list", y.tolist()), ("Series", pd.Series(y, index=rng.permutation(n_of(y)) + 5)),
                 ("strided", np.repeat(y, 2)[::2]), ("reversed view", y[::-1].copy()[::-1])]
        if y.dtype.kind in "if":
            if (y == y.astype(np.float32)).all():
                forms.append(("float32", y.astype(np.float32)))
            forms.append(("float64", y.astype(np.float64)))
            if (y == np.round(y)).all() and np.abs(y).max() < 1e6:
                forms += [("int32", y.astype(np.int32)), ("int64", y.astype(np.int64))]
        else:
            forms.append(("object", y.astype(object)))
        for i in rng.permutation(len(forms))[: 2 if name is None else 6]:
            lab, z = forms[int(i)]
            if not same("label_containers", fit(case, rng=rng, y=z), "targets given as %s" % lab):
                return
        if case.sw is not None:
            w = np.asarray(case.sw, dtype=np.float32)
            forms = [("float64", w.astype(np.float64)), ("list", w.tolist()),
                     ("Series", pd.Series(w, index=rng.permutation(w.size) + 3)), ("strided", np.repeat(w, 2)[::2])]
            if (w == np.round(w)).all():
                forms.append(("int", w.astype(int)))
            for i in rng.permutation(len(forms))[:2]:
                lab, z = forms[int(i)]
                if not same("weight_containers", fit(case, rng=rng, sample_weight=z), "weights given as %s" % lab):
                    return
    # ---- targets of rows of zero weight
    if kind == "zero":
        sw = np.asarray(case.sw)
        z = np.flatnonzero(sw == 0)
        if z.size == 0:
            k = rng.permutation(sw.size)[: sw.size // 4]
            sw = sw.copy()
            sw[k] = 0
            case.sw = sw
            z = k
            f = fit(case)
            base, tr = c14.observe(f, case.Xt), c14.observe(f, case.X)
        y2 = np.array(case.y)
        if clf:
            u = np.unique(case.y)
            y2[z] = rng.choice(u, z.size)
            if np.unique(y2).size != u.size:  # keep the set of classes
                for c in u:
                    if not (y2 == c).any():
                        y2[z[int(rng.randint(z.size))]] = c
            if np.unique(y2).size != u.size:
                y2 = np.array(case.y)
        else:
            y2[z] = rng.randn(z.size) * float(rng.choice([0.0, 1.0, 1e3]))
        if not same("zero_weight_targets_" + case.task, fit(case, rng=rng, y=y2), "targets of %d rows of zero weight changed" % z.size):
            return
    done(rep, rng, name, case, f, base, kind)


def n_of(y):
    return len(y)


def done(rep, rng, name, case, f, base, kind):
    rep.nontrivial = max(len(f.get_nodes(k)) for k in range(len(f.trees))) >= 3
    rep.set_sig(base[0], base[1], kind)
    if name is None and rng.rand() < 0.01:
        rep.sample = dict(case.describe(), relation=kind)


def balanced(rep, rng, kind, n, name):
    g = gen.gen_case
    counts = {"bal2": [16, 32], "bal3": [8, 8, 32], "bal4": [4, 8, 16, 64], "balw": [32, 64], "balg": None}[kind]
    if counts is None:
        case = g(rng, task="clf", n=n, class_weight="balanced", multiclass="multinomial", wmode="none")
    else:
        counts = list(rng.permutation(counts))
        mult = int(rng.choice([1, 2, 4]))
        counts = [c * mult for c in counts]
        n = sum(counts)
        mc = "ovr" if len(counts) == 2 and rng.rand() < 0.4 else "multinomial"
        rep.ev("balanced_two_class_ovr", mc == "ovr")
        case = g(rng, task="clf", n=n, class_weight="balanced", multiclass=mc,
                 wmode="int" if kind == "balw" else "none")
        s = gen.feature_signal(case, rng) + 0.5 * rng.randn(n)
        yy = np.empty(n, dtype=int)
        yy[np.argsort(s)] = np.repeat(np.arange(len(counts)), counts)
        case.y = yy
    y = case.y
    u, idx, cnt = np.unique(y, return_inverse=True, return_counts=True)
    w = n / (u.size * cnt[idx].astype(float))
    b = np.ones(n) if case.sw is None else np.asarray(case.sw, dtype=np.float32).astype(float)
    f = fit(case)
    h = fit(case, params=dict(class_weight=None), rng=rng, sample_weight=(b * w).astype(np.float32))
    base = c14.observe(f, case.Xt)
    got = c14.observe(h, case.Xt)
    if kind != "balg":
        if not c14.compare(rep, "balanced_exact", got, base, "explicit balanced weights"):
            return
        if not c14.compare(rep, "balanced_exact", c14.observe(h, case.X), c14.observe(f, case.X), "explicit balanced weights"):
            return
    else:
        rep.ev("balanced_general")
        if np.array_equal(got[1], base[1]):
            if not c14.compare(rep, "balanced_general", got, base, "explicit balanced weights"):
                return
        else:
            rep.notes["balanced trees differ by rounding"] += 1
        for k in range(len(f.trees)):
            a, c = f.get_nodes(k).iloc[0], h.get_nodes(k).iloc[0]
            for q in ("w_samples_train", "w_samples_valid"):
                if abs(float(a[q]) - float(c[q])) > 1e-4 * n:
                    rep.bad("class_weight='balanced': total weight %s of tree %d is %r, expected %r"
                            % (q, k, float(a[q]), float(c[q])))
                    return
    done(rep, rng, name, case, f, base, kind)


def ovr(rep, rng, name_, n, name):
    K = {"ovr_3": 3, "ovr_4": 4, "ovr_6": 6}.get(name_, int(rng.randint(3, 6)))
    force = dict(multiclass="ovr", n_classes=K)
    if name_ == "ovr_bal":
        force["class_weight"] = "balanced"
    if name_ == "ovr_cat":
        force.update(container="dataframe", kinds=["str", "str_many", "nan"])
    if name_ == "ovr_w":
        force["wmode"] = "int"
    case = gen.gen_case(rng, task="clf", n=max(n, 4 * K), **force)
    f = fit(case)
    base = c14.observe(f, case.Xt)
    u = np.unique(case.y)
    S = np.zeros((case.Xt.shape[0], K))
    leaves = []
    for k in range(K):
        h = fit(case, y=(case.y == u[k]).astype(int), params=dict(multiclass="multinomial"))
        P, A = c14.observe(h, case.Xt)
        S[:, k] = P[:, 1]
        leaves.append(A)
    tot = S.sum(axis=1, keepdims=True)
    S = np.where(tot > 1e-9, S / np.where(tot > 0, tot, 1), 1.0 / K)
    rep.ev("ovr_balanced", case.params.get("class_weight") == "balanced")
    rep.ev("ovr_vs_binary")
    rep.ev("rows_compared", S.shape[0])
    A = np.concatenate(leaves, axis=1)
    if not np.array_equal(A, base[1]):
        rep.bad("one-versus-rest trees have other leaves than the binary forests of each class")
        return
    d = np.abs(S - base[0])
    small = (tot[:, 0] < 1e-6)  # normalisation of vanishing scores: rounding decides
    d[small] = 0
    if not (d <= 1e-4).all():
        i = int(np.argmax(d.max(axis=1)))
        rep.bad("one-versus-rest: row %d has probabilities %s, the binary forests give %s" % (i, base[0][i].tolist(), S[i].tolist()))
        return
    done(rep, rng, name, case, f, base, "ovr")
