"""C10: changing step or dirichlet after fit equals refitting with the new value."""
import copy
import io
import pickle

import numpy as np

from wwmon import gen, ref
from wwmon.checks.c02 import expected

TECHNIQUE = ("runtime monitor over call histories: random sequences of parameter changes, refused changes, copies, pickling, "
             "lightening and predictions on a fitted forest, compared with forests fitted from scratch and with the "
             "double-precision reference aggregation")
RULE = ("each case fits a forest, applies 3 to 10 operations and compares after every accepted change with a fresh fit; "
        "non-trivial: a change of step or dirichlet on a tree with 3 or more nodes; distinct: by hash of the operations and "
        "the outputs")
ASSUMPTIONS = ["two single-precision computations of the same aggregation may differ by twice the width of the rounding "
               "intervals of the reference", "dirichlet=0 is not set on forests with aggregation (fit refuses it)"]
QUICK = dict(seconds=18)
THOROUGH = dict(seconds=420)
REQUIRED = ["step_changes", "dirichlet_changes", "refits_compared", "tight_rows", "refused_changes", "returns_to_original",
            "copies", "lightened", "ovr_changes", "regression_changes", "no_aggregation_changes", "visible_changes", "tiny_dirichlet_changes", "rescaled_regressions", "forest_outputs_after_change"]


def directed(tier):
    return ["step_only_%d" % i for i in range(3)] + ["dirichlet_only_%d" % i for i in range(3)] + \
        ["both_%d" % i for i in range(6)] + ["ovr_%d" % i for i in range(4)] + ["noagg_%d" % i for i in range(3)] + \
        ["light_%d" % i for i in range(3)] + ["reg_%d" % i for i in range(4)] + ["pure_alternate_%d" % i for i in range(3)] + \
        ["reg_unit_%d" % i for i in range(6)] + ["tiny_dirichlet_%d" % i for i in range(4)] + gen.SHAPES


def make(rng, name):
    g = gen.gen_case
    if name is not None and name.startswith("shape_"):
        c = gen.shape_case(rng, name)
        c.unit, c.tiny = 1.0, False
        return c
    kw = dict(n=int(rng.randint(15, 200)), n_estimators=int(rng.choice([1, 2, 3])))
    name = name or ""
    if name.startswith(("step_only", "dirichlet_only", "both", "pure")):
        kw.update(task="clf", aggregation=True)
    if name.startswith("ovr"):
        kw.update(task="clf", multiclass="ovr", n_classes=3)
    if name.startswith("noagg"):
        kw.update(task="clf", aggregation=False, dirichlet=0.3)
    if name.startswith("reg"):
        kw.update(task="reg", aggregation=True)
    c = g(rng, **kw)
    if c.task == "reg":
        # moderate losses, so that the rounding intervals are tight
        y = np.asarray(c.y, dtype=float)
        c.y = (y - y.mean()) / (y.std() + 1e-9)
    c.params["step"] = float(rng.choice([0.1, 0.5, 1.0, 2.0]))
    # targets in other units: the same history with y * scale and step / scale ** 2
    c.unit = 1.0
    if c.task == "reg" and (name.startswith("reg_unit") or rng.rand() < 0.3):
        scale = float(10.0 ** rng.randint(-4, 6))
        c.y = c.y * scale
        c.unit = scale ** -2
        c.params["step"] *= c.unit
    # priors many orders of magnitude apart: losses are logarithmic in dirichlet
    c.tiny = c.task == "clf" and (name.startswith("tiny_dirichlet") or rng.rand() < 0.15)
    if c.tiny:
        c.params["dirichlet"] = float(10.0 ** rng.randint(-12, -5))
    return c


def per_tree(f, X):
    return [o.astype(np.float64) for o in ref.tree_outputs(f, X)]


def compare(rep, case, f, step, diri, what):
    """f (after its history) against a forest fitted with the final values, and against the reference."""
    over = dict(step=step)
    if case.task == "clf":
        over["dirichlet"] = diri
    g = case.fit(**over)
    saved = dict(case.params)
    case.params.update(over)
    try:
        o = ref.Obs(case, g)
        X = case.Xt
        B = ref.ref_bins(g._encoder, X)
        A, G = per_tree(f, X), per_tree(g, X)
        if len(A) != len(G):
            rep.bad("%s: %d trees, refit has %d" % (what, len(A), len(G)))
            return False
        agg = case.params["aggregation"]
        for k, v in enumerate(o.views):
            if v.well_formed() is not None:
                rep.bad("tree %d malformed: %s" % (k, v.well_formed()))
                return False
            leaf = ref.route(v, B)
            nr = o.noderef(k)
            ag = ref.AggRef(v, nr, float(np.float32(step))) if agg else None
            for x in np.unique(leaf):
                m = leaf == x
                if agg:
                    mid, lo, hi = ag.predict_leaf(x)
                else:
                    mid = nr.pred[x]
                    lo, hi = mid - nr.epred[x], mid + nr.epred[x]
                wd = hi - lo
                rep.ev("rows_compared", int(m.sum()))
                if float(np.max(wd)) < 1e-3 * (float(np.max(np.abs(mid))) + 1e-9):
                    rep.ev("tight_rows", int(m.sum()))
                for nm, out in (("history", A[k][m]), ("refit", G[k][m])):
                    if not ((out >= lo - 1e-7 * np.abs(mid)) & (out <= hi + 1e-7 * np.abs(mid))).all():
                        rep.bad("%s, tree %d leaf %d: %s predicts %s, the values step=%g dirichlet=%s imply %s "
                                "(rounding %.2g)" % (what, k, x, nm, out[0], step, diri, mid, float(np.max(wd))))
                        return False
                if not (np.abs(A[k][m] - G[k][m]) <= wd + 1e-7 * np.abs(mid)).all():
                    rep.bad("%s, tree %d leaf %d: %s, refit %s" % (what, k, x, A[k][m][0], G[k][m][0]))
                    return False
        rep.ev("refits_compared")
        # node statistics reported to the user
        PA, PG = ref.outputs(f, X), ref.outputs(g, X)
        if PA.shape != PG.shape or not np.isfinite(PA).all():
            rep.bad("%s: outputs %s" % (what, PA.shape))
            return False
        a, b = f.get_params(), g.get_params()
        d = {q: (a[q], b[q]) for q in a if not np.array_equal(a[q], b[q])}
        if d:
            rep.bad("%s: parameters differ from those of the refit: %s" % (what, d))
            return False
    finally:
        case.params = saved
    return True


BAD_STEP = [0.0, -1.0, 1, "a", None, float("-inf")]
BAD_DIR = [-0.5, 1, "b", None]


def run_case(rep, rng, name, tier):
    case = make(rng, name)
    f = case.fit()
    clf = case.task == "clf"
    ovr = clf and case.params["multiclass"] == "ovr"
    agg = case.params["aggregation"]
    s0, d0 = case.params["step"], case.params.get("dirichlet")
    step, diri = s0, d0
    u = case.unit
    rep.ev("rescaled_regressions", u != 1.0)
    orig = per_tree(f, case.Xt)
    last = orig
    light = False
    ops = []
    nops = int(rng.randint(3, 7 if tier == "quick" else 14))
    menu = ["step", "step", "predict", "refuse", "copy"] + (["dirichlet", "dirichlet", "params"] if clf else ["params"])
    if name is not None and name.startswith("step_only"):
        menu = ["step", "predict"]
    elif name is not None and name.startswith("dirichlet_only"):
        menu = ["dirichlet", "predict"]
    elif name is not None and name.startswith("pure_alternate"):
        menu = ["step", "dirichlet"]
    elif (name is not None and name.startswith("light")) or (name is None and rng.rand() < 0.15):
        menu = ["step", "predict", "refuse", "copy", "lighten"]
    nodes = max(len(f.get_nodes(k)) for k in range(len(f.trees)))
    for i in range(nops):
        op = str(rng.choice(menu))
        ops.append(op)
        what = "after %s" % " ".join(ops)
        if rng.rand() < 0.6:  # a prediction for the same object just before
            ref.outputs(f, case.Xt)
        if op == "step":
            step = float(rng.choice([0.05, 0.3, 1.0, 3.0, s0 / u, 20.0, 1e-4, 5e3, 2e6])) * u
            if rng.rand() < 0.1:
                step = s0
            f.step = step
            rep.ev("step_changes")
        elif op == "dirichlet":
            diri = float(rng.choice([0.01, 0.2, 1.0, 5.0, d0]))
            if case.tiny:
                diri = float(rng.choice([1e-12, 1e-10, 1e-9, 1e-7, 1e-5, d0]))
                rep.ev("tiny_dirichlet_changes")
            f.dirichlet = diri
            rep.ev("dirichlet_changes")
        elif op == "params":
            step = float(rng.choice([0.2, 1.5, s0 / u])) * u
            kw = dict(step=step)
            if clf:
                diri = float(rng.choice([0.05, 2.0, d0]))
                kw["dirichlet"] = diri
            f.set_params(**kw)
            rep.ev("step_changes")
        elif op == "predict":
            ref.outputs(f, case.Xt)
            f.apply(case.Xt)
            continue
        elif op == "copy":
            k = rng.randint(3)
            if k == 0:
                f = copy.deepcopy(f)
            elif k == 1:
                f = pickle.loads(pickle.dumps(f))
            else:
                import joblib

                b = io.BytesIO()
                joblib.dump(f, b)
                b.seek(0)
                f = joblib.load(b)
            rep.ev("copies")
        elif op == "lighten":
            f.lighten()
            light = True
            rep.ev("lightened")
        elif op == "refuse":
            before = per_tree(f, case.Xt)
            pb = f.get_params()
            which = "dirichlet" if clf and rng.rand() < 0.5 else "step"
            if which == "dirichlet" and light and rng.rand() < 0.7:
                bad = diri + 1.0
            else:
                bad = (BAD_DIR if which == "dirichlet" else BAD_STEP)[rng.randint(len(BAD_DIR if which == "dirichlet" else BAD_STEP))]
            try:
                setattr(f, which, bad)
                rep.bad("%s=%r accepted" % (which, bad))
                return
            except ValueError:
                pass
            rep.ev("refused_changes")
            after = per_tree(f, case.Xt)
            pa = f.get_params()
            if not all(np.array_equal(a, b) for a, b in zip(before, after)):
                rep.bad("%s: predictions changed by the refused %s=%r" % (what, which, bad))
                return
            if any(not np.array_equal(pa[q], pb[q]) for q in pa):
                rep.bad("%s: parameters changed by the refused %s=%r" % (what, which, bad))
                return
            continue
        out = ref.outputs(f, case.Xt)
        now = per_tree(f, case.Xt)
        E, decided = expected(f, case, now)
        rep.ev("forest_outputs_after_change", int(decided.sum()))
        if not (np.abs(out - E)[decided] <= 1e-6 * (max(np.abs(t).max() for t in now) if not clf else 1.0)).all():
            rep.bad("%s: the forest does not predict the mean of its trees as they are now: off by %.3g"
                    % (what, np.abs(out - E)[decided].max()))
            return
        rep.ev("visible_changes", any(not np.array_equal(a, b) for a, b in zip(now, last)))
        last = now
        rep.ev("ovr_changes", ovr)
        rep.ev("regression_changes", not clf)
        rep.ev("no_aggregation_changes", not agg)
        if i == nops - 1 or rng.rand() < 0.5:
            if not compare(rep, case, f, step, diri, what):
                return
    # back to the original values
    if step != s0:
        f.step = s0
    if clf and diri != d0 and not light:
        f.dirichlet = d0
        diri = d0
    if not clf or diri == d0:
        rep.ev("returns_to_original")
        if not compare(rep, case, f, s0, d0, "after %s and back to the original values" % " ".join(ops)):
            return
        # values fitted with are exact up to rounding; without dirichlet changes, bitwise
        if not any(o in ("dirichlet", "params") for o in ops):
            now = per_tree(f, case.Xt)
            if not all(np.array_equal(a, b) for a, b in zip(now, orig)):
                if not all(np.allclose(a, b, rtol=1e-5, atol=1e-7) for a, b in zip(now, orig)):
                    rep.bad("after %s and back to the original step, predictions differ" % " ".join(ops))
                    return
    rep.nontrivial = nodes >= 3 and any(o in ("step", "dirichlet", "params") for o in ops)
    rep.set_sig(repr(ops), *last)
    if name is None and rng.rand() < 0.05:
        rep.sample = dict(case.describe(), operations=ops)
