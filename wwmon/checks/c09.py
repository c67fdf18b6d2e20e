"""C09: aggregation is the exact average over prunings."""
import numpy as np

from wwmon import gen, ref

TECHNIQUE = ("runtime monitor: tree predictions compared with a double-precision interval evaluation of the aggregation "
             "and, for small trees, with explicit enumeration of all prunings")
RULE = ("each case draws data, weights, step (1e-3 to 1e3) and targets (up to 1e6, losses far beyond the range of exp), "
        "fits, and checks the output of every tree for training and new rows against the definition; non-trivial: at "
        "least one tree with 3 or more nodes and aggregation on; distinct: by hash of tree outputs")
ASSUMPTIONS = ["node predictions and losses are first checked against their own definition (as C08) within rounding",
               "comparison uses intervals that propagate single-precision rounding of the losses"]
QUICK = dict(seconds=18)
THOROUGH = dict(seconds=420)
REQUIRED = ["rows_interval", "rows_enumerated", "prunings", "huge_loss_rows", "tight_rows", "weighted_depth_rows",
            "no_aggregation_rows"]


def directed(tier):
    return ["tiny%d" % i for i in range(12)] + ["huge%d" % i for i in range(6)] + ["step_small", "step_big", "deep"] + ["chain_%d" % i for i in range(6)] + gen.SHAPES


def make(rng, name):
    g = gen.gen_case
    if name is not None and name.startswith("shape_"):
        return gen.shape_case(rng, name, aggregation=True)
    if name is None:
        r = rng.rand()
        if r < 0.35:
            name = "tiny"
        elif r < 0.5:
            name = "huge"
    if name is None and rng.rand() < 0.02:
        name = "chain_%d" % rng.randint(6)
    if name is not None and name.startswith("chain"):
        i = int(name[6:])
        c = gen.chain_case(rng, "clf" if i < 2 else "reg", bool(i & 1), group=10, n=int(rng.randint(300, 600)), aggregation=True,
                           step=float(rng.choice([0.1, 1.0, 5.0])))
        if i >= 4:
            c.y = np.log(c.y) / np.log(1.5)
        return c
    if name is not None and name.startswith("tiny"):
        return g(rng, n=int(rng.randint(8, 60)), aggregation=True, max_depth=int(rng.randint(2, 5)),
                 step=float(rng.choice([0.05, 0.3, 1.0, 3.0])))
    if name is not None and name.startswith("huge"):
        c = g(rng, n=int(rng.randint(50, 400)), aggregation=True, min_samples_leaf=int(rng.choice([1, 5, 20])),
              step=float(rng.choice([1.0, 10.0, 1000.0])))
        if c.task == "reg":
            c.y = np.asarray(c.y) * float(rng.choice([10, 1e3, 1e5]))
        return c
    if name == "step_small":
        return g(rng, aggregation=True, step=1e-3)
    if name == "step_big":
        return g(rng, aggregation=True, step=1e3)
    if name == "deep":
        return g(rng, task="clf", n=3000, aggregation=True, max_depth=None, min_samples_leaf=1, min_samples_split=2)
    return g(rng)


def run_case(rep, rng, name, tier):
    case = make(rng, name)
    f = case.fit()
    o = ref.Obs(case, f)
    step = float(np.float32(case.params["step"]))
    agg = case.params["aggregation"]
    depths = None
    if case.task == "reg" and agg:
        depths = np.asarray(f._weighted_depth(case.Xt), dtype=np.float64) if hasattr(f, "_weighted_depth") else None
    for X in (case.X, case.Xt):
        B = ref.ref_bins(f._encoder, X)
        outs = ref.tree_outputs(f, X)
        for k, v in enumerate(o.views):
            w = v.well_formed()
            if w is not None:
                rep.bad("tree %d malformed: %s" % (k, w))
                return
            nr = o.noderef(k)
            leaf = ref.route(v, B)
            out = outs[k].astype(np.float64)
            if not agg:
                rep.ev("no_aggregation_rows", leaf.size)
                if not (np.abs(out - nr.pred[leaf]) <= nr.epred[leaf]).all():
                    rep.bad("tree %d, aggregation off: prediction is not the leaf's" % k)
                    return
                continue
            ag = ref.AggRef(v, nr, step)
            bf = ref.brute_force_aggregation(v, nr, step, leaf) if v.m < 60 else None
            if bf is not None:
                rep.ev("prunings", bf[1])
            for x in np.unique(leaf):
                mid, lo, hi = ag.predict_leaf(x)
                got = out[leaf == x]
                nrow = got.shape[0]
                rep.ev("rows_interval", nrow)
                width = float(np.max(hi - lo))
                scale = float(np.max(np.abs(mid))) + 1e-300
                if width < 1e-2 * scale:
                    rep.ev("tight_rows", nrow)
                if step * nr.loss[0] > 1000:
                    rep.ev("huge_loss_rows", nrow)
                if not ((got >= lo) & (got <= hi)).all():
                    rep.bad("tree %d leaf %d: prediction %s outside [%s, %s] (definition: %s), step %g, root loss %g"
                            % (k, x, got[0], lo, hi, mid, step, nr.loss[0]))
                    return
                path = v.path(int(x))
                plo, phi = v.y_pred[path].min(axis=0), v.y_pred[path].max(axis=0)
                t = 16 * len(path) * ref.EPS32 * np.maximum(np.abs(plo), np.abs(phi))
                if not ((got >= plo - t) & (got <= phi + t)).all():
                    rep.bad("tree %d leaf %d: prediction %s outside the range of the path [%s, %s]"
                            % (k, x, got[0], plo, phi))
                    return
                if bf is not None:
                    rep.ev("rows_enumerated", nrow)
                    # the definition itself against the recursion used as oracle, and against the output
                    if not np.allclose(bf[0][int(x)], mid, rtol=1e-7, atol=1e-9 * max(1.0, scale)):
                        raise AssertionError("oracles disagree: %s %s" % (bf[0][int(x)], mid))
                    b = bf[0][int(x)]
                    if not (np.abs(got - b) <= (hi - lo) + 1e-9 * scale).all():
                        rep.bad("tree %d leaf %d: prediction %s, average over %d prunings %s"
                                % (k, x, got[0], bf[1], b))
                        return
            if depths is not None and X is case.Xt:
                # same recursion applied to the depths
                sv = nr.pred, nr.epred
                nr.pred, nr.epred = v.depth.astype(float), np.zeros(v.m)
                ag._cache = {}
                for x in np.unique(leaf):
                    mid, lo, hi = ag.predict_leaf(x)
                    got = depths[k][leaf == x]
                    rep.ev("weighted_depth_rows", got.size)
                    rep.ev("deep_weighted_depth_rows", int((got > 12).sum()))
                    if not ((got >= lo - 1e-4) & (got <= hi + 1e-4)).all():
                        rep.bad("tree %d leaf %d: weighted depth %s outside [%s, %s]" % (k, x, got[0], lo, hi))
                nr.pred, nr.epred = sv
    rep.nontrivial = agg and max(v.m for v in o.views) >= 3
    rep.set_sig(*outs)
    if name is None and rng.rand() < 0.05:
        rep.sample = dict(case.describe(), nodes=[v.m for v in o.views])
