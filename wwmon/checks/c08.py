"""C08: node predictions and out-of-bag losses by definition."""
import numpy as np

from wwmon import gen, ref

TECHNIQUE = ("runtime monitor: node statistics of every fitted tree recomputed from raw rows in double precision with "
             "rounding bounds")
RULE = ("each case draws data, weights (none, integer, real, zeros, balanced), dirichlet and limits, fits, and recomputes "
        "the statistics of every node of every tree; half of the classification cases also change dirichlet after fit; "
        "non-trivial: at least one tree with 3 or more nodes; distinct: by hash of node statistics")
ASSUMPTIONS = ["in-bag multiplicities are those of C04", "bounds on single-precision summation are 2(n+8) ulp"]
QUICK = dict(seconds=18)
THOROUGH = dict(seconds=420)
REQUIRED = ["node_predictions", "node_losses", "weighted_nodes", "balanced_nodes", "ovr_nodes", "regression_nodes",
            "zero_weight_cases", "dirichlet_changes", "leaf_rows"]


def directed(tier):
    return ["balanced", "balanced_ovr", "weights_ovr", "weights_reg", "zeros", "zeros_reg", "dir_tiny", "dir_zero",
            "single_class", "large", "light_clf", "light_reg", "heavy_clf", "heavy_reg"] + gen.SHAPES


def make(rng, name):
    g = gen.gen_case
    if name is not None and name.startswith("shape_"):
        return gen.shape_case(rng, name)
    if name == "balanced":
        return g(rng, task="clf", n_classes=4, class_weight="balanced", multiclass="multinomial", wmode="float")
    if name == "balanced_ovr":
        return g(rng, task="clf", n_classes=4, class_weight="balanced", multiclass="ovr", wmode="int", aggregation=True)
    if name == "weights_ovr":
        return g(rng, task="clf", n_classes=3, multiclass="ovr", wmode="float", class_weight=None, aggregation=True)
    if name == "weights_reg":
        return g(rng, task="reg", wmode="float", n=200, aggregation=True)
    if name == "zeros":
        return g(rng, task="clf", wmode="zeros", n=150)
    if name == "zeros_reg":
        return g(rng, task="reg", wmode="zeros", n=150)
    if name == "dir_tiny":
        return g(rng, task="clf", dirichlet=1e-7, aggregation=True)
    if name == "dir_zero":
        return g(rng, task="clf", dirichlet=0.0, aggregation=False, wmode="int")
    if name == "single_class":
        return g(rng, task="clf", n_classes=1, multiclass="multinomial")
    if name is None and rng.rand() < 0.06:
        name = str(rng.choice(["light_clf", "light_reg", "heavy_clf", "heavy_reg"]))
    if name is not None and name.startswith(("light", "heavy")):
        # weights far from one
        c = g(rng, task=name[6:], wmode="float", n=int(rng.randint(20, 250)))
        c.sw = np.asarray(c.sw, dtype=np.float64) * 10.0 ** (rng.uniform(-7, -3) if name.startswith("light") else rng.uniform(4, 7))
        return c
    if name == "large":
        return g(rng, n=4000, task="clf", wmode="float", aggregation=True)
    return g(rng)


def audit(rep, o, k, dirichlet, losses=True):
    v = o.views[k]
    if v.well_formed() is not None:
        rep.bad("tree %d malformed: %s" % (k, v.well_formed()))
        return
    y, base = o.targets[k]
    eff = np.asarray(v.ctx.sample_weights, dtype=np.float64)
    if not np.array_equal(eff[v.valid], base[v.valid]):
        i = int(v.valid[np.flatnonzero(eff[v.valid] != base[v.valid])[0]])
        rep.bad("tree %d: out-of-bag row %d has weight %s instead of %s" % (k, i, eff[i], base[i]))
        return
    nr = o.noderef(k, dirichlet)
    m = v.m
    d = np.abs(v.y_pred - nr.pred)
    badp = ~(d <= nr.epred)
    if badp.ndim == 2:
        badp = badp.any(axis=1)
    rep.ev("node_predictions", m)
    rep.ev("regression_nodes" if not o.clf else "ovr_nodes" if o.case.params.get("multiclass") == "ovr" else
           "multinomial_nodes", m)
    if o.case.sw is not None:
        rep.ev("weighted_nodes", m)
    if o.case.params.get("class_weight") == "balanced":
        rep.ev("balanced_nodes", m)
    if badp.any():
        x = int(np.flatnonzero(badp)[0])
        rep.bad("tree %d node %d (%d in-bag rows): prediction %s, by definition %s (bound %s)"
                % (k, x, nr.tr[x].size, v.y_pred[x], nr.pred[x], nr.epred[x]))
        return
    nd = v.nodes
    for x in range(m):
        if int(nd["n_samples_train"][x]) != nr.tr[x].size or int(nd["n_samples_valid"][x]) != nr.va[x].size:
            rep.bad("tree %d node %d: reported %d/%d rows, contains %d/%d" % (
                k, x, nd["n_samples_train"][x], nd["n_samples_valid"][x], nr.tr[x].size, nr.va[x].size))
            return
    if o.case.params.get("aggregation", True) and losses:
        L = np.array(nd["loss_valid"]).astype(np.float64)
        rep.ev("node_losses", m)
        badl = ~(np.abs(L - nr.loss) <= nr.eloss + 1e-30)
        if badl.any():
            x = int(np.flatnonzero(badl)[0])
            rep.bad("tree %d node %d (%d out-of-bag rows): loss %r, by definition %r (bound %r)"
                    % (k, x, nr.va[x].size, L[x], nr.loss[x], nr.eloss[x]))


def run_case(rep, rng, name, tier):
    case = make(rng, name)
    f = case.fit()
    o = ref.Obs(case, f)
    if case.sw is not None and (np.asarray(case.sw) == 0).any():
        rep.ev("zero_weight_cases")
    for k in range(len(o.views)):
        audit(rep, o, k, None)
    # what a user reads: predictions without aggregation are the leaf statistics
    if not case.params["aggregation"] and not rep.violations:
        for k, out in enumerate(ref.tree_outputs(f, case.X)):
            v = o.views[k]
            nr = o.noderef(k)
            leaf = ref.route(v, o.B)
            rep.ev("leaf_rows", leaf.size)
            if not (np.abs(out - nr.pred[leaf]) <= nr.epred[leaf]).all():
                rep.bad("tree %d: predictions are not the statistics of the leaves" % k)
    if case.task == "clf" and not rep.violations and rng.rand() < 0.5:
        d = float(rng.choice([1e-12, 1e-7, 1e-3, 0.05, 0.3, 2.0, 7.5, 300.0]))
        f.dirichlet = d
        rep.ev("dirichlet_changes")
        o2 = ref.Obs(case, f)
        for k in range(len(o2.views)):
            audit(rep, o2, k, d)
    rep.nontrivial = max(v.m for v in o.views) >= 3
    rep.set_sig(*[v.y_pred for v in o.views])
    if name is None and rng.rand() < 0.05:
        rep.sample = dict(case.describe(), nodes=[v.m for v in o.views])
