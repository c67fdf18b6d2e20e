"""C04: every tree has a bootstrap sample and validates on the rest."""
import itertools
from math import factorial

import numpy as np

from wwmon import gen, ref
from wwmon.engine import Inconclusive

TECHNIQUE = ("runtime monitor: bags and effective weights of every fitted tree audited; multiplicities tested against the "
             "exact distribution of uniform sampling with replacement over hundreds of trees per case")
RULE = ("structure cases draw data, weights and parameters and audit every tree; distribution cases grow 150 to 400 trees "
        "on 2 to 1000 rows and test row frequencies, number of distinct rows, multiplicities, neighbouring rows and "
        "overlaps between trees; non-trivial: 2 or more trees; distinct: by hash of the bags")
ASSUMPTIONS = ["bags are read from the fitted trees and multiplicities from the weights they were grown with",
               "distribution tests reject below probability 1e-10 in total per test",
               "below 10 rows, the distribution is conditional on a non-empty out-of-bag sample"]
QUICK = dict(seconds=16)
THOROUGH = dict(seconds=360)
REQUIRED = ["trees_audited", "weighted_trees", "ovr_trees", "distribution_tests", "rows_tested", "tiny_samples",
            "balanced_trees", "pairs_compared"]
PMIN = 1e-10


def directed(tier):
    return ["dist_%d" % n for n in (2, 3, 4, 5, 10, 16, 17, 50, 64, 200, 1000)] + \
        ["tiny_%d" % n for n in (2, 3, 4, 5, 6, 7)] + ["ovr_%d" % i for i in range(4)] + \
        ["weights_%d" % i for i in range(4)] + ["large_%d" % n for n in (3000, 5001, 12000, 33000, 70000)]


def bags(f, n):
    """[(in-bag rows, out-of-bag rows, effective weights)]"""
    out = []
    for k in range(len(f.trees)):
        v = ref.View(f, k)
        if v.train is None or v.valid is None or v.ctx is None:
            raise Inconclusive("bags not readable")
        out.append((v.train, v.valid, np.asarray(v.ctx.sample_weights, dtype=np.float64)))
    return out


def audit(rep, case, f):
    n = case.X.shape[0]
    targets = ref.encode_targets(case, f)
    B = bags(f, n)
    counts = []
    for k, (tr, va, eff) in enumerate(B):
        rep.ev("trees_audited")
        base = targets[k][1]
        if tr.size == 0 or va.size == 0:
            rep.bad("tree %d: %d in-bag and %d out-of-bag rows" % (k, tr.size, va.size))
            return None
        both = np.concatenate([tr, va])
        if both.size != n or not np.array_equal(np.sort(both), np.arange(n)):
            rep.bad("tree %d: in-bag (%d) and out-of-bag (%d) rows do not partition the %d rows" % (k, tr.size, va.size, n))
            return None
        off = np.abs(eff[va] - base[va]) > 1e-5 * base[va]
        if off.any():
            i = va[off][0]
            rep.bad("tree %d: out-of-bag row %d has weight %r instead of %r" % (k, i, eff[i], base[i]))
            return None
        c = np.zeros(n)
        pos = tr[base[tr] > 0]
        c[pos] = eff[pos] / base[pos]
        if (np.abs(c[pos] - np.rint(c[pos])) > 1e-4 * c[pos] + 1e-12).any() or (np.rint(c[pos]) < 1).any():
            i = pos[(np.abs(c[pos] - np.rint(c[pos])) > 1e-4) | (np.rint(c[pos]) < 1)][0]
            rep.bad("tree %d: in-bag row %d has weight %r, its base weight is %r: not a positive multiple"
                    % (k, i, eff[i], base[i]))
            return None
        c = np.rint(c)
        zero = tr[base[tr] == 0]
        if zero.size == 0 and int(c.sum()) != n:
            rep.bad("tree %d: multiplicities sum to %d for %d rows" % (k, c.sum(), n))
            return None
        if zero.size and (eff[zero] != 0).any():
            rep.bad("tree %d: rows of weight zero get weight %r" % (k, eff[zero].max()))
            return None
        if zero.size and int(c.sum()) + zero.size > n:
            rep.bad("tree %d: multiplicities exceed %d" % (k, n))
            return None
        if case.sw is not None:
            rep.ev("weighted_trees")
        if case.params.get("class_weight") == "balanced":
            rep.ev("balanced_trees")
        counts.append(c)
    if n >= 20:
        ne = f.n_estimators
        K = f.n_classes_ if case.task == "clf" else 1
        ovr = len(B) == ne * K and len(B) > ne
        groups = [B[k * ne:(k + 1) * ne] for k in range(len(B) // ne)] if ovr else [B]
        for g in groups:
            for a, b in itertools.combinations(range(len(g)), 2):
                rep.ev("pairs_compared")
                if np.array_equal(g[a][0], g[b][0]):
                    rep.bad("trees %d and %d have the same in-bag rows" % (a, b))
                    return None
        if ovr:
            for r in range(ne):
                rep.ev("ovr_trees", K)
                for k in range(1, K):
                    if not np.array_equal(groups[0][r][0], groups[k][r][0]):
                        rep.bad("one-versus-rest trees of rank %d do not share their sample across classes 0 and %d" % (r, k))
                        return None
    return counts


def chi2_p(obs, prob):
    from scipy.stats import chi2

    obs, prob = np.asarray(obs, float), np.asarray(prob, float)
    e = obs.sum() * prob
    keep = e >= 5
    if keep.sum() < 2:
        return 1.0
    rest_o, rest_e = obs[~keep].sum(), e[~keep].sum()
    x = ((obs[keep] - e[keep]) ** 2 / e[keep]).sum()
    df = keep.sum() - 1
    if rest_e > 0:
        if rest_e >= 1:
            x += (rest_o - rest_e) ** 2 / rest_e
            df += 1
        elif rest_o > 25:
            return 0.0
    return float(chi2.sf(x, df))


def distribution(rep, rng, n):
    from scipy.stats import binom, norm

    T = 400 if n <= 64 else 200 if n <= 300 else 100
    X = rng.randn(n, 1)
    case = gen.Case()
    case.task = "clf" if rng.rand() < 0.5 else "reg"
    case.X, case.Xt, case.cat, case.kinds = X, X[:1], np.array([False]), ["normal"]
    case.y = np.arange(n) % 2 if case.task == "clf" else X[:, 0]
    case.sw, case.wmode = None, "none"
    case.params = dict(n_estimators=T, max_depth=2, random_state=int(rng.randint(2 ** 31 - 1)), aggregation=False,
                       n_jobs=int(rng.choice([1, 2])))
    f = case.fit()
    C = audit(rep, case, f)
    if C is None:
        return
    C = np.array(C)  # T x n
    what = "%d trees on %d rows" % (T, n)
    if n < 10:
        # exact conditional distribution of the multiset of multiplicities, and exchangeability of the rows
        from collections import Counter

        pats = Counter()
        for s in itertools.product(range(n), repeat=n):
            c = tuple(np.bincount(s, minlength=n))
            if min(c) == 0:
                pats[tuple(sorted(c, reverse=True))] += 1
        tot = sum(pats.values())
        keys = sorted(pats)
        obs = Counter(tuple(sorted((int(z) for z in c), reverse=True)) for c in C)
        pv = chi2_p([obs.get(k, 0) for k in keys], [pats[k] / tot for k in keys])
        rep.ev("distribution_tests")
        rep.ev("tiny_samples")
        if pv < PMIN:
            rep.bad("%s: multiplicities %s, expected %s (p-value %.2g)"
                    % (what, dict(obs), {k: round(T * pats[k] / tot, 1) for k in keys}, pv))
            return
        inb = (C > 0).sum(axis=0)
        p1 = sum(v * sum(1 for z in k if z > 0) for k, v in pats.items()) / tot / n
        for i in range(n):
            pv = 2 * min(binom.cdf(inb[i], T, p1), binom.sf(inb[i] - 1, T, p1))
            if pv < PMIN:
                rep.bad("%s: row %d in bag %d times, expected %.1f" % (what, i, inb[i], T * p1))
                return
        rep.ev("rows_tested", n)
        rep.nontrivial = True
        rep.set_sig("dist", C)
        return
    tot = C.sum(axis=0)
    lo = binom.cdf(tot, T * n, 1.0 / n)
    hi = binom.sf(tot - 1, T * n, 1.0 / n)
    pv = 2 * np.minimum(lo, hi)
    rep.ev("rows_tested", n)
    if pv.min() * n < PMIN:
        i = int(pv.argmin())
        rep.bad("%s: row %d drawn %d times, expected %d (p-value %.2g)" % (what, i, tot[i], T, pv[i]))
        return
    # number of in-bag draws of each multiplicity: marginals, tested through moments of independent trees
    p0 = (1 - 1.0 / n) ** n
    p00 = (1 - 2.0 / n) ** n
    var = n * p0 * (1 - p0) + n * (n - 1) * (p00 - p0 * p0)
    z = ((C == 0).sum() - T * n * p0) / np.sqrt(T * var)
    sq = (C ** 2).sum(axis=1)  # mean n(2 - 1/n), known variance: pairs of equal draws
    pairs = (sq - n) / 2
    npair = n * (n - 1) / 2
    z2 = (pairs.sum() - T * npair / n) / np.sqrt(T * npair * (1.0 / n) * (1 - 1.0 / n))
    # neighbouring rows: E[c_i c_(i+1)] = (n - 1) / n, circular sum over the rows; variance estimated from trees
    nb = (C * np.roll(C, 1, axis=1)).sum(axis=1)
    m0 = n - 1.0
    z3 = (nb.mean() - m0) / (nb.std() / np.sqrt(T) + 1e-12)
    # overlaps between consecutive trees
    ov = (C[:-1] * C[1:]).sum(axis=1)
    z4 = (ov.mean() - n) / (ov.std() / np.sqrt(len(ov)) + 1e-12)
    for nm, zz in (("out-of-bag rows", z), ("repeated draws", z2), ("neighbouring rows", z3),
                   ("overlap of consecutive trees", z4)):
        rep.ev("distribution_tests")
        if abs(zz) > 9.0:
            rep.bad("%s: %s deviate from uniform sampling with replacement (z = %.1f)" % (what, nm, zz))
            return
    rep.nontrivial = True
    rep.set_sig("dist", C)
    rep.sample = dict(trees=T, rows=n, z=[round(float(a), 2) for a in (z, z2, z3, z4)])


def run_case(rep, rng, name, tier):
    g = gen.gen_case
    if name is not None and name.startswith("dist_"):
        return distribution(rep, rng, int(name[5:]))
    if name is None and rng.rand() < 0.02:
        return distribution(rep, rng, int(rng.choice([2, 3, 4, 5, 10, 30, 100, 300])))
    if name is not None and name.startswith("tiny"):
        case = g(rng, n=int(name[5:]), n_estimators=20, wmode="none")
    elif name is not None and name.startswith("ovr"):
        case = g(rng, task="clf", n=60, multiclass="ovr", n_classes=4, n_estimators=3)
    elif name is not None and name.startswith("large"):
        n = int(name[6:])
        case = g(rng, n=n, p=1, nt=5, n_estimators=4, max_depth=2,
                 wmode=str(rng.choice(["none", "int", "float"])), **(dict(n_classes=2) if rng.rand() < 0.5 else {}))
    elif name is not None and name.startswith("weights"):
        case = g(rng, n=100, wmode=["int", "float", "zeros", "ones"][int(name[8:])], n_estimators=6)
    else:
        case = g(rng, n_estimators=int(rng.choice([2, 3, 6])), max_depth=3)
    f = case.fit(n_jobs=int(rng.choice([1, 1, 3])))
    C = audit(rep, case, f)
    if C is None:
        return
    rep.nontrivial = len(C) >= 2
    rep.set_sig(*C)
