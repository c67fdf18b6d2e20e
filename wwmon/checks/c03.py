"""C03: an integer random_state determines the forest."""
import hashlib
import json
import os
import random as pyrandom
import subprocess
import sys
import threading
import time

import numpy as np
import pandas as pd

from wwmon import gen, ref

TECHNIQUE = ("runtime monitor under schedule and environment perturbation: digests of bags, leaves and tree predictions "
             "compared between fits with different n_jobs, injected delays, concurrent fits, histories, generator states, "
             "memory contents and fresh processes")
RULE = ("each case fits a reference forest alone with n_jobs=1 and compares 4 to 6 perturbed refits with it; non-trivial: "
        "some tree has 3 or more nodes; distinct: by digest of the reference forest; two fresh processes recompute the "
        "digests of fixed cases")
ASSUMPTIONS = ["delays are injected before and after the growth of each tree (wrapped tree.fit and grow)",
               "fresh processes differ by PYTHONHASHSEED, MALLOC_PERTURB_, n_jobs and the order of the cases"]
QUICK = dict(seconds=18)
THOROUGH = dict(seconds=420)
REQUIRED = ["refits_compared", "parallel_refits", "concurrent_fits", "history_refits", "generator_perturbed",
            "memory_perturbed", "seed_changes", "fresh_process_digests", "subsampled_fits", "verbose_refits", "randomized_depth_refits"]
N_FIXED = {"quick": 24, "thorough": 120}

SPLIT = ("feature", "bin_threshold", "threshold", "is_split_categorical", "bin_partition", "left_child", "right_child")


def directed(tier):
    return ["subsample_clf", "subsample_reg", "subsample_zero_clf", "manycats_clf", "manycats_reg"] + ["random_strategy_%d" % i for i in range(3)] + \
        ["ovr_%d" % i for i in range(3)] + ["depth_history_%d" % i for i in range(2)] + \
        ["many_trees", "tiny_clf", "tiny_reg", "tiny_three"] + ["state_%d" % s for s in (0, 1, 2 ** 31, 2 ** 32 - 1)] + ["randomized_depth_%d" % i for i in range(4)]


def make(rng, name):
    g = gen.gen_case
    if name is None and rng.rand() < 0.1:
        return make(rng, ["tiny_clf", "tiny_reg", "tiny_three"][rng.randint(3)])
    if name is None:
        return g(rng, n=int(rng.randint(10, 250)), n_estimators=int(rng.choice([2, 3, 6])))
    if name.startswith("subsample"):
        c = g(rng, task=name.split("_")[-1], n=50500, nt=200, p=2, container="array", kinds=["normal", "skew"],
              wmode="none", n_estimators=1, max_depth=4, subsample=50000, max_bins=256, multiclass="multinomial",
              max_features=None, cat_min_categories="log")
        c.cat = None
        if "zero" in name:
            c.params["random_state"] = 0
        return c
    if name.startswith("manycats"):
        # an array of strings and an object array: the encoder finds the categories itself
        n, nt, k = 250, 120, int(rng.randint(9, 60))
        c = g(rng, task=name[-3:], n=n, nt=nt, p=2, container="array", kinds=["normal", "normal"], n_estimators=3,
              cat_min_categories="log", handle_unknown="consider_missing")
        names = np.array(["c%s" % "".join(rng.choice(list("abcdefgh"), 6)) for _ in range(k)])
        i, it = rng.randint(0, k, n), rng.randint(0, k, nt)
        r = rng.rand()
        if r < 0.4:
            c.X = pd.DataFrame({"a": names[i].astype(object), "b": names[rng.randint(0, k, n)].astype(object)})
            c.Xt = pd.DataFrame({"a": names[it].astype(object), "b": names[rng.randint(0, k, nt)].astype(object)})
        elif r < 0.7:
            c.X = np.stack([names[i], names[rng.randint(0, k, n)]], axis=1)
            c.Xt = np.stack([names[it], names[rng.randint(0, k, nt)]], axis=1)
            c.cat = np.array([True, True])
        else:
            c.X = np.stack([names[i].astype(object), rng.randn(n).astype(object)], axis=1)
            c.Xt = np.stack([names[it].astype(object), rng.randn(nt).astype(object)], axis=1)
            c.cat = np.array([True, False])
        s = (i * 7) % 5
        c.y = s + 0.3 * rng.randn(n) if c.task == "reg" else np.where(rng.rand(n) < 0.2, rng.randint(0, 2, n), (s > 2).astype(int))
        c.params["max_features"] = None
        c.params["class_weight"] = None
        if c.task == "reg":
            c.params.pop("class_weight")
        return c
    if name.startswith("random_strategy"):
        return g(rng, task="clf", n=150, container="dataframe", kinds=["str", "category", "str_many"], n_classes=4,
                 cat_split_strategy="random", n_estimators=6, max_features=2, multiclass="multinomial")
    if name.startswith("ovr"):
        return g(rng, task="clf", n=120, n_classes=3, multiclass="ovr", n_estimators=4)
    if name.startswith("depth_history"):
        return g(rng, n=100, max_depth=None)
    if name.startswith("randomized_depth"):
        c = g(rng, n=250, n_estimators=12, max_depth=None, min_samples_leaf=1, min_samples_split=2, container="array",
              kinds=["normal", "skew", "normal"], aggregation=bool(rng.rand() < 0.5), max_features=1)
        c.fit_kw = dict(randomized_depth=True)
        return c
    if name.startswith("tiny"):
        # bootstraps that keep every row, and are drawn again, are common here
        return g(rng, task="reg" if name == "tiny_reg" else "clf", n=4 if name == "tiny_three" else 5, nt=20,
                 n_estimators=40, n_classes=2, container="array", kinds=["normal", "int_few"], wmode="none",
                 min_samples_split=2, min_samples_leaf=1)
    if name == "many_trees":
        return g(rng, n=80, n_estimators=40)
    if name.startswith("state"):
        return g(rng, n=80, n_estimators=3, random_state=int(name.split("_")[1]))
    raise KeyError(name)


def digest(f, case):
    h = hashlib.blake2b(digest_size=16)
    nj = f.n_jobs
    f.n_jobs = 1
    for X in (case.X[:400], case.Xt):
        h.update(np.ascontiguousarray(f.apply(X)).astype(np.int64).tobytes())
        h.update(np.ascontiguousarray(f.predict_proba_trees(X) if case.task == "clf" else f.predict_trees(X)).tobytes())
        h.update(np.ascontiguousarray(ref.outputs(f, X)).tobytes())
    f.n_jobs = nj
    for k in range(min(len(f.trees), 2)):
        df = f.get_nodes(k)
        inner = ~df["is_leaf"].to_numpy().astype(bool)
        for c in df.columns:
            # what a leaf would split on is a place holder
            v = df[c].to_numpy()[inner] if c in SPLIT else df[c].to_numpy()
            h.update(repr(list(v)).encode() if v.dtype == object else np.ascontiguousarray(v).tobytes())
    try:
        for t in f.trees:
            h.update(np.asarray(t._train_indices).astype(np.int64).tobytes())
    except AttributeError:
        pass
    return h.hexdigest()


class Delays:
    """Random sleeps (or another action) around the growth of each tree."""

    def __init__(self, rng, scale=0.003, action=None):
        self.action = action
        self.rs = np.random.RandomState(rng.randint(2 ** 31 - 1))
        self.lock = threading.Lock()
        self.scale = scale
        self.order = []

    def nap(self):
        if self.action is not None:
            self.action()
            return
        with self.lock:
            r, u = self.rs.rand(2)
        if r < 0.7:
            time.sleep(self.scale * u)

    def __enter__(self):
        import wildwood.tree as wt

        self.wt = wt
        self.saved = []
        for cls in (wt.TreeClassifier, wt.TreeRegressor):
            orig = cls.fit

            def fit(tree, *a, _orig=orig, **kw):
                self.nap()
                r = _orig(tree, *a, **kw)
                with self.lock:
                    self.order.append(int(tree.random_state) if getattr(tree, "random_state", None) is not None else -1)
                self.nap()
                return r

            self.saved.append((cls, "fit", orig))
            cls.fit = fit
        if hasattr(wt, "grow"):
            g = wt.grow

            def grow(*a, **kw):
                self.nap()
                return g(*a, **kw)

            self.saved.append((wt, "grow", g))
            wt.grow = grow
        return self

    def __exit__(self, *a):
        for o, n, v in self.saved:
            setattr(o, n, v)


_numba_noise = None


def perturb_generators(rng):
    global _numba_noise
    np.random.seed(rng.randint(2 ** 31 - 1))
    np.random.rand(int(rng.randint(0, 50)))
    pyrandom.seed(int(rng.randint(2 ** 31 - 1)))
    if _numba_noise is None:
        from numba import njit

        @njit
        def noise(s, k):
            np.random.seed(s)
            t = 0.0
            for _ in range(k):
                t += np.random.rand()
            return t

        _numba_noise = noise
    _numba_noise(int(rng.randint(2 ** 31 - 1)), int(rng.randint(0, 20)))


def perturb_memory(rng):
    keep = []
    for _ in range(200):
        a = np.empty(int(rng.randint(1, 3000)), dtype=np.uint64)
        a[:] = np.uint64(0xFFFFFFFFFFFFFFFF) if rng.rand() < 0.5 else np.uint64(rng.randint(2 ** 31))
        keep.append(a)
    for m in list(range(1, 48)) * 12:
        keep.append(rng.standard_normal(m) * 10.0 ** rng.randint(-3, 4))
    for m in (2047, 2047 * 4, 2047 * 22, 256 * 8, 512):
        a = np.empty(m, dtype=np.float64)
        a[:] = rng.choice([np.nan, np.inf, -1e30, 7.0])
        keep.append(a)
    del keep


def run_case(rep, rng, name, tier):
    case = make(rng, name)
    sub = name is not None and name.startswith("subsample")
    f0 = case.fit(n_jobs=1)
    base = digest(f0, case)
    other = gen.gen_case(rng, task=case.task, n=int(rng.randint(10, 60)), n_classes=int(rng.choice([2, 3, 5])))
    kinds = ["jobs", "jobs", "concurrent", "history", "generator", "memory", "verbose"]
    if sub:
        kinds = ["generator", "jobs", "history"]
    elif name is None:
        kinds = list(rng.choice(kinds, 4, replace=False))
    if name is not None and name.startswith("depth_history"):
        kinds = ["history"] * 3 + ["depth"] * 2
    if getattr(case, "fit_kw", None):
        rep.ev("randomized_depth_refits")

    def cmp(f, what):
        rep.ev("refits_compared")
        d = digest(f, case)
        if d != base:
            a0, a1 = f0.apply(case.Xt), f.apply(case.Xt)
            rep.bad("%s: the forest differs from the one fitted alone with n_jobs=1 (%s)"
                    % (what, "leaves differ in trees %s" % np.flatnonzero((a0 != a1).any(axis=1))[:8].tolist()
                       if a0.shape == a1.shape else "number of trees differs"))
            return False
        return True

    for kd in kinds:
        if kd == "jobs":
            nj = int(rng.choice([2, 3, 4, 8, -1]))
            sw = sys.getswitchinterval()
            try:
                if rng.rand() < 0.5:
                    sys.setswitchinterval(1e-5)
                with Delays(rng) as d:
                    f = case.fit(n_jobs=nj)
            finally:
                sys.setswitchinterval(sw)
            rep.ev("parallel_refits")
            seq = [int(s) for s in getattr(f, "_random_states_trees", [])]
            rep.ev("fits_finishing_out_of_order", d.order != seq)
            if not cmp(f, "n_jobs=%d with delays" % nj):
                return
        elif kd == "concurrent":
            others = [gen.gen_case(rng, n=int(rng.randint(10, 80))) for _ in range(2)]
            refs = [digest(o.fit(n_jobs=1), o) for o in others]
            res = [None] * 4
            jobs = [case, others[0], others[1], case]
            nj = [int(rng.choice([1, 2, 4])) for _ in jobs]

            def go(i):
                try:
                    res[i] = jobs[i].fit(n_jobs=nj[i])
                except Exception as e:
                    res[i] = e

            with Delays(rng):
                th = [threading.Thread(target=go, args=(i,)) for i in range(len(jobs))]
                [t.start() for t in th]
                [t.join() for t in th]
            rep.ev("concurrent_fits", len(jobs))
            for i, r in enumerate(res):
                if isinstance(r, Exception):
                    rep.bad("concurrent fit raised %s: %s" % (type(r).__name__, r))
                    return
            if not cmp(res[0], "fit concurrent with other fits (n_jobs %s)" % nj) or \
                    not cmp(res[3], "fit concurrent with other fits (n_jobs %s)" % nj):
                return
            for o, r, d in zip(others, res[1:3], refs):
                rep.ev("refits_compared")
                if digest(r, o) != d:
                    rep.bad("two forests fitted concurrently influence each other (n_jobs %s)" % nj)
                    return
        elif kd == "history":
            f = case.new()
            r = rng.rand()
            if r < 0.4:
                f = gen.used(rng, case, p=1.0)
            elif r < 0.7:
                f.fit(case.X, case.y[::-1] if case.task == "reg" else case.y, **({} if case.cat is None else dict(categorical_features=case.cat)))
            else:
                oX = other.X if not hasattr(other.X, "iloc") else other.X
                if case.params.get("max_features") is None or not isinstance(case.params["max_features"], int):
                    if case.cat is not None:
                        f.fit(oX, other.y, categorical_features=np.zeros(oX.shape[1], dtype=bool))
                    else:
                        f.fit(oX, other.y)
                else:
                    f.fit(case.X, case.y, **({} if case.cat is None else dict(categorical_features=case.cat)))
            if rng.rand() < 0.3:
                f.lighten()
            kw = {}
            if case.sw is not None:
                kw["sample_weight"] = case.sw
            if case.cat is not None:
                kw["categorical_features"] = case.cat
            kw.update(getattr(case, "fit_kw", {}))
            f.fit(case.X, case.y, **kw)
            rep.ev("history_refits")
            if not cmp(f, "refit on an object fitted before"):
                return
        elif kd == "depth":
            gen.gen_case(rng, n=20, max_depth=int(rng.randint(2, 6))).fit()
            f = case.fit()
            rep.ev("history_refits")
            if not cmp(f, "fit after a fit with an integer max_depth"):
                return
        elif kd == "generator":
            perturb_generators(rng)
            f = case.fit(n_jobs=int(rng.choice([1, 2])))
            rep.ev("generator_perturbed")
            rep.ev("subsampled_fits", sub)
            if not cmp(f, "fit after changing the state of the global generators"):
                return
        elif kd == "memory":
            mrng = np.random.RandomState(rng.randint(2 ** 31 - 1))
            perturb_memory(mrng)
            d = Delays(rng, action=lambda: perturb_memory(mrng))
            with d:
                f = case.fit(n_jobs=1)
            rep.ev("memory_perturbed")
            if not cmp(f, "fit after filling freed memory"):
                return
        elif kd == "verbose":
            so, se = os.dup(1), os.dup(2)
            nul = os.open(os.devnull, os.O_WRONLY)
            try:
                os.dup2(nul, 1)
                os.dup2(nul, 2)
                f = case.fit(verbose=True)
                f.verbose = False
            finally:
                os.dup2(so, 1)
                os.dup2(se, 2)
                for fd in (so, se, nul):
                    os.close(fd)
            rep.ev("verbose_refits")
            if not cmp(f, "verbose=True"):
                return
    if case.X.shape[0] >= 20:
        r0 = case.params["random_state"]
        r1 = (r0 + 1 + int(rng.randint(1000))) % 2 ** 32 if rng.rand() < 0.4 else r0 ^ (1 << int(rng.randint(0, 32)))
        g1 = case.fit(random_state=r1)
        try:
            bags0 = [tuple(np.asarray(t._train_indices).tolist()) for t in f0.trees]
            bags1 = [tuple(np.asarray(t._train_indices).tolist()) for t in g1.trees]
            rep.ev("seed_changes")
            if set(bags0) & set(bags1):
                rep.bad("another random_state gives a tree with the same in-bag rows")
                return
        except AttributeError:
            pass
    rep.nontrivial = any(len(f0.get_nodes(k)) >= 3 for k in range(len(f0.trees)))
    rep.set_sig(base)
    if name is None and rng.rand() < 0.03:
        rep.sample = dict(case.describe(), perturbations=kinds, digest=base)


# ------------------------------------------------------------------------------ fresh processes


def fixed_digests(tier, seed, order, **over):
    from wwmon import engine

    out = {}
    for i in order:
        rng = engine.case_rng("C03-fixed", seed, i)
        case = make(rng, "manycats_clf" if i % 8 == 0 else "manycats_reg" if i % 8 == 4 else None)
        try:
            out[str(i)] = digest(case.fit(**over), case)
        except Exception as e:
            out[str(i)] = "exception %s: %s" % (type(e).__name__, str(e)[:200])
    return out


def prepare(tier, seed, scratch):
    procs = []
    envs = [dict(PYTHONHASHSEED="12345", MALLOC_PERTURB_="165", WW_NJOBS="2", WW_ORDER="rev"),
            dict(PYTHONHASHSEED="77", MALLOC_PERTURB_="0", MALLOC_ARENA_MAX="1", WW_NJOBS="-1", WW_ORDER="shuffle")]
    for k, extra in enumerate(envs):
        env = dict(os.environ)
        env.update(extra)
        env["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba_side%d" % k)
        path = os.path.join(scratch, "side%d.json" % k)
        procs.append((path, extra, subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "wwmon.checks.c03", tier, str(seed), path],
            env=env, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
            stdout=subprocess.DEVNULL, stderr=open(path + ".err", "w"))))
    return procs


def finish(rep, procs, tier, seed, scratch):
    here = fixed_digests(tier, seed, list(range(N_FIXED[tier])), n_jobs=1)
    for path, extra, p in procs or []:
        try:
            p.wait(timeout=400)
        except subprocess.TimeoutExpired:
            p.kill()
            rep.notes["fresh process timed out"] += 1
            continue
        if not os.path.exists(path):
            err = open(path + ".err").read()[-800:]
            rep.bad("the fresh process %s ended with code %s: %s" % (extra, p.returncode, err))
            continue
        there = json.load(open(path))
        for i, d in here.items():
            rep.ev("fresh_process_digests")
            rep.ev("side_evaluations")
            if there.get(i) != d:
                rep.bad("fixed case %s: a fresh process with %s gives %s, this process gives %s"
                        % (i, extra, there.get(i), d))
                return


if __name__ == "__main__":
    from wwmon import engine

    tier, seed, path = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    engine.import_wildwood()
    order = list(range(N_FIXED[tier]))
    if os.environ["WW_ORDER"] == "rev":
        order.reverse()
    else:
        np.random.RandomState(5).shuffle(order)
    r = fixed_digests(tier, seed, order, n_jobs=int(os.environ["WW_NJOBS"]))
    with open(path + ".tmp", "w") as fh:
        json.dump(r, fh)
    os.rename(path + ".tmp", path)
