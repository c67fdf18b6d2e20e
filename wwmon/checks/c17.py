"""C17: no out-of-bounds access and no dependence on uninitialised memory.

The engine process of this check runs with NUMBA_BOUNDSCHECK=1 (see run.sh): every array access of the compiled code
is checked.  Two side processes run the same cases on the ordinary build, with freshly allocated memory filled with
two different patterns, and their outputs are compared bit by bit.
"""
import glob
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import subprocess
import sys
import time
import traceback

import numpy as np

from wwmon import gen, ref
from wwmon.checks import c11

TECHNIQUE = ("sanitizers: all compiled code runs with numba's bounds checker switched on (positive control included) under a "
             "hostile workload; the same workload runs in two more processes whose allocator fills fresh memory with "
             "different patterns (MALLOC_PERTURB_, poisoned numpy cache), outputs compared bit by bit")
RULE = ("each case fits a forest and runs all public methods on it; non-trivial: some tree has 3 or more nodes; distinct: by "
        "hash of the outputs")
ASSUMPTIONS = ["numba's bounds checker covers element accesses of arrays, not slices (clamped by definition)"]
QUICK = dict(seconds=20)
THOROUGH = dict(seconds=480)
REQUIRED = ["bounds_checked_cases", "control_bounds", "control_memory", "memory_pairs_compared", "big_trees",
            "partition_table_grown", "deep_trees", "single_class", "unknown_rows", "missing_only_at_predict", "lightened",
            "parameter_changes", "restored", "many_classes", "small_n"]
NAMES = ["big_clf", "big_reg", "big_ovr", "cats_clf", "cats_reg", "deep_clf", "deep_reg", "single", "single_cat", "const",
         "const_df", "nan_predict", "unknown_clf", "unknown_reg", "manyclass", "manyfeat", "n2", "n3", "n5", "bins3",
         "bins_edge_a", "bins_edge_b", "wide_cat", "zero_w", "allmiss", "leafy", "maxdepth2",
         "tiny_clf", "tiny_reg", "tiny_cat"]


def directed(tier):
    return list(NAMES)


def make(rng, name):
    g = gen.gen_case
    free = dict(max_depth=None, min_samples_split=2, min_samples_leaf=1)
    if name in ("big_clf", "big_reg", "big_ovr"):
        return g(rng, task="reg" if name == "big_reg" else "clf", n=9000 if name != "big_ovr" else 3000, nt=100, p=3,
                 container="array", kinds=["normal", "normal", "cat_int"], wmode="none", n_estimators=1, aggregation=False,
                 max_bins=256, max_features=None, n_classes=3, multiclass="ovr" if name == "big_ovr" else "multinomial", **free)
    if name in ("cats_clf", "cats_reg"):
        return g(rng, task=name[5:], n=1200, container="dataframe", kinds=["str_many", "str_many", "str_nan"],
                 aggregation=False, n_estimators=2, max_features=None, **free)
    if name in ("deep_clf", "deep_reg"):
        c = g(rng, task=name[5:], n=600, p=1, container="array", kinds=["uniq_int"], aggregation=False, n_estimators=1,
              wmode="none", max_bins=600, max_features=None, multiclass="multinomial", **free)
        r = np.argsort(np.argsort(c.X[:, 0]))
        # alternating classes, or targets that double every five rows, give long paths
        c.y = (r % 2) if name == "deep_clf" else 2.0 ** (r // 5 - 60)
        return c
    if name in ("single", "single_cat"):
        c = g(rng, task="clf", n=80, **(dict(container="dataframe", kinds=["str", "category", "nan"]) if name != "single" else {}))
        c.y = np.full(80, 3)
        return c
    if name == "const":
        return g(rng, n=40, container="array", kinds=["const", "const", "const"])
    if name == "const_df":
        return g(rng, n=40, container="dataframe", kinds=["const", "str", "const"])
    if name == "nan_predict":
        return g(rng, n=150, container="array", kinds=["nan_tail", "nan_tail", "uniq_int"])
    if name in ("unknown_clf", "unknown_reg"):
        return g(rng, task=name[8:], n=150, container="array", kinds=["cat_int", "cat_nan", "cat_int"])
    if name == "manyclass":
        return g(rng, task="clf", n=300, n_classes=60, multiclass="multinomial")
    if name == "manyfeat":
        return g(rng, n=60, p=120, container="array")
    if name in ("n2", "n3", "n5"):
        return g(rng, n=int(name[1:]), wmode="none", n_classes=2)
    if name in ("tiny_clf", "tiny_reg", "tiny_cat"):  # bags of very few distinct rows: more rows out of the bag than in it
        return g(rng, task="reg" if name == "tiny_reg" else "clf", n=int(rng.randint(5, 7)), wmode="none", n_classes=2, nt=10,
                 container="array", kinds=["cat_int", "normal"] if name == "tiny_cat" else ["uniq_int", "normal"],
                 n_estimators=200, aggregation=False, max_features=None, **free)
    if name == "bins3":
        return g(rng, n=200, max_bins=3)
    if name == "bins_edge_a":
        return g(rng, n=258, container="array", kinds=["uniq_int", "uniq_int"], max_bins=256)
    if name == "bins_edge_b":
        return g(rng, n=256, container="array", kinds=["uniq_int", "nan"], max_bins=256)
    if name == "wide_cat":
        return g(rng, n=700, container="dataframe", kinds=["str_many", "normal"], max_bins=4)
    if name == "zero_w":
        return g(rng, n=120, wmode="zeros")
    if name == "allmiss":
        c = g(rng, n=120, container="array", kinds=["nan", "cat_nan", "nan"])
        c.Xt[:] = np.nan
        return c
    if name == "leafy":
        return g(rng, n=100, min_samples_leaf=25, min_samples_split=60)
    if name == "maxdepth2":
        return g(rng, n=100, max_depth=2)
    if rng.rand() < 0.06:
        return g(rng, n=int(rng.randint(4, 9)), nt=5, n_classes=2, wmode="none", n_estimators=50)
    return g(rng, n=int(rng.choice([2, 3, 4, 7, 15])) if rng.rand() < 0.1 else None, n_classes=2 if rng.rand() < 0.3 else None)


def full_digest(f, case, light=False):
    """Outputs and reported nodes, bit by bit (fields of the nodes that have a meaning)."""
    h = hashlib.blake2b(digest_size=16)
    h.update(c11.digest(f, case).encode())
    big = 0
    for k in range(len(f.trees)):
        d = f.get_nodes(k)
        big = max(big, len(d))
        leaf = d["is_leaf"].to_numpy().astype(bool)
        for c in d.columns:
            v = d[c].to_numpy()
            if c in ("feature", "bin_threshold", "left_child", "right_child", "is_split_categorical", "information_gain",
                     "bin_partition_start", "bin_partition_end", "threshold"):
                v = v[~leaf]
            h.update(c.encode() + (repr(v.tolist()).encode() if v.dtype == object else np.ascontiguousarray(v).tobytes()))
    return h.hexdigest(), big


def poison(byte):
    """Fills numpy's cache of small blocks with garbage that differs between the processes."""
    for size in (8, 16, 24, 32, 40, 64, 100, 128, 200, 256, 400, 512, 800, 1000, 1016):
        keep = [np.full(size, byte, dtype=np.uint8) for _ in range(8)]
        del keep


def scenario(rng, name, ev=lambda *a: None, byte=None):
    """Runs one case; returns (digest, nodes of the biggest tree)."""
    case = make(rng, name)
    if byte is not None:
        poison(byte)
    out = []
    small = case.X.shape[0] <= 5
    ev("small_n", small)
    f = case.new(n_jobs=1)
    kw = {}
    if case.sw is not None:
        kw["sample_weight"] = case.sw
    if case.cat is not None:
        kw["categorical_features"] = case.cat
    f.fit(case.X, case.y, **kw)
    clf = case.task == "clf"
    d, big = full_digest(f, case)
    out.append(d)
    ev("big_trees", big > 4094)
    t = f.trees[0]
    core = getattr(t, "_tree_classifier", None) or getattr(t, "_tree_regressor", None)
    if core is not None and hasattr(core, "bin_partitions_end"):
        ev("partition_table_grown", int(core.bin_partitions_end) > 64)
    ev("deep_trees", f.get_nodes(0)["depth"].max() > 60)
    if clf:
        ev("single_class", f.n_classes_ == 1)
        ev("many_classes", f.n_classes_ > 20)
    ev("unknown_rows", len(case.Xt))
    ev("missing_only_at_predict", name == "nan_predict" or "nan_tail" in case.kinds)
    f.step = 0.37
    if clf:
        f.dirichlet = 0.9
    ev("parameter_changes")
    if byte is not None:
        poison(byte)
    out.append(full_digest(f, case)[0])
    g = pickle.loads(pickle.dumps(f))
    ev("restored")
    out.append(full_digest(g, case)[0])
    g.lighten()
    ev("lightened")
    out.append(full_digest(g, case)[0])
    g.step = 2.0
    out.append(full_digest(g, case)[0])
    if case.params["aggregation"] and hasattr(f, "_weighted_depth") and rng.rand() < 0.3:
        out.append(hashlib.blake2b(np.ascontiguousarray(f._weighted_depth(case.Xt)).tobytes(), digest_size=8).hexdigest())
    return out, big, case


_CONTROL = []


def control():
    """Does the bounds checker work in this process, on functions compiled like those of wildwood?"""
    if not _CONTROL:
        import numba

        @numba.jit(nopython=True, nogil=True, boundscheck=False)
        def peek(a, i):
            return a[i]

        try:
            peek(np.zeros(4, dtype=np.uint64), 4)
            _CONTROL.append(False)
        except IndexError:
            _CONTROL.append(True)
    return _CONTROL[0]


def run_case(rep, rng, name, tier):
    if control():
        rep.ev("control_bounds")
        rep.ev("bounds_checked_cases")
    try:
        out, big, case = scenario(rng, name, rep.ev)
    except IndexError as e:
        rep.bad("out-of-bounds access: %s\n%s" % (e, traceback.format_exc()[-1500:]))
        return
    rep.nontrivial = big >= 3
    rep.set_sig(repr(out))
    if name is None and rng.rand() < 0.01:
        rep.sample = dict(case.describe(), nodes_of_biggest_tree=int(big))


# ------------------------------------------------------------------------------------------------- side processes
SIDES = {"A": 85, "B": 170}


def prepare(tier, seed, scratch):
    procs = []
    sec = (THOROUGH if tier == "thorough" else QUICK)["seconds"]
    for tag, byte in SIDES.items():
        env = dict(os.environ)
        env.pop("NUMBA_BOUNDSCHECK", None)
        env["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba_" + tag)
        env["MALLOC_PERTURB_"] = str(byte)
        err = open(os.path.join(scratch, "side%s.err" % tag), "w")
        procs.append(subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "wwmon.checks.c17", scratch, tag, str(seed), tier, str(sec)], env=env,
            cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
            stdout=subprocess.DEVNULL, stderr=err))
    return procs


def finish(rep, procs, tier, seed, scratch):
    if procs is None:
        return
    t0 = time.time()
    for p in procs:
        try:
            p.wait(timeout=max(5, 500 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            rep.notes["a side process timed out"] += 1
    res = {}
    for tag in SIDES:
        res[tag] = {}
        for path in glob.glob(os.path.join(scratch, "side%s.*.jsonl" % tag)):
            for line in open(path):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if "control" in r:
                    res[tag].setdefault("control", r["control"])
                else:
                    res[tag][r["case"]] = r
    for tag, p in zip(SIDES, procs):
        started = [l for q in glob.glob(os.path.join(scratch, "side%s.*.cur" % tag)) for l in [open(q).read()]]
        crashed = open(os.path.join(scratch, "side%s.err" % tag)).read()
        if p.returncode not in (0, None) or "DIED" in crashed:
            rep.bad("a side process died (code %s) while running %s: %s" % (p.returncode, started, crashed[-600:]))
            return
    a, b = res["A"], res["B"]
    if a.get("control") is not None and a.get("control") != b.get("control"):
        rep.ev("control_memory")
    for c in sorted(set(a) & set(b) - {"control"}):
        rep.ev("memory_pairs_compared")
        rep.ev("side_evaluations", 2)
        x, y = a[c], b[c]
        if x.get("exc") or y.get("exc"):
            rep.bad("case %s raised in a side process: %s" % (c, (x.get("exc") or y.get("exc"))[-900:]))
            return
        if x["out"] != y["out"]:
            which = [i for i, (u, v) in enumerate(zip(x["out"], y["out"])) if u != v]
            rep.bad("case %s: results depend on the contents of freshly allocated memory (stages %s of fit, parameter "
                    "change, restore, lighten, change)" % (c, which))
            return


def side(scratch, tag, seed, tier, sec):
    from wwmon import engine, warmup

    engine.import_wildwood()
    warmup.warm()
    deadline = time.time() + sec
    nw = 3
    ctx = mp.get_context("fork")

    def work(w):
        import numba  # noqa: F401

        fh = open(os.path.join(scratch, "side%s.%d.jsonl" % (tag, w)), "w")
        cur = os.path.join(scratch, "side%s.%d.cur" % (tag, w))
        fh.write(json.dumps(dict(control=hashlib.blake2b(np.empty(50000, dtype=np.uint8).tobytes()).hexdigest())) + "\n")
        ids = [("d:" + n, n) for n in directed(tier)]
        i = w
        while True:
            if i < len(ids):
                cid, name = ids[i]
            else:
                cid, name = "r:%d" % (i - len(ids)), None
                if time.time() > deadline:
                    break
            i += nw
            with open(cur, "w") as q:
                q.write(cid)
            r = dict(case=cid)
            try:
                r["out"] = scenario(engine.case_rng("C17", seed, cid), name, byte=SIDES[tag])[0]
            except Exception:
                r["exc"] = traceback.format_exc()[-1500:]
            fh.write(json.dumps(r) + "\n")
            fh.flush()
        os.unlink(cur)
        fh.close()
        os._exit(0)

    ps = [ctx.Process(target=work, args=(w,)) for w in range(nw)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()
    if any(p.exitcode != 0 for p in ps):
        sys.stderr.write("DIED %s\n" % [p.exitcode for p in ps])
        sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    side(sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4], float(sys.argv[5]))
