"""C11: saving, copying and lightening preserve behaviour."""
import copy
import glob
import hashlib
import io
import json
import os
import pickle
import subprocess
import sys
import time

import numpy as np

from wwmon import gen, ref

TECHNIQUE = ("runtime monitor over call histories: random chains of pickle, joblib, deepcopy, lighten, clone and parameter "
             "changes; digests of all outputs compared with the original, copies watched for interference; saved forests "
             "restored and predicted in a fresh process")
RULE = ("each case fits a forest and runs a chain of 2 to 6 operations on it and its copies; every object is compared after "
        "every step; non-trivial: some tree has 3 or more nodes; distinct: by hash of chain and outputs; about one case in "
        "ten is also restored in a fresh process")
ASSUMPTIONS = ["outputs are compared with n_jobs=1 (order of additions fixed)",
               "changing dirichlet after lighten is refused, as designed"]
QUICK = dict(seconds=16)
THOROUGH = dict(seconds=420)
REQUIRED = ["shallow_copies_kept", "unknown_refusing_forests", "refitted_copies", "objects_compared", "pickled", "joblibbed", "deepcopied", "lightened", "parameter_changes",
            "fresh_process_restores", "independence_checks", "nodes_frames_compared", "categorical_forests",
            "unfitted_restored", "big_trees", "clones", "other_parameters_set", "big_category_tables"]
# parameters that do not change the predictions of a fitted forest, with values to give them
PLAIN = dict(n_jobs=[1, 2, 4, -1], verbose=[True, False], max_depth=[None, 2, 9], min_samples_split=[2, 7],
             min_samples_leaf=[1, 5], max_bins=[3, 100, 256], max_features=["sqrt", "log2", None, 1],
             class_weight=[None, "balanced"])


def directed(tier):
    return ["big_clf", "big_reg", "cats_clf", "cats_reg", "bigcats_clf", "bigcats_reg", "single", "ovr", "light_pickle", "pickle_light", "twice",
            "unfitted_clf", "unfitted_reg", "clone_clf", "clone_reg", "df"] + ["fresh_%d" % i for i in range(8)] + gen.SHAPES


def make(rng, name):
    g = gen.gen_case
    if name is not None and name.startswith("shape_"):
        return gen.shape_case(rng, name)
    if name in ("big_clf", "big_reg"):
        return g(rng, task=name[4:], n=7000, nt=300, p=3, container="array", kinds=["normal", "normal", "cat_int"],
                 wmode="none", n_estimators=1, aggregation=False, max_depth=None, min_samples_split=2,
                 min_samples_leaf=1, max_bins=256, max_features=None, multiclass="multinomial")
    if name in ("cats_clf", "cats_reg"):
        return g(rng, task=name[5:], n=500, nt=80, container="dataframe", kinds=["str", "str_many", "category", "nan"],
                 max_depth=None, min_samples_split=2, min_samples_leaf=1)
    if name in ("bigcats_clf", "bigcats_reg"):
        c = g(rng, task=name[8:], n=1500, nt=80, container="dataframe", kinds=["str_many", "str_many", "category"],
              aggregation=False, max_depth=None, min_samples_split=2, min_samples_leaf=1, n_estimators=2, wmode="none",
              multiclass="multinomial", n_classes=3, labels="int")
        c.y = rng.randint(0, 3, 1500) if c.task == "clf" else rng.standard_normal(1500)
        return c
    if name == "single":
        c = g(rng, task="clf", n=60, multiclass="multinomial")
        c.y = np.full(60, "a")
        return c
    if name == "ovr":
        return g(rng, task="clf", n=90, n_classes=4, multiclass="ovr")
    if name == "df":
        return g(rng, n=100, container="dataframe")
    if name is not None and name.endswith(("_clf", "_reg")):
        return g(rng, task=name[-3:], n=80)
    return g(rng, n=int(rng.randint(10, 250)))


def digest(f, case):
    """All that a user observes, exactly."""
    h = hashlib.blake2b(digest_size=16)
    nj, ve = f.n_jobs, f.verbose
    f.n_jobs, f.verbose = 1, False
    try:
        for X in (case.X[:300], case.Xt):
            try:
                h.update(np.ascontiguousarray(ref.outputs(f, X)).tobytes())
            except ValueError:  # unknown categories refused
                if f.handle_unknown != "error" or X is not case.Xt:
                    raise
                h.update(b"refused")
                continue
            h.update(np.ascontiguousarray(f.apply(X)).astype(np.int64).tobytes())
            h.update(np.ascontiguousarray(f.predict_proba_trees(X) if case.task == "clf" else f.predict_trees(X)).tobytes())
            if case.task == "clf":
                h.update(repr(f.predict(X).tolist()).encode())
    finally:
        f.n_jobs, f.verbose = nj, ve
    if case.task == "clf":
        h.update(repr([f.classes_.tolist(), f.n_classes_]).encode())
    h.update(repr([f.n_features_in_, f.n_samples_in_, len(f.trees)]).encode())
    return h.hexdigest()


def params(f):
    return {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in f.get_params().items()}


def roundtrip(f, how, proto=None):
    if how == "pickle":
        return pickle.loads(pickle.dumps(f, protocol=proto))
    if how == "joblib":
        import joblib

        b = io.BytesIO()
        joblib.dump(f, b, compress=int(proto or 0) % 2)
        b.seek(0)
        return joblib.load(b)
    return copy.deepcopy(f)


def frames_equal(rep, a, b):
    for k in range(len(a.trees)):
        x, y = a.get_nodes(k), b.get_nodes(k)
        rep.ev("nodes_frames_compared")
        if list(x.columns) != list(y.columns) or len(x) != len(y):
            return False
        for c in x.columns:
            u, v = x[c].to_numpy(), y[c].to_numpy()
            if u.dtype == object:
                if repr(list(u)) != repr(list(v)):
                    return False
            elif u.dtype.kind == "f":
                if not np.array_equal(u, v, equal_nan=True):
                    return False
            elif not np.array_equal(u, v):
                return False
    return True


def run_case(rep, rng, name, tier):
    case = make(rng, name)
    if rng.rand() < 0.3:
        case.params["handle_unknown"] = "error"
        rep.ev("unknown_refusing_forests")
    clf = case.task == "clf"
    if name is not None and name.startswith("unfitted") or (name is None and rng.rand() < 0.05):
        base = case.fit()
        u = case.new()
        kw = {}
        if case.sw is not None:
            kw["sample_weight"] = case.sw
        if case.cat is not None:
            kw["categorical_features"] = case.cat
        v = roundtrip(u, str(rng.choice(["pickle", "joblib", "deepcopy"])))
        if params(v) != params(u):
            rep.bad("restoring an unfitted forest changes its parameters")
            return
        v.fit(case.X, case.y, **kw)
        rep.ev("unfitted_restored")
        if digest(v, case) != digest(base, case):
            rep.bad("an unfitted forest fits differently after being restored")
            return
    f = case.fit()
    d0 = digest(f, case)
    if name is not None and name.startswith("clone") or (name is None and rng.rand() < 0.05):
        from sklearn.base import clone

        c = clone(f)
        kw = {}
        if case.sw is not None:
            kw["sample_weight"] = case.sw
        c.fit(case.X, case.y, **kw)
        rep.ev("clones")
        if digest(c, case) != d0:
            rep.bad("a clone of the forest fits differently")
            return
        if digest(f, case) != d0:
            rep.bad("cloning or fitting the clone changed the forest")
            return
    step, diri = case.params["step"], case.params.get("dirichlet")
    # objects: (forest, digest expected, lightened, (step, dirichlet))
    objs = [[f, d0, False, params(f)]]
    rep.ev("categorical_forests", bool(np.asarray(f._encoder.is_categorical_).any()))
    big = max(len(f.get_nodes(k)) for k in range(len(f.trees)))
    rep.ev("big_trees", big > 2047)
    try:
        rep.ev("big_category_tables", max(sum(len(b) for b in f.get_nodes(k)["bin_partition"] if b is not None)
                                          for k in range(len(f.trees))) > 1024)
    except Exception:
        pass
    chain = []
    nops = int(rng.randint(2, 6 if tier == "quick" else 10))
    forced = {"light_pickle": ["lighten", "pickle", "step", "pickle"], "pickle_light": ["pickle", "lighten", "joblib"],
              "twice": ["pickle", "pickle", "deepcopy", "deepcopy"],
              "bigcats_clf": ["lighten", "pickle", "deepcopy", "step"], "bigcats_reg": ["deepcopy", "lighten", "pickle", "step"],
              "cats_clf": ["pickle", "lighten", "deepcopy", "step"], "big_clf": ["pickle", "lighten", "pickle"],
              "big_reg": ["joblib", "lighten", "pickle"]}.get(name)
    for i in range(len(forced) if forced else nops):
        op = forced[i] if forced else str(rng.choice(["pickle", "joblib", "deepcopy", "lighten", "step", "dirichlet", "jobs"]))
        j = int(rng.randint(len(objs))) if not forced else len(objs) - 1
        g, d, light, pr = objs[j]
        chain.append("%s(%d)" % (op, j))
        if op in ("pickle", "joblib", "deepcopy"):
            h = roundtrip(g, op, int(rng.randint(2, 6)))
            rep.ev({"pickle": "pickled", "joblib": "joblibbed", "deepcopy": "deepcopied"}[op])
            objs.append([h, d, light, pr])
            if not frames_equal(rep, g, h):
                rep.bad("after %s: the nodes reported by the restored forest differ" % " ".join(chain))
                return
        elif op == "lighten":
            g.lighten()
            rep.ev("lightened")
            objs[j][2] = True
        elif op == "jobs":
            for z in rng.choice(sorted(PLAIN), 2, replace=False):
                if z == "class_weight" and not clf:
                    continue
                val = PLAIN[z][rng.randint(len(PLAIN[z]))]
                setattr(g, z, val)
                objs[j][3] = dict(objs[j][3], **{z: val})
                rep.ev("other_parameters_set")
            if params(g) != objs[j][3]:
                rep.bad("after %s: a parameter does not have the value it was given" % " ".join(chain))
                return
        elif op in ("step", "dirichlet"):
            if op == "dirichlet" and (not clf or light):
                continue
            val = float(rng.choice([0.2, 0.7, 3.0]))
            setattr(g, op, val)
            rep.ev("parameter_changes")
            objs[j][1] = digest(g, case)
            objs[j][3] = dict(pr, **{op: val})
            # the same change on a fresh round trip of an equal object gives the same forest
            for q, (h, dh, lh, ph) in enumerate(objs):
                if q != j and dh == d and ph == pr and not (op == "dirichlet" and lh):
                    setattr(h, op, val)
                    objs[q][1] = digest(h, case)
                    objs[q][3] = dict(ph, **{op: val})
                    if objs[q][1] != objs[j][1]:
                        rep.bad("after %s: %s=%r has another effect on a copy (object %d)" % (" ".join(chain), op, val, q))
                        return
                    break
        for q, (h, dh, lh, ph) in enumerate(objs):
            rep.ev("objects_compared")
            rep.ev("independence_checks", q != j)
            if digest(h, case) != dh:
                rep.bad("after %s: object %d no longer predicts what it should" % (" ".join(chain), q))
                return
            if params(h) != ph:
                a = params(h)
                rep.bad("after %s: parameters of object %d: %s" % (" ".join(chain), q,
                        {z: (a.get(z), ph.get(z)) for z in ph if a.get(z) != ph.get(z)}))
                return
    if name == "twice" or rng.rand() < 0.3:
        # fitting again an object that a shallow copy was made of leaves the copy as it was
        j = int(rng.randint(len(objs)))
        h, dh, lh, ph = objs[j]
        h = roundtrip(h, "deepcopy")
        s = copy.copy(h)
        leaves = [np.asarray(h.get_nodes(k)["loss_valid"]) for k in range(len(h.trees))]
        h.verbose = False
        y2 = case.y[rng.permutation(len(case.y))]
        if len(np.unique(y2)) >= 2 or not clf:
            h.fit(case.X, y2, **({} if case.cat is None else dict(categorical_features=case.cat)))
            rep.ev("shallow_copies_kept")
            if digest(s, case) != dh:
                rep.bad("after %s: fitting object %d again changes what a shallow copy made before predicts" % (" ".join(chain), j))
                return
            if any(not np.array_equal(a, np.asarray(s.get_nodes(k)["loss_valid"]), equal_nan=True) for k, a in enumerate(leaves)):
                rep.bad("after %s: fitting object %d again changes the nodes of a shallow copy made before" % (" ".join(chain), j))
                return
    if name == "twice" or rng.rand() < 0.15:
        # a second fit of any of them is the fit of a new forest with its parameters
        h = objs[int(rng.randint(len(objs)))][0]
        kw = {}
        if case.sw is not None:
            kw["sample_weight"] = case.sw
        if case.cat is not None:
            kw["categorical_features"] = case.cat
        h2 = roundtrip(h, str(rng.choice(["pickle", "joblib", "deepcopy"])))
        new = case.new(**{z: v for z, v in h.get_params().items() if z in ("step", "dirichlet") or z in PLAIN})
        h2.verbose = new.verbose = False
        h2.fit(case.X, case.y, **kw)
        new.fit(case.X, case.y, **kw)
        rep.ev("refitted_copies")
        if digest(h2, case) != digest(new, case):
            rep.bad("after %s: a restored forest fitted again differs from a new forest" % " ".join(chain))
            return
    box = os.environ.get("WWMON_SCRATCH")
    if box and (name is not None or rng.rand() < 0.1) and os.path.isdir(os.path.join(box, "inbox")):
        h, dh, lh, ph = objs[-1]
        n = len(os.listdir(os.path.join(box, "inbox")))
        if n < 400:
            path = os.path.join(box, "inbox", "%s.req" % rep.case_id.replace(":", "_"))
            h.n_jobs = 1
            extra = 0.45 if rng.rand() < 0.5 else None
            blob = pickle.dumps(h, protocol=int(rng.randint(2, 6)))
            if extra is not None:
                g2 = pickle.loads(blob)
                g2.step = extra
                want2 = digest(g2, case)
            else:
                want2 = None
            with open(path + ".tmp", "wb") as fh:
                pickle.dump(dict(blob=blob, X=case.X, Xt=case.Xt, task=case.task, want=dh, extra=extra, want2=want2,
                                 params=dict(ph, n_jobs=1), chain=chain), fh)
            os.rename(path + ".tmp", path)
            rep.ev("sent_to_fresh_process")
    rep.nontrivial = big >= 3
    rep.set_sig(repr(chain), d0)
    if name is None and rng.rand() < 0.03:
        rep.sample = dict(case.describe(), chain=chain, digest=d0)


def prepare(tier, seed, scratch):
    os.makedirs(os.path.join(scratch, "inbox"), exist_ok=True)
    env = dict(os.environ)
    env["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba_side")
    env["PYTHONHASHSEED"] = "4242"
    env["MALLOC_PERTURB_"] = "93"
    err = open(os.path.join(scratch, "server.err"), "w")
    p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "wwmon.checks.c11", scratch], env=env,
                         cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
                         stdout=subprocess.DEVNULL, stderr=err)
    return p


def finish(rep, p, tier, seed, scratch):
    open(os.path.join(scratch, "inbox", "stop"), "w").close()
    try:
        p.wait(timeout=400)
    except subprocess.TimeoutExpired:
        p.kill()
        rep.notes["fresh process timed out"] += 1
        return
    reqs = sorted(glob.glob(os.path.join(scratch, "inbox", "*.req")))
    for q in reqs:
        res = q[:-4] + ".res"
        if not os.path.exists(res):
            rep.bad("the fresh process died (code %s) restoring %s: %s"
                    % (p.returncode, os.path.basename(q), open(os.path.join(scratch, "server.err")).read()[-800:]))
            return
        r = json.load(open(res))
        rep.ev("fresh_process_restores")
        rep.ev("side_evaluations")
        if r["problem"]:
            rep.bad("case %s in a fresh process: %s" % (os.path.basename(q), r["problem"]))
            return


class _C:
    pass


def serve(scratch):
    from wwmon import engine

    engine.import_wildwood()
    inbox = os.path.join(scratch, "inbox")
    t0 = time.time()
    while time.time() - t0 < 3000:
        stop = os.path.exists(os.path.join(inbox, "stop"))
        todo = [q for q in sorted(glob.glob(os.path.join(inbox, "*.req"))) if not os.path.exists(q[:-4] + ".res")]
        for q in todo:
            r = dict(problem=None)
            try:
                d = pickle.load(open(q, "rb"))
                c = _C()
                c.task, c.X, c.Xt = d["task"], d["X"], d["Xt"]
                g = pickle.loads(d["blob"])
                if digest(g, c) != d["want"]:
                    r["problem"] = "after %s the restored forest predicts something else" % d["chain"]
                elif params(g) != d["params"]:
                    r["problem"] = "after %s the restored forest has other parameters" % d["chain"]
                elif d["extra"] is not None:
                    g.step = d["extra"]
                    if digest(g, c) != d["want2"]:
                        r["problem"] = "after %s a change of step acts differently on the restored forest" % d["chain"]
            except Exception as e:
                import traceback

                r["problem"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-800:])
            with open(q[:-4] + ".tmp", "w") as fh:
                json.dump(r, fh)
            os.rename(q[:-4] + ".tmp", q[:-4] + ".res")
        if stop and not todo:
            return
        if not todo:
            if os.getppid() == 1:
                return
            time.sleep(0.1)


if __name__ == "__main__":
    serve(sys.argv[1])
