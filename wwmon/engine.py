"""Runner shared by all the checks.

A check is a module wwmon.checks.cNN exposing

    TECHNIQUE, RULE, ASSUMPTIONS            strings for the evidence file
    QUICK, THOROUGH                         dicts: seconds (budget of the workload), max_cases
    directed(tier)                          list of names of hand-written hostile cases
    run_case(rep, rng, name, tier)          runs one case (a directed one, or name=None: a random one)
    optional: prepare(tier, seed, scratch)  started before the import of wildwood (side processes)
    optional: finish(rep, state, tier, seed, scratch)   after the workers, in the parent
    optional: needs_warm(tier) -> bool

The parent imports wildwood from /repo (numba compiles it from the current sources), warms up the
lazily compiled entry points with single-threaded calls and forks one worker per core.  Workers take
case numbers until the budget is used and send one record per case to the parent.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
EVID = os.path.join(VERIF, "evidence")
CASE_LIMIT_S = 150.0


class Rep:
    """What the monitors saw during one case."""

    def __init__(self, case_id):
        self.case_id = case_id
        self.events = collections.Counter()
        self.violations = []
        self.sig = None
        self.nontrivial = False
        self.sample = None
        self.notes = collections.Counter()

    def ev(self, name, n=1):
        self.events[name] += int(n)

    def bad(self, msg):
        if len(self.violations) < 5:
            self.violations.append(str(msg)[:1500])

    def check(self, cond, msg, ev=None):
        if ev is not None:
            self.events[ev] += 1
        if not bool(cond):
            self.bad(msg() if callable(msg) else msg)
            return False
        return True

    def set_sig(self, *parts):
        h = hashlib.blake2b(digest_size=12)
        for p in parts:
            if hasattr(p, "tobytes"):
                h.update(p.tobytes())
            else:
                h.update(repr(p).encode())
        self.sig = h.hexdigest()


class Inconclusive(Exception):
    pass


def case_rng(prop, seed, case_id):
    import numpy as np

    h = hashlib.blake2b(("%s|%s|%s" % (prop, seed, case_id)).encode(), digest_size=8)
    return np.random.RandomState(int.from_bytes(h.digest()[:4], "little"))


def import_wildwood():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import wildwood

    assert os.path.realpath(wildwood.__file__).startswith(REPO + "/"), wildwood.__file__
    return wildwood


def warm(mod):
    from wwmon import warmup

    warmup.warm()


def run_one(mod, prop, seed, case_id, name, tier):
    rep = Rep(case_id)
    rng = case_rng(prop, seed, case_id)
    try:
        mod.run_case(rep, rng, name, tier)
    except Inconclusive as e:
        rep.notes["inconclusive: " + str(e)[:200]] += 1
    except AttributeError as e:
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        inside = tb.tb_frame.f_code.co_filename.startswith(VERIF)
        if inside and str(getattr(e, "name", "") or "").startswith("_"):
            # the harness itself looked for a private name that is gone: nothing was observed
            rep.notes["inconclusive: private attribute %s not found" % e.name] += 1
        else:
            rep.bad("unexpected AttributeError: %s\n%s" % (str(e)[:300], traceback.format_exc()[-1500:]))
    except Exception as e:  # the harness only makes calls the property allows: an exception is a finding
        rep.bad(
            "unexpected %s: %s\n%s"
            % (type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
        )
    return rep


def pack(rep):
    return dict(
        case=rep.case_id,
        events=dict(rep.events),
        violations=rep.violations,
        sig=rep.sig,
        nontrivial=bool(rep.nontrivial),
        sample=rep.sample,
        notes=dict(rep.notes),
    )


def worker(modname, prop, seed, tier, wid, tasks, out, cur, deadline, max_random, nworkers):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mod = importlib.import_module(modname)
    try:
        import faulthandler

        faulthandler.disable()
    except Exception:
        pass
    # directed cases first
    names, nxt = tasks
    while True:
        with nxt.get_lock():
            j = nxt.value
            nxt.value += 1
        if j >= len(names):
            break
        name = names[j]
        cid = "d:" + name
        cur[wid].value = ("d:" + name).encode()[:90]
        out.put(("start", wid, cid, time.time()))
        out.put(("case", wid, pack(run_one(mod, prop, seed, cid, name, tier))))
    k = wid
    while k < max_random and time.time() < deadline:
        cid = "r:%d" % k
        cur[wid].value = cid.encode()
        out.put(("start", wid, cid, time.time()))
        out.put(("case", wid, pack(run_one(mod, prop, seed, cid, None, tier))))
        k += nworkers
    out.put(("done", wid, None))


def load_known():
    """known-findings: lines 'finding: property=<id> key=<mechanism key> :: text' (see KNOWN_FINDINGS.txt)."""
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    known = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                head, _, text = line[len("finding: "):].partition(" :: ")
                kv = dict(t.split("=", 1) for t in head.split())
                known.append((kv["property"], kv["key"], text))
    return known


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed, tier = replay["seed"], replay["tier"]
    scratch = os.environ["WWMON_SCRATCH"]
    modname = "wwmon.checks." + prop.lower()
    os.makedirs(EVID, exist_ok=True)
    mod = importlib.import_module(modname)
    budget = dict(mod.THOROUGH if tier == "thorough" else mod.QUICK)
    if os.environ.get("WWMON_SECONDS"):
        budget["seconds"] = float(os.environ["WWMON_SECONDS"])

    state = mod.prepare(tier, seed, scratch) if hasattr(mod, "prepare") else None

    if getattr(mod, "WARM", True):
        import_wildwood()
        warm(mod)
    t_warm = time.time() - t0

    if replay is not None:
        rep = run_one(mod, prop, seed, replay["case"], replay.get("name"), tier)
        if hasattr(mod, "finish"):
            mod.finish(rep, state, tier, seed, scratch)
        for v in rep.violations:
            print("reproduced:", v)
        print("REPLAY", "violated" if rep.violations else "not reproduced")
        return 1 if rep.violations else 0

    nw = int(os.environ.get("WWMON_WORKERS", "8"))
    nw = min(nw, getattr(mod, "MAX_WORKERS", nw))
    ctx = mp.get_context("fork")
    out = ctx.Queue()
    names = list(mod.directed(tier))
    tasks = (names, ctx.Value("i", 0))
    cur = [ctx.Array("c", 96) for _ in range(nw)]
    deadline = time.time() + budget["seconds"]
    procs = []
    for w in range(nw):
        p = ctx.Process(
            target=worker,
            args=(modname, prop, seed, tier, w, tasks, out, cur, deadline,
                  budget.get("max_cases", 10 ** 9), nw),
            daemon=False,
        )
        p.start()
        procs.append(p)

    events = collections.Counter()
    notes = collections.Counter()
    sigs = set()
    nontrivial_sigs = set()
    evaluations = 0
    samples = []
    violations = []
    done = set()
    started = {}
    while len(done) < nw:
        try:
            msg = out.get(timeout=1.0)
        except queue.Empty:
            msg = None
        if msg is not None:
            if msg[0] == "start":
                started[msg[1]] = (msg[2], msg[3])
            elif msg[0] == "done":
                done.add(msg[1])
                started.pop(msg[1], None)
            else:
                r = msg[2]
                started.pop(msg[1], None)
                evaluations += 1
                events.update(r["events"])
                notes.update(r["notes"])
                if r["sig"] is not None:
                    sigs.add(r["sig"])
                    if r["nontrivial"]:
                        nontrivial_sigs.add(r["sig"])
                if r["sample"] is not None and len(samples) < 6:
                    samples.append(r["sample"])
                for v in r["violations"]:
                    violations.append((r["case"], v))
                if len(violations) >= 40:
                    for p in procs:
                        if p.is_alive():
                            p.kill()
                    break
            continue
        for w, p in enumerate(procs):
            if w in done:
                continue
            if not p.is_alive():
                # drain what it sent before dying
                time.sleep(0.2)
                if p.exitcode == 0:
                    done.add(w)
                    continue
                cid = cur[w].value.decode(errors="replace")
                done.add(w)
                violations.append(
                    (cid, "the process running this case died (exit code %s: %s)"
                     % (p.exitcode, signal.Signals(-p.exitcode).name if p.exitcode < 0 else "exit"))
                )
            elif w in started and time.time() - started[w][1] > CASE_LIMIT_S:
                cid = started[w][0]
                p.kill()
                done.add(w)
                violations.append(
                    (cid, "no answer within %d s (typical cases take milliseconds)" % CASE_LIMIT_S)
                )
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()

    if hasattr(mod, "finish"):
        rep = Rep("finish")
        try:
            mod.finish(rep, state, tier, seed, scratch)
        except Inconclusive as e:
            rep.notes["inconclusive: " + str(e)[:200]] += 1
        except Exception as e:
            rep.bad("unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        events.update(rep.events)
        notes.update(rep.notes)
        evaluations += rep.events.get("side_evaluations", 0)
        for v in rep.violations:
            violations.append(("finish", v))

    known = [(k, t) for (p_, k, t) in load_known() if p_ == prop]
    fresh, seen_known = [], collections.Counter()
    for cid, v in violations:
        hit = [(k, t) for k, t in known if ("[key:%s]" % k) in v]
        if hit:
            seen_known[hit[0]] += 1
        else:
            fresh.append((cid, v))

    required = list(getattr(mod, "REQUIRED", []))
    missing = [k for k in required if events.get(k, 0) == 0]
    wall = time.time() - t0
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=int(evaluations),
            distinct_nontrivial=len(nontrivial_sigs),
            rule=mod.RULE,
            samples=samples,
            directed_cases=len(names),
            distinct_cases=len(sigs),
            monitor_events={k: int(v) for k, v in sorted(events.items())},
            notes={k: int(v) for k, v in sorted(notes.items())},
            required_monitors_not_reached=missing,
            compile_and_warmup_s=round(t_warm, 1),
            workers=nw,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=len(fresh),
    )
    if seen_known:
        evidence["coverage"]["known_findings_seen"] = {k: n for (k, _), n in seen_known.items()}
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)

    for (k, t), n in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    if fresh:
        cid, v = fresh[0]
        path = os.path.join(EVID, "replay-%s-%d.json" % (prop, seed))
        with open(path, "w") as fh:
            json.dump(
                dict(property=prop, seed=seed, tier=tier, case=cid,
                     name=cid[2:] if cid.startswith("d:") else None,
                     violation=v, all=[list(x) for x in fresh[:20]]),
                fh, indent=1)
        for cid, v in fresh[:3]:
            print("violated in case %s: %s" % (cid, v))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if not nontrivial_sigs:
        print("INCONCLUSIVE property=%s: nothing was observed; notes: %s" % (prop, dict(notes.most_common(3))))
        return 2
    if missing:  # recorded in the evidence file; what was explored held
        print("NOTE property=%s monitors never reached: %s" % (prop, missing))
    print("OK property=%s cases=%d distinct_nontrivial=%d events=%d wall=%.1fs"
          % (prop, evaluations, len(nontrivial_sigs), sum(events.values()), wall))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
