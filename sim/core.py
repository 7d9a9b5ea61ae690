"""Runs seeded plans, in parallel workers, minimises failures, writes replay
files and evidence."""

import copy
import gc
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import loader, sched, vfs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_now = time.monotonic


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class Timeout(BaseException):
    pass


class Stats:
    """What one run reached."""

    def __init__(self):
        self.faults = Counter()
        self.probes = Counter()
        self.known = Counter()
        self.steps = 0
        self.switches = 0
        self.events = 0
        self.simtime = 0.0
        self.nontrivial = False
        self.sig = None
        self.trace = hashlib.blake2b(digest_size=8)
        self.log = []

    def note(self, *what):
        """Event log of the run (feeds the determinism digest)."""
        self.trace.update(repr(what).encode("utf-8", "replace"))
        if len(self.log) < 4000:
            self.log.append(what)

    def add_world(self, w):
        self.events += w.events
        self.simtime += w.simtime
        self.note("io", w.log)

    def add_proc(self, p):
        for k, v in p.fired.items():
            self.faults[k] += v

    def add_sched(self, s):
        self.steps += s.steps
        self.switches += s.nswitch
        self.simtime += s.steps * 1e-6
        self.note("sched", s.steps, s.nswitch, s.digest.hexdigest())


def prop_module(pid):
    return importlib.import_module("sim.props." + pid.lower())


def plan_seed(seed, pid, i):
    h = hashlib.sha256(("%s/%s/%d" % (seed, pid, i)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def make_plan(mod, seed, i, tier):
    s = plan_seed(seed, mod.ID, i)
    r = random.Random(s)
    plan = mod.gen(r, i, tier)
    plan["property"] = mod.ID
    plan["seed"] = s
    return plan


# ---- one run ---------------------------------------------------------------

_scratch = None


def scratch():
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        d = os.path.realpath(tempfile.mkdtemp(prefix="h800sim.", dir=base))
        os.chdir(d)
        _scratch = (os.getpid(), d)
    return _scratch[1]


def drop_scratch():
    global _scratch
    if _scratch is not None and _scratch[0] == os.getpid():
        os.chdir("/")
        shutil.rmtree(_scratch[1], ignore_errors=True)
    _scratch = None


def _alarm(sig, frame):
    raise Timeout()


RUN_LIMIT = 60.0


def run_plan(mod, plan, limit=RUN_LIMIT):
    """Returns (violation or None, Stats)."""
    st = Stats()
    root = scratch()
    plan = copy.deepcopy(plan)
    vfs.world = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    v = None
    try:
        with vfs.patched(plan["seed"]):
            try:
                mod.run(plan, st, root)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                vfs.world = None
                loader.forget()
    except Violation as e:
        v = e
    except Timeout:
        v = Violation("hang", "the run did not end within %.0f s" % limit)
        v.fatal = True
    except sched.SimHang as e:
        v = Violation("hang", str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        v = Violation("unexpected-" + type(e).__name__,
                      "%s at %s\n%s" % (e, where, traceback.format_exc()))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        try:
            os.chdir(root)
        except OSError:
            pass
    st.note("verdict", v.cls if v else None)
    return v, st


def prepare():
    """Once per process."""
    loader.install()
    import fuzzywuzzy.process           # noqa: third party, loaded once
    import fuzzywuzzy.fuzz              # noqa
    import logging
    logging.disable(logging.CRITICAL)
    import optparse, gettext, collections, textwrap     # noqa
    vfs.install()
    sched.warm_up()
    gc.disable()
    sys.setrecursionlimit(1000)


# ---- workers ---------------------------------------------------------------

def _worker(pid, seed, tier, n, w, nw, outdir, deadline, keep_digests,
            first, at):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass
    mod = prop_module(pid)
    res = {"runs": 0, "faults": Counter(), "probes": Counter(),
           "known": Counter(), "steps": 0, "switches": 0, "events": 0,
           "simtime": 0.0, "sigs": set(), "viol": [], "samples": [],
           "digests": {}, "truncated": False, "error": None}
    stop = os.path.join(outdir, "stop")
    try:
        for i in range(first, n, nw):
            at[8 * w:8 * w + 8] = i.to_bytes(8, "little")
            if _now() > deadline:
                res["truncated"] = True
                break
            if res["runs"] % 20 == 0:
                gc.collect()
                if os.path.exists(stop):
                    break
            plan = make_plan(mod, seed, i, tier)
            v, st = run_plan(mod, plan)
            res["runs"] += 1
            res["faults"] += st.faults
            res["probes"] += st.probes
            res["known"] += st.known
            res["steps"] += st.steps
            res["switches"] += st.switches
            res["events"] += st.events
            res["simtime"] += st.simtime
            if st.nontrivial:
                res["sigs"].add(hashlib.blake2b(
                    repr(st.sig if st.sig is not None else plan["seed"])
                    .encode(), digest_size=8).digest())
            if keep_digests:
                res["digests"][i] = st.trace.hexdigest()
            if len(res["samples"]) < 1 and st.nontrivial and w < 3:
                res["samples"].append({"plan": plan,
                                       "log": [list(map(str, x))
                                               for x in st.log[:30]]})
            if v is not None:
                res["viol"].append((i, plan, v.cls, v.msg))
                with vfs._real_open(stop, "w"):
                    pass
                break
    except BaseException:
        res["error"] = traceback.format_exc()
    drop_scratch()
    tmp = os.path.join(outdir, "w%d.tmp" % w)
    with vfs._real_open(tmp, "wb") as f:
        pickle.dump(res, f)
    os.rename(tmp, os.path.join(outdir, "w%d.pkl" % w))


MAX_CRASHES = 200       # per worker
CRASHES = (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL,
           signal.SIGFPE)


def run_batch(pid, seed, tier, n, nw, budget, keep_digests=False):
    outdir = tempfile.mkdtemp(prefix="h800batch.")
    t0 = _now()
    deadline = t0 + budget
    kids = {}
    crashes = []
    killed = False
    at = mmap.mmap(-1, 8 * nw)

    def start(w, first):
        k = os.fork()
        if k == 0:
            code = 0
            try:
                _worker(pid, seed, tier, n, w, nw, outdir, deadline,
                        keep_digests, first, at)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                os._exit(code)
        kids[k] = w

    try:
        for w in range(nw):
            start(w, w)
        while kids:
            try:
                k, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                break
            if k in kids:
                w = kids.pop(k)
                if os.WIFSIGNALED(status) and not killed and \
                        os.WTERMSIG(status) in CRASHES and \
                        sum(c[0] == w for c in crashes) < MAX_CRASHES:
                    # the interpreter itself failed; that run is not judged
                    i = int.from_bytes(at[8 * w:8 * w + 8], "little")
                    crashes.append((w, i, os.WTERMSIG(status)))
                    start(w, i + nw)
            elif _now() > deadline + 3 * RUN_LIMIT:
                killed = True
                for k in kids:
                    os.kill(k, signal.SIGKILL)
            else:
                time.sleep(0.02)
        for w, i, sig in crashes:
            print("NOTE: run %d ended the interpreter with signal %d and is "
                  "not judged" % (i, sig))
        results = []
        for w in range(nw):
            p = os.path.join(outdir, "w%d.pkl" % w)
            if os.path.exists(p):
                with open(p, "rb") as f:
                    results.append(pickle.load(f))
            else:
                results.append({"error": "worker %d left no result" % w})
        for r in results:
            if "probes" in r and crashes:
                r["probes"]["runs lost to an interpreter crash"] = \
                    len(crashes)
                break
        return results, _now() - t0
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


# ---- minimiser -------------------------------------------------------------

def _lists(plan, paths):
    """Yields (container, key) for every list addressed by the patterns in
    paths, e.g. 'ops', 'files.*.lines'."""
    for pat in paths:
        nodes = [plan]
        parts = pat.split(".")
        for part in parts[:-1]:
            nxt = []
            for nd in nodes:
                if part == "*":
                    nxt.extend(nd if isinstance(nd, list) else nd.values())
                elif isinstance(nd, dict) and part in nd:
                    nxt.append(nd[part])
            nodes = nxt
        for nd in nodes:
            if parts[-1] == "*":
                if isinstance(nd, list):
                    for j, x in enumerate(nd):
                        if isinstance(x, list):
                            yield nd, j
            elif isinstance(nd, dict) and \
                    isinstance(nd.get(parts[-1]), list):
                yield nd, parts[-1]


def minimise(mod, plan, cls, budget=60.0, max_tries=1500):
    t0 = _now()
    tries = 0
    best = copy.deepcopy(plan)

    def fails(p):
        nonlocal tries
        tries += 1
        if tries % 20 == 0:
            gc.collect()
        v, _ = run_plan(mod, p, limit=15.0)
        return v is not None and v.cls == cls

    def spent():
        return _now() - t0 > budget or tries > max_tries

    changed = True
    while changed and not spent():
        changed = False
        for simpl in getattr(mod, "simplify", lambda p: [])(
                copy.deepcopy(best)):
            if spent():
                break
            if simpl != best and fails(simpl):
                best = simpl
                changed = True
                break
        nl = len(list(_lists(best, mod.SHRINK)))
        for li in range(nl):
            refs = list(_lists(best, mod.SHRINK))
            if li >= len(refs) or spent():
                break
            c, k = refs[li]
            size = len(c[k])
            step = size
            while step >= 1 and not spent():
                pos = 0
                while not spent():
                    refs = list(_lists(best, mod.SHRINK))
                    if li >= len(refs):
                        break
                    c, k = refs[li]
                    if pos >= len(c[k]):
                        break
                    cand = copy.deepcopy(best)
                    cc, ck = list(_lists(cand, mod.SHRINK))[li]
                    del cc[ck][pos:pos + step]
                    if fails(cand):
                        best = cand
                        changed = True
                    else:
                        pos += step
                step //= 2
    return best, tries


# ---- the check -------------------------------------------------------------

def check(pid, tier, seed, nw, runs=None, budget=None):
    mod = prop_module(pid)
    n = runs if runs is not None else mod.RUNS[tier]
    if budget is None:
        budget = 420.0 if tier == "quick" else 780.0
    t0 = _now()
    print("check %s tier=%s VERIF_SEED=%s runs=%d workers=%d repo=%s" %
          (pid, tier, seed, n, nw, loader.REPO), flush=True)
    prepare()
    results, wall = run_batch(pid, seed, tier, n, nw, budget)
    errs = [r["error"] for r in results if r.get("error")]
    good = [r for r in results if "runs" in r]
    tot = {"runs": 0, "steps": 0, "switches": 0, "events": 0, "simtime": 0.0}
    faults, probes, known = Counter(), Counter(), Counter()
    sigs, samples, viol = set(), [], []
    trunc = False
    for r in good:
        for k in tot:
            tot[k] += r[k]
        faults += r["faults"]
        probes += r["probes"]
        known += r["known"]
        sigs |= r["sigs"]
        samples += r["samples"]
        viol += r["viol"]
        trunc = trunc or r["truncated"]
    viol.sort(key=lambda x: x[0])
    rc = 0
    replay = None
    if viol:
        replay, rc = report(mod, viol, tier, seed)
    elif errs:
        for e in errs:
            print("HARNESS ERROR\n" + e)
        rc = 2
    wall_all = _now() - t0
    write_evidence(mod, tier, seed, tot, faults, probes, known, sigs, samples,
                   wall, wall_all, trunc, 1 if rc == 1 else 0, nw)
    kf = getattr(mod, "KNOWN", {})
    for k in sorted(known):
        if known[k]:
            print("KNOWN-FINDING: property=%s %s" % (pid, kf.get(k, k)))
    print("%s: %d runs, %d distinct non-trivial, %d steps, %d I/O events, "
          "%.1f s%s" % (pid, tot["runs"], len(sigs), tot["steps"],
                        tot["events"], wall_all,
                        " (stopped at the time budget)" if trunc else ""))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    return rc


def report(mod, viol, tier, seed):
    outdir = os.path.join(VERIF, "out")
    os.makedirs(outdir, exist_ok=True)
    for i, plan, cls, msg in viol[:6]:
        path = os.path.join(outdir, "%s-%s-%d.json" % (mod.ID, seed, i))
        print("run %d (seed %d) violates %s: [%s] %s" %
              (i, plan["seed"], mod.ID, cls, msg[:1500]), flush=True)
        cands = []
        if cls != "hang":
            small = _minimise_in_child(mod, plan, cls)
            if small is not None:
                cands.append((small, True))
        cands.append((plan, False))
        for p, mini in cands:
            v = _explain_in_child(mod, p)
            doc = {"property": mod.ID, "class": cls, "index": i,
                   "verif_seed": seed, "tier": tier, "minimised": mini,
                   "violation": v[1] if v else msg, "trace": v[2] if v else [],
                   "plan": p}
            with open(path, "w") as f:
                json.dump(doc, f, indent=1)
            rc = subprocess.call(
                [sys.executable, os.path.join(VERIF, "check.py"), "--replay",
                 path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if rc == 1:
                print("minimised trace (%s):" % path)
                if v:
                    print("  " + v[1][:1500])
                return path, 1
    print("HARNESS ERROR: a violation did not replay in a fresh process")
    return None, 2


def _in_child(fn):
    rfd, wfd = os.pipe()
    k = os.fork()
    if k == 0:
        try:
            os.close(rfd)
            data = pickle.dumps(fn())
            with vfs._real_open(wfd, "wb", closefd=True) as f:
                f.write(data)
        except BaseException:
            pass
        finally:
            drop_scratch()
            os._exit(0)
    os.close(wfd)
    with vfs._real_open(rfd, "rb") as f:
        data = f.read()
    os.waitpid(k, 0)
    return pickle.loads(data) if data else None


def _minimise_in_child(mod, plan, cls):
    return _in_child(lambda: minimise(mod, plan, cls)[0])


def _explain_in_child(mod, plan):
    def go():
        v, st = run_plan(mod, plan)
        if v is None:
            return None
        return v.cls, "[%s] %s" % (v.cls, v.msg), \
            [list(map(str, x)) for x in st.log[:200]]
    return _in_child(go)


def write_evidence(mod, tier, seed, tot, faults, probes, known, sigs, samples,
                   wall, wall_all, trunc, nviol, nw):
    hours = max(wall, 1e-6) / 3600.0
    ev = {
        "property": mod.ID, "tier": tier, "seed": int(seed),
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:2] or [{"note": "no non-trivial run"}],
            "simulated_runs_per_hour": int(tot["runs"] / hours),
            "seeds_per_hour": int(tot["runs"] / hours),
            "simulated_seconds": round(tot["simtime"], 6),
            "instructions_stepped": tot["steps"],
            "context_switches": tot["switches"],
            "io_events": tot["events"],
            "faults_fired": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "distinct_measure": mod.MEASURE,
            "components": mod.COMPONENTS,
            "known_findings_seen": dict(known),
            "workers": nw,
            "stopped_at_time_budget": trunc,
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall_all, 3),
        "violations": nviol,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, mod.ID + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, mod.ID + ".json"))


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    mod = prop_module(doc["property"])
    prepare()
    v, st = run_plan(mod, doc["plan"])
    drop_scratch()
    for x in st.log[:200]:
        print("  ", *x)
    if v is None:
        print("replay: property %s held" % doc["property"])
        return 0
    print("[%s] %s" % (v.cls, v.msg))
    if v.cls != doc["class"]:
        print("replay: a different violation class (recorded %s)" %
              doc["class"])
    print("VIOLATION property=%s replay=%s" % (doc["property"], path))
    return 1
