"""C02: a source that cannot be read in full never yields a deck."""

import gc
import io
import sys

from .. import concfault
from .. import faults as F
from .. import gensrc, loader, model, proc, vfs
from .. import sched as S
from ..core import Violation
from ..deckcheck import require
from .c01 import clamp

ID = "C02"
LEVEL = "fault_enumeration"
RUNS = {"quick": 15000, "thorough": 80000}
SHRINK = concfault.SHRINK + ["faults", "ops", "ops.*.faults", "files", "files.*.lines"]
RULE = ("seeded source trees (some with a missing or unreadable include, an "
        "include cycle or bytes that are not text) and a history of loads, "
        "each with an I/O error, corrupted byte, disappearance or interrupt "
        "at a seeded I/O event or bytecode instruction of that load, followed "
        "by fault-free retries; or 2-3 programs loading at once, preempted "
        "at seeded bytecode instructions and I/O events, with failing reads; "
        "non-trivial: a fault fired inside a load or "
        "the source was broken")
MEASURE = "distinct event-log digests of non-trivial runs"
COMPONENTS = {"real": ["h800/punchcard.py", "h800/arguscard.py",
                       "CPython io stack above the raw file"],
              "stub": ["raw file objects and os.stat (fault seam over a "
                       "scratch directory)", "stdout"]}
ASSUMPTIONS = ["of concurrent loads, one fails only by its own reads",
               "an interrupt is delivered at the points where CPython can "
               "deliver one, not inside with-block clean-up"]

PROF = {"sizes": [0, 1, 3, 5, 8], "mains": [1, 1, 2], "incs": [0, 1, 2, 3],
        "big": 0.05}


def gen(r, i, tier):
    if r.random() < 0.22:
        return concfault.gen(r)
    broken = None
    k = r.random()
    files, mains = gensrc.gen_tree(
        r, PROF if not 0.12 <= k < 0.18 else
        dict(PROF, chain=0.0, big=0.0, incs=[0, 1, 2]))
    if k < 0.12:
        f = r.choice(files)
        f["lines"].insert(r.randint(0, len(f["lines"])),
                          r.choice(["$nosuch.arg", "$sub/nosuch", "$",
                                    "$   ", "$.", "$..", "$sub/"]))
        broken = "missing"
    elif k < 0.18:
        f = r.choice(files)
        tgt = r.choice([f["name"], files[0]["name"]])
        f["lines"].insert(r.randint(0, len(f["lines"])), "$" + tgt)
        if r.random() < 0.3:
            f["lines"].append("$" + tgt)
        broken = "cycle?"
        for f in files:
            f["lines"] = [x for j, x in enumerate(f["lines"])
                          if j < 6 or x.startswith("$")]
    elif k < 0.26:
        f = r.choice(files)
        f["bad"] = r.choice(["ff", "c3", "80", "e2 96"])
        f["badat"] = r.random()
        broken = "bytes"
    ops = []
    for _ in range(r.choice([1, 1, 2, 3])):
        op = {"name": r.choice(mains), "cls": r.choice(["argus", "argus",
                                                       "punch"]),
              "verbose": r.random() < 0.1, "faults": [], "async": None}
        q = r.random()
        if q < 0.62:
            op["faults"] = [F.gen(r, F.READ_KINDS + F.INTR_KINDS)
                            for _ in range(r.choice([1, 1, 1, 2]))]
            if r.random() < 0.2:
                op["faults"].append(F.gen(r, F.BENIGN[:1] + F.BENIGN[3:4]))
        elif q < 0.8 and broken != "cycle?":
            op["async"] = [round(r.random(), 6), r.choice(["KI", "KI", "ME"])]
        ops.append(op)
        if r.random() < 0.6:
            ops.append(dict(op, faults=[], **{"async": None}))
    return {"files": files, "ops": ops, "broken": broken,
            "rchunk": gensrc.gen_chunks(r) if r.random() < 0.3 and
            broken != "cycle?" else None}


def tree(plan):
    files = gensrc.tree_bytes(plan["files"])
    for f in plan["files"]:
        if f.get("bad"):
            b = files[f["name"]]
            bad = bytes.fromhex(f["bad"])
            at = int(f["badat"] * (len(b) + 1))
            # never inside a multi-byte character or a CRLF pair
            while at > 0 and (at < len(b) and b[at] & 0xC0 == 0x80 or
                              b[at - 1:at + 1] == b"\r\n"):
                at -= 1
            files[f["name"]] = b[:at] + bad + b[at:]
    return files


def load(op):
    import h800.punchcard
    import h800.arguscard
    m = h800.arguscard if op["cls"] == "argus" else h800.punchcard
    return m.Deck(file=op["name"], verbose=op["verbose"])


def expected(files, op):
    try:
        return model.load(files, op["name"], argus=op["cls"] == "argus")
    except model.LoadError as e:
        return e


def run(plan, st, root):
    if plan.get("mode") == "conc":
        return concfault.run(plan, st, root, build=False)
    files = tree(plan)
    proc.write_tree(root, files)
    w = vfs.World(root)
    w.max_events = 600000
    vfs.world = w
    chunk = clamp(plan["rchunk"], files)

    # rehearsal with fresh modules: how many events has each load?
    counts = []
    for op in plan["ops"]:
        if not op["faults"] and not op["async"]:
            counts.append(None)
            continue
        loader.forget()
        sys.stdout = io.StringIO()
        p = vfs.Proc(w, 0, (), chunk)
        w.proc = p
        import h800.arguscard       # noqa
        try:
            if op["async"]:
                n = [0]

                def go(op=op):
                    try:
                        load(op)
                    except (Exception, SystemExit):
                        pass
                n = S.count_steps(go)
            else:
                n = 0
                load(op)
        except (Exception, SystemExit):
            pass
        w.proc = None
        counts.append((p.counts, p.nevents, n))
    loader.forget()
    gc.collect()

    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    sch = S.Sched([], max_steps=1 << 50)
    task = S.Task(0, None)
    sch.cur = task
    interesting = False
    final = [{"name": n, "cls": "argus", "verbose": False, "faults": [],
              "async": None}
             for n in dict.fromkeys(op["name"] for op in plan["ops"])]
    for k, op in enumerate(plan["ops"] + final):
        if op["name"] not in files:
            continue
        fl = []
        asy = None
        if k < len(plan["ops"]) and counts[k]:
            c, nev, nst = counts[k]
            fl = F.resolve(op["faults"], c, nev)
            if op["async"] and nst:
                fr, kind = op["async"]
                asy = (1 + int(fr * nst),
                       KeyboardInterrupt if kind == "KI" else MemoryError,
                       1 if kind == "KI" else 2)
        p = vfs.Proc(w, 0, fl, chunk)
        w.proc = p
        exp = expected(files, op)
        what = "load %d of %s" % (k, op["name"])
        err = None
        leaked = []
        d = None
        try:
            if asy is not None:
                task.fired = None
                d = sch.traced(task, load, op, fault=asy)
            else:
                d = load(op)
        except (S.SimHang, S.SimAbort):
            raise Violation("never-ends", what + " did not end within %d I/O "
                            "events" % w.max_events)
        except BaseException as e:
            if type(e).__name__ == "Timeout":
                raise
            if isinstance(e, Violation):
                raise
            err = (type(e).__name__, str(e)[:200])
            if isinstance(e, SystemExit) and e.code in (0, None):
                err = ("SystemExit(0)", "")
            leaked = w.open_handles()
        fired = sum(f.fired for f in fl)
        intr = any(f.fired and f.kind in ("intr", "intr_after", "nomem")
                   for f in fl) or bool(asy is not None and task.fired)
        hardf = any(f.fired and f.kind not in F.SOFT for f in fl) or \
            bool(asy is not None and task.fired)
        st.note(what, err, [(f.kind, f.path, f.fired) for f in fl],
                task.fired if asy else None)
        st.add_proc(p)
        if asy is not None and task.fired:
            st.faults["async:" + op["async"][1]] += 1
        if fired or (asy is not None and task.fired) or \
                isinstance(exp, model.LoadError):
            interesting = True
        w.proc = None
        if err is None:
            if isinstance(exp, model.LoadError):
                raise Violation("partial-deck", "%s returned a deck although "
                                "the source cannot be read in full (%s)" %
                                (what, exp))
            require(d, exp, op["cls"] == "argus", what + (
                " returned although %s" %
                [(f.kind, f.path) for f in fl if f.fired] if hardf else ""),
                cls="partial-deck" if hardf else "deck-wrong")
            if any(f.fired and f.kind in ("intr", "intr_after") for f in fl) \
                    or (asy is not None and task.fired and
                        op["async"][1] == "KI"):
                raise Violation("interrupt-swallowed", what + " returned a "
                                "deck although it was interrupted")
            if hardf:
                for f in fl:
                    if f.fired:
                        st.probes["masked-%s-%s" % (f.cat, f.kind)] += 1
                if asy is not None:
                    st.probes["masked-async-" + op["async"][1]] += 1
            leaked = w_open(p)
        else:
            if err[0] == "SystemExit(0)":
                raise Violation("quiet-failure", what + " asked for exit "
                                "status 0 although the source was not read")
            if not hardf and not isinstance(exp, model.LoadError):
                raise Violation("load-failed", "%s failed without a fault: %s"
                                % (what, err))
            st.probes["loud-failures"] += 1
        if intr and leaked:
            gc.collect()
            leaked = w_open(p)
        if leaked:
            raise Violation("handle-leak", "%s left files open: %s (outcome "
                            "%s)" % (what, leaked, err or "deck"))
        d = None
        p.over = True
        if proc.read_tree(root) != files:
            raise Violation("source-changed", what + " changed a source file")
        if k >= len(plan["ops"]):
            st.probes["retries"] += 1
    st.steps += sch.steps
    st.add_world(w)
    if plan["broken"]:
        st.probes["broken-" + plan["broken"]] += 1
    st.nontrivial = interesting
    st.sig = st.trace.hexdigest()


def w_open(p):
    return sorted(h.path for h in p.handles.values())
