"""C08: page generation only ever appends, and never loses source text."""

from .. import faults as F
from .. import gensrc, loader, model, proc, toolrun, vfs
from .. import sched as S
from ..core import Violation
from ..tools import short

ID = "C08"
LEVEL = "fault_enumeration"
RUNS = {"quick": 18000, "thorough": 80000}
SHRINK = ["switches", "ops", "ops.*.faults", "file.lines"]
RULE = ("seeded source files (with and without log section, file name and "
        "page range) and either a history of page-generator runs, each with "
        "read, open, write and close errors, full disk, torn writes, "
        "interrupts and kills at seeded I/O events or instructions, or 2-3 "
        "simultaneous runs on the same file switched at seeded I/O events, "
        "with faults; the file is examined after every I/O event; "
        "non-trivial: the file was appended to, and a fault fired or two "
        "processes were interleaved")
MEASURE = "distinct (event log, schedule) digests of non-trivial runs"
COMPONENTS = {"real": ["tools/genpages.py", "h800/arguscard.py",
                       "h800/punchcard.py", "optparse", "CPython io stack"],
              "stub": ["raw files, os calls on paths and standard streams",
                       "process scheduling, exit and kill"]}
ASSUMPTIONS = ["a file has at most one '# Pages:' line, of the form N or N-M, "
               "and its log section is not blank",
               "a write call that returned survives a kill of the process "
               "(page cache); a lost tail is announced by an error on close",
               "simultaneous blocks larger than the I/O buffer may be "
               "interleaved in pieces"]

KINDS = F.READ_KINDS + F.WRITE_KINDS * 3 + F.INTR_KINDS * 3 + \
    F.KILL_KINDS[:3] * 4
PAR_KINDS = [k for k in KINDS if k[1] != "lost"]


def gen_file(r, name, small=False):
    prof = {"label": 0.5}
    lines = []
    for _ in range(r.choice([0, 2, 5, 9, 40])):
        ln = gensrc.gen_card(r, prof)
        if ln[:1] == "L" and r.random() < 0.7:
            ln = " " + ln[1:]
        lines.append(ln)
        if r.random() < 0.1:
            lines.append("# " + gensrc.word(r, 1, 30))
        if r.random() < 0.05:
            lines.append("$other.arg")
    if r.random() < 0.6:
        ln = "L" + " " * 6 + r.choice("@* A1") + gensrc.word(r, 1, 8) + \
            " " + gensrc.word(r, 1, r.choice([8, 30, 62]))
        lines.insert(r.randint(0, len(lines)), ln)
    if r.random() < 0.75:
        lines.insert(r.randint(0, min(3, len(lines))), "# Filename: " +
                     r.choice(["YUL_SYSTEM.arg", "pass_1.v2.arg", "PLAIN",
                               "a_b_c.argus", "dir/deck.arg"]) +
                     r.choice(["", "", "  rest", " "]))
    k = r.random()
    if k < 0.9:
        a = r.choice([1, 3, 98, 999, r.randint(1, 9999)])
        n = r.choice([0, 0, 1, 2, 3] if small else
                     [0, 1, 2, 5, 11, 12, 60, 80, 130])
        pages = "# Pages: " + r.choice(
            ["%d-%d" % (a, a + n), "%d-%d" % (a, a + n), "%d" % a,
             "%d-%d extra" % (a, a + n)])
        if r.random() < 0.06:
            pages = r.choice(["# Pages: 9-3", "# Pages: 9-8", "# Pages: %d-%d" % (a + 1, a),
                              "# Pages: x", "# Pages: ",
                              "# Pages: 3-", "# Pages: a-b", "# Pages:7"])
        lines.insert(r.randint(0, len(lines)), pages)
    return {"name": name, "lines": lines,
            "eol": "crlf" if r.random() < 0.06 else "lf",
            "last": r.random() < 0.8}


def gen(r, i, tier):
    par = r.random() < 0.45
    plan = {"mode": "par" if par else "seq",
            "file": gen_file(r, "deck.arg", par and r.random() < 0.7),
            "ops": [], "switches": []}
    kinds = PAR_KINDS if par else KINDS
    if par:
        for _ in range(r.choice([2, 2, 3])):
            op = {"faults": [], "async": None}
            if r.random() < 0.35:
                op["faults"] = [F.gen(r, kinds)]
            elif r.random() < 0.2:
                op["faults"] = [F.gen(r, F.BENIGN)]
            op["rchunk"] = gensrc.gen_chunks(r) if r.random() < 0.3 else None
            op["wchunk"] = gensrc.gen_chunks(r) if r.random() < 0.2 else None
            plan["ops"].append(op)
        plan["switches"] = [[1 + int(r.expovariate(1.0 / r.choice([2, 5]))),
                             r.randrange(6)]
                            for _ in range(r.choice([1, 3, 8, 20]))]
    else:
        for _ in range(r.choice([1, 2, 3])):
            op = toolrun.gen_runs(r, kinds, 1)[0]
            if r.random() < 0.2:
                op = {"faults": [], "async": None}
            op["rchunk"] = gensrc.gen_chunks(r) if r.random() < 0.2 else None
            op["wchunk"] = gensrc.gen_chunks(r) if r.random() < 0.2 else None
            plan["ops"].append(op)
        plan["retry"] = r.random() < 0.6
        if r.random() < 0.004:
            # very many pages (delivered in large pieces)
            plan["file"]["lines"] = [
                "# Pages: 7-%d" % r.choice([1060, 2100])
                if x.startswith("# Pages: ") else x
                for x in plan["file"]["lines"]]
            plan["ops"] = plan["ops"][:1]
            for op in plan["ops"]:
                op["rchunk"] = op["wchunk"] = None
    return plan


JOB = {"tool": "genpages", "opts": [], "key": None, "args": ["deck.arg"]}
NAME = "deck.arg"
EXTRA = {"other.arg": b" other\n", "deck.lst": b"keep\n", "x/deck.arg": b"z"}


def clamp(ch, data, lo):
    return [max(c, lo, len(data) // 200) for c in ch] if ch else None


def unspecified(data):
    """A log section that a torn block left blank: what a further run makes of
    it is not specified."""
    try:
        sec, _ = model.log_section(model.from_lines(model.split_lines(data)))
    except model.LoadError:
        return False
    return sec is not None and sec.strip() == ""


def always_prefix(w, base, what):
    for ev, data in w.versions:
        if data is None or not data.startswith(base):
            raise Violation("text-lost", "%s: after I/O event %d the file "
                            "was %r; before the run it was %r" % (
                                what, ev, short(data), short(base)))


def others(root, what):
    t = proc.read_tree(root)
    for n in sorted(set(t) | set(EXTRA)):
        if n != NAME and t.get(n) != EXTRA.get(n):
            raise Violation("file-changed", "%s: file %s was changed" %
                            (what, n))
    return t.get(NAME)


def run_seq(plan, st, root, w):
    data = gensrc.encode(dict(plan["file"], name=NAME))
    ops = list(plan["ops"])
    if plan.get("retry"):
        ops.append({"faults": [], "async": None, "rchunk": None,
                    "wchunk": None})
    hit = grown = 0
    for k, op in enumerate(ops):
        rch, wch = clamp(op["rchunk"], data, 1), clamp(op["wchunk"], data, 20)
        tree = dict(EXTRA)
        tree[NAME] = data
        block = model.page_block(data)
        free = unspecified(data)
        fl, as_ = [], None
        if op["faults"] or op["async"]:
            w.track = None
            r, after, p, (steps, _) = toolrun.one(
                w, root, tree, JOB, (), rch, wch, None, bool(op["async"]))
            fl = F.resolve(op["faults"], p.counts, p.nevents)
            if op["async"]:
                as_ = (1 + int(op["async"][0] * steps), op["async"][1])
        w.track = NAME
        w.versions = []
        r, after, p, (n, fired) = toolrun.one(w, root, tree, JOB, fl, rch,
                                              wch, as_)
        st.steps += n
        w.track = None
        hard = [(f.cat, f.kind, f.path) for f in fl
                if f.fired and f.kind not in F.SOFT]
        if fired:
            hard.append(("async", as_[1], fired[0]))
            st.faults["async:" + as_[1]] += 1
        st.add_proc(p)
        what = "run %d%s" % (k, " (%s)" % hard if hard else "")
        st.note(what, r.exit, r.exc, len(data))
        if w.escapes:
            raise Violation("file-changed", "%s: tried to change %s" %
                            (what, w.escapes))
        now = others(root, what)
        always_prefix(w, data, what)
        if now is None or not now.startswith(data):
            raise Violation("text-lost", "%s: the file was %r and is now %r"
                            % (what, short(data), short(now)))
        if free:
            data = now
            continue
        if r.killed:
            pass
        elif r.exit == 0:
            if block is None:
                raise Violation("quiet-failure", what + ": exit status 0 "
                                "although no page block can be determined")
            if now != data + block:
                raise Violation(
                    "silent-loss" if hard else "block-wrong",
                    "%s: exit status 0, but appended %r, expected %r" % (
                        what, short(now[len(data):]), short(block)))
            grown += 1
        else:
            if not hard and block is not None:
                raise Violation("failed", "%s: exit status %s without any "
                                "fault: %s %s" % (what, r.exit, r.exc,
                                                  r.err[-200:]))
        if block is None and now != data:
            raise Violation("file-changed", "%s: appended %r although no page "
                            "block can be determined" %
                            (what, short(now[len(data):])))
        if block is None:
            st.probes["refused"] += 1
        elif now != data:
            st.probes["full-blocks" if now == data + block else
                      "partial-blocks"] += 1
            hit += bool(hard)
        data = now
    st.nontrivial = bool(hit or grown) and any(
        o["faults"] or o["async"] for o in ops)


def run_par(plan, st, root, w):
    data = gensrc.encode(dict(plan["file"], name=NAME))
    tree = dict(EXTRA)
    tree[NAME] = data
    block = model.page_block(data)
    # rehearsal: event counts of one undisturbed run
    r, after, p0, _ = toolrun.one(w, root, tree, JOB, (), None, None)
    proc.write_tree(root, tree)
    w.track = NAME
    w.versions = []
    w.note()
    ctxs, results, spans = [], {}, {}

    def on_switch(cur, nxt):
        if cur is not None:
            ctxs[cur.idx].leave()
        ctxs[nxt.idx].enter()
    sch = S.Sched(plan["switches"], on_switch=on_switch)
    procs = []
    flts = []
    for k, op in enumerate(plan["ops"]):
        fl = F.resolve(op["faults"], p0.counts, p0.nevents)
        flts.append(fl)
        p = vfs.Proc(w, k, fl, clamp(op["rchunk"], data, 1),
                     clamp(op["wchunk"], data, 200))
        procs.append(p)
        ctxs.append(proc.Context(p, w, [loader.tool_path("genpages"), NAME]))

        def go(t, k=k):
            a = len(w.versions) - 1
            results[k] = proc.execute(ctxs[k], "genpages")
            spans[k] = (a, len(w.versions))
        sch.spawn(go)
    w.sched = sch
    w.escapes = []
    try:
        sch.run()
    finally:
        w.sched = None
        w.proc = None
        w.track = None
    for p in procs:
        st.add_proc(p)
    st.add_sched(sch)
    what = "%d simultaneous runs" % len(procs)
    for k in sorted(results):
        st.note(k, results[k].exit, results[k].exc)
    if w.escapes:
        raise Violation("file-changed", "%s: tried to change %s" %
                        (what, w.escapes))
    now = others(root, what)
    always_prefix(w, data, what)
    if now is None or not now.startswith(data):
        raise Violation("text-lost", "%s: the file was %r and is now %r"
                        % (what, short(data), short(now)))
    grows = [v for _, v in w.versions]
    for a, b in zip(grows, grows[1:]):
        if not b.startswith(a):
            raise Violation("text-lost", "%s: the file was %r and became %r" %
                            (what, short(a), short(b)))
    cands = []
    full = []
    free = False
    for k in sorted(results):
        r = results[k]
        vs = grows[max(spans[k][0], 0):spans[k][1]]
        free = free or any(unspecified(v) for v in vs)
        blocks = {model.page_block(v) for v in vs}
        hard = [(f.cat, f.kind, f.path) for f in flts[k]
                if f.fired and f.kind not in F.SOFT]
        done = [b for b in blocks if b is not None]
        if r.killed:
            cands.append((done, False))
        elif r.exit == 0:
            if not done and not free:
                raise Violation("quiet-failure", "run %d: exit status 0 "
                                "although no page block can be determined" %
                                k)
            cands.append((done, True))
            full.append(k)
        else:
            if not hard and None not in blocks and not free:
                raise Violation("failed", "run %d: exit status %s without any "
                                "fault: %s" % (k, r.exit, r.exc))
            cands.append((done, False))
    if free:
        return
    tail = now[len(data):]
    if not merges(tail, cands):
        raise Violation("silent-loss" if any(f for f in flts) else
                        "block-wrong", "%s, of which %s ended with exit "
                        "status 0, left %r at the end of the file; a block "
                        "is %r" % (what, full, short(tail), short(block or
                                                                 b"")))
    st.probes["simultaneous"] += 1
    st.probes["simultaneous-successes"] += len(full)
    st.nontrivial = len(tail) > 0 and sch.nswitch > 0


def merges(tail, cands):
    """Is tail a merge of one block per process (complete for those marked,
    any prefix for the others)?"""
    import itertools
    for pick in itertools.product(*[c[0] or [b""] for c in cands]):
        front = {tuple(0 for _ in pick)}
        lens = [len(b) for b in pick]
        for ch in tail:
            nxt = set()
            for pos in front:
                for k, b in enumerate(pick):
                    i = pos[k]
                    if i < lens[k] and b[i] == ch:
                        nxt.add(pos[:k] + (i + 1,) + pos[k + 1:])
            # identical blocks are interchangeable
            front = {norm(pos, pick, cands) for pos in nxt}
            if not front:
                break
            if len(front) > 4000:
                return True         # too ambiguous to decide
        if any(all(i == n for i, n, c in zip(pos, lens, cands) if c[1])
               for pos in front):
            return True
    return False


def norm(pos, pick, cands):
    groups = {}
    for k, b in enumerate(pick):
        groups.setdefault((b, cands[k][1]), []).append(k)
    out = list(pos)
    for ks in groups.values():
        for k, v in zip(ks, sorted((pos[k] for k in ks), reverse=True)):
            out[k] = v
    return tuple(out)


def run(plan, st, root):
    w = vfs.World(root)
    vfs.world = w
    if plan["mode"] == "seq":
        run_seq(plan, st, root, w)
    else:
        run_par(plan, st, root, w)
    st.add_world(w)
    st.sig = st.trace.hexdigest()
