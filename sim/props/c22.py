"""C22: tools running at the same time do not disturb each other."""

from .. import faults as F
from .. import gensrc, loader, proc, toolrun, tools, vfs
from .. import sched as S
from ..core import Violation
from . import c07, c08, c09

ID = "C22"
LEVEL = "fault_enumeration"
RUNS = {"quick": 13000, "thorough": 70000}
SHRINK = ["switches", "jobs", "jobs.*.faults", "jobs.*.opts", "jobs.*.args",
          "again", "extra", "files", "files.*.lines"]
RULE = ("a seeded source tree and 2-4 simulated processes of the nine tools "
        "on it (several may read the same sources; no two write the same "
        "file), switched at seeded I/O events, some hit by read, write, "
        "output errors, full disk, interrupts or kills, then some of the jobs "
        "once more alone; non-trivial: at least one switch between processes "
        "and at least two of them with output")
MEASURE = "distinct (event log, schedule) digests of non-trivial runs"
COMPONENTS = {"real": c09.COMPONENTS["real"],
              "stub": ["raw files, os calls on paths and standard streams",
                       "process scheduling, exit and kill"]}
ASSUMPTIONS = ["no two processes write the same listing or append to the "
               "same file (C08 covers the latter), and none reads a file "
               "that another appends to"] + c09.ASSUMPTIONS

PROF = {"sizes": [2, 4, 8, 14], "mains": [2, 3, 4], "big": 0.02, "huge": 0.0,
        "mass": 0.0, "names": c07.NAMES}
DECK = "pages/deck.arg"


def gen(r, i, tier):
    files, mains = gensrc.gen_tree(r, PROF)
    jobs = []
    left = list(mains)
    r.shuffle(left)
    for _ in range(r.choice([2, 2, 3, 4])):
        tool = r.choice(c09.ALL + ["listing"] * 5)
        if tool == "genpages" and any(j["tool"] == tool for j in jobs) or \
                tool == "listing" and not left:
            tool = r.choice(tools.SYMBOL_TOOLS + tools.INSTR_TOOLS)
        job = tools.gen_job(r, tool, mains, files)
        if tool == "listing":
            n = r.randint(1, len(left))
            job["args"], left = left[:n], left[n:]
        elif tool == "genpages":
            job["args"] = [DECK]
            files.append(c08.gen_file(r, DECK, True))
        job["faults"] = []
        k = r.random()
        if k < 0.3:
            job["faults"] = [F.gen(r, c09.KINDS)]
        elif k < 0.4:
            job["faults"] = [F.gen(r, F.BENIGN)]
        job["rchunk"] = gensrc.gen_chunks(r) if r.random() < 0.2 else None
        job["wchunk"] = gensrc.gen_chunks(r) if r.random() < 0.2 else None
        jobs.append(job)
    extra = [["notes.txt", "notes\n"]]
    for n in mains:
        if r.random() < 0.2:
            extra.append([tools.listing_name(n), "old listing\n" *
                          r.choice([1, 400])])
    return {"files": files, "extra": extra, "jobs": jobs,
            "again": [r.randrange(len(jobs))
                      for _ in range(r.choice([0, 1, 1, 2]))],
            "switches": [[1 + int(r.expovariate(1.0 / r.choice([1, 3, 8]))),
                          r.randrange(6)]
                         for _ in range(r.choice([2, 6, 15, 40]))]}


def run(plan, st, root):
    files = toolrun.tree(plan)
    jobs = plan["jobs"]
    w = vfs.World(root)
    vfs.world = w
    lo = sum(len(b) for b in files.values()) // 300

    def proc_of(k, job, fl):
        return vfs.Proc(w, k, fl,
                        [max(c, lo) for c in job["rchunk"]]
                        if job["rchunk"] else None,
                        [max(c, 40) for c in job["wchunk"]]
                        if job["wchunk"] else None)

    exps, flts = [], []
    for job in jobs:
        exps.append(tools.expected(files, job))
        fl = []
        if job["faults"]:
            p = toolrun.one(w, root, files, job, (), None, None)[2]
            fl = F.resolve(job["faults"], p.counts, p.nevents)
        flts.append(fl)
    proc.write_tree(root, files)
    ctxs, results, procs = [], {}, []

    def on_switch(cur, nxt):
        if cur is not None:
            ctxs[cur.idx].leave()
        ctxs[nxt.idx].enter()
    sch = S.Sched(plan["switches"], on_switch=on_switch)
    for k, job in enumerate(jobs):
        p = proc_of(k, job, flts[k])
        procs.append(p)
        ctxs.append(proc.Context(p, w, [loader.tool_path(job["tool"])] +
                                 tools.argv(job)))

        def go(t, k=k, tool=job["tool"]):
            results[k] = proc.execute(ctxs[k], tool)
        sch.spawn(go)
    w.escapes = []
    w.sched = sch
    try:
        if jobs:
            sch.run()
    finally:
        w.sched = None
        w.proc = None
        loader.forget()
    st.add_sched(sch)
    after = proc.read_tree(root)
    mine = [toolrun.outputs(j) for j in jobs]
    for n in sorted(set(files) | set(after)):
        if after.get(n) != files.get(n) and not any(n in m for m in mine):
            raise Violation("file-changed", "%d processes at once: file %s "
                            "was %s" % (len(jobs), n, "removed" if n not in
                                        after else "created" if n not in
                                        files else "altered"))
    size = 0
    for k, job in enumerate(jobs):
        st.add_proc(procs[k])
        r, e = results[k], exps[k]
        hard = [(f.cat, f.kind, f.path) for f in flts[k]
                if f.fired and f.kind not in F.SOFT]
        view = dict(files)
        for n in mine[k]:
            view.pop(n, None)
            if n in after:
                view[n] = after[n]
        what = "process %d (%s %s) of %d at once" % (
            k, job["tool"], " ".join(tools.argv(job)), len(jobs))
        st.note(what, r.exit, r.exc, sorted(map(str, hard)))
        toolrun.judge(e, job, r, procs[k], files, view, hard, what, w)
        st.probes["tool-" + job["tool"]] += 1
        if r.exit == 0 and e.size > 1:
            size += 1
    for k in plan["again"]:
        if k >= len(jobs) or jobs[k]["tool"] == "genpages":
            continue
        job = jobs[k]
        e = tools.expected(after, job)
        r, now, p, _ = toolrun.one(w, root, after, job, (), None, None)
        what = "%s %s once more, alone" % (job["tool"],
                                           " ".join(tools.argv(job)))
        toolrun.judge(e, job, r, p, after, now, [], what, w)
        st.note(what, r.exit, r.exc)
        after = now
        st.probes["once-more"] += 1
    st.probes["processes"] += len(jobs)
    st.add_world(w)
    st.nontrivial = size >= 2 and sch.nswitch > 0
    st.sig = st.trace.hexdigest()
