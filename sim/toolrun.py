"""Runs one tool job as a simulated process: once without faults (judged
against the reference model, and counting its events), then again under each
fault set of the plan, judged by what its exit status promises."""

from . import faults as F
from . import gensrc, loader, proc, tools, vfs
from . import sched as S
from .core import Violation


def tree(plan):
    files = gensrc.tree_bytes(plan["files"])
    for n, text in plan.get("extra", []):
        if n not in files:
            files[n] = text.encode("utf-8")
    b = plan.get("bad")
    if b and b[0] in files:
        data = files[b[0]]
        at = int(b[2] * (len(data) + 1))
        while at > 0 and (at < len(data) and data[at] & 0xC0 == 0x80 or
                          data[at - 1:at + 1] == b"\r\n"):
            at -= 1
        files[b[0]] = data[:at] + bytes.fromhex(b[1]) + data[at:]
    if plan.get("gone"):
        files.pop(plan["gone"], None)
    return files


def gen_runs(r, kinds, n):
    """Fault sets for the runs after the rehearsal."""
    out = []
    for _ in range(n):
        run = {"faults": [], "async": None}
        k = r.random()
        if k < 0.12:
            run["faults"] = [F.gen(r, F.BENIGN)
                             for _ in range(r.randint(1, 3))]
        elif k < 0.80:
            run["faults"] = [F.gen(r, kinds)
                             for _ in range(r.choice([1, 1, 1, 2]))]
            if r.random() < 0.2:
                run["faults"].append(F.gen(r, F.BENIGN))
        else:
            run["async"] = [round(r.random(), 6),
                            r.choice(["KI", "KI", "ME"])]
        out.append(run)
    return out


def gen_break(r, plan, names, p=0.12):
    """Sometimes the source itself is broken."""
    k = r.random()
    if k < p / 3:
        plan["gone"] = r.choice(names)
    elif k < 2 * p / 3:
        plan["bad"] = [r.choice(names), r.choice(["ff", "80", "c0"]),
                       r.random()]
    elif k < p:
        f = r.choice(plan["files"])
        f["lines"].insert(r.randint(0, len(f["lines"])), "$nosuch.arg")


def one(w, root, files, job, faults, rchunk, wchunk, async_=None,
        count=False):
    """-> Result, tree after, Proc, (steps, fired)"""
    proc.write_tree(root, files)
    w.escapes = []
    p = vfs.Proc(w, 0, faults, rchunk, wchunk)
    args = tools.argv(job)
    if async_ is None and not count:
        r = proc.run_tool(w, p, job["tool"], args)
        return r, proc.read_tree(root), p, (0, None)
    sch = S.Sched([], max_steps=1 << 50)
    task = S.Task(0, None)
    sch.cur = task
    fault = None
    if async_:
        fault = (async_[0],) + ((w.async_interrupt, 1) if async_[1] == "KI"
                                else (MemoryError, 2))
    ctx = proc.Context(p, w, [loader.tool_path(job["tool"])] + args)
    ctx.enter()
    try:
        r = sch.traced(task, proc.execute, ctx, job["tool"], fault=fault)
    finally:
        w.proc = None
        loader.forget()
    return r, proc.read_tree(root), p, (sch.steps, task.fired)


def outputs(job):
    """Files the tool may create or change."""
    if job["tool"] == "listing":
        return {tools.key_of(tools.listing_name(n)) for n in job["args"]} - \
            {tools.key_of(n) for n in job["args"]}
    if job["tool"] == "genpages":
        return {tools.key_of(n) for n in job["args"]}
    return set()


def effects(e, job, files, after, what):
    """File-system effects that even a failed or killed run must respect."""
    tools.only_allowed(e, job, after, files, what, outputs(job))
    if job["tool"] == "genpages" and job["args"]:
        n = tools.key_of(job["args"][0])
        if n in files and not (after.get(n) or b"").startswith(files[n]):
            raise Violation("text-lost", "%s: %s was %r and is now %r" % (
                what, n, tools.short(files[n]), tools.short(after.get(n))))
        if n in files and e.exit == "fail" and after[n] != files[n]:
            raise Violation("file-changed", "%s: %s was changed although the "
                            "page block cannot be determined" % (what, n))
        if n not in files and n in after:
            raise Violation("file-changed", "%s: %s was created" % (what, n))
    if job["tool"] == "listing":
        names = [tools.key_of(tools.listing_name(n)) for n in job["args"]]
        last = -1
        for k, ln in enumerate(names):
            if after.get(ln) != files.get(ln) and ln not in names[:k]:
                last = k
        for k, ln in enumerate(names[:max(last, 0)]):
            if ln in names[k + 1:] or ln == names[last]:
                continue        # given again: it may be being rewritten
            if ln not in e.files or after.get(ln) != e.files[ln]:
                raise Violation(
                    "listing-lost", "%s: listing %s was finished before %s "
                    "was begun, but is %r" % (what, ln, names[last],
                                              tools.short(after.get(ln))))


def judge(e, job, r, p, files, after, hard, what, w):
    if w.escapes:
        raise Violation("file-changed", "%s: tried to change %s" %
                        (what, w.escapes))
    if r.killed:
        effects(e, job, files, after, what)
        return
    if r.exit == 0:
        if e.exit == "fail":
            raise Violation("quiet-failure", "%s: exit status 0 although the "
                            "input cannot be processed (%s)" % (what, hard))
        try:
            tools.compare(e, job, r, after, files, what)
        except Violation as v:
            if hard:
                raise Violation("silent-loss", "exit status 0 in spite of %s;"
                                " %s" % (hard, v.msg))
            raise
        return
    if not hard and e.exit == 0:
        raise Violation("failed", "%s: exit status %s without any fault: %s "
                        "%s" % (what, r.exit, r.exc,
                                r.err[-300:].decode("utf-8", "replace")))
    effects(e, job, files, after, what)


def drive(plan, st, root, job=None, only=None):
    """only: the endings of new files that matter (None: all of them)."""
    files = tree(plan)

    def seen(after):
        if only is None:
            return after
        return {n: b for n, b in after.items()
                if n in files or n.endswith(only)}
    job = job or plan["job"]
    w = vfs.World(root)
    vfs.world = w
    e = tools.expected(files, job)
    rchunk, wchunk = plan.get("rchunk"), plan.get("wchunk")
    if rchunk:
        lo = sum(len(b) for b in files.values()) // 300
        rchunk = [max(c, lo) for c in rchunk]
    if wchunk:
        wchunk = [max(c, 40) for c in wchunk]
    need = any(x["async"] for x in plan["runs"])
    r, after, p, (steps, _) = one(w, root, files, job, (), rchunk, wchunk,
                                  None, need)
    label = "%s %s" % (job["tool"], " ".join(tools.argv(job)))
    judge(e, job, r, p, files, seen(after), [], label, w)
    st.note(label, r.exit, r.exc, e.exit)
    st.probes["tool-" + job["tool"]] += 1
    st.probes["expect-%s" % e.exit] += 1
    if rchunk:
        st.faults["read:chunked"] += p.nr
    if wchunk:
        st.faults["write:chunked"] += p.nw
    counts, nev = p.counts, p.nevents
    hit = 0
    for k, run in enumerate(plan["runs"]):
        fl = F.resolve(run["faults"], counts, nev)
        as_ = None
        if run["async"]:
            as_ = (1 + int(run["async"][0] * steps), run["async"][1])
        r, after, p, (n, fired) = one(w, root, files, job, fl, rchunk, wchunk,
                                      as_)
        hard = [(f.cat, f.kind, f.path) for f in fl
                if f.fired and f.kind not in F.SOFT]
        if fired:
            hard.append(("async", as_[1], fired[0]))
            st.faults["async:" + as_[1]] += 1
        st.add_proc(p)
        st.steps += n
        what = "%s (run %d)" % (label, k)
        judge(e, job, r, p, files, seen(after), hard, what, w)
        if hard and not r.killed:
            st.probes["faulted-exit-%s" % ("0" if r.exit == 0 else
                                           "nonzero")] += 1
        hit += any(f.fired for f in fl) or bool(fired)
        st.note(what, r.exit, r.exc, sorted(map(str, hard)))
    st.add_world(w)
    st.probes["fault-runs"] += len(plan["runs"])
    st.nontrivial = e.size > 1 and (hit > 0 or bool(rchunk or wchunk) or
                                    not plan["runs"])
    st.sig = st.trace.hexdigest()
