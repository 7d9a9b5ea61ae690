"""C03: the symbol table holds each definition once; the rest is diagnosed."""

import io
import sys

from .. import gensrc, model, proc, symcheck, tools, vfs
from .. import sched as S
from ..core import Violation
from .c01 import clamp

ID = "C03"
LEVEL = "exploration"
RUNS = {"quick": 18000, "thorough": 90000}
SHRINK = ["switches", "tasks", "tasks.*", "files", "files.*.lines"]
RULE = ("seeded source trees rich in repeated, ill-formed and re-assigned "
        "labels; 1-4 tasks each build 1-5 sources in seeded order into a "
        "table of their own, sequentially or with seeded preemption at "
        "bytecode instructions and I/O events; non-trivial: at least two "
        "definitions or diagnostics were produced")
MEASURE = "distinct (event log, schedule, table) digests of non-trivial runs"
COMPONENTS = {"real": ["h800/symbol_table.py", "h800/arguscard.py",
                       "h800/punchcard.py", "CPython io stack"],
              "stub": ["raw files and os.stat", "thread scheduler", "stderr"]}
ASSUMPTIONS = ["the segment of a source given as DIR/NAME.EXT is DIR/NAME",
               "a SETLOC card is one whose operation field starts with "
               "SETLOC"]

PROF = {"sizes": [2, 4, 8, 14, 20], "mains": [1, 2, 2, 3], "label": 0.75,
        "big": 0.01}


def gen(r, i, tier):
    conc = r.random() < 0.4
    prof = dict(PROF)
    if conc:
        prof["sizes"] = [2, 3, 5]
        prof["big"] = 0.0
    files, mains = gensrc.gen_tree(r, prof)
    if r.random() < 0.5:
        # repeat some labelled cards elsewhere, with other operations
        for f in files:
            for _ in range(r.randint(0, 3)):
                src = r.choice(files)
                if not src["lines"]:
                    continue
                ln = r.choice(src["lines"])
                if ln.startswith(("$", "#")) or len(ln) < 20:
                    continue
                k = r.random()
                if k < 0.3:
                    op = r.choice(["EQUALS", "ASSIGN", "SETLOC,2", "TX",
                                   "SETLOC"])
                    ln = ln[:19] + op.ljust(13) + ln[32:]
                elif k < 0.45:
                    ln = ln[:7] + "*" + ln[8:]
                elif k < 0.6:
                    ln = ln[:32] + r.choice(gensrc.WORDS).ljust(14) + ln[46:]
                f["lines"].insert(r.randint(0, len(f["lines"])), ln)
    nt = r.choice([2, 2, 3]) if conc else 1
    tasks = []
    for _ in range(nt):
        seq = [r.choice(mains) for _ in range(r.choice([1, 2, 3, 5]
                                                       if not conc
                                                       else [1, 1, 2]))]
        if r.random() < 0.2:
            seq = [tools.spell(r, n) for n in seq]
        tasks.append(seq)
    sw = []
    if conc:
        scale = r.choice([20, 200, 1500])
        sw = [[1 + int(r.expovariate(1.0 / scale)), r.randrange(8)]
              for _ in range(r.choice([2, 5, 10, 30]))]
    return {"files": files, "tasks": tasks, "switches": sw,
            "rchunk": gensrc.gen_chunks(r), "verbose": r.random() < 0.05}


def run(plan, st, root):
    files = gensrc.tree_bytes(plan["files"])
    proc.write_tree(root, files)
    w = vfs.World(root)
    vfs.world = w
    p = vfs.Proc(w, 0, (), clamp(plan["rchunk"], files))
    w.proc = p
    sys.stdout = io.StringIO()
    err = sys.stderr = io.StringIO()
    from h800.symbol_table import buildSymbolTable
    conc = len(plan["tasks"]) > 1
    done = []
    sch = S.Sched(plan["switches"])

    def one(t, name, symtab):
        try:
            return sch.traced(t, buildSymbolTable, name, symtab,
                              plan["verbose"])
        except (Exception, SystemExit) as e:
            raise Violation("build-failed", "building %s failed without a "
                            "fault: %s: %s" % (name, type(e).__name__, e))

    def body(ti, seq):
        def go(t):
            symtab = {}
            table = model.Table()
            allerr = []
            for name in seq:
                try:
                    model.load(files, name)
                except model.LoadError:
                    continue        # (only in minimised plans)
                if t is not None:
                    sch.point()
                    symtab, n = one(t, name, symtab)
                else:
                    try:
                        symtab, n = buildSymbolTable(
                            name, symtab, verbose=plan["verbose"])
                    except (Exception, SystemExit) as e:
                        raise Violation("build-failed", "building %s failed "
                                        "without a fault: %s: %s" %
                                        (name, type(e).__name__, e))
                errs = model.build(files, name, table)
                allerr += errs
                what = "task %d after building %s" % (ti, name)
                if n != len(errs):
                    raise Violation("count-wrong", "%s: error count %r, "
                                    "expected %d: %r" % (what, n, len(errs),
                                                         errs))
                symcheck.require(symtab, table, what)
                st.probes["definitions"] += len(table.defs)
                for e in errs:
                    st.probes["err-" + e[1]] += 1
            done.append((ti, seq, symtab, table, allerr))
        return go

    if conc:
        w.sched = sch
        for ti, seq in enumerate(plan["tasks"]):
            sch.spawn(body(ti, seq))
        try:
            sch.run()
        finally:
            w.sched = None
        st.add_sched(sch)
        st.probes["concurrent-builds"] += 1
    else:
        for ti, seq in enumerate(plan["tasks"]):
            body(ti, seq)(None)
    w.proc = None
    n = 0
    for ti, seq, symtab, table, allerr in done:
        symcheck.require(symtab, table, "task %d at the end" % ti)
        n += len(table.defs) + len(allerr)
        st.note(ti, sorted(table.defs), allerr)
    if not conc:
        symcheck.require_reports(err.getvalue(),
                                 done[0][4] if done else [], "diagnostics")
    else:
        lines = [x for x in err.getvalue().splitlines()
                 if x.startswith("*** ERROR: Symbol")]
        total = sum(len(d[4]) for d in done)
        if not sch.nswitch and len(lines) != total:
            raise Violation("reports-wrong", "%d reports for %d errors" %
                            (len(lines), total))
    st.add_world(w)
    st.nontrivial = n >= 2
    st.sig = st.trace.hexdigest()
