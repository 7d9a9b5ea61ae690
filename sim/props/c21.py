"""C21: symbol queries depend on the table alone and never change it."""

import io
import sys

from .. import gensrc, model, proc, symcheck, vfs
from .. import sched as S
from ..core import Violation
from ..tools import _require_closest

ID = "C21"
LEVEL = "exploration"
RUNS = {"quick": 24000, "thorough": 90000}
SHRINK = ["switches", "ops", "tasks", "tasks.*", "files", "files.*.lines"]
RULE = ("seeded histories of builds and queries on one or two tables, with "
        "interrupts and allocation failures at seeded bytecode instructions "
        "of a query and a standard error stream that fails, or 2-4 programs "
        "querying the same tables (one may build another table) preempted at "
        "seeded bytecode instructions; non-trivial: at least two definitions "
        "and two queries")
MEASURE = "distinct (schedule, event log) digests of non-trivial runs"
COMPONENTS = {"real": ["h800/symbol_table.py", "h800/arguscard.py",
                       "h800/punchcard.py", "fuzzywuzzy"],
              "stub": ["raw files and os.stat", "thread scheduler",
                       "standard streams",
                       "signal delivery and allocation failure (trace "
                       "hook)"]}
ASSUMPTIONS = ["names equally close in fuzzy matching may be given in any "
               "order", "a table is not built into while it is queried"]

PROF = {"sizes": [2, 5, 9, 14], "mains": [1, 2, 3], "label": 0.8, "big": 0.0,
        "huge": 0.0, "mass": 0.006, "chain": 0.0}
EXTRA = ["T", "AG", "TAG", "NOPE", "1", "OP2", "LOOP3", "STAR", "A1", "T1"]


def gen_query(r, tabs):
    t = r.randrange(tabs)
    k = r.random()
    if k < 0.2:
        return ["check", t, r.random() < 0.8]
    if k < 0.35:
        return ["absolute", t]
    name = r.choice(gensrc.TAGS if r.random() < 0.7 else EXTRA)
    if k < 0.6:
        return ["exact", t, name, r.choice([None, None, "simple", "complex"])]
    if k < 0.72:
        return ["begin", t, name[:r.randint(1, len(name))]]
    if k < 0.84:
        return ["end", t, name[-r.randint(1, len(name)):]]
    return ["fuzzy", t, name]


def gen(r, i, tier):
    files, mains = gensrc.gen_tree(r, PROF)
    if r.random() < 0.5:
        gensrc.add_twin(r, files, mains)
    conc = r.random() < 0.5
    tabs = r.choice([1, 2] if conc else [1, 1, 2])
    plan = {"files": files, "tabs": tabs}
    if conc:
        plan["ops"] = [["build", t, r.choice(mains)] for t in range(tabs)
                       for _ in range(r.choice([1, 2]))]
        plan["tasks"] = [[gen_query(r, tabs)
                          for _ in range(r.choice([1, 2, 4]))]
                         for _ in range(r.choice([2, 2, 3, 4]))]
        if r.random() < 0.3:
            plan["tasks"].append([["own", r.choice(mains)]])
        scale = r.choice([10, 60, 300, 1500])
        plan["switches"] = [[1 + int(r.expovariate(1.0 / scale)),
                             r.randrange(8)]
                            for _ in range(r.choice([3, 10, 30, 80]))]
    else:
        ops = [["build", 0, r.choice(mains)]]
        for _ in range(r.choice([3, 6, 10])):
            if r.random() < 0.25:
                ops.append(["build", r.randrange(tabs), r.choice(mains)])
                continue
            q = gen_query(r, tabs)
            if r.random() < 0.15:
                # the same question before and after another build
                ops += [q, ["build", q[1], r.choice(mains)], q]
                continue
            if r.random() < 0.3:
                q = ["fault", q, round(r.random(), 6),
                     r.choice(["KI", "ME"])]
            elif r.random() < 0.15:
                q = ["noerr", q, r.choice([0, 0, 1, 2])]
            ops.append(q)
        plan["ops"] = ops
        plan["tasks"] = []
        plan["switches"] = []
    return plan


class Failing(io.StringIO):
    """A stream that takes n writes and then fails."""

    def __init__(self, n):
        super().__init__()
        self.left = n
        self.fired = False

    def write(self, s):
        if self.left <= 0:
            self.fired = True
            raise OSError(32, "Broken pipe")
        self.left -= 1
        return super().write(s)


def ask(Y, symtab, q):
    kind = q[0]
    if kind == "check":
        return Y.checkSymbolTable(symtab, complexOnlyError=q[2])
    if kind == "absolute":
        return Y.getAbsoluteSymbols(symtab)
    if kind == "exact":
        return Y.findSymbolDef(symtab, q[2], symtype=q[3])
    if kind == "begin":
        return Y.findSymbolDef(symtab, q[2], begin=True)
    if kind == "end":
        return Y.findSymbolDef(symtab, q[2], end=True)
    return Y.findSymbolDef(symtab, q[2], fuzzy=True)


def judge(q, got, table, symtab, what):
    kind = q[0]
    if got is None and kind != "exact":
        got = []

    def wrong(want):
        raise Violation("answer-wrong", "%s gave %r, expected %r" %
                        (what, got, want))
    if kind in ("check", "absolute", "begin", "end"):
        if kind == "check":
            want = table.complex_only() if q[2] else []
        elif kind == "absolute":
            want = table.simple_tags()
        elif kind == "begin":
            want = [t for t in table.tags() if t[:len(q[2])] == q[2]]
        else:
            want = [t for t in table.tags()
                    if t[max(0, len(t) - len(q[2])):] == q[2]]
        if list(got) != want:
            wrong(want)
        return list(got)
    if kind == "fuzzy":
        _require_closest(list(got), q[2], table, what)
        return list(got)
    want = {k[1:]: v for k, v in symcheck.want(table).items() if k[0] == q[2]}
    if q[3] and not any(k[2] == q[3] for k in want):
        want = {}
    have = {k[1:]: v for k, v in symcheck.flat(
        {q[2]: got} if got else {}).items()}
    if have != want:
        wrong(want)
    return have


def run(plan, st, root):
    files = gensrc.tree_bytes(plan["files"])
    proc.write_tree(root, files)
    w = vfs.World(root)
    vfs.world = w
    w.proc = vfs.Proc(w, 0)
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    from h800 import symbol_table as Y
    symtabs = [{} for _ in range(plan["tabs"])]
    tables = [model.Table() for _ in range(plan["tabs"])]
    sch = S.Sched([], max_steps=1 << 50)
    task = S.Task(0, None)
    sch.cur = task
    queries = 0
    kept = []

    def build(name, symtab, table, what):
        try:
            errs = model.build(files, name, table)
        except model.LoadError:
            return symtab           # (only in minimised plans)
        try:
            symtab, n = Y.buildSymbolTable(name, symtab)
        except (Exception, SystemExit) as e:
            raise Violation("build-failed", "%s failed: %s: %s" %
                            (what, type(e).__name__, e))
        if n != len(errs):
            raise Violation("count-wrong", "%s counts %r errors, expected %d"
                            % (what, n, len(errs)))
        return symtab

    def unchanged(what):
        for s, t in zip(symtabs, tables):
            symcheck.require(s, t, what, "table-changed")

    for k, op in enumerate(plan["ops"]):
        what = "step %d: %s" % (k, op)
        if op[0] == "build":
            symtabs[op[1]] = build(op[2], symtabs[op[1]], tables[op[1]], what)
            st.probes["builds"] += 1
            # an exact answer is the table's own entry and follows it
            kept = [x for x in kept if x[0][0] != "exact"]
        else:
            q, fl, bad = op, None, None
            if op[0] == "fault":
                q = op[1]

                def dry():
                    try:
                        ask(Y, twin, q)
                    except Exception:
                        pass
                twin = {t: {g: {b: dict(x) for b, x in y.items()}
                            for g, y in z.items()}
                        for t, z in symtabs[q[1]].items()}
                keep, sys.stderr = sys.stderr, io.StringIO()
                n = S.count_steps(dry)
                sys.stderr = keep
                fl = (1 + int(op[2] * n),) + (
                    (KeyboardInterrupt, 1) if op[3] == "KI" else
                    (MemoryError, 2))
            elif op[0] == "noerr":
                q = op[1]
                bad = Failing(op[2])
            keep = sys.stderr
            sys.stderr = bad or io.StringIO()
            exc = got = None
            try:
                got = sch.traced(task, ask, Y, symtabs[q[1]], q, fault=fl)
            except (Exception, KeyboardInterrupt) as e:
                exc = e
            err, sys.stderr = sys.stderr, keep
            fired = task.fired or bad is not None and bad.fired
            if fired:
                st.faults["async:" + op[3] if fl else "err:EPIPE"] += 1
            st.note(k, type(exc).__name__, bool(fired))
            if exc is None:
                ans = judge(q, got, tables[q[1]], symtabs[q[1]], what)
                kept.append((q, got, ans))
                if not fired:
                    reports(q, err.getvalue(), tables[q[1]], ans, what)
                queries += 1
                st.probes["query-" + q[0]] += 1
            elif not fired:
                raise Violation("query-failed", "%s failed: %s: %s" % (
                    what, type(exc).__name__, exc))
        unchanged(what)
    for q, got, ans in kept:
        have = list(got) if q[0] != "exact" else \
            {k[1:]: v for k, v in symcheck.flat({q[2]: got} if got
                                                else {}).items()}
        if have != ans:
            raise Violation("answer-changed", "the answer %r to %r has become "
                            "%r" % (ans, q, have))

    if plan["tasks"]:
        sch = S.Sched(plan["switches"])

        def program(ti, ops):
            def go(t):
                for j, q in enumerate(ops):
                    sch.point()
                    what = "program %d: %s" % (ti, q)
                    if q[0] == "own":
                        table = model.Table()
                        try:
                            errs = model.build(files, q[1], table)
                        except model.LoadError:
                            continue
                        s, n = sch.traced(t, Y.buildSymbolTable, q[1], {})
                        symcheck.require(s, table, what)
                        continue
                    try:
                        got = sch.traced(t, ask, Y, symtabs[q[1]], q)
                    except Exception as e:
                        raise Violation("query-failed", "%s failed: %s: %s" %
                                        (what, type(e).__name__, e))
                    judge(q, got, tables[q[1]], symtabs[q[1]], what)
                    st.probes["query-" + q[0]] += 1
            return go
        for ti, ops in enumerate(plan["tasks"]):
            sch.spawn(program(ti, ops))
            queries += len(ops)
        w.sched = sch
        try:
            sch.run()
        finally:
            w.sched = None
        st.add_sched(sch)
        st.probes["concurrent"] += 1
        unchanged("after concurrent queries")
    w.proc = None
    st.steps += sch.steps if not plan["tasks"] else 0
    st.add_world(w)
    st.note(sorted(k for t in tables for k in t.defs))
    st.nontrivial = queries >= 2 and sum(len(t.defs) for t in tables) >= 2
    st.sig = st.trace.hexdigest()


def reports(q, err, table, ans, what):
    """What a query says on standard error."""
    lines = [x for x in err.splitlines() if "ERROR" in x]
    if q[0] == "check":
        want = ans
    elif q[0] == "exact" and not ans:
        want = [q[2]]
    else:
        want = []
    if len(lines) != len(want) or any(s not in x
                                      for s, x in zip(want, lines)):
        raise Violation("reports-wrong", "%s reported %r, expected reports "
                        "of %r" % (what, lines, want))
