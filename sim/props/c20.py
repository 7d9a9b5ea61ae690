"""C20: the assembler's symbol list resolves in bounded passes."""

import io
import sys

from .. import sched as S
from ..core import Violation

ID = "C20"
LEVEL = "fault_enumeration"
RUNS = {"quick": 24000, "thorough": 200000}
SHRINK = ["switches", "tasks", "tasks.*"]
RULE = ("one to three programs, each with its own one or two SymbolTable "
        "objects, making seeded histories of additions (with and without a "
        "value, repeated, nameless), updates (of defined, undefined and "
        "unknown names), look-ups, references, resolutions with 0 to 12 "
        "passes, prunings and printings, preempted at seeded bytecode "
        "instructions; operations other than additions and updates are hit "
        "by interrupts and allocation failures at seeded instructions and by "
        "a standard output that fails; all tables are compared with a "
        "reference list after every operation; non-trivial: a resolution or "
        "pruning with undefined names in the table")
MEASURE = "distinct (schedule, event log) digests of non-trivial runs"
COMPONENTS = {"real": ["h800/symbol_table.py SymbolTable, SymbolTableEntry"],
              "stub": ["thread scheduler", "standard output",
                       "signal delivery and allocation failure (trace "
                       "hook)"]}
ASSUMPTIONS = ["an interrupt or allocation failure is an exception raised "
               "between two bytecode instructions",
               "one table is used by one program"]

NAMES = ["A", "B", "TAG", "TAG1", "LOOP", "X,Y", "Z9", "a", "START", "END"]
BUDGET = 2_000_000      # instructions one run may take


def gen_op(r, tabs):
    t = r.randrange(tabs)
    name = r.choice(NAMES)
    k = r.random()
    typ = r.choice(["absolute", "complex", None, "absolute"])
    val = r.choice([0, 0, 1, 7, 2047, -1, "expr"])
    if k < 0.34:
        return ["add", t, r.choice([name] * 12 + ["", None]),
                None if r.random() < 0.6 else val, typ,
                r.choice(["a.txt", "b.txt"]), r.randrange(1, 900),
                r.choice(["seg", "S2", None]), r.choice(["0", "1", None])]
    if k < 0.56:
        return ["update", t, r.choice([name] * 10 + ["NOPE", ""]), val, typ]
    if k < 0.64:
        return ["look", t, name]
    if k < 0.68:
        return ["ref", t, name, r.randrange(100)]
    fault = None
    if r.random() < 0.4:
        fault = [r.choice(["KI", "ME", "out", "out"]), round(r.random(), 6)]
    if k < 0.84:
        return ["resolve", t, r.choice([0, 1, 1, 2, 3, 10, 12, None]), fault]
    if k < 0.92:
        return ["prune", t, None, fault]
    return [r.choice(["table", "undefs"]), t, r.random() < 0.5, fault]


def gen(r, i, tier):
    tasks = []
    for _ in range(r.choice([1, 1, 2, 3])):
        tabs = r.choice([1, 1, 2])
        ops = []
        if r.random() < 0.3:
            # a whole row of undefined names, some of them defined next
            names = list(NAMES)
            r.shuffle(names)
            for n in names[:r.randint(2, 8)]:
                ops.append(["add", 0, n, None, None, "m.txt",
                            len(ops) + 1, "m", "1"])
                if r.random() < 0.6:
                    ops.append(["update", 0, n, r.choice([0, 5]),
                                r.choice(["absolute", "complex"])])
            ops.append(["resolve", 0, r.choice([1, 2, 10]), None])
        for _ in range(r.choice([4, 8, 16])):
            ops.append(gen_op(r, tabs))
        tasks.append(ops)
    scale = r.choice([3, 10, 40, 150])
    return {"tasks": tasks,
            "switches": [[1 + int(r.expovariate(1.0 / scale)), r.randrange(6)]
                         for _ in range(r.choice([4, 15, 60]))]
            if len(tasks) > 1 else []}


class Out(io.StringIO):
    """Standard output of the process: every program's text apart; it can
    fail for the program that is running."""

    def __init__(self, sch):
        super().__init__()
        self.sch = sch
        self.text = {}
        self.arm = {}
        self.fired = set()

    def write(self, s):
        self.sch.point()
        k = self.sch.me()
        if k in self.arm:
            if self.arm[k] <= 0:
                self.fired.add(k)
                raise OSError(32, "Broken pipe")
            self.arm[k] -= 1
        self.text[k] = self.text.get(k, "") + s
        return len(s)


class Model:
    """Reference list: first definitions, and undefined names in order."""

    def __init__(self):
        self.syms = {}
        self.undefs = []

    def add(self, name, val, typ, *place):
        if not name:
            return 0
        if name in self.syms:
            return 1
        self.syms[name] = {"place": place, "absolute": None, "complex": None,
                           "refs": []}
        self.define(name, val, typ)
        if val is None:
            self.undefs.append(name)
        return 0

    def define(self, name, val, typ):
        self.syms[name]["absolute" if typ == "absolute" else "complex"] = val

    def valid(self, name):
        s = self.syms[name]
        return s["absolute"] is not None or s["complex"] is not None

    def pruned(self):
        return [n for n in self.undefs if not self.valid(n)]


def compare(tab, m, what):
    def wrong(msg, *a):
        raise Violation("table-wrong", "%s: %s" % (what, msg % a))
    have = list(tab.symbols)
    if sorted(have, key=str) != sorted(m.syms, key=str):
        wrong("the table holds %r, expected %r", have, list(m.syms))
    if tab.getNumSymbols() != len(m.syms):
        wrong("it counts %r symbols of %d", tab.getNumSymbols(), len(m.syms))
    if list(tab.undefines) != m.undefs:
        wrong("undefined are %r, expected %r", list(tab.undefines), m.undefs)
    if tab.getNumUndefs() != len(m.undefs):
        wrong("it counts %r undefined of %d", tab.getNumUndefs(),
              len(m.undefs))
    for n, s in m.syms.items():
        e = tab.lookup(n)
        if e is None or e is not tab.symbols[n]:
            wrong("look-up of %r gives %r", n, e)
        a, c = s["absolute"], s["complex"]
        got = (e.name, e.file, e.line, e.segment, e.subsegment,
               list(e.references), e.isAbsolute(), e.isComplex(),
               e.isMultiple(), e.isValid(), e.value)
        want = (n,) + s["place"] + (
            s["refs"], a is not None, c is not None,
            a is not None and c is not None, m.valid(n),
            a if a is not None else c)
        if got != want:
            wrong("symbol %s is %r, expected %r", n, got, want)
    if tab.lookup("NOPE") is not None:
        wrong("it knows NOPE")


def run(plan, st, root):
    from h800 import symbol_table as Y
    sch = S.Sched(plan["switches"], max_steps=BUDGET)
    out = Out(sch)
    sys.stdout = out
    keep = []

    def program(ti, ops):
        who = "program %d" % ti
        tabs = [Y.SymbolTable() for _ in range(2)]
        models = [Model() for _ in range(2)]
        keep.append((who, tabs, models))

        def go(t):
            # (at the end everything still resolves)
            for k, op in enumerate(ops + [["resolve", 0, None, None],
                                          ["resolve", 1, 3, None]]):
                sch.point()
                what = "%s, step %d %s" % (who, k, op)
                tab, m = tabs[op[1]], models[op[1]]
                me = sch.me()
                out.text[me] = ""
                kind = op[0]
                fault = op[3] if kind in ("resolve", "prune", "table",
                                          "undefs") else None
                fn, args = call(tab, op)
                fl = None
                if fault and fault[0] != "out":
                    n = 40 + 60 * len(m.undefs)
                    fl = (1 + int(fault[1] * n),) + (
                        (KeyboardInterrupt, 1) if fault[0] == "KI" else
                        (MemoryError, 2))
                elif fault:
                    out.arm[me] = int(fault[1] * (4 + 4 * len(m.undefs)))
                    out.fired.discard(me)
                exc = got = None
                t.fired = None
                try:
                    got = sch.traced(t, fn, *args, fault=fl)
                except (Exception, KeyboardInterrupt) as e:
                    exc = e
                out.arm.pop(me, None)
                fired = fault and (t.fired if fl else me in out.fired)
                if fired:
                    st.faults["async:" + fault[0] if fl else
                              "out:EPIPE"] += 1
                if exc is not None and not fired:
                    raise Violation("operation-failed", "%s failed: %s: %s" %
                                    (what, type(exc).__name__, exc))
                judge(op, tab, m, out.text[me], exc, fired, what)
                compare(tab, m, what)
                if op[0] == "look":
                    want = tab.symbols.get(op[2])
                    if got is not want:
                        raise Violation("table-wrong", "%s gave %r" %
                                        (what, got))
                st.note(ti, k, op, type(exc).__name__, list(tab.undefines))
                st.probes[kind] += 1
        return go

    def call(tab, op):
        k = op[0]
        if k == "add":
            return tab.add, (op[2], op[5], op[6], op[3], op[4], op[7], op[8])
        if k == "update":
            return tab.update, (op[2], op[3], op[4])
        if k == "look":
            return tab.lookup, (op[2],)
        if k == "ref":
            return ref, (tab, op[2], op[3])
        if k == "resolve":
            return tab.resolve, () if op[2] is None else (op[2],)
        if k == "prune":
            return tab.pruneUndefines, ()
        if k == "table":
            return printed, (tab.printTable, op[2])
        return printed, (tab.printUndefs, op[2])

    def printed(fn, given):
        if given:
            fn(outfile=sys.stdout)
        else:
            fn()

    def ref(tab, name, x):
        e = tab.lookup(name)
        if e is not None:
            e.addReference(x)

    def judge(op, tab, m, text, exc, fired, what):
        """Bring the model up to date; the operation's own reports."""
        k = op[0]
        errors = sum("ERROR" in x for x in text.splitlines())
        want = 0
        if k == "add":
            want = m.add(op[2], op[3], op[4], *op[5:9])
        elif k == "update":
            if op[2] and op[2] not in m.syms:
                want = 1
            elif op[2]:
                m.define(op[2], op[3], op[4])
        elif k == "ref":
            if op[2] in m.syms:
                m.syms[op[2]]["refs"].append(op[3])
        elif k in ("resolve", "prune"):
            new = m.pruned()
            st.nontrivial = st.nontrivial or bool(m.undefs)
            passes = 1 if k == "prune" else 10 if op[2] is None else op[2]
            if exc is not None:
                # interrupted: some of the names that have a value may have
                # been removed, no other
                now = list(tab.undefines)
                m.undefs = [x for x in m.undefs if x in new or x in now]
            else:
                n = len(m.undefs)
                if k == "resolve" and passes and n:
                    if len(new) == n or new and passes > 1:
                        want = 1
                if passes:
                    m.undefs = new
            if m.undefs:
                st.probes["left-undefined"] += 1
        if not fired and errors != want:
            raise Violation("report-wrong", "%s reported %d errors (%r), "
                            "expected %d" % (what, errors, text[:200], want))

    for ti, ops in enumerate(plan["tasks"]):
        sch.spawn(program(ti, ops))
    sch.run()
    st.add_sched(sch)
    for who, tabs, models in keep:
        for tab, m in zip(tabs, models):
            compare(tab, m, who + " at the end")
    st.sig = st.trace.hexdigest()
