"""C13: clearing resets everything, whatever happened before."""

from .. import model
from .. import sched as S
from ..core import Violation
from .c11 import NAMES

ID = "C13"
LEVEL = "fault_enumeration"
RUNS = {"quick": 12000, "thorough": 80000}
SHRINK = ["switches", "ops", "tasks", "tasks.*"]
RULE = ("seeded histories on a register file or a memory bank: writes (by "
        "number, name, bits, through scanned cells, replaced registers), "
        "complete, abandoned and unfinished scans, clears of a register, "
        "group, file or bank, clears interrupted at a seeded bytecode "
        "instruction, replaced groups and repeated clears; or clears by one "
        "program while others scan, clear or write elsewhere, preempted at "
        "seeded instructions; "
        "non-trivial: a clear after a write with a scan, an interrupted "
        "clear or another program in between")
MEASURE = "distinct (schedule, event log) digests of non-trivial runs"
COMPONENTS = {"real": ["h800/registers.py", "h800/memory.py", "h800/word.py",
                       "h800/bitfield.py"],
              "stub": ["thread scheduler", "signal delivery and allocation "
                       "failure (trace hook)"]}
ASSUMPTIONS = ["an interrupt or allocation failure is an exception raised "
               "between two bytecode instructions"]


def gen(r, i, tier):
    k = r.random()
    bank = r.random() < 0.3
    if k < 0.72:
        ops = []
        for _ in range(r.choice([3, 6, 10])):
            q = r.random()
            if q < 0.35:
                ops.append(["write", r.randrange(8), r.randrange(32),
                            r.choice([0, 1, 2047, r.randrange(2048)]),
                            r.choice([1, (1 << 48) - 1, 1 << 47,
                                      r.randrange(1, 1 << 48)]),
                            r.choice(["num", "name", "bits", "bit", "kept",
                                      "put", "nput"])])
            elif q < 0.39:
                ops.append(["fill", r.randrange(8)])
            elif q < 0.42:
                ops.append(["gput", r.randrange(8), r.randrange(32)])
            elif q < 0.62:
                ops.append(["scan", r.choice(["bank", "group", "file"]),
                            r.randrange(8),
                            r.choice([0, 1, 3, 8, 31, 32, 2048])])
            elif q < 0.85:
                ops.append(["clear", r.choice(["reg", "group", "file",
                                               "group", "file"]),
                            r.randrange(8), r.randrange(32)])
            else:
                ops.append(["iclear", r.choice(["reg", "group", "file",
                                                "group"]), r.randrange(8),
                            r.randrange(32), round(r.random(), 6),
                            r.choice(["KI", "ME"])])
        ops.append(["clear", r.choice(["group", "file"]), r.randrange(8),
                    r.randrange(32)])
        return {"mode": "hist", "bank": bank, "ops": ops,
                "width": r.choice([16, 24])}
    nt = r.choice([2, 3])
    tasks = []
    for t in range(nt):
        seq = []
        for _ in range(r.choice([1, 2])):
            seq.append(r.choice([["clear", "file"], ["clear", "group"],
                                 ["clear", "bank"] if bank else
                                 ["clear", "file"],
                                 ["scan", "group", r.choice([3, 32])],
                                 ["scan", "bank", r.choice([3, 40])]]))
        tasks.append(seq)
    if r.random() < 0.5:
        # a program at work outside what is being cleared
        tasks.append([["work", r.randrange(32), r.randrange(2048),
                       r.randrange(1, 65536)]
                      for _ in range(r.choice([2, 5]))])
    tasks[0].append(["clear", "bank" if bank else r.choice(["file",
                                                            "group"])])
    scale = r.choice([10, 60, 400])
    return {"mode": "conc", "bank": bank, "tasks": tasks,
            "width": r.choice([16, 24]), "group": r.randrange(8),
            "switches": [[1 + int(r.expovariate(1.0 / scale)),
                          r.randrange(6)]
                         for _ in range(r.choice([5, 20, 60]))]}


_nsteps = {}


class State:
    def __init__(self, plan):
        from h800 import registers as R
        self.w = plan["width"]
        self.regs = R.Registers(width=self.w)
        self.other = R.Registers(width=self.w)
        self.other[3][5].value = 77
        self.others = {(3, 5): 77}
        self.words2 = {9: 99}
        self.model = {}                 # (g, n) -> value
        self.bank = None
        if plan["bank"]:
            from h800 import memory as M
            self.bank = M.MemoryBank()
            self.bank2 = M.MemoryBank()
            self.bank2[9] = 99
        self.words = {}
        self.its = []
        self.kept = {}                  # cells obtained from scans

    def check(self, what, cls="clear-wrong"):
        for g in range(8):
            for n in range(32):
                v = self.regs[g][n].value
                e = self.model.get((g, n), 0)
                if v != e:
                    raise Violation(cls, "%s: register %s of group %d is %o, "
                                    "expected %o" % (what, NAMES[n], g, v, e))
        for c, x in self.kept.items():
            e = self.model.get(c, 0) if isinstance(c, tuple) else \
                self.words.get(c, 0)
            if x.value != e:
                raise Violation(cls, "%s: cell %r, obtained from a scan, "
                                "reads %o, expected %o" % (what, c, x.value,
                                                           e))
        self.check_other(what)
        if self.bank is not None:
            vals = self.bank[0:2048]
            for a, v in enumerate(vals):
                if v != self.words.get(a, 0):
                    raise Violation(cls, "%s: word %d is %o, expected %o" % (
                        what, a, v, self.words.get(a, 0)))

    def check_other(self, what):
        """What nobody cleared is as it was written."""
        for g in range(8):
            for n in range(32):
                if self.other[g][n].value != self.others.get((g, n), 0):
                    raise Violation("stray-clear", "%s: register %d of group "
                                    "%d of another register file changed" % (
                                        what, n, g))
        if self.bank is not None:
            for a, v in enumerate(self.bank2[0:2048]):
                if v != self.words2.get(a, 0):
                    raise Violation("stray-clear", "%s: word %d of another "
                                    "bank changed" % (what, a))

    def target(self, kind, g, n):
        """-> object, register cells, bank?"""
        if kind == "bank":
            return self.bank, [], True
        if kind == "file":
            return self.regs, [(x, y) for x in range(8) for y in range(32)], \
                False
        if kind == "group":
            return self.regs[g], [(g, y) for y in range(32)], False
        return self.regs[g][n], [(g, n)], False


def clear(obj):
    obj.clear()


def run(plan, st, root):
    s = State(plan)
    if plan["mode"] == "conc":
        return run_conc(plan, st, s)
    sch = S.Sched([], max_steps=1 << 50)
    task = S.Task(0, None)
    sch.cur = task
    wrote = scanned = inter = False
    for k, op in enumerate(plan["ops"]):
        kind = op[0]
        what = "step %d: %s" % (k, op)
        if kind == "write":
            _, g, n, a, v, how = op
            if how == "kept":
                had = [c for c in s.kept if isinstance(c, tuple)]
                if had:
                    g, n = had[(v + n) % len(had)]
                had = [c for c in s.kept if not isinstance(c, tuple)]
                if had:
                    a = had[(v + a) % len(had)]
            rv = v & (1 << s.w) - 1
            key = NAMES[n] if how in ("name", "nput") else n
            if how == "bits":
                s.regs[g][key][1:s.w] = rv
            elif how == "bit":
                rv = s.model.get((g, n), 0) | 1
                s.regs[g][key][s.w] = 1
            elif how == "kept" and (g, n) in s.kept:
                s.kept[(g, n)].value = rv
                st.probes["writes-through-kept-register"] += 1
            elif how in ("put", "nput"):
                from h800.registers import Register
                s.regs[g][key] = Register(rv, model.reg_name(n, v), s.w)
                s.kept.pop((g, n), None)
            else:
                s.regs[g][key].value = rv
            s.model[(g, n)] = rv
            if s.bank is not None:
                if how == "kept" and a in s.kept:
                    s.kept[a].value = v
                elif how == "bits":
                    s.bank[a:a + 1] = v
                else:
                    s.bank[a] = v
                s.words[a] = v
            wrote = True
        elif kind == "fill":
            g = op[1]
            for n in range(32):
                v = 1000 * g + n + 1
                s.regs[g][n].value = v
                s.model[(g, n)] = v
            if s.bank is not None:
                s.bank[100 * g:100 * g + 50] = g + 1
                for a in range(100 * g, 100 * g + 50):
                    s.words[a] = g + 1
            wrote = True
        elif kind == "gput":
            from h800.registers import RegisterGroup
            g, n = op[1], op[2]
            new = RegisterGroup(s.w)
            new[n].value = 4000 + k
            s.regs[g] = new
            for x in range(32):
                s.model.pop((g, x), None)
                s.kept.pop((g, x), None)
            s.model[(g, n)] = 4000 + k
            st.probes["groups-replaced"] += 1
            wrote = True
        elif kind == "scan":
            _, c, g, n = op
            if c == "bank" and s.bank is None:
                continue
            obj = {"bank": s.bank, "file": s.regs,
                   "group": s.regs[g]}[c]
            it = iter(obj)
            for j in range(n):
                try:
                    x = next(it)
                except StopIteration:
                    break
                if c == "bank":
                    s.kept[j] = x
                elif c == "group":
                    s.kept[(g, j)] = x
            s.its.append(it)            # stays in progress
            scanned = True
            st.probes["scans-" + c] += 1
        else:
            tk, g, n = op[1], op[2], op[3]
            if tk == "file" and s.bank is not None and k % 2:
                tk = "bank"
            obj, cells, isbank = s.target(tk, g, n)
            fl = None
            if kind == "iclear":
                if tk not in _nsteps:
                    tw = State({"width": 16, "bank": isbank})
                    _nsteps[tk] = S.count_steps(clear, tw.target(
                        tk, 0, 0)[0])
                fl = (1 + int(op[4] * _nsteps[tk]),) + (
                    (KeyboardInterrupt, 1) if op[5] == "KI" else
                    (MemoryError, 2))
            exc = None
            try:
                if fl is None and isbank:
                    clear(obj)
                else:
                    sch.traced(task, clear, obj, fault=fl)
            except (Exception, KeyboardInterrupt) as e:
                exc = e
            st.note(k, op, type(exc).__name__, task.fired)
            if exc is None:
                for c in cells:
                    s.model.pop(c, None)
                if isbank:
                    s.words.clear()
                st.probes["clears-" + tk] += 1
                if wrote and (scanned or inter):
                    st.nontrivial = True
            else:
                if not (fl and task.fired):
                    raise Violation("clear-failed", "%s failed: %s: %s" %
                                    (what, type(exc).__name__, exc))
                st.faults["async:" + op[5]] += 1
                st.probes["interrupted-clears"] += 1
                inter = True
                for c in cells:
                    v = s.regs[c[0]][c[1]].value
                    if v == 0:
                        s.model.pop(c, None)
                    elif v != s.model.get(c, 0):
                        raise Violation("torn-clear", "%s, interrupted, left "
                                        "%o in register %r, which held %o" % (
                                            what, v, c, s.model.get(c, 0)))
                if isbank:
                    for a in list(s.words):
                        v = s.bank[a]
                        if v == 0:
                            s.words.pop(a)
                        elif v != s.words[a]:
                            raise Violation("torn-clear", "%s, interrupted, "
                                            "left %o in word %d" %
                                            (what, v, a))
            s.check(what)
    s.check("at the end")
    st.steps += sch.steps
    st.sig = st.trace.hexdigest()


def run_conc(plan, st, s):
    for g in range(8):
        for n in range(32):
            s.regs[g][n].value = 100 * g + n + 1
            s.model[(g, n)] = 100 * g + n + 1
    if s.bank is not None:
        s.bank[0:2048] = 5
        s.words = dict.fromkeys(range(2048), 5)
    sch = S.Sched(plan["switches"])
    done = []
    far = (plan["group"] + 3) % 8
    # nobody clears the whole file: another group may be written meanwhile
    alone = not any(op[:2] == ["clear", "file"] for seq in plan["tasks"]
                    for op in seq)

    def work(n, a, v):
        s.other[5][n].value = v
        if s.bank is not None:
            s.bank2[a] = v
        if alone:
            s.regs[far][n].value = v

    def program(ti, seq):
        def go(t):
            for op in seq:
                sch.point()
                kind = op[1]
                if kind == "bank" and s.bank is None:
                    continue
                if op[0] == "work":
                    try:
                        sch.traced(t, work, op[1], op[2], op[3])
                    except Exception as e:
                        raise Violation("access-failed", "program %d: a write "
                                        "elsewhere failed: %s: %s" % (
                                            ti, type(e).__name__, e))
                    s.others[(5, op[1])] = op[3]
                    if s.bank is not None:
                        s.words2[op[2]] = op[3]
                    if alone:
                        s.model[(far, op[1])] = op[3]
                    s.check_other("program %d's writes" % ti)
                    st.probes["writes-outside"] += 1
                    continue
                obj, cells, isbank = s.target(kind, plan["group"], 0)
                if op[0] == "clear":
                    try:
                        sch.traced(t, clear, obj)
                    except Exception as e:
                        raise Violation("clear-failed", "program %d: clear of "
                                        "the %s failed: %s: %s" % (
                                            ti, kind, type(e).__name__, e))
                    # nobody writes: from now on everything reads 0
                    for g, n in cells:
                        if s.regs[g][n].value != 0:
                            raise Violation("clear-wrong", "program %d "
                                            "cleared the %s, but register %r "
                                            "is %o" % (
                                                ti, kind, (g, n),
                                                s.regs[g][n].value))
                    if isbank and any(s.bank[0:2048]):
                        raise Violation("clear-wrong", "program %d cleared "
                                        "the bank, but a word is not 0" % ti)
                    done.append((kind, cells, isbank))
                else:
                    it = iter(obj)
                    for _ in range(op[2]):
                        try:
                            sch.traced(t, next, it)
                        except StopIteration:
                            break
        return go
    for ti, seq in enumerate(plan["tasks"]):
        sch.spawn(program(ti, seq))
    sch.run()
    st.add_sched(sch)
    for kind, cells, isbank in done:
        for c in cells:
            s.model.pop(c, None)
        if isbank:
            s.words.clear()
    s.check("after concurrent clears")
    st.probes["concurrent-clears"] += len(done)
    st.nontrivial = sch.nswitch > 0
    st.sig = st.trace.hexdigest()
