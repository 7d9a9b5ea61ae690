"""C23: a dump shows every cell as it is and disturbs nothing."""

import re

from .. import model
from .. import sched as S
from ..core import Violation
from ..lin import History

ID = "C23"
LEVEL = "exploration"
RUNS = {"quick": 6500, "thorough": 60000}
SHRINK = ["switches", "tasks", "tasks.*"]
RULE = ("1-4 programs writing registers and memory words, putting registers, "
        "scanning and dumping (registers, groups, register files, banks, the "
        "bits of a word), with interrupts and allocation failures at seeded "
        "bytecode instructions of a dump (one program) or preemption at "
        "seeded bytecode instructions (several); each dump counts as a read "
        "of every cell during the dump; non-trivial: a dump after at least "
        "one write")
MEASURE = "distinct (schedule, history) digests of non-trivial runs"
COMPONENTS = {"real": ["h800/registers.py", "h800/memory.py", "h800/word.py",
                       "h800/bitfield.py"],
              "stub": ["thread scheduler",
                       "signal delivery and allocation failure (trace "
                       "hook)"]}
ASSUMPTIONS = ["programs are threads of one interpreter that can be "
               "preempted at any bytecode instruction of the repository",
               "only the first scan of a register file is looked at (see the "
               "known finding of C14)"]


def gen(r, i, tier):
    nt = r.choice([1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 8])
    big = r.random() < 0.25         # with memory banks
    width = r.choice([16, 24])
    regs = [[r.choice([0, 7, r.randrange(8)]),
             r.choice([0, 31, r.randrange(32)])] for _ in range(4)]
    words = [r.choice([0, 2047, 1024, r.randrange(2048)]) for _ in range(3)]
    tasks = []
    for _ in range(nt):
        ops = []
        for _ in range(r.choice([3, 5, 8])):
            k = r.random()
            if k < 0.28:
                ops.append(["w", r.choice(regs)])
            elif k < 0.33:
                ops.append(["put", r.choice(regs)])
            elif k < 0.38:
                ops.append(["clear", r.choice(regs)])
            elif k < 0.46 and big:
                ops.append(["ww", r.choice(words)])
            elif k < 0.56:
                ops.append(["scan", r.choice(["group", "group", "file"] +
                                             ["bank"] * big),
                            r.choice([1, 2, 5])])
            else:
                ops.append(["dump", r.choice(
                    ["reg", "group", "group", "group", "file"] +
                    ["bank", "bank", "bits"] * big),
                    r.choice(regs), r.choice(words), None])
                if nt == 1 and r.random() < 0.35:
                    ops[-1][4] = [round(r.random(), 6),
                                  r.choice(["KI", "ME"])]
        tasks.append(ops)
    scale = r.choice([6, 30, 150, 800])
    sw = []
    if nt > 1:
        sw = [[1 + int(r.expovariate(1.0 / scale)), r.randrange(8)]
              for _ in range(r.choice([4, 12, 40]))]
    return {"width": width, "bank": big, "tasks": tasks, "switches": sw}


def tokens(text):
    return [int(x, 8) for x in re.findall(r"0o([0-7]+)", text)]


def run(plan, st, root):
    from h800 import registers as R
    from h800 import memory as M
    w = plan["width"]
    regs = R.Registers(width=w)
    bank = M.MemoryBank() if plan["bank"] else None
    H = History()
    sch = S.Sched(plan["switches"], max_steps=60_000_000)
    serial = [0]
    scans = {}
    filescan = []

    def unique():
        serial[0] += 1
        v = serial[0] * 40503 % 65521
        return v if w == 16 else v + (serial[0] % 251 << 16)

    def rset(g, n, v):
        regs[g][n].value = v

    def rput(g, n, reg):
        regs[g][n] = reg

    def rclear(g, n):
        regs[g][n].clear()

    def wset(a, v):
        bank[a] = v

    def record(cells, vals, what, t0, t1):
        if len(vals) != len(cells):
            raise Violation("dump-wrong", "%s shows %d values, expected %d" %
                            (what, len(vals), len(cells)))
        for c, v in zip(cells, vals):
            H.read(c, v, t0, t1, what)

    def dump(t, who, op, fl):
        kind, (g, n), a = op[1], op[2], op[3]
        if kind in ("bank", "bits") and bank is None:
            return
        if kind == "reg":
            obj, cells = regs[g][n], [("r", g, n)]
        elif kind == "group":
            obj, cells = regs[g], [("r", g, x) for x in range(32)]
        elif kind == "file":
            obj, cells = regs, [("r", y, x) for y in range(8)
                                for x in range(32)]
        elif kind == "bank":
            obj, cells = bank, [("m", x) for x in range(2048)]
        else:
            word = next(x for k, x in enumerate(bank) if k == a)
            obj, cells = word.data, [("m", a)]
        what = "%s: dump of %s" % (who, kind)
        fault = None
        if fl:
            n = S.count_steps(repr, obj)
            fault = (1 + int(fl[0] * n),) + (
                (KeyboardInterrupt, 1) if fl[1] == "KI" else
                (MemoryError, 2))
        t0 = H.tick()
        try:
            text = sch.traced(t, repr, obj, fault=fault)
        except (Exception, KeyboardInterrupt) as e:
            if fault and t.fired:
                st.faults["async:" + fl[1]] += 1
                st.probes["interrupted-dumps"] += 1
                return
            raise Violation("dump-failed", "%s raised %s: %s" % (
                what, type(e).__name__, e))
        t1 = H.tick()
        if kind == "reg" and len(plan["tasks"]) > 1 and \
                regs[g][n] is not obj:
            return                  # replaced while it was being dumped
        st.probes["dump-" + kind] += 1
        if kind == "bits":
            if len(text) != 48 or set(text) - set("01"):
                raise Violation("dump-wrong", "%s is %r" % (what, text))
            vals = [int(text, 2)]
        else:
            vals = tokens(text)
        if kind == "file":
            heads = [int(x) for x in re.findall(r"\[(\d+)\]", text)]
            if heads != list(range(8)):
                raise Violation("dump-wrong", "%s shows groups %r" %
                                (what, heads))
        record(cells, vals, what, t0, t1)

    def scan(t, ti, kind, n, who):
        if kind == "bank" and bank is None:
            return
        if kind == "file":
            # one scan of the file, by the program that began it
            if not filescan:
                filescan.append([ti, iter(regs), 0])
            if filescan[0][0] != ti:
                return
            s = filescan[0]
            for _ in range(n):
                if s[2] >= 8:
                    return
                got = sch.traced(t, next, s[1], None)
                if got is not regs[s[2]]:
                    raise Violation("scan-disturbed", "%s: a scan of the "
                                    "register file did not come to group %d"
                                    % (who, s[2]))
                s[2] += 1
            return
        s = scans.setdefault((ti, kind), [None, 0])
        size = 32 if kind == "group" else 2048
        for _ in range(n):
            if s[0] is None:
                s[:] = [iter(regs[3] if kind == "group" else bank), 0]
            got = sch.traced(t, next, s[0], None)
            if s[1] >= size:
                if got is not None:
                    raise Violation("scan-disturbed", "%s: a scan of a %s "
                                    "does not end" % (who, kind))
                s[:] = [None, 0]
                continue
            if got is None:
                raise Violation("scan-disturbed", "%s: a scan of a %s ended "
                                "after %d" % (who, kind, s[1]))
            if kind == "group" and len(plan["tasks"]) == 1 and \
                    got is not regs[3][s[1]]:
                raise Violation("scan-disturbed", "%s: a scan of a group "
                                "did not come to register %d" % (who, s[1]))
            s[1] += 1

    def program(ti, ops):
        who = "program %d" % ti

        def go(t):
            for op in ops:
                sch.point()
                if op[0] == "dump":
                    dump(t, who, op, op[4])
                    continue
                if op[0] == "scan":
                    scan(t, ti, op[1], op[2], who)
                    continue
                t0 = H.tick()
                if op[0] == "ww":
                    v = unique() << 20 | serial[0]
                    sch.traced(t, wset, op[1], v)
                    H.write(("m", op[1]), v, t0, H.tick(), who)
                    continue
                g, n = op[1]
                v = 0
                if op[0] == "clear":
                    # on the register now in the slot
                    sch.traced(t, rclear, g, n)
                elif op[0] == "w":
                    v = unique()
                    sch.traced(t, rset, g, n, v)
                else:
                    v = unique()
                    sch.traced(t, rput, g, n, R.Register(
                        v, model.reg_name(n, v), w))
                H.write(("r", g, n), v, t0, H.tick(), who)
                st.probes["writes"] += 1
        return go

    for ti, ops in enumerate(plan["tasks"]):
        sch.spawn(program(ti, ops))
    if plan["tasks"]:
        sch.run()
    st.add_sched(sch)
    for g in range(8):
        for n in range(32):
            t0 = H.tick()
            H.read(("r", g, n), regs[g][n].value, t0, H.tick(), "at the end")
    if bank is not None:
        for a in range(2048):
            t0 = H.tick()
            H.read(("m", a), bank[a], t0, H.tick(), "at the end")
    H.check(lambda c: 0, lambda c: "register %d of group %d" % (c[2], c[1])
            if c[0] == "r" else "word %d" % c[1])
    st.note(sorted((c, sorted(v)) for c, v in H.cells.items()
                   if len(v) > 3 or any(o[3] for o in v)))
    st.nontrivial = bool(st.probes["writes"]) and any(
        k.startswith("dump-") for k in st.probes)
    st.sig = st.trace.hexdigest()
