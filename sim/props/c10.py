"""C10: memory words are independent, linearizable 48-bit cells."""

from .. import sched as S
from ..core import Violation
from ..lin import History

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 6500, "thorough": 80000}
SHRINK = ["switches", "tasks", "tasks.*"]
RULE = ("2-4 programs with seeded operations (word and range reads and "
        "writes, clears, scans with reads and writes through the scanned "
        "word then and later, refused accesses) on a few hot words of 1-3 banks, a module, "
        "an expansion module or two modules, preempted at seeded bytecode "
        "instructions; every word's history is checked for "
        "linearizability and all other words for zero; non-trivial: a "
        "context switch happened inside an operation")
MEASURE = "distinct (schedule, history) digests of non-trivial runs"
COMPONENTS = {"real": ["h800/memory.py", "h800/word.py", "h800/bitfield.py"],
              "stub": ["thread scheduler"]}
ASSUMPTIONS = ["programs are threads of one interpreter that can be "
               "preempted at any bytecode instruction of the repository",
               "a range read or write is a sequence of independent word "
               "accesses"]

TOP = 2 ** 48 - 1
SHAPES = ["bank"] * 6 + ["banks2"] * 4 + ["module"] * 2 + ["exp"] + ["mods2"]
NBANKS = {"bank": 1, "banks2": 2, "module": 4, "exp": 8, "mods2": 8}


def gen_op(r, shape, hot, nb, heavy):
    b = r.randrange(nb)
    a = r.choice(hot)
    k = r.random()
    if k < 0.30:
        return ["w", b, a]
    if k < 0.55:
        return ["r", b, a]
    lo = max(0, a - r.choice([0, 1, 2]))
    hi = min(2048, a + r.choice([1, 2, 3]))
    if k < 0.65:
        return ["rw", b, lo, hi]
    if k < 0.75:
        return ["rr", b, lo, hi]
    if k < 0.80 and heavy:
        return ["clear", b]
    if k < 0.86:
        # scan: at hot addresses read, or write through the scanned word
        if not heavy and a > 100:
            return ["r", b, a]
        return ["scan", b, r.choice([a + 1, 40, 2048]),
                [r.choice(hot)] if r.random() < 0.5 else []]
    if k < 0.91:
        # through a word obtained by an earlier scan
        return [r.choice(["kw", "kr"]), b, a]
    return ["bad", b, a, r.choice(
        ["neg", "big", "huge", "addr-1", "addr2048", "addr9999", "rd-1",
         "rd2048", "rngend", "rngneg", "rngval", "rngvalneg", "bank",
         "rdrngend", "rdrngneg", "addrneg", "addrover"])]


def gen(r, i, tier):
    shape = r.choice(SHAPES)
    nb = NBANKS[shape]
    base = r.choice([0, 1, 7, 1023, 1024, 2040, 2044, r.randrange(2040)])
    hot = [min(2047, base + d) for d in r.sample(range(8), r.choice([2, 3]))]
    hot = sorted(set(hot + ([2047] if r.random() < 0.2 else [])))
    if nb > 2:
        nb = r.choice([2, nb])
    nt = r.choice([2, 2, 2, 2, 3, 3, 4, 4, 8])
    heavy = r.random() < 0.2
    tasks = [[gen_op(r, shape, hot, nb, heavy) for _ in range(r.choice([3, 5, 8]))]
             for _ in range(nt)]
    if r.random() < 0.008:
        # a range of many words, up to a whole bank
        t = r.choice(tasks)
        lo = r.choice([0, 0, hot[0], r.randrange(1024)])
        hi = r.choice([2048, 2048, 2047, min(2048, lo + 600)])
        t.insert(r.randint(0, len(t)),
                 [r.choice(["rw", "rw", "rr"]), r.randrange(nb), lo, hi])
    scale = r.choice([8, 30, 120, 600])
    sw = [[1 + int(r.expovariate(1.0 / scale)), r.randrange(8)]
          for _ in range(r.choice([5, 15, 40, 100]))]
    return {"shape": shape, "tasks": tasks, "switches": sw,
            "hi": r.random() < 0.5, "audit": r.random() < 0.3,
            "keep": [r.random() < 0.4 for _ in range(nt)]}


def build(shape):
    """Containers to access: [object, banks in it] (None: it is a bank)."""
    from h800 import memory as M
    if shape == "bank":
        return [M.MemoryBank()], None
    if shape == "banks2":
        return [M.MemoryBank(), M.MemoryBank()], None
    if shape == "module":
        return [M.MemoryModule()], 4
    if shape == "exp":
        return [M.ExpansionMemoryModule()], 8
    return [M.MemoryModule(), M.MemoryModule()], 4


def audit(boxes, per):
    """Sizes of everything and both ways to a module's banks."""
    for m in boxes:
        if per:
            if len(m) != per or m.size() != per * 2048:
                raise Violation("wrong-size", "module has %d banks, %d words"
                                % (len(m), m.size()))
            banks = [m[i] for i in range(per)]
            got = m[0:per]
            if len(got) != per or [x[0] for x in got] != \
                    [x[0] for x in banks]:
                raise Violation("wrong-bank", "module[0:%d] is not its banks"
                                % per)
        else:
            banks = [m]
        for b in banks:
            if len(b) != 2048 or b.width != 48:
                raise Violation("wrong-size", "bank has %d words of %r bits"
                                % (len(b), b.width))


def run(plan, st, root):
    boxes, per = build(plan["shape"])
    mods = boxes if per else []
    nb = len(boxes) * (per or 1)
    if plan["audit"]:
        audit(boxes, per)
    H = History()
    sch = S.Sched(plan["switches"])
    serial = [0]

    def fresh():
        serial[0] += 1
        # unique, with bits at both ends of the word
        return serial[0] * 0x800000000001 % (1 << 48) if plan["hi"] and \
            serial[0] % 2 else (serial[0] << 20) + 5

    used = set()

    def unique():
        v = fresh()
        while v in used or v == 0:
            v = fresh()
        used.add(v)
        return v

    def refused(t, who, what, fn, *args):
        try:
            r = sch.traced(t, fn, *args)
        except Exception:
            st.probes["refusals"] += 1
            return
        raise Violation("not-refused", "%s: %s was accepted and gave %r" %
                        (who, what, r))

    def get(b, k):
        return b[k]

    def put(b, k, v):
        b[k] = v

    def program(ti, ops):
        who = "program %d" % ti

        def ok(t, fn, *args):
            try:
                return sch.traced(t, fn, *args)
            except Exception as e:
                raise Violation("access-failed", "%s: %s%r raised %s: %s" % (
                    who, fn.__name__, args[1:], type(e).__name__, e))

        kept = {}

        def bank(t, bi):
            if not mods:
                return boxes[bi]
            if bi in kept and plan["keep"][ti]:
                return kept[bi]
            kept[bi] = ok(t, get, mods[bi // per], bi % per)
            return kept[bi]

        def go(t):
            for op in ops:
                sch.point()
                kind, bi = op[0], op[1] % nb
                b = bank(t, bi)
                t0 = H.tick()
                if kind == "w":
                    v = unique()
                    ok(t, put, b, op[2], v)
                    H.write((bi, op[2]), v, t0, H.tick(), who)
                elif kind == "kw":
                    v = unique()
                    w = words.get((bi, op[2]))
                    if w is None:
                        ok(t, put, b, op[2], v)
                    else:
                        ok(t, setw, w, v)
                        st.probes["kept-words"] += 1
                    H.write((bi, op[2]), v, t0, H.tick(), who)
                elif kind == "kr":
                    w = words.get((bi, op[2]))
                    if w is None:
                        v = ok(t, get, b, op[2])
                    else:
                        v = ok(t, lambda w: w.value, w)
                    H.read((bi, op[2]), v, t0, H.tick(), who)
                elif kind == "r":
                    v = ok(t, get, b, op[2])
                    H.read((bi, op[2]), v, t0, H.tick(), who)
                elif kind == "rw":
                    v = unique()
                    ok(t, put, b, slice(op[2], op[3]), v)
                    t1 = H.tick()
                    for a in range(op[2], op[3]):
                        H.write((bi, a), v, t0, t1, who)
                elif kind == "rr":
                    vs = ok(t, get, b, slice(op[2], op[3]))
                    t1 = H.tick()
                    if len(vs) != op[3] - op[2]:
                        raise Violation("range-wrong", "%s: [%d:%d] gave %d "
                                        "values" % (who, op[2], op[3],
                                                    len(vs)))
                    for a, v in zip(range(op[2], op[3]), vs):
                        H.read((bi, a), v, t0, t1, who)
                elif kind == "clear":
                    ok(t, lambda b: b.clear(), b)
                    t1 = H.tick()
                    clears.append((bi, t0, t1, who))
                    st.probes["clears"] += 1
                elif kind == "scan":
                    scan(t, ok, b, bi, op[2], op[3], who)
                    st.probes["scans"] += 1
                else:
                    bad(t, b, bi, op[2], op[3], who)
        return go

    def setw(w, v):
        w.value = v

    clears = []
    words = {}              # obtained by scans of any program
    hot = set()
    for ops in plan["tasks"]:
        for op in ops:
            if op[0] in ("w", "r", "kw", "kr", "bad"):
                hot.add(op[2])
            elif op[0] in ("rw", "rr"):
                hot.update(range(op[2], op[3]))

    def scan(t, ok, b, bi, stop, writes, who):
        it = ok(t, iter, b)
        for a in range(min(stop, 2048)):
            t0 = H.tick()
            try:
                w = sch.traced(t, next, it) if a in hot or a < 30 else \
                    next(it)
            except StopIteration:
                raise Violation("scan-short", "%s: scan ended after %d words"
                                % (who, a))
            if a in hot:
                words[(bi, a)] = w
            if a in writes:
                v = unique()
                ok(t, setw, w, v)
                H.write((bi, a), v, t0, H.tick(), who)
            elif a in hot:
                v = ok(t, lambda w: w.value, w)
                H.read((bi, a), v, t0, H.tick(), who)

    def bad(t, b, bi, a, what, who):
        if what == "neg":
            refused(t, who, "value -1", put, b, a, -1)
        elif what == "big":
            refused(t, who, "value 2**48", put, b, a, 2 ** 48)
        elif what == "huge":
            refused(t, who, "value 2**48+%d" % a, put, b, a, 2 ** 49 + a)
        elif what == "addr-1":
            refused(t, who, "write at -1", put, b, -1, 7)
        elif what == "addr2048":
            refused(t, who, "write at 2048", put, b, 2048, 7)
        elif what == "addr9999":
            refused(t, who, "write at 9999", put, b, 9999, 7)
        elif what == "rd-1":
            refused(t, who, "read at -1", get, b, -1)
        elif what == "rd2048":
            refused(t, who, "read at 2048", get, b, 2048)
        elif what == "rngend":
            refused(t, who, "range write past the end", put, b,
                    slice(2046, 2050), 7)
        elif what == "rngneg":
            refused(t, who, "range write from -2", put, b, slice(-2, 2), 7)
        elif what == "rdrngend":
            refused(t, who, "range read past the end", get, b,
                    slice(2048 - a % 5, 2049 + a % 7))
        elif what == "rdrngneg":
            refused(t, who, "range read from before the start", get, b,
                    slice(-1 - a % 4, 1 + a % 3))
        elif what == "addrneg":
            refused(t, who, "write at -%d" % (a + 1), put, b, -1 - a, 7)
            refused(t, who, "read at -%d" % (a + 1), get, b, -1 - a)
        elif what == "addrover":
            refused(t, who, "write at %d" % (a + 2048), put, b, a + 2048, 7)
            refused(t, who, "read at %d" % (a + 2048), get, b, a + 2048)
        elif what == "rngval":
            refused(t, who, "range write of 2**48", put, b, slice(a, a + 1),
                    2 ** 48)
        elif what == "rngvalneg":
            refused(t, who, "range write of -5", put, b, slice(a, a + 1), -5)
        elif what == "bank" and mods:
            refused(t, who, "bank number too large", get, mods[0],
                    len(mods[0]))
            refused(t, who, "bank -1", get, mods[0], -1)

    for ti, ops in enumerate(plan["tasks"]):
        sch.spawn(program(ti, ops))
    sch.run()
    st.add_sched(sch)
    # final state, read undisturbed
    touched = set(H.cells)
    audit(boxes, per)
    for bi in range(nb):
        b = mods[bi // per][bi % per] if mods else boxes[bi]
        t0 = H.tick()
        vals = [b[a] for a in range(2048)]
        t1 = H.tick()
        if b[0:2048] != vals or [w.value for w in b] != vals:
            raise Violation("views-differ", "bank %d: single reads, the range "
                            "read and the scan of a quiet bank differ" % bi)
        for a, v in enumerate(vals):
            if (bi, a) in touched:
                H.read((bi, a), v, t0, t1, "at the end")
            elif v != 0:
                raise Violation("stray-write", "word %d of bank %d holds %r "
                                "though nobody wrote it" % (a, bi, v))
    for bi, t0, t1, who in clears:
        for cell in touched:
            if cell[0] == bi:
                H.write(cell, 0, t0, t1, who)
    H.check(lambda c: 0, lambda c: "word %d of bank %d" % (c[1], c[0]))
    n = sum(len(v) for v in H.cells.values())
    st.probes["accesses"] += n
    st.probes["shape-" + plan["shape"]] += 1
    st.note(sorted((c, sorted(v)) for c, v in H.cells.items()))
    st.nontrivial = sch.nswitch > 0 and n > 3
    st.sig = st.trace.hexdigest()
