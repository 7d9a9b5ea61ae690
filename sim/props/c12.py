"""C12: a refused or interrupted write is all or nothing and stays in its
field."""

from .. import sched as S
from ..core import Violation

ID = "C12"
LEVEL = "fault_enumeration"
RUNS = {"quick": 32000, "thorough": 150000}
SHRINK = ["ops"]
RULE = ("seeded histories of writes to bits, bit ranges, fields and whole "
        "values of words, instruction words, registers (16 and 24 bits) and "
        "memory words and ranges, each undisturbed, with a value or position "
        "out of range, or with a KeyboardInterrupt or MemoryError at a "
        "seeded bytecode instruction of the write (positions from a dry run "
        "on a twin); non-trivial: a write was refused or interrupted inside "
        "the repository's code")
MEASURE = "distinct event-log digests of non-trivial runs"
COMPONENTS = {"real": ["h800/word.py", "h800/registers.py", "h800/memory.py",
                       "h800/bitfield.py"],
              "stub": ["signal delivery and allocation failure (trace "
                       "hook)"]}
ASSUMPTIONS = ["an interrupt or allocation failure is an exception raised "
               "between two bytecode instructions",
               "a range write to memory is a sequence of word writes"]

FIELDS = {"command": (1, 12), "a": (13, 24), "b": (25, 36), "c": (37, 48)}


def gen_value(r, n):
    k = r.random()
    if k < 0.25:
        return (1 << n) - 1
    if k < 0.35:
        return 0
    if k < 0.45:
        return 1 << r.randrange(n)
    return r.randrange(1 << n)


def gen_op(r, w, kind):
    """[what, a, b, value, bad, fault]"""
    q = r.random()
    bad = r.random() < 0.18
    if kind == "iword" and q < 0.5:
        f = r.choice(sorted(FIELDS))
        lo, hi = FIELDS[f]
        v = gen_value(r, 12)
        if bad:
            v = r.choice([-1, 4096, 1 << 20, -4096])
        op = ["field", f, None, v, bad]
    elif q < 0.3:
        v = gen_value(r, w)
        if bad:
            v = r.choice([-1, 1 << w, (1 << w) + 5, -(1 << w)])
        op = ["value", None, None, v, bad]
    elif q < 0.5:
        i = r.choice([1, 2, w - 1, w, r.randint(1, w)])
        v = r.randrange(2)
        if bad:
            k = r.randrange(4)
            if k == 0:
                i = 0
            elif k == 1:
                i = w + 1
            elif k == 2:
                v = 2
            else:
                v = -1
        op = ["bit", i, None, v, bad]
        if not kind.startswith("reg") and v in (0, 1) and r.random() < 0.4:
            op[0] = "one" if v else "zero"      # data.set(i), data.clear(i)
    elif q < 0.56:
        bad = False
        op = ["ones", None, None, (1 << w) - 1, bad]
        if kind.startswith("reg") or r.random() < 0.5:
            op = ["zeros", None, None, 0, bad]
    else:
        a = r.choice([1, 2, r.randint(1, w)])
        b = r.choice([w, r.randint(a, w), a])
        v = gen_value(r, b - a + 1)
        if bad:
            k = r.randrange(5)
            if k == 0:
                a = 0
            elif k == 1:
                b = w + r.randint(1, 3)
            elif k == 2:
                v = 1 << (b - a + 1)
            elif k == 3:
                v = -1
            else:
                a, b = max(b, 2), 1
                v = 0
        op = ["range", a, b, v, bad]
    fault = None
    if r.random() < (0.75 if not bad else 0.2):
        fault = [round(r.random(), 6), r.choice(["KI", "KI", "ME"])]
    return op + [fault]


def gen(r, i, tier):
    kind = r.choice(["word", "iword", "iword", "reg16", "reg24", "mem"])
    w = {"reg16": 16, "reg24": 24}.get(kind, 48)
    ops = []
    for _ in range(r.choice([2, 4, 8])):
        if kind == "mem":
            a = r.choice([0, 1, 100, 2046, 2047])
            q = r.random()
            bad = r.random() < 0.2
            v = gen_value(r, 48)
            fault = [round(r.random(), 6), r.choice(["KI", "ME"])] \
                if r.random() < 0.7 else None
            if q < 0.5:
                if bad:
                    if r.random() < 0.5:
                        v = r.choice([-1, 1 << 48])
                    else:
                        a = r.choice([-1, 2048])
                ops.append(["mw", a, None, v, bad, fault])
            else:
                n = r.choice([1, 2, 3])
                b = min(2048, a + n)
                if bad:
                    if r.random() < 0.5:
                        v = r.choice([-1, 1 << 48])
                    else:
                        a, b = r.choice([(2045, 2049), (-2, 2), (2047, 2050)])
                ops.append(["mr", a, b, v, bad, fault])
        else:
            ops.append(gen_op(r, w, kind))
    return {"kind": kind, "init": gen_value(r, w), "ops": ops}


_bank = {}


def make(kind, init):
    if kind == "word":
        from h800.word import Word
        return Word(init)
    if kind == "iword":
        from h800.word import InstructionWord
        return InstructionWord(init >> 36, init >> 24 & 4095,
                               init >> 12 & 4095, init & 4095)
    if kind in ("reg16", "reg24"):
        from h800.registers import Register
        return Register(init, "X3", 16 if kind == "reg16" else 24)
    from h800.memory import MemoryBank
    return MemoryBank()


def apply(kind, obj, op):
    what, a, b, v = op[:4]
    cell = obj if kind.startswith("reg") else getattr(obj, "data", obj)
    if what == "field":
        setattr(obj, a, v)
    elif what == "value":
        obj.value = v
    elif what == "bit":
        cell[a] = v
    elif what == "range":
        cell[a:b] = v
    elif what == "one":
        cell.set(a)
    elif what == "zero":
        cell.clear(a)
    elif what == "ones":
        cell.set()
    elif what == "zeros":
        cell.clear()
    elif what == "mw":
        obj[a] = v
    else:
        obj[a:b] = v


def after(op, old, w):
    """Value of the whole cell after an undisturbed write."""
    what, a, b, v = op[:4]
    if what in ("value", "ones", "zeros"):
        return v
    if what == "field":
        a, b = FIELDS[a]
    elif what in ("bit", "one", "zero"):
        b = a
    sh = w - b
    m = ((1 << b - a + 1) - 1) << sh
    return old & ~m | v << sh


def readback(kind, obj, w):
    """Every way of reading the cell must agree."""
    v = obj.value
    if kind == "iword":
        parts = [obj.command, obj.a, obj.b, obj.c]
        if parts != [v >> 36 & 4095, v >> 24 & 4095, v >> 12 & 4095,
                     v & 4095]:
            raise Violation("fields-disagree", "fields %r of an instruction "
                            "word that holds %o" % (parts, v))
    cell = obj if kind.startswith("reg") else obj.data
    if cell[1:w] != v or cell[1] != v >> w - 1 or cell[w] != v & 1:
        raise Violation("fields-disagree", "bits of a cell that holds %o" % v)
    return v


def run(plan, st, root):
    kind = plan["kind"]
    w = {"reg16": 16, "reg24": 24}.get(kind, 48)
    sch = S.Sched([], max_steps=1 << 50)
    task = S.Task(0, None)
    sch.cur = task
    if kind == "mem":
        return run_mem(plan, st, sch, task)
    obj = make(kind, plan["init"])
    near = [make(kind, plan["init"]), make("word", 12345)]
    cur = readback(kind, obj, w)
    if cur != plan["init"]:
        raise Violation("value-wrong", "%s built from %o holds %o" %
                        (kind, plan["init"], cur))
    for k, op in enumerate(plan["ops"]):
        bad, fault = op[4], op[5]
        fl = None
        if fault:
            twin = make(kind, cur)

            def dry():
                try:
                    apply(kind, twin, op)
                except Exception:
                    pass
            n = S.count_steps(dry)
            fl = (1 + int(fault[0] * n),) + \
                ((KeyboardInterrupt, 1) if fault[1] == "KI" else
                 (MemoryError, 2))
        what = "write %d: %s" % (k, op[:4])
        exc = None
        try:
            sch.traced(task, apply, kind, obj, op, fault=fl)
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        fired = task.fired
        got = readback(kind, obj, w)
        st.note(k, op[:4], type(exc).__name__, fired, got)
        if fired:
            st.faults["async:" + fault[1]] += 1
            what += " with %s in %s" % (fault[1], fired[0])
        if bad:
            if exc is None:
                raise Violation("not-refused", "%s was accepted" % what)
            if got != cur:
                raise Violation("refused-but-changed", "%s was refused (%s) "
                                "but changed the cell from %o to %o" % (
                                    what, exc, cur, got))
            st.probes["refusals"] += 1
            st.nontrivial = True
        else:
            new = after(op, cur, w)
            if exc is None:
                if got != new:
                    raise Violation("write-wrong", "%s left %o in a cell that "
                                    "held %o, expected %o" % (what, got, cur,
                                                              new))
            elif not fired:
                raise Violation("write-failed", "%s was refused: %s: %s" % (
                    what, type(exc).__name__, exc))
            elif got not in (cur, new):
                raise Violation("torn-write", "%s left %o in a cell that held "
                                "%o and should hold %o" % (what, got, cur,
                                                           new))
            else:
                st.nontrivial = True
                st.probes["interrupted-%s" % (
                    "new" if got == new and new != cur else "old")] += 1
        cur = got
        if near[0].value != plan["init"] or near[1].value != 12345:
            raise Violation("stray-write", "%s changed another cell" % what)
    # operations work normally afterwards
    full = (1 << w) - 1
    for op in (["value", None, None, cur ^ full], ["bit", 1, None, 1],
               ["bit", w, None, 0], ["range", 3, w - 2, 5]):
        new = after(op, cur, w)
        try:
            apply(kind, obj, op)
        except Exception as e:
            raise Violation("write-failed", "later write %s failed: %s" %
                            (op, e))
        cur = readback(kind, obj, w)
        if cur != new:
            raise Violation("write-wrong", "later write %s left %o, expected "
                            "%o" % (op, cur, new))
    st.steps += sch.steps
    st.probes["kind-" + kind] += 1
    st.sig = st.trace.hexdigest()


def run_mem(plan, st, sch, task):
    obj = make("mem", 0)
    other = make("mem", 0)
    cur = {}
    for k, op in enumerate(plan["ops"]):
        what_, a, b, v, bad, fault = op
        fl = None
        if fault:
            def dry():
                try:
                    apply("mem", other, op)
                except Exception:
                    pass
            n = S.count_steps(dry)
            for x in range(max(0, a), min(2048, b if b is not None
                                          else a + 1)):
                other[x] = 0
            fl = (1 + int(fault[0] * n),) + \
                ((KeyboardInterrupt, 1) if fault[1] == "KI" else
                 (MemoryError, 2))
        what = "write %d: %s" % (k, op[:4])
        exc = None
        try:
            sch.traced(task, apply, "mem", obj, op, fault=fl)
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        fired = task.fired
        if fired:
            st.faults["async:" + fault[1]] += 1
            what += " with %s in %s" % (fault[1], fired[0])
        vals = obj[0:2048]
        span = range(a, b if b is not None else a + 1)
        st.note(k, op[:4], type(exc).__name__, fired)
        for x in range(2048):
            old = cur.get(x, 0)
            if x in span and not bad:
                allow = (v,) if exc is None else (old, v)
            else:
                allow = (old,)
            if vals[x] not in allow:
                raise Violation(
                    "stray-write" if x not in span else
                    "refused-but-changed" if bad else
                    "torn-write" if exc is not None else "write-wrong",
                    "%s: word %d is %o, was %o (%s)" % (
                        what, x, vals[x], old, exc))
            if vals[x] != old:
                cur[x] = vals[x]
        if bad:
            if exc is None:
                raise Violation("not-refused", what + " was accepted")
            st.probes["refusals"] += 1
            st.nontrivial = True
        elif exc is not None:
            if not fired:
                raise Violation("write-failed", "%s was refused: %s" %
                                (what, exc))
            st.nontrivial = True
            st.probes["interrupted"] += 1
    for x, v in ((0, 7), (2047, 1 << 47)):
        obj[x] = v
        if obj[x] != v:
            raise Violation("write-wrong", "later write to word %d" % x)
    if any(other[0:2048]):
        raise Violation("stray-write", "another bank changed")
    st.steps += sch.steps
    st.probes["kind-mem"] += 1
    st.sig = st.trace.hexdigest()
