"""C17: bit-fields of every kind keep their own settings and bits."""

import operator

from .. import sched as S
from ..core import Violation

ID = "C17"
LEVEL = "fault_enumeration"
RUNS = {"quick": 40000, "thorough": 250000}
SHRINK = ["switches", "tasks", "tasks.*"]
RULE = ("2-6 bit-fields of seeded widths (1-64) in all eight order and "
        "numbering schemes, used by 1-4 programs (each field changed by one "
        "of them, its value and bits read by all): whole-value, bit and "
        "range reads, writes, sets, clears and tests, look-ups of the "
        "settings, prints, new fields, and requests out of range, with "
        "interrupts and allocation failures at seeded bytecode instructions "
        "(one program) or preemption at seeded bytecode instructions "
        "(several); every answer and every field is compared with a model "
        "that knows only the weight of each bit; non-trivial: two fields of "
        "different kinds used and one changed")
MEASURE = "distinct (schedule, history) digests of non-trivial runs"
COMPONENTS = {"real": ["h800/bitfield.py"],
              "stub": ["thread scheduler",
                       "signal delivery and allocation failure (trace "
                       "hook)"]}
ASSUMPTIONS = ["changes to one bit-field are made by one program at a time",
               "widths from 1 to 64; ranges without a step, with both ends "
               "given",
               "an interrupt or allocation failure is an exception raised "
               "between two bytecode instructions"]

WIDTHS = [1, 2, 3, 4, 7, 8, 8, 12, 15, 16, 24, 31, 32, 33, 47, 48, 63, 64]


def gen_value(r, n):
    k = r.random()
    if k < 0.2:
        return (1 << n) - 1
    if k < 0.3:
        return 0
    if k < 0.45:
        return 1 << r.randrange(n)
    return r.randrange(1 << n)


def gen_field(r):
    w = r.choice(WIDTHS + [r.randint(1, 64)])
    return [w, r.randrange(4), r.randrange(2), gen_value(r, w)]


def lo_hi(f):
    """Smallest and largest index of field f = [width, numbering, ...]"""
    return (0, f[0] - 1) if f[1] in (0, 2) else (1, f[0])


def weight(f, i):
    """Power of two of the bit with index i."""
    w, nb = f[0], f[1]
    return (i, i - 1, w - 1 - i, w - i)[nb]


def gen_range(r, f):
    lo, hi = lo_hi(f)
    a = r.choice([lo, hi, r.randint(lo, hi)])
    b = r.choice([lo, hi, a, r.randint(lo, hi), min(hi, a + 1)])
    # first index on the left: the more significant one iff MSB is left
    if (weight(f, a) > weight(f, b)) == (f[2] == 1) and a != b:
        a, b = b, a
    return a, b


def gen_op(r, f):
    """[what, a, b, value, bad]"""
    w = f[0]
    lo, hi = lo_hi(f)
    bad = r.random() < 0.12
    q = r.random()
    i = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi)])
    out = r.choice([lo - 1, hi + 1, hi + 7, -9, hi + 65])
    if q < 0.08:
        return ["settings", None, None, None, False]
    if q < 0.13:
        return [r.choice(["repr", "int", "index", "get"]), None, None, None,
                False]
    if q < 0.22:
        v = gen_value(r, w)
        if bad:
            v = r.choice([-1, 1 << w, (1 << w) + 3, -(1 << w)])
        return ["put", None, None, v, bad]
    if q < 0.27:
        return [r.choice(["setall", "clearall"]), None, None, None, False]
    if q < 0.36:
        return [r.choice(["isset", "isclr", "is0", "is1", "bit"]),
                out if bad else i, None, None, bad]
    if q < 0.44:
        return [r.choice(["set1", "clr1"]), out if bad else i, None, None,
                bad]
    if q < 0.54:
        v = r.choice([0, 1, 0, 1, 0, 1, False, True])
        if bad:
            if r.random() < 0.5:
                v = r.choice([2, -1, 3])
            else:
                i = out
        return ["putbit", i, None, v, bad]
    a, b = gen_range(r, f)
    if bad:
        k = r.randrange(3)
        if k == 0:
            a = out
        elif k == 1:
            b = out
        elif a != b:
            a, b = b, a
        else:
            a = out
    if q < 0.545:
        return ["r2", a, b, r.choice([2, -1]), True]
    if q < 0.66:
        return [r.choice(["range", "range", "rset", "rclr", "r0", "r1"]),
                a, b, None, bad]
    n = abs(a - b) + 1
    v = 0 if bad else gen_value(r, n)
    if not bad and r.random() < 0.12:
        v, bad = r.choice([-1, 1 << n, (1 << n) + 1]), True
    return ["putrange", a, b, v, bad]


def gen(r, i, tier):
    nt = r.choice([1, 1, 1, 1, 2, 2, 3, 3, 4, 4, 8])
    fields = [gen_field(r) for _ in range(max(nt, r.choice([2, 3, 4, 6])))]
    if r.random() < 0.4:
        # the same width in another scheme, the same scheme in another width
        w, nb, o, v = fields[0]
        fields.append([w, r.randrange(4), r.randrange(2), v])
        w2 = r.choice(WIDTHS)
        fields.append([w2, nb, o, v & (1 << w2) - 1])
    tasks = []
    known = [[f, k % nt] for k, f in enumerate(fields)]
    for t in range(nt):
        ops = []
        mine = [k for k, x in enumerate(known) if x[1] == t]
        for _ in range(r.choice([4, 8, 14])):
            q = r.random()
            if q < 0.06:
                k = r.randrange(8)
                f = gen_field(r)
                if k == 0:
                    f[0] = r.choice([65, 100, 1000])
                elif k == 1:
                    f[3] = r.choice([1 << f[0], (1 << f[0]) + 1, -1,
                                     -(1 << f[0])])
                elif k == 2:
                    f[1] = r.choice([4, -1, 17, "LSB"])
                elif k == 3:
                    f[2] = r.choice([2, -1, 5])
                ops.append(["new", f, k < 4])
                continue
            if q < 0.12 and nt > 1:
                n = r.randrange(len(fields))
                lo, hi = lo_hi(fields[n])
                ops.append(["look", n, r.choice([None,
                                                 r.randint(lo, hi)])])
                continue
            n = r.choice(mine)
            op = gen_op(r, fields[n])
            fault = None
            if nt == 1 and r.random() < 0.25:
                fault = [round(r.random(), 6), r.choice(["KI", "ME"])]
            ops.append(["do", n, op, fault])
        tasks.append(ops)
    sw = []
    if nt > 1:
        scale = r.choice([3, 10, 40])
        sw = [[1 + int(r.expovariate(1.0 / scale)), r.randrange(8)]
              for _ in range(r.choice([4, 12, 40]))]
    return {"fields": fields, "tasks": tasks, "switches": sw}


def apply(b, op):
    what, i, j, v = op[:4]
    if what == "get":
        return b.value
    if what == "int":
        return int(b)
    if what == "index":
        return operator.index(b)
    if what == "repr":
        return repr(b)
    if what == "settings":
        return (b.width, len(b), b.maxval, b.numbering, b.order,
                list(b.indices), b.lsb, b.msb)
    if what == "put":
        b.value = v
    elif what == "setall":
        b.set()
    elif what == "clearall":
        b.clear()
    elif what == "isset":
        return bool(b.isBitSet(i))
    elif what == "isclr":
        return bool(b.isBitClr(i))
    elif what == "is0":
        return bool(b.isBit(i, 0))
    elif what == "is1":
        return bool(b.isBit(i, 1))
    elif what == "bit":
        return b[i]
    elif what == "set1":
        b.set(i)
    elif what == "clr1":
        b.clear(i)
    elif what == "putbit":
        b[i] = v
    elif what == "range":
        return b[i:j]
    elif what == "rset":
        return bool(b.isRangeSet(i, j))
    elif what == "rclr":
        return bool(b.isRangeClr(i, j))
    elif what == "r0":
        return bool(b.isRange(i, j, 0))
    elif what == "r1":
        return bool(b.isRange(i, j, 1))
    elif what == "r2":
        return b.isRange(i, j, v)
    elif what == "putrange":
        b[i:j] = v
    return None


def expect(f, cur, op):
    """-> answer, new value"""
    what, i, j, v = op[:4]
    w, nb, o = f[:3]
    full = (1 << w) - 1
    if what in ("get", "int", "index"):
        return cur, cur
    if what == "repr":
        return "".join("1" if cur >> k & 1 else "0"
                       for k in range(w - 1, -1, -1)), cur
    if what == "settings":
        # left to right
        lo, hi = lo_hi(f)
        idx = sorted(range(lo, hi + 1), key=lambda x: weight(f, x),
                     reverse=o == 0)
        return (w, w, full, nb, o, idx,
                min(idx, key=lambda x: weight(f, x)),
                max(idx, key=lambda x: weight(f, x))), cur
    if what == "put":
        return None, v
    if what == "setall":
        return None, full
    if what == "clearall":
        return None, 0
    if j is None:
        m = 1 << weight(f, i)
        on = bool(cur & m)
        if what in ("isset", "is1"):
            return on, cur
        if what in ("isclr", "is0"):
            return not on, cur
        if what == "bit":
            return int(on), cur
        if what == "set1" or what == "putbit" and v:
            return None, cur | m
        return None, cur & ~m
    a, b = sorted((weight(f, i), weight(f, j)))
    m = (1 << b - a + 1) - 1
    sub = cur >> a & m
    if what == "range":
        return sub, cur
    if what in ("rset", "r1"):
        return sub == m, cur
    if what in ("rclr", "r0"):
        return sub == 0, cur
    return None, cur & ~(m << a) | v << a


SCHEMES = ["LSB 0", "LSB 1", "MSB 0", "MSB 1"]


def name(f):
    return "a %d-bit field (%s, %s left)" % (
        f[0], SCHEMES[f[1]], "LSB" if f[2] else "MSB")


def run(plan, st, root):
    from h800.bitfield import BitField
    NB = [BitField.BIT_SCHEME_LSB_0, BitField.BIT_SCHEME_LSB_1,
          BitField.BIT_SCHEME_MSB_0, BitField.BIT_SCHEME_MSB_1]
    ORD = [BitField.BIT_ORDER_MSB_LEFT, BitField.BIT_ORDER_LSB_LEFT]

    def code(table, x):
        return table[x] if isinstance(x, int) and 0 <= x < len(table) else x

    def make(f):
        return BitField(f[3], width=f[0], numbering=code(NB, f[1]),
                        order=code(ORD, f[2]))

    fields = plan["fields"]
    objs, cur, hist = [], [], []
    for f in fields:
        b = make(f)
        objs.append(b)
        cur.append(f[3])
        hist.append([f[3]])
    extra = []                  # fields made on the way: never changed
    pending = {}
    sch = S.Sched(plan["switches"], max_steps=20_000_000)
    single = len(plan["tasks"]) == 1
    kinds = set()
    changed = [0]

    def normal(op, got):
        if op[0] == "settings":
            got = list(got)
            for k, table in ((3, NB), (4, ORD)):
                got[k] = table.index(got[k]) if got[k] in table else got[k]
            got = tuple(got)
        return got

    def check_all(what):
        for n, f in enumerate(fields):
            if objs[n].value != cur[n]:
                raise Violation("stray-write", "%s: %s holds %s, expected %s"
                                % (what, name(f), bin(objs[n].value),
                                   bin(cur[n])))
        for f, b in extra:
            if b.value != f[3] or b.width != f[0]:
                raise Violation("stray-write", "%s: %s holds %s, expected %s"
                                % (what, name(f), bin(b.value), bin(f[3])))

    def do(t, who, n, op, fl):
        f = fields[n]
        lo, hi = lo_hi(f)
        bad = op[4]
        fault = None
        if fl:
            twin = make(f[:3] + [cur[n]])

            def dry():
                try:
                    apply(twin, op)
                except Exception:
                    pass
            k = S.count_steps(dry)
            fault = (1 + int(fl[0] * k),) + (
                (KeyboardInterrupt, 1) if fl[1] == "KI" else
                (MemoryError, 2))
        what = "%s: %s on %s holding %s" % (who, op[:4], name(f),
                                            bin(cur[n]))
        want, new = (None, cur[n]) if bad else expect(f, cur[n], op)
        pending[n] = new
        exc = got = None
        try:
            got = sch.traced(t, apply, objs[n], op, fault=fault)
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        fired = t.fired if fault else None
        now = objs[n].value
        kinds.add(tuple(f[:3]))
        st.probes["scheme-%s-%s" % (SCHEMES[f[1]].replace(" ", ""),
                                    "LSBleft" if f[2] else "MSBleft")] += 1
        st.note(n, op[:4], type(exc).__name__, fired, now)
        if fired:
            st.faults["async:" + fl[1]] += 1
            what += " with %s in %s" % (fl[1], fired[0])
        if bad:
            if exc is None:
                raise Violation("not-refused", "%s was accepted" % what)
            if now != cur[n]:
                raise Violation("refused-but-changed", "%s was refused, but "
                                "the field now holds %s" % (what, bin(now)))
            st.probes["refusals"] += 1
        elif exc is not None:
            if not fired:
                raise Violation("op-failed", "%s raised %s: %s" % (
                    what, type(exc).__name__, exc))
            if now not in (cur[n], new):
                raise Violation("torn-write", "%s left %s" % (what,
                                                              bin(now)))
            st.probes["interrupted"] += 1
        else:
            if normal(op, got) != want:
                raise Violation("answer-wrong", "%s gave %r, expected %r" % (
                    what, got, want))
            if now != new:
                raise Violation("write-wrong", "%s left %s, expected %s" % (
                    what, bin(now), bin(new)))
        if now != cur[n]:
            changed[0] += 1
        cur[n] = now
        hist[n].append(now)
        pending.pop(n, None)
        if single:
            check_all(what)

    def new(t, who, f, bad):
        what = "%s: new bit-field %r" % (who, f)
        try:
            b = sch.traced(t, make, f)
        except Exception as e:
            if not bad:
                raise Violation("op-failed", "%s raised %s: %s" % (
                    what, type(e).__name__, e))
            st.probes["refusals"] += 1
            return
        if bad:
            raise Violation("not-refused", what + " was accepted")
        extra.append([f, b])
        kinds.add(tuple(f[:3]))

    def look(t, who, n, i):
        f = fields[n]
        start = len(hist[n]) - 1
        got = sch.traced(t, apply, objs[n], ["get" if i is None else "bit",
                                             i, None, None])
        vals = hist[n][start:] + ([pending[n]] if n in pending else [])
        ok = vals if i is None else [v >> weight(f, i) & 1 for v in vals]
        st.probes["looks"] += 1
        st.note("look", n, i, got)
        if got not in ok:
            raise Violation("answer-wrong", "%s: read %r from %s, which held "
                            "%s" % (who, got, name(f), [bin(v)
                                                        for v in vals]))

    def program(ti, ops):
        who = "program %d" % ti

        def go(t):
            for op in ops:
                sch.point()
                if op[0] != "new" and op[1] >= len(fields):
                    continue
                if op[0] == "do":
                    do(t, who, op[1], op[2], op[3])
                elif op[0] == "new":
                    new(t, who, op[1], op[2])
                else:
                    look(t, who, op[1], op[2])
        return go

    for ti, ops in enumerate(plan["tasks"]):
        sch.spawn(program(ti, ops))
    if plan["tasks"]:
        sch.run()
    st.add_sched(sch)
    check_all("at the end")
    for n, f in enumerate(fields):
        for op in (["settings", None, None, None, False],
                   ["repr", None, None, None, False]):
            try:
                got = normal(op, apply(objs[n], op))
            except Exception as e:
                raise Violation("op-failed", "at the end: %s of %s raised %s"
                                % (op[0], name(f), e))
            want = expect(f, cur[n], op)[0]
            if got != want:
                raise Violation("answer-wrong", "at the end: %s of %s is %r, "
                                "expected %r" % (op[0], name(f), got, want))
    st.nontrivial = len(kinds) > 1 and changed[0] > 0
    st.sig = st.trace.hexdigest()
