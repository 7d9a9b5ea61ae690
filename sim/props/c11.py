"""C11: eight register groups of 32 independent, linearizable registers."""

from .. import model
from .. import sched as S
from ..core import Violation
from ..lin import History

ID = "C11"
LEVEL = "exploration"
RUNS = {"quick": 24000, "thorough": 150000}
SHRINK = ["switches", "tasks", "tasks.*"]
RULE = ("2-4 programs with seeded whole-register reads, writes and clears on "
        "shared registers, bit and bit-range reads and writes, slot "
        "replacement and whole accesses on registers they own (read by the "
        "others), by number and by name, whole groups put into or cleared in "
        "the file by their owner, name and number look-ups, and refused "
        "accesses, on one or two "
        "register files of width 16 or 24, preempted at seeded bytecode "
        "instructions; every register's history is checked for "
        "linearizability and all others for zero; non-trivial: a context "
        "switch happened inside an operation")
MEASURE = "distinct (schedule, history) digests of non-trivial runs"
COMPONENTS = {"real": ["h800/registers.py", "h800/bitfield.py"],
              "stub": ["thread scheduler"]}
ASSUMPTIONS = ["programs are threads of one interpreter that can be "
               "preempted at any bytecode instruction of the repository",
               "a partial write is a read-modify-write of the whole register "
               "and is made only by the register's owner"]

NAMES = ("AU1 AU2 SC CSC SH CSH UTR MXR X0 X1 X2 X3 X4 X5 X6 X7 R0 R1 R2 R3 "
         "R4 R5 R6 R7 S0 S1 S2 S3 S4 S5 S6 S7").split()
UNKNOWN = ["x1", "X8", "R8", "S8", "AU3", "AU0", "X", "", " X1", "SC ", "sc",
           "9", "X10"]
BAD = ["name", "num-1", "num32", "num99", "grp-1", "grp8", "grpstr",
       "val", "valneg", "valbig", "bit0", "bitw1", "bit-3", "rng0", "rngw1",
       "rngrev", "rngval", "rngneg", "bitval", "bitneg", "setname", "setnum",
       "slice", "gslice", "rdbit0", "rdrng", "newwidth", "newname", "newval",
       "setgrp8", "setgrp-1", "setgrpstr", "setgslice", "lkname", "lknum",
       "lkneg", "lkalias"]
ALIASES = {"RAC": 28, "DRAC": 29, "WAC": 30, "DWAC": 31}


def gen(r, i, tier):
    nf = r.choice([1, 1, 2])
    widths = [r.choice([16, 24]) for _ in range(nf)]
    nt = r.choice([2, 2, 2, 2, 3, 3, 4, 4, 8])
    cells = []
    while len(cells) < max(6, 2 + nt):
        c = [r.randrange(nf), r.choice([0, 1, 3, 7, r.randrange(8)]),
             r.choice([0, 2, 15, 16, 31, r.randrange(32)])]
        if c not in cells:
            cells.append(c)
    shared = cells[:2]
    owned = {str(t): [cells[2 + t]] for t in range(nt)}
    # groups of which one program owns every register
    free = [[fi, g] for fi in range(nf) for g in range(8)
            if not any(c[:2] == [fi, g] for c in cells)]
    r.shuffle(free)
    ggrp = {}
    for t in range(nt):
        if free and r.random() < 0.35:
            ggrp[t] = free.pop()
            ns = r.sample(range(32), 2)
            owned[str(t)] += [ggrp[t] + [n] for n in ns]
            cells += [ggrp[t] + [n] for n in ns]
    tasks = []
    for t in range(nt):
        ops = []
        for _ in range(r.choice([3, 6, 10])):
            k = r.random()
            nm = r.random() < 0.5
            if t in ggrp and r.random() < 0.25:
                n = r.choice(owned[str(t)][1:])[2]
                ops.append(["gclear", ggrp[t] + [n], nm]
                           if r.random() < 0.3 else
                           ["gput", ggrp[t] + [n], nm,
                            r.choice([[n], [n, 0], [n, 31], []])])
            elif k < 0.42:
                c = r.choice(shared)
                ops.append([r.choice(["r", "w", "w", "r", "c", "r", "w", "w",
                                      "put"]), c, nm])
            elif k < 0.80:
                c = r.choice(owned[str(t)])
                w = widths[c[0]]
                q = r.random()
                a = r.randint(1, w)
                b = r.randint(a, w)
                if q < 0.2:
                    ops.append(["bw", c, nm, a, r.randrange(2)])
                elif q < 0.35:
                    ops.append(["br", c, nm, a])
                elif q < 0.6:
                    ops.append(["sw", c, nm, a, b,
                                r.choice([0, 2 ** (b - a + 1) - 1,
                                          r.randrange(2 ** (b - a + 1))])])
                elif q < 0.72:
                    ops.append(["sr", c, nm, a, b])
                elif q < 0.82:
                    ops.append(["w", c, nm])
                elif q < 0.9:
                    ops.append(["r", c, nm])
                elif q < 0.94:
                    ops.append(["c", c, nm])
                else:
                    ops.append(["put", c, nm])
            elif k < 0.87:
                ops.append(["r", r.choice(cells), nm])
            elif k < 0.90:
                ops.append(["look", r.choice(cells), nm])
            else:
                ops.append(["bad", r.choice(cells[:2] + owned[str(t)]), nm,
                            r.choice(BAD)])
        tasks.append(ops)
    scale = r.choice([6, 20, 60, 250])
    sw = [[1 + int(r.expovariate(1.0 / scale)), r.randrange(8)]
          for _ in range(r.choice([5, 15, 40, 100]))]
    return {"widths": widths, "tasks": tasks, "switches": sw,
            "audit": r.random() < 0.3,
            "own": [owned[str(t)] for t in range(nt)]}


def audit(files, widths, renamed=()):
    """Sizes, names and distinctness of all registers."""
    for fi, (f, w) in enumerate(zip(files, widths)):
        if len(f) != 8 or f.width != w:
            raise Violation("wrong-size", "register file has %d groups of "
                            "width %r" % (len(f), f.width))
        for g in range(8):
            if len(f[g]) != 32 or f[g].width != w:
                raise Violation("wrong-size", "group %d has %d registers of "
                                "width %r" % (g, len(f[g]), f[g].width))
            for n in range(32):
                if f[g][n] is not f[g][NAMES[n]]:
                    raise Violation("name-wrong", "register %d and %s of "
                                    "group %d are different" % (n, NAMES[n],
                                                                g))
                if f[g][n].name != NAMES[n] and (fi, g, n) not in renamed \
                        or f[g][n].width != w or len(f[g][n]) != w:
                    raise Violation("name-wrong", "register %d of group %d "
                                    "is named %r, width %r" % (
                                        n, g, f[g][n].name, f[g][n].width))
    ids = {id(f[g][n]) for f in files for g in range(8) for n in range(32)}
    if len(ids) != 256 * len(files):
        raise Violation("shared-cell", "two registers are one object")


def run(plan, st, root):
    from h800 import registers as R
    files = [R.Registers(width=w) for w in plan["widths"]]
    H = History()
    sch = S.Sched(plan["switches"])
    widths = plan["widths"]
    if plan["audit"]:
        audit(files, widths)
    serial = [0]
    renamed = set()

    def unique(w):
        serial[0] += 1
        v = serial[0] * 40503 % 65521
        return v if w == 16 else v + (serial[0] % 251 << 16)

    def rget(f, g, k):
        return f[g][k].value

    def rset(f, g, k, v):
        f[g][k].value = v

    def rclear(f, g, k):
        f[g][k].clear()

    def bget(f, g, k, i):
        return f[g][k][i]

    def bset(f, g, k, i, v):
        f[g][k][i] = v

    def fget(f, g):
        return f[g]

    def fset(f, g, v):
        f[g] = v

    def gclear(f, g):
        f[g].clear()

    def gset(f, g, k, v):
        f[g][k] = v

    def program(ti, ops):
        who = "program %d" % ti

        def ok(t, fn, *args):
            try:
                return sch.traced(t, fn, *args)
            except Exception as e:
                raise Violation("access-failed", "%s: %s%r raised %s: %s" % (
                    who, fn.__name__, args[1:], type(e).__name__, e))

        def refused(t, what, fn, *args):
            try:
                r = sch.traced(t, fn, *args)
            except Exception:
                st.probes["refusals"] += 1
                return
            raise Violation("not-refused", "%s: %s was accepted and gave %r" %
                            (who, what, r))

        def go(t):
            mine = {}
            for op in ops:
                sch.point()
                kind, cell, nm = op[0], tuple(op[1]), op[2]
                fi, g, n = cell
                if fi >= len(files):
                    continue
                f, w = files[fi], widths[fi]
                k = NAMES[n] if nm else n
                t0 = H.tick()
                if kind == "r":
                    v = ok(t, rget, f, g, k)
                    H.read(cell, v, t0, H.tick(), who)
                elif kind == "w":
                    v = unique(w)
                    ok(t, rset, f, g, k, v)
                    H.write(cell, v, t0, H.tick(), who)
                    mine[cell] = v
                elif kind == "c":
                    ok(t, rclear, f, g, k)
                    H.write(cell, 0, t0, H.tick(), who)
                    mine[cell] = 0
                elif kind == "bw":
                    old = mine.get(cell, 0)
                    sh = w - op[3]
                    new = old & ~(1 << sh) | op[4] << sh
                    ok(t, bset, f, g, k, op[3], op[4])
                    H.write(cell, new, t0, H.tick(), who)
                    mine[cell] = new
                elif kind == "sw":
                    old = mine.get(cell, 0)
                    a, b, x = op[3:6]
                    sh = w - b
                    m = ((1 << b - a + 1) - 1) << sh
                    new = old & ~m | x << sh
                    ok(t, bset, f, g, k, slice(a, b), x)
                    H.write(cell, new, t0, H.tick(), who)
                    mine[cell] = new
                elif kind == "br":
                    got = ok(t, bget, f, g, k, op[3])
                    exp = mine.get(cell, 0) >> w - op[3] & 1
                    if got != exp:
                        raise Violation("bits-wrong", "%s: bit %d of its "
                                        "register %r reads %r, expected %r "
                                        "(value %o)" % (who, op[3], cell, got,
                                                        exp,
                                                        mine.get(cell, 0)))
                elif kind == "sr":
                    a, b = op[3:5]
                    got = ok(t, bget, f, g, k, slice(a, b))
                    exp = mine.get(cell, 0) >> w - b & (1 << b - a + 1) - 1
                    if got != exp:
                        raise Violation("bits-wrong", "%s: bits %d-%d of its "
                                        "register %r read %r, expected %r" %
                                        (who, a, b, cell, got, exp))
                elif kind == "put":
                    v = unique(w)
                    new = ok(t, R.Register, v, model.reg_name(n, v), w)
                    renamed.add((files.index(f), g, n))
                    t0 = H.tick()
                    ok(t, gset, f, g, k, new)
                    H.write(cell, v, t0, H.tick(), who)
                    mine[cell] = v
                    if list(cell) in plan["own"][ti] and (
                            f[g][n] is not new or
                            f[g][NAMES[n]] is not new):
                        raise Violation("put-lost", "%s: the register put "
                                        "into slot %r is not that slot's "
                                        "register" % (who, cell))
                    st.probes["put"] += 1
                elif kind == "gput":
                    new = R.RegisterGroup(w) if op[3] else \
                        ok(t, R.RegisterGroup, w)
                    vals = dict.fromkeys(
                        [c[2] for c in mine if c[:2] == cell[:2]], 0)
                    for x in op[3]:
                        vals[x] = unique(w)
                        new[x].value = vals[x]
                    t0 = H.tick()
                    ok(t, fset, f, g, new)
                    t1 = H.tick()
                    for x, v in vals.items():
                        H.write(cell[:2] + (x,), v, t0, t1, who)
                        mine[cell[:2] + (x,)] = v
                    for x in range(32):
                        renamed.discard(cell[:2] + (x,))
                    if f[g] is not new:
                        raise Violation("put-lost", "%s: the group put into "
                                        "slot %d of file %d is not that "
                                        "slot's group" % (who, g, fi))
                    st.probes["group-put"] += 1
                elif kind == "gclear":
                    ok(t, gclear, f, g)
                    t1 = H.tick()
                    for c in list(mine):
                        if c[:2] == cell[:2]:
                            H.write(c, 0, t0, t1, who)
                            mine[c] = 0
                    st.probes["group-clear"] += 1
                elif kind == "look":
                    got = (ok(t, R.registerName, n),
                           ok(t, R.registerNumber, NAMES[n]),
                           ok(t, R.registerAlias, n))
                    exp = (NAMES[n], n, ([a for a in ALIASES
                                          if ALIASES[a] == n] or
                                         [NAMES[n]])[0])
                    for a in ALIASES:
                        got += (ok(t, R.registerNumber, a),)
                        exp += (ALIASES[a],)
                    if got != exp:
                        raise Violation("lookup-wrong", "%s: look-ups of "
                                        "register %d gave %r, expected %r" % (
                                            who, n, got, exp))
                    st.probes["look-ups"] += 1
                else:
                    bad(t, refused, f, g, k, w, op[3])
        return go

    def bad(t, refused, f, g, k, w, what):
        if what == "name":
            refused(t, "register ZZ", rget, f, g, "ZZ")
            n = UNKNOWN[(g + w + t.idx) % len(UNKNOWN)]
            refused(t, "register %r" % n, rget, f, g, n)
        elif what == "num-1":
            refused(t, "register -1", rget, f, g, -1)
        elif what == "num32":
            refused(t, "register 32", rset, f, g, 32, 1)
        elif what == "num99":
            refused(t, "register 99", rget, f, g, 99)
        elif what == "grp-1":
            refused(t, "group -1", rset, f, -1, k, 1)
        elif what == "grp8":
            refused(t, "group 8", rget, f, 8, k)
        elif what == "grpstr":
            refused(t, "group 'X0'", fget, f, "X0")
        elif what == "val":
            refused(t, "value 2**%d" % w, rset, f, g, k, 2 ** w)
        elif what == "valneg":
            refused(t, "value -1", rset, f, g, k, -1)
        elif what == "valbig":
            refused(t, "value 2**40", rset, f, g, k, 2 ** 40)
        elif what == "bit0":
            refused(t, "bit 0", bset, f, g, k, 0, 1)
        elif what == "bitw1":
            refused(t, "bit %d" % (w + 1), bset, f, g, k, w + 1, 1)
        elif what == "bit-3":
            refused(t, "bit -3", bset, f, g, k, -3, 1)
        elif what == "rng0":
            refused(t, "bits 0-3", bset, f, g, k, slice(0, 3), 1)
        elif what == "rngw1":
            refused(t, "bits 3-%d" % (w + 1), bset, f, g, k,
                    slice(3, w + 1), 1)
        elif what == "rngrev":
            refused(t, "bits 9-3", bset, f, g, k, slice(9, 3), 1)
        elif what == "rngval":
            refused(t, "8 into bits 3-5", bset, f, g, k, slice(3, 5), 8)
        elif what == "rngneg":
            refused(t, "-1 into bits 3-5", bset, f, g, k, slice(3, 5), -1)
        elif what == "bitval":
            refused(t, "2 into bit 5", bset, f, g, k, 5, 2)
        elif what == "bitneg":
            refused(t, "-1 into bit 5", bset, f, g, k, 5, -1)
        elif what == "setname":
            refused(t, "put into slot ZZ", gset, f, g, "ZZ", f[g][k])
            n = UNKNOWN[(g + w + t.idx) % len(UNKNOWN)]
            refused(t, "put into slot %r" % n, gset, f, g, n, f[g][k])
        elif what == "setnum":
            refused(t, "put into slot 32", gset, f, g, 32, f[g][k])
        elif what == "slice":
            refused(t, "slice of a group", fget, f[g], slice(0, 2))
        elif what == "gslice":
            refused(t, "slice of groups", fget, f, slice(0, 2))
        elif what == "rdbit0":
            refused(t, "read of bit 0", bget, f, g, k, 0)
        elif what == "rdrng":
            refused(t, "read of bits 3-%d" % (w + 2), bget, f, g, k,
                    slice(3, w + 2))
        elif what == "setgrp8":
            refused(t, "put of a group 8", fset, f, 8, f[g])
        elif what == "setgrp-1":
            refused(t, "put of a group -1", fset, f, -1, f[g])
        elif what == "setgrpstr":
            refused(t, "put of a group 'X0'", fset, f, "X0", f[g])
        elif what == "setgslice":
            refused(t, "put into a slice of groups", fset, f, slice(0, 2),
                    f[g])
        elif what == "lkname":
            refused(t, "number of register ZZ", R.registerNumber, "ZZ")
        elif what == "lknum":
            refused(t, "name of register 32", R.registerName, 32)
        elif what == "lkneg":
            refused(t, "name of register -1", R.registerName, -1)
        elif what == "lkalias":
            refused(t, "alias of register 32", R.registerAlias, 32)
        elif what == "newwidth":
            refused(t, "register of width 17", R.Register, 0, "X0", 17)
        elif what == "newname":
            refused(t, "register named ZZ", R.Register, 0, "ZZ", w)
        elif what == "newval":
            refused(t, "register holding 2**%d" % w, R.Register, 2 ** w,
                    "X0", w)

    for ti, ops in enumerate(plan["tasks"]):
        sch.spawn(program(ti, ops))
    sch.run()
    st.add_sched(sch)
    audit(files, widths, renamed)
    touched = set(H.cells)
    for fi, f in enumerate(files):
        for g in range(8):
            for n in range(32):
                c = (fi, g, n)
                t0 = H.tick()
                v = f[g][n].value
                if f[g][NAMES[n]].value != v:
                    raise Violation("name-wrong", "register %r differs by "
                                    "name and number" % (c,))
                if c in touched:
                    H.read(c, v, t0, H.tick(), "at the end")
                elif v != 0:
                    raise Violation("stray-write", "register %r holds %r "
                                    "though nobody wrote it" % (c, v))
    H.check(lambda c: 0, lambda c: "register %d of group %d of file %d" %
            (c[2], c[1], c[0]))
    n = sum(len(v) for v in H.cells.values())
    st.probes["accesses"] += n
    st.note(sorted((c, sorted(v)) for c, v in H.cells.items()))
    st.nontrivial = sch.nswitch > 0 and n > 3
    st.sig = st.trace.hexdigest()
