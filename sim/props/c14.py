"""C14: every scan visits every cell exactly once, in order."""

from .. import model
from .. import sched as S
from ..core import Violation
from .c11 import NAMES

ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 18000, "thorough": 100000}
SHRINK = ["switches", "ops", "tasks", "tasks.*"]
RULE = ("seeded histories of scans of a memory bank, register groups and the "
        "register file: several iterators open at once, stepped in seeded "
        "order, nested, abandoned, drained and restarted, with writes "
        "through the yielded cells, clears and replaced registers in between, "
        "and cells obtained earlier used again; or 2-4 programs "
        "scanning, clearing or replacing registers of the same bank or "
        "group, preempted at seeded bytecode "
        "instructions; non-trivial: at least two scans of one container")
MEASURE = "distinct (schedule, event log) digests of non-trivial runs"
COMPONENTS = {"real": ["h800/registers.py", "h800/memory.py", "h800/word.py",
                       "h800/bitfield.py"],
              "stub": ["thread scheduler"]}
ASSUMPTIONS = ["the register file is scanned by one program at a time (see "
               "the known finding)"]
KNOWN = {"registers-iter": "iterating over a Registers object uses one "
         "cursor kept in the object: a second, nested or repeated scan of the "
         "eight groups goes on where the first one stopped, and yields "
         "nothing once all groups have been visited (h800/registers.py "
         "Registers.__iter__/__next__)"}

SIZES = {"bank": 2048, "group": 32, "file": 8}


def gen(r, i, tier):
    if r.random() < 0.6:
        kinds = r.choice([["group"], ["file"], ["bank"], ["group", "file"],
                          ["group", "group2"], ["bank", "group"]])
        if "bank" in kinds and r.random() < 0.5:
            kinds = ["group"]
        ops = []
        for _ in range(r.choice([4, 8, 16])):
            q = r.random()
            if q < 0.3:
                ops.append(["new", r.choice(kinds)])
            elif q < 0.6:
                ops.append(["next", r.randrange(8), r.choice([1, 1, 2, 5,
                                                             31, 40])])
            elif q < 0.72:
                ops.append(["drain", r.randrange(8)])
            elif q < 0.80:
                ops.append(["drop", r.randrange(8)])
            elif q < 0.88:
                ops.append(["full", r.choice(kinds)])
            elif q < 0.93:
                ops.append(["nest", r.choice(kinds), r.choice(kinds)])
            elif q < 0.95:
                ops.append(["clear", r.choice(kinds)])
            elif q < 0.965:
                ops.append(["put", r.choice(kinds), r.randrange(32),
                            r.random() < 0.5])
            else:
                ops.append(["other", r.choice(kinds)])
        return {"mode": "hist", "ops": ops, "width": r.choice([16, 24])}
    kind = r.choice(["group", "group", "group", "bank"])
    tasks = []
    for _ in range(r.choice([2, 3, 4])):
        seq = []
        for _ in range(r.choice([1, 2])):
            seq.append([r.choice(["scan", "scan", "wscan", "part", "put",
                                  "nput", "clear"]),
                        r.choice([1, 5, 20])])
        tasks.append(seq)
    scale = r.choice([3, 8, 30, 100] if kind == "group" else [50, 400, 2000])
    return {"mode": "conc", "kind": kind, "tasks": tasks,
            "width": r.choice([16, 24]),
            "switches": [[1 + int(r.expovariate(1.0 / scale)),
                          r.randrange(6)]
                         for _ in range(r.choice([5, 20, 60, 150]))]}


class Box:
    """A container under scan, with the value every cell holds."""

    def __init__(self, kind, width):
        self.kind = kind.rstrip("2")
        self.n = SIZES[self.kind]
        self.scans = 0
        self.cursor = 0         # shared-cursor model (register file only)
        self.puts = 0
        self.old = {}           # slot -> [(replacement number, register)]
        self.kept = {}          # cells yielded by earlier scans
        self.models = {"right", "shared"} if self.kind == "file" else \
            {"right"}
        if self.kind == "bank":
            from h800.memory import MemoryBank
            self.obj = MemoryBank()
            self.vals = {}
            for a in range(0, 2048):
                self.set(a, 3 * a + 1)
        elif self.kind == "group":
            from h800.registers import RegisterGroup
            self.obj = RegisterGroup(width)
            self.vals = {}
            for a in range(32):
                self.set(a, 3 * a + 1)
        else:
            from h800.registers import Registers
            self.obj = Registers(width=width)
            self.vals = {}
            for a in range(8):
                self.obj[a][0].value = a + 1
                self.vals[a] = a + 1

    def set(self, a, v):
        if self.kind == "bank":
            self.obj[a] = v
        else:
            self.obj[a].value = v
        self.vals[a] = v

    def verify(self, a, cell, what, since=None):
        """cell was yielded at position a."""
        if since is not None and any(
                cell is x for n, x in self.old.get(a, ()) if n >= since):
            return              # its slot got another register meanwhile
        if self.kind == "file":
            if cell is not self.obj[a]:
                raise Violation("wrong-cell", "%s yielded something else than "
                                "group %d" % (what, a))
            return
        v = cell.value
        if v != self.vals[a]:
            raise Violation("wrong-cell", "%s: cell %d shows %r, current "
                            "value %r" % (what, a, v, self.vals[a]))
        if self.kind == "group" and (cell is not self.obj[a] or
                                     a not in self.old and
                                     cell.name != NAMES[a]):
            raise Violation("wrong-cell", "%s yielded another register than "
                            "%s" % (what, NAMES[a]))

    def live(self, a, cell, v, what):
        """Writing through the yielded cell is seen by everyone."""
        if self.kind == "file":
            cell[0].value = v
            self.vals[a] = v
            if self.obj[a][0].value != v:
                raise Violation("not-live", "%s: group %d is not the live "
                                "one" % (what, a))
            return
        cell.value = v
        self.vals[a] = v
        got = self.obj[a] if self.kind == "bank" else self.obj[a].value
        if got != v:
            raise Violation("not-live", "%s: a write through cell %d is not "
                            "seen (%r instead of %r)" % (what, a, got, v))


    def recheck(self, what, serial):
        """Cells obtained from earlier scans are still the live ones."""
        for a, cell in sorted(self.kept.items(), key=lambda x: x[0]):
            w = "%s: cell %d, obtained earlier," % (what, a)
            self.verify(a, cell, w)
            self.live(a, cell, (serial * 7 + a) % 50000, w)


END = object()


class Scan:
    def __init__(self, box, st):
        self.box = box
        self.st = st
        self.it = iter(box.obj)
        self.pos = 0
        self.done = False
        self.since = box.puts
        box.scans += 1
        self.strict = box.scans == 1
        self.id = box.scans

    def step(self, what, v=None):
        """Advance once; False at the end."""
        b = self.box
        what = "%s: scan %d of the %s, step %d" % (what, self.id, b.kind,
                                                   self.pos + 1)
        try:
            cell = next(self.it)
        except StopIteration:
            cell = END
        except Exception as e:
            raise Violation("scan-failed", "%s raised %s: %s" %
                            (what, type(e).__name__, e))
        if self.done:
            # after its end an iterator only ever ends again
            if cell is not END:
                raise Violation("wrong-cell", "%s: yielded after its end" %
                                what)
            return False
        right = self.pos if self.pos < b.n else END
        if b.kind == "file":
            shared = b.cursor if b.cursor < b.n else END
            ok = set()
            for m, a in (("right", right), ("shared", shared)):
                if m in b.models and (cell is END and a is END or
                                      cell is not END and a is not END and
                                      cell is b.obj[a]):
                    ok.add(m)
            if not ok:
                raise Violation("wrong-cell", "%s is wrong" % what)
            b.models = ok
            if ok == {"shared"}:
                self.st.known["registers-iter"] += 1
                a = shared
            else:
                a = right
            if b.cursor < b.n:
                b.cursor += 1
        else:
            a = right
            if (cell is END) != (a is END):
                raise Violation("scan-short" if cell is END else "scan-long",
                                "%s: %s" % (what, "ended early" if cell is END
                                            else "did not end"))
        if cell is END:
            self.done = True
            return False
        b.verify(a, cell, what, self.since)
        if v is not None and (b.kind == "bank" or cell is b.obj[a]):
            b.live(a, cell, v, what)
            b.kept[a] = cell
        self.pos += 1
        return True


def run(plan, st, root):
    if plan["mode"] == "conc":
        return run_conc(plan, st)
    boxes = {}
    scans = []
    w = plan["width"]

    def box(k):
        if k not in boxes:
            boxes[k] = Box(k, w)
        return boxes[k]
    serial = 5000
    for k, op in enumerate(plan["ops"]):
        what = "op %d" % k
        serial += 1
        if op[0] == "new":
            scans.append(Scan(box(op[1]), st))
        elif op[0] == "next" and scans:
            s = scans[op[1] % len(scans)]
            for j in range(op[2]):
                if not s.step(what, serial if j == 0 else None):
                    break
        elif op[0] == "drain" and scans:
            s = scans[op[1] % len(scans)]
            while s.step(what):
                pass
        elif op[0] == "drop" and scans:
            scans.pop(op[1] % len(scans))
        elif op[0] == "full":
            s = Scan(box(op[1]), st)
            while s.step(what):
                pass
        elif op[0] == "nest":
            s = Scan(box(op[1]), st)
            inner = 0
            while s.step(what):
                if inner < 3:
                    s2 = Scan(box(op[2]), st)
                    while s2.step(what + " (nested)"):
                        pass
                    inner += 1
            st.probes["nested"] += 1
        elif op[0] == "clear":
            b = box(op[1])
            b.obj.clear()
            for a in b.vals:
                b.vals[a] = 0
            b.recheck(what, serial)
        elif op[0] == "put":
            b = box(op[1])
            if b.kind == "group":
                from h800.registers import Register
                a = op[2]
                b.old.setdefault(a, []).append((b.puts, b.obj[a]))
                b.puts += 1
                b.obj[NAMES[a] if op[3] else a] = Register(
                    serial % 40000, model.reg_name(a, serial), w)
                b.vals[a] = serial % 40000
                b.kept.pop(a, None)
            elif b.kind == "file" and not any(x.box is b and not x.done
                                              for x in scans):
                # no scan of it is under way: later ones yield the new group
                from h800.registers import RegisterGroup
                a = op[2] % 8
                new = RegisterGroup(w)
                new[0].value = b.vals[a] = serial % 40000
                b.obj[a] = new
                b.kept.pop(a, None)
                st.probes["groups-replaced"] += 1
        elif op[0] == "other":
            # another container of the same kind is not disturbed
            b = Box(op[1], w)
            s = Scan(b, st)
            while s.step(what + " (other container)"):
                pass
        if k % 3 == 2:
            for name in sorted(boxes):
                boxes[name].recheck(what, serial)
        st.note(k, op, len(scans), [x.pos for x in scans])
    # a fresh register file scanned once is always complete
    b = Box("file", w)
    s = Scan(b, st)
    n = 0
    while s.step("fresh register file"):
        n += 1
    if n != 8 or "right" not in b.models:
        raise Violation("scan-short", "a fresh register file yields %d "
                        "groups" % n)
    st.probes["scans"] += sum(b.scans for b in boxes.values())
    st.nontrivial = any(b.scans > 1 for b in boxes.values())
    st.sig = st.trace.hexdigest()


def run_conc(plan, st):
    kind = plan["kind"]
    b = Box(kind, plan["width"])
    sch = S.Sched(plan["switches"])
    pending = {}                # cell -> values it may show

    was = {}                    # slot -> registers it has held
    kept = []                   # (position, cell)
    cleared = []
    if kind == "group":
        from h800.registers import Register
        was = {a: [b.obj[a]] for a in range(32)}

    def put(g, k, reg):
        g[k] = reg

    def program(ti, seq):
        who = "program %d" % ti

        def ok(t, what, fn, *args):
            try:
                return sch.traced(t, fn, *args)
            except Exception as e:
                raise Violation("access-failed", "%s raised %s: %s" %
                                (what, type(e).__name__, e))

        def go(t):
            for j, (how, n) in enumerate(seq):
                sch.point()
                what = "%s, scan %d" % (who, j)
                if how in ("put", "nput"):
                    if kind == "group":
                        reg = Register(20000 + 100 * ti + j,
                                       model.reg_name(n, ti + j),
                                       plan["width"])
                        was[n].append(reg)
                        ok(t, "%s: replacing %s" % (who, NAMES[n]), put,
                           b.obj, NAMES[n] if how == "nput" else n, reg)
                        st.probes["replaced"] += 1
                    continue
                if how == "clear":
                    cleared.append(1)
                    ok(t, "%s: clear" % who, lambda o: o.clear(), b.obj)
                    continue
                it = sch.traced(t, iter, b.obj)
                stop = b.n if how != "part" else n
                for a in range(b.n):
                    if a >= stop:
                        break
                    if kind == "bank" and a > 60 and a < 2000:
                        step = next         # not interleaved: too many
                        args = (it,)
                    else:
                        step = sch.traced
                        args = (t, next, it)
                    try:
                        cell = step(*args)
                    except StopIteration:
                        raise Violation("scan-short", "%s ended after %d "
                                        "cells" % (what, a))
                    except Exception as e:
                        raise Violation("scan-failed", "%s raised %s: %s" %
                                        (what, type(e).__name__, e))
                    if kind == "group" and not any(cell is x
                                                   for x in was[a]):
                        raise Violation("wrong-cell", "%s yielded %s at "
                                        "position %d" % (what, cell.name, a))
                    if kind == "bank":
                        good = pending.get(a, set()) | {b.vals[a]}
                        if cleared:
                            good.add(0)
                        if cell.value not in good:
                            raise Violation("wrong-cell", "%s: position %d "
                                            "shows %r, expected one of %r" %
                                            (what, a, cell.value,
                                             sorted(good)))
                    if how == "wscan" and a % 7 == ti:
                        v = 10000 + 100 * ti + a % 97
                        pending.setdefault(a, set()).add(v)
                        cell.value = v
                        b.vals[a] = v
                        got = b.obj[a] if kind == "bank" else b.obj[a].value
                        if got != v and len(was.get(a, [0])) == 1:
                            raise Violation("not-live", "%s: a write through "
                                            "cell %d is not seen" % (what, a))
                    if a % 5 == ti:
                        kept.append((a, cell))
                else:
                    try:
                        sch.traced(t, next, it)
                    except StopIteration:
                        pass
                    else:
                        raise Violation("scan-long", "%s did not end after "
                                        "%d cells" % (what, b.n))
                st.probes["concurrent-scans"] += 1
        return go
    for ti, seq in enumerate(plan["tasks"]):
        sch.spawn(program(ti, seq))
    sch.run()
    st.add_sched(sch)
    # when all is quiet, every cell any scan yielded is the live one (unless
    # its slot was given another register)
    for k, (a, cell) in enumerate(kept):
        if len(was.get(a, [0])) > 1:
            continue
        for v in (None, 30000 + k):
            if v is not None:
                cell.value = v
            got = b.obj[a] if kind == "bank" else b.obj[a].value
            if got != cell.value or v is not None and got != v:
                raise Violation("not-live", "cell %d, yielded by a scan, "
                                "holds %r, the container %r" % (
                                    a, cell.value, got))
    st.nontrivial = sch.nswitch > 0 and len(plan["tasks"]) > 1
    st.sig = st.trace.hexdigest()
