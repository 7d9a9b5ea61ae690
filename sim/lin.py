"""Histories of single cells and their linearizability (Wing and Gong's search
with memoisation)."""

from .core import Violation


class History:
    """Per-cell histories; time is a counter that only the running task can
    advance, so it is the real order of invocations and responses."""

    def __init__(self):
        self.now = 0
        self.cells = {}

    def tick(self):
        self.now += 1
        return self.now

    def write(self, cell, value, t0, t1, who=""):
        self.cells.setdefault(cell, []).append((t0, t1, "w", value, who))

    def read(self, cell, value, t0, t1, who=""):
        self.cells.setdefault(cell, []).append((t0, t1, "r", value, who))

    def check(self, initial, name, cls="not-linearizable"):
        for cell in sorted(self.cells, key=repr):
            ops = sorted(self.cells[cell])
            init = initial(cell)
            known = {init} | {o[3] for o in ops if o[2] == "w"}
            for o in ops:
                if o[2] == "r" and o[3] not in known:
                    raise Violation("value-from-nowhere", "%s read %r from "
                                    "%s, which nobody wrote; history %s" % (
                                        o[4], o[3], name(cell), show(ops)))
            if not linearizable(ops, init):
                raise Violation(cls, "%s, initially %r, is not linearizable: "
                                "%s" % (name(cell), init, show(ops)))


def show(ops):
    return "; ".join("%s %s(%r)@%d-%d" % (o[4], o[2], o[3], o[0], o[1])
                     for o in sorted(ops)[:24])


def linearizable(ops, init):
    n = len(ops)
    if n == 0:
        return True
    # quick path: sequential history
    seq = True
    last = 0
    for o in ops:
        if o[0] < last:
            seq = False
            break
        last = o[1]
    if seq:
        v = init
        for o in ops:
            if o[2] == "w":
                v = o[3]
            elif o[3] != v:
                return False
        return True
    full = (1 << n) - 1
    seen = set()
    stack = [(0, init)]
    while stack:
        mask, v = stack.pop()
        if mask == full:
            return True
        if (mask, v) in seen:
            continue
        seen.add((mask, v))
        end = min(ops[i][1] for i in range(n) if not mask >> i & 1)
        nexts = []
        for i in range(n):
            if mask >> i & 1:
                continue
            o = ops[i]
            if o[0] > end:
                break
            if o[2] == "r":
                if o[3] == v:
                    # a read that fits can be taken first without loss
                    nexts = [(mask | 1 << i, v)]
                    break
            else:
                nexts.append((mask | 1 << i, o[3]))
        stack.extend(nexts)
    return False
