"""Several programs loading sources or building tables at once while some of
the reads fail: each load stands or falls by its own reads."""

import gc
import io
import sys

from . import faults as F
from . import gensrc, loader, model, proc, symcheck, vfs
from . import sched as S
from .core import Violation
from .deckcheck import require

PROF = {"sizes": [1, 3, 5, 8], "mains": [1, 2, 2], "incs": [0, 1, 2],
        "label": 0.7, "big": 0.0, "huge": 0.0, "mass": 0.0, "chain": 0.01}
SHRINK = ["switches", "tasks", "tasks.*"]


def gen(r):
    files, mains = gensrc.gen_tree(r, PROF)
    nt = r.choice([2, 2, 3])
    tasks = [[r.choice(mains) for _ in range(r.choice([1, 2, 2, 3]))]
             for _ in range(nt)]
    scale = r.choice([20, 100, 400, 1500])
    return {"mode": "conc", "files": files, "tasks": tasks,
            "gone": r.choice(files)["name"] if r.random() < 0.15 else None,
            "faults": [F.gen(r, F.READ_KINDS)
                       for _ in range(r.choice([1, 1, 2, 3]))],
            "switches": [[1 + int(r.expovariate(1.0 / scale)),
                          r.randrange(8)]
                         for _ in range(r.choice([3, 10, 30]))],
            "rchunk": gensrc.gen_chunks(r) if r.random() < 0.3 else None}


def run(plan, st, root, build):
    """build: build tables (C04); otherwise load decks (C02)."""
    good = gensrc.tree_bytes(plan["files"])
    files = dict(good)
    if plan["gone"]:
        files.pop(plan["gone"], None)
    proc.write_tree(root, files)
    w = vfs.World(root)
    vfs.world = w
    from .props.c01 import clamp
    chunk = clamp(plan["rchunk"], good)
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()

    def call(name, symtab):
        if build:
            from h800.symbol_table import buildSymbolTable
            return buildSymbolTable(name, symtab)
        from h800.arguscard import Deck
        return Deck(file=name)

    # rehearsal, one load after the other
    loader.forget()
    p = vfs.Proc(w, 0, (), chunk)
    w.proc = p
    import h800.arguscard           # noqa
    for seq in plan["tasks"]:
        for name in seq:
            try:
                call(name, {})
            except (Exception, SystemExit):
                pass
    w.proc = None
    counts = p.counts, p.nevents
    loader.forget()
    gc.collect()

    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    fl = F.resolve(plan["faults"], *counts)
    import h800.symbol_table        # noqa
    p = vfs.Proc(w, 0, fl, chunk)
    w.proc = p
    sch = S.Sched(plan["switches"])
    state = [({}, model.Table()) for _ in plan["tasks"]]
    tally = [0, 0]

    def hits(ti):
        return [(f.cat, f.kind, f.path) for f in fl if f.kind not in F.SOFT
                for x in f.who if x == ti]

    def step(ti, name, files, t):
        """One load or build by program ti; its own faults may make it
        fail."""
        symtab, table = state[ti]
        what = "program %d: %s of %s" % (ti, "build" if build else "load",
                                         name)
        readable = True
        try:
            if build:
                nt = table.copy()
                errs = model.build(files, name, nt)
            else:
                exp = model.load(files, name, argus=True)
        except model.LoadError:
            readable = False
        before = symcheck.flat(symtab)
        seen = len(hits(ti))
        exc = None
        try:
            ret = sch.traced(t, call, name, symtab) if t is not None else \
                call(name, symtab)
        except (Exception, SystemExit) as e:
            if isinstance(e, SystemExit) and e.code in (0, None):
                raise Violation("quiet-failure", what + " asked for exit "
                                "status 0")
            exc = "%s: %s" % (type(e).__name__, str(e)[:100])
        mine = hits(ti)[seen:]
        st.note(what, exc, mine)
        if exc is not None:
            tally[1] += 1
            if readable and not mine:
                raise Violation("build-failed" if build else "load-failed",
                                "%s failed without a fault of its own: %s" %
                                (what, exc))
            if symcheck.flat(symtab) != before or symcheck.empties(symtab):
                raise Violation("table-changed", "%s failed (%s) but changed "
                                "the table" % (what, exc))
            return
        tally[0] += 1
        if not readable:
            raise Violation("silent-partial" if build else "partial-deck",
                            what + " succeeded although the source cannot "
                            "be read in full")
        if not build:
            require(ret, exp, True, what, cls="partial-deck" if fl else
                    "deck-wrong")
            return
        got, n = ret
        if n != len(errs):
            raise Violation("silent-partial", "%s: error count %r, expected "
                            "%d" % (what, n, len(errs)))
        symcheck.require(got, nt, what, "silent-partial")
        state[ti] = (got, nt)

    def body(ti, seq):
        def go(t):
            for name in seq:
                if name not in good:
                    continue        # (only in minimised plans)
                sch.point()
                step(ti, name, files, t)
        return go

    for ti, seq in enumerate(plan["tasks"]):
        sch.spawn(body(ti, seq))
    w.sched = sch
    try:
        sch.run()
    finally:
        w.sched = None
    st.add_sched(sch)
    st.add_proc(p)
    if p.handles:
        gc.collect()
    if p.handles:
        raise Violation("handle-leak", "files left open: %s" % sorted(
            h.path for h in p.handles.values()))
    w.proc = None
    p.over = True
    if proc.read_tree(root) != files:
        raise Violation("source-changed", "a source file was changed")
    # the cause is gone
    proc.write_tree(root, good)
    for ti, seq in enumerate(plan["tasks"]):
        for name in dict.fromkeys(seq):
            try:
                model.load(good, name, argus=True)
            except model.LoadError:
                continue
            del fl[:]
            p = vfs.Proc(w, 0, (), chunk)
            w.proc = p
            try:
                step(ti, name, good, None)
            finally:
                w.proc = None
    st.probes["concurrent-failures"] += tally[1]
    st.probes["concurrent-successes"] += tally[0]
    st.add_world(w)
    st.nontrivial = tally[1] > 0
    st.sig = st.trace.hexdigest()
