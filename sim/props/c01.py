"""C01: a loaded deck is exactly the source as it now stands on disk."""

import io
import os
import sys

from .. import gensrc, model, proc, vfs
from .. import sched as S
from ..core import Violation
from ..deckcheck import require

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 60000}
SHRINK = ["switches", "ops", "tasks", "tasks.*", "files", "files.*.lines"]
RULE = ("seeded source trees (includes, layouts, edits, chunked reads), then "
        "either a history of loads and edits or 2-4 concurrent loads with "
        "seeded preemption at bytecode instructions; non-trivial: at least "
        "two cards loaded and either an include, a second load, a short read "
        "or a context switch inside a load")
MEASURE = "distinct (event log, schedule) digests of non-trivial runs"
COMPONENTS = {"real": ["h800/punchcard.py", "h800/arguscard.py",
                       "CPython io stack above the raw file"],
              "stub": ["raw file objects and os.stat (fault seam over a "
                       "scratch directory)", "thread scheduler", "stdout"]}
ASSUMPTIONS = ["lines end in LF or CRLF (a form feed or Unicode line "
               "separator is text); text is UTF-8", "include names resolve against the current "
               "directory"]

PROF = {"sizes": [0, 1, 3, 5, 8, 14], "mains": [1, 2, 2, 3], "dotinc": 0.1,
        "ctl": 0.01}
ALT = "alt/"


def gen_layout(r):
    """[class, fields, width]: class 'argus' or 'punch'."""
    k = r.random()
    if k < 0.6:
        return ["argus", None, None]
    if k < 0.7:
        return ["punch", None, None]
    if k < 0.85:
        n = r.randint(1, 10)
        cols = sorted(r.sample(range(1, 100), n))
        return ["punch", cols, r.choice([100, 110, 120, 80 + cols[-1]])]
    cols = sorted(r.sample(range(1, 100), 10))
    return ["argus", cols, r.choice([100, 110, 120, 130])]


def gen(r, i, tier):
    mode = r.choice(["history", "history", "conc"])
    prof = dict(PROF)
    if mode == "conc":
        prof["sizes"] = [1, 2, 4, 6]
        prof["big"] = 0.0
    files, mains = gensrc.gen_tree(r, prof)
    names = [f["name"] for f in files]
    plan = {"mode": mode, "files": files, "rchunk": gensrc.gen_chunks(r)}

    def load_op():
        name = r.choice(mains if r.random() < 0.8 else names)
        k = r.random()
        if k < 0.08:
            name = "./" + name
        elif k < 0.14:
            name = "@/" + name          # absolute path
        return ["load", name, gen_layout(r), r.random() < 0.15]

    if mode == "history":
        ops = []
        for _ in range(r.randint(1, 6)):
            k = r.random()
            if k < 0.55 or not ops:
                ops.append(load_op())
            elif k < 0.7:
                ops.append(["edit", r.choice(names),
                            gensrc.gen_lines(r, prof, r.randint(0, 6))])
                ops.append(load_op())
            elif k < 0.8:
                # same length, different content: caches keyed on size fail
                ops.append(["flip", r.choice(names)])
                ops.append(list(ops[0]) if ops[0][0] == "load" else load_op())
            elif k < 0.9:
                ops.append(["lines", gensrc.gen_lines(r, prof,
                                                      r.randint(0, 6)),
                            gen_layout(r)])
            elif k < 0.95:
                # the caller alters a deck it got, then loads again
                ops.append(["spoil", r.randrange(4), r.randrange(5)])
                ops.append(list(ops[0]) if ops[0][0] == "load" else load_op())
            else:
                ops.append(["recheck"])
        plan["ops"] = ops
        if r.random() < 0.25:
            # a second directory with other files of the same names
            for f in list(files):
                if r.random() < 0.8:
                    g = dict(f, name=ALT + f["name"])
                    g["lines"] = [x for x in f["lines"]
                                  if x.startswith("$")] + \
                        gensrc.gen_lines(r, prof, r.choice([1, 3, 5]))
                    files.append(g)
            at = sorted(r.randint(0, len(ops)) for _ in range(2))
            ops.insert(at[1], ["cd", ""])
            ops.insert(at[0], ["cd", "alt"])
            ops.append(load_op())
    else:
        nt = r.choice([2, 2, 2, 2, 3, 3, 4, 4, 8])
        plan["tasks"] = [[load_op() for _ in range(r.choice([1, 1, 2]))]
                         for _ in range(nt)]
        ns = r.choice([2, 5, 10, 30])
        scale = r.choice([20, 200, 1500])
        plan["switches"] = [[1 + int(r.expovariate(1.0 / scale)),
                             r.randrange(8)] for _ in range(ns)]
    return plan


def do_load(mods, op):
    _, name, (cls, fields, width), verbose = op
    kw = {}
    if fields is not None:
        kw = {"fields": list(fields), "width": width}
    m = mods[1] if cls == "argus" else mods[0]
    return m.Deck(file=name, verbose=verbose, **kw)


def expect(files, op):
    _, name, (cls, fields, width), verbose = op
    return model.load(files, name, 0, fields or model.FIELDS,
                      width or model.WIDTH, cls == "argus")


def spoil(d, how):
    """What a program may do with a deck of its own."""
    if how == 0:
        del d.cards[:]
    elif how == 1:
        for c in d.cards:
            for k in list(c.record):
                c.record[k] = "SPOILT"
    elif how == 2:
        for x in d.fields + d.strippedFields:
            del x[:]
    elif how == 3:
        d.lines[:] = ["SPOILT"]
        d.records[:] = []
    else:
        d.cards.reverse()
        for c in d.cards:
            c.layout[:] = [(1, 3)]


def clamp(chunks, files):
    if not chunks:
        return None
    lo = sum(len(b) for b in files.values()) // 300
    return [max(c, lo) for c in chunks]


def run(plan, st, root):
    files = gensrc.tree_bytes(plan["files"])
    proc.write_tree(root, files)
    sch = None
    if plan["mode"] == "conc":
        sch = S.Sched(plan["switches"])
    w = vfs.World(root, None)
    vfs.world = w
    p = vfs.Proc(w, 0, (), clamp(plan["rchunk"], files))
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    w.proc = p
    import h800.punchcard
    import h800.arguscard
    mods = (h800.punchcard, h800.arguscard)
    loaded = []

    def verify(op, res, exp, when):
        what = "%s of %s (layout %s)" % (when, op[1], op[2])
        if isinstance(exp, model.LoadError):
            if not isinstance(res, BaseException):
                raise Violation("load-unreadable", what + " returned a deck "
                                "although the source cannot be read")
            return
        if isinstance(res, BaseException):
            raise Violation("load-failed", "%s failed without any fault: "
                            "%s: %s" % (what, type(res).__name__, res))
        require(res, exp, op[2][0] == "argus", what)

    here = [""]

    def view():
        if not here[0]:
            return files
        return {n[len(ALT):]: b for n, b in files.items()
                if n.startswith(ALT)}

    def place(op):
        """The load with its absolute path filled in."""
        if op[1].startswith("@/"):
            return [op[0], os.path.join(root, here[0], op[1][2:])] + op[2:]
        return op

    def known(op):
        n = op[1][2:] if op[1][:2] in ("@/", "./") else op[1]
        return n in view()

    def one(fn, *a):
        try:
            return fn(*a)
        except (Exception, SystemExit) as e:
            return e

    def model_of(op):
        v = view()
        pre = os.path.join(root, here[0]) if here[0] else root
        if op[1].startswith(pre + "/"):
            v = dict(v)
            v[op[1]] = v[op[1][len(pre) + 1:]]
        try:
            return expect(v, op)
        except model.LoadError as e:
            return e

    if plan["mode"] == "history":
        for op in plan["ops"]:
            if op[0] == "load":
                if not known(op):
                    continue
                name, op = op[1], place(op)
                res = one(do_load, mods, op)
                exp = model_of(op)
                verify(op, res, exp, "load")
                st.note("load", name, len(exp) if isinstance(exp, list)
                        else "error")
                st.probes["loads"] += 1
                if isinstance(exp, list):
                    loaded.append((op, res, exp))
            elif op[0] == "cd":
                if op[1] == "" or any(n.startswith(ALT) for n in files):
                    here[0] = op[1]
                    os.chdir(os.path.join(root, op[1]))
                    st.probes["cd"] += 1
            elif op[0] in ("edit", "flip"):
                if op[1] not in files:
                    continue
                if op[0] == "edit":
                    f = [x for x in plan["files"] if x["name"] == op[1]][0]
                    data = gensrc.encode(dict(f, lines=op[2]))
                else:
                    data = files[op[1]]
                    s = data.decode("utf-8")
                    s2 = []
                    first = True
                    for ch in s:
                        if not first and ch in "ABCDEFGH":
                            ch = chr(ord(ch) + 8)
                        first = ch == "\n"
                        s2.append(ch)
                    # keep include lines as they are
                    a, b = s.split("\n"), "".join(s2).split("\n")
                    data = "\n".join(x if x.startswith(("$", "#")) else y
                                     for x, y in zip(a, b)).encode("utf-8")
                files[op[1]] = data
                w.proc = None
                proc.write_tree(root, files)
                w.proc = p
                st.probes["edits"] += 1
            elif op[0] == "lines":
                cls, fields, width = op[2]
                kw = {} if fields is None else {"fields": list(fields),
                                                "width": width}
                m = mods[1] if cls == "argus" else mods[0]
                given = [x + "\n" for x in op[1]]
                res = one(lambda: m.Deck(list(given), **kw))
                if isinstance(res, BaseException):
                    raise Violation("load-failed", "deck from lines failed: "
                                    "%s: %s" % (type(res).__name__, res))
                exp = model.from_lines(op[1], fields or model.FIELDS,
                                       width or model.WIDTH, cls == "argus")
                require(res, exp, cls == "argus", "deck from lines",
                        file_mode=False)
                st.probes["lines"] += 1
            elif op[0] == "spoil":
                if loaded:
                    try:
                        spoil(loaded.pop(op[1] % len(loaded))[1], op[2])
                    except (TypeError, AttributeError):
                        pass        # it cannot be altered
                    st.probes["spoilt"] += 1
            elif op[0] == "recheck":
                for o, d, exp in loaded:
                    require(d, exp, o[2][0] == "argus", "earlier load of %s "
                            "looked at again" % o[1])
        for o, d, exp in loaded:
            require(d, exp, o[2][0] == "argus",
                    "earlier load of %s at the end" % o[1])
    else:
        w.sched = sch
        results = []

        def body(ops):
            def go(t):
                for op in ops:
                    if not known(op):
                        continue
                    sch.point()
                    real = place(op)
                    res = one(sch.traced, t, do_load, mods, real)
                    results.append((t.idx, real, res, op[1]))
            return go
        for ops in plan["tasks"]:
            sch.spawn(body(ops))
        try:
            sch.run()
        finally:
            w.sched = None
        for ti, op, res, name in results:
            verify(op, res, model_of(op), "concurrent load by task %d" % ti)
            st.note("load", ti, name)
        st.add_sched(sch)
        st.probes["concurrent-loads"] += len(results)
        st.probes["switches-in-load"] += sch.nswitch
    w.proc = None
    os.chdir(root)
    after = proc.read_tree(root)
    if after != files:
        raise Violation("source-changed", "loading changed files: %s" %
                        sorted(k for k in set(after) | set(files)
                               if after.get(k) != files.get(k)))
    st.add_world(w)
    if any(f["name"] in gensrc.INCS for f in plan["files"]):
        st.probes["with-includes"] += 1
    if plan["rchunk"]:
        st.probes["short-reads"] += 1
        st.faults["read:short"] += p.nr
    st.nontrivial = w.events > 4 and (plan["mode"] == "conc" and
                                      sch.nswitch > 0 or
                                      plan["mode"] == "history" and
                                      st.probes["loads"] > 0)
    st.sig = st.trace.hexdigest()
