"""C04: a failed symbol build leaves the table as it was; a retry completes
it."""

import io
import sys

from .. import concfault
from .. import faults as F
from .. import gensrc, loader, model, proc, symcheck, tools, vfs
from ..core import Violation
from .c01 import clamp

ID = "C04"
LEVEL = "fault_enumeration"
RUNS = {"quick": 28000, "thorough": 90000}
SHRINK = concfault.SHRINK + ["faults", "ops", "ops.*.faults", "files", "files.*.lines"]
RULE = ("seeded histories of builds into one table, where a source or include "
        "is missing, not text, or hit by a read, open or stat error at a "
        "seeded I/O event, followed by repairs and retries; or 2-3 programs building "
        "tables of their own at once, preempted at seeded bytecode "
        "instructions and I/O events, with failing reads; non-trivial: a "
        "build failed and the table already held or later gained a "
        "definition")
MEASURE = "distinct (event log, table) digests of non-trivial runs"
COMPONENTS = {"real": ["h800/symbol_table.py", "h800/arguscard.py",
                       "h800/punchcard.py", "CPython io stack"],
              "stub": ["raw files and os.stat", "stderr"]}
ASSUMPTIONS = ["failures to read (not interrupts) are what the property "
               "covers"]

PROF = {"sizes": [2, 4, 8, 12], "mains": [1, 2, 2, 3], "incs": [1, 2, 3],
        "label": 0.75, "big": 0.03}


def gen(r, i, tier):
    if r.random() < 0.22:
        return concfault.gen(r)
    files, mains = gensrc.gen_tree(r, PROF)
    for f in files:
        if f["name"] in mains and r.random() < 0.5 and \
                not any(x.startswith("$") for x in f["lines"]):
            later = [g["name"] for g in files if g["name"] not in mains]
            if later:
                f["lines"].append("$" + r.choice(later))
    ops = []
    for _ in range(r.choice([1, 2, 3, 4])):
        name = r.choice(mains)
        k = r.random()
        if r.random() < 0.15:
            name = tools.spell(r, name)
        op = {"name": name, "faults": [], "gone": None, "bad": None}
        if k < 0.5:
            op["faults"] = [F.gen(r, F.READ_KINDS)
                            for _ in range(r.choice([1, 1, 2]))]
        elif k < 0.65:
            op["gone"] = r.choice([f["name"] for f in files])
        elif k < 0.8:
            op["bad"] = [r.choice([f["name"] for f in files]),
                         r.choice(["ff", "80", "c0"]), r.random()]
        ops.append(op)
        if r.random() < 0.7:
            ops.append({"name": name, "faults": [], "gone": None,
                        "bad": None})
    return {"files": files, "ops": ops,
            "rchunk": gensrc.gen_chunks(r) if r.random() < 0.3 else None}


def run(plan, st, root):
    if plan.get("mode") == "conc":
        return concfault.run(plan, st, root, build=True)
    good = gensrc.tree_bytes(plan["files"])
    w = vfs.World(root)
    vfs.world = w
    chunk = clamp(plan["rchunk"], good)
    ops = [o for o in plan["ops"] if o["name"] in good]
    trees = []
    for op in ops:
        t = dict(good)
        if op["gone"]:
            t.pop(op["gone"], None)
        if op["bad"] and op["bad"][0] in t:
            b = t[op["bad"][0]]
            at = int(op["bad"][2] * (len(b) + 1))
            while at > 0 and (at < len(b) and b[at] & 0xC0 == 0x80 or
                              b[at - 1:at + 1] == b"\r\n"):
                at -= 1
            t[op["bad"][0]] = b[:at] + bytes.fromhex(op["bad"][1]) + b[at:]
        trees.append(t)

    counts = []
    for op, t in zip(ops, trees):
        if not op["faults"]:
            counts.append(None)
            continue
        proc.write_tree(root, t)
        loader.forget()
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        p = vfs.Proc(w, 0, (), chunk)
        from h800.symbol_table import buildSymbolTable
        w.proc = p
        try:
            buildSymbolTable(op["name"], {})
        except (Exception, SystemExit):
            pass
        w.proc = None
        counts.append((p.counts, p.nevents))
    loader.forget()

    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    from h800.symbol_table import buildSymbolTable
    symtab = {}
    table = model.Table()
    failed = 0
    for k, (op, t) in enumerate(zip(ops, trees)):
        proc.write_tree(root, t)
        fl = F.resolve(op["faults"], *counts[k]) if counts[k] else []
        p = vfs.Proc(w, 0, fl, chunk)
        before = symcheck.flat(symtab)
        ids = {key: id(entry(symtab, key)) for key in before}
        try:
            nt = table.copy()
            errs = model.build(t, op["name"], nt)
            readable = True
        except model.LoadError:
            readable = False
        what = "build %d of %s" % (k, op["name"])
        w.proc = p
        ret = None
        exc = None
        try:
            ret = buildSymbolTable(op["name"], symtab)
        except (Exception, SystemExit) as e:
            exc = "%s: %s" % (type(e).__name__, str(e)[:100])
            if isinstance(e, SystemExit) and e.code in (0, None):
                raise Violation("quiet-failure", what + " asked for exit "
                                "status 0")
        w.proc = None
        hardf = [(f.cat, f.kind, f.path) for f in fl
                 if f.fired and f.kind not in F.SOFT]
        st.add_proc(p)
        st.note(what, exc, hardf)
        if exc is None:
            if not readable:
                raise Violation("silent-partial", what + " succeeded although "
                                "a source cannot be read in full")
            got, n = ret
            if n != len(errs):
                raise Violation("count-wrong" if not hardf
                                else "silent-partial", "%s: error count %r, "
                                "expected %d" % (what, n, len(errs)))
            symcheck.require(got, nt, what + (" in spite of %s" % hardf
                                              if hardf else ""),
                             "silent-partial" if hardf else "table-wrong")
            symtab, table = got, nt
            if failed:
                st.probes["success-after-failure"] += 1
        else:
            if readable and not hardf:
                raise Violation("build-failed", "%s failed without a fault: "
                                "%s" % (what, exc))
            failed += 1
            st.probes["failed-builds"] += 1
            after = symcheck.flat(symtab)
            if after != before or symcheck.empties(symtab):
                raise Violation(
                    "table-changed", "%s failed (%s) but changed the table: "
                    "added %r, lost %r, altered %r, empty %r" % (
                        what, exc, sorted(set(after) - set(before)),
                        sorted(set(before) - set(after)),
                        sorted(x for x in before if x in after and
                               before[x] != after[x]),
                        symcheck.empties(symtab)))
            if before:
                st.probes["failed-on-nonempty-table"] += 1
    # the cause is gone: the same files build to the same table
    proc.write_tree(root, good)
    for name in dict.fromkeys(op["name"] for op in ops):
        try:
            errs = model.build(good, name, table)
        except model.LoadError:
            continue                # (only in minimised plans)
        p = vfs.Proc(w, 0, (), chunk)
        w.proc = p
        try:
            symtab, n = buildSymbolTable(name, symtab)
        except (Exception, SystemExit) as e:
            raise Violation("retry-failed", "building %s after the faults "
                            "stopped failed: %s: %s" %
                            (name, type(e).__name__, e))
        finally:
            w.proc = None
        if n != len(errs):
            raise Violation("retry-wrong", "retry of %s counts %r errors, "
                            "expected %d" % (name, n, len(errs)))
        symcheck.require(symtab, table, "retry of " + name, "retry-wrong")
    st.note(sorted(table.defs))
    st.add_world(w)
    st.nontrivial = failed > 0 and len(table.defs) > 0
    st.sig = st.trace.hexdigest()


def entry(symtab, key):
    a, b, c, d = key
    return symtab[a][b][c][d]
