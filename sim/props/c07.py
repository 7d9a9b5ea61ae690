"""C07: a listing is complete and faithful, or the tool says it failed."""

from .. import faults as F
from .. import gensrc, toolrun, tools

ID = "C07"
LEVEL = "fault_enumeration"
RUNS = {"quick": 14000, "thorough": 80000}
SHRINK = ["runs", "runs.*.faults", "extra", "job.opts", "job.args", "files",
          "files.*.lines"]
RULE = ("seeded source trees (names with several dots, none, or "
        "directories; stale listings present) and listing runs over 1-4 "
        "sources, each without faults (listings compared with the reference "
        "model byte for byte) and again with read, open, write and close "
        "errors, full disk, lost tail, interrupts and kills (torn writes "
        "included) at seeded I/O events or instructions; non-trivial: at "
        "least two cards and a fault or chunked I/O")
MEASURE = "distinct event-log digests of non-trivial runs"
COMPONENTS = {"real": ["tools/listing.py", "h800/arguscard.py",
                       "h800/punchcard.py", "optparse", "CPython io stack"],
              "stub": ["raw files, os.stat and standard streams",
                       "process exit and kill"]}
ASSUMPTIONS = ["sources given together differ in more than their extension, "
               "and none of them is named .lst unless it is given alone",
               "data that reached the operating system survives a kill of "
               "the process; data in the process's buffers does not"]

NAMES = ["main.arg", "seg1.arg", "yul.v1.arg", "yul.v2.arg", "noext",
         "sub/part.arg", "main2.arg", "dir.d/noext", "dir.d/deck.arg",
         "dir.d/deck.v2.arg", "a.b.c.arg", "a.b.arg",
         "a-directory-with-a-rather-long-name/and-another-one-below-it/"
         "main-source.arg"]
PROF = {"sizes": [0, 1, 3, 5, 9, 14], "mains": [1, 2, 3, 4], "big": 0.06,
        "names": NAMES}
KINDS = F.READ_KINDS + F.WRITE_KINDS * 2 + F.INTR_KINDS * 2 + \
    F.KILL_KINDS[:3] * 4


def gen(r, i, tier):
    files, mains = gensrc.gen_tree(r, PROF)
    args = list(mains)
    r.shuffle(args)
    if r.random() < 0.1:
        args.append(r.choice(args))
    if r.random() < 0.02:
        files.append({"name": "only.lst", "lines": gensrc.gen_lines(
            r, PROF, 4), "eol": "lf", "last": True})
        args = ["only.lst"]
    if r.random() < 0.15:
        args = [tools.spell(r, n) for n in args]
    extra = []
    for n in mains:
        if r.random() < 0.3:
            extra.append([n.rsplit(".", 1)[0] + ".lst", "old listing\n" *
                          r.choice([1, 3, 400])])
    if r.random() < 0.5:
        extra.append(["keep.lst", "someone else's listing\n"])
    plan = {"files": files, "extra": extra,
            "job": {"tool": "listing", "key": None, "args": args,
                    "opts": ["-v"] if r.random() < 0.1 else []},
            "rchunk": gensrc.gen_chunks(r) if r.random() < 0.2 else None,
            "wchunk": gensrc.gen_chunks(r) if r.random() < 0.3 else None,
            "runs": toolrun.gen_runs(r, KINDS, r.choice([1, 2, 3, 4]))}
    toolrun.gen_break(r, plan, [f["name"] for f in files])
    return plan


def run(plan, st, root):
    # Scratch files left behind by a killed run are C09's business.
    toolrun.drive(plan, st, root, only=".lst")
