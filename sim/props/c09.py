"""C09: exit status 0 means the whole output was delivered and no input was
changed."""

from .. import faults as F
from .. import gensrc, toolrun, tools
from . import c07, c08

ID = "C09"
LEVEL = "fault_enumeration"
RUNS = {"quick": 16000, "thorough": 80000}
SHRINK = ["runs", "runs.*.faults", "extra", "job.opts", "job.args", "files",
          "files.*.lines"]
RULE = ("a seeded tool, command line and source tree; the tool runs as a "
        "simulated process without faults and again with read, open, stat, "
        "write, close, standard-output and standard-error errors, full disk, "
        "interrupts and kills at seeded I/O events or instructions; the exit "
        "status is compared with what was delivered and the whole scratch "
        "tree with what it was; non-trivial: output of at least two items "
        "and a fault or chunked I/O")
MEASURE = "distinct event-log digests of non-trivial runs"
COMPONENTS = {"real": ["all nine tools", "h800/symbol_table.py",
                       "h800/arguscard.py", "h800/punchcard.py",
                       "fuzzywuzzy", "optparse", "CPython io stack"],
              "stub": ["raw files, os calls on paths and standard streams",
                       "process exit and kill"]}
ASSUMPTIONS = ["what stays in the standard-error buffer at exit may be lost "
               "without a non-zero status (CPython ignores it)"] + \
    c07.ASSUMPTIONS

ALL = tools.SYMBOL_TOOLS + tools.INSTR_TOOLS + ["listing", "genlines",
                                                "genpages"]
PROF = {"sizes": [2, 4, 8, 14], "mains": [1, 2, 3], "big": 0.06}
KINDS = F.READ_KINDS + F.OUT_KINDS * 4 + F.ERR_KINDS * 2 + F.INTR_KINDS * 2 + \
    F.WRITE_KINDS + F.KILL_KINDS * 2


def gen(r, i, tier):
    tool = ALL[i % len(ALL)]
    prof = PROF
    if tool == "listing":
        prof = dict(PROF, names=c07.NAMES)
    files, mains = gensrc.gen_tree(r, prof)
    if tool == "genpages":
        files = [c08.gen_file(r, mains[0])] + files[1:]
        mains = mains[:1]
    job = tools.gen_job(r, tool, mains, files)
    plan = {"files": files, "job": job,
            "extra": [["notes.txt", "notes\n"], ["old.lst", "old\n"],
                      ["data/table.bin", "x" * 100]],
            "rchunk": gensrc.gen_chunks(r) if r.random() < 0.2 else None,
            "wchunk": gensrc.gen_chunks(r) if r.random() < 0.3 else None,
            "runs": toolrun.gen_runs(r, KINDS, r.choice([1, 2, 3]))}
    toolrun.gen_break(r, plan, [f["name"] for f in files])
    return plan


def run(plan, st, root):
    toolrun.drive(plan, st, root)
