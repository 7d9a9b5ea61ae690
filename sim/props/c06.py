"""C06: instruction tools report exactly the operations in the sources."""

from .. import faults as F
from .. import gensrc, toolrun, tools

ID = "C06"
LEVEL = "fault_enumeration"
RUNS = {"quick": 17000, "thorough": 80000}
SHRINK = ["runs", "runs.*.faults", "job.opts", "job.args", "files",
          "files.*.lines"]
RULE = ("seeded source trees and command lines of check-instructions, "
        "list-instructions and parse, each run as a simulated process without faults "
        "(output compared with the reference model) and again with read "
        "errors, corruption, output errors, interrupts, short reads and "
        "writes at seeded I/O events or instructions; non-trivial: at least "
        "two cards and a fault or chunked I/O")
MEASURE = "distinct event-log digests of non-trivial runs"
COMPONENTS = {"real": ["tools/check-instructions.py",
                       "tools/list-instructions.py",
                       "tools/parse.py", "h800/symbol_table.py",
                       "h800/instructions (table)",
                       "h800/arguscard.py", "h800/punchcard.py",
                       "optparse", "CPython io stack"],
              "stub": ["raw files, os.stat and standard streams",
                       "process exit"]}
ASSUMPTIONS = ["instructions of equal frequency may be listed in any order "
               "under --sort", "the wording of the dump that follows a symbol "
               "diagnostic is not checked"]

PROF = {"sizes": [2, 4, 8, 14, 20], "mains": [1, 2, 3], "label": 0.4,
        "big": 0.02, "pools": 0.5}


def gen(r, i, tier):
    files, mains = gensrc.gen_tree(r, PROF)
    plan = {"files": files,
            "job": tools.gen_job(r, r.choice(tools.INSTR_TOOLS), mains,
                                 files),
            "rchunk": gensrc.gen_chunks(r) if r.random() < 0.3 else None,
            "wchunk": gensrc.gen_chunks(r) if r.random() < 0.3 else None,
            "runs": toolrun.gen_runs(
                r, F.READ_KINDS + F.OUT_KINDS + F.ERR_KINDS + F.INTR_KINDS,
                r.choice([0, 1, 2, 3]))}
    toolrun.gen_break(r, plan, [f["name"] for f in files])
    return plan


def run(plan, st, root):
    toolrun.drive(plan, st, root)
