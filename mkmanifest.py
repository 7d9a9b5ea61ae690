"""Writes MANIFEST.json from the property modules."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "C01": "seeded simulation of source loads: simulated files, chunked reads and preempted threads, checked against a reference deck model",
    "C02": "seeded I/O-fault, corruption and interrupt injection into source loads, with recovery checked against the reference deck",
    "C03": "seeded simulation of sequential and preempted table builds against a reference table",
    "C04": "seeded read-fault injection into histories of table builds, all-or-nothing against a reference table",
    "C05": "simulated tool processes with seeded I/O faults against a reference report",
    "C06": "simulated tool processes with seeded I/O faults against a reference report",
    "C07": "simulated listing processes with seeded I/O faults, torn writes and kills against reference listings",
    "C08": "simulated page-generator processes, seeded faults, kills and interleavings, prefix invariant after every I/O event",
    "C09": "simulated processes of all nine tools with seeded faults and kills; exit status against delivered output and the file tree",
    "C10": "seeded preemption of simulated programs at bytecode instructions; linearizability of recorded word histories",
    "C11": "seeded preemption of simulated programs at bytecode instructions; linearizability of recorded register histories",
    "C12": "seeded interrupts and allocation failures at bytecode instructions inside writes; all-or-nothing oracle",
    "C13": "seeded histories, preemption and interrupts inside clears against a cell model",
    "C14": "seeded histories and preempted interleavings of scans against a sequence model",
    "C15": "seeded preemption, interrupts and output faults inside instruction builds against an independent code table",
    "C17": "seeded histories, preemption, interrupts and failed allocations of bit-field operations in all schemes against a bit-weight model",
    "C20": "seeded histories, preemption, interrupts and output faults of symbol-list operations against a reference list; bounded progress of resolution",
    "C21": "seeded histories, preemption, interrupts and output faults of symbol queries against a reference table",
    "C22": "simulated simultaneous processes of all nine tools, switched at I/O events, with seeded faults and kills, each against its reference report",
    "C23": "seeded preemption and interrupts of dumps, scans and writes; each dump checked as linearizable reads of all cells",
}
NA = {
    "C16": "a pure function of the operands: no schedule, clock, I/O or fault can change it, so there is nothing to simulate (C15 checks the codes it meets while simulating concurrent and interrupted builds)",
    "C18": "a constant table with no behaviour to simulate",
}


def main():
    checks = []
    for k in list(range(1, 16)) + [17, 20, 21, 22, 23]:
        pid = "C%02d" % k
        m = importlib.import_module("sim.props." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py %s --tier quick" % pid,
            "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "deterministic simulation with fault injection: " +
            TECH[pid],
            "level": m.LEVEL,
            "level_note":
            "A seeded sample, not a proof: %d simulated runs in the quick "
            "tier, up to %d in the thorough tier; every run is repeatable "
            "from its seed. Assumes: %s. Real code: %s; stubs: %s." % (
                m.RUNS["quick"], m.RUNS["thorough"],
                "; ".join(m.ASSUMPTIONS), ", ".join(m.COMPONENTS["real"]),
                ", ".join(m.COMPONENTS["stub"]))})
    doc = {"version": 1, "setup_cmd": "python3 check.py --selftest",
           "checks": checks,
           "not_applicable": [{"property": k, "reason": v}
                              for k, v in NA.items()],
           "notes": "No hooks in /repo: every seam already exists in Python "
                    "(open, os, sys.stdout, threading, trace hook). Known "
                    "and fixed defects: KNOWN_FINDINGS.txt."}
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
