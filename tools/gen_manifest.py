"""Writes /verif/MANIFEST.json for the property modules that exist."""
import json
import os
import re

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = ("Seeded search over simulated executions of the real code: every schedule decision, fault, clock value and "
        "random number of a run is a function of its seed. The property held on the runs reported in the evidence "
        "file; nothing is claimed about runs that were not made. Trusted: the simulator (sim/), the oracles and the "
        "stated fault model (fork start method, atomic rename, data durable after fsync, faults at system calls and "
        "at numerical library calls). ")
EXTRA = {
    "C01": "Oracle: an undisturbed serial run of the same job.",
    "C02": "Oracle: an undisturbed serial run of the same job.",
    "C03": "Oracle: independent covariance, stability and variation of information; replay of the stored seeds.",
    "C04": "Oracle: every result file is loaded and compared after every file-system step that touches it.",
    "C05": "Oracle: the session's own record of what was saved.",
    "C06": "Oracle: a serial single-batch run with sorted listings.",
    "C07": "Oracle: dense mathematics on the event list, written independently of the package.",
    "C08": "Oracle: dense matrix exponential.",
    "C09": "Oracle: single Louvain runs with the returned seeds.",
    "C10": "Oracle: direct computation of all pairs.",
    "C11": "Oracle: single-process results of the same requests.",
    "C12": "Oracle: a small reference model of the guided analysis.",
    "C13": "Oracle: a new analysis with the same final settings, and dense mathematics.",
    "C14": "Oracle: a new network given the same request, and dense mathematics.",
    "C15": "Oracle: dense stability and a reference check of the partition.",
    "C16": "Oracle: rules of the contact process, checked on every generated event.",
    "C17": "Oracle: each analysis or object run alone.",
}
NA = {
    "C18": "Products, sums and conversions of compact matrices are pure functions of their arguments: no schedule, "
           "clock, I/O, process or fault is involved, so a simulator has nothing to decide (it would be plain input "
           "sampling).",
    "C19": "Partition distances are pure functions of two partitions; there is no concurrency, time, I/O or "
           "randomness for a simulator to control.",
    "C20": "Compiled helpers and their substitutes are pure functions; comparing them is input sampling, not "
           "simulation.",
}


def main():
    checks = []
    for f in sorted(os.listdir(os.path.join(V, "props"))):
        m = re.match(r"(c\d\d)\.py$", f)
        if not m:
            continue
        pid = m.group(1).upper()
        checks.append({"property": pid, "quick_cmd": f"./check.py {pid} --tier quick",
                       "thorough_cmd": f"./check.py {pid} --tier thorough",
                       "evidence_file": f"evidence/{pid}.json",
                       "technique": "deterministic simulation with fault injection (seeded search over schedules, "
                                    "faults and histories)",
                       "level": "exploration", "level_note": NOTE + EXTRA[pid]})
    claimed = {c["property"] for c in checks}
    na = [{"property": p, "reason": r} for p, r in sorted(NA.items())]
    with open(os.path.join(V, "properties.jsonl")) as fh:
        for ln in fh:
            p = json.loads(ln)["id"]
            if p not in claimed and p not in NA:
                na.append({"property": p, "reason": "check not built yet"})
    out = {"version": 1, "setup_cmd": "./check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the simulator works through standard-library seams (sim/shim.py). "
                    "Replay: ./check.py --replay FILE. See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(out, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
