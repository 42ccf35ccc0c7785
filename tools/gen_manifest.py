"""Writes MANIFEST.json from properties.jsonl, checks/ and the table below:  python3 tools/gen_manifest.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime identity monitor over recorded histories; thread stress with injected bytecode-level switches",
    "C02": "runtime conservation monitor (exactly-once) over uid-tagged detections",
    "C03": "runtime matching oracle (no blocking pair) over recorded distances",
    "C04": "runtime label monitor plus per-label replay relation",
    "C05": "runtime trace monitor: hit-counter automaton",
    "C06": "runtime trace monitor: re-identification automaton with recorded filters",
    "C07": "runtime API-consistency monitor plus replay relations",
    "C08": "runtime reference-model monitor: textbook Kalman filter",
    "C09": "runtime reference-model monitor: dense Kalman filter; event protocol monitor for user filters",
    "C10": "runtime non-interference monitor: paired executions",
    "C11": "runtime trace monitor: per-point counters",
    "C12": "runtime trace monitor: sampling buffer model",
    "C13": "runtime differential monitor: moving camera against absolute coordinates",
    "C14": "runtime determinism and isolation monitor: bitwise paired executions",
    "C15": "runtime equivariance monitor: paired executions",
    "C16": "runtime leak monitor: weak references and garbage collection",
    "C17": "runtime oracle: independent formulas on hostile inputs",
    "C18": "runtime call monitor and matrix oracle",
    "C19": "runtime oracle: exact rational IoU and its relations",
    "C20": "runtime fault injection: invalid inputs must raise",
    "C21": "runtime oracle: inverse relations and independent projective arithmetic",
    "C22": "runtime trace monitor: accumulated motion model over synthetic flows",
    "C23": "runtime oracle: synthetic camera over a known scene",
    "C24": "runtime file oracle: parse back what was written",
    "C25": "runtime oracle: generated detection files",
    "C26": "runtime oracle: injected error counts",
    "C27": "runtime oracle: lossless video round trips with instrumented writer",
    "C28": "runtime oracle: image sequences and recorded video writer",
    "C29": "runtime oracle: color parsing and palette automaton",
    "C30": "runtime pixel oracle over drawn frames",
    "C31": "runtime pixel oracle over path histories",
    "C32": "runtime canvas model monitor",
    "C33": "runtime pixel oracle and call-independence relation",
    "C34": "runtime oracle: pixel slices and captured output",
    "C35": "runtime ground-truth monitor over synthetic scenes",
    "C36": "runtime fault injection: hidden packages, paired child processes",
    "C37": "runtime non-interference monitor: paired executions with observers",
    "C38": "runtime representation-independence monitor: paired executions",
}
NOTE = ("Held on every execution observed in the run (seeded, hostile random workloads on the real code; counts in the evidence file); "
        "a run samples executions, it does not enumerate them. Trusts CPython, numpy/scipy/OpenCV as installed and the oracle in checks/%s.py.")


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")):
            checks.append({
                "property": p,
                "quick_cmd": "./check.sh %s quick" % p,
                "thorough_cmd": "./check.sh %s thorough" % p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": TECH[p],
                "level": "exploration",
                "level_note": NOTE % p.lower(),
            })
        else:
            na.append({"property": p, "reason": "check not built yet"})
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks: everything is observed at norfair's public extension points and attributes. Dev only: VERIF_REPO points the checks at "
                 "another tree, VERIF_SCALE scales the number of cases, VERIF_JOBS the number of worker processes.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
