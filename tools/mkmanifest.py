"""Writes MANIFEST.json from properties.jsonl and the table below."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = "Seeded sampling, not proof: a clean batch is evidence. Real rxls, zipfile, expat, numpy and pyarrow code runs; storage, scheduler, locks, queue, clocks and allocation failures are simulated. "
NOTES = {
    "C01": "Trusts the independent writer/model in dst/book.py for the right table and zipfile's CRC as the definition of detectable damage in parts read to their end.",
    "C02": "The reference is the model's table and, under it, a run in which the worker is never preempted. Preemption between lines and at every lock, queue, thread and I/O operation, not inside C code.",
    "C03": "Injected exceptions are compared by identity, XML errors with an independent expat parse of the same bytes.",
    "C04": "A hang is a simulated deadlock, exhaustion of a step budget proportional to the workbook, or 60 s (confirmed with 180 s) of real time without an end.",
    "C05": "Background tasks, open handles, late callbacks and uncaught errors are those the simulator created, so none is missed; the consumer may stop at any row.",
    "C06": "Probe calls are compared with the same calls in a process that did not see the earlier history.",
    "C07": "Callers are real threads released one at a time by the simulator; each result is compared with the model's.",
    "C08": "Whole-file replacement and (partial) in-place overwrite at every I/O operation of a read of a whole sheet.",
    "C09": "Refinement against a list of records; the device decides the size of every read and whether seeking works.",
    "C10": "The callback's calls are compared with the worksheet's row count and with the simulator's event order.",
    "C11": "Histories of operations on one workbook object, compared with fresh objects.",
    "C12": "Histories of column operations with failing allocations and failing lines, compared with a fresh column and a list model.",
    "C13": "Provenance of every text is checked with independent parsers of the damaged parts; a crash of the process is a violation.",
    "C14": "Exact prefix against the model; bytes read and rows reported after the limit are bounded.",
    "C15": "Histories of openings of one workbook object, each answer compared with the model of the version that is there and with a fresh object.",
    "C16": "Refinement against an independent encoder; the stream decides how much of each write it accepts and when it fails.",
}
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
src = {}
exec(compile(open(os.path.join(ROOT, "tools", "mkprops.py")).read().split("def prop")[0], "mkprops", "exec"), src)
checks, na = [], []
for p in props:
    if p["id"] in NOTES:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check {p['id']}",
            "thorough_cmd": f"./check {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories",
            "level": "exploration",
            "level_note": COMMON + NOTES[p["id"]],
        })
    else:
        na.append({"property": p["id"], "reason": "A pure function of the workbook and the options: no schedule, clock, fault, I/O history or interleaving can change whether it holds, so deterministic simulation does not decide it. (Cells and options of this kind do occur in the workloads of the claimed checks, where the reference model has to agree.)"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na, "notes": "No hooks in /repo: every seam is patched from outside (open, threading, queue, time, numpy/pyarrow constructors, sys.settrace)."}, f, indent=1)
    f.write("\n")
