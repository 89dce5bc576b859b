#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks of the harness."""
import json
import os
import subprocess

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = {
    "C01": "runtime monitoring: round trips of generated calendars through the real Encode and Decode, compared by a model",
    "C02": "runtime monitoring: the bytes the real Encode writes are judged by an independent RFC 5545 reader",
    "C03": "runtime monitoring: online grammar and structure monitor on the bytes the real Encode writes for hostile strings",
    "C04": "runtime monitoring: recording writer under the real Encode for calendars with one invalid value injected",
    "C05": "runtime monitoring: calendars the real Decode returns for independently written texts, compared by a model",
    "C06": "runtime monitoring: metamorphic monitor over Decode of respelled texts",
    "C07": "runtime monitoring: metamorphic monitor over Decode of refolded texts and adversarial readers",
    "C08": "runtime monitoring: fuzzed workloads in supervised worker processes with panic, CPU, memory and contract monitors",
    "C09": "runtime monitoring with fault injection: input cut off and reader failing at every offset",
    "C10": "runtime monitoring: Decode of texts with one rule broken at a random place, accept/reject monitor",
    "C11": "runtime monitoring: metamorphic monitor over Decode of texts with unknown content added",
    "C12": "runtime monitoring with fault injection: writer failing at every write and byte, trace monitor on the writer",
    "C13": "race detector and state snapshots on concurrent Decode and Encode with injected delays",
    "C14": "runtime monitoring: date-time values in both directions against an independent time model, in several local zones",
    "C15": "runtime monitoring: recurrence rules in both directions against an independent rule reader",
    "C16": "runtime monitoring: text and param escaping in both directions against an independent reader",
    "C17": "runtime monitoring: scalar values in both directions against independent readers and exact arithmetic",
    "C18": "runtime monitoring: errors of the real Decode and Encode classified by errors.Is against the injected cause",
    "C19": "runtime monitoring: byte comparison of repeated encodings across calls, writers and processes",
    "C20": "runtime monitoring: conservation monitor with unique identifiers, and allocation and processor time accounting, at growing sizes",
    "C21": "runtime monitoring: calendars the real Decode returns for mutated texts given to the real Encode, judged by an independent reader",
    "C22": "runtime monitoring with fault injection: goroutine, open file and heap accounting after calls, and readers and writers that know when their call has ended",
}

props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
listed = subprocess.run(["bash", os.path.join(root, "check.sh"), "--list"], check=True, capture_output=True, text=True).stdout
have = {l.split()[0] for l in listed.splitlines()}
checks, missing = [], []

for p in props:
    i = p["id"]

    if i not in have:
        missing.append({"property": i, "reason": "the check for it is not built yet"})

        continue

    level = "fault_enumeration" if i in ("C09", "C12") else "exploration"
    note = {
        "fault_enumeration": "every fault point of each small workload, and an even sample of them for large ones; the workloads are generated, so the property is not proved",
        "exploration": "held on all executions observed, which are generated from a seed; not a proof",
    }[level]

    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": TECHNIQUE[i],
        "level": level,
        "level_note": note,
    })

m = {"version": 1, "setup_cmd": "bash check.sh --list", "checks": checks, "not_applicable": missing}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
