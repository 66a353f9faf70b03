"""Writes MANIFEST.json from properties.jsonl and check.py's clauses."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf

NOTE = ("Every recorded call is judged by TLC against the TLA+ state machine FontSystem (spec/). "
        "Holds for the explored scenarios; inputs the specification calls open carry no claim. "
        "Trusts TLC, the decoders in spec/FontTables.tla and the recording harness. ")
EXTRA = {
    "C21": "Schedules of 2-3 programs, cut at I/O operations, are enumerated by TLC and replayed; interleavings inside a call "
           "are sampled by 8 goroutines under the race detector.",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(vf.VERIF, "properties.jsonl"))]
    checks = []
    for p in props:
        i = p["id"]
        checks.append({
            "property": i,
            "quick_cmd": "bin/check " + i,
            "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
            "technique": "TLA+ state machine checked with TLC; generated scenarios run on the real code and their traces "
                         "validated against the specification",
            "level": "model_checking",
            "level_note": (NOTE + EXTRA.get(i, "")).strip(),
        })
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
         "notes": "No hooks are needed: the harness uses the exported API only. known-findings.json lists findings and "
                  "repaired defects."}
    json.dump(m, open(os.path.join(vf.VERIF, "MANIFEST.json"), "w"), indent=1)


main()
