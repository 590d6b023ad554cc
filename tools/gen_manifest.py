#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks registered in the harness and the table below."""
import json, subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "runtime monitoring: generated programs, every rendering read by an independent SQL parser and compared with a reference model"
T = {
 "P01": "runtime monitoring: non-interference monitor over pairs of executions with other values",
 "P02": "runtime monitoring: placeholder sequence monitor and reference model of the values in order",
 "P03": "runtime monitoring: differential monitor over the three renderings",
 "P04": REF + " (hostile names)",
 "P05": "runtime monitoring: differential monitor over rebuilt programs, map orders and processes",
 "P06": "runtime monitoring: history monitor over mixed renderings and modified results",
 "P07": "runtime monitoring: history monitor over derivation trees against fresh chains",
 "P08": "runtime monitoring: ownership monitor (snapshots, then scrambled containers)",
 "P09": "Go race detector, and a differential monitor against the sequential results",
 "P10": REF + " (condition trees)",
 "P11": REF + " (select)",
 "P12": REF + " (insert)",
 "P13": REF + " (update)",
 "P14": REF + " (delete)",
 "P15": "runtime monitoring: fault injection of undefined parts, accept-complete-or-reject monitor",
 "P16": "runtime monitoring: executable map model of the assignments",
 "P17": REF + " (rows)",
 "P18": "runtime monitoring: conversion model over kinds of values and positions",
 "P19": "runtime monitoring: conservation and differential monitor over textual joins",
 "P20": "runtime monitoring: conservation monitor over token streams",
 "P21": "runtime monitoring: permutation monitor and once-only monitor over call histories",
 "P22": "runtime monitoring: literals decoded by an independent reader and compared with the values",
 "P23": "runtime monitoring: integer model of limits and offsets",
 "P24": "runtime monitoring: differential monitor of nested statements against their standalone renderings",
 "P25": "runtime monitoring: token stream monitor with and without comments",
 "P26": "runtime monitoring: recording context, trace checked against the builder's renderings",
 "P27": "runtime monitoring: fault injection in histories, compared with fault-free chains",
 "P28": "runtime monitoring: differential monitor of trusted fragments",
 "P29": "runtime monitoring: differential monitor over equivalent spellings",
 "P30": "runtime monitoring: kind model of statements and builders at every stage",
 "P31": "runtime monitoring: misuse fuzzing, monitor of runtime faults and hangs",
 "P33": "runtime monitoring: differential monitor of statements made by hand, models of the contexts and of the container of pairs",
 "P32": "runtime monitoring: fault injection of undefined and unsupported elements, present-or-rejected monitor",
}
N = {}
COMMON = ("Held on the executions counted in the evidence file (fixed case counts derived from VERIF_SEED), not a proof. "
          "Trusts the harness's own SQL tokenizer, parser and models.")
N["P09"] = ("The race detector and the comparison with sequential results only speak about the interleavings which were executed. " + COMMON)
ids = subprocess.check_output([os.path.join(ROOT, "build/harness"), "list"], text=True).split()
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash run.sh --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: every check observes the public API from outside, on the current tree of /repo. bash run.sh --replay FILE executes a violation again."}
for p in props:
    if p in ids:
        m["checks"].append({"property": p, "quick_cmd": f"bash run.sh {p} quick", "thorough_cmd": f"bash run.sh {p} thorough",
                            "evidence_file": f"evidence/{p}.json", "technique": T[p], "level": "exploration", "level_note": N.get(p, COMMON)})
    else:
        m["not_applicable"].append({"property": p, "reason": "machinery under construction"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
