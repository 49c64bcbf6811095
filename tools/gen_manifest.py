#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks the harness has."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
have = {}
for f in sorted(os.listdir(V + "/harness/src")):
    for m in re.finditer(r'Prop \{\s*id: "(C\d+)",\s*rule: "([^"]*)"', open(V + "/harness/src/" + f).read()):
        have[m.group(1)] = m.group(2)
TECH = {
 "C01": "property-based testing: generated merge histories, conservation invariant",
 "C02": "property-based testing: differential against a reference merge model",
 "C03": "property-based testing: field-wise merge rules over generated chains",
 "C04": "property-based testing: reference model and metamorphic deletion of ambiguous transactions",
 "C05": "property-based testing: metamorphic re-merge",
 "C06": "property-based testing: metamorphic batch against incremental merge",
 "C07": "property-based testing: accept/reject verdict of a reference model",
 "C08": "property-based testing: order invariant over generated histories",
 "C09": "property-based testing: metamorphic split into source sets",
 "C10": "property-based testing: repeated runs compared byte for byte",
 "C11": "property-based testing: round trip through an independent parser",
 "C12": "property-based testing: independent comment reader on rewritten journals",
 "C13": "property-based testing: set invariants over generated journals",
 "C14": "property-based testing: generated journals with injected unsupported items",
 "C15": "property-based testing: directory snapshots around failing commands",
 "C16": "property-based testing: fault injection on outputs",
 "C17": "property-based testing: differential against a reference rule interpreter",
 "C18": "property-based testing: projection equality under generated rules",
 "C19": "property-based testing: generated include and chain graphs against a reference validator",
 "C20": "property-based testing: generated statements against a reference conversion",
 "C21": "property-based testing: generated statements against a reference conversion",
 "C22": "property-based testing: generated OCR layouts against a reference conversion",
 "C23": "property-based testing: generated faults of stand-in tools",
 "C24": "property-based testing: differential against an independent fingerprint implementation, metamorphic changes",
 "C25": "property-based testing: uniqueness invariants over near-identical records",
 "C26": "property-based testing: generated download histories",
 "C27": "property-based testing: round trip of imported journals through every command",
 "C28": "property-based testing: single-defect mutation of valid statements",
 "C29": "property-based testing: differential against own calendar arithmetic",
 "C30": "property-based testing: option combinations against own namespace and path computation",
 "C31": "property-based testing: metamorphic file against standard stream",
 "C32": "fuzzing: mutated and random bytes for every input, no-crash oracle",
 "C33": "property-based testing: generated ambiguities resolved by a simulated user",
}
checks = []
for i in ids:
    if i in have:
        checks.append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "bash check.sh " + i,
          "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
          "level_note": "Randomised search with the real binary built from /repo; non-trivial case: " + have[i] +
            ". Trusts the harness's own parser, renderer and reference model; says nothing about inputs outside the generators (DESIGN.md)."})
na = [{"property": i, "reason": "no check built yet"} for i in ids if i not in have]
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
  "notes": "Black-box checks of the built binary; no hooks in /repo. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
