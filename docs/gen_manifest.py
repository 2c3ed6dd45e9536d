#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
GVN = "gated value-flow summaries (global value numbering) of the source compared with reference functions"
NOTE = ("Static. For each function under the property the value flow of every result, the exception condition and the final state of everything it may modify is summarised from "
        "the type-checked syntax tree and compared with the summary of a reference function; a difference is reported only when it is localised in constructs the analysis understands, "
        "everything else is listed as undecided in the evidence. Trusts: clang's front end, the models of the standard library and boost integers, the reference functions.")
CLAIMS = {}
def c(p, technique=GVN, note=NOTE): CLAIMS[p] = (technique, note)
exec(open(os.path.join(os.path.dirname(__file__), "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash tool/build.sh && python3 lib/frontend.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": CLAIMS[p][0], "level": "other", "level_note": CLAIMS[p][1]} for p in props if p in CLAIMS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "no check built yet")} for p in props if p not in CLAIMS],
     "notes": "Family: static analysis. No hooks in /repo; /repo carries only fix: commits (listed in known_findings.json)."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
