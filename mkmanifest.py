#!/usr/bin/env python3
"""Writes MANIFEST.json from specs/checks.json."""
import json
c = json.load(open("specs/checks.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
NA = {
 "C16": "The statement is about running the generator in /repo/update under rustc 1.86; that toolchain is not installed and cannot be fetched, and the generator's inputs are the answers of that compiler, which no contract over the crate's functions can supply.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in c:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c[i].get("technique", "contract-based deductive verification: Verus contracts on functions extracted from /repo/src on every run"),
            "level": c[i].get("level", "proof"),
            "level_note": c[i]["note"],
            "theorems": c[i]["theorems"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No discharged contract yet; see DESIGN.md.")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks read /repo/src and link the crate as it is", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "check.py ID extracts the functions under contract from /repo/src, has Verus discharge every obligation, and runs the real crate on inputs to find the failing input; see DESIGN.md."},
          open("MANIFEST.json", "w"), indent=1)
