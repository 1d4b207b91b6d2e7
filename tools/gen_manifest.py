#!/usr/bin/env python3
"""MANIFEST.json from analyzer/registry.py and properties.jsonl"""
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/analyzer")
from registry import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": CHECKS[i]["technique"],
        "level": CHECKS[i]["level"],
        "level_note": CHECKS[i]["note"],
    } for i in ids if i in CHECKS],
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet")} for i in ids if i not in CHECKS],
    "notes": "Everything is decided from the source: rustc parses, expands and type-checks the tree, a rustc_private driver dumps its MIR, and analyzer/ evaluates that MIR abstractly. No compiled code of the repository is run, apart from the derive macro inside the compiler when a witness crate is expanded. No hooks in /repo are needed.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
