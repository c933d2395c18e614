#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (run: python3 tools/gen_manifest.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/vf.py setup",
    "hooks": {"guard": "none", "enable": "no hooks: the harness crate depends on /repo's crate as it is and replaces tokio and argon2 by [patch.crates-io]", "source_commits": []},
    "checks": [], "not_applicable": [],
    "notes": "Every check compiles /repo's current tree with the harnesses to LLVM IR, executes it symbolically with /verif/engine and lets Z3 decide each branch and assertion; counterexamples and sampled paths are replayed in the native binary of the same crate. Bounds per harness: tools/checks.py and the evidence file.",
}
for p in ids:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m["checks"].append({
            "property": p, "quick_cmd": f"python3 tools/vf.py check {p}", "thorough_cmd": f"python3 tools/vf.py check {p} --tier thorough",
            "technique": "symbolic execution of the compiled code (LLVM IR) with Z3 deciding every branch and assertion",
            "level": "model_checking",
            "level_note": "Decided for every input, choice and schedule within the stated bounds: " + " | ".join(h["bounds"] for h in c["harnesses"] if "quick" in h.get("tiers", ("quick",)))
                          + ". Trusts the engine's reading of LLVM IR (sampled paths are compared with native runs), Z3, and the stand-ins named under assumptions in the evidence.",
        })
    else:
        m["not_applicable"].append({"property": p, "reason": checks.NOT_APPLICABLE.get(p, "not claimed yet: no check has been built for it so far")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
