#!/usr/bin/env python3
"""Writes MANIFEST.json from suite.py and the list of properties not claimed."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import suite

NOT_APPLICABLE = [dict(property=p, reason=r) for p, r in suite.NOT_APPLICABLE.items()]
checks = []
for p, s in sorted(suite.SUITE.items()):
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": "symbolic execution of the compiled LLVM IR, decided by Z3, counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Every input and history within the bounds given per harness in the evidence (" + "; ".join(
            "%s: %s" % (h["entry"], h["bounds"]) for h in s["harnesses"] if "quick" in h.get("tiers", ("quick",))) +
            "). Nothing is said beyond these bounds, about other compilers or about more threads. Trusted: rustc's lowering to LLVM IR, symx, Z3 and the stand-ins listed as assumptions."})
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "hooks": {"guard": "--cfg verif_hooks", "enable": "RUSTFLAGS='--cfg verif_hooks' (set by check.py for its own builds)", "source_commits": suite.HOOK_COMMITS},
    "not_applicable": NOT_APPLICABLE,
    "notes": "DESIGN.md describes the method, bounds, assumptions and findings; known_findings.txt lists the defects found and repaired.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
