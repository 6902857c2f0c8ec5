#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from levels.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(os.path.join(HERE, "levels.json")))
NA = {
 "C19": "The contract cannot be stated over the current interface without first redesigning it: generators, indices and propositions hold raw pointers into containers that Pddl::AddObject/RemoveObject reallocate, so no function-level invariant connecting an earlier result to later queries exists to be discharged (lifetimes across calls are outside the verifier's memory model, which has no heap reallocation).",
 "C20": "A property of thread schedules; the deductive verifier here is sequential (no ownership/permission logic for C++ threads is installed) and the library has hidden mutable caches, so no function contract within reach expresses it.",
 "C21": "The code is Python (symbolic/*.py string building) for which no installed deductive verifier accepts contracts; anything else would be testing, i.e. a different technique.",
 "C22": "Loading is done by the external VAL parser (flex/bison C++), whose sources are not in this sandbox; a contract for it would be wholly assumed, leaving nothing to discharge.",
}
checks = []
for p in sorted(L):
    checks.append({
        "property": p,
        "quick_cmd": "VERIF_TIER=quick python3-vt run_check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3-vt run_check.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": L[p].get("technique", "contract-based deductive verification of the C++ source (vcgen: clang AST to SMT)"),
        "level": L[p]["level"],
        "level_note": L[p]["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3-vt tools/selfcheck.py",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
    "notes": "No hooks in /repo: contracts live in /verif/vcgen/specs and are bound to functions by qualified name and signature; the verified text is clang's AST of /repo's current sources. Genuine defects repaired by fix: commits are listed in known_findings.txt.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
