#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
CORE = ["C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33"]
T = {c: "abstract interpretation of MIR: gated value numbering compared with the definition as normal forms" for c in CORE}
T["C28"] = "abstract interpretation of MIR: disjunctive analysis over pivot choices with rational-function values, states joined on equal memory"
T["C30"] = "abstract interpretation of MIR: inductive invariant of the iterator step"
T["C13"] = "effect analysis: who-may-call, statics and unsafe rules over resolved MIR call sites"
T["C14"] = "type-flow rule over all MIR locals, casts and record fields in both configurations"
N = {c: "Decides the property for all inputs in both precision configurations, for every public operation of the group, on the MIR of the current tree. Trusts: real arithmetic for floats (no rounding), no integer overflow, the std models. A construct outside the model is reported as UNDECIDED, never as a violation; a violation always comes with a witness point." for c in CORE}
N["C13"] = "Covers every call site of every function of the library in both configurations; trusts that std functions outside the forbidden modules are effect-free."
N["C14"] = "Covers every local, cast, call instance and record field of the library; precision is decided by type, not by numeric error."
NA = {}
try:
    exec(open("manifest_parser.py").read())
except FileNotFoundError:
    pass
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
           "technique": T[p], "level": "other", "level_note": N[p]} for p in props if p in T]
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in T]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: a rustc driver dumps optimised-off MIR of /repo's working tree (both precision configurations); Python analyses decide each property from it. Nothing of /repo is executed."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "na")
