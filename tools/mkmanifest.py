"""Writes MANIFEST.json from the property modules that exist and the list of declined ones."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
    "C31": "Interleavings of CPython threads inside code generation, exec and C-level caches cannot be "
           "encoded: the symbolic interpreter runs one thread, and the relevant steps (dict and lru_cache "
           "operations, exec) are C code whose atomicity is the interpreter's, not pyserde's.",
    "C32": "NumPy arrays and scalars are C objects: a symbolic value entering numpy is immediately made "
           "concrete, so no query could range over array contents, dtypes or shapes; what remains would be "
           "sampling.",
}
checks = []
na = []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "props", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} --tier quick",
            "thorough_cmd": f"./check {i} --tier thorough",
            "technique": "bounded symbolic execution of the real code (CrossHair engine, z3), "
                         "counterexamples replayed on plain CPython",
            "level": "model_checking",
            "level_note": "Every path of the harnesses within the stated bounds is decided by z3 over "
                          "symbolic leaf values; class shapes and API options are an enumerated bounded "
                          "family. Trusted: CrossHair's model of CPython built-ins, z3, and the listed "
                          "stubs (message formatting, sampled container element, text format "
                          "contracts). Nothing is claimed outside the bounds.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Known findings and repaired defects: known_findings.txt. "
              "See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
