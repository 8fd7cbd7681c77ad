#!/usr/bin/env python3
"""writes MANIFEST.json from the table below (ids with a checks/<id>.py are claimed)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("interprocedural obligation dataflow over clang AST/CFG", "Every producer of a kernel result in kernels, library and bindings is tracked to a return/handler on every path; handlers are proven to throw. Trusts clang's AST; CUDA library results are out of scope (not built)."),
}
NA = {
 "C30": "equality of computed values with NumPy quantifies over runtime data; no sound static argument in reach bounds it (its structural parts are claimed as C04, C10, C16)",
 "C31": "round-trip equality of values quantifies over runtime data; the table-agreement parts are claimed as C08, C10 and C13",
 "C32": "ordering of sorted results is a property of runtime values and of std::sort's comparator results; no structural clause is both necessary and sufficient enough to claim",
 "C33": "functional equivalence of kernels with their reference definitions needs execution or a solver; the structural parts (which arguments are written, bounds tests, forwarding) are claimed as C02, C03, C04",
}
extra = os.path.join(V, "tools", "manifest_table.json")
if os.path.exists(extra):
    T.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(V, "checks", i + ".py")) and i in T:
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py " + i,
                       "technique": T[i][0], "level": "other", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "check under construction, not yet claimed"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only; see DESIGN.md. Every check re-parses /repo's current sources."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
