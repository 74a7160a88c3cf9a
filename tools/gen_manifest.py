#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. BUILT lists the properties that have a check; the rest goes to not_applicable."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "property-based testing: "
BUILT = {
 "C11": ("generated shapes, indices and iteration schedules against an independent row-major enumeration model",
         "Random and exhaustive-small search over fixed and run-time shapes of rank 0-6; trusts the enumeration model in harness/src/ix.rs."),
 "C12": ("generated buffers and operation choices against a flat row-major model",
         "Random search over scalars, pairs, vectors and arrays of rank 0-6 with value, reference and in-place forms; trusts the flat model."),
 "C13": ("generated operand pairs and zip forms against an index-by-index model with order-sensitive functions",
         "Random search over operand types, shapes, forms (new, in place, fold) and non-commutative combining functions."),
 "C14": ("generated operands (dense, uniform, diagonal) against a triple-loop contraction model",
         "Random search over all contraction implementations and structured mixtures; integer-valued data makes the comparison exact. One pinned finding (r2-r1)."),
 "C04": ("generated expressions with every operator against an independent evaluator carrying running error bounds",
         "Random search over expressions of up to ~40 nodes over scalar, vector and matrix variables; trusts the ball arithmetic in harness/expr/src/num.rs."),
 "C01": ("generated expressions differentiated by scalar variables against forward-mode differentiation of an independent evaluator",
         "Random search; ill-conditioned points are not judged (stated in the evidence). One pinned finding (Sum over an array)."),
 "C02": ("generated expressions differentiated by vector and matrix variables against forward-mode Jacobians of an independent evaluator",
         "Random search over 2- and 3-vectors and the four small matrix shapes. Two findings (Sum; transposed left factor of a contraction)."),
}
exec(open(os.path.join(root, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(root, "tools", "manifest_more.py")) else None
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in BUILT:
        t, n = BUILT[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": T + t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observable through the public API. Known findings are in known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
