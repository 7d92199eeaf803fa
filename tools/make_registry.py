"""Writes mc/registry.json and MANIFEST.json from the table below (and properties.jsonl for the ids not claimed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ["values outside the enumerated grid of thresholds, mid-points and threshold ties behave like the grid point of their cell (the kernels only compare features with thresholds)",
          "results are compared with a relative tolerance of 1e-7; where rounding alone decides a comparison the row is skipped and counted",
          "the enumeration stops at the stated sizes (small-scope hypothesis)"]
TECH = "explicit-state enumeration of a reference model, replayed on the implementation"
R = {}


def r(pid, module, rule, quick, thorough, note, tech=TECH, assumptions=COMMON, **kw):
    R[pid] = dict(module=module, rule=rule, bounds={"quick": quick, "thorough": thorough}, note=note, technique=tech, assumptions=assumptions, **kw)


exec(open(os.path.join(V, "tools", "registry_table.py")).read())

reg = {k: {a: b for a, b in v.items() if a not in ("note", "technique")} for k, v in sorted(R.items())}
json.dump(reg, open(os.path.join(V, "mc", "registry.json"), "w"), indent=1)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
man = {"version": 1, "setup_cmd": "python3 mc/build.py",
       "checks": [{"property": i, "quick_cmd": "python3 mc/run.py %s quick" % i, "thorough_cmd": "python3 mc/run.py %s thorough" % i,
                   "technique": R[i]["technique"], "level": "model_checking", "level_note": R[i]["note"]} for i in ids if i in R],
       "not_applicable": [{"property": i, "reason": NOT.get(i, "the check is not built yet")} for i in ids if i not in R]}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed;", [x["property"] for x in man["not_applicable"]])
