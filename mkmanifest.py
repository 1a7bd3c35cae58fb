"""Writes MANIFEST.json from properties.jsonl and the check modules present (reads their texts without importing them)."""
import ast, json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    f = f"{H}/checks/{p['id'].lower()}.py"
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
        continue
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "RULE", "BOUNDS", "ASSUMPTIONS", "TECH"):
            try:
                v[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']} quick",
        "thorough_cmd": f"./run.sh {p['id']} thorough",
        "technique": v["TECH"],
        "level": v["LEVEL"],
        "level_note": "Bounded exhaustive: " + v["BOUNDS"] + ". Assumes: " + "; ".join(v["ASSUMPTIONS"]),
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks drive the real code in /repo's working tree; no hooks are compiled into it. See DESIGN.md."},
          open(f"{H}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
