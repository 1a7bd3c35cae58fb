"""Writes DESIGN.md: head.md (hand written) + one section per property (texts of the check modules and the table below) + seeded table."""
import ast, glob, json, os

H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
exec(open(f"{H}/design/why.py").read())  # WHY: id -> (oracle, why tests cannot reach it)
known = json.load(open(f"{H}/known_findings.json"))
res = json.load(open(f"{H}/design/seeded_results.json")) if os.path.exists(f"{H}/design/seeded_results.json") else {}
out = [open(f"{H}/design/head.md").read()]
out.append("\n## Properties\n")
for p in props:
    f = f"{H}/checks/{p['id'].lower()}.py"
    v = {}
    if os.path.exists(f):
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "RULE", "BOUNDS", "ASSUMPTIONS", "TECH"):
                v[n.targets[0].id] = ast.literal_eval(n.value)
    o, w, c = WHY[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"- **Deciding method**: {v['TECH']}.\n- **What is enumerated and checked**: {v['RULE']}\n- **Oracle**: {o}\n- **Bounds**: {v['BOUNDS']}.\n"
               f"- **Assumes**: {'; '.join(v['ASSUMPTIONS'])}.\n- **Reaches what tests cannot**: {w}\n- **Cost**: {c}\n")
    for k in known["findings"]:
        if k["property"] == p["id"]:
            out.append(f"- **Known finding** `{k['id']}`: {k['what']}\n")
    for k in known["fixed"]:
        if f"property={p['id']} " in k:
            out.append(f"- **Repaired**: {k.split(' ', 2)[2]}\n")
out.append(open(f"{H}/design/tail.md").read())
out.append("\n## Planted changes (seeded/) and the checks that catch them\n\n| change | property | needs | result of the property's quick check |\n|---|---|---|---|\n")
for m in sorted(glob.glob(f"{H}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    out.append(f"| {i} | {d['property']} | {d['needs']} | {res.get(i, 'not run')} |\n")
open(f"{H}/DESIGN.md", "w").write("".join(x if x.endswith("\n") else x + "\n" for x in out))
