"""writes DESIGN.md from design_head.md, the rules and design_tail.md"""
import ast, json, os
from tech import T
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "EXPLANATION", "ASSUMPTIONS"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                out[n.targets[0].id] = eval(compile(ast.Expression(n.value), path, "eval"), {})
    return out


man = json.load(open(V + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = [open(V + "/gen/design_head.md").read(), "## Properties\n\n"]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out.append("### %s  %s\n\n" % (i, p["title"]))
    if i in na:
        out.append("Not applicable: %s\n\n" % na[i])
        continue
    c = consts("%s/rules/%s.py" % (V, i.lower()))
    flat = lambda s: " ".join(s.split())
    out.append("* Decides: %s\n* Analyses: %s\n* Technique: %s\n* Assumes: %s\n\n" % (flat(c["RULE"]), flat(c["EXPLANATION"]), T[i][0], "; ".join(c.get("ASSUMPTIONS", [])) or "nothing beyond the engine's own limits"))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    f = V + "/seeded/" + d + "/meta.json"
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append("| %s: %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["property"], m["needs"], m.get("caught_by", m["property"])))
out.append(open(V + "/gen/design_tail.md").read().replace("@SEEDS@", "\n".join(rows)))
open(V + "/DESIGN.md", "w").write("".join(out))
