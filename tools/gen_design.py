"""writes DESIGN.md: the engine, then one section per property from properties.jsonl, the checks and the evidence; then findings and planted bugs"""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(here, p)).read()
NOTE = json.loads(rd("tools/design_notes.json"))
out = [rd("tools/design_head.md").rstrip(), "", "## Properties", ""]
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l)
    src = os.path.join(here, "checks", p["id"].lower() + ".py")
    d = {}
    for n in ast.parse(open(src).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("EXPLANATION", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    x = NOTE.get(p["id"], {})
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "", "*How it is decided.* " + d["EXPLANATION"], "",
            "*Bounds and assumptions.* " + "; ".join(d["ASSUMPTIONS"]) + ".", ""]
    for k, t in (("oracle", "Oracle"), ("configs", "Configurations (quick)"), ("reach", "What the tests cannot reach"), ("outside", "Outside"), ("cost", "Cost")):
        if k in x:
            out += ["*%s.* %s" % (t, x[k]), ""]
out += [rd("tools/design_tail.md").rstrip(), "", "### Repairs in /repo", ""]
kf = json.loads(rd("known_findings.json"))
for f in kf["fixed"]:
    out.append("* " + (f if isinstance(f, str) else json.dumps(f)))
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out) + "\n")
