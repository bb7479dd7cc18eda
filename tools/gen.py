import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mech"]))
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
checks = [p for p in props.P if p["level"]]
na = [dict(property=p["id"], reason=p["note"]) for p in props.P if not p["level"]]
m = dict(version=1, setup_cmd="/verif/setup.sh",
         checks=[dict(property=p["id"], quick_cmd="/verif/run.sh %s quick" % p["id"], thorough_cmd="/verif/run.sh %s thorough" % p["id"],
                      evidence_file="/verif/evidence/%s.json" % p["id"], technique=props.TECH, level=p["level"], level_note=p["note"])
                 for p in checks],
         not_applicable=na,
         notes="run.sh executes symx (in /verif/symx): the package sources are re-read from /repo on every run and executed "
               "symbolically; no hooks in /repo. Known findings: /verif/known_findings.json.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
d = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
rows = ["### %s %s\n\n%s\n\n*Bounds:* %s\n" % (p["id"], p["title"], p.get("how") or "", p["note"]) for p in checks]
rows += ["### %s %s (not applicable)\n\n%s\n" % (p["id"], p["title"], p["note"]) for p in props.P if not p["level"]]
seeds = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
S = os.path.join(V, "seeded")
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
for s in sorted(os.listdir(S)):
    q = json.load(open(os.path.join(S, s, "meta.json")))
    seeds.append("| %s | %s | %s | %s | %s |" % (s, q["property"], q["what_it_breaks"], q["needs"], caught.get(s, "?")))
kf = json.load(open(os.path.join(V, "known_findings.json")))
fl = ["* " + x for x in kf["fixed"]] + ["* open: property=%s %s" % (x["property"], x["what"]) for x in kf["open"]]
d = d.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(seeds)).replace("@@FINDINGS@@", "\n".join(fl))
open(os.path.join(V, "DESIGN.md"), "w").write(d)
try:
    import jsonschema

    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(line), S)
    print("valid", len(checks), len(na))
except ImportError:
    print("not validated")
