"""Writes DESIGN.md from meta/design_head.md, the property list, the scenarios' own comments, the planted bugs and meta/design_tail.md."""
import json, os, re
from importlib.machinery import SourceFileLoader
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
chk = SourceFileLoader("chk", os.path.join(V, "bin", "check")).load_module()
sc = chk.load_scenarios()
for s in sc.values():
    t = open(s["file"]).read()
    i = t.index("void %s(void)" % s["name"])
    pre = t[:i].rstrip().rsplit("// VFSC", 1)[0].rstrip()
    m = re.search(r"/\*((?:(?!\*/).)*)\*/$", pre, re.S)
    s["what"] = re.sub(r"\s*\n\s*\*?\s*", " ", m.group(1)).strip(" -") if m else ""
bugs = []
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    bugs.append((b, json.load(open(os.path.join(V, "seeded", b, "meta.json")))))
man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
out = [open(os.path.join(V, "meta", "design_head.md")).read()]
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(man[p["id"]]["level_note"][0].upper() + man[p["id"]]["level_note"][1:] + ".\n")
    out.append("Anchors: " + "; ".join("%s (%s)" % (m["name"], m["where"]) for m in p["anchors"]["mechanism"]) + ". Tests cannot settle it: " + p["why_tests_cant"] + ".\n")
    for s in sc.values():
        if p["id"] in s["props"]:
            out.append("* `%s%s` (%s)%s" % (s["name"], "*" if s["tier"] != "quick" else "", os.path.basename(s["file"]), ": " + s["what"] if s["what"] else ""))
    mine = [b for b, m in bugs if m["property"] == p["id"]]
    if mine:
        out.append("\nPlanted bugs: " + ", ".join(mine) + ".")
    out.append("")
out.append(open(os.path.join(V, "meta", "design_tail.md")).read())
out.append("## 6. Planted bugs\n\nEach was confirmed to build, to pass the 673 stable tests and to flip its demonstration; \"caught\" is by the check of its own property (meta/caught.json, last run of all).\n\n| bug | property | needs | caught |\n|---|---|---|---|")
try:
    caught = json.load(open(os.path.join(V, "meta", "caught.json")))
except OSError:
    caught = {}
for b, m in bugs:
    out.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"), caught.get(b, "?")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
