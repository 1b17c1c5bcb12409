"""Writes DESIGN.md from meta/design_head.md, meta/props.py, the checks, known_findings.json and
seeded/ (python3 meta/design.py)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "meta"))
import props, notes
from vlib import core

out = [open(os.path.join(V, "meta", "design_head.md")).read()]
kf = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
for p in props.P:
    m = importlib.import_module("checks." + p["id"])
    c = [x for x in vars(m).values() if isinstance(x, type) and getattr(x, "id", None) == p["id"]][0]
    n = notes.N.get(p["id"], {})
    out.append("### %s  %s\n" % (p["id"], p["title"]))
    out.append("%s\n" % p["statement"])
    out.append("* **Monitor and deciding step**: %s" % (n.get("how") or p["technique"]))
    out.append("* **Oracle**: %s" % n.get("oracle", "the reference model described under the workload"))
    out.append("* **Workload and counting**: %s." % c.rule)
    out.append("* **Bounds**: quick %s; thorough %s. Preconditions: %s." % (n.get("quick", "plan %s (processes, cases)" % (c.plan["quick"],) if hasattr(c, "plan") else "see the check"),
               n.get("thorough", "plan %s" % (c.plan["thorough"],) if hasattr(c, "plan") else "see the check"), "; ".join(c.assumptions) or "none"))
    out.append("* **Why tests cannot settle it**: %s." % p["why"])
    if n.get("alarms"):
        out.append("* **False alarms met and corrected**: %s" % n["alarms"])
    f = [x for x in kf if x["property"] == p["id"]]
    if f:
        out.append("* **Defects found**:")
        for x in f:
            out.append("  * %s%s" % ("" if x["status"] == "fixed" else "KNOWN (key `%s`): " % x["key"], x["what"].replace("fixed: property=%s " % p["id"], "repaired by ")))
    out.append("")
out.append("## Planted bugs (seeded/)\n\n| id | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    mt = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (d, mt["property"], mt["needs"].replace("|", "/").replace("\n", " "), notes.CAUGHT.get(d, mt["property"])))
out.append("\n" + notes.TAIL)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n")
print("DESIGN.md:", sum(len(x) for x in out), "characters")
