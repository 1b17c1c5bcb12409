import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in props.P]
assert len(ids) == len(set(ids))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(props.P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = []
for p in sorted(props.P, key=lambda p: p["id"]):
    assert os.path.exists(os.path.join(V, "checks", p["id"] + ".py")), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py " + p["id"] + " thorough",
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": getattr(props, "NA", [])},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), S)
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid,", len(checks), "checks")
except ImportError:
    print("no jsonschema (use python3-vt)")
