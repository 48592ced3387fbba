"""writes properties.jsonl and MANIFEST.json from props/*.py (each defines PROPS: list of dicts)"""
import glob, importlib.util, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
for f in sorted(glob.glob(os.path.join(V, "props", "*.py"))):
    sp = importlib.util.spec_from_file_location("p", f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    P += m.PROPS
P.sort(key=lambda p: p["id"])
assert len({p["id"] for p in P}) == len(P)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
M = {"version": 1, "setup_cmd": "bash lib/setup.sh",
     "checks": [], "not_applicable": []}
for p in P:
    if p.get("na"):
        M["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        M["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                            "thorough_cmd": "./check.sh %s thorough" % p["id"],
                            "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
