"""regenerates MANIFEST.json from levels.json (property -> level, technique, note)"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
lv = json.load(open(os.path.join(H, "levels.json")))
checks, na = [], []
for p in props:
    e = lv.get(p["id"], lv["default"])
    if e.get("not_applicable"):
        na.append(dict(property=p["id"], reason=e["not_applicable"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3-vt check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3-vt check.py {p['id']}",
                       technique=e["technique"], level=e["level"], level_note=e["note"]))
json.dump(dict(version=1, setup_cmd="python3-vt setup.py", checks=checks, not_applicable=na, notes=lv.get("notes", "")), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
