import json, os
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
info = json.load(open("tools/levels.json")) if os.path.exists("tools/levels.json") else {}
checks = []
for i in ids:
    d = info.get(i, {})
    checks.append({"property": i, "quick_cmd": "python3 run_check.py %s quick" % i, "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py %s thorough" % i,
                   "technique": d.get("technique", "contracts on the real code; bounded stand-in"), "level": d.get("level", "exploration"), "level_note": d.get("note", "bounded stand-in: the real code on generated inputs against independent oracles")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [], "notes": "see DESIGN.md"}, open("MANIFEST.json", "w"), indent=1)
