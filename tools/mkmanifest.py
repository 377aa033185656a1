#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property that has a TestXNN in pbt/."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
src = "".join(open(f).read() for f in glob.glob(V + "/pbt/*_test.go"))
have = set(re.findall(r"func Test([A-Z]\d\d)\(", src))
tech = json.load(open(V + "/tools/techniques.json"))
m = {"version": 1, "setup_cmd": "python3 check.py build",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API of /repo only", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        t = tech.get(i, {})
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": t.get("technique", "property-based testing (rapid) against an explicit oracle"),
            "level": "exploration",
            "level_note": t.get("note", "Seeded random search with shrinking over generated cases; shows no violation on what was explored, not absence.")})
    else:
        m["not_applicable"].append({"property": i, "reason": tech.get(i, {}).get("na", "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not claimed")
