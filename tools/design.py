#!/usr/bin/env python3
"""Writes DESIGN.md from design_text.py, properties.jsonl, known_findings.txt, seeded/ and tools/caught.json."""
import collections, json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
import design_text as d
props = [json.loads(l) for l in open(R + "/properties.jsonl", encoding="utf-8")]
fixed = collections.Counter(re.findall(r"^fixed: property=(\S+)", open(R + "/known_findings.txt").read(), re.M))
caught = json.load(open(R + "/tools/caught.json")) if os.path.exists(R + "/tools/caught.json") else {}
o = [d.HEAD, "## Properties\n"]
for p in props:
    t = open("%s/checks/%s.py" % (R, p["id"].lower()), encoding="utf-8").read()
    c = re.search(r"^CASES = \{'quick': ([^,]+), 'thorough': ([^}]+)\}", t, re.M)
    x = d.D[p["id"]]
    o.append("### %s %s\n\n* **Decided by**: %s\n* **Cases**: quick %s, thorough %s.\n* **Beyond the tests**: %s.\n* **Not judged**: %s.\n* **Defects found and repaired**: %d.\n"
             % (p["id"], p["title"], x["how"], c.group(1), c.group(2), x["why"], x["out"], fixed[p["id"]]))
o.append(d.TAIL)
o.append("## Planted bugs\n\nWritten from the properties and the code; each verified (builds, passes the stable tests, demo passes without and fails with it).\n")
o.append("| bug | property | breaks | caught by |\n|---|---|---|---|")
for n in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, n)))
    o.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/"), caught.get(n, "?")))
open(R + "/DESIGN.md", "w", encoding="utf-8").write("\n".join(o) + "\n" + getattr(d, "AFTER", ""))
