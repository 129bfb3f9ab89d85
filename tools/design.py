#!/usr/bin/env python3
"""Fills tools/DESIGN.in.md into DESIGN.md: defects from known_findings.txt, planted bugs from
seeded/*/meta.json, costs from tools/costs.json (updated from evidence files named on the command line)."""
import json, os, re, sys, glob
here = os.path.dirname(os.path.abspath(__file__)); top = os.path.join(here, "..")
cf = os.path.join(here, "costs.json")
costs = json.load(open(cf)) if os.path.exists(cf) else {}
for f in sys.argv[1:]:
    e = json.load(open(f)); fam = e["coverage"]["families"] if "families" in e["coverage"] else []
    c = e["coverage"]
    costs.setdefault(e["property"], {})[e["tier"]] = dict(states=c.get("states"), transitions=c.get("transitions"), traces=c.get("traces_validated_against_impl"), wall=round(e["wall_s"]))
json.dump(costs, open(cf, "w"), indent=1, sort_keys=True)
d = []
for l in open(os.path.join(top, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: d.append("| %s | %s | %s |" % m.groups())
defects = "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(d)
s = []
n = 0
for f in sorted(glob.glob(os.path.join(top, "seeded", "*", "meta.json")), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f)); n += 1
    s.append("| %s | %s | %s | %s |" % (m["property"], os.path.basename(os.path.dirname(f)), m["what_it_breaks"].strip().replace("|", "/"), m["needs"].strip().replace("|", "/")))
seeded = "%d bugs are kept under `seeded/`. Each compiles, passes all 159 tests and has a demonstration. The quick check of the property named catches every one (applied to `/repo`, checked, undone).\n\n| caught by | bug | breaks | needs |\n|---|---|---|---|\n" % n + "\n".join(s)
rows = []
for p in sorted(costs):
    r = [p]
    for t in ("quick", "thorough"):
        c = costs[p].get(t)
        r += ["%s" % "{:,}".format(c["states"]), "{:,}".format(c["transitions"]), "%d s" % c["wall"]] if c else ["", "", ""]
    rows.append("| " + " | ".join(r) + " |")
ct = "| property | quick: states | compared calls | wall | thorough: states | compared calls | wall |\n|---|---:|---:|---:|---:|---:|---:|\n" + "\n".join(rows)
t = open(os.path.join(here, "DESIGN.in.md")).read()
t = t.replace("\nDEFECTS\n", "\n" + defects + "\n").replace("\nSEEDED\n", "\n" + seeded + "\n").replace("\nCOSTS\n", "\n" + ct + "\n")
open(os.path.join(top, "DESIGN.md"), "w").write(t)
