#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
HOOK = "0648cad"
hook = subprocess.run(["git", "-C", "/repo", "rev-parse", HOOK], capture_output=True, text=True).stdout.strip() or HOOK
ORACLE = {
 "P01": "exact dyadic determinant", "P02": "exact even-odd rule on rationals", "P03": "exact rational segment intersection",
 "P04": "exact rational line intersection", "P05": "exact rational squared distances", "P06": "exact rational projections",
 "P07": "exact shoelace and ring simplicity", "P08": "exact rational centres of mass", "P09": "interval model",
 "P10": "eight running bounds", "P11": "published DE-9IM patterns", "P12": "plain lists of ordinates",
 "P13": "plain lists of coordinates", "P14": "exact dyadic and rational arithmetic", "P15": "exact dyadic rounding",
 "P16": "plain lists of coordinates and canonical forms", "P17": "plain lists of coordinates", "P18": "documented sort keys",
 "P19": "exact dot and cross products", "P20": "exact integer vectors", "P21": "exact rational triangle centres",
 "P22": "exact rational distances in space", "P23": "Cramer's rule on integers", "P24": "defining equations; every outcome of the random choices",
 "P25": "parsing the text back", "P26": "four independent fields", "P27": "the answer of the same call made alone",
}
HIST = {"P03", "P06", "P09", "P10", "P11", "P12", "P13", "P16", "P26", "P27"}
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json",
        technique="bounded exhaustive model checking of the real code: every input%s within bounds, compared with a reference model (%s)" % (" and operation history" if i in HIST else (" and random choice" if i == "P24" else ""), ORACLE[i]),
        level="model_checking",
        level_note="Holds for every member of the enumerated families listed in the evidence file (exhaustive within those bounds, no sampling); nothing is claimed beyond them. Trusts the reference model (%s), rustc and the platform's libm; results that round are judged within a stated tolerance." % ORACLE[i]))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="geos_verif", enable='RUSTFLAGS="--cfg geos_verif"', source_commits=[hook]),
    checks=checks, not_applicable=[],
    notes="geos-rs is a sequential library without threads, I/O or persistence: the spaces enumerated are inputs, configurations and operation histories. See DESIGN.md.")
open(os.path.join(here, "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
