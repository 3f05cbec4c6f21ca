#!/usr/bin/env python3
"""Writes known-findings.json: nothing is left unrepaired; the repaired defects are listed for reference."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {"38e6a29": "P01", "da355b8": "P01", "c140164": "P04", "7316a8e": "P01 P04", "147ef60": "P01 P02", "07e63bc": "P04",
 "daa1ae7": "P18", "5b14e58": "P04", "66a73b0": "P03 P06", "152ceae": "P05", "cda04db": "P06 P05", "d3583ec": "P06",
 "ac8803e": "P06", "272abf6": "P16", "4bbe7fa": "P15", "783317d": "P09", "9c93e40": "P11 P12 P09", "7abf4b9": "P04 P12",
 "4bf17f7": "P12", "e6842fd": "P11", "6da6274": "P10"}
fixed = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %H %s", "--grep=^fix:"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    h, full, s = l.split(" ", 2)
    ps = [v for k, v in PROPS.items() if full.startswith(k)]
    for p in (ps[0] if ps else "P??").split():
        fixed.append(f"fixed: property={p} {full} {s[5:]}")
old = json.load(open(os.path.join(ROOT, "known-findings.json"))) if os.path.exists(os.path.join(ROOT, "known-findings.json")) else {}
json.dump({"findings": old.get("findings", []), "fixed": fixed}, open(os.path.join(ROOT, "known-findings.json"), "w"), indent=1)
