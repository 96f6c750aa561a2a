#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, a section per property, the planted bugs, design_tail.md"""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path[:0] = [VERIF, os.environ.get("VERIF_REPO", "/repo"), HERE]
from design_notes import NOTES  # noqa: E402

out = [open(os.path.join(HERE, "design_head.md")).read()]
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("harness." + p["id"].lower())
    note = NOTES[p["id"]]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("*Decided by* " + note["how"] + "\n")
    out.append("*Oracle:* " + note["oracle"] + "\n")
    groups = {}
    for c in m.cases("quick"):
        stem = re.split(r":| of | \d|\d", c.name)[0].strip()
        part = c.name[len(stem):].strip(" :").replace("of ", "")
        b = c.bounds
        if part:
            b = re.sub(r"(?<!\w)%s(?!\w)" % re.escape(part), "..", b)
        groups.setdefault((stem, b), []).append(c.name)
    text = ["**%s**%s: %s" % (k[0] if len(v) > 1 else v[0],
                              " (%d cases)" % len(v) if len(v) > 1 else "", k[1])
            for k, v in groups.items()]
    out.append("*Bounds:* " + "; ".join(text) + ".\n")
    outside = list(m.ASSUMPTIONS) + note.get("outside", [])
    if outside:
        out.append("*Assumed or outside:* " + "; ".join(outside) + ".\n")
    out.append("*Why tests cannot settle it:* " + note["why"] + "\n")
out.append("## 4. Planted bugs and the checks that catch them\n")
out.append("`seeded/` holds them; `tools/run_seeds.sh` runs each one's own check on a patched "
           "copy of /repo.  All are caught by the quick tier of the named check.\n")
out.append("| bug | breaks | needs | caught by |\n|---|---|---|---|")
base = os.path.join(VERIF, "seeded")
for s in sorted(os.listdir(base)):
    j = json.load(open(os.path.join(base, s, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (s, j["what_it_breaks"], j["needs"], j["property"]))
out.append("")
out.append(open(os.path.join(HERE, "design_tail.md")).read())
open(os.path.join(VERIF, "DESIGN.md"), "w").write("\n".join(out))
