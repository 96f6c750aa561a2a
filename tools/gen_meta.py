#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ED = "spine_json_lib/spine_animation_editor.py"
DATA = "spine_json_lib/data/spine_anim_data.py"
BASE = "spine_json_lib/data/data_types/base_type.py"
TYPES = ["spine_json_lib/data/data_types/%s.py" % n for n in (
    "bone", "slot", "skin", "ik", "transform", "path", "events", "animation", "deform",
    "draworder")]
GRAPH = "spine_json_lib/graph/dagraph.py"
NODE = "spine_json_lib/graph/spamnode.py"
VALID = "spine_json_lib/graph/graph_validator.py"
PARSER = "spine_json_lib/deserializer/spine_nodes.py"
CONT = "spine_json_lib/spine_graph_container.py"
VER = "spine_json_lib/data/spine_version_type.py"
UTILS = "spine_json_lib/utils.py"

P = []


def prop(id, title, statement, over, quant, tests, files, mech, state=(), observe=(),
         note="", built=True, why=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant,
                  tests=tests, files=files, mech=mech, state=state, observe=observe,
                  note=note, built=built, why=why))


exec(open(os.path.join(V, "tools", "properties_table.py")).read())

TECH = ("path-wise symbolic execution of the real Python code, every decision and "
        "assertion decided by z3 (SMT)")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["tests"],
            "anchors": {
                "files": p["files"],
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                "observe_at": list(p["observe"]),
                "hook_needed": None,
            },
        }) + "\n")

man = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "VERIF_TIER=quick python3-vt run_check.py %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3-vt run_check.py %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": TECH,
            "level": "model_checking",
            "level_note": p["note"] or "Holds for every value within the bounds the evidence file lists per case; outside them nothing is claimed. Trusted: z3, the symbolic values in symx (cross-checked against the real code on sampled paths each run), the oracle in harness/%s.py." % p["id"].lower(),
        }
        for p in P if p["built"]
    ],
    "not_applicable": [
        {"property": p["id"], "reason": p["why"] or "check not built yet"}
        for p in P if not p["built"]
    ],
    "notes": "No hooks in /repo: the code is executed as it is, instrumented on import. "
             "Design, bounds and limits: DESIGN.md. Findings: known_findings.txt.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
