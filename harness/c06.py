"""C06: Editing never leaves a dangling reference."""
import copy

from harness import doc as D
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor

ASSUMPTIONS = [
    "the input document's own references all resolve; weighted vertices refer to bones "
    "by index and bones are never removed",
]


def dangling(doc):
    """Every reference of the document that does not resolve"""
    bad = []
    bones = [b["name"] for b in doc.get("bones", [])]
    slots = W.slot_names(doc)
    skins = {s["name"]: s.get("attachments", {}) for s in doc.get("skins", [])}
    events = doc.get("events", {})
    constraints = {k: [c["name"] for c in doc.get(k, [])] for k in ("ik", "transform", "path")}

    def somewhere(slot, name):
        return any(name in atts.get(slot, {}) for atts in skins.values())

    for b in doc.get("bones", []):
        if b.get("parent") is not None and b["parent"] not in bones:
            bad.append("parent bone of " + b["name"])
    for s in doc.get("slots", []):
        if s["bone"] not in bones:
            bad.append("bone of slot " + s["name"])
        a = s.get("attachment")
        if a is not None and not somewhere(s["name"], a):
            bad.append("set-up attachment %s of slot %s" % (a, s["name"]))
    for name, atts in skins.items():
        for slot, entries in atts.items():
            if slot not in slots and entries:
                bad.append("slot %s in skin %s" % (slot, name))
            for key, a in entries.items():
                if a.get("type") == "linkedmesh":
                    parent = skins.get(a.get("skin") or "default", {}).get(slot, {}).get(
                        a.get("parent"))
                    if parent is None or parent.get("type") not in ("mesh", "linkedmesh"):
                        bad.append("parent mesh of %s/%s" % (slot, key))
                if a.get("type") == "clipping" and a.get("end") not in slots:
                    bad.append("end slot of clipping %s/%s" % (slot, key))
    for kind, pool in (("ik", bones), ("transform", bones), ("path", slots)):
        for c in doc.get(kind, []):
            for b in c.get("bones", []):
                if b not in bones:
                    bad.append("bone %s of %s %s" % (b, kind, c["name"]))
            if c.get("target") not in pool:
                bad.append("target of %s %s" % (kind, c["name"]))
    for an, anim in doc.get("animations", {}).items():
        for b in anim.get("bones", {}):
            if b not in bones:
                bad.append("bone timeline %s in %s" % (b, an))
        for s, tl in anim.get("slots", {}).items():
            if s not in slots:
                bad.append("slot timeline %s in %s" % (s, an))
            for k in tl.get("attachment", []):
                if k.get("name") is not None and not somewhere(s, k["name"]):
                    bad.append("keyed attachment %s of slot %s in %s" % (k["name"], s, an))
        for kind in constraints:
            for c in anim.get(kind, {}):
                if c not in constraints[kind]:
                    bad.append("%s timeline %s in %s" % (kind, c, an))
        for skin, by_slot in anim.get("deform", {}).items():
            for slot, by_att in by_slot.items():
                for key in by_att:
                    if key not in skins.get(skin, {}).get(slot, {}):
                        bad.append("deform %s/%s/%s in %s" % (skin, slot, key, an))
        for e in anim.get("events", []):
            if e.get("name") not in events:
                bad.append("event %s in %s" % (e.get("name"), an))
        for k in anim.get("drawOrder", []):
            for o in k.get("offsets", []):
                if o.get("slot") not in slots:
                    bad.append("draw order entry for %s in %s" % (o.get("slot"), an))
    return bad


def finish(sx, d, ops, names=W.NAMED):
    sx.assume(not dangling(d))
    n = len(d["slots"])
    editor = SpineAnimationEditor(copy.deepcopy(d))
    op = sx.choice("op", ops)
    for o in op.split(","):
        W.operate(sx, editor, o, names)
        out = editor.to_json_data()
        bad = dangling(out)
        sx.observe("slots", W.slot_names(out))
        sx.check(not bad, "dangling: " + ", ".join(bad))
    if len(out["slots"] if "slots" in out else []) < n:
        sx.reach("slot removed")


def visibility(sx, ops, **params):
    finish(sx, W.one_slot(sx, **params), ops)


def shared(sx, ops, **params):
    finish(sx, W.two_slots(sx, **params), ops)


def wide(sx, ops):
    finish(sx, W.wide(sx), ops)


def links(sx, ops, full):
    """Slots t (under control) and v (shown), everything that can refer to them"""
    d = {
        "skeleton": D.skeleton(),
        "bones": [{"name": "root"}, {"name": "b", "parent": "root"}],
        "slots": [{"name": "t", "bone": "b"}, {"name": "s", "bone": "b"},
                  {"name": "v", "bone": "b", "attachment": "x"}],
        "skins": [
            {"name": "default", "attachments": {
                "t": {"m": W.mesh(), "r": W.region()},
                "v": {"x": W.region()}}},
            {"name": "gone", "attachments": {"t": {"m": W.mesh(hull=4), "g": W.mesh()}}},
            {"name": "other", "attachments": {}},
        ],
        "events": {"e": {}},
        "animations": {"anim0": {"events": [{"name": "e"}]}, "gone": {}},
    }
    t = d["slots"][0]
    default, gone, other = [s["attachments"] for s in d["skins"]]
    # set-up state of t
    names = ["m", "r"]
    a = sx.choice("t.attachment", [None] + names + ["g"] * full)
    if a:
        t["attachment"] = a
    if sx.flag("t.hidden"):
        t["color"] = "ffffff00"
    key = sx.choice("t.key", ["no"] + [None] + names + ["g"])
    if key != "no":
        d["animations"]["anim0"]["slots"] = {
            "t": {"attachment": [{"time": sx.float("t.time", 0, 9), "name": key}]}}
    # references to t and its attachments
    kinds = ["none", "linked", "clip", "path", "deform", "draworder"]
    what = sx.choice("reference", kinds)
    if what == "linked":
        skin = sx.choice("linked skin", [None, "default", "gone"])
        a = W.linked("m")
        if skin:
            a["skin"] = skin
        where = sx.choice("linked in", ["other", "default"])
        (other if where == "other" else default).setdefault("t", {})["l"] = a
        use = sx.choice("linked used", ["no", "setup", "keyed"])
        if use == "setup":
            t["attachment"] = "l"
        elif use == "keyed":
            d["animations"]["anim0"].setdefault("slots", {})["t"] = {
                "attachment": [{"time": sx.float("l.time", 0, 9), "name": "l"}]}
    elif what == "clip":
        default["s"] = {"k": {"type": "clipping", "end": "t", "vertexCount": 3,
                              "vertices": [1, 2, 3, 4, 5, 6]}}
        if sx.flag("clip used"):
            d["slots"][1]["attachment"] = "k"
    elif what == "path":
        default["t"]["pa"] = {"type": "path", "lengths": [1], "vertexCount": 6,
                              "vertices": [1, 2, 3, 4]}
        if sx.flag("path used"):
            t["attachment"] = "pa"
        d["path"] = [{"name": "p", "bones": ["b"], "target": "t"}]
        d["animations"]["anim0"]["path"] = {"p": {"position": [{"position": 1}]}}
    elif what == "deform":
        skin = sx.choice("deform skin", ["default", "gone"])
        d["animations"]["anim0"]["deform"] = {
            skin: {"t": {"m": [{"time": sx.float("d.time", 0, 9), "vertices": [1.5]}]}}}
        if skin == "gone":
            d["animations"]["anim0"]["deform"]["default"] = {
                "t": {"m": [{"time": 1, "vertices": [2.5]}]}}
    elif what == "draworder":
        d["animations"]["anim0"]["drawOrder"] = [
            {"time": 1, "offsets": [{"slot": "t", "offset": sx.int("o", 1, 2)}]}]
    sx.reach(what)
    finish(sx, d, ops)


def names(sx, kind, ops, lengths):
    """Any names in one section"""
    n = W.symbolic_names(sx, kind, lengths)
    finish(sx, W.named(sx, n, links=True), ops, n)


def cases(tier):
    deep = tier == "thorough"
    ops = ["clean", "erase animation", "erase skin"]
    return [
        Case("links", links, "every kind of reference to a slot and its attachments in "
             "three skins, each operation", must_reach=["linked", "clip", "path", "deform",
                                                        "draworder", "slot removed"],
             ops=ops + (["erase skin,erase animation", "erase animation,erase skin"]
                        if deep else []), full=deep),
        Case("setup", visibility, "a slot with any set-up state, two animations with up to "
             "one attachment and colour key each", must_reach=["slot removed"],
             ops=["clean"], keys=1, colors=1, animations=2, gone=False,
             kinds=("color", "twoColor") if deep else ("color",), looks=deep),
        Case("operations", visibility, "one animation, 2 attachment keys, every operation",
             must_reach=["slot removed"], ops=ops, keys=2, colors=1, animations=1,
             kinds=("color", "twoColor") if deep else ("color",), looks=deep),
        Case("shared names", shared, "two slots sharing attachment names",
             must_reach=["slot removed"], ops=["clean"], full=deep, ref=deep),
        Case("wide", wide, "many slots, animations, keyframes and skins; what the slot at any position "
             "shows depends on one key at any position of any animation",
             must_reach=["slot removed"], ops=ops if deep else ["erase skin"]),
    ] + [
        Case("names of " + k, names, "a document with every kind of reference, the names of "
             "its %s any distinct texts of up to 2 (3) characters out of 6" % k,
             must_reach=["slot removed"], kind=k,
             ops=["clean", "erase skin"] if k == "attachments" and not deep else ops,
             lengths=[1, 2, 3] if deep else [1, 2])
        for k in sorted(W.NAMES)
    ]
