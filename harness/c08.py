"""C08: Cleaning removes what can never be seen."""
import copy

from harness import doc as D
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor

ASSUMPTIONS = [
    "documents with at least one remaining animation",
    "an attachment named 'None' counts as no attachment (the library's convention)",
]


def invisible(sx, slot, anim):
    tl = anim.get("slots", {}).get(slot["name"], {})
    keys = tl.get("attachment", [])
    colored = tl.get("color") or tl.get("twoColor")
    used = [k for k in keys if k.get("name") is not None]
    parts = []
    if not used and not any(k in slot for k in ("attachment", "color", "dark", "blend")):
        parts.append(True)
    if not colored and "color" in slot:
        parts.append(sx.no(W.positive(sx, slot["color"])))
    if not colored and len(keys) == 1 and not used:
        parts.append(sx.same(keys[0].get("time", 0), 0))
    return sx.any(parts)


def check_clean(sx, base, out):
    left = W.slot_names(out)
    keep = W.referenced(base)
    anims = list(base["animations"].values())
    hidden = {
        (s["name"], i): invisible(sx, s, anim)
        for s in base["slots"] for i, anim in enumerate(anims)
    }
    some = False
    for n in left:
        if n in keep:
            sx.reach("referenced")
            continue
        some = True
        sx.check(sx.any([sx.no(hidden[n, i]) for i in range(len(anims))]),
                 "slot %s can never be seen" % n)
        have = any(s.get("attachments", {}).get(n) for s in out["skins"])
        sx.check(have, "slot %s is left without attachments" % n)
    if some:
        sx.reach("slot left")
    names = sorted(W.attachment_names(out))
    for name in names:
        reasons = []
        for s in base["slots"]:
            n = s["name"]
            for i, anim in enumerate(anims):
                keys = anim.get("slots", {}).get(n, {}).get("attachment", [])
                if s.get("attachment") == name or any(k.get("name") == name for k in keys):
                    reasons.append(sx.no(hidden[n, i]))
            if n in left:
                for skin in base["skins"]:
                    a = skin.get("attachments", {}).get(n, {}).get(name)
                    if a is not None and a.get("type") == "mesh":
                        reasons.append(True)
        sx.check(sx.any(reasons), "attachment %s can never be seen" % name)
    if len(names) < len(W.attachment_names(base)):
        sx.reach("attachment removed")


def run(sx, build, ops, **params):
    d = build(sx, **params)
    op = sx.choice("op", ops)
    base = W.expected_base(d, op)
    editor = SpineAnimationEditor(copy.deepcopy(d))
    W.operate(sx, editor, op)
    out = editor.to_json_data()
    sx.observe("slots", W.slot_names(out))
    sx.observe("attachments", sorted(W.attachment_names(out)))
    check_clean(sx, base, out)


def names(sx):
    """Names in other sections that look like a slot's"""
    d = D.base()
    n = sx.str("name", 2, "s12e")
    for s in d["slots"]:
        sx.assume(n != s["name"])
    d["slots"].append({"name": n, "bone": "root"})
    d["skins"][0]["attachments"][n] = {n: W.region()}
    d["animations"] = {"anim": {}}
    d["bones"].append({"name": "e1", "parent": "b1"})
    where = sx.choice("reference", ["none", "path", "clip", "ik"])
    target = sx.str("target", 2, "s12e")
    if where == "path":
        sx.assume(sx.any([target == s["name"] for s in d["slots"]]))
        d["path"] = [{"name": "p", "bones": ["b1"], "target": target}]
    elif where == "clip":
        sx.assume(sx.any([target == s["name"] for s in d["slots"]]))
        d["skins"][0]["attachments"]["s1"]["c"] = {"type": "clipping", "end": target}
        d["slots"][0]["attachment"] = "c"
    elif where == "ik":
        d["ik"] = [{"name": n, "bones": ["b1"], "target": "root"}]
    return d


def section(sx, kind, ops, lengths):
    """Any names in one section"""
    n = W.symbolic_names(sx, kind, lengths)
    d = W.named(sx, n)
    op = sx.choice("op", ops)
    base = W.expected_base(d, op, n)
    editor = SpineAnimationEditor(copy.deepcopy(d))
    W.operate(sx, editor, op, n)
    out = editor.to_json_data()
    sx.observe("slots", W.slot_names(out))
    check_clean(sx, base, out)


def cases(tier):
    deep = tier == "thorough"
    ops = ["clean", "erase animation", "erase skin"]
    kinds = ("color", "twoColor") if deep else ("color",)
    return [
        Case("setup", run, "a slot with any set-up state, two animations with up to one "
             "attachment and colour key each", must_reach=["slot left", "attachment removed"],
             build=W.one_slot, ops=["clean"], keys=1, colors=1, animations=2, gone=False,
             kinds=kinds, looks=True if deep else False),
        Case("keys", run, "one animation with up to 2 (3) attachment keys and a colour key",
             must_reach=["slot left", "attachment removed"], build=W.one_slot,
             ops=["clean"], keys=3 if deep else 2, colors=2 if deep else 1, animations=1,
             gone=False),
        Case("operations", run, "one key each, by every operation",
             must_reach=["slot left", "attachment removed"], build=W.one_slot,
             ops=ops, keys=1, colors=1, animations=1, kinds=kinds),
        Case("shared names", run, "two slots sharing attachment names of any kind",
             must_reach=["slot left", "attachment removed"] + ["referenced"] * deep,
             build=W.two_slots, ops=["clean"], full=deep, ref=deep),
        Case("names", run, "a removable slot of any name, references to any slot",
             must_reach=["slot left", "attachment removed", "referenced"], build=names,
             ops=["clean"]),
        Case("wide", run, "many slots, animations, keyframes and skins; what the slot at any position "
             "shows depends on one key at any position of any animation",
             must_reach=["slot left", "attachment removed", "referenced"], build=W.wide,
             ops=ops if deep else ["clean"]),
    ] + [
        Case("names of " + k, section, "a document with every kind of reference, the names "
             "of its %s any distinct texts of up to 2 (3) characters out of 6" % k,
             must_reach=["slot left", "attachment removed"], kind=k,
             ops=ops if deep or k in ("skins", "animations") else ["clean"],
             lengths=[1, 2, 3] if deep else [1, 2])
        for k in ("slots", "attachments", "skins", "animations")
    ]
