"""C05: Cleaning never removes anything a remaining animation can show."""
import copy

from harness import doc as D
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor

ASSUMPTIONS = [
    "visibility as the Spine runtime defines it: attachment keys apply from their time "
    "on, colours are interpolated linearly, set-up values hold before the first key",
    "an attachment named 'None' counts as no attachment (the library's convention)",
    "a slot timeline has colour or two-colour keys, not both; times ascend from 0",
]


def entries(doc, slot, name):
    return {
        skin["name"]: D.fill(D.ATTACHMENT_KIND[a.get("type")], a)
        for skin in doc["skins"]
        for a in [skin.get("attachments", {}).get(slot, {}).get(name)]
        if a is not None
    }


def check_shown(sx, base, out):
    """Everything base can show is in out, unchanged"""
    for slot in base["slots"]:
        n = slot["name"]
        reasons = []
        after = W.slot_named(out, n)
        for a, anim in base["animations"].items():
            for name, cond in W.shown(sx, slot, anim):
                have = entries(base, n, name)
                if not have:
                    continue
                reasons.append(cond)
                same = sx.same(entries(out, n, name), have)
                sx.check(sx.any([sx.no(cond), same]),
                         "shown attachment %s of slot %s is gone or changed" % (name, n))
                if after is not None and slot.get("attachment") == name:
                    # (the set-up attachment is what it shows somewhere)
                    sx.check(sx.any([sx.no(cond), sx.same(after.get("attachment"), name)]),
                             "set-up attachment of slot %s is gone" % n)
        if n in W.referenced(base):
            reasons.append(True)
            sx.reach("referenced")
        if not reasons:
            continue
        needed = sx.any(reasons)
        sx.check(sx.any([sx.no(needed), after is not None]), "shown slot %s is gone" % n)
        if after is not None:
            sx.reach("kept")
            for a, anim in base["animations"].items():
                tl = {"slots": {k: v for k, v in anim.get("slots", {}).items() if k == n}}
                got = {"slots": {k: v for k, v in out["animations"][a].get("slots", {}).items()
                                 if k == n}}
                lit = sx.any([c for _, c in W.shown(sx, slot, anim)])
                sx.check(sx.any([sx.no(lit), sx.same(D.canon_animation(tl)["slots"],
                                                     D.canon_animation(got)["slots"])]),
                         "timeline of shown slot %s is changed" % n)
        else:
            sx.reach("removed")
    if len(W.slot_names(out)) < len(base["slots"]):
        sx.reach("removed")


def run(sx, build, ops, **params):
    document = build(sx, **params)
    op = sx.choice("op", ops)
    base = W.expected_base(document, op)
    editor = SpineAnimationEditor(copy.deepcopy(document))
    W.operate(sx, editor, op)
    out = editor.to_json_data()
    sx.observe("slots", W.slot_names(out))
    sx.observe("attachments", sorted(W.attachment_names(out)))
    check_shown(sx, base, out)


def special(sx, full):
    """Deforms, clippings, points and linked meshes of slots that are shown"""
    d = {
        "skeleton": D.skeleton(),
        "bones": [{"name": "root"}],
        "slots": [{"name": "s", "bone": "root"}, {"name": "t", "bone": "root"},
                  {"name": "v", "bone": "root", "attachment": "x"}],
        "skins": [
            {"name": "default", "attachments": {
                "s": {"m": W.mesh(), "l": W.linked("m")},
                "t": {"k": {"type": "clipping", "end": sx.choice("end", ["s", "t", "v"] if full else ["s", "v"]),
                            "vertexCount": 3, "vertices": [1, 2, 3, 4, 5, 6]}},
                "v": {"x": W.region()}}},
            {"name": "gone", "attachments": {
                "s": {"n": W.mesh()},
                "v": {"g": W.region()}}},
        ],
        "animations": {"anim0": {}, "gone": {}},
    }
    if sx.flag("linked to gone"):
        d["skins"][0]["attachments"]["s"]["l"].update(skin="gone", parent="n")
    names = ["m", "l"]
    s, t = d["slots"][0], d["slots"][1]
    a = sx.choice("s.attachment", [None] + names)
    if a:
        s["attachment"] = a
    if sx.flag("s.hidden"):
        s["color"] = W.alpha_color(sx, "s.alpha") if full else "ffffff00"
    if sx.flag("t.attachment"):
        t["attachment"] = "k"
    tl = W.timeline(sx, "anim0", names, 1, 1, ("color",))
    if tl is not None:
        d["animations"]["anim0"]["slots"] = {"s": tl}
    if sx.flag("deform"):
        d["animations"]["anim0"]["deform"] = {"default": {"s": {"m": [
            {"time": sx.float("deform.t", 0, 5), "vertices": [sx.float("deform.v")]}]}}}
    return d


def run_special(sx, ops, full):
    document = special(sx, full)
    op = sx.choice("op", ops)
    base = W.expected_base(document, op)
    if op == "erase skin":
        l = base["skins"][0]["attachments"]["s"]["l"]
        if l.get("skin") == "gone":
            base["skins"][0]["attachments"]["s"]["l"] = W.mesh(width=6, height=7)
    editor = SpineAnimationEditor(copy.deepcopy(document))
    W.operate(sx, editor, op)
    out = editor.to_json_data()
    sx.observe("slots", W.slot_names(out))
    check_shown(sx, base, out)
    # the deform timeline of a mesh that is shown stays
    for anim in base["animations"]:
        for name, cond in W.shown(sx, W.slot_named(base, "s"), base["animations"][anim]):
            deform = base["animations"][anim].get("deform", {}).get("default", {}).get(
                "s", {}).get(name)
            if deform is not None:
                got = out["animations"][anim].get("deform", {}).get("default", {}).get(
                    "s", {}).get(name)
                sx.reach("deform")
                ok = got is not None and sx.same(
                    D.fill_all("deform", got), D.fill_all("deform", deform))
                sx.check(sx.any([sx.no(cond), ok]), "deform of a shown mesh is gone")


def like_none(sx, letters):
    """An attachment with a name that resembles the empty ones, shown by a keyframe"""
    name = sx.str("attachment", sx.choice("length", [1, 4, 5]), letters)
    sx.assume(name != "None")
    keys = [{"time": sx.float("time", 0, 5), "name": name}]
    if sx.flag("after none"):
        keys.insert(0, {"time": 0, "name": None})
    d = {
        "skeleton": D.skeleton(),
        "bones": [{"name": "root"}],
        "slots": [{"name": "s", "bone": "root"}, {"name": "t", "bone": "root"}],
        "skins": [{"name": "default", "attachments": {
            "s": {name: W.region(), "other": W.region()}, "t": {"b": W.region()}}}],
        "animations": {"anim0": {"slots": {"s": {"attachment": keys}}}},
    }
    if sx.flag("set up"):
        d["slots"][0]["attachment"] = "other"
    return d


def names(sx, kind, ops, lengths):
    """Any names in one section"""
    n = W.symbolic_names(sx, kind, lengths)
    document = W.named(sx, n)
    op = sx.choice("op", ops)
    base = W.expected_base(document, op, n)
    editor = SpineAnimationEditor(copy.deepcopy(document))
    W.operate(sx, editor, op, n)
    out = editor.to_json_data()
    sx.observe("slots", W.slot_names(out))
    check_shown(sx, base, out)


def cases(tier):
    deep = tier == "thorough"
    ops = ["clean", "erase animation", "erase skin"]
    out = [
        Case("one slot", run, "a slot with any set-up state and two animations with up to "
             "one attachment key and one (two-)colour key each", must_reach=["kept", "removed"],
             build=W.one_slot, ops=["clean"], keys=1, colors=1, animations=2, gone=False,
             kinds=("color", "twoColor") if deep else ("color",), looks=deep),
        Case("keys", run, "one animation with up to 2 attachment keys and 2 (two-)colour "
             "keys at any ascending times", must_reach=["kept", "removed"],
             build=W.one_slot, ops=["clean"], keys=3 if deep else 2, colors=2,
             animations=1, gone=False, looks=deep,
             kinds=("color", "twoColor") if deep else ("color",)),
        Case("operations", run, "the same with one key each, by cleaning, erasing an "
             "animation or erasing a skin", must_reach=["kept", "removed"],
             build=W.one_slot, ops=ops, keys=1, colors=1, animations=1),
        Case("two slots", run, "two slots that share attachment names, of any kind in two "
             "skins, hidden or not, keyed once or not, one may be a path target",
             must_reach=["kept", "removed"] + ["referenced"] * deep, build=W.two_slots,
             ops=["clean"], full=deep, ref=deep),
        Case("special", run_special, "meshes, linked meshes, deforms and clippings",
             must_reach=["kept", "removed", "referenced", "deform"],
             ops=ops if deep else ["clean", "erase skin"], full=deep),
    ]
    out.append(Case("wide", run, "many slots, animations, keyframes and skins; what the slot at any position "
             "shows depends on one key at any position of any animation",
                    must_reach=["kept", "removed", "referenced"], build=W.wide,
                    ops=ops if deep else ["clean"]))
    out.append(Case("like none", run, "an attachment named by any text of 1, 4 or 5 characters "
                    "of N, n, o, O, e, l, u and space but 'None'", must_reach=["kept"],
                    build=like_none, ops=["clean"], letters="NnoOelu "))
    out.append(Case("many keys", run, "timelines of 9 keyframes: what a slot shows depends on one "
                    "key at any position", must_reach=["kept"], build=W.wide,
                    ops=["clean"], n=3, anims=1, keys=9, ways=["keyed", "lit"], skins=["default"]))
    for k in ("slots", "attachments", "skins", "animations"):
        out.append(Case(
            "names of " + k, names, "a document with every kind of reference, the names of "
            "its %s any distinct texts of up to 2 (3) characters out of 6" % k,
            must_reach=["kept", "removed", "referenced"], kind=k,
            ops=ops if deep or k in ("skins", "animations") else ["clean"],
            lengths=[1, 2, 3] if deep else [1, 2]))
    return out
