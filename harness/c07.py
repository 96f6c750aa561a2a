"""C07: Editing changes nothing but what it removes."""
import copy

from harness import doc as D
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor

ASSUMPTIONS = [
    "draw order offsets of slots that stay are left to C04; here only keyframe times and "
    "the entries' slots are compared when slots were removed",
]


def restrict(base, slots_left, names_gone):
    """base without the removed slots and attachments and what belongs to them"""
    d = copy.deepcopy(base)
    removed = [s["name"] for s in base["slots"] if s["name"] not in slots_left]
    d["slots"] = [s for s in d["slots"] if s["name"] in slots_left]
    for s in d["slots"]:
        if s.get("attachment") in names_gone:
            del s["attachment"]
    for skin in d["skins"]:
        skin["attachments"] = {
            slot: {k: v for k, v in entries.items() if k not in names_gone}
            for slot, entries in skin.get("attachments", {}).items() if slot in slots_left
        }
    for anim in d.get("animations", {}).values():
        anim["slots"] = {k: v for k, v in anim.get("slots", {}).items() if k in slots_left}
        for tl in anim["slots"].values():
            for k in tl.get("attachment", []):
                if k.get("name") in names_gone:
                    k["name"] = None
        anim["deform"] = {
            skin: {slot: {k: v for k, v in atts.items() if k not in names_gone}
                   for slot, atts in slots.items() if slot in slots_left}
            for skin, slots in anim.get("deform", {}).items()
        }
        if removed:
            for k in anim.get("drawOrder", []):
                k["offsets"] = [{"slot": o["slot"]} for o in k.get("offsets", [])
                                if o["slot"] in slots_left]
    return d


def without_offsets(doc):
    d = copy.deepcopy(doc)
    for anim in d.get("animations", {}).values():
        for k in anim.get("drawOrder", []):
            k["offsets"] = [{"slot": o["slot"]} for o in k.get("offsets", [])]
    return d


def compare(sx, base, out, summary):
    removed_slots, removed_names = summary
    left = W.slot_names(out)
    sx.check(
        len(removed_slots) == len(base["slots"]) - len(left)
        and all(n in removed_slots for n in W.slot_names(base) if n not in left),
        "the reported slots are not the removed ones")
    remaining = W.attachment_names(out)
    for n in removed_names:
        sx.check(n not in remaining, "reported attachment %s is still there" % n)
    if removed_slots:
        sx.reach("slots removed")
    if removed_names:
        sx.reach("attachments removed")
    want = restrict(base, left, list(removed_names))
    if removed_slots:
        out = without_offsets(out)
    for section in sorted(set(D.canon(want)) | set(D.canon(out))):
        a, b = D.canon(want).get(section), D.canon(out).get(section)
        sx.check(sx.same(a, b), "%s changed" % section)


def finish(sx, d, ops, names=W.NAMED):
    op = sx.choice("op", ops)
    base = W.expected_base(d, op, names)
    editor = SpineAnimationEditor(copy.deepcopy(d))
    summary = W.operate(sx, editor, op, names)
    out = editor.to_json_data()
    sx.observe("out", D.canon(out))
    compare(sx, base, out, summary)


def visibility(sx, ops, **params):
    finish(sx, W.one_slot(sx, **params), ops)


def shared(sx, ops, **params):
    finish(sx, W.two_slots(sx, **params), ops)


def wide(sx, ops):
    finish(sx, W.wide(sx), ops)


def values(sx, ops, full):
    """Any value of every attribute of one object, in a document in which a clean-up
    removes something or nothing"""
    kind = sx.choice("kind", [k for k in D.KINDS])
    attrs = D.attributes(kind)
    attr = sx.choice("attribute", attrs)
    obj = {}
    if sx.flag("others"):
        for a in attrs:
            obj[a] = D.sample(kind, a)
    obj[attr] = D.value(sx, "value", D.KINDS[kind][attr][0])
    d = D.embed(kind, obj)
    # (an attachment under test is shown by its slot)
    for entries in d["skins"][0]["attachments"].values():
        if "x1" in entries:
            d["slots"][0]["attachment"] = "x1"
    if sx.flag("something to remove"):
        d["slots"].insert(1, {"name": "empty", "bone": "root"})
        d["skins"][0]["attachments"]["empty"] = {"old": W.region()}
    d["skins"].append({"name": "gone", "attachments": {"s1": {"a1": W.region(x=9)}}})
    d["animations"].setdefault("anim", {})
    d["animations"]["gone"] = {}
    sx.reach(kind)
    finish(sx, d, ops)


def sections(sx, ops):
    """Everything at once with several objects per section"""
    d = D.base()
    d["bones"] += [{"name": "b2", "parent": "b1", "transform": "noScale", "scaleX": 2},
                   {"name": "b3", "parent": "root", "color": "11223344"}]
    order = sx.choice("order", ["ab", "ba"])
    d["slots"] += [{"name": "e" + c, "bone": "b2"} for c in order]
    d["skins"] += [{"name": "z", "attachments": {"s1": {"a1": W.mesh()}}},
                   {"name": "gone", "attachments": {"ea": {"n": W.region()}}},
                   {"name": "b"}]
    d["ik"] = [{"name": n, "order": i, "bones": ["b1"], "target": "b2",
                "mix": sx.float("mix" + n)} for i, n in enumerate(order)]
    d["transform"] = [{"name": n, "order": i + 2, "bones": ["b1"], "target": "b2",
                       "x": 7} for i, n in enumerate(order)]
    d["events"] = {n: {"int": 3} for n in order}
    for a in order:
        d["animations"][a] = {
            "bones": {"b1": {"rotate": [{"angle": sx.float("angle" + a)}, {"time": 1}]},
                      "b3": {"translate": [{"x": 1}]}},
            "slots": {"s1": {"attachment": [{"time": 1, "name": "a1"}]}},
            "ik": {n: [{"mix": 0.25, "time": len(a + n)}] for n in order},
            "drawOrder": [{"time": sx.float("do" + a), "offsets": [{"slot": "s1", "offset": 1}]}],
            "events": [{"time": 0.5, "name": n} for n in order],
        }
    for n in ("ea", "eb"):
        if sx.flag("show " + n):
            d["slots"][2 + order.index(n[1])]["attachment"] = "k"
            d["skins"][0]["attachments"][n] = {"k": W.region()}
    d["animations"]["gone"] = {"slots": {"eb": {"color": [{"color": "ff0000ff"}]}}}
    finish(sx, d, ops)


def names(sx, kind, ops, lengths):
    """Any names in one section"""
    n = W.symbolic_names(sx, kind, lengths)
    finish(sx, W.named(sx, n), ops, n)


def cases(tier):
    deep = tier == "thorough"
    ops = ["clean", "erase animation", "erase skin"]
    return [
        Case("values", values, "one object of every kind, any value of any one attribute, "
             "the others absent or present", must_reach=list(D.KINDS) + [
                 "slots removed", "attachments removed"],
             ops=ops if deep else ["clean"], full=deep),
        Case("sections", sections, "several objects in every section in two orders",
             must_reach=["slots removed"], ops=ops),
        Case("setup", visibility, "a slot with any set-up state, animations with up to one "
             "attachment and colour key each", must_reach=["slots removed",
                                                           "attachments removed"],
             ops=ops, keys=1, colors=1,
             animations=2 if deep else 1, kinds=("color", "twoColor") if deep else ("color",)),
        Case("shared names", shared, "two slots sharing attachment names",
             must_reach=["slots removed", "attachments removed"], ops=["clean"],
             full=deep, ref=deep),
        Case("wide", wide, "many slots, animations, keyframes and skins; what the slot at any position "
             "shows depends on one key at any position of any animation",
             must_reach=["slots removed", "attachments removed"],
             ops=ops if deep else ["erase animation"]),
    ] + [
        Case("names of " + k, names, "a document with every kind of reference, the names of "
             "its %s any distinct texts of up to 2 (3) characters out of 6" % k,
             must_reach=["slots removed"], kind=k,
             ops=["clean", "erase skin"] if k == "attachments" and not deep else ops,
             lengths=[1, 2, 3] if deep else [1, 2])
        for k in sorted(W.NAMES)
    ]
