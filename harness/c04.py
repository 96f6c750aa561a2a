"""C04: Removing slots never changes the draw order of the others."""
import copy

from symx.api import Case

from spine_json_lib import SpineAnimationEditor

ASSUMPTIONS = [
    "draw order entries as Spine exports them: ascending by slot, every slot at most "
    "once, targets inside the list and distinct",
]
NAMES = ["s0", "s1_SLOT", "z", "slot", "a b", "s5"]


def spine_order(sx, names, offsets):
    """Order of drawing as Spine's SkeletonJson computes it (None: it would crash)."""
    count = len(names)
    order = [None] * count
    unchanged = []
    at = 0
    for entry in offsets:
        if entry["slot"] not in names:
            return None
        index = names.index(entry["slot"])
        if index < at:
            return None
        while at != index:
            unchanged.append(names[at])
            at += 1
        target = at + entry["offset"]
        if target < 0 or target >= count:
            return None
        if order[target] is not None:
            return None
        order[target] = names[at]
        at += 1
    while at < count:
        unchanged.append(names[at])
        at += 1
    for i in range(count - 1, -1, -1):
        if order[i] is None:
            if not unchanged:
                return None
            order[i] = unchanged.pop()
    return order


def keyframe(sx, tag, names):
    """Any valid list of offsets"""
    n = len(names)
    offsets = []
    used = []
    for i, name in enumerate(names):
        if sx.flag("%s moves %s" % (tag, name)):
            o = sx.int("%s offset %s" % (tag, name), -i, n - 1 - i)
            target = i + o
            for u in used:
                sx.assume(target != u)
            used.append(target)
            offsets.append({"slot": name, "offset": o})
    return {"time": 0.5, "offsets": offsets}


def build(sx, names, removed, reason, frames):
    slots, attachments = [], {}
    for name in names:
        slot = {"name": name, "bone": "root"}
        if name in removed:
            if reason == "alpha":
                slot["attachment"] = "x_" + name
                slot["color"] = "ffffff00"
                attachments[name] = {"x_" + name: {"width": 1, "height": 1}}
        else:
            slot["attachment"] = "x_" + name
            attachments[name] = {"x_" + name: {"width": 1, "height": 1}}
        slots.append(slot)
    return {
        "skeleton": {"spine": "3.8.99"},
        "bones": [{"name": "root"}],
        "slots": slots,
        "skins": [{"name": "default", "attachments": attachments},
                  {"name": "other", "attachments": {}}],
        "animations": {
            "anim": {"drawOrder": frames[:1]},
            "anim2": {"drawOrder": frames[1:]},
            "gone": {},
        },
    }


def check_frames(sx, names, removed, before, after):
    kept = [n for n in names if n not in removed]
    sx.check(len(before) == len(after), "a draw order keyframe got lost")
    for b, a in zip(before, after):
        sx.check(sx.same(a.get("time", 0), b["time"]), "time of the keyframe")
        want = [n for n in spine_order(sx, names, b["offsets"]) if n in kept]
        got = spine_order(sx, kept, a.get("offsets", []))
        sx.observe("offsets", a.get("offsets", []))
        sx.check(got is not None, "the rewritten keyframe does not load")
        sx.check(sx.same(got, want), "draw order changed")


def run_case(sx, n, ops, reasons, nframes):
    names = NAMES[:n]
    removed = [name for name in names if sx.flag("remove " + name)]
    reason = sx.choice("reason", reasons)
    op = sx.choice("op", ops)
    frames = [keyframe(sx, "f%d" % i, names) for i in range(nframes)]
    d = build(sx, names, removed, reason, frames)
    before = copy.deepcopy(d["animations"])
    editor = SpineAnimationEditor(d)
    if op == "erase animations":
        editor.erase_animations(["gone"])
    elif op == "erase skins":
        editor.erase_skins(["other"])
    else:
        editor.clean_animation()
        if op == "clean twice":
            editor.clean_animation()
    if removed:
        sx.reach("removed")
    out = editor.to_json_data()
    kept = [s["name"] for s in out.get("slots", [])]
    sx.assume(kept == [x for x in names if x not in removed])
    for a in ("anim", "anim2"):
        check_frames(sx, names, removed, before[a]["drawOrder"],
                     out["animations"][a].get("drawOrder", []))


def many(sx, n, some):
    """Many slots, two of them removed anywhere, in many keyframes"""
    names = ["slot%d" % i for i in range(n)]
    i = sx.choice("first removed", list(range(n)))
    j = sx.choice("second removed", list(range(i, n) if not some else
                                         sorted({i, (i + 1) % n, (i + n // 2) % n})))
    removed = sorted({names[i], names[j]})

    def frame(time, order):
        """The keyframe for a drawing order, without entries that need none"""
        offsets = []
        for k, x in enumerate(names):
            if order.index(x) != k:
                offsets.append({"slot": x, "offset": order.index(x) - k})
        return {"time": time, "offsets": offsets}

    by = sx.choice("moved by", list(range(1, n, 1 if not some else 3)))
    one = names[:i] + names[i + 1:]
    one.insert((i + by) % n, names[i])
    orders = [names[::-1], names[by:] + names[:by], names, one,
              names[:by][::-1] + names[by:][::-1]]
    frames = [frame(k + 1, o) for k, o in enumerate(orders)]
    d = build(sx, names, removed, sx.choice("reason", ["empty", "alpha"]), [])
    d["animations"]["anim"]["drawOrder"] = frames
    d["animations"]["anim2"]["drawOrder"] = frames[::-1]
    before = copy.deepcopy(d["animations"])
    editor = SpineAnimationEditor(d)
    editor.clean_animation()
    out = editor.to_json_data()
    sx.reach("removed")
    kept = [x for x in names if x not in removed]
    sx.check([s["name"] for s in out["slots"]] == kept, "wrong slots")
    for a in ("anim", "anim2"):
        check_frames(sx, names, removed, before[a]["drawOrder"],
                     out["animations"][a].get("drawOrder", []))


def far(sx, n, pairs):
    """Two of many slots moved to any position"""
    names = ["slot%d" % i for i in range(n)]
    a, b = sx.choice("moved", pairs)
    removed = [names[sx.choice("removed", sorted({0, a, n // 2 + 1, n - 1}))]]
    offsets = []
    for i in (a, b):
        offsets.append({"slot": names[i], "offset": sx.int("offset of %d" % i, -i, n - 1 - i)})
    sx.assume(a + offsets[0]["offset"] != b + offsets[1]["offset"])
    d = build(sx, names, removed, "empty", [{"time": 1, "offsets": offsets}])
    before = copy.deepcopy(d["animations"])
    editor = SpineAnimationEditor(d)
    editor.clean_animation()
    out = editor.to_json_data()
    sx.reach("removed")
    kept = [x for x in names if x not in removed]
    sx.check([s["name"] for s in out["slots"]] == kept, "wrong slots")
    check_frames(sx, names, removed, before["anim"]["drawOrder"],
                 out["animations"]["anim"].get("drawOrder", []))


def cases(tier):
    deep = tier == "thorough"
    out = [
        Case("one", run_case, "4 slots, any subset removed, one keyframe with any valid "
             "offsets", must_reach=["removed"], n=4, ops=["clean"], reasons=["empty"],
             nframes=1),
        Case("ways", run_case, "3 slots, removal by cleaning, erasing animations or "
             "skins, empty or transparent slots, one keyframe", must_reach=["removed"],
             n=3, ops=["clean", "erase animations", "erase skins", "clean twice"],
             reasons=["empty", "alpha"], nframes=1),
        Case("two", run_case, "2 (3) slots, a keyframe in each of two animations",
             must_reach=["removed"], n=3 if deep else 2, ops=["clean"],
             reasons=["empty"], nframes=2),
    ]
    out.append(Case("many", many, "11 (13) slots of which any one or two are removed (quick: some "
                    "pairs), 5 keyframes in each of two animations: reversed, rotated, one moved "
                    "by any distance, unchanged, partly reversed", must_reach=["removed"],
                    n=13 if deep else 11, some=not deep))
    out.append(Case("far", far, "12 slots of which two (of 3 pairs; thorough: of 8) are moved to "
                    "any two positions and one of 4 is removed", must_reach=["removed"], n=12,
                    pairs=[(1, 6), (0, 11), (5, 7)] + [(0, 1), (10, 11), (2, 9), (3, 4), (1, 10)]
                    * deep))
    if deep:
        out.append(
            Case("five", run_case, "5 slots, any subset removed, one keyframe with any "
                 "valid offsets", must_reach=["removed"], n=5, ops=["clean"],
                 reasons=["empty"], nframes=1))
    return out
