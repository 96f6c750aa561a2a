"""C09: Erasing animations removes exactly the named ones or fails untouched."""
import copy

from harness import doc as D
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor

ASSUMPTIONS = ["animation names of 0..2 characters out of a, A, N and space, distinct"]


def document(sx, names, value):
    d = D.base()
    d["slots"].append({"name": "empty", "bone": "root"})
    d["events"]["e2"] = {"int": 4}
    d["animations"] = {}
    for i, n in enumerate(names):
        d["animations"][n] = {
            "bones": {"b1": {"rotate": [{"angle": value + i}, {"time": i + 1}]}},
            "slots": {"s1": {"color": [{"color": "ff00ff8%d" % i}]}},
            "events": [{"time": i, "name": "e1"}],
        }
    return d


def any_name(sx, tag, lengths):
    return sx.str(tag, sx.choice(tag + ".len", lengths), "aAN ")


def erase(sx, n, m, lengths):
    names = [any_name(sx, "name%d" % i, lengths) for i in range(n)]
    for i in range(n):
        for j in range(i):
            sx.assume(names[i] != names[j])
    wanted = [any_name(sx, "erase%d" % i, lengths) for i in range(sx.choice("how many", list(range(m + 1))))]
    check_erase(sx, names, wanted)


def long_list(sx, n):
    """Many animations, long lists with one unknown or repeated name at any position"""
    names = ["anim%d" % i for i in range(n)]
    wanted = list(names)
    if sx.flag("some stay"):
        del wanted[sx.choice("stays", [0, n // 2, n - 1])]
    if sx.flag("reversed"):
        wanted.reverse()
    kind = sx.choice("extra", ["none", "unknown", "repeated"])
    if kind != "none":
        wanted.insert(sx.choice("at", list(range(len(wanted) + 1))),
                      "nobody" if kind == "unknown" else wanted[0])
    check_erase(sx, names, wanted)


def check_erase(sx, names, wanted):
    n = len(names)
    strict = sx.flag("strict")
    safe = sx.flag("safe")
    d = document(sx, names, 2.5)
    editor = SpineAnimationEditor(copy.deepcopy(d))
    before = editor.to_json_data()
    images = copy.deepcopy(editor.images_references)
    known = sx.all([sx.any([w == x for x in names]) for w in wanted])
    argument = list(wanted)
    try:
        result = editor.erase_animations(argument, strict_mode=strict, is_safe_mode=safe)
    except ValueError:
        sx.reach("refused")
        sx.check(sx.all([strict, sx.no(known)]), "known animations are refused")
        sx.check(sx.same(editor.to_json_data(), before), "a refused call changed the document")
        sx.check(sx.same(list(editor.to_json_data().get("animations", {})),
                         list(before.get("animations", {}))), "order changed")
        sx.check(sx.same(editor.images_references, images), "images changed")
        return
    sx.check(sx.any([sx.no(strict), known]), "an unknown animation is not reported")
    sx.check(sx.same(argument, list(wanted)), "the list passed in was modified")
    out = editor.to_json_data()
    sx.check(sx.same(result.result_data_json, out), "the returned document is not the export")
    left = [x for x in names if not any(x == w for w in wanted)]
    got = list(out.get("animations", {}))
    sx.observe("left", got)
    sx.check(sx.same(got, left), "other animations than the named ones were erased")
    if len(left) < n:
        sx.reach("erased")
    for x in left:
        a = D.canon_animation(d["animations"][x])
        b = D.canon_animation(out["animations"][x])
        sx.check(sx.same(a, b), "a remaining animation changed")
    if safe:
        sx.reach("safe")
        want = copy.deepcopy(before)
        want["animations"] = {x: before["animations"][x] for x in left}
        sx.check(sx.same(D.canon(want), D.canon(out)), "safe mode changed something else")
        sx.check(sx.same(editor.images_references, images), "safe mode changed the images")
    elif left:
        sx.check(not any(s["name"] == "empty" for s in out["slots"]), "not cleaned up")


ARGUMENTS = {
    "tuple": lambda: ("a",), "text": lambda: "a", "none": lambda: None,
    "set": lambda: {"a"}, "dict": lambda: {"a": 1}, "number": lambda: 3,
    "iterator": lambda: iter(["a"]),
}


def wrong_type(sx):
    """Anything but a list"""
    kind = sx.choice("argument", sorted(ARGUMENTS))
    strict, safe = sx.flag("strict"), sx.flag("safe")
    editor = SpineAnimationEditor(document(sx, ["a", "b"], 1.5))
    before = editor.to_json_data()
    try:
        editor.erase_animations(ARGUMENTS[kind](), strict_mode=strict, is_safe_mode=safe)
    except TypeError:
        sx.reach("refused")
        sx.check(sx.same(editor.to_json_data(), before), "a refused call changed the document")
        return
    sx.check(False, "a %s is accepted as list" % kind)


def content(sx, ops):
    """What stays keeps its content, whatever it is"""
    kind = sx.choice("kind", ["rotate", "translate", "scale", "shear", "slotattachment",
                              "slotcolor", "slottwocolor", "ikframe", "transformframe",
                              "pathposition", "pathspacing", "pathmix", "deform",
                              "eventframe", "draworder"])
    attr = sx.choice("attribute", D.attributes(kind))
    d = D.embed(kind, {attr: D.value(sx, "value", D.KINDS[kind][attr][0])})
    anim = d["animations"].pop("anim")
    if kind == "slotattachment":  # (a slot that is only emptied is cleaned up)
        anim["slots"]["s1"]["color"] = [{"color": "ffffff80"}]
    for n in ("z", "anim", "a"):
        d["animations"][n] = copy.deepcopy(anim)
    erased = sx.subset("erase", ["z", "anim", "a"])
    safe = sx.flag("safe")
    editor = SpineAnimationEditor(copy.deepcopy(d))
    editor.erase_animations(erased, is_safe_mode=safe)
    out = editor.to_json_data()
    left = [n for n in ("z", "anim", "a") if n not in erased]
    sx.reach(kind)
    sx.check(list(out.get("animations", {})) == left, "wrong animations")
    sx.observe("out", D.canon(out)["animations"])
    if left:
        for n in left:
            sx.check(sx.same(D.canon(d)["animations"][n], D.canon(out)["animations"][n]),
                     "a remaining animation changed")
    if safe:
        want = copy.deepcopy(d)
        want["animations"] = {n: d["animations"][n] for n in left}
        sx.check(sx.same(D.canon(want), D.canon(out)), "safe mode changed something else")


def wide(sx, n):
    """Many animations, any of them erased in any order"""
    d = W.wide(sx, n=4, anims=n, keys=2, ways=["keyed"], skins=["k2"])
    d["animations"].pop("gone")
    names = list(d["animations"])
    erased = sx.subset("erase", names)
    if sx.flag("reversed"):
        erased = erased[::-1]
    safe = sx.flag("safe")
    editor = SpineAnimationEditor(copy.deepcopy(d))
    editor.erase_animations(erased, is_safe_mode=safe)
    out = editor.to_json_data()
    left = [x for x in names if x not in erased]
    sx.reach("some left" if left else "none left")
    sx.observe("slots", W.slot_names(out))
    sx.check(list(out.get("animations", {})) == left, "other animations than the named ones "
             "were erased")
    if safe:
        want = copy.deepcopy(d)
        want["animations"] = {x: d["animations"][x] for x in left}
        sx.check(sx.same(D.canon(want), D.canon(out)), "safe mode changed something else")
    elif left:
        rest = copy.deepcopy(d)
        for x in erased:
            del rest["animations"][x]
        clean = SpineAnimationEditor(rest)
        clean.clean_animation()
        sx.check(sx.same(D.canon(clean.to_json_data()), D.canon(out)),
                 "erasing is not removing the animations and cleaning up")


def cases(tier):
    deep = tier == "thorough"
    return [
        Case("erase", erase, "2 (3) animations with any names, up to 2 (3) names to erase, "
             "known, unknown or repeated, strict or not, safe or not",
             must_reach=["refused", "erased", "safe"], n=3 if deep else 2,
             m=3 if deep else 2, lengths=[1] if deep else [1, 2]),
        Case("long list", long_list, "12 (24) animations, lists of 11 to 13 (25) names, an "
             "unknown or repeated name at any position",
             must_reach=["refused", "erased", "safe"], n=24 if deep else 12),
        Case("wrong type", wrong_type, "seven types of argument", must_reach=["refused"]),
        Case("content", content, "any value of any keyframe attribute in three animations, "
             "any subset erased", must_reach=["rotate", "draworder", "deform"], ops=None),
        Case("wide", wide, "5 (6) animations of 4 slots, any subset erased in two orders",
             must_reach=["some left", "none left"], n=6 if deep else 4),
    ]
