"""C12: Image scale is the slot's tag times the tags of its bone's ancestors."""
from harness import doc as D
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor

ASSUMPTIONS = [
    "where several tags are multiplied their values have one digit and at most two binary "
    "fraction places, so that the products are exact in any order; the bone tree ends in "
    "'root'",
    "an image shown by several slots has the scale of any one of them",
]


def tagged(sx, tag, name, forms):
    """-> (a name with a scale tag or without, its factor)"""
    form = sx.choice(tag, forms)
    if form == "none":
        return name, 1.0
    if form == "integer":
        digits = sx.str(tag + ".digits", 1, "0124579")
    elif form == "half":
        digits = sx.str(tag + ".digits", 1, "0136") + ".5"
    elif form == "quarter":
        digits = sx.str(tag + ".digits", 1, "012") + ".25"
    return name + "[scale:" + digits + "]", float(digits)


def chain(sx, depth, forms, wide):
    """A slot at the end of a chain of bones, next to another branch"""
    bones, factors = [{"name": "root"}], []
    n = sx.choice("depth", list(range(depth + 1)))
    parent = "root"
    for i in range(n):
        name, f = tagged(sx, "bone%d" % i, "b%d" % i, forms)
        bones.append({"name": name, "parent": parent})
        factors.append(f)
        parent = name
    # a sibling whose tag must not count
    bones.append({"name": "side[scale:3]", "parent": bones[min(1, n)]["name"]})
    slot, f = tagged(sx, "slot", "s", forms)
    factors.append(f)
    if sx.flag("order"):
        # (Spine lists parents first; the library does not rely on it)
        bones = bones[:1] + bones[1:][::-1]
    d = D.base()
    d["bones"] = bones
    d["slots"] = [{"name": slot, "bone": parent, "attachment": "img"},
                  {"name": "other", "bone": "side[scale:3]", "attachment": "o"}]
    d["skins"] = [{"name": "default", "attachments": {
        slot: {"img": W.region()}, "other": {"o": W.region()}}}]
    if wide:
        where = sx.choice("kind", ["region", "mesh", "second skin"])
        if where == "mesh":
            d["skins"][0]["attachments"][slot]["img"] = W.mesh()
        elif where == "second skin":
            d["skins"].append({"name": "second", "attachments": {
                slot: d["skins"][0]["attachments"].pop(slot)}})
    editor = SpineAnimationEditor(d)
    if sx.flag("cleaned"):
        d["animations"] = {"anim": {}}
        editor = SpineAnimationEditor(d)
        editor.clean_animation()
    want = 1.0
    for f in factors:
        want = want * f
    refs = editor.images_references
    sx.check(set(refs) == {"img", "o"}, "wrong images")
    got = refs["img"].get("scale", 1.0)
    sx.observe("scale", got)
    sx.check(sx.same(got, want), "wrong scale")
    if "scale" in refs["img"]:
        sx.reach("scaled")
        sx.check(sx.no(sx.same(refs["img"]["scale"], 1.0)), "a scale of 1 is not left out")
    else:
        sx.reach("left out")
    other = 3.0 * (factors[0] if n else 1.0)
    sx.check(sx.same(refs["o"].get("scale", 1.0), other), "wrong scale of another image")


def deep_chain(sx, n):
    """Many bones in a chain, many slots with images; two tags anywhere"""
    values = ["0.5", "2", "0.25", "4", "1", "0", "1.0000000001"]
    names = ["root"] + ["b%d" % i for i in range(n)]
    slots = ["s%d" % i for i in range(n)]
    i = sx.choice("first tag", list(range(n)))
    j = sx.choice("second tag", list(range(i + 1, n)) + [None])
    a = sx.choice("first value", values[:5])
    b = sx.choice("second value", values[1:])
    tags = {names[i + 1]: a}
    names[i + 1] += "[scale:%s]" % a
    factors = [float(a) if k >= i else 1.0 for k in range(n)]
    if j is not None:
        names[j + 1] += "[scale:%s]" % b
        factors = [f * (float(b) if k >= j else 1.0) for k, f in enumerate(factors)]
    k = sx.choice("tag of slot", [0, n - 1])
    slots[k] += "[scale:8]"
    factors[k] *= 8
    d = D.base()
    d["bones"] = [{"name": "root"}] + [
        {"name": y, "parent": x} for x, y in zip(names, names[1:])]
    d["slots"] = [{"name": s, "bone": names[k + 1], "attachment": "img%d" % k}
                  for k, s in enumerate(slots)]
    d["skins"] = [{"name": "default", "attachments": {}}, {"name": "second", "attachments": {}}]
    for k, s in enumerate(slots):
        d["skins"][k % 2]["attachments"][s] = {"img%d" % k: W.region() if k % 3 else W.mesh()}
    refs = SpineAnimationEditor(d).images_references
    sx.observe("scales", [r.get("scale") for r in refs.values()])
    sx.reach("scaled")
    sx.check(sorted(refs) == sorted("img%d" % k for k in range(n)), "wrong images")
    for k, f in enumerate(factors):
        sx.check(sx.same(refs["img%d" % k].get("scale", 1.0), f), "wrong scale")
        sx.check(("scale" in refs["img%d" % k]) == (f != 1), "scale of 1 given or other left out")


def shared(sx, n, forms):
    """Slots that show one image; some of them get lost by editing"""
    d = D.base()
    d["bones"].append({"name": "c[scale:0.5]", "parent": "root"})
    d["slots"], d["animations"] = [], {"anim": {"slots": {}}, "gone": {"slots": {}}}
    default, gone = {}, {}
    d["skins"] = [{"name": "default", "attachments": default},
                  {"name": "gone", "attachments": gone}]
    scale = {}
    for i in range(n):
        tag = sx.choice("tag %d" % i, forms)
        name = "s%d" % i + ("[scale:%s]" % tag if tag else "")
        slot = {"name": name, "bone": "root"}
        scale[name] = float(tag or 1)
        if i == n - 1 and sx.flag("tagged bone"):
            slot["bone"] = "c[scale:0.5]"
            scale[name] *= 0.5
        shown = sx.choice("shown %d" % i, ["always", "animation gone", "skin gone", "never"])
        skin = gone if shown == "skin gone" else default
        skin[name] = {"a%d" % i: W.region(path="img"), "b%d" % i: W.region(name="img%d" % i)}
        if shown in ("always", "skin gone"):
            slot["attachment"] = "a%d" % i
        elif shown == "animation gone":
            d["animations"]["gone"]["slots"][name] = {"attachment": [{"name": "a%d" % i}]}
        d["slots"].append(slot)

    def check(editor):
        out = editor.to_json_data()
        scales = [scale[slot] for skin in out["skins"]
                  for slot, attachments in skin.get("attachments", {}).items()
                  if any(a.get("path") == "img" for a in attachments.values())]
        refs = editor.images_references
        sx.check(("img" in refs) == bool(scales), "wrong images")
        if scales:
            ref = refs["img"]
            sx.reach("scaled" if "scale" in ref else "left out")
            sx.observe("scale", ref.get("scale"))
            sx.check(ref.get("scale", 1.0) in scales, "a scale of no slot that shows the image")
            sx.check(ref.get("scale") != 1.0, "a scale of 1 is not left out")

    editor = SpineAnimationEditor(d)
    check(editor)
    for k in range(2):
        op = sx.choice("operation %d" % k, ["clean", "animation", "skin", "none"])
        if op == "none":
            break
        if op == "clean":
            editor.clean_animation()
        elif op == "animation":
            editor.erase_animations(["gone"], strict_mode=False)
        elif editor.spine_anim_data.data.get_skin("gone") is not None:
            editor.erase_skins(["gone"], is_safe_mode=sx.flag("safe %d" % k))
        check(editor)


def decimals(sx, digits):
    """A single tag with any decimal number"""
    whole = sx.str("whole", 1, "01")
    n = sx.choice("digits", list(range(digits + 1)))
    text = whole + ("." + sx.str("fraction", n, "0159" if n < 5 else "059") if n else "")
    tag = "[scale:" + text + "]"
    where = sx.choice("where", ["slot", "bone", "parent", "root"])
    slot = "s" + tag if where == "slot" else "s"
    bone = "b" + tag if where == "bone" else "b"
    parent = "p" + tag if where == "parent" else "p"
    d = D.base()
    d["bones"] = [{"name": "root"}, {"name": parent, "parent": "root"},
                  {"name": bone, "parent": parent}]
    d["slots"] = [{"name": slot, "bone": bone, "attachment": "img"}]
    d["skins"] = [{"name": "default", "attachments": {slot: {"img": W.region()}}}]
    want = 1.0 if where == "root" else float(text)
    ref = SpineAnimationEditor(d).images_references["img"]
    sx.observe("scale", ref.get("scale"))
    if "scale" in ref:
        sx.reach("scaled")
        sx.check(sx.same(ref["scale"], want), "wrong scale")
        sx.check(sx.no(sx.same(want, 1.0)), "a scale of 1 is not left out")
    else:
        sx.reach("left out")
        sx.check(sx.same(want, 1.0), "a scale that is not 1 is left out")


def cases(tier):
    deep = tier == "thorough"
    return [
        Case("chain", chain, "a slot on a chain of up to 3 (4) bones, tags with any value of "
             "the form d (d.5, d.25) on any subset of them and the slot",
             must_reach=["scaled", "left out"], depth=4 if deep else 3,
             forms=["none", "integer", "half"], wide=False),
        Case("kinds", chain, "regions and meshes, first and second skin", depth=1,
             must_reach=["scaled", "left out"],
             forms=["none", "integer", "half", "quarter"], wide=True),
        Case("deep", deep_chain, "9 (14) bones in a chain with a slot and image each, one or two "
             "tags at any bones", must_reach=["scaled"], n=14 if deep else 9),
        Case("shared", shared, "2 (3) slots that show one image, with tags or not, each always, in "
             "an animation or a skin that is erased or never; up to 2 operations",
             must_reach=["scaled", "left out"], n=3 if deep else 2,
             forms=["", "2", "0.5"] if deep else ["", "2"]),
        Case("decimals", decimals, "one tag with any number of up to %d decimals out of 0, 1, 5, 9 in the slot's "
             "name or that of its bone or the bone's parent" % (5 if deep else 4),
             must_reach=["scaled", "left out"], digits=5 if deep else 4),
    ]
