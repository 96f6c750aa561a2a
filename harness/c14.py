"""C14: scale_animation scales the root and non-inheriting bones exactly once."""
import copy

from harness import doc as D
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor

ASSUMPTIONS = [
    "finite doubles as scales and factors; the root bone is named 'root' (as in Spine)",
]
MODES = ["normal", "onlyTranslation", "noRotationOrReflection", "noScale",
         "noScaleOrReflection"]
SCALED = ["noScale", "noScaleOrReflection", "onlyTranslation"]


def skeleton(sx, n, wide, modes):
    bones = [{"name": "root"}]
    for i in range(n):
        bones.append({"name": "b%d" % i, "parent": bones[-1]["name"], "x": 1.5,
                      "length": 10})
    for b in bones:
        mode = sx.choice(b["name"] + " mode",
                         ["-"] + (modes if b["name"] != "root" or wide else ["noScale"]))
        if mode != "-":
            b["transform"] = mode
        if sx.flag("%s has scale" % b["name"]):
            b["scaleX"] = sx.float("%s scaleX" % b["name"]) if wide else 2.5
            if wide:
                b["scaleY"] = sx.float("%s scaleY" % b["name"])
    d = D.base()
    d["bones"] = bones
    for s in d["slots"]:
        s["bone"] = bones[-1]["name"]
    if not wide and sx.flag("reverse order"):
        d["bones"] = bones[:1] + bones[1:][::-1]
    d["animations"] = {
        "anim": {"bones": {"root": {"scale": [{"x": 2, "y": 3}]}}},
        "gone": {},
    }
    d["skins"].append({"name": "gone", "attachments": {}})
    return d


def scaled(d, fx, fy):
    for b in d["bones"]:
        if b["name"] == "root" or b.get("transform") in SCALED:
            b["scaleX"] = b.get("scaleX", 1.0) * fx
            b["scaleY"] = b.get("scaleY", 1.0) * fy


def run(sx, n, wide, times, ops, modes):
    d = skeleton(sx, n, wide, modes)
    want = copy.deepcopy(d)
    editor = SpineAnimationEditor(copy.deepcopy(d))
    refs = copy.deepcopy(editor.images_references)
    sx.check(sx.same(D.canon(editor.to_json_data()), D.canon(d)), "not loaded as given")
    op = sx.choice("op", ops)
    if op == "clean first":
        editor.clean_animation()
    for i in range(times):
        if wide and i == 0:
            fx, fy = sx.float("fx"), sx.float("fy")
        else:
            fx, fy = sx.choice("factors %d" % i, [(2, 3), (-0.5, 0.25)])
        editor.scale_animation(fx, fy)
        scaled(want, fx, fy)
        if op == "export between":
            editor.to_json_data()
    if op == "clean after":
        editor.clean_animation()
    elif op == "erase after":
        editor.erase_animations(["gone"])
        del want["animations"]["gone"]
    elif op == "erase skin after":
        editor.erase_skins(["gone"])
        want["skins"].pop()
    out = editor.to_json_data()
    sx.reach("scaled")
    sx.observe("bones", [[b.get("scaleX", 1), b.get("scaleY", 1)] for b in out["bones"]])
    a, b = D.canon(want), D.canon(out)
    for section in sorted(set(a) | set(b)):
        sx.check(sx.same(a.get(section), b.get(section)), "wrong %s" % section)
    sx.check(sx.same(editor.images_references, refs), "the images changed")


def many(sx, n):
    """Many bones; two of any mode at any place, the others alternating"""
    d = D.base()
    d["bones"] = [{"name": "root", "scaleX": 2.0}]
    i = sx.choice("first", list(range(n)))
    j = sx.choice("second", list(range(i + 1, n)) + [None])
    for k in range(n):
        b = {"name": "b%d" % k, "parent": "b%d" % (k - 1) if k % 3 else "root"}
        if k == i or k == j:
            mode = sx.choice("mode %d" % (k == i), MODES[1:])
            b["transform"] = mode
        elif k % 2:
            b["transform"] = MODES[k // 2 % 5]
        b["scaleX"], b["scaleY"] = [(1.0, 3.0), (0.5, -2.0), (-1.0, 1.0)][k % 3]
        d["bones"].append(b)
    # (bones without a parent count like any other)
    d["bones"] += [{"name": "lone", "transform": "noScale"}, {"name": "lone2", "scaleX": 3.0},
                   {"name": "lone3", "parent": "", "transform": "onlyTranslation"}]
    d["animations"] = {"anim": {"bones": {"b%d" % k: {"scale": [{"x": 2}, {"time": 1}]}
                                          for k in range(n)}}}
    want = copy.deepcopy(d)
    editor = SpineAnimationEditor(copy.deepcopy(d))
    for fx, fy in [(2.0, -4.0), (0.5, 8.0)][:sx.choice("times", [1, 2])]:
        editor.scale_animation(fx, fy)
        scaled(want, fx, fy)
    out = editor.to_json_data()
    sx.reach("scaled")
    sx.observe("bones", [[b.get("scaleX", 1), b.get("scaleY", 1)] for b in out["bones"]])
    sx.check(sx.same(D.canon(want), D.canon(out)), "not scaled exactly once")


def names(sx, lengths, chars):
    """Bones of any names"""
    n = []
    for i in range(2):
        x = sx.choice("start %d" % i, ["", "root", "ro"]) + sx.str(
            "name %d" % i, sx.choice("length %d" % i, lengths), chars)
        sx.assume(sx.no(sx.same(x, "root")))
        for y in n:
            sx.assume(sx.no(sx.same(x, y)))
        n.append(x)
    d = D.base()
    d["bones"] = [{"name": "root"}]
    for x, mode in zip(n, ("noScale", sx.choice("mode", MODES))):
        d["bones"].append({"name": x, "parent": "root", "transform": mode, "scaleX": 1.5})
    for s in d["slots"]:
        s["bone"] = n[1]
    d["animations"] = {"anim": {"bones": {n[0]: {"scale": [{"x": 2}]}}}}
    want = copy.deepcopy(d)
    editor = SpineAnimationEditor(copy.deepcopy(d))
    editor.scale_animation(2, -4)
    scaled(want, 2, -4)
    out = editor.to_json_data()
    sx.reach("scaled")
    sx.observe("out", D.canon(out)["bones"])
    sx.check(sx.same(D.canon(want), D.canon(out)), "not scaled exactly once")


def cases(tier):
    deep = tier == "thorough"
    ops = ["none", "clean after", "clean first", "erase after", "erase skin after",
           "export between"]
    return [
        Case("names", names, "two bones of any names of up to 2 (3) characters out of 6, or starting "
             "like the root", must_reach=["scaled"], lengths=[1, 2, 3] if deep else [1, 2],
             chars="otR8 _"),
        Case("many", many, "12 bones, one or two of any modes at any place, one or two scalings",
             must_reach=["scaled"], n=12 if deep else 9),
        Case("any double", run, "root and one bone, any mode, any doubles as scales and "
             "factors", must_reach=["scaled"], n=1, wide=True, times=1, ops=["none"],
             modes=MODES, path_limit=60),
        Case("histories", run, "root and 2 (3) bones, any modes, some scales and factors, "
             "one or two scalings, clean-up, erasing or exporting before, between or after",
             must_reach=["scaled"], n=2, wide=False, times=2,
             ops=ops if deep else ops[:3] + ops[4:5],
             modes=MODES if deep else ["noScale", "onlyTranslation"]),
    ]
