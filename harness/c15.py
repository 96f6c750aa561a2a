"""C15: editors are isolated from their input, their outputs and each other."""
import copy

from harness import doc as D
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor
from spine_json_lib.data.spine_exceptions import SpineJsonEditorError

ASSUMPTIONS = ["documents are changed through their containers, as JSON data"]
OPS = ["none", "clean", "erase animation", "erase animation safe", "erase skin",
       "erase skin safe", "scale", "downgrade"]


def do(sx, editor, op):
    try:
        operate(sx, editor, op)
    except (ValueError, SpineJsonEditorError):  # erased before
        sx.reach("refused")


def operate(sx, editor, op):
    if op == "scale":
        editor.scale_animation(2, -0.5)
    elif op == "erase animation safe":
        editor.erase_animations(["gone"], is_safe_mode=True)
    elif op == "erase skin safe":
        editor.erase_skins(["gone"], is_safe_mode=True)
    elif op == "downgrade":
        data = editor.spine_anim_data
        data.data.clean_unsupported_attributes("3.7")
    elif op != "none":
        W.operate(sx, editor, op)


def spoil(x):
    """Change every container of a document"""
    if isinstance(x, dict):
        for k in list(x):
            spoil(x[k])
            if not isinstance(x[k], (dict, list)):
                x[k] = "spoilt"
        x["zz"] = 1
    elif isinstance(x, list):
        for y in x:
            spoil(y)
        for i in range(len(x)):
            if not isinstance(x[i], (dict, list)):
                x[i] = "spoilt"
        x.append("zz")


def document(sx, kind, obj):
    """The object, something to erase and something to clean up"""
    d = D.embed(kind, obj)
    d["skeleton"]["more"] = {"of": ["this", {"and": "that"}]}
    d["slots"].insert(1, {"name": "empty", "bone": "root"})
    d["skins"][0]["attachments"]["empty"] = {"old": W.region()}
    d["skins"][0]["attachments"]["s2"]["mm"] = W.mesh(edges=[0, 1])
    d["skins"].append({"name": "gone", "attachments": {
        "s1": {"a1": W.region(x=9)}, "s2": {"gm": W.mesh(edges=[2, 3])}}})
    d["skins"].append({"name": "user", "attachments": {
        "s2": {"ul": W.linked("gm", skin="gone"), "ul2": W.linked("gm", skin="gone")}}})
    d["slots"][2]["attachment"] = "ul"
    d["animations"].setdefault("anim", {})
    anim = d["animations"]["anim"]
    anim.setdefault("slots", {})["s2"] = {
        "attachment": [{"time": 1, "name": "ul2"}, {"time": 2, "name": "mm"}]}
    d["animations"]["gone"] = {"bones": {"b1": {"rotate": [{"angle": 5}]}}}
    d["animations"]["more"] = copy.deepcopy(anim)
    return d


def same_state(sx, editor, out, images, message):
    sx.check(sx.same(editor.to_json_data(), out), message)
    sx.check(sx.same(editor.images_references, images), message + " (images)")


def some_document(sx, full):
    kind = sx.choice("kind", list(D.KINDS))
    attrs = D.attributes(kind)
    obj = {}
    if not full or sx.flag("others"):
        obj = {a: D.sample(kind, a) for a in attrs}
    if full is not None:
        a = sx.choice("attribute", attrs)
        obj[a] = D.value(sx, "value", D.KINDS[kind][a][0])
    sx.reach(kind)
    return document(sx, kind, obj)


def isolated(sx, first, second, full):
    check_isolated(sx, some_document(sx, full), first, second)


def check_isolated(sx, d, first, second):
    given = copy.deepcopy(d)
    editor = SpineAnimationEditor(given)
    twin = SpineAnimationEditor(copy.deepcopy(d))
    sx.check(sx.same(given, d), "loading modified the document passed in")
    op = sx.choice("first", first)
    do(sx, editor, op)
    do(sx, twin, op)
    sx.check(sx.same(given, d), "%s modified the document passed in" % op)
    out = editor.to_json_data()
    sx.observe("out", D.canon(out)["slots"])
    kept = copy.deepcopy(out)
    images = copy.deepcopy(editor.images_references)
    sx.check(sx.same(editor.to_json_data(), kept), "a second export differs")
    sx.check(sx.same(out, kept), "exporting modified an earlier export")
    # modify the input and the exported document
    spoil(given)
    same_state(sx, editor, kept, images, "the editor shares parts with its input")
    spoil(out)
    same_state(sx, editor, kept, images, "the editor shares parts with its export")
    # what happens later is not affected either
    op = sx.choice("second", second)
    do(sx, editor, op)
    do(sx, twin, op)
    sx.check(sx.same(editor.to_json_data(), twin.to_json_data()),
             "a modified document influences later operations")
    sx.check(sx.same(editor.images_references, twin.images_references),
             "a modified document influences the images")
    sx.reach("done")


def wide(sx, first, second):
    """Large documents"""
    d = W.wide(sx, n=5, anims=2, keys=3, ways=["set up", "keyed", "clip", "never"],
               skins=["default", "gone"])
    check_isolated(sx, d, first, second)


def reported(sx, ops):
    """The document that erasing animations returns"""
    d = some_document(sx, None)
    editor = SpineAnimationEditor(copy.deepcopy(d))
    names = ["gone"]
    result = editor.erase_animations(names, is_safe_mode=sx.flag("safe"))
    kept = copy.deepcopy(editor.to_json_data())
    images = copy.deepcopy(editor.images_references)
    sx.check(sx.same(result.result_data_json, kept), "not the exported document")
    spoil(result.result_data_json)
    names.append("anim")
    same_state(sx, editor, kept, images, "the editor shares parts with the returned document")
    sx.reach("done")


def apart(sx, ops, full):
    """Two editors made from one document"""
    d = some_document(sx, full)
    one, two = SpineAnimationEditor(d), SpineAnimationEditor(d)
    out = copy.deepcopy(two.to_json_data())
    images = copy.deepcopy(two.images_references)
    for i in range(2):
        do(sx, one, sx.choice("op%d" % i, ops if i == 0 or full else ops[:2]))
        same_state(sx, two, out, images, "an editor influences another one")
    fresh = SpineAnimationEditor(copy.deepcopy(d))
    same_state(sx, fresh, out, images, "an editor influences later ones")
    x = one.to_json_data()
    kept = copy.deepcopy(x)
    do(sx, two, "clean")
    sx.check(sx.same(one.to_json_data(), kept), "an editor influences another one")
    again = SpineAnimationEditor(x)
    do(sx, again, "clean")
    sx.check(sx.same(x, kept), "the document passed in was modified")
    sx.reach("done")


def cases(tier):
    deep = tier == "thorough"
    few = ["none", "clean", "erase skin", "scale"]
    return [
        Case("isolated", isolated, "an object of every kind with any value of any attribute "
             "(alone or with all others), two operations, every container of the input and the "
             "export modified between", must_reach=list(D.KINDS) + ["done"],
             first=OPS if deep else few, second=OPS if deep else ["clean"], full=deep),
        Case("operations", isolated, "the same with fixed values and all pairs of operations",
             must_reach=["done"], first=OPS, second=OPS if deep else few, full=None),
        Case("wide", wide, "large documents: 5 slots, 3 animations, 4 skins",
             must_reach=["done"], first=OPS if deep else ["none", "clean", "erase skin safe"],
             second=OPS if deep else ["clean"]),
        Case("reported", reported, "the document returned by erase_animations",
             must_reach=["done"], ops=None),
        Case("apart", apart, "two editors of one document, two operations on one of them",
             must_reach=["done"], ops=OPS, full=True if deep else None),
    ]
