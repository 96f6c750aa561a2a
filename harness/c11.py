"""C11: images_references always lists exactly the images in use."""
import copy

from harness import doc as D
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor

ASSUMPTIONS = ["names without scale tags (see C12)"]
IMAGE_KINDS = (None, "region", "mesh", "linkedmesh")


def expected(out):
    """The image references of an exported document"""
    folder = out["skeleton"].get("images", "./images/")
    refs = {}
    for skin in out.get("skins", []):
        for entries in skin.get("attachments", {}).values():
            for key, a in entries.items():
                if a.get("type") in IMAGE_KINDS:
                    image = a.get("path") or a.get("name") or key
                    if image.startswith("/"):
                        path = image
                    elif folder == "" or folder.endswith("/"):
                        path = folder + image
                    else:
                        path = folder + "/" + image
                    refs[image] = {"path": path}
    return refs


def check(sx, editor):
    refs = editor.images_references
    want = expected(editor.to_json_data())
    sx.observe("images", [[k, v] for k, v in refs.items()])
    sx.check(sx.same(refs, want), "image references differ from the images in use")
    sx.check(sx.same(editor.get_images_references(), want), "recomputed references differ")


def text(sx, tag, alphabet="xy/"):
    return sx.str(tag, sx.choice(tag + ".len", [1, 2]), alphabet)


def an_attachment(sx, tag, kinds, symbolic, full=False):
    kind = sx.choice(tag + ".kind", kinds)
    a = {} if kind is None else {"type": kind}
    if kind == "linkedmesh":
        a["parent"] = "m"
    if kind == "clipping":
        a["end"] = "s"
    if kind in IMAGE_KINDS:
        for attr in ("path", "name") if symbolic or tag == "a0" or full else ("path",):
            if sx.flag("%s.%s" % (tag, attr)):
                a[attr] = text(sx, "%s.%s text" % (tag, attr)) if symbolic else (
                    sx.choice("%s.%s text" % (tag, attr), ["x", "y"] if full else ["x"]))
    elif kind == "path" and sx.flag(tag + ".name"):
        a["name"] = "z"
    return a


def document(sx, kinds, symbolic):
    d = {
        "skeleton": D.skeleton(), "bones": [{"name": "root"}],
        "slots": [{"name": "s", "bone": "root"}, {"name": "t", "bone": "root"}],
        "skins": [{"name": "default", "attachments": {"s": {"m": W.mesh(path="base")}}},
                  {"name": "gone", "attachments": {}},
                  {"name": "other", "attachments": {}}],
        "animations": {"anim": {}, "gone": {}},
    }
    return d


def loaded(sx, kinds):
    """After loading: any kind, keys, names, paths, folder"""
    d = document(sx, kinds, True)
    folder = sx.choice("folder", ["absent", "plain", "symbolic"])
    if folder == "plain":
        d["skeleton"]["images"] = "./img/"
    elif folder == "symbolic":
        d["skeleton"]["images"] = sx.str("folder text", sx.choice("folder len", [0, 1, 2]), "i./")
    a = an_attachment(sx, "a", kinds, True)
    d["skins"][1]["attachments"] = {"t": {text(sx, "key"): a}}
    sx.reach(str(a.get("type")))
    check(sx, SpineAnimationEditor(d))


def pair(sx, full):
    """Two attachments with any paths and any images folder"""
    d = document(sx, None, True)
    d["skins"][0]["attachments"] = {}
    if sx.flag("folder"):
        d["skeleton"]["images"] = sx.str(
            "folder text", sx.choice("folder len", [0, 1, 2, 3][:4 if full else 3]), "x./")
    for i, slot in enumerate("st"):
        n = sx.choice("length%d" % i, [1, 2, 3, 4] if full else [1, 2, 3][i:])
        a = W.region(**{sx.choice("by%d" % i, ["path", "name"]) if full else "path":
                        sx.str("path%d" % i, n, "x./")})
        d["skins"][i]["attachments"] = {slot: {"k": a}}
    editor = SpineAnimationEditor(d)
    if len(editor.images_references) == 2:
        sx.reach("two images")
    else:
        sx.reach("one image")
    check(sx, editor)


def operated(sx, kinds, ops, full):
    """After each operation: two attachments in two slots and skins sharing names"""
    d = document(sx, kinds, False)
    keys = ["x", "k"]
    for i, (skin, slot) in enumerate(((1, "s"), (2, "t"))):
        a = an_attachment(sx, "a%d" % i, kinds, False, full)
        key = sx.choice("key%d" % i, keys)
        d["skins"][skin]["attachments"] = {slot: {key: a}}
        use = sx.choice("use%d" % i, ["setup", "keyed in gone", "never"])
        if use == "setup":
            d["slots"][i]["attachment"] = key
        elif use == "keyed in gone":
            d["animations"]["gone"].setdefault("slots", {})[slot] = {
                "attachment": [{"time": 0, "name": key}]}
    editor = SpineAnimationEditor(d)
    op = sx.choice("op", ops)
    before = dict(editor.images_references)
    if op == "erase skin safe":
        editor.erase_skins(["gone"], is_safe_mode=True)
    elif op == "erase animation safe":
        editor.erase_animations(["gone"], is_safe_mode=True)
    elif op == "scale":
        editor.scale_animation(2, 3)
    else:
        for o in op.split(","):
            W.operate(sx, editor, o)
    if set(before) != set(editor.images_references):
        sx.reach("changed")
    check(sx, editor)


def wide(sx, ops):
    """Many attachments"""
    editor = SpineAnimationEditor(W.wide(sx, n=5, anims=2, keys=2))
    op = sx.choice("op", ops)
    before = dict(editor.images_references)
    if op != "none":
        W.operate(sx, editor, op)
    if set(before) != set(editor.images_references):
        sx.reach("changed")
    check(sx, editor)


def cases(tier):
    deep = tier == "thorough"
    kinds = [None, "region", "mesh", "linkedmesh", "path", "point", "boundingbox", "clipping"]
    ops = ["clean", "erase animation", "erase skin", "erase skin safe",
           "erase animation safe", "scale"]
    few = kinds if deep else [None, "mesh", "point"]
    return [
        Case("loaded", loaded, "an attachment of any kind with any key, name and path of up "
             "to 2 characters, any images folder of up to 2 characters",
             must_reach=[str(k) for k in kinds], kinds=kinds),
        Case("pair", pair, "two attachments with any path of up to 3 (4) characters, any images "
             "folder of up to 2 (3)", must_reach=["one image", "two images"], full=deep),
        Case("operated", operated, "two attachments in two slots and skins that share keys, "
             "names and paths or not, one operation of each kind", must_reach=["changed"],
             kinds=few, ops=ops + (["erase animation,erase skin"] if deep else []),
             full=deep),
        Case("wide", wide, "many slots, animations, keyframes and skins; what the slot at any position "
             "shows depends on one key at any position of any animation",
             must_reach=["changed"], ops=["none", "clean", "erase animation", "erase skin"]),
    ]
