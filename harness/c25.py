"""C25: an editor has no hidden state."""
import copy

from harness import doc as D
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor
from spine_json_lib.data.spine_exceptions import SpineJsonEditorError

ASSUMPTIONS = ["sequences of operations on one editor without scale tags in names"]


def do(sx, editor, op):
    """-> what the operation reports"""
    try:
        if op == "none":
            return None
        if op == "clean":
            slots, attachments = editor.clean_animation()
            return ["clean", sorted(slots), sorted(attachments)]
        if op == "scale":
            editor.scale_animation(2, -0.5)
            return None
        kind, name, mode = op
        safe = mode == "safe"
        if kind == "animation":
            r = editor.erase_animations([name], strict_mode=mode == "strict", is_safe_mode=safe)
            return ["erased", sorted(r.result_summary[0]), sorted(r.result_summary[1])]
        removed, images = editor.erase_skins([name], is_safe_mode=safe)
        return ["erased", sorted(removed[0]), sorted(removed[1]), sorted(images)]
    except (ValueError, TypeError, SpineJsonEditorError) as e:
        sx.reach("refused")
        return ["error", type(e).__name__, str(e)]


OPS = [
    "clean", "scale", ("animation", "gone", "strict"), ("animation", "gone", "safe"),
    ("skin", "gone", ""), ("skin", "gone", "safe"),
    ("animation", "anim0", "strict"), ("skin", "second", ""),
]
SAFE_FIRST = ["none", "scale", ("animation", "gone", "safe"), ("skin", "gone", "safe")]


def alike(sx, a, b, message):
    x, y = a.to_json_data(), b.to_json_data()
    sx.check(sx.same(D.canon(x), D.canon(y)), message + ": documents differ")
    sx.check(sx.same(a.images_references, b.images_references),
             message + ": image references differ")


def small(sx, full):
    """One slot with everything that clean-ups look at, another that shares names"""
    names = ["a", "b"]
    s = {"name": "s", "bone": "root"}
    r = {"name": "r", "bone": "root", "attachment": "q"}
    a = sx.choice("s.attachment", [None] + names)
    if a is not None:
        s["attachment"] = a
    color = sx.choice("s.color", [None, "ffffff00"] + ["ffffff80"] * full)
    if color is not None:
        s["color"] = color
    kind = sx.choice("a kind", ["mesh"] + ["region"] * full)
    d = {
        "skeleton": D.skeleton(),
        "bones": [{"name": "root"}, {"name": "b", "parent": "root", "transform": "noScale"}],
        "slots": [s, r],
        "skins": [
            {"name": "default", "attachments": {"s": {"a": getattr(W, kind)()},
                                                "r": {"q": W.region()}}},
            {"name": "second", "attachments": {"s": {"b": W.region()}}},
            {"name": "gone", "attachments": {"s": {"b": W.region(x=1), "q": W.region(path="i")}}},
        ],
        "ik": [{"name": "k", "bones": ["b"], "target": "root"}],
        "animations": {},
    }
    for n in ("anim0", "gone"):
        anim = d["animations"][n] = {}
        key = sx.choice(n + ".key", ["-", None] + names if full else
                        ["-", None, "b"] if n == "anim0" else ["-", "b"])
        tl = {}
        if key != "-":
            tl["attachment"] = [{"time": 1, "name": key}]
        if (full or n == "anim0") and sx.flag(n + ".color"):
            tl["color"] = [{"time": 0, "color": "ffffff88"}]
        if tl:
            anim["slots"] = {"s": tl}
    anim0 = d["animations"]["anim0"]
    if not full or sx.flag("draw order"):
        anim0["drawOrder"] = [{"time": 1, "offsets": [{"slot": "s", "offset": 1}]}]
        anim0["deform"] = {"default": {"s": {"a": [{"time": 0, "offset": 1}]}}}
    return d


def two(sx, full):
    """Two slots that share attachment names"""
    d = W.two_slots(sx, kinds=("region", "mesh") if full else ("region",), ref=full,
                    second_skin=True, full=False)
    d["animations"]["gone"] = {"slots": {"s": {"attachment": [{"time": 0, "name": "a"}]}}}
    d["skins"][2]["attachments"] = {"s": {"a": W.region(path="i")}}
    return d


def linked(sx, full):
    """Linked meshes whose parents are in other skins"""
    d = D.base()
    att = d["skins"][0]["attachments"]["s1"]
    att["m"] = W.mesh(path="mp")
    where = sx.choice("parent skin", ["default", "gone", "second"])
    gone = {"name": "gone", "attachments": {"s1": {"m": W.mesh(name="mn")}}}
    second = {"name": "second", "attachments": {"s1": {"m": W.mesh()}}}
    kw = {}
    if where != "default" or sx.flag("named"):
        kw["skin"] = where
    if full and sx.flag("linked color"):
        kw["color"] = "ff0000ff"
    if full and sx.flag("linked path"):
        kw["path"] = "lp"
    user = {"name": "user", "attachments": {"s1": {"l": W.linked("m", **kw)}}}
    d["skins"] += [gone, second, user]
    use = sx.choice("setup", ["a1", "m", "l"])
    d["slots"][0]["attachment"] = use
    key = sx.choice("key", ["-", "l", "m"])
    d["animations"] = {"anim0": {}, "gone": {}}
    if key != "-":
        d["animations"]["anim0"]["slots"] = {"s1": {"attachment": [{"time": 0, "name": key}]}}
    return d


def wide(sx, full):
    """Many slots, animations, keyframes and skins"""
    d = W.wide(sx, n=6 if full else 4, anims=2, keys=2, ways=W.WAYS if full else (
        "set up", "keyed", "never"))
    for s in d["skins"]:
        if s["name"] == "k2":
            s["name"] = "second"
    for a in d["animations"].values():
        if "deform" in a and "k2" in a["deform"]:
            a["deform"]["second"] = a["deform"].pop("k2")
    return d


DOCS = {"wide": wide, "small": small, "two": two, "linked": linked}


def reload(sx, doc, full, first, second):
    d = DOCS[doc](sx, full)
    e = SpineAnimationEditor(copy.deepcopy(d))
    for i in range(len(first)):
        op = sx.choice("first %d" % i, first[i])
        do(sx, e, op)
    out = e.to_json_data()
    f = SpineAnimationEditor(copy.deepcopy(out))
    sx.reach("loaded again")
    alike(sx, e, f, "right after loading")
    for i in range(len(second)):
        op = sx.choice("second %d" % i, second[i])
        x, y = do(sx, e, op), do(sx, f, op)
        sx.observe("result", x)
        sx.check(sx.same(x, y), "the results of an operation differ")
        alike(sx, e, f, "after the same operation")


def twice(sx, doc, full):
    """Cleaning twice, erasing apart or together"""
    d = DOCS[doc](sx, full)
    e = SpineAnimationEditor(copy.deepcopy(d))
    f = SpineAnimationEditor(copy.deepcopy(d))
    whats = ["clean", "safe animation", "safe skin", "animations", "skins"]
    what = sx.choice("what", whats[:5 if full or doc != "two" else 3])
    if what == "clean":
        e.clean_animation()
        f.clean_animation()
        f.clean_animation()
    elif what == "safe animation":
        e.erase_animations(["gone"])
        f.erase_animations(["gone"], is_safe_mode=True)
        f.clean_animation()
    elif what == "safe skin":
        e.erase_skins(["gone"])
        f.erase_skins(["gone"], is_safe_mode=True)
        f.clean_animation()
    elif what == "animations":
        e.erase_animations(["gone", "anim0"])
        f.erase_animations(["gone"])
        f.erase_animations(["anim0"])
    else:
        e.erase_skins(["gone", "second"], is_safe_mode=True)
        order = sx.choice("order", [["gone", "second"], ["second", "gone"]])
        for s in order:
            f.erase_skins([s], is_safe_mode=True)
    sx.reach(what)
    sx.observe("slots", [s["name"] for s in e.to_json_data().get("slots", [])])
    alike(sx, e, f, "one or two steps (%s)" % what)


SOME = ["clean", ("animation", "gone", "strict"), ("skin", "gone", "")]


def cases(tier):
    deep = tier == "thorough"
    text = {
        "small": "one slot with any set-up attachment and colour, attachment and colour keys in "
                 "two animations, attachments in three skins, draw order and deform keys",
        "two": "two slots that share attachment names and skins",
        "wide": "4 (6) slots, 3 animations, 4 skins",
        "linked": "a linked mesh with its parent in any skin",
    }
    out = []
    for doc in ("small", "two", "linked", "wide"):
        ops = SOME if doc in ("two", "wide") else OPS
        out.append(Case("reload, " + doc, reload, text[doc] + "; one operation, loading of the "
                        "export, another operation on both editors", must_reach=["loaded again"],
                        doc=doc, full=deep, first=[ops],
                        second=[ops if deep or doc not in ("two", "wide") else SOME[:1]]))
        out.append(Case("twice, " + doc, twice, text[doc] + "; cleaning twice or once, erasing "
                        "apart or together", must_reach=["clean"], doc=doc, full=deep))
    out.append(Case("three steps", reload, text["small"] + "; two operations, loading of the "
                    "export, another operation on both", must_reach=["loaded again"],
                    doc="small", full=False,
                    first=[OPS, OPS] if deep else [SAFE_FIRST[1:], SOME],
                    second=[OPS if deep else SOME]))
    return out
