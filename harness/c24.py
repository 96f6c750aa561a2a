"""C24: downgrading drops exactly the attributes old versions do not know."""
import copy

from harness import doc as D
from symx.api import Case

from spine_json_lib import SpineAnimationEditor
from spine_json_lib.data.spine_version_type import SpineVersion

ASSUMPTIONS = ["documents of Spine 3.8 or later; target versions with components of 1 or 2 "
               "digits"]
OLD = ("rotate", "translate", "scale", "shear", "slotcolor", "slottwocolor", "ikframe")
UNKNOWN = ("c2", "c3", "c4")


def version(sx, short):
    """-> (text, is it below 3.8)"""
    lens = [1, sx.choice("minor digits", [1, 2])]
    patch = sx.choice("patch digits", [0, 2] if short else [0, 1, 2])
    if patch:
        lens.append(patch)
    parts = [sx.str("v%d" % i, n, "0123456789") for i, n in enumerate(lens)]
    major, minor = int(parts[0]), int(parts[1])
    old = sx.any([sx.any([major < 3]), sx.all([sx.same(major, 3), sx.any([minor < 8])])])
    return ".".join(parts), old


def downgraded(d):
    """What a version below 3.8 is given"""
    out = copy.deepcopy(d)
    for anim in out.get("animations", {}).values():
        lists = [f for tls in list(anim.get("bones", {}).values())
                 + list(anim.get("slots", {}).values()) for f in tls.values()]
        lists += list(anim.get("ik", {}).values())
        for frames in lists:
            for f in frames:
                for k in UNKNOWN:
                    f.pop(k, None)
    return out


def clean(sx, d, text, old):
    editor = SpineAnimationEditor(copy.deepcopy(d))
    images = copy.deepcopy(editor.images_references)
    editor.spine_anim_data.data.clean_unsupported_attributes(SpineVersion(text))
    out = editor.to_json_data()
    is_old = True if old is True else False if old is False else bool(old)
    want = downgraded(d) if is_old else d
    sx.reach("old" if is_old else "new")
    sx.observe("out", D.canon(out)["animations"])
    sx.check(sx.same(D.canon(want), D.canon(out)),
             "not what a version %s 3.8 is given" % ("below" if is_old else "from"))
    sx.check(sx.same(editor.images_references, images), "the images changed")
    editor.spine_anim_data.data.clean_unsupported_attributes(SpineVersion(text))
    sx.check(sx.same(D.canon(want), D.canon(editor.to_json_data())), "cleaning again changes more")


def values(sx, full):
    """Any value of any attribute of any kind of object"""
    kind = sx.choice("kind", list(D.KINDS))
    attrs = D.attributes(kind)
    attr = sx.choice("attribute", attrs)
    obj = {a: D.sample(kind, a) for a in attrs} if not full or sx.flag("others") else {}
    obj[attr] = D.value(sx, "value", D.KINDS[kind][attr][0])
    sx.reach(kind)
    text = sx.choice("version", ["3.7.99", "3.8"])
    clean(sx, D.embed(kind, obj), text, text == "3.7.99")


def many(sx, n):
    """Many keyframes, bones and animations; the control points anywhere"""
    text = sx.choice("version", ["3.7.99", "3.8"])
    d = timelines(n)
    at = sx.choice("keyframe", list(range(n)))
    points = sx.choice("control points", [["c2"], ["c3", "c4"], ["c2", "c3", "c4"], []])
    everywhere = sx.flag("in all but one")
    where = sx.choice("animation", list(d["animations"]) + ["all"])
    for name, anim in d["animations"].items():
        for kind in ("bones", "slots", "ik", "transform", "path", "deform"):
            for frames in lists(anim[kind]):
                for k, f in enumerate(frames):
                    keep = (k == at) != everywhere and where in ("all", name)
                    for c in UNKNOWN:
                        if c in f and not (keep and c in points):
                            del f[c]
    clean(sx, d, text, text == "3.7.99")


def lists(x):
    if isinstance(x, list):
        return [x]
    return [f for v in x.values() for f in lists(v)]


def everything(sx, n, short):
    """All timelines at once, any target version"""
    text, old = version(sx, short)
    d = timelines(n)
    c = sx.float("c")
    where = sx.choice("any value in", ["bones", "slots", "ik", "transform", "deform"])
    one = d["animations"]["one"]
    frame = {"bones": lambda: one["bones"]["b1"]["shear"][0],
             "slots": lambda: one["slots"]["s2"]["twoColor"][0],
             "ik": lambda: one["ik"]["k1"][0],
             "transform": lambda: one["transform"]["t1"][0],
             "deform": lambda: one["deform"]["default"]["s1"]["a1"][0]}[where]()
    frame[sx.choice("attribute", ["c2", "c3", "c4", "curve"])] = c
    clean(sx, d, text, old)


def timelines(n):
    d = D.base()
    d["ik"] = [{"name": "k1", "bones": ["b1"], "target": "root"}]
    d["transform"] = [{"name": "t1", "bones": ["b1"], "target": "root"}]
    d["path"] = [{"name": "p1", "bones": ["b1"], "target": "s1"}]

    def frames(kind):
        return [dict({a: D.sample(kind, a) for a in D.attributes(kind)}, time=i)
                for i in range(n)]

    for i, a in enumerate(("one", "two")):
        d["animations"][a] = {
            "bones": {b: {k: frames(k) for k in ("rotate", "translate", "scale", "shear")}
                      for b in ("root", "b1")},
            "slots": {"s1": {"color": frames("slotcolor"),
                             "attachment": frames("slotattachment")},
                      "s2": {"twoColor": frames("slottwocolor")}},
            "ik": {"k1": frames("ikframe")},
            "transform": {"t1": frames("transformframe")},
            "path": {"p1": {k[4:]: frames(k)
                            for k in ("pathposition", "pathspacing", "pathmix")}},
            "deform": {"default": {"s1": {"a1": frames("deform")}}},
            "drawOrder": frames("draworder"),
            "events": [dict(f, name="e1") for f in frames("eventframe")],
        }
    return d


def cases(tier):
    deep = tier == "thorough"
    return [
        Case("values", values, "one object of every kind, any value of any attribute, others "
             "present (or absent), a version below and one from 3.8",
             must_reach=list(D.KINDS) + ["old", "new"], full=deep),
        Case("everything", everything, "every timeline kind at once, any target version of up "
             "to 2 digits per component, any value of a control point",
             must_reach=["old", "new"], n=2 if deep else 1, short=not deep),
        Case("many", many, "4 (7) keyframes in every timeline of two animations, any control "
             "points at or everywhere but at any one of them", must_reach=["old", "new"],
             n=7 if deep else 4),
    ]
