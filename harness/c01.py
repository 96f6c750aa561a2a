"""C01: Loading and saving a Spine 3.8+ document keeps its meaning."""
import copy

from harness import doc as D
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor

ASSUMPTIONS = [
    "documents of Spine 3.8 or later with one object of the kind under test in a small "
    "valid skeleton; numbers are finite doubles, texts have 1..8 characters",
    "Spine's defaults as tabulated in harness/doc.py from the documented 3.8 format",
]


def roundtrip(sx, document):
    before = copy.deepcopy(document)
    editor = SpineAnimationEditor(document)
    out = editor.to_json_data()
    sx.check(sx.same(D.canon(before), D.canon(out)), "the exported document differs")
    return out


def pair_case(sx, kind):
    attrs = D.attributes(kind)
    full = sx.flag("others present")
    i = sx.choice("first", list(range(len(attrs))))
    j = sx.choice("second", list(range(i, len(attrs))))
    obj = {}
    for n, attr in enumerate(attrs):
        if n == i or n == j:
            if sx.flag("has " + attr):
                obj[attr] = D.value(sx, attr, D.KINDS[kind][attr][0])
                sx.reach("present")
            else:
                sx.reach("absent")
        elif full:
            obj[attr] = D.sample(kind, attr)
    out = roundtrip(sx, D.embed(kind, obj))
    sx.observe("out", D.canon(out))


def order_case(sx, n):
    """Lists keep their order whatever the names are."""
    names = [sx.str("n%d" % i, 1, "abcdeAB1_") for i in range(n)]
    for i in range(n):
        for j in range(i):
            sx.assume(names[i] != names[j])
    what = sx.choice("what", ["bones", "slots", "ik", "transform", "path", "skins",
                              "events", "animations", "attachments"])
    d = D.base(sx.choice("version", ["3.8.99", "3.8", "3.8.0", "4.0", "3.10.1"]))
    if what == "bones":
        d["bones"] = [{"name": "root"}, {"name": "b1", "parent": "root"}] + [
            {"name": x, "parent": "b1", "x": 1} for x in names]
    elif what == "slots":
        d["slots"] += [{"name": x, "bone": "b1"} for x in names]
    elif what in ("ik", "transform", "path"):
        target = "s1" if what == "path" else "root"
        d[what] = [{"name": x, "bones": ["b1"], "target": target, "order": n - i}
                   for i, x in enumerate(names)]
    elif what == "skins":
        d["skins"] += [{"name": x, "attachments": {}} for x in names]
    elif what == "events":
        d["events"] = {x: {"int": i} for i, x in enumerate(names)}
    elif what == "animations":
        d["animations"] = {x: {} for x in names}
    else:
        d["skins"][0]["attachments"]["s1"] = {x: {"x": 1} for x in names}
    sx.reach(what)
    roundtrip(sx, d)


def frames_case(sx):
    """Several keyframes of one timeline keep their order, also at equal times."""
    kind = sx.choice("kind", ["rotate", "translate", "scale", "shear", "slotattachment",
                              "slotcolor", "slottwocolor", "ikframe", "transformframe",
                              "pathposition", "pathspacing", "pathmix", "deform",
                              "eventframe", "draworder"])
    d = D.embed(kind, {"time": sx.float("t0", 0, 100)})

    def extend(o):
        if isinstance(o, list) and o and isinstance(o[0], dict) and "time" in o[0]:
            o.append(dict(o[0], time=sx.float("t1", 0, 100)))
            return
        for v in o.values() if isinstance(o, dict) else []:
            extend(v)

    extend(d["animations"])
    sx.reach(kind)
    roundtrip(sx, d)


def version_case(sx):
    a = sx.str("major", 1, "3456789")
    b = sx.str("minor", sx.choice("minor digits", [1, 2]), "0123456789")
    v = a + "." + b
    if sx.flag("patch"):
        v = v + "." + sx.str("patch digits", 2, "0123456789")
    sx.assume(sx.any([a != "3", int(b) >= 8]))
    d = D.embed("scale", {"x": sx.float("x"), "c2": sx.float("c2")}, v)
    sx.reach("version")
    roundtrip(sx, d)


def sections_case(sx):
    """Absent and empty sections"""
    d = D.base()
    for s in ("events", "animations"):
        if sx.flag("no " + s):
            del d[s]
    for s in ("ik", "transform", "path"):
        if sx.flag("empty " + s):
            d[s] = []
    if sx.flag("skin without attachments"):
        d["skins"].append({"name": "bare"})
    if sx.flag("empty slot entry"):
        d["skins"][0]["attachments"]["s2"] = {}
    if sx.flag("empty animation"):
        d.setdefault("animations", {})["empty"] = {}
    if sx.flag("extra skeleton data"):
        d["skeleton"]["images"] = sx.str("images", 2, "./a")
        d["skeleton"]["x"] = sx.float("sx")
    sx.reach("sections")
    roundtrip(sx, d)


def wide_case(sx):
    """Large documents"""
    d = W.wide(sx, skins=["k2"])
    for n in ("transform", "ik"):
        d[n] = [dict(c, order=i, x=3) if n == "transform" else c
                for i, c in enumerate(d["ik"])]
    sx.reach("wide")
    out = roundtrip(sx, d)
    sx.observe("slots", W.slot_names(out))


def cases(tier):
    out = []
    for kind in D.KINDS:
        out.append(
            Case("pair:" + kind, pair_case,
                 "one %s; any two of its attributes present/absent with any value, the "
                 "others absent or present" % kind,
                 must_reach=["present", "absent"], kind=kind))
    out.append(Case("order", order_case, "3 objects with any distinct one-letter names",
                    must_reach=["bones", "slots", "ik", "skins", "events", "animations"],
                    n=3 if tier == "thorough" else 2))
    out.append(Case("frames", frames_case, "2 keyframes with any times",
                    must_reach=["rotate", "draworder"]))
    out.append(Case("version", version_case, "versions 3.8 .. 9.99.99",
                    must_reach=["version"]))
    out.append(Case("sections", sections_case, "absent/empty sections",
                    must_reach=["sections"]))
    out.append(Case("wide", wide_case, "large documents: 6 slots and bones, 5 animations, 4 "
                    "skins, 4 keyframes per timeline", must_reach=["wide"]))
    return out
