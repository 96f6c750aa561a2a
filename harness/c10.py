"""C10: Erasing skins removes exactly the named ones and keeps the others complete."""
import copy

from harness import doc as D
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor
from spine_json_lib.data.spine_exceptions import SpineJsonEditorError

ASSUMPTIONS = [
    "linked meshes refer to an existing mesh of their slot (as Spine exports them)",
    "reported images are compared as a set",
]
IMAGE_KINDS = (None, "region", "mesh", "linkedmesh")
GEOMETRY = ("uvs", "vertices", "triangles", "edges", "hull")
OWN = ("name", "path", "width", "height", "color")


def images(skins):
    out = set()
    for skin in skins:
        for entries in skin.get("attachments", {}).values():
            for key, a in entries.items():
                if a.get("type") in IMAGE_KINDS:
                    out.add(a.get("path") or a.get("name") or key)
    return out


def materialised(a, parent):
    """A linked mesh as an ordinary one"""
    out = {"type": "mesh"}
    for k in GEOMETRY:
        if k in parent:
            out[k] = parent[k]
    for k in OWN:
        if k in a:
            out[k] = a[k]
    return out


def expected(d, erased):
    skins = {s["name"]: s.get("attachments", {}) for s in d["skins"]}
    out = copy.deepcopy(d)
    out["skins"] = [s for s in out["skins"] if s["name"] not in erased]
    for skin in out["skins"]:
        for slot, entries in skin.get("attachments", {}).items():
            for key, a in entries.items():
                target = a.get("skin") or "default"
                if a.get("type") == "linkedmesh" and target in erased:
                    entries[key] = materialised(a, skins[target][slot][a["parent"]])
    for anim in out.get("animations", {}).values():
        for n in erased:
            anim.get("deform", {}).pop(n, None)
    W.forget(d, out)
    return out


def check(sx, d, erased, safe, editor, reported):
    out = editor.to_json_data()
    want = expected(d, erased)
    left = [s["name"] for s in d["skins"] if s["name"] not in erased]
    sx.observe("skins", [s["name"] for s in out.get("skins", [])])
    sx.observe("reported", sorted(set(reported)))
    sx.check(sx.same([s["name"] for s in out.get("skins", [])], left),
             "other skins than the named ones were erased")
    gone = images([s for s in d["skins"] if s["name"] in erased])
    sx.check(set(reported) == gone - images(want["skins"]), "reported images: %s" % reported)
    a, b = D.canon(want), D.canon(out)
    if safe:
        sx.reach("safe")
        for section in sorted(set(a) | set(b)):
            sx.check(sx.same(a.get(section), b.get(section)), "%s changed" % section)
        return
    slots = W.slot_names(out)
    names = W.attachment_names(out)
    for w, g in zip(a["skins"], b["skins"]):
        keep = {s: {k: v for k, v in e.items() if k in names}
                for s, e in w["attachments"].items() if s in slots}
        keep = {s: e for s, e in keep.items() if e}
        sx.check(sx.same(keep, g["attachments"]), "a remaining skin changed")
    for n, anim in want["animations"].items():
        deform = {skin: {s: {k: v for k, v in e.items() if k in names}
                         for s, e in by.items() if s in slots}
                  for skin, by in anim.get("deform", {}).items()}
        wd = D.canon_animation({"deform": deform})["deform"]
        gd = D.canon_animation(out["animations"][n])["deform"]
        sx.check(sx.same(wd, gd), "deform timelines changed")


def run_erase(sx, d, erased, safe):
    editor = SpineAnimationEditor(copy.deepcopy(d))
    argument = list(erased)
    _, reported = editor.erase_skins(argument, is_safe_mode=safe)
    sx.check(argument == list(erased), "the list passed in was modified")
    if erased:
        sx.reach("erased")
    check(sx, d, erased, safe, editor, reported)


def base(skins):
    return {
        "skeleton": D.skeleton(), "bones": [{"name": "root"}],
        "slots": [{"name": "s", "bone": "root", "attachment": "m"},
                  {"name": "t", "bone": "root", "attachment": "k"}],
        "skins": skins,
        "animations": {"anim": {"slots": {
            "s": {"attachment": [{"time": i, "name": n} for i, n in enumerate("mlnk")],
                  "color": [{"color": "ffffff80"}]},
            "t": {"attachment": [{"time": 1, "name": "k"}, {"time": 2, "name": "m"}]}}}},
    }


def links(sx, full):
    """A linked mesh in one skin, its parent mesh in another or the same"""
    skins = [{"name": n, "attachments": {}} for n in ("default", "x", "y")]
    by = {s["name"]: s["attachments"] for s in skins}
    where = sx.choice("linked in", ["default", "x", "y"])
    parent = sx.choice("parent skin", [None, "default", "x", "y"])
    home = parent or "default"
    mesh = {"type": "mesh", "uvs": [sx.float("uv"), 0.5], "triangles": [1, 2, 0],
            "vertices": [1, sx.float("vertex")], "width": 3, "height": 4}
    for k, v in (("hull", 6), ("edges", [0, 2]), ("color", "11223344"), ("path", "pm"),
                 ("name", "nm")):
        if sx.flag("mesh has " + k) if full or k in ("color", "path") else True:
            mesh[k] = v
    a = {"type": "linkedmesh", "parent": "m"}
    if parent:
        a["skin"] = parent
    for k, v in (("path", "pl"), ("name", "nl"), ("color", "55667788"), ("deform", False),
                 ("width", 7)):
        if (full or k != "deform") and sx.flag("linked has " + k):
            a[k] = v
    if "width" in a:
        a["height"] = sx.float("height")
    by[home].setdefault("s", {})["m"] = mesh
    by[where].setdefault("s", {})["l"] = a
    for n in ("x", "y"):
        by[n].setdefault("t", {})["k"] = W.region()
    d = base(skins)
    d["animations"]["anim"]["deform"] = {
        n: {"s": {("m" if n == home else "l"): [{"time": 1, "vertices": [2, 3]}]}}
        for n in sorted({home, where})}
    erased = [n for n in ("y", "x", "default") if sx.flag("erase " + n)]
    if where != home and sx.flag("other order"):
        skins.reverse()
    safe = sx.flag("safe")
    if home in erased and where not in erased:
        sx.reach("materialised")
    run_erase(sx, d, erased, safe)


def used_images(sx, n, kinds, full):
    """Images shared between skins through keys, names and paths"""
    skins = [{"name": "default", "attachments": {"s": {"m": W.mesh(path="base")}}}]
    for i in range(n):
        slots = {}
        kind = sx.choice("kind%d" % i, kinds)
        a = {"type": kind, "width": 1, "height": 2} if kind in IMAGE_KINDS else {"type": kind}
        if kind is None:
            del a["type"]
        if kind == "mesh":
            a = W.mesh()
        if kind == "linkedmesh":
            a["parent"] = "m"
        if kind == "clipping":
            a["end"] = "s"
        if kind in IMAGE_KINDS:
            for attr in ("path", "name"):
                if sx.flag("%s%d" % (attr, i)):
                    a[attr] = sx.str("%s%d text" % (attr, i), 1, "pqk")
        key = sx.choice("key%d" % i, ["k", "q"])
        slots[sx.choice("slot%d" % i, ["s", "t"]) if full else "st"[i % 2]] = {key: a}
        skins.append({"name": "x%d" % i, "attachments": slots})
    d = base(skins)
    del d["slots"][1]["attachment"]
    d["slots"][0]["attachment"] = "m"
    d["animations"]["anim"] = {}
    erased = [s["name"] for s in skins[1:] if sx.flag("erase " + s["name"])]
    run_erase(sx, d, erased, True if not full else sx.flag("safe"))


def names(sx, n, m, lengths):
    """Any names of skins, any list of names"""
    skins = [sx.str("skin%d" % i, sx.choice("len%d" % i, lengths), "abD") for i in range(n)]
    for i in range(n):
        for j in range(i):
            sx.assume(skins[i] != skins[j])
    d = base([{"name": "default", "attachments": {"s": {"m": W.mesh()}}}] + [
        {"name": x, "attachments": {"t": {"k": W.region(path="p%d" % i)}}}
        for i, x in enumerate(skins)])
    wanted = [sx.str("erase%d" % i, sx.choice("elen%d" % i, lengths), "abD")
              for i in range(sx.choice("how many", list(range(m + 1))))]
    check_names(sx, d, skins, wanted)


def long_list(sx, n):
    """Many skins, long lists with one unknown or repeated name at any position"""
    skins = ["skin%d" % i for i in range(n)]
    d = base([{"name": "default", "attachments": {"s": {"m": W.mesh()}}}] + [
        {"name": x, "attachments": {"t": {"k": W.region(path="p%d" % (i // 2))}}}
        for i, x in enumerate(skins)])
    wanted = list(skins)
    if sx.flag("some stay"):
        del wanted[sx.choice("stays", [0, n // 2, n - 1])]
    if sx.flag("reversed"):
        wanted.reverse()
    kind = sx.choice("extra", ["none", "unknown", "repeated"])
    if kind != "none":
        wanted.insert(sx.choice("at", list(range(len(wanted) + 1))),
                      "nobody" if kind == "unknown" else wanted[0])
    check_names(sx, d, skins, wanted)


def check_names(sx, d, skins, wanted):
    safe = sx.flag("safe")
    editor = SpineAnimationEditor(copy.deepcopy(d))
    before = editor.to_json_data()
    refs = copy.deepcopy(editor.images_references)
    known = sx.all([sx.any([w == x for x in skins]) for w in wanted])
    try:
        _, reported = editor.erase_skins(list(wanted), is_safe_mode=safe)
    except SpineJsonEditorError:
        sx.reach("refused")
        sx.check(sx.no(known), "a known skin is refused")
        after = editor.to_json_data()
        sx.check(sx.same(after, before), "a refused call changed the document")
        sx.check(sx.same(editor.images_references, refs), "images changed")
        return
    sx.check(known, "an unknown skin is not reported")
    erased = [x for x in skins if any(x == w for w in wanted)]
    if erased:
        sx.reach("erased")
    check(sx, d, erased, safe, editor, reported)


def any_names(sx, kind, lengths, choices):
    """Any names in one section of a document with every kind of reference"""
    n = W.symbolic_names(sx, kind, lengths)
    d = W.named(sx, n, links=True)
    d["animations"].pop(n["animations"]["gone"])
    erased = sx.choice("erase", choices)
    run_erase(sx, d, [n["skins"][e] for e in erased], sx.flag("safe"))


def wide(sx, n):
    """Many skins and slots, any of the skins erased in any order"""
    d = W.wide(sx, n=n, anims=2, keys=2, ways=["set up", "keyed", "never"])
    skins = [s["name"] for s in d["skins"]]
    for i, s in enumerate(d["skins"]):
        for slot in ("s1", "s3"):
            if i:
                s["attachments"].setdefault(slot, {})["l%d" % i] = linked_in(d, slot, i)
    erased = sx.subset("erase", skins)
    if sx.flag("reversed"):
        erased = erased[::-1]
    run_erase(sx, d, erased, sx.flag("safe"))


def linked_in(d, slot, i):
    """A linked mesh whose parent mesh is in the default skin or skin k2"""
    where = ["default", "k2"][i % 2]
    parent = "a" + slot[1:]
    if parent not in d["skins"][2 if i % 2 else 0]["attachments"].get(slot, {}):
        return W.region(path="pic%d" % i)
    return W.linked(parent, skin=where, path="pic%d" % (i % 3))


def cases(tier):
    deep = tier == "thorough"
    kinds = [None, "mesh", "point"]
    if deep:
        kinds += ["region", "linkedmesh", "path", "clipping", "boundingbox"]
    return [
        Case("links", links, "a linked mesh with any of its attributes in any of 3 skins, "
             "parent mesh in any of them, any subset of the skins erased, safe or not",
             must_reach=["materialised", "erased", "safe"], full=deep),
        Case("images", used_images, "2 skins with attachments of any kind, keys, names and "
             "paths shared or not", must_reach=["erased"], n=2, kinds=kinds, full=deep),
        Case("names", names, "2 (3) skins with any names, up to 2 (3) names to erase",
             must_reach=["refused", "erased", "safe"], n=3 if deep else 2,
             m=3 if deep else 2, lengths=[1] if deep else [1, 2]),
        Case("long list", long_list, "12 (24) skins, lists of 11 to 13 (25) names, an unknown "
             "or repeated name at any position", must_reach=["refused", "erased", "safe"],
             n=24 if deep else 12),
        Case("wide", wide, "5 (6) slots and 4 skins with meshes and linked meshes, any subset "
             "of the skins erased in two orders, safe or not", must_reach=["erased", "safe"],
             n=6 if deep else 4),
    ] + [
        Case("names of " + k, any_names, "a document with every kind of reference, the names "
             "of its %s any distinct texts of up to 2 (3) characters out of 6" % k,
             must_reach=["erased", "safe"], kind=k, lengths=[1, 2, 3] if deep else [1, 2],
             choices=[["gone"], ["other", "gone"], ["other"], ["default", "gone"]][
                 :4 if deep or k != "attachments" else 1])
        for k in ("skins", "slots", "attachments")
    ]
