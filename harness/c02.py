"""C02: Content the library does not understand is refused, never dropped."""
import copy

from harness import doc as D
from symx.api import Case

from spine_json_lib import SpineAnimationEditor
from spine_json_lib.data.spine_exceptions import SpineParsingException

ASSUMPTIONS = [
    "the unknown attribute's name is any text of 0..15 characters: quick letters, '_', '-', "
    "'.', ' ' and 1, thorough any printable ASCII character, an accented letter, a line "
    "break; its value any number above 5, null, 0, '', [] or {}, in objects that "
    "hold other objects a non-empty object or list",
]
NAMES = D.LETTERS + D.LETTERS.upper() + "_-. 1"

# places that hold other objects instead of plain attributes
CONTAINERS = {
    "document": ["skeleton", "bones", "slots", "skins", "events", "ik", "transform",
                 "path", "animations"],
    "animation": ["bones", "slots", "ik", "transform", "deform", "path", "events",
                  "drawOrder"],
    "bone timelines": ["rotate", "translate", "scale", "shear"],
    "slot timelines": ["attachment", "color", "twoColor"],
    "skin": ["name", "attachments"],
    "offset": ["slot", "offset"],
}


def place(where, key, val, full=False):
    """-> (document, attributes documented at that place)"""
    if where in D.KINDS:
        obj = {a: D.sample(where, a) for a in D.attributes(where)} if full else {}
        obj[key] = val
        return D.embed(where, obj), list(D.KINDS[where])
    d = D.base()
    if where == "document":
        d[key] = [{"name": "x", "v": val}]
    elif where == "animation":
        d["animations"]["anim"] = {key: {"b1": {"x": [{"time": val}]}}}
    elif where == "bone timelines":
        d["animations"]["anim"] = {"bones": {"b1": {key: [{"time": val}]}}}
    elif where == "slot timelines":
        d["animations"]["anim"] = {"slots": {"s1": {key: [{"time": val}]}}}
    elif where == "skin":
        d["skins"].append({"name": "other", key: [val]})
    else:
        d["animations"]["anim"] = {
            "drawOrder": [{"offsets": [{"slot": "s1", "offset": 1, key: val}]}]
        }
    return d, CONTAINERS[where]


def unknown_case(sx, where, letters, both):
    n = sx.choice("length", list(range(0, 16)))
    key = sx.str("key", n, letters)
    val = sx.float("value", 5.5)
    empty = where in D.KINDS and n % 4 == 1
    if empty:
        val = sx.choice("empty", [None, "", [], {}, 0])
    for known in place(where, "zz", val)[1]:
        sx.assume(key != known)
    full = sx.flag("full") if both else n % 2 == 0
    document, _ = place(where, key, val, full)
    before = copy.deepcopy(document)
    try:
        editor = SpineAnimationEditor(document)
    except SpineParsingException:
        sx.reach("refused")
        sx.check(True, "refused")
        return
    if empty:
        # supported, whatever its value
        try:
            SpineAnimationEditor(place(where, key, 5.5, full)[0])
        except SpineParsingException:
            sx.check(False, "an attribute that is not supported is accepted if it is empty")
        return
    out = editor.to_json_data()
    sx.check(sx.same(D.canon(before), D.canon(out)),
             "an attribute that is not supported got lost on loading")


def required_case(sx):
    what = sx.choice("what", ["bone name", "slot name", "slot bone", "offset"])
    d = D.base()
    last = sx.flag("last")
    at = 2 if last else 1
    # the other attributes: none, some or all of them, with any value for one
    others = sx.choice("others", ["none", "required", "one", "all"])
    kind = {"offset": "offset"}.get(what, what.split()[0])
    known = {
        "bone": {"name": "b9", "parent": "root", "x": 2, "transform": "noScale",
                 "color": "11223344", "length": 3},
        "slot": {"name": "s9", "bone": "b1", "color": "ffffff00", "dark": "123456",
                 "attachment": "a1", "blend": "additive"},
        "offset": {"slot": "s2", "offset": -1},
    }[kind]
    missing = what.split()[-1]
    required = {"bone": ["name"], "slot": ["name", "bone"], "offset": ["offset"]}[kind]
    obj = {}
    if others == "required":
        obj = {k: known[k] for k in required if k != missing}
    elif others == "one":
        k = sx.choice("which", [k for k in sorted(known) if k != missing])
        obj = {k: sx.float("x") if isinstance(known[k], int) else known[k]}
    elif others == "all":
        obj = {k: known[k] for k in known if k != missing}
    if kind == "bone":
        d["bones"].insert(at, obj)
    elif kind == "slot":
        d["slots"].insert(at, obj)
    else:
        offs = [{"slot": "s1", "offset": 1}]
        if sx.flag("alone"):
            offs = []
        offs.insert(1 if last else 0, obj)
        d["animations"]["anim"] = {"drawOrder": [{"time": sx.float("t"), "offsets": offs}]}
    sx.observe("object", obj)
    try:
        SpineAnimationEditor(d)
        failed = False
    except SpineParsingException:
        failed = True
    sx.check(failed, "an object without its required attribute is accepted: " + what)
    sx.reach(what)


def type_case(sx):
    n = sx.choice("length", [0, 3, 4, 5, 6, 7, 8, 10, 11])
    t = sx.str("type", n, D.LETTERS)
    known = sx.any([t == k for k in ("region", "mesh", "linkedmesh", "path", "point",
                                     "clipping", "boundingbox")])
    d = D.base()
    att = {"type": t}
    if t == "linkedmesh":
        att["parent"] = "m0"
    if t == "clipping":
        att["end"] = "s2"
    att["color"] = sx.str("color", 8, D.HEX)
    d["skins"][0]["attachments"]["s1"]["x1"] = att
    before = copy.deepcopy(d)
    try:
        editor = SpineAnimationEditor(d)
    except ValueError:
        sx.check(sx.no(known), "a documented attachment type is refused")
        sx.reach("refused")
        return
    sx.check(known, "an attachment of unknown type is accepted")
    sx.check(sx.same(D.canon(before), D.canon(editor.to_json_data())), "changed")
    sx.reach("accepted")


def cases(tier):
    letters = NAMES
    if tier == "thorough":
        letters = "".join(chr(c) for c in range(0x20, 0x7f)) + "\u00e9\n"
    out = [
        Case("unknown:" + w, unknown_case,
             "one attribute with any name of 0..15 characters at: " + w,
             must_reach=["refused"], where=w, letters=letters,
             both=tier == "thorough")
        for w in list(D.KINDS) + list(CONTAINERS)
    ]
    out.append(Case("required", required_case, "each required attribute missing",
                    must_reach=["bone name", "slot name", "slot bone", "offset"]))
    out.append(Case("type", type_case, "attachment types of up to 11 letters",
                    must_reach=["refused", "accepted"]))
    return out
