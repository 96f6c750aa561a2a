"""Spine 3.8 documents: builders and an independent table of Spine's defaults.

The table is written from Spine's JSON export format documentation (3.8), not from the
library; attributes documented without a default keep None ("absent").
"""
import copy

HEX = "0123456789abcdefABCDEF"
LETTERS = "abcdefghijklmnopqrstuvwxyz"

# kind -> {attribute: (type, default)}
CURVE = {"curve": ("curve", "linear"), "c2": ("num", 0), "c3": ("num", 1), "c4": ("num", 1)}
KINDS = {
    "bone": {
        "name": ("fixed", None), "parent": ("fixed", None), "length": ("num", 0),
        "transform": ("mode", "normal"), "x": ("num", 0), "y": ("num", 0),
        "rotation": ("num", 0), "scaleX": ("num", 1), "scaleY": ("num", 1),
        "shearX": ("num", 0), "shearY": ("num", 0), "color": ("color", None),
    },
    "slot": {
        "name": ("fixed", None), "bone": ("fixed", None), "color": ("color", "ffffffff"),
        "dark": ("dark", None), "attachment": ("ref", None), "blend": ("text", "normal"),
    },
    "region": {
        "path": ("image", None), "name": ("image", None), "type": ("fixed", "region"),
        "x": ("num", 0), "y": ("num", 0), "scaleX": ("num", 1), "scaleY": ("num", 1),
        "rotation": ("num", 0), "width": ("num", None), "height": ("num", None),
        "color": ("color", "ffffffff"),
    },
    "mesh": {
        "path": ("image", None), "name": ("image", None), "type": ("fixed", None),
        "uvs": ("nums", []), "triangles": ("ints", []), "vertices": ("nums", []),
        "hull": ("int", 0), "edges": ("ints", []), "width": ("num", None),
        "height": ("num", None), "color": ("color", "ffffffff"),
    },
    "linkedmesh": {
        "path": ("image", None), "name": ("image", None), "type": ("fixed", None),
        "skin": ("fixed", None), "parent": ("fixed", None), "deform": ("bool", True),
        "width": ("num", None), "height": ("num", None), "color": ("color", "ffffffff"),
    },
    "pathattachment": {
        "type": ("fixed", None), "name": ("image", None), "closed": ("bool", False),
        "constantSpeed": ("bool", True), "lengths": ("nums", []),
        "vertexCount": ("int", 0), "vertices": ("nums", []), "color": ("color", None),
    },
    "boundingbox": {
        "type": ("fixed", None), "vertexCount": ("int", None), "vertices": ("nums", None),
        "color": ("color", None),
    },
    "point": {
        "type": ("fixed", None), "x": ("num", 0), "y": ("num", 0),
        "rotation": ("num", 0), "color": ("color", None),
    },
    "clipping": {
        "type": ("fixed", None), "end": ("fixed", None), "vertexCount": ("int", 0),
        "vertices": ("nums", []), "color": ("color", None),
    },
    "ik": {
        "name": ("fixed", None), "order": ("int", 0), "bones": ("fixed", []),
        "target": ("fixed", None), "mix": ("num", 1), "softness": ("num", 0),
        "bendPositive": ("bool", True), "compress": ("bool", False),
        "stretch": ("bool", False), "uniform": ("bool", False),
    },
    "transform": {
        "name": ("fixed", None), "order": ("int", 0), "bones": ("fixed", []),
        "target": ("fixed", None), "rotation": ("num", 0), "x": ("num", 0),
        "y": ("num", 0), "scaleX": ("num", 0), "scaleY": ("num", 0),
        "shearX": ("num", 0), "shearY": ("num", 0), "rotateMix": ("num", 1),
        "translateMix": ("num", 1), "scaleMix": ("num", 1), "shearMix": ("num", 1),
        "local": ("bool", False), "relative": ("bool", False),
    },
    "path": {
        "name": ("fixed", None), "order": ("int", 0), "bones": ("fixed", []),
        "target": ("fixed", None), "positionMode": ("text", "percent"),
        "spacingMode": ("text", "length"), "rotateMode": ("text", "tangent"),
        "rotation": ("num", 0), "position": ("num", 0), "spacing": ("num", 0),
        "rotateMix": ("num", 1), "translateMix": ("num", 1),
    },
    "event": {"int": ("int", 0), "float": ("num", 0), "string": ("text0", "")},
    "rotate": dict(time=("num", 0), angle=("num", 0), **CURVE),
    "translate": dict(time=("num", 0), x=("num", 0), y=("num", 0), **CURVE),
    "scale": dict(time=("num", 0), x=("num", 1), y=("num", 1), **CURVE),
    "shear": dict(time=("num", 0), x=("num", 0), y=("num", 0), **CURVE),
    "slotattachment": {"time": ("num", 0), "name": ("refnone", None)},
    "slotcolor": dict(time=("num", 0), color=("color", None), **CURVE),
    "slottwocolor": dict(time=("num", 0), light=("color", None), dark=("dark", None), **CURVE),
    "ikframe": dict(
        time=("num", 0), mix=("num", 1), bendPositive=("bool", True),
        compress=("bool", False), stretch=("bool", False), **CURVE
    ),
    "transformframe": dict(
        time=("num", 0), rotateMix=("num", 1), translateMix=("num", 1),
        scaleMix=("num", 1), shearMix=("num", 1), **CURVE
    ),
    "pathposition": dict(time=("num", 0), position=("num", 0), **CURVE),
    "pathspacing": dict(time=("num", 0), spacing=("num", 0), **CURVE),
    "pathmix": dict(time=("num", 0), rotateMix=("num", 1), translateMix=("num", 1), **CURVE),
    "deform": dict(time=("num", 0), offset=("int", 0), vertices=("nums", []), **CURVE),
    "eventframe": {
        "time": ("num", 0), "name": ("fixed", None), "int": ("int", None),
        "float": ("num", None), "string": ("text0", None), "volume": ("num", 1),
        "balance": ("num", 0), "audio": ("text0", ""),
    },
    "draworder": {"time": ("num", 0), "offsets": ("offsets", [])},
}
ATTACHMENT_KIND = {
    None: "region", "region": "region", "mesh": "mesh", "linkedmesh": "linkedmesh",
    "path": "pathattachment", "boundingbox": "boundingbox", "point": "point",
    "clipping": "clipping",
}


# ---------------------------------------------------------------- canonical form
def fill(kind, obj):
    """The object with every absent attribute at Spine's default."""
    out = {k: v for k, v in obj.items() if v is not None or k in KINDS[kind]}
    for k, (t, d) in KINDS[kind].items():
        if k not in out:
            out[k] = copy.copy(d)
    return out


def fill_all(kind, objs):
    return [fill(kind, o) for o in objs]


def canon_skin(skin):
    out = dict(skin)
    att = {}
    for slot, entries in skin.get("attachments", {}).items():
        if not entries:
            continue
        att[slot] = {
            name: fill(ATTACHMENT_KIND[a.get("type")], a) for name, a in entries.items()
        }
    out["attachments"] = att
    return out


def drop_empty(d):
    return {k: v for k, v in d.items() if v}


def canon_animation(anim):
    out = dict(anim)
    out["bones"] = drop_empty(
        {
            b: drop_empty({t: fill_all(t, frames) for t, frames in tl.items()})
            for b, tl in anim.get("bones", {}).items()
        }
    )
    names = {"attachment": "slotattachment", "color": "slotcolor", "twoColor": "slottwocolor"}
    out["slots"] = drop_empty(
        {
            s: drop_empty({t: fill_all(names[t], frames) for t, frames in tl.items()})
            for s, tl in anim.get("slots", {}).items()
        }
    )
    out["ik"] = drop_empty({k: fill_all("ikframe", v) for k, v in anim.get("ik", {}).items()})
    out["transform"] = drop_empty(
        {k: fill_all("transformframe", v) for k, v in anim.get("transform", {}).items()}
    )
    out["path"] = drop_empty(
        {
            k: drop_empty({t: fill_all("path" + t, v) for t, v in tl.items()})
            for k, tl in anim.get("path", {}).items()
        }
    )
    out["deform"] = drop_empty(
        {
            skin: drop_empty(
                {
                    slot: drop_empty({a: fill_all("deform", v) for a, v in atts.items()})
                    for slot, atts in slots.items()
                }
            )
            for skin, slots in anim.get("deform", {}).items()
        }
    )
    out["events"] = fill_all("eventframe", anim.get("events", []))
    out["drawOrder"] = fill_all("draworder", anim.get("drawOrder", []))
    return out


def canon(doc):
    """Meaning of a document: every default explicit, empty sections present."""
    out = dict(doc)
    out["bones"] = fill_all("bone", doc.get("bones", []))
    out["slots"] = fill_all("slot", doc.get("slots", []))
    out["skins"] = [canon_skin(s) for s in doc.get("skins", [])]
    out["ik"] = fill_all("ik", doc.get("ik", []))
    out["transform"] = fill_all("transform", doc.get("transform", []))
    out["path"] = fill_all("path", doc.get("path", []))
    out["events"] = {k: fill("event", v) for k, v in doc.get("events", {}).items()}
    out["animations"] = {
        k: canon_animation(v) for k, v in doc.get("animations", {}).items()
    }
    # order matters for the sections the runtime indexes
    out["order of animations"] = list(doc.get("animations", {}))
    out["order of events"] = list(doc.get("events", {}))
    return out


# ---------------------------------------------------------------- symbolic values
def value(sx, tag, kind):
    """A symbolic value of the given attribute type"""
    if kind == "num":
        return sx.float(tag)
    if kind == "int":
        return sx.int(tag, -1000, 1000)
    if kind == "bool":
        return sx.flag(tag)
    if kind == "color":
        return sx.str(tag, 8, HEX)
    if kind == "dark":
        return sx.str(tag, 6, HEX)
    if kind == "text":
        return sx.str(tag, sx.choice(tag + ".len", [1, 6, 7]), LETTERS)
    if kind == "image":
        return sx.str(tag, sx.choice(tag + ".len", [1, 2]), "xyz/")
    if kind == "text0":
        return sx.str(tag, sx.choice(tag + ".len", [0, 2]), LETTERS + " ")
    if kind == "mode":
        return sx.choice(
            tag, ["normal", "onlyTranslation", "noRotationOrReflection", "noScale",
                  "noScaleOrReflection"]
        )
    if kind == "nums":
        return [sx.float("%s[%d]" % (tag, i)) for i in range(sx.choice(tag + ".len", [0, 1, 2]))]
    if kind == "ints":
        return [sx.int("%s[%d]" % (tag, i), 0, 99) for i in range(sx.choice(tag + ".len", [0, 2]))]
    if kind == "curve":
        return sx.float(tag) if sx.flag(tag + ".bezier") else "stepped"
    if kind == "ref":
        return "a1"
    if kind == "refnone":
        return "a1" if sx.flag(tag + ".set") else None
    if kind == "offsets":
        return (
            [{"slot": "s2", "offset": -1 * sx.int(tag, 0, 1)}]
            if sx.flag(tag + ".some")
            else []
        )
    raise AssertionError(kind)


SAMPLE = {
    "num": 2.5, "int": 3, "bool": None, "color": "12345678", "dark": "123456",
    "text": "zzz", "text0": "zz", "image": "zz", "mode": "noScale", "nums": [1.5, 2], "ints": [1, 2],
    "curve": 0.25, "ref": "a1", "refnone": "a1", "offsets": [],
}


def sample(kind, attr):
    t, d = KINDS[kind][attr]
    if t == "bool":
        return not d
    return copy.copy(SAMPLE[t])


# ---------------------------------------------------------------- documents
def skeleton(version="3.8.99"):
    return {"hash": "h", "spine": version, "width": 10, "height": 20}


def base(version="3.8.99"):
    return {
        "skeleton": skeleton(version),
        "bones": [{"name": "root"}, {"name": "b1", "parent": "root"}],
        "slots": [
            {"name": "s1", "bone": "b1", "attachment": "a1"},
            {"name": "s2", "bone": "root", "attachment": "a2"},
        ],
        "skins": [
            {
                "name": "default",
                "attachments": {
                    "s1": {"a1": {"width": 4, "height": 5}},
                    "s2": {"a2": {"width": 6, "height": 7}},
                },
            }
        ],
        "events": {"e1": {}},
        "animations": {},
    }


def embed(kind, obj, version="3.8.99"):
    """A document that contains the object in its place."""
    d = base(version)
    if kind == "bone":
        d["bones"].append(dict(obj, name="b2", parent="b1"))
    elif kind == "slot":
        d["slots"].append(dict(obj, name="s3", bone="b1"))
    elif kind in ("region", "mesh", "linkedmesh", "pathattachment", "boundingbox",
                  "point", "clipping"):
        o = dict(obj)
        if kind != "region":
            o["type"] = {"pathattachment": "path"}.get(kind, kind)
        if kind == "linkedmesh":
            o["parent"] = "m0"
            d["skins"][0]["attachments"]["s1"]["m0"] = {"type": "mesh", "width": 1, "height": 1}
        if kind == "clipping":
            o["end"] = "s2"
        d["skins"][0]["attachments"]["s1"]["x1"] = o
    elif kind == "ik":
        d["ik"] = [dict(obj, name="k1", bones=["b1"], target="root")]
    elif kind == "transform":
        d["transform"] = [dict(obj, name="t1", bones=["b1"], target="root")]
    elif kind == "path":
        d["path"] = [dict(obj, name="p1", bones=["b1"], target="s1")]
    elif kind == "event":
        d["events"]["e2"] = dict(obj)
    else:
        anim = {}
        if kind in ("rotate", "translate", "scale", "shear"):
            anim["bones"] = {"b1": {kind: [dict(obj)]}}
        elif kind in ("slotattachment", "slotcolor", "slottwocolor"):
            name = {"slotattachment": "attachment", "slotcolor": "color",
                    "slottwocolor": "twoColor"}[kind]
            anim["slots"] = {"s1": {name: [dict(obj)]}}
        elif kind == "ikframe":
            d["ik"] = [{"name": "k1", "bones": ["b1"], "target": "root"}]
            anim["ik"] = {"k1": [dict(obj)]}
        elif kind == "transformframe":
            d["transform"] = [{"name": "t1", "bones": ["b1"], "target": "root"}]
            anim["transform"] = {"t1": [dict(obj)]}
        elif kind in ("pathposition", "pathspacing", "pathmix"):
            d["path"] = [{"name": "p1", "bones": ["b1"], "target": "s1"}]
            anim["path"] = {"p1": {kind[4:]: [dict(obj)]}}
        elif kind == "deform":
            anim["deform"] = {"default": {"s1": {"a1": [dict(obj)]}}}
        elif kind == "eventframe":
            anim["events"] = [dict(obj, name="e1")]
        elif kind == "draworder":
            anim["drawOrder"] = [dict(obj)]
        else:
            raise AssertionError(kind)
        d["animations"]["anim"] = anim
    return d


def attributes(kind):
    return [k for k, (t, _) in KINDS[kind].items() if t != "fixed"]
