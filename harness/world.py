"""Small symbolic skeletons for the clean-up properties and the oracles on them."""
import contextlib
import copy
import io

from harness import doc as D

HEX2 = "0f"  # alphabet of the alpha digits; other colour digits are fixed
INF = None


# ------------------------------------------------------------------ building blocks
def alpha_color(sx, tag):
    """A colour whose alpha is any of 00..ff"""
    return "7f7f7f" + sx.str(tag, 2, D.HEX)


def times(sx, tag, n):
    """n ascending times >= 0"""
    out = []
    for i in range(n):
        t = sx.float("%s.t%d" % (tag, i), 0, 1000)
        if out:
            sx.assume(t >= out[-1])
        out.append(t)
    return out


def setup(sx, tag, name, bone, names, looks=True):
    """Any set-up state of a slot"""
    slot = {"name": name, "bone": bone}
    a = sx.choice(tag + ".attachment", [None] + names)
    if a is not None:
        slot["attachment"] = a
    if sx.flag(tag + ".color"):
        slot["color"] = alpha_color(sx, tag + ".alpha")
    if looks:
        look = sx.choice(tag + ".look", ["none", "dark", "blend"])
        if look == "dark":
            slot["dark"] = "101010"
        elif look == "blend":
            slot["blend"] = "additive"
    return slot


def timeline(sx, tag, names, keys, colors, kinds=("color", "twoColor")):
    """None or any slot timeline with up to `keys` attachment keys and `colors` colours"""
    if not sx.flag(tag + ".timeline"):
        return None
    out = {}
    n = sx.choice(tag + ".keys", list(range(keys + 1)))
    if n:
        out["attachment"] = []
        for i, t in enumerate(times(sx, tag + ".a", n)):
            out["attachment"].append(
                {"time": t, "name": sx.choice("%s.name%d" % (tag, i), [None] + names)})
    n = sx.choice(tag + ".colors", list(range(colors + 1)))
    if n:
        kind = sx.choice(tag + ".kind", list(kinds))
        frames = []
        for i, t in enumerate(times(sx, tag + ".c", n)):
            c = alpha_color(sx, "%s.c%d" % (tag, i))
            frames.append({"time": t, "color": c} if kind == "color"
                          else {"time": t, "light": c, "dark": "202020"})
        out[kind] = frames
    return out


def region(**kw):
    return dict({"width": 4, "height": 5}, **kw)


def mesh(**kw):
    return dict({"type": "mesh", "uvs": [0, 1], "triangles": [0, 1, 2],
                 "vertices": [1, 2, 3, 4], "hull": 3, "width": 8, "height": 9}, **kw)


def linked(parent, **kw):
    return dict({"type": "linkedmesh", "parent": parent, "width": 6, "height": 7}, **kw)


def attachment(sx, tag, kinds):
    kind = sx.choice(tag, list(kinds))
    return {"region": region, "mesh": mesh}[kind]()


# ------------------------------------------------------------------ oracle: visibility
def positive(sx, color):
    """Alpha above 0"""
    if color is None:
        return True
    return sx.any([color[6] != "0", color[7] != "0"])


def overlap(sx, a, b):
    """Do two half-open intervals meet?  (INF = no upper end)"""
    (lo1, hi1), (lo2, hi2) = a, b
    parts = []
    for lo, hi in ((lo1, hi1), (lo2, hi2), (lo1, hi2), (lo2, hi1)):
        if hi is not INF:
            parts.append(lo < hi)
    return sx.all(parts)


def shown(sx, slot, anim):
    """[(attachment, condition)]: what the slot shows with alpha > 0 in the animation"""
    tl = anim.get("slots", {}).get(slot["name"], {})
    keys = tl.get("attachment", [])
    pieces = []  # (interval, attachment)
    first = keys[0].get("time", 0) if keys else INF
    if slot.get("attachment") is not None:
        pieces.append(((0, first), slot["attachment"]))
    for i, k in enumerate(keys):
        end = keys[i + 1].get("time", 0) if i + 1 < len(keys) else INF
        if k.get("name") is not None:
            pieces.append(((k.get("time", 0), end), k["name"]))
    frames = [(f.get("time", 0), f.get("color", f.get("light")))
              for f in tl.get("color", []) + tl.get("twoColor", [])]
    lit = []  # (interval, condition)
    lit.append(((0, frames[0][0] if frames else INF), positive(sx, slot.get("color"))))
    for i, (t, c) in enumerate(frames):
        if i + 1 < len(frames):
            nt, nc = frames[i + 1]
            # linear interpolation between the two colours
            lit.append(((t, nt), sx.any([positive(sx, c), positive(sx, nc)])))
        else:
            lit.append(((t, INF), positive(sx, c)))
    return [
        (name, sx.any([sx.all([cond, overlap(sx, iv, jv)]) for jv, cond in lit]))
        for iv, name in pieces
    ]


def all_animations(doc):
    return doc.get("animations", {})


# ------------------------------------------------------------------ reading documents
def slot_named(doc, name):
    for s in doc.get("slots", []):
        if s["name"] == name:
            return s
    return None


def slot_names(doc):
    return [s["name"] for s in doc.get("slots", [])]


def attachment_names(doc):
    out = set()
    for skin in doc.get("skins", []):
        for slot, entries in skin.get("attachments", {}).items():
            out |= set(entries)
    return out


def referenced(doc):
    """Slots that path constraints target or clippings end at"""
    out = set(p.get("target") for p in doc.get("path", []))
    for skin in doc.get("skins", []):
        for entries in skin.get("attachments", {}).values():
            for a in entries.values():
                if a.get("type") == "clipping":
                    out.add(a.get("end"))
    return out


# ------------------------------------------------------------------ operations
NAMED = {"animations": {"gone": "gone"}, "skins": {"gone": "gone"}}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def operate(sx, editor, op, names=NAMED):
    """-> (removed slots, removed attachments)"""
    if op == "clean":
        return editor.clean_animation()
    if op == "erase animation":
        return editor.erase_animations([names["animations"]["gone"]]).result_summary
    if op == "erase skin":
        return editor.erase_skins([names["skins"]["gone"]])[0]
    raise AssertionError(op)


def expected_base(doc, op, names=NAMED):
    """The document after removing just what was named"""
    out = copy.deepcopy(doc)
    if op == "erase animation":
        out["animations"].pop(names["animations"]["gone"], None)
    elif op == "erase skin":
        gone = names["skins"]["gone"]
        out["skins"] = [s for s in out["skins"] if s["name"] != gone]
        for anim in out.get("animations", {}).values():
            anim.get("deform", {}).pop(gone, None)
        forget(doc, out)
    return out


def forget(before, out):
    """Clear the references to attachments that only skins missing in out had"""
    def having(doc):
        return {(slot, key) for skin in doc.get("skins", [])
                for slot, entries in skin.get("attachments", {}).items() for key in entries}

    lost = having(before) - having(out)
    for s in out.get("slots", []):
        if (s["name"], s.get("attachment")) in lost:
            del s["attachment"]
    for anim in out.get("animations", {}).values():
        for slot, tl in anim.get("slots", {}).items():
            for k in tl.get("attachment", []):
                if (slot, k.get("name")) in lost:
                    k["name"] = None


# ------------------------------------------------------------------ shared document spaces
def one_slot(sx, keys, colors, animations, gone=True, kinds=("color", "twoColor"),
             looks=True):
    """One slot with attachments a, b, u (unused) under full control, a plain one"""
    names = ["a", "b"]
    d = {
        "skeleton": D.skeleton(),
        "bones": [{"name": "root"}],
        "slots": [setup(sx, "s", "s", "root", names, looks),
                  {"name": "p", "bone": "root", "attachment": "q"}],
        "skins": [
            {"name": "default", "attachments": {
                "s": {"a": region(), "u": region()}, "p": {"q": region()}}},
            {"name": "second", "attachments": {"s": {"b": region(x=1), "a": region(x=2)}}},
            {"name": "gone", "attachments": {"s": {"b": region(x=3)}}},
        ],
        "animations": {},
    }
    for i in range(animations):
        tl = timeline(sx, "anim%d" % i, names, keys, colors, kinds)
        d["animations"]["anim%d" % i] = {} if tl is None else {"slots": {"s": tl}}
    if gone:
        d["animations"]["gone"] = {
            "slots": {"s": {"attachment": [{"time": 0, "name": "u"}],
                            "color": [{"time": 0, "color": "ffffffff"}]}}}
    return d


def two_slots(sx, kinds=("region", "mesh"), ref=True, second_skin=True, full=True):
    """Two slots sharing attachment names, skins and attachment kinds under control
    (of both slots if full, else the second has regions a and b)"""
    d = {
        "skeleton": D.skeleton(),
        "bones": [{"name": "root"}, {"name": "b", "parent": "root"}],
        "slots": [],
        "skins": [{"name": "default", "attachments": {}},
                  {"name": "second", "attachments": {}},
                  {"name": "gone", "attachments": {}}],
        "animations": {"anim0": {}, "gone": {}},
    }
    default, second, gone = [s["attachments"] for s in d["skins"]]
    for n in ("s", "r"):
        slot = {"name": n, "bone": "b"}
        slots = d["slots"]
        slots.append(slot)
        free = full or n == "s"
        default[n] = {"a": attachment(sx, n + ".a kind", kinds if free else kinds[:1])}
        if not free or sx.flag(n + ".has b"):
            (second if second_skin else default).setdefault(n, {})["b"] = attachment(
                sx, n + ".b kind", kinds if free else kinds[:1])
            names = ["a", "b"]
        else:
            names = ["a"]
        a = sx.choice(n + ".attachment", [None] + names)
        if a is not None:
            slot["attachment"] = a
        if sx.flag(n + ".hidden"):
            slot["color"] = "ffffff00"
        key = sx.choice(n + ".key", [0, None] + names)
        if key != 0:
            d["animations"]["anim0"].setdefault("slots", {})[n] = {
                "attachment": [{"time": sx.float(n + ".time", 0, 10), "name": key}]}
    if ref:
        target = sx.choice("path target", [None, "s"])
        if target:
            d["path"] = [{"name": "pc", "bones": ["b"], "target": target}]
    return d


# ------------------------------------------------------------------ documents with any names
NAMES = {
    "bones": ["root", "b", "c"],
    "slots": ["u", "t", "v", "w"],
    "skins": ["default", "other", "gone"],
    "attachments": ["m", "r", "l", "x"],
    "animations": ["anim0", "gone", "anim1"],
    "constraints": ["k", "p", "q"],
    "events": ["e", "f"],
}
# names with a meaning of their own, which stay
FIXED = ("root", "default")
CHARS = "hH8~ /"
WORDS = ("root", "default", "none", "name")


def symbolic_names(sx, kind, lengths, chars=CHARS):
    """The names of one section symbolic: pairwise different, otherwise anything"""
    out = {k: {n: n for n in v} for k, v in NAMES.items()}
    free = [n for n in NAMES[kind] if n not in FIXED]
    for i, n in enumerate(free):
        starts = [""] + [f for f in NAMES[kind] if f in FIXED]
        word = None
        if not i:
            # names with a meaning elsewhere
            word = sx.choice("word for " + n, [None] + [
                w for w in WORDS if w not in NAMES[kind]])
            if word:
                lengths = lengths[:1]
        s = word or sx.choice("start of " + n, starts) + sx.str(
            "name of " + n, sx.choice("length of " + n, lengths), chars)
        for other in free[:i]:
            sx.assume(s != out[kind][other])
        out[kind][n] = s
    return out


def named(sx, names, links=False):
    """A document that uses every kind of name in every kind of place.  Slot u shows
    nothing and has timelines of every kind, w shows something or not, attachment x is
    never used, skin and animation 'gone' can be erased."""
    (bones, slots, skins, atts, anims, cons, events) = [
        names[k] for k in ("bones", "slots", "skins", "attachments", "animations",
                           "constraints", "events")]
    u, t, v, w = [slots[n] for n in "utvw"]
    m, r, l, x = [atts[n] for n in "mrlx"]
    b, c = bones["b"], bones["c"]
    d = {
        "skeleton": D.skeleton(),
        "bones": [{"name": "root"}, {"name": b, "parent": "root"},
                  {"name": c, "parent": b, "length": 7}],
        "slots": [{"name": u, "bone": b}, {"name": t, "bone": c, "attachment": m},
                  {"name": v, "bone": "root", "attachment": l}, {"name": w, "bone": c}],
        "skins": [
            {"name": "default", "attachments": {
                u: {m: mesh(), r: region()}, t: {m: mesh(hull=5), r: region(x=1)},
                v: {m: mesh(hull=6), l: linked(m)}, w: {r: region(x=2)}}},
            {"name": skins["other"], "attachments": {
                t: {m: mesh(hull=7), x: region(x=3)}, v: {l: linked(m, color="11223344")}}},
            {"name": skins["gone"], "attachments": {
                u: {m: mesh(hull=8)}, t: {m: mesh(hull=9)}, w: {r: region(x=4)}}},
        ],
        "ik": [{"name": cons["k"], "bones": [b], "target": c, "mix": 0.5}],
        "transform": [{"name": cons["q"], "order": 1, "bones": [c], "target": b, "x": 3}],
        "path": [{"name": cons["p"], "order": 2, "bones": [b], "target": t}],
        "events": {events["e"]: {"int": 2}, events["f"]: {"float": 2.5}},
        "animations": {},
    }
    if links:
        other, gone = d["skins"][1]["attachments"], d["skins"][2]["attachments"]
        gone[v] = {m: mesh(hull=11)}
        other[v][l]["skin"] = skins["gone"]
        other[t][l] = linked(m, skin=skins["other"], path="pic")
    if sx.flag("w shown"):
        d["slots"][3]["attachment"] = r
    for i, n in enumerate(("anim0", "gone", "anim1")):
        k = [{"time": i, "vertices": [1, 2]}]
        d["animations"][anims[n]] = {
            "bones": {b: {"rotate": [{"angle": i + 1}]}, c: {"scale": [{"x": i + 2}]}},
            "slots": {t: {"attachment": [{"time": 1, "name": r}, {"time": 2, "name": m}]},
                      v: {"color": [{"color": "ff00ff8%d" % i}]}},
            "ik": {cons["k"]: [{"mix": 0.25}]},
            "transform": {cons["q"]: [{"scaleMix": 0.5}]},
            "path": {cons["p"]: {"position": [{"position": 0.5}]}},
            "deform": {"default": {u: {m: k}, t: {m: k}, v: {m: k}},
                       skins["other"]: {t: {m: k}, v: {l: k}},
                       skins["gone"]: {u: {m: k}, t: {m: k}}},
            "drawOrder": [{"time": 1, "offsets": [{"slot": t, "offset": 1}]}],
            "events": [{"time": 1, "name": events["e"]}, {"time": 2, "name": events["f"]}],
        }
    if sx.flag("u keyed empty"):
        d["animations"][anims["anim1"]]["slots"][u] = {"color": [{"color": "ffffffff"}]}
    return d


# ------------------------------------------------------------------ large documents
WAYS = ("set up", "keyed", "lit", "path", "clip", "gone", "never")


def wide(sx, n=6, anims=4, keys=4, ways=WAYS, skins=("default", "k2", "gone")):
    """Many slots, animations, keyframes and skins.  Every second slot shows something
    everywhere, the others nothing, and what the slot at one position shows depends on
    one keyframe at one position of one animation."""
    special = sx.choice("position of slot", list(range(n)))
    way = sx.choice("way", list(ways))
    home = sx.choice("skin", list(skins))
    d = {
        "skeleton": D.skeleton(),
        "bones": [{"name": "root"}] + [{"name": "b%d" % i, "parent": "b%d" % (i - 1) if i else
                                        "root", "x": i + 1} for i in range(n)],
        "slots": [], "skins": [{"name": k, "attachments": {}}
                               for k in ("default", "k1", "k2", "gone")],
        "ik": [{"name": "k%d" % i, "order": i, "bones": ["b%d" % i], "target": "b0"}
               for i in range(1, 4)],
        "path": [],
        "events": {"e%d" % i: {"int": i + 1} for i in range(3)},
        "animations": {"anim%d" % i: {"slots": {}, "deform": {"default": {}}}
                       for i in range(anims)},
    }
    skin = {s["name"]: s["attachments"] for s in d["skins"]}
    d["animations"]["gone"] = {"slots": {}}
    for i in range(n):
        name = "s%d" % i
        slot = {"name": name, "bone": "b%d" % i}
        d["slots"].append(slot)
        if i == special:
            continue
        if i % 2:
            slot["attachment"] = "a%d" % i
            skin["default"][name] = {"a%d" % i: mesh(hull=i + 1), "r%d" % i: region(x=i)}
            skin["k2"][name] = {"a%d" % i: mesh(width=i + 10)}
            for k, anim in enumerate(d["animations"].values()):
                anim["slots"][name] = {
                    "attachment": [{"time": j, "name": "ra"[j % 2] + str(i)}
                                   for j in range(keys)],
                    "color": [{"time": j, "color": "%02xffff%02x" % (i, j)}
                              for j in range(k, keys)] or [{"time": 1, "color": "ffffff80"}]}
                if "deform" in anim:
                    for s in ("default", "k2"):
                        anim["deform"].setdefault(s, {})[name] = {"a%d" % i: [
                            {"time": j, "vertices": [j + 1]} for j in range(keys)]}
        else:
            skin["default"][name] = {"o%d" % i: region(x=i)}
            skin["k1"][name] = {"o%d" % i: region(y=i), "w%d" % i: region()}
            if i % 4 == 2:
                slot["attachment"] = "o%d" % i
                slot["color"] = "ffffff00"
    x = "s%d" % special
    slot = d["slots"][special]
    skin[home][x] = {"x": region(x=7), "n": region(x=8)}
    if way == "set up":
        slot["attachment"] = "x"
    elif way in ("keyed", "lit"):
        anim = d["animations"]["anim%d" % sx.choice("animation", list(range(anims)))]
        at = sx.choice("key", list(range(keys)))
        if way == "keyed":
            anim["slots"][x] = {"attachment": [
                {"time": j + 1, "name": "x" if j == at else None} for j in range(keys)]}
        else:
            slot.update(attachment="x", color="ffffff00")
            anim["slots"][x] = {"color": [
                {"time": j, "color": alpha_color(sx, "alpha") if j == at else "00000000"}
                for j in range(keys)]}
    elif way == "path":
        d["path"] = [{"name": "p%d" % i, "order": 4 + i, "bones": ["b%d" % i],
                      "target": x if i == special else "s0"} for i in (1, special)]
    elif way == "clip":
        other = "s%d" % (1 if special != 1 else 3)
        skin["k1"].setdefault(other, {})["clip"] = {
            "type": "clipping", "end": x, "vertexCount": 3, "vertices": [1, 2, 3, 4, 5, 6]}
        skin["k1"][other]["clap"] = {"type": "clipping", "end": other}
    elif way == "gone":
        d["animations"]["gone"]["slots"][x] = {"attachment": [{"time": 0, "name": "x"}]}
    for k, anim in enumerate(d["animations"].values()):
        anim["drawOrder"] = [{"time": j, "offsets": [
            {"slot": "s%d" % i, "offset": n - 1 - 2 * i} for i in range(n)] if j % 2 else []}
            for j in range(keys)]
        anim["ik"] = {"k%d" % i: [{"time": j, "mix": 0.25 * (j % 3)} for j in range(keys)]
                      for i in range(1, 4)}
        anim["bones"] = {"b%d" % i: {"rotate": [{"time": j, "angle": i + j + k + 1}
                                                for j in range(keys)]} for i in range(n)}
        anim["events"] = [{"time": j, "name": "e%d" % (j % 3)} for j in range(keys)]
    return d
