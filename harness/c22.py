"""C22: converting a skeleton to the graph and back loses nothing."""
import copy
import json

from harness import doc as D
from harness import world as W
from symx.api import Case

from spine_json_lib.deserializer.spine_nodes import (
    NodeType, SpineGraphParser, SpineNodeFactory,
)
from spine_json_lib.graph.dagraph import DAGraph

ASSUMPTIONS = [
    "bones come after their parents (as Spine exports them); names of one kind are distinct",
    "attachments of one name share a node (names identify attachments in the graph)",
]
KINDS = ["BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE"]


def name(sx, tag, texts):
    """A text of one or two characters or one that looks like the graph's ids"""
    how = sx.choice(tag + " form", list(range(len(texts) + 1)))
    if how == 0:
        return sx.str(tag, 1, "abN")
    return texts[how - 1]


def distinct(sx, names):
    for i in range(len(names)):
        for j in range(i):
            sx.assume(sx.no(sx.same(names[i], names[j])))


def node(sx, graph, kind, base):
    """The node of an object: the only one of its type with its name"""
    return graph.get_node("%s_%s" % (base, kind))


def nodes_by_type(graph, ids):
    return [graph.get_node(x) for x in ids]


def edge(sx, a, b, message):
    sx.check(a is not None and b is not None, message + ": no node")
    sx.check(b.id in a.children and a.children[b.id] is b, message + ": no edge")
    sx.check(a.id in b.parents and b.parents[a.id] is a, message + ": no edge back")


def check(sx, d, files=False):
    given = copy.deepcopy(d)
    graph = DAGraph.create_from_json_data(SpineGraphParser, given, SpineNodeFactory())
    sx.check(sx.same(given, d), "the document was modified")
    # what is connected
    edges = set()

    def connected(ka, a, kb, b):
        x, y = node(sx, graph, ka, a), node(sx, graph, kb, b)
        message = "%s %s - %s %s" % (ka, a, kb, b)
        edge(sx, x, y, message)
        if not any(p is x and q is y for p, q in pairs):
            pairs.append((x, y))

    pairs = []
    everything = []

    def known(kind, base):
        n = node(sx, graph, kind, base)
        sx.check(n is not None, "no node of %s %s" % (kind, base))
        sx.check(sx.same(n.node_type, kind), "wrong type of %s %s" % (kind, base))
        if not any(n is m for m in everything):
            everything.append(n)

    for b in d["bones"]:
        known("BONE", b["name"])
        if b.get("parent") is not None:
            connected("BONE", b["parent"], "BONE", b["name"])
    for s in d["slots"]:
        known("SLOT", s["name"])
        connected("BONE", s["bone"], "SLOT", s["name"])
        for skin in d["skins"]:
            for at, entries in skin.get("attachments", {}).items():
                if not sx.same(at, s["name"]) is True and not at == s["name"]:
                    continue
                for key, a in entries.items():
                    known("ATTACHMENT", key)
                    connected("SLOT", s["name"], "ATTACHMENT", key)
                    image = a.get("path") or a.get("name") or key
                    known("IMAGE", image)
                    connected("ATTACHMENT", key, "IMAGE", image)
    for k in d.get("ik", []):
        known("IK", k["name"])
        for b in k["bones"]:
            connected("IK", k["name"], "BONE", b)
        if k.get("target") is not None:
            connected("BONE", k["target"], "IK", k["name"])
    # nothing else
    total = sum(n.num_children for n in everything)
    sx.check(total == len(pairs), "%d edges instead of %d" % (total, len(pairs)))
    sx.check(sum(n.num_parents for n in everything) == len(pairs), "edges not symmetric")
    heads = [n.id for n in everything if n.num_parents == 0]
    sx.check(sx.same(sorted(graph.get_heads_id()), sorted(heads)), "other nodes in the graph")
    # and back
    out = graph.to_json_data(SpineGraphParser)
    again = graph.to_json_data(SpineGraphParser)
    for kind in ("bones", "slots", "ik"):
        sx.check(sx.same(out.get(kind, []), d.get(kind, [])), "%s differ" % kind)
        sx.check(sx.same(again.get(kind, []), d.get(kind, [])), "%s differ in a second export"
                 % kind)
    sx.observe("bones", [b["name"] for b in out["bones"]])
    # through a text and a file
    sx.check(sx.same(json.loads(graph.to_json(SpineGraphParser)), out), "another text")
    if files:
        with sx.scratch():
            with open("skeleton.json", "w") as f:
                json.dump(d, f)
            loaded = DAGraph.create_from_json_file(
                SpineGraphParser, "skeleton.json", SpineNodeFactory())
        sx.check(sx.same(loaded.to_json_data(SpineGraphParser), out), "the file gives another")
        for n in everything:
            m = loaded.get_node(n.id)
            sx.check(m is not None and sx.same(m.node_type, n.node_type)
                     and sx.same(m.data, n.data), "another node from a file")
            sx.check(sx.same(sorted(m.children), sorted(n.children))
                     and sx.same(sorted(m.parents), sorted(n.parents)),
                     "other connections from a file")


def bones(sx, n, texts):
    """Bone trees with any names"""
    names = [name(sx, "bone%d" % i, texts) for i in range(n)]
    distinct(sx, names)
    d = {"skeleton": D.skeleton(), "bones": [{"name": names[0]}], "slots": [], "skins": []}
    for i in range(1, n):
        b = {"name": names[i], "x": sx.float("x%d" % i)}
        if not sx.flag("bone %d has no parent" % i):
            b["parent"] = sx.choice("parent%d" % i, names[:i])
        d["bones"].append(b)
    if sx.flag("has ik"):
        d["ik"] = [{"name": name(sx, "ik", texts), "bones": [names[-1]], "target": names[0]}]
        if n > 2 and sx.flag("two bones"):
            d["ik"][0]["bones"] = [names[1], names[-1]]
    sx.reach("bones")
    check(sx, d)


def kinds(sx, texts, full):
    """A bone, a slot, an attachment, an image and a constraint with any names"""
    bone = name(sx, "bone", texts)
    slot = name(sx, "slot", texts)
    att = name(sx, "attachment", texts)
    ik = name(sx, "ik", texts)
    distinct(sx, [bone, "root"])
    a = W.region()
    if sx.flag("has path"):
        a["path"] = name(sx, "image", texts)
    d = {
        "skeleton": D.skeleton(),
        "bones": [{"name": "root"}, {"name": bone, "parent": "root"}],
        "slots": [{"name": slot, "bone": bone, "attachment": att}],
        "skins": [{"name": "default", "attachments": {slot: {att: a}}}],
        "ik": [{"name": ik, "bones": [bone], "target": "root"}],
    }
    sx.reach("kinds")
    check(sx, d, True)


def skins(sx, full):
    """Two slots whose attachments in two skins share keys, names and paths"""
    d = D.base()
    order = sx.choice("order", [["s1", "s2"], ["s2", "s1"]])
    d["slots"] = [{"name": s, "bone": sx.choice("bone of " + s, ["root", "b1"])} for s in order]
    d["skins"] = [{"name": "default", "attachments": {}}, {"name": "other", "attachments": {}}]
    for i, skin in enumerate(d["skins"]):
        for s in ("s1", "s2"):
            key = sx.choice("%d %s" % (i, s), [None, "a", "s1"])
            if key is None:
                continue
            a = sx.choice("%d %s kind" % (i, s), [W.region, W.mesh][:2 if full else 1])()
            image = sx.choice("%d %s image" % (i, s), ["-", "path", "name"] + (
                ["no path"] if full or (i and s == "s2" and key == "a") else []))
            if image == "no path":
                a.update(path="", name="b")
            elif image != "-":
                a[image] = "a" if image == "path" else "b"
            skin["attachments"][s] = {key: a}
            if sx.flag("%d %s more" % (i, s)) if full else i == 0:
                skin["attachments"][s]["z"] = W.region(name="a")
    if sx.flag("skin without attachments"):
        d["skins"].append({"name": "bare"})
    sx.reach("skins")
    check(sx, d)


def many(sx, n):
    """Order of many bones, slots and constraints"""
    order = sx.choice("order", ["up", "down"])
    names = ["n%d" % i for i in range(n)]
    if order == "down":
        names = names[::-1]
    first = sx.int("first", 0, n - 1)
    d = {"skeleton": D.skeleton(), "bones": [{"name": "root"}], "slots": [], "skins": []}
    for i, x in enumerate(names):
        d["bones"].append({"name": x, "parent": "root", "length": i})
        d["slots"].append({"name": x, "bone": x})
        d.setdefault("ik", []).append({"name": x, "bones": [x], "target": "root",
                                       "order": (n - i)})
    d["slots"][0]["color"] = sx.str("color", 8, D.HEX)
    d["ik"][0]["order"] = first
    sx.reach("many")
    check(sx, d)


def words(sx, n_words):
    """A document with every kind of reference, names with a meaning elsewhere"""
    n = {k: {x: x for x in v} for k, v in W.NAMES.items()}
    for i in range(n_words):
        kind = sx.choice("kind%d" % i, sorted(n))
        free = [x for x in n[kind] if x not in W.FIXED]
        word = sx.choice("word%d" % i, list(W.WORDS) + ["anim0", "u", "m", "b", "type"])
        sx.assume(word not in list(n[kind].values()))
        n[kind][sx.choice("which%d" % i, free[:2])] = word
    sx.reach("words")
    check(sx, W.named(sx, n, links=True))


def cases(tier):
    deep = tier == "thorough"
    texts = ["a_BONE", "a_SLOT", "root_BONE", "None"]
    more = texts + ["a_IK", "_ATTACHMENT", "BONE", ""]
    return [
        Case("bones", bones, "3 bones with any names of one character, names like ids of the "
             "graph or 'None', any parents, with or without a constraint",
             must_reach=["bones"], n=3, texts=more if deep else ["a_BONE", "None"]),
        Case("kinds", kinds, "a bone, slot, attachment, image and constraint with any names",
             must_reach=["kinds"], texts=more[:6] if deep else texts[:2], full=deep),
        Case("skins", skins, "two slots and two skins, attachments sharing keys and images",
             must_reach=["skins"], full=deep),
        Case("words", words, "a document with every kind of reference, one name (two names) "
             "a word with a meaning elsewhere", must_reach=["words"],
             n_words=2 if deep else 1),
        Case("many", many, "14 bones, slots and constraints", must_reach=["many"], n=14),
    ]
