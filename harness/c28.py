"""C28: loading and editing end, whatever a document refers to."""
import copy

from harness import doc as D
from harness import graphs as G
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor
from spine_json_lib.deserializer.spine_nodes import SpineGraphParser
from spine_json_lib.spine_graph_container import SpineGraphContainer

ASSUMPTIONS = [
    "a run ends when it takes less than 20 s (15 s on the real code); exhausting the "
    "recursion limit counts as not ending",
]
OPS = ["none", "clean", "erase animation", "erase skin", "scale", "downgrade"]
PRUNE = ["prune leafs", "prune heads"]


def run(sx, d, ops):
    given = copy.deepcopy(d)
    op = sx.choice("operation", ops)
    endless = False
    try:
        with W.quiet():
            if op.startswith("prune"):
                graph = SpineGraphContainer(given)
                prune = (graph.remove_leafs_of_type if op == "prune leafs"
                         else graph.remove_heads_of_type)
                for kind in ("SLOT", "IK", "BONE", "ATTACHMENT"):
                    prune(kind)
            else:
                editor = SpineAnimationEditor(given)
                sx.reach("loaded")
            if op.startswith("prune"):
                graph.graph.to_json_data(SpineGraphParser)
            elif op == "scale":
                editor.scale_animation(2, 3)
            elif op == "downgrade":
                editor.spine_anim_data.data.clean_unsupported_attributes("3.7")
            elif op != "none":
                W.operate(sx, editor, op)
            if not op.startswith("prune"):
                editor.to_json_data()
            sx.reach(op)
    except RecursionError:
        endless = True
    except Exception:
        sx.reach("refused")
    sx.check(not endless, "does not end")
    sx.check(sx.same(given, d), "the document passed in was modified")


def bones(sx, n, wide, ops):
    """Bones with any parents, also missing ones, later ones or themselves"""
    names = ["b%d" % i for i in range(n)]
    d = D.base()
    d["bones"] = []
    for b in names:
        bone = {"name": b}
        parent = sx.choice("parent of " + b, ["-", "root", "missing"] + names)
        if parent != "-":
            bone["parent"] = parent
        d["bones"].append(bone)
    root = sx.choice("root", ["first", "last"] + ["none"] * wide)
    if root != "none":
        r = {"name": "root"}
        parent = sx.choice("parent of root", ["-", names[0]] + ["root"] * wide)
        if parent != "-":
            r["parent"] = parent
        d["bones"].insert(0 if root == "first" else n, r)
    d["slots"][0]["bone"] = sx.choice("bone of slot", names[:1 + wide] + ["missing"])
    d["ik"] = [{"name": "k", "bones": [sx.choice("bone of ik", [names[0], "missing"])],
                "target": names[-1]}]
    d["animations"] = {"gone": {}, "anim0": {}}
    d["skins"].append({"name": "gone", "attachments": {}})
    run(sx, d, ops)


def graphs(sx, n):
    """Any directed graph"""
    ids = ["n%d" % i for i in range(n)]
    types = {x: G.ROOT for x in ids}
    graph, _ = G.digraph(sx, ids, G.ordered_pairs(ids), types=types)
    endless = False
    try:
        graph.validate()
        graph.get_heads_id()
        graph.get_tails_id()
        graph.sequential_order_of_execution()
        sx.reach("answered")
        graph.get_all_paths(ids[0], ids[-1])
    except RecursionError:
        endless = True
    except ValueError:
        sx.reach("refused")
    sx.check(not endless, "does not end")


def links(sx, full, ops):
    """Linked meshes with any parents, also themselves, each other or missing ones"""
    d = D.base()
    keys = ["l", "k"]
    att = d["skins"][0]["attachments"]["s1"]
    gone = {}
    d["skins"].append({"name": "gone", "attachments": {"s1": gone}})
    for x in keys:
        link = W.linked(sx.choice("parent of " + x, keys + ["missing", "a1"]))
        skin = sx.choice("skin of " + x, ["-", "gone", "missing"])
        if skin != "-":
            link["skin"] = skin
        att[x] = link
        if sx.flag(x + " in both"):
            gone[x] = dict(link, **({"path": "p"} if full else {}))
    d["slots"][0]["attachment"] = sx.choice("shown", ["l", "missing"])
    d["animations"] = {"gone": {}, "anim0": {}}
    run(sx, d, ops)


def orders(sx, n, ops):
    """Draw orders with any slots and offsets, skins and timelines for any slots"""
    d = D.base()
    d["slots"] = [{"name": "s%d" % i, "bone": "b1"} for i in range(n)]
    d["slots"][0]["attachment"] = "a1"
    d["skins"][0]["attachments"] = {sx.choice("slot of skin", ["s0", "missing"]): {
        "a1": W.region()}}
    offsets = []
    for i in range(2):
        slot = sx.choice("slot %d" % i, ["s0", "s1", "missing"])
        offsets.append({"slot": slot, "offset": sx.int("offset %d" % i, -3, 3)})
    slots = {}
    if sx.flag("timeline"):
        slots[sx.choice("slot of timeline", ["s0", "missing"])] = {
            "attachment": [{"time": 0, "name": sx.choice("key", ["a1", "missing", None])}]}
    d["animations"] = {"gone": {}, "anim0": {"slots": slots, "drawOrder": [
        {"time": 1, "offsets": offsets}]}}
    d["skins"].append({"name": "gone", "attachments": {}})
    run(sx, d, ops)


def ends(sx, ops):
    """Clippings, path constraints and constraints that refer to anything"""
    d = D.base()
    names = ["s1", "s2", "missing"]
    att = d["skins"][0]["attachments"]
    att["s1"]["c"] = {"type": "clipping", "end": sx.choice("end", names), "vertexCount": 3,
                      "vertices": [1, 2, 3]}
    d["slots"][0]["attachment"] = "c"
    d["path"] = [{"name": "p", "bones": [sx.choice("path bone", ["b1", "missing"])],
                  "target": sx.choice("target", names)}]
    d["ik"] = [{"name": n, "bones": [sx.choice("bone of " + n, ["b1", "root", "missing"])],
                "target": sx.choice("target of " + n, ["b1", "root", "missing"])}
               for n in ("i", "j")]
    d["animations"] = {"gone": {}, "anim0": {}}
    d["skins"].append({"name": "gone", "attachments": {}})
    run(sx, d, ops)


def cases(tier):
    deep = tier == "thorough"
    text = "; any operation, ends with a result or an error"
    return [
        Case("bones", bones, "%d bones with any parents, also missing or circular ones, the "
             "root first, last or missing" % 3 + text,
             must_reach=["loaded", "refused"] + OPS + PRUNE, n=3, wide=True,
             ops=OPS + PRUNE) if deep else
        Case("bones", bones, "2 bones and the root with any parents, also missing or circular "
             "ones" + text, must_reach=["loaded", "refused"] + OPS[:5] + PRUNE, n=2, wide=True,
             ops=OPS[:5] + PRUNE),
        Case("graphs", graphs, "all directed graphs over 3 (4) nodes, every question answered "
             "or refused", must_reach=["answered"], n=4 if deep else 3),
        Case("linked meshes", links, "two linked meshes with any parents, also circular"
             + text, must_reach=["loaded", "refused"] + OPS, full=deep, ops=OPS),
        Case("draw orders", orders, "draw orders of any two entries, timelines and skins of any "
             "slots" + text, must_reach=["loaded", "refused", "clean"], n=3 if deep else 2,
             ops=OPS if deep else ["clean", "erase animation"]),
        Case("constraints", ends, "clippings, paths and constraints referring to anything"
             + text, must_reach=["loaded"] + OPS, ops=OPS),
    ]
