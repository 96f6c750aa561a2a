"""C27: results depend on the inputs only."""
import copy

from harness import doc as D
from harness import graphs as G
from harness import world as W
from symx.api import Case

from spine_json_lib import SpineAnimationEditor
from spine_json_lib.data.spine_exceptions import SpineJsonEditorError
from spine_json_lib.data.spine_version_type import SpineVersion
from spine_json_lib.graph.dagraph import DAGraph
from spine_json_lib.spine_graph_container import SpineGraphContainer
from spine_json_lib.utils import get_tags_from_name

ASSUMPTIONS = [
    "the order in which a process iterates over sets: any order of the first three elements, "
    "the others ascending after or descending before them, the same in all sets",
    "lists of removed slots and attachments are reported in no particular order",
]


def ordered(o):
    """JSON data that compares the order of keys too"""
    if isinstance(o, dict):
        return ["object", [[k, ordered(v)] for k, v in o.items()]]
    if isinstance(o, (list, tuple)):
        return [ordered(x) for x in o]
    return o


def edit(d, ops):
    """What an editor makes of a document"""
    out = []
    with W.quiet():
        try:
            editor = SpineAnimationEditor(d)
            for op in ops:
                if op == "scale":
                    editor.scale_animation(2, -0.5)
                elif op == "downgrade":
                    editor.spine_anim_data.data.clean_unsupported_attributes("3.7")
                elif op == "erase skin":
                    removed, images = editor.erase_skins(["gone"])
                    out.append([sorted(removed[0]), sorted(removed[1]), images])
                else:
                    removed = W.operate(None, editor, op)
                    out.append([sorted(removed[0]), sorted(removed[1])])
                out.append(ordered(editor.to_json_data()))
                out.append(ordered(editor.images_references))
        except (ValueError, TypeError, SpineJsonEditorError) as e:
            out.append(type(e).__name__)
    return out


def prune(d, ops):
    """What is left of the graph of a document"""
    out = []
    c = SpineGraphContainer(d)
    for op in ops:
        if op.startswith("leafs"):
            out.append(c.remove_leafs_of_type(op[6:], ids_to_keep=frozenset(["s1", "s2"])))
        elif op.startswith("heads"):
            out.append(c.remove_heads_of_type(op[6:]))
    out.append(c.graph.get_heads_id())
    out.append(c.graph.get_tails_id())
    return out


def ask(ids, types, edges):
    """Everything a graph answers"""
    graph = DAGraph()
    for x in ids:
        graph.add_node(node_id=x, node_type=types[x])
    for a, b in edges:
        graph.add_edge(a, b)
    errors = graph.validate().errors
    out = [ordered(errors), graph.get_heads_id(), graph.get_tails_id()]
    if not any("CIRCULAR_REFS" in e for e in errors):
        out.append(graph.sequential_order_of_execution())
    if not errors:
        for x in ids:
            out.append(graph.get_all_paths(ids[0], x))
    return out


def version(a, b):
    """What comparing two versions says"""
    try:
        x = SpineVersion(a)
        return [x < b, x <= b, x == b, x.major, x.minor, x.patch]
    except ValueError as e:
        return type(e).__name__


def tags(name):
    """The tags of a name"""
    try:
        return ordered(get_tags_from_name(name))
    except ValueError as e:
        return type(e).__name__


def alike(sx, x, y, message):
    sx.check(sx.same(x, y), message)


# ------------------------------------------------------------------ order of sets
def many(sx, full):
    """Several slots and attachments that can be removed, in any combination"""
    d = {
        "skeleton": D.skeleton(),
        "bones": [{"name": "root"}, {"name": "b", "parent": "root"}],
        "slots": [], "skins": [{"name": "default", "attachments": {}},
                               {"name": "gone", "attachments": {}}],
        "animations": {"anim0": {"slots": {}}, "gone": {"slots": {}}},
    }
    first, second = [s["attachments"] for s in d["skins"]]
    names = ["s0", "s1", "s2", "s3"][:4 if full else 3]
    for n in names:
        s = {"name": n, "bone": "b"}
        kind = sx.choice("kind of " + n, ["shown", "empty", "transparent"] + ["keyed"] * full)
        first[n] = {"x" + n: W.region(), "y" + n: W.mesh()}
        if kind != "empty":
            s["attachment"] = "x" + n
        if kind == "transparent":
            s["color"] = "ffffff00"
        if kind == "keyed":
            d["animations"]["gone"]["slots"][n] = {
                "attachment": [{"time": 1, "name": "y" + n}]}
        elif n == "s0":
            second[n] = {"y" + n: W.region(path="p"), "z": W.region(), "v": W.mesh(),
                         "w": W.mesh(path="q"), "m": W.linked("v")}
        d["slots"].append(s)
    keys = {
        "first to the end": [("s0", len(names) - 1)],
        "last to the front": [(names[-1], 1 - len(names))],
        "crossed": [("s0", 2), ("s2", -2)],
    }
    if full:
        keys["two forward"] = [("s0", 1), ("s2", 1)]
    d["animations"]["anim0"]["drawOrder"] = [{"time": 1, "offsets": [
        {"slot": s, "offset": o} for s, o in keys[sx.choice("draw order", list(keys))]]}]
    return d


def order(sx, full):
    d = many(sx, full)
    op = sx.choice("operation", ["clean", "erase animation", "erase skin"])
    calls = [(edit, [d, [op] + ["clean"] * full])]
    a = sx.process(calls)
    b = sx.process(calls, "any")
    sx.reach(op)
    if len(a[0]) > 1 and len(a[0][0][0]) > 1:
        sx.reach("several removed")
    alike(sx, a, b, "the result depends on the order of sets")


def crowd(sx, n):
    """Many slots that can be removed, some that stay"""
    names = ["s%d" % i for i in range(n)]
    shown = sx.choice("shown", [[names[0]], [names[n // 2]], [names[0], names[-1]], names[1::3]])
    kind = sx.choice("others", ["empty", "transparent", "keyed"])
    d = {
        "skeleton": D.skeleton(),
        "bones": [{"name": "root"}, {"name": "b", "parent": "root"}],
        "slots": [], "skins": [{"name": "default", "attachments": {}},
                               {"name": "gone", "attachments": {}}],
        "animations": {"anim0": {"slots": {}}, "gone": {"slots": {}}},
    }
    first, second = [s["attachments"] for s in d["skins"]]
    for i, x in enumerate(names):
        s = {"name": x, "bone": "b"}
        first[x] = {"x" + x: W.region(), "y" + x: W.mesh()}
        second[x] = {"y" + x: W.linked("v"), "v": W.mesh(path="q%d" % (i % 3)), "x" + x: W.region()}
        if x in shown or kind == "transparent":
            s["attachment"] = "x" + x
        if kind == "transparent" and x not in shown:
            s["color"] = "ffffff00"
        if kind == "keyed" and x not in shown:
            d["animations"]["gone"]["slots"][x] = {"attachment": [{"name": "y" + x}]}
        d["slots"].append(s)
    d["animations"]["anim0"]["drawOrder"] = [{"time": 1, "offsets": [
        {"slot": s, "offset": o} for s, o in sx.choice("draw order", [
            [("s0", n - 1)], [(names[-1], 1 - n)], [("s1", 3), (names[-1], -4)]])]}]
    calls = [(edit, [d, [sx.choice("operation", ["clean", "erase animation", "erase skin"])]])]
    sx.reach("edited")
    alike(sx, sx.process(calls), sx.process(calls, "any"),
          "the result depends on the order of sets")


def pruning(sx, full):
    d = many(sx, full)
    ops = ["leafs SLOT", "heads ATTACHMENT", "leafs BONE", "leafs IMAGE", "heads BONE",
           "heads SLOT"]
    calls = [(prune, [d, [sx.choice("op", ops), sx.choice("second", ops)]])]
    sx.reach("pruned")
    alike(sx, sx.process(calls), sx.process(calls, "any"),
          "the result depends on the order of sets")


def questions(sx, n, pairs):
    ids = ["n%d" % i for i in range(n)]
    types = {x: G.ROOT for x in ids}
    odd = sx.choice("odd one", [None] + ids[:2])
    if odd:
        types[odd] = 0
    edges = [p for p in pairs(ids) if sx.flag("%s-%s" % p)]
    calls = [(ask, [ids, types, edges])]
    a = sx.process(calls)
    sx.reach("answered")
    sx.observe("answers", a)
    alike(sx, a, sx.process(calls, "any"), "the answers depend on the order of sets")


# ------------------------------------------------------------------ what came before
def earlier(sx, kinds, pairs):
    """An object of the same name with other attributes in an earlier document"""
    kind = sx.choice("kind", kinds)
    attrs = D.attributes(kind)
    docs = []
    for tag in ("earlier", "later"):
        obj = {}
        if pairs and sx.flag(tag + " others"):
            obj = {a: D.sample(kind, a) for a in attrs}
        docs.append(obj)
    a = sx.choice("attribute", attrs)
    b = sx.choice("other attribute", [a] + ["none"] + (attrs if pairs else []))
    docs[0][a] = D.value(sx, "earlier value", D.KINDS[kind][a][0])
    if b != "none":
        docs[1][b] = D.value(sx, "later value", D.KINDS[kind][b][0])
    docs = [D.embed(kind, o) for o in docs]
    sx.reach(kind)
    calls = [(edit, [d, ["downgrade" if pairs and sx.flag("downgraded") else "scale"]])
             for d in docs]
    both = sx.process(calls)
    alike(sx, both[1], sx.process(calls[1:])[0],
          "the result depends on a document handled before")


def before(sx, full):
    """A document with the same names in other roles is cleaned up before"""
    docs = []
    for tag in ("earlier", "later"):
        kind = sx.choice(tag, ["one", "hidden", "scaled", "moved", "other", "tagged"])
        d = D.base()
        d["slots"] = [{"name": "s", "bone": "b1", "attachment": "a"},
                      {"name": "t", "bone": "root"}]
        d["skins"] = [{"name": "default", "attachments": {
            "s": {"a": W.region(), "m": W.mesh()}, "t": {"a": W.region(path="q")}}},
            {"name": "gone", "attachments": {"s": {"a": W.mesh(path="w")}}}]
        d["animations"] = {"anim0": {"bones": {"b1": {"rotate": [{"angle": 3}]}}}, "gone": {
            "slots": {"t": {"attachment": [{"time": 0, "name": "a"}]}}}}
        if kind == "hidden":
            d["slots"][0]["color"] = "ffffff00"
        elif kind == "scaled":
            d["skeleton"]["images"] = "./art/"
            d["bones"][1]["scaleX"] = 3
        elif kind == "moved":
            d["slots"].reverse()
            d["skins"][0]["attachments"]["t"]["m"] = W.linked("a")
            d["slots"][0]["attachment"] = "m"
        elif kind == "tagged":
            up = "up[scale:%s]" % sx.str(tag + " scale", 1, "123")
            d["bones"].insert(1, {"name": up, "parent": "root"})
            d["bones"][2]["parent"] = up
        elif kind == "other":
            d["skeleton"]["spine"] = "3.8.0"
            d["animations"]["anim0"] = {"slots": {"s": {"color": [
                {"time": 0, "color": W.alpha_color(sx, tag + ".alpha")}]}}}
            d["slots"][0]["color"] = "ffffff00"
        docs.append(d)
    ops = ["clean", "erase animation", "erase skin", "scale"]
    calls = [(edit, [docs[0], [sx.choice("before", ops)]]),
             (edit, [docs[1], [sx.choice("after", ops)]])]
    sx.reach("after")
    both = sx.process(calls)
    alike(sx, both[1], sx.process(calls[1:])[0],
          "the result depends on a document handled before")


def answered(sx, n):
    """Another graph over the same ids was asked before"""
    ids = ["n%d" % i for i in range(n)]
    calls = []
    for tag in ("earlier", "later"):
        types = {x: G.ROOT for x in ids}
        pairs = G.forward_pairs(ids) + [(ids[-1], ids[0])]
        edges = [p for p in pairs if sx.flag("%s %s-%s" % ((tag,) + p))]
        calls.append((ask, [ids, types, edges]))
    sx.reach("asked before")
    both = sx.process(calls)
    alike(sx, both[1], sx.process(calls[1:])[0], "the answers depend on another graph")


def versions(sx, lengths):
    """Other versions were parsed and compared before"""
    texts = []
    for tag in ("a", "b", "c", "d"):
        if tag in "ac":
            texts.append(sx.str(tag, sx.choice(tag + " length", lengths), "13."))
        else:
            texts.append(sx.choice(tag, ["3.1.3", "1.3"]))
    calls = [(version, texts[:2]), (version, texts[2:])]
    sx.reach("compared before")
    both = sx.process(calls)
    sx.observe("results", both)
    alike(sx, both[1], sx.process(calls[1:])[0], "comparing depends on what was compared before")


def tagged(sx, n):
    """The tags of another name were read before"""
    texts = [sx.choice(tag + " start", ["", "x[scale:", "[scale:1]"])
             + sx.str(tag, sx.choice(tag + " length", [2, n]), "1 ]") for tag in "ab"]
    calls = [(tags, [t]) for t in texts]
    sx.reach("read before")
    both = sx.process(calls)
    sx.observe("tags", both)
    alike(sx, both[1], sx.process(calls[1:])[0], "tags depend on names read before")


def cases(tier):
    deep = tier == "thorough"
    return [
        Case("order of sets", order, "%d slots, each shown, empty or transparent, with two "
             "attachments, a draw order; clean-up or erasing, then any order of the elements "
             "of every set" % (4 if deep else 3),
             must_reach=["clean", "erase animation", "erase skin", "several removed"], full=deep),
        Case("order of large sets", crowd, "9 (12) slots, two to all but one of which can be "
             "removed, two skins, a draw order; then any order of the elements of every set",
             must_reach=["edited"], n=12 if deep else 9),
        Case("order when pruning", pruning, "pruning leafs and heads of the graph of the same "
             "documents", must_reach=["pruned"], full=False),
        Case("order in graphs", questions, "all acyclic graphs over 4 nodes",
             must_reach=["answered"], n=4, pairs=G.forward_pairs),
        Case("order in cyclic graphs", questions, "all directed graphs over 3 nodes",
             must_reach=["answered"], n=3, pairs=G.ordered_pairs),
        Case("attributes before", earlier, "an object of every kind with any value of one "
             "attribute, after a document with the same object and any value",
             must_reach=list(D.KINDS), kinds=list(D.KINDS), pairs=deep),
        Case("documents before", before, "documents that give the same names other roles",
             must_reach=["after"], full=deep),
        Case("graphs before", answered, "two graphs over the same 3 nodes",
             must_reach=["asked before"], n=3),
        Case("tags before", tagged, "two names with any tag values of up to 3 characters",
             must_reach=["read before"], n=4 if deep else 3),
        Case("versions before", versions, "any text of up to 4 characters parsed and compared "
             "before another", must_reach=["compared before"],
             lengths=[3, 4, 5] if deep else [3, 4]),
    ]
