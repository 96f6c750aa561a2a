"""C26: pruning the skeleton graph removes exactly what is loose."""
import copy

from harness import doc as D
from harness import world as W
from symx.api import Case

from spine_json_lib.deserializer.spine_nodes import SpineGraphParser
from spine_json_lib.spine_graph_container import SpineGraphContainer

ASSUMPTIONS = ["names of one kind are distinct; attachments of one name share a node"]
TYPES = ["BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE"]


def model(d):
    """(nodes, edges): the objects of a document as (type, name), what is connected"""
    nodes, edges = [], []

    def node(kind, name):
        if (kind, name) not in nodes:
            nodes.append((kind, name))
        return kind, name

    def edge(x, y):
        if x in nodes and y in nodes and (x, y) not in edges:
            edges.append((x, y))

    for b in d["bones"]:
        n = node("BONE", b["name"])
        if b.get("parent") is not None:
            edge(("BONE", b["parent"]), n)
    for s in d["slots"]:
        n = node("SLOT", s["name"])
        edge(("BONE", s["bone"]), n)
        for skin in d["skins"]:
            for key, a in skin.get("attachments", {}).get(s["name"], {}).items():
                m = node("ATTACHMENT", key)
                edge(m, node("IMAGE", a.get("path") or a.get("name") or key))
                edge(n, m)
    for k in d.get("ik", []):
        n = node("IK", k["name"])
        for b in k["bones"]:
            edge(n, ("BONE", b))
        if k.get("target") is not None:
            edge(("BONE", k["target"]), n)
    return nodes, edges


def without(nodes, edges, gone):
    return ([n for n in nodes if n not in gone],
            [e for e in edges if e[0] not in gone and e[1] not in gone])


def loose(nodes, edges, kind, side, keep):
    """All nodes of the type that become loose: they have no edge left on that side"""
    gone = []
    while True:
        left, links = without(nodes, edges, gone)
        more = [n for n in left if n[0] == kind and n[1] not in keep
                and not any(e[side] == n for e in links)]
        if not more:
            return gone
        gone += more


def graph_id(n):
    return "%s_%s" % (n[1], n[0])


def compare(sx, container, nodes, edges, gone, data, d):
    graph = container.graph
    for n in gone:
        sx.check(graph.get_node(graph_id(n)) is None, "%s %s is still there" % n)
    for n in nodes:
        x = graph.get_node(graph_id(n))
        sx.check(x is not None, "%s %s is gone" % n)
        sx.check(sx.same(x.node_type, n[0]), "type of %s %s" % n)
        sx.check(sx.same(x.data, data[graph_id(n)]), "data of %s %s changed" % n)
        kids = [graph_id(b) for a, b in edges if a == n]
        olds = [graph_id(a) for a, b in edges if b == n]
        sx.check(sx.same(sorted(x.children), sorted(kids)), "children of %s %s" % n)
        sx.check(sx.same(sorted(x.parents), sorted(olds)), "parents of %s %s" % n)
        for k in kids:
            sx.check(x.children[k] is graph.get_node(k), "another child of %s %s" % n)
        for k in olds:
            sx.check(x.parents[k] is graph.get_node(k), "another parent of %s %s" % n)
    out = graph.to_json_data(SpineGraphParser)
    for section, kind in (("bones", "BONE"), ("slots", "SLOT"), ("ik", "IK")):
        want = [o for o in d.get(section, []) if (kind, o["name"]) in nodes]
        sx.check(sx.same(out.get(section, []), want), "exported %s differ" % section)


def subset(sx, tag, items):
    return [x for x in items if sx.flag("%s %s" % (tag, items.index(x)))]


def some(sx, tag, items):
    return sx.choice(tag, [items, items[:1], items[1::2], items[-1:], []])


def prune(sx, d, ops, steps, full=False, subset=subset):
    given = copy.deepcopy(d)
    nodes, edges = model(d)
    container = SpineGraphContainer(given)
    data = {graph_id(n): copy.deepcopy(container.graph.get_node(graph_id(n)).data)
            for n in nodes}
    gone = []
    for i in range(steps):
        op = sx.choice("op%d" % i, ops)
        sx.reach(op.split()[0])
        if op.startswith(("leafs", "heads")):
            kind = op.split()[1]
            names = [n[1] for n in nodes if n[0] == kind]
            if op.startswith("leafs"):
                if full or subset is some:
                    keep = subset(sx, "kept%d" % i, names)
                else:
                    keep = sx.choice("kept%d" % i, [[], names] + [[n] for n in names])
                if keep and (len(keep) == 1 or full and sx.flag("as set%d" % i)):
                    got = container.remove_leafs_of_type(kind, ids_to_keep=frozenset(keep))
                elif keep:
                    got = container.remove_leafs_of_type(kind, ids_to_keep=keep + ["nothing"])
                else:
                    got = container.remove_leafs_of_type(kind)
                more = loose(nodes, edges, kind, 0, keep)
            else:
                got = container.remove_heads_of_type(kind)
                more = loose(nodes, edges, kind, 1, [])
            sx.check(sx.same(sorted(got), sorted(n[1] for n in more)),
                     "reports other nodes than those removed")
            if len(more) > 1:
                sx.reach("several")
        else:
            kind = {"slots": "SLOT", "attachments": "ATTACHMENT"}[op]
            chosen = subset(sx, "removed%d" % i, [n[1] for n in nodes if n[0] == kind])
            if not chosen:
                chosen = ["no such name"]
            remove = container.remove_slots if kind == "SLOT" else container.remove_attachments
            more = [(kind, x) for x in chosen if (kind, x) in nodes]
            objects = [container.graph.get_node(graph_id(n)) for n in more]
            try:
                got = remove(list(chosen))
            except ValueError:
                sx.reach("unknown")
                sx.check(not more, "%s refused" % op)
            else:
                sx.check(more, "an unknown name is accepted")
                sx.check(len(got) == len(objects) and all(a is b for a, b in zip(got, objects)),
                         "other nodes are returned")
        gone += more
        nodes, edges = without(nodes, edges, more)
        compare(sx, container, nodes, edges, gone, data, d)
    sx.check(sx.same(given, d), "the document was modified")


def shapes(sx, ops, steps, full, constraint=True):
    """Any connections; objects of different kinds share their names"""
    bones = ["root", "b", "c"]
    d = {"skeleton": D.skeleton(), "bones": [{"name": "root"}], "slots": [], "skins": [
        {"name": "default", "attachments": {}}, {"name": "other", "attachments": {}}]}
    for i in (1, 2):
        b = {"name": bones[i]}
        parent = sx.choice("parent%d" % i, bones[:i] + [None] * (full and i == 2) if constraint else ["root"])
        if parent:
            b["parent"] = parent
        d["bones"].append(b)
    for i, s in enumerate(["b", "s"]):
        wide = full or i == 0
        d["slots"].append({"name": s, "bone": sx.choice(
            "bone of " + s, (["root", "b"] if full else ["b"]) + ["c", "nowhere"] if wide else ["c"])})
        a = sx.choice("attachments of " + s, ["none", "shared", "both"] + ["own"] * (i == 0))
        for name in {"none": [], "own": [s], "shared": ["c"], "both": ["c", s]}[a]:
            entry = W.region()
            if name == "c" and sx.flag("image of %s %s" % (s, name)):
                entry["path"] = "s"
            d["skins"][i if full else 0]["attachments"].setdefault(s, {})[name] = entry
    if constraint and sx.flag("ik"):
        d["ik"] = [{"name": "b", "bones": [sx.choice("ik bone", ["b", "c"] + ["nowhere"] * full)],
                    "target": "root"}]
    prune(sx, d, ops, steps, full)


def large(sx, n, ops):
    """Long chains and many objects of each kind"""
    names = ["n%d" % i for i in range(n)]
    form = sx.choice("bones", ["chain", "star", "two chains"])
    parents = {"chain": ["root"] + names, "star": ["root"] * n,
               "two chains": ["root", "root"] + names}[form]
    d = {"skeleton": D.skeleton(), "bones": [{"name": "root"}] + [
        {"name": x, "parent": p} for x, p in zip(names, parents)], "slots": [], "skins": [
        {"name": "default", "attachments": {}}, {"name": "other", "attachments": {}}]}
    place = sx.choice("slots", ["at the last", "one each", "in the middle", "nowhere"])
    content = sx.choice("attachments", ["own", "none", "the first only", "shared", "late"])
    for i, x in enumerate(names):
        d["slots"].append({"name": x, "bone": {
            "at the last": names[-1], "one each": x, "in the middle": names[n // 2],
            "nowhere": "nowhere"}[place]})
        if content == "none" or content == "the first only" and i or content == "late" and i < n // 2:
            continue
        skin = d["skins"][i % 2]["attachments"]
        skin[x] = {names[0] if content == "shared" else x: W.region(path="p%d" % (i // 2)),
                   "a%d" % i: W.region()}
    d["ik"] = [{"name": x, "bones": [x], "target": names[-1 - i]}
               for i, x in enumerate(names[::3])]
    prune(sx, d, ops, 1, subset=some)


def names(sx, kind, ops):
    """Any names of one kind, also names that look like ids of the graph"""
    n = {k: k for k in ("root", "b", "s", "t", "a", "z", "k")}
    free = {"BONE": ["b"], "SLOT": ["s", "t"], "ATTACHMENT": ["a", "z"], "IK": ["k"],
            "IMAGE": []}[kind]
    for x in free:
        n[x] = sx.choice("start of " + x, ["", "root_" + kind, "_"]) + sx.str(
            "name of " + x, sx.choice("length of " + x, [1, 2]), "bs_K")
    for i, x in enumerate(free):
        for y in free[:i] + ["root"]:
            sx.assume(n[x] != n[y])
    d = {
        "skeleton": D.skeleton(),
        "bones": [{"name": "root"}, {"name": n["b"], "parent": "root"}],
        "slots": [{"name": n["s"], "bone": n["b"]}, {"name": n["t"], "bone": "root"}],
        "skins": [{"name": "default", "attachments": {
            n["s"]: {n["a"]: W.region(path="p")}}}],
        "ik": [{"name": n["k"], "bones": [n["b"]], "target": "root"}],
    }
    if sx.flag("t has attachments"):
        d["skins"][0]["attachments"][n["t"]] = {n["a"]: W.region(path="p"),
                                                n["z"]: W.region(path="q")}
    prune(sx, d, ops, 1)


def cases(tier):
    deep = tier == "thorough"
    ops = ["leafs " + k for k in TYPES] + ["heads " + k for k in TYPES] + [
        "slots", "attachments"]
    kinds = [("BONE", ["leafs BONE", "heads BONE"]),
             ("SLOT", ["leafs SLOT", "heads SLOT", "slots"]),
             ("IK", ["leafs IK", "heads IK"]),
             ("ATTACHMENT", ["leafs ATTACHMENT", "heads ATTACHMENT", "attachments"])]
    return [
        Case("shapes", shapes, "3 bones, 2 slots, attachments and images they share or not, a "
             "constraint or not, connected in any way; any operation on any type, any names "
             "kept", must_reach=["leafs", "heads", "slots", "attachments", "several", "unknown"],
             ops=ops, steps=1, full=deep),
        Case("steps", shapes, "two operations as the clean-up does them", must_reach=[
            "leafs", "heads", "slots", "attachments", "several"],
             ops=ops if deep else ["slots", "attachments", "leafs SLOT", "heads IMAGE"],
             steps=2, full=False, constraint=deep),
        Case("large", large, "10 (25) bones in a chain, two chains or a star, 10 (25) slots at "
             "one bone or one each, two attachments each, shared, late or none, constraints; any "
             "operation on any type, all names kept, none, the first, the last or every second",
             must_reach=["leafs", "heads", "slots", "attachments", "several", "unknown"],
             ops=ops, n=25 if deep else 10),
    ] + [
        Case("names of " + k, names, "any names of one kind of up to 2 characters out of 4, or "
             "starting like an id of the graph", must_reach=[o.split()[0] for o in kops],
             kind=k, ops=kops)
        for k, kops in kinds
    ]
