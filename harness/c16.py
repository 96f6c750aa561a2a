"""C16: graph edges are symmetric and operations are exact or have no effect."""
from harness import doc as D
from harness import graphs as G
from symx.api import Case

from spine_json_lib.deserializer.spine_nodes import NodeType, SpineNodeFactory
from spine_json_lib.graph.dagraph import DAGraph

ASSUMPTIONS = ["one graph; nodes are changed through the graph's methods only"]
CHARS = "b12"


def apply(sx, tag, graph, nodes, edges, ident, ops):
    """One operation on the graph and on the model of it"""
    op = sx.choice(tag, ops)
    before = (dict(nodes), list(edges))
    failed = None
    try:
        if op == "add":
            x = ident(tag + " id")
            n = graph.add_node(node_id=x)
            nodes[x] = n
        elif op == "add generated":
            n = graph.add_node()
            sx.check(n.id not in nodes, "a generated id is taken")
            nodes[n.id] = n
        elif op == "add number":
            graph.add_node(node_id=1)
        elif op == "remove":
            x = ident(tag + " id")
            n = graph.remove_node_by_id(x)
            sx.check(x in nodes and n is nodes[x], "wrong node removed")
            del nodes[x]
            edges[:] = [e for e in edges if x not in e]
        elif op == "connect":
            a, b = ident(tag + " from"), ident(tag + " to")
            graph.add_edge(a, b)
            if (a, b) not in edges:
                edges.append((a, b))
        else:
            a, b = ident(tag + " from"), ident(tag + " to")
            graph.remove_edge(a, b)
            sx.check((a, b) in edges, "an edge that is not there was removed")
            edges.remove((a, b))
    except (ValueError, TypeError, KeyError, AttributeError) as e:
        failed = e
        nodes.clear()
        nodes.update(before[0])
        edges[:] = before[1]
    # which operations fail
    if op == "add":
        bad = x in before[0]
    elif op == "add number":
        bad = True
    elif op == "remove":
        bad = x not in before[0]
    elif op == "connect":
        bad = a not in before[0] or b not in before[0] or a == b
    elif op == "disconnect":
        bad = (a, b) not in before[1]
    else:
        bad = False
    sx.check(bad == (failed is not None), "%s: wrong success or failure" % op)
    if op == "add number":
        sx.check(isinstance(failed, TypeError), "wrong error")
    elif failed is not None and op in ("add", "remove"):
        sx.check(isinstance(failed, ValueError), "wrong error")
    sx.observe(tag, [op, failed is None, len(nodes), len(edges)])
    sx.reach("failed" if failed is not None else "done")


def histories(sx, n, steps, ops, length):
    def ident(tag):
        return sx.str(tag, length, CHARS if length == 1 else G.RARE)

    ids = [ident("n%d" % i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            sx.assume(sx.no(sx.same(ids[i], ids[j])))
    graph = DAGraph()
    nodes = {}
    edges = []
    for x in ids:
        nodes[x] = graph.add_node(node_id=x)
    for i in range(n):
        for j in range(n):
            if i != j and sx.flag("%d-%d" % (i, j)):
                graph.add_edge(ids[i], ids[j])
                edges.append((ids[i], ids[j]))
    names = list(ids)

    def used(tag):
        x = ident(tag)
        if not any(x == y for y in names):
            names.append(x)
        return x

    for k in range(steps):
        apply(sx, "op%d" % k, graph, nodes, edges, used, ops)
        G.expect(sx, graph, names + [x for x in nodes if x not in names], nodes, edges,
                 "after a step")


def large(sx, n, ops):
    """One operation on a large graph"""
    graph, ids, edges = G.large(sx, n, False, orders=False)
    nodes = {x: graph.get_node(x) for x in ids}
    names = ids + ["n", "n00"]

    def ident(tag):
        return sx.choice(tag, [ids[0], ids[1], ids[n // 2], ids[-1], "n"])

    apply(sx, "op", graph, nodes, edges, ident, ops)
    G.expect(sx, graph, names + [x for x in nodes if x not in names], nodes, edges,
             "after a step")


def types(sx, n):
    """Forbidden child types, with any rules"""
    kinds = ["x", "y", 0]
    forbidden = {}
    for k in kinds:
        forbidden[k] = [c for c in kinds if sx.flag("%s forbids %s" % (k, c))]
    graph = DAGraph(G.TypedFactory(forbidden))
    ids = ["n%d" % i for i in range(n)]
    kind = {x: sx.choice("type of " + x, kinds) for x in ids}
    nodes = {x: graph.add_node(node_id=x, node_type=kind[x]) for x in ids}
    edges = []
    for a, b in G.ordered_pairs(ids):
        try:
            graph.add_edge(a, b)
            edges.append((a, b))
        except TypeError:
            sx.reach("forbidden")
            sx.check(kind[b] in forbidden[kind[a]], "a permitted edge was refused")
        else:
            sx.check(kind[b] not in forbidden[kind[a]], "a forbidden edge was added")
        G.expect(sx, graph, ids, nodes, edges, "after adding an edge")


def many_types(sx, n):
    """A long list of forbidden child types"""
    rules = ["t%d" % i for i in range(n)]
    graph = DAGraph(G.TypedFactory({"p": rules, "c": []}))
    ids = ["p", "c", "q"]
    kind = sx.choice("type", ["t%d" % i for i in range(n + 2)])
    nodes = {"p": graph.add_node(node_id="p", node_type="p"),
             "c": graph.add_node(node_id="c", node_type=kind),
             "q": graph.add_node(node_id="q", node_type="p")}
    if sx.flag("rules changed later"):
        # the node keeps the rules it was made with
        rules.clear()
        forbidden = ["t%d" % i for i in range(n)]
    else:
        forbidden = list(rules)
    edges = []
    for a in ("p", "q"):
        try:
            graph.add_edge(a, "c")
            edges.append((a, "c"))
            sx.reach("edge")
        except TypeError:
            sx.reach("forbidden")
        sx.check(((a, "c") in edges) == (kind not in forbidden), "wrong answer")
        G.expect(sx, graph, ids, nodes, edges, "after adding an edge")


def spine_types(sx):
    """The factory for skeletons: edges are there on both ends or not at all"""
    graph = DAGraph(SpineNodeFactory())
    kinds = ["BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE"]
    ids = ["p", "q"]
    nodes = {x: graph.add_node(node_id=x, node_type=sx.choice(x, kinds), node_data={"k": x})
             for x in ids}
    edges = []
    for a, b in G.ordered_pairs(ids):
        try:
            graph.add_edge(a, b)
            edges.append((a, b))
            sx.reach("edge")
        except TypeError:
            sx.reach("forbidden")
        G.expect(sx, graph, ids, nodes, edges, "after adding an edge")
    for x in ids:
        sx.check(sx.same(nodes[x].data, {"k": x}), "wrong data")


def cases(tier):
    deep = tier == "thorough"
    ops = ["add", "add generated", "add number", "remove", "connect", "disconnect"]
    found = ["done", "failed"]
    out = [
        Case("a step", histories, "any graph of 3 nodes with any ids of 2 characters, one "
             "operation with any arguments", must_reach=found, n=3, steps=1, ops=ops, length=2),
        Case("from nothing", histories, "all histories of 3 (4) operations from the empty "
             "graph, ids of one character", must_reach=found, n=0, steps=4 if deep else 3,
             ops=ops, length=1),
        Case("two steps", histories, "any graph of 2 nodes, 2 (3) operations, any ids of 2 "
             "characters", must_reach=found, n=2, steps=3 if deep else 2, ops=ops, length=2),
        Case("types", types, "any rules of forbidden child types over 3 types, any types of 2 "
             "(3) nodes, all edges added", must_reach=["forbidden"], n=2),
        Case("many types", many_types, "9 forbidden child types, a child of any of 11 types",
             must_reach=["forbidden", "edge"], n=9),
        Case("skeleton types", spine_types, "any two nodes of the skeleton graph",
             must_reach=["forbidden", "edge"]),
    ]
    out.append(Case("large", large, "12 (24) nodes: %s; one edge more; "
                    "one operation at any of 4 nodes or none" % ", ".join(G.SHAPES),
                    must_reach=found, n=24 if deep else 12, ops=ops[:1] + ops[3:]))
    if deep:
        out.append(Case("two steps of three", histories, "any graph of 3 nodes, 2 operations",
                        must_reach=found, n=3, steps=2, ops=ops, length=1))
    return out
