"""C19: get_all_paths returns every path exactly once."""
from harness import graphs as G
from symx.api import Case

ASSUMPTIONS = ["fewer than some hundred nodes on a path (the recursion limit of Python)"]


def run(sx, n, orders, depth):
    ids = ["n%d" % i for i in range(n)]
    graph, edges = G.digraph(sx, ids, G.forward_pairs(ids), types={x: G.ROOT for x in ids},
                             orders=orders)
    before = G.look(graph, ids)
    a, b = sx.choice("from", ids), sx.choice("to", ids)
    kw = {}
    limit = 20
    if depth:
        limit = sx.int("depth", 0, n + 1)
        kw["maximum_depth"] = limit
    got = graph.get_all_paths(a, b, **kw)
    sx.observe("paths", got)
    want = []
    for p in G.all_paths(edges, a, b):
        if len(p) <= limit:
            want.append(p)
    sx.check(sx.same(sorted(got), sorted(want)), "wrong paths")
    if len(want) > 1:
        sx.reach("several")
    sx.check(sx.same(G.look(graph, ids), before), "the graph changed")
    again = graph.get_all_paths(a, b, **kw)
    sx.check(sx.same(sorted(again), sorted(want)), "wrong paths when repeated")


def long(sx, n, skips):
    """A chain of many nodes with shortcuts, from any node to any other"""
    ids = ["n%d" % i for i in range(n)]
    edges = list(zip(ids, ids[1:]))
    for i in range(skips):
        at = sx.choice("shortcut %d" % i, list(range(i * 5, i * 5 + 4)))
        edges.append((ids[at], ids[at + 2 + i % 2]))
    graph = G.DAGraph()
    for x in ids:
        graph.add_node(node_id=x, node_type=G.ROOT)
    for a, b in edges[::-1] if sx.flag("shortcuts first") else edges:
        graph.add_edge(a, b)
    a = sx.choice("from", list(range(0, n, 2)))
    b = sx.choice("to", [a + 1] + list(range(n - 5, n)))
    kw = {}
    limit = 20
    depth = sx.choice("depth", ["default", 1, 19, 21, n, 10 * n])
    if depth != "default":
        kw["maximum_depth"] = limit = depth
    a, b = ids[a], ids[min(b, n - 1)]
    got = graph.get_all_paths(a, b, **kw)
    sx.observe("paths", got)
    want = [p for p in G.all_paths(edges, a, b) if len(p) <= limit]
    sx.check(sx.same(sorted(got), sorted(want)), "wrong paths")
    if any(len(p) == limit for p in want):
        sx.reach("at the limit")
    if len(G.all_paths(edges, a, b)) > len(want):
        sx.reach("beyond the limit")


def refused(sx, n):
    """Invalid graphs and unknown ends"""
    ids = ["n%d" % i for i in range(n)]
    types = {x: sx.choice("type of " + x, [G.ROOT, 0]) for x in ids}
    graph, edges = G.digraph(sx, ids, G.ordered_pairs(ids), types=types)
    before = G.look(graph, ids)
    a, b = sx.choice("from", ids + ["unknown"]), sx.choice("to", ids + ["other"])
    valid = not G.cyclic(ids, edges) and all(
        types[x] == G.ROOT or any(t == x for s, t in edges) for x in ids)
    want = valid and a in ids and b in ids
    try:
        got = graph.get_all_paths(a, b)
    except ValueError:
        sx.reach("refused")
        sx.check(not want, "refused although valid")
    else:
        sx.reach("accepted")
        sx.check(want, "accepted although invalid")
        sx.check(sx.same(sorted(got), sorted(G.all_paths(edges, a, b))), "wrong paths")
    sx.check(sx.same(G.look(graph, ids), before), "the graph changed")


def cases(tier):
    deep = tier == "thorough"
    out = [
        Case("small", run, "all acyclic graphs over 4 nodes in several orders, all ends, all "
             "maximum depths 0..5", must_reach=["several"], n=4, orders="some", depth=True),
        Case("paths", run, "all acyclic graphs over 5 nodes, all ends (all depths 0..6)",
             must_reach=["several"], n=5, orders=False, depth=deep),
        Case("long", long, "chains of 24 (40) nodes with 2 (3) shortcuts at any place, six "
             "maximum depths", must_reach=["at the limit", "beyond the limit"],
             n=40 if deep else 24, skips=3 if deep else 2),
        Case("refused", refused, "all directed graphs over 3 nodes with any types, known and "
             "unknown ends", must_reach=["refused", "accepted"], n=3),
    ]
    return out
