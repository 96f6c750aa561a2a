"""C20: sequential_order_of_execution is a complete dependency order."""
from harness import graphs as G
from symx.api import Case

ASSUMPTIONS = ["fewer than some hundred nodes on a path (the recursion limit of Python)"]


def run(sx, n, orders):
    ids = ["n%d" % i for i in range(n)]
    graph, edges = G.digraph(sx, ids, G.forward_pairs(ids), orders=orders)
    ordered(sx, graph, ids, edges)


def large(sx, n):
    graph, ids, edges = G.large(sx, n, True)
    ordered(sx, graph, ids, edges)


def ordered(sx, graph, ids, edges):
    before = G.look(graph, ids)
    got = graph.sequential_order_of_execution()
    sx.observe("order", got)
    sx.check(sx.same(sorted(got), sorted(ids)), "not every node exactly once")
    for a, b in edges:
        sx.check(got.index(a) < got.index(b), "a node comes before its parent")
    if len(edges) > 1:
        sx.reach("edges")
    sx.check(sx.same(G.look(graph, ids), before), "the graph changed")


def cases(tier):
    deep = tier == "thorough"
    out = [
        Case("small", run, "all acyclic graphs over 4 nodes, nodes in any order, edges in two "
             "orders", must_reach=["edges"], n=4, orders="all"),
        Case("five", run, "all acyclic graphs over 5 nodes, nodes in 3 (all) orders, edges in "
             "two orders", must_reach=["edges"], n=5, orders="all" if deep else "some"),
    ]
    out.append(Case("large", large, "12 (24) nodes: %s; one edge more, one less, several node "
                    "and edge orders" % ", ".join(G.SHAPES), must_reach=["edges"],
                    n=24 if deep else 12))
    if deep:
        out.append(Case("six", run, "all acyclic graphs over 6 nodes", must_reach=["edges"],
                        n=6, orders=False))
    return out
