"""C17: heads and tails are exactly the nodes without parents and without children."""
from harness import graphs as G
from symx.api import Case

ASSUMPTIONS = []


def exact(sx, graph, ids, edges):
    heads = [x for x in ids if not any(b == x for a, b in edges)]
    tails = [x for x in ids if not any(a == x for a, b in edges)]
    got_heads, got_tails = graph.get_heads_id(), graph.get_tails_id()
    sx.observe("ends", [got_heads, got_tails])
    sx.check(sx.same(sorted(got_heads), sorted(heads)), "wrong heads")
    sx.check(sx.same(sorted(got_tails), sorted(tails)), "wrong tails")
    sx.check(sx.same(sorted(graph.get_heads_id()), sorted(heads)), "wrong heads when repeated")


def large(sx, n):
    graph, ids, edges = G.large(sx, n, False)
    exact(sx, graph, ids, edges)
    sx.reach("graph")
    x = sx.choice("removed", [None, ids[0], ids[n // 2], ids[-1]])
    if x is not None:
        graph.remove_node_by_id(x)
        sx.reach("removal")
        exact(sx, graph, [y for y in ids if y != x], [e for e in edges if x not in e])


def run(sx, n, pairs, orders, removals):
    ids = ["n%d" % i for i in range(n)]
    graph, edges = G.digraph(sx, ids, pairs(ids), orders=orders)
    exact(sx, graph, ids, edges)
    sx.reach("graph")
    if removals:
        x = sx.choice("removed", ids + ["an edge"])
        if x == "an edge":
            if edges:
                a, b = sx.choice("removed edge", edges)
                graph.remove_edge(a, b)
                edges = [e for e in edges if e != (a, b)]
        else:
            graph.remove_node_by_id(x)
            ids = [y for y in ids if y != x]
            edges = [e for e in edges if x not in e]
        sx.reach("removal")
        exact(sx, graph, ids, edges)


def cases(tier):
    deep = tier == "thorough"
    out = [
        Case("small", run, "all directed graphs over 3 nodes in any node order, then any removal",
             must_reach=["graph", "removal"], n=3, pairs=G.ordered_pairs, orders="all",
             removals=True),
        Case("any", run, "all directed graphs over 4 nodes", must_reach=["graph"], n=4,
             pairs=G.ordered_pairs, orders=False, removals=False),
        Case("acyclic", run, "all acyclic graphs over 4 (5) nodes, then any removal; several "
             "node and edge orders", must_reach=["graph", "removal"], n=5 if deep else 4,
             pairs=G.forward_pairs, orders="some", removals=True),
    ]
    out.append(Case("large", large, "12 (24) nodes: %s; one edge more, one less, several node "
                    "and edge orders, any of 3 nodes removed" % ", ".join(G.SHAPES),
                    must_reach=["graph", "removal"], n=24 if deep else 12))
    if deep:
        out += [
            Case("any, orders", run, "all directed graphs over 4 nodes, several orders, then "
                 "any removal", must_reach=["graph", "removal"], n=4, pairs=G.ordered_pairs,
                 orders="some", removals=True),
            Case("acyclic 6", run, "all acyclic graphs over 6 nodes", must_reach=["graph"], n=6,
                 pairs=G.forward_pairs, orders=False, removals=False),
        ]
    return out
