"""C18: validation reports circular references and unconnected nodes exactly."""
from harness import graphs as G
from symx.api import Case

ASSUMPTIONS = []


def check(sx, graph, ids, edges, types):
    before = G.look(graph, ids)
    errors = graph.validate().errors
    sx.observe("errors", errors)
    sx.check(sx.same(G.look(graph, ids), before), "validating changed the graph")
    seen = {}
    for e in errors:
        for k, v in e.items():
            sx.check(k not in seen, "a kind of error twice")
            seen[k] = v
    sx.check(all(k in ("CIRCULAR_REFS", "UNCONNECTED_NODES") for k in seen), "unknown error")
    cyclic = G.cyclic(ids, edges)
    sx.check(("CIRCULAR_REFS" in seen) == cyclic, "circular references not reported exactly")
    if cyclic:
        sx.reach("cyclic")
        sx.check(len(seen["CIRCULAR_REFS"]) > 0, "empty circular reference")
        sx.check(all(x in ids for x in seen["CIRCULAR_REFS"]), "unknown node reported")
        # the cycle found must pass through one of the reported nodes
        reach = {x: [b for a, b in edges if a == x] for x in ids}
        for x in ids:
            for y in reach[x]:
                for z in reach[y]:
                    if z not in reach[x]:
                        reach[x].append(z)
        sx.check(any(x in reach[x] for x in seen["CIRCULAR_REFS"]),
                 "no reported node lies on a cycle")
    alone = [x for x in ids if types[x] != G.ROOT and not any(b == x for a, b in edges)]
    sx.check(sx.same(sorted(seen.get("UNCONNECTED_NODES", [])), sorted(alone)),
             "unconnected nodes not reported exactly")
    if not cyclic and not alone:
        sx.reach("valid")
        sx.check(len(errors) == 0, "a valid graph has errors")


def run(sx, n, pairs, orders, kinds):
    ids = ["n%d" % i for i in range(n)]
    if kinds == "any":
        types = {x: sx.choice("type of " + x, [G.ROOT, 0, "BONE"][:3 if n < 4 else 2])
                 for x in ids}
    else:
        odd = sx.choice("odd one", [None] + ids)
        main = sx.choice("main type", [G.ROOT, 0])
        types = {x: main for x in ids}
        if odd is not None:
            types[odd] = 0 if main == G.ROOT else G.ROOT
    graph, edges = G.digraph(sx, ids, pairs(ids), types=types, orders=orders)
    check(sx, graph, ids, edges, types)


def types_of_heads(sx):
    """Two nodes, one of any type that resembles an input root's"""
    ids = ["n0", "n1"]
    near = sx.choice("type", [1, 2, "", "INPUT_ROOT", "INPUT_ROOT_NODE_TYPES", "ROOT",
                              "input_root_node_type", "INPUT_ROOT_NODE_TYPE ", "NODE_TYPE",
                              "PATH_PARAMETER_NODE_TYPE", "ACTION_NODE_TYPE", "DEFAULT", G.ROOT])
    types = {"n0": near, "n1": sx.choice("other", [G.ROOT, near])}
    graph, edges = G.digraph(sx, ids, G.ordered_pairs(ids), types=types, orders=False)
    check(sx, graph, ids, edges, types)


def large(sx, n):
    odd = sx.choice("odd one", [None, "n0", "n%d" % (n // 2), "n%d" % (n - 1)])
    main = sx.choice("main type", [G.ROOT, 0])

    def kind(x):
        return main if x != odd else 0 if main == G.ROOT else G.ROOT

    graph, ids, edges = G.large(sx, n, False, kind)
    check(sx, graph, ids, edges, {x: kind(x) for x in ids})


def cases(tier):
    deep = tier == "thorough"
    out = [
        Case("types", types_of_heads, "2 nodes of 13 types, any edges",
             must_reach=["cyclic", "valid"]),
        Case("small", run, "all directed graphs over 3 nodes of any types in several orders",
             must_reach=["cyclic", "valid"], n=3, pairs=G.ordered_pairs,
             orders="some", kinds="any"),
        Case("any", run, "all directed graphs over 4 nodes, all input roots or all not, with at "
             "most one exception (any types)", must_reach=["cyclic", "valid"], n=4,
             pairs=G.ordered_pairs, orders=False, kinds="any" if deep else "one"),
    ]
    out.append(Case("large", large, "11 (17) nodes: %s; one edge more, one less, several node "
                    "and edge orders, input roots or not with at most one exception"
                    % ", ".join(G.SHAPES),
                    must_reach=["cyclic", "valid"], n=17 if deep else 11))
    if deep:
        out += [
            Case("orders", run, "all directed graphs over 4 nodes in any node order",
                 must_reach=["cyclic", "valid"], n=4, pairs=G.ordered_pairs, orders="some",
                 kinds="one"),
            Case("acyclic", run, "all acyclic graphs over 5 nodes", must_reach=["valid"], n=5,
                 pairs=G.forward_pairs, orders="some", kinds="one"),
        ]
    return out
