"""Graphs with symbolic nodes and edges, and what the graph properties say about them."""
import itertools

from harness import doc as D

from spine_json_lib.graph.dagraph import DAGraph
from spine_json_lib.graph.factories import INodeFactory
from spine_json_lib.graph.spamnode import SpamNode

ASCII = "".join(map(chr, range(32, 127)))
RARE = "XYZ~\xe9\u4e2d"  # characters that make no keyword
ROOT = "INPUT_ROOT_NODE_TYPE"


def order(sx, tag, items, full):
    """The items in some order: any, or as given / reversed / rotated"""
    items = list(items)
    if full:
        out = []
        while items:
            x = sx.choice("%s %d" % (tag, len(out)), items)
            out.append(x)
            items = [y for y in items if y != x]
        return out
    how = sx.choice(tag, ["given", "reversed", "rotated"])
    if how == "reversed":
        return items[::-1]
    if how == "rotated":
        return items[1:] + items[:1]
    return items


def digraph(sx, ids, pairs, types=None, orders=False, graph=None):
    """(graph, edges): a graph over ids with any of the pairs as edges"""
    graph = graph or DAGraph()
    for x in order(sx, "node order", ids, orders == "all") if orders else ids:
        kw = {} if types is None else {"node_type": types[x]}
        graph.add_node(node_id=x, **kw)
    edges = [p for p in pairs if sx.flag("%s-%s" % p)]
    given = edges
    if orders and len(edges) > 1 and sx.flag("edges reversed"):
        given = edges[::-1]
    for a, b in given:
        graph.add_edge(a, b)
    return graph, edges


def ordered_pairs(ids):
    return [(a, b) for a in ids for b in ids if a != b]


def forward_pairs(ids):
    return list(itertools.combinations(ids, 2))


def big(n, shape):
    """(ids, edges) of a large graph of a fixed shape"""
    ids = ["n%d" % i for i in range(n)]
    pairs = {
        "chain": [(i, i + 1) for i in range(n - 1)],
        "star": [(0, i) for i in range(1, n)],
        "funnel": [(i, n - 1) for i in range(n - 1)],
        "diamonds": [(i, j) for i in range(n) for j in (i + 1, i + 2) if j < n],
        "two chains": [(i, i + 2) for i in range(n - 2)],
    }[shape]
    return ids, [(ids[i], ids[j]) for i, j in pairs]


SHAPES = ["chain", "star", "funnel", "diamonds", "two chains"]


def large(sx, n, forward, types=None, orders=True):
    """(graph, ids, edges): a large graph of some shape with one edge more and one less"""
    ids, edges = big(n, sx.choice("shape", SHAPES))
    ends = [ids[0], ids[1], ids[n // 2], ids[-2], ids[-1]]
    a = sx.choice("more from", ends + [None])
    if a is not None:
        later = [x for x in ends if (ids.index(x) > ids.index(a) if forward else x != a)]
        b = sx.choice("more to", later) if later else None
        if b is not None and (a, b) not in edges:
            edges.append((a, b))
    gone = None
    if orders:
        gone = sx.choice("less", [None, edges[0], edges[len(edges) // 2], edges[-1]])
    edges = [e for e in edges if e != gone]
    graph = DAGraph()
    for x in order(sx, "node order", ids, False) if orders else ids:
        graph.add_node(node_id=x, **({} if types is None else {"node_type": types(x)}))
    for a, b in (edges[::-1] if orders and sx.flag("edges reversed") else edges):
        graph.add_edge(a, b)
    return graph, ids, edges


def look(graph, ids):
    """All that is publicly visible of the nodes"""
    out = {}
    for x in ids:
        n = graph.get_node(x)
        if n is not None:
            out[x] = {
                "id": n.id, "data": n.data, "type": n.node_type, "public": n.public_id,
                "children": sorted(n.children), "parents": sorted(n.parents),
                "counts": [n.num_children, n.num_parents],
            }
    return out


def expect(sx, graph, ids, nodes, edges, message):
    """The graph has exactly these nodes (id -> node object) and edges"""
    for x in ids:
        n = graph.get_node(x)
        if x not in nodes:
            sx.check(n is None, "%s: unexpected node" % message)
            continue
        sx.check(n is nodes[x], "%s: node missing or replaced" % message)
        sx.check(sx.same(n.id, x), "%s: wrong id" % message)
    for x, n in nodes.items():
        kids = [b for a, b in edges if a == x]
        olds = [a for a, b in edges if b == x]
        sx.check(len(n.children) == len(kids) and all(k in n.children for k in kids),
                 "%s: wrong children" % message)
        sx.check(len(n.parents) == len(olds) and all(k in n.parents for k in olds),
                 "%s: wrong parents" % message)
        sx.check(n.num_children == len(kids) and n.num_parents == len(olds),
                 "%s: wrong counts" % message)
        for k in kids:
            sx.check(n.children[k] is nodes[k], "%s: wrong child object" % message)
        for k in olds:
            sx.check(n.parents[k] is nodes[k], "%s: wrong parent object" % message)


class TypedFactory(INodeFactory):
    """Nodes whose forbidden child types are given by type"""

    def __init__(self, forbidden):
        self.forbidden = forbidden

    def create_node(self, node_type, node_id, order, node_data=None, public_id=None):
        return SpamNode(id_value=node_id, data=node_data, node_type=node_type,
                        order=order, public_id=public_id,
                        children_types_forbidden=self.forbidden.get(node_type))


def cyclic(ids, edges):
    """Is there a directed cycle?"""
    left = list(ids)
    while True:
        free = [x for x in left if not any(b == x and a in left for a, b in edges)]
        if not free:
            return bool(left)
        left = [x for x in left if x not in free]


def all_paths(edges, a, b):
    """All directed paths of an acyclic graph"""
    if a == b:
        return [[b]]
    return [[a] + p for x, y in edges if x == a for p in all_paths(edges, y, b)]
