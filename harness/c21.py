"""C21: generated ids are fresh and nodes are identified by their id."""
from harness import doc as D
from harness import graphs as G
from symx.api import Case

from spine_json_lib.graph.dagraph import DAGraph
from spine_json_lib.graph.spamnode import SpamNode

ASSUMPTIONS = []


def run(sx, steps, length, alphabet="129a"):
    graph = DAGraph()
    nodes = {}
    gone = []
    for k in range(steps):
        op = sx.choice("op%d" % k, ["add", "generate", "remove", "ask"])
        if op == "add":
            x = sx.str("id%d" % k, sx.choice("length %d" % k, length), alphabet)
            try:
                n = graph.add_node(node_id=x)
            except ValueError:
                sx.reach("duplicate")
                sx.check(x in nodes, "a free id was refused")
                n = nodes[x]
            else:
                sx.check(x not in nodes, "a taken id was accepted")
                nodes[x] = n
            sx.check(sx.same(n.id, x), "the id is not the given one")
        elif op == "generate":
            n = graph.add_node()
            sx.reach("generated")
            sx.check(isinstance(n.id, str), "a generated id is no text")
            sx.check(n.id not in nodes, "a generated id is taken")
            nodes[n.id] = n
        elif op == "remove":
            if nodes:
                x = sx.choice("removed %d" % k, list(nodes))
                graph.remove_node_by_id(x)
                gone.append(x)
                del nodes[x]
        else:
            x = graph.generate_unique_id()
            sx.check(x not in nodes, "a generated id is taken")
        sx.observe("ids%d" % k, list(nodes))
        for x, n in nodes.items():
            sx.check(graph.get_node(x) is n, "a node is not found by its id")
            sx.check(sx.same(n.id, x), "the id changed")
        for x in gone:
            if x not in nodes:
                sx.check(graph.get_node(x) is None, "a removed node is found")


def occupied(sx, adds, generated, starts):
    """Explicit ids that are numbers, then generated ones"""
    graph = DAGraph()
    ids = ["n%d" % i for i in range(sx.choice("nodes before", starts))]
    for x in ids:
        graph.add_node(node_id=x)
    crossing = len(ids) > 0
    for k in range(adds):
        x = sx.str("id%d" % k, sx.choice("length %d" % k, [1, 2] if crossing else [1]),
                   "01289" if crossing else "123456789")
        if any(x == y for y in ids):
            sx.reach("duplicate")
            continue
        graph.add_node(node_id=x)
        ids.append(x)
    for k in range(generated):
        n = graph.add_node()
        sx.reach("generated")
        sx.check(all(n.id != y for y in ids), "a generated id is taken")
        sx.check(graph.get_node(n.id) is n, "a node is not found by its id")
        ids.append(n.id)
    sx.observe("ids", ids)
    sx.check(all(sx.same(graph.get_node(x).id, x) is not False for x in ids), "a node was lost")


def full(sx, n):
    """All numbers up to n are taken but those removed; then generated ids"""
    graph = DAGraph()
    start = sx.choice("first", [1, 2, n // 2])
    ids = [str(i) for i in range(start, start + n)]
    for x in (ids[::-1] if sx.flag("descending") else ids):
        graph.add_node(node_id=x)
    gone = sx.choice("removed", [None, ids[0], ids[n // 2], ids[-1]])
    if gone is not None:
        graph.remove_node_by_id(gone)
        ids = [x for x in ids if x != gone]
    for k in range(3):
        if sx.flag("asked %d" % k):
            sx.check(graph.generate_unique_id() not in ids, "a generated id is taken")
        x = graph.add_node()
        sx.reach("generated")
        sx.check(x.id not in ids, "a generated id is taken")
        sx.check(graph.get_node(x.id) is x, "a node is not found by its id")
        ids.append(x.id)
    sx.observe("ids", ids)
    sx.check(all(graph.get_node(x) is not None and graph.get_node(x).id == x for x in ids),
             "a node was lost")


def identity(sx, length):
    """Equality and hash of nodes with any ids, types, data and orders"""
    differs = sx.choice("second node", ["as the first", "other order", "other data",
                                        "other type", "other public id", "other"])

    def node(tag):
        def other(what):
            return tag == "q" and differs in ("other", "other " + what)

        return SpamNode(id_value=sx.str(tag + " id", sx.choice(tag + " length", length),
                                        G.ASCII),
                        order="2" if other("order") else "1",
                        data={"x": 1} if other("data") else None,
                        node_type="BONE" if other("type") else None,
                        public_id="y" if other("public id") else None)

    p, q = node("p"), node("q")
    equal = bool(p == q)
    sx.observe("equal", equal)
    sx.check(sx.same(equal, True) if sx.same(p.id, q.id) is True else
             (equal == bool(p.id == q.id)), "equality is not that of the ids")
    sx.check(bool(p != q) == (not equal), "inequality is not the negation of equality")
    if equal:
        sx.reach("equal")
        sx.check(hash(p) == hash(q), "equal nodes with different hashes")
        sx.check(len({p, q}) == 1, "equal nodes are two in a set")
        sx.check({p: 1}.get(q) == 1, "an equal node is not found in a dictionary")
    else:
        sx.reach("different")
        sx.check(len({p, q}) == 2, "different nodes are one in a set")


def cases(tier):
    deep = tier == "thorough"
    return [
        Case("histories", run, "all sequences of 4 (5) additions with any id of 1 (1 or 2) "
             "characters out of 1, 2, 9 and a, generated ids and removals",
             must_reach=["duplicate", "generated"], steps=5 if deep else 4,
             length=[1, 2] if deep else [1]),
        Case("occupied", occupied, "up to 3 (4) explicit ids that are any numbers of one digit "
             "(or, after 7 nodes, up to two digits out of 0, 1, 2, 8, 9), then 2 generated",
             must_reach=["duplicate", "generated"], adds=4 if deep else 3,
             generated=3 if deep else 2, starts=[0, 7]),
        Case("full", full, "12 (102) nodes whose ids are consecutive numbers from 1, 2 or the "
             "half, one of them removed or none, then 3 generated ids", must_reach=["generated"],
             n=102 if deep else 12),
        Case("identity", identity, "any two nodes with ids of up to 3 characters",
             must_reach=["equal", "different"], length=[0, 1, 3] if deep else [1, 2]),
    ]
