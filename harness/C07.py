from .common import *

BOUNDS = dict(quick="3 variables, every initial edge set up to 2 edges in any order, every sequence of up to 3 operations (node removal, edge addition, edge removal, on Structure or on NetworkGraph), symbolic cardinalities; parent order for up to 4 parents inserted in any order",
              thorough="4 operations on 3 variables, 3 operations on 4 variables, 5 parents in any order")
OUTSIDE = "longer sequences (operations are independent of how the state was reached, except through the state itself)"
COVERS = ["node removed", "edge added", "edge removed", "several parents", "isolated node", "fast_init", "inherited edge", "graph", "structure", "more than ten variables", "asked between the operations"]
ASSUMPTIONS = ["an edge is added only while absent and removed from a Structure only while present (lists may hold duplicates otherwise)"]


def pick(ctx, name, opts):
    return ctx.choice(name, opts)


def check_structure(ctx, st, nodes, edges, cards):
    all_nodes = LABELS[:len(cards)]
    ctx.check("remaining variables in order", list(st.nodes_labels) == nodes)
    ctx.check("parallel arrays", len(st.nodes_indexes) == len(nodes) and len(st.nodes_values) == len(nodes))
    ctx.eq("number of data columns", st.total_variables_number, len(cards))
    for pos, l in enumerate(nodes):
        v = all_nodes.index(l)
        ctx.eq("own data column", st.get_node_indx(l), v)
        ctx.eq("own cardinality", st.get_states_number(l), cards[v])
        ctx.check("position", st.get_positional_node_indx(l) == pos and st.get_node_id(pos) == l)
        ctx.eq("own data column in the array", st.nodes_indexes[pos], v)
        ctx.eq("own cardinality in the array", st.nodes_values[pos], cards[v])
    got = [tuple(e) for e in st.edges]
    ctx.check("exactly the current edges", sorted(got) == sorted(edges))
    for a in all_nodes:
        for b in all_nodes:
            if a != b:
                ctx.check("an edge is present exactly if added and not removed", bool(st.contains_edge((a, b))) == ((a, b) in edges))


def check_graph(ctx, g, st, nodes, edges, cards):
    all_nodes = LABELS[:len(cards)]
    ctx.check("remaining variables of the graph", list(g.nodes) == nodes)
    ctx.check("edges of the graph", sorted(tuple(e) for e in g.edges) == sorted(edges))
    ctx.check("arrays of the graph", len(g.nodes_indexes) == len(nodes) and len(g.nodes_values) == len(nodes))
    for pos, l in enumerate(nodes):
        ctx.eq("own data column in the graph's array", g.nodes_indexes[pos], all_nodes.index(l))
        ctx.eq("own cardinality in the graph's array", g.nodes_values[pos], cards[all_nodes.index(l)])
    for a in all_nodes:
        for b in all_nodes:
            if a != b:
                ctx.check("an edge is present in the graph exactly if added and not removed", bool(g.has_edge((a, b))) == ((a, b) in edges))
    for l in nodes:
        v = all_nodes.index(l)
        ctx.eq("own data column in the graph", g.get_node_indx(l), v)
        ctx.check("position in the graph", g.get_positional_node_indx(l) == st.get_positional_node_indx(l))
        ctx.eq("own cardinality in the graph", g.get_states_number(l), cards[v])
        par = [x for x in nodes if (x, l) in edges]
        ctx.check("parents are the sources of incoming edges", sorted(g.get_parents_by_id(l)) == sorted(par))
        p, pi, pv = g.get_ordered_by_indx_set_of_parents(l)
        ctx.check("parents in variable order", list(p) == par)
        ctx.check("one index and cardinality per parent", len(pi) == len(par) and len(pv) == len(par))
        for k, x in enumerate(par):
            ctx.eq("parent's own data column", pi[k], all_nodes.index(x))
            ctx.eq("parent's own cardinality", pv[k], cards[all_nodes.index(x)])
        if len(par) > 1:
            ctx.cover("several parents")
        if not par and not any(a == l for a, b in edges):
            ctx.cover("isolated node")


def look(ctx, st, g, nodes, sedges, edges, cards):
    check_structure(ctx, st, nodes, sedges, cards)
    if g is not None:
        check_graph(ctx, g, st, nodes, edges, cards)


def sequence(ctx, n, initial, steps, kind, first, between=False):
    labels = LABELS[:n]
    cards = [ctx.int("card%d" % v, 2, 100000) for v in range(n)]
    edges = [(labels[a], labels[b]) for a, b in initial]
    st = ctx.lib.Structure(list(labels), np.arange(n), ctx.farray(cards, np.int64), list(edges), n)
    nodes = list(labels)
    g = None
    if kind == "graph":
        g = ctx.lib.NetworkGraph(st)
        g.add_nodes(st.nodes_labels)
        g.add_edges(st.edges)
    if edges:
        ctx.cover("inherited edge")
    sedges = list(edges)                 # what the structure holds (the graph is edited on top of it)
    ctx.cover(kind)
    for k in range(steps):
        if between:                      # everything asked before the operation as well
            look(ctx, st, g, nodes, sedges, edges, cards)
            ctx.cover("asked between the operations")
        absent = [(a, b) for a in nodes for b in nodes if a != b and (a, b) not in edges]
        ops = []
        if len(nodes) > 1:
            ops += [("node", x) for x in nodes]
        ops += [("add", e) for e in absent] + [("del", e) for e in edges]
        if kind == "graph":
            ops += [("del", absent[0])] if absent else []       # removing an absent edge changes nothing
        if k == 0 and first is not None:
            ops = [o for i, o in enumerate(ops) if i % first[1] == first[0]]
            if not ops:
                ctx.cut("no such operation")
        op, x = ops[ctx.int("op%d" % k, 0, len(ops) - 1).__index__()]
        if op == "node":
            (g or st).remove_node(x)
            nodes.remove(x)
            edges = [e for e in edges if x not in e]
            sedges = [e for e in sedges if x not in e]
            ctx.cover("node removed")
        elif op == "add":
            if g is not None:
                g.add_edges([x])
            else:
                st.add_edge(x)
                sedges.append(x)
            edges = edges + [x]
            ctx.cover("edge added")
        else:
            if g is not None:
                g.remove_edges([x])
            else:
                st.remove_edge(x)
                sedges.remove(x)
            edges = [e for e in edges if e != x]
            ctx.cover("edge removed")
    check_structure(ctx, st, nodes, sedges, cards)
    if g is not None:
        check_graph(ctx, g, st, nodes, edges, cards)
    else:
        # a graph built from the edited structure agrees with it
        g2 = ctx.lib.NetworkGraph(st)
        g2.add_nodes(st.nodes_labels)
        g2.add_edges(st.edges)
        check_graph(ctx, g2, st, nodes, edges, cards)


def parents(ctx, n, node):
    """Any subset of edges inserted in any order: the parents come out in variable order."""
    labels = LABELS[:n]
    cards = [2 + (v * 3 + 1) % 4 for v in range(n)]
    others = [l for l in labels if l != labels[node]]
    left, ins = list(others), []
    k = ctx.int("k", 0, len(others)).__index__()
    for i in range(k):
        ins.append(left.pop(ctx.int("i%d" % i, 0, len(left) - 1).__index__()))
    edges = [(p, labels[node]) for p in ins]
    st = ctx.lib.Structure(list(labels), np.arange(n), np.array(cards), edges, n)
    g = ctx.lib.NetworkGraph(st)
    g.fast_init(labels[node])
    check_graph(ctx, g, st, list(labels), edges, cards)
    ctx.cover("fast_init")


def many_parents(ctx, n, node):
    """More variables than one digit counts, any two of their edges missing, inserted from the last or from the first."""
    labels = ["V%d" % ((v * 5 + 3) % 17) for v in range(n)]
    cards = [2 + (v * 3 + 1) % 4 for v in range(n)]
    ins = [p for p in range(n) if p != node]
    for k in range(2):
        del ins[ctx.int("without%d" % k, 0, len(ins) - 1).__index__()]
    ins = ctx.choice("order", [ins, ins[::-1], ins[n // 2:] + ins[:n // 2]])
    edges = [(labels[p], labels[node]) for p in ins]
    st = ctx.lib.Structure(list(labels), np.arange(n), np.array(cards), edges[::2], n)
    g = ctx.lib.NetworkGraph(st)
    g.add_nodes(list(labels))
    g.add_edges(edges)
    got = g.get_ordered_by_indx_set_of_parents(labels[node])
    ps = sorted(ins)
    ctx.check("parents in variable order, each with its index and cardinality", [list(x) for x in got] == [[labels[p] for p in ps], ps, [cards[p] for p in ps]])
    ctx.check("index and cardinality of each variable", all(int(g.get_node_indx(labels[v])) == v and int(g.get_states_number(labels[v])) == cards[v] for v in range(n)))
    ctx.check("an edge is reported present exactly if it was added", all(bool(g.has_edge((labels[a], labels[node]))) == (a in ins) for a in range(n)))
    ctx.cover("more than ten variables")


def jobs(tier):
    deep = tier != "quick"
    out = []
    for kind in ("structure", "graph"):
        for i, init in enumerate([[], [(1, 0)], [(2, 0), (1, 0)], [(0, 1), (1, 0)], [(2, 1), (0, 2)]]):
            steps = 4 if deep else (3 if i in (0, 2) else 2)
            parts = 12 if deep else (4 if steps == 3 else 1)
            for f in range(parts):
                out.append(dict(name="%s-%d-%d" % (kind, i, f), fn="sequence", weight=5 ** (steps - 2),
                                params=dict(n=3, initial=init, steps=steps, kind=kind, first=[f, parts])))
            out.append(dict(name="%s-%d-asked" % (kind, i), fn="sequence", weight=12, params=dict(n=3, initial=init, steps=2, kind=kind, first=None, between=True)))
        if deep:
            for f in range(12):
                out.append(dict(name="%s-n4-%d" % (kind, f), fn="sequence", weight=30,
                                params=dict(n=4, initial=[(3, 0), (1, 0), (2, 3)], steps=3, kind=kind, first=[f, 12])))
    for n in (3, 4, 5) if deep else (3, 4):
        for node in range(n):
            out.append(dict(name="parents-%d-%d" % (n, node), fn="parents", params=dict(n=n, node=node), weight=2 * n))
    for node in (0, 6, 12):
        out.append(dict(name="many-%d" % node, fn="many_parents", params=dict(n=13, node=node), weight=20))
    both = [(3, 0), (0, 3), (1, 0), (0, 1), (2, 3)]
    for kind in ("structure", "graph"):
        for f in range(2):
            out.append(dict(name="%s-four-%d" % (kind, f), fn="sequence", weight=20, params=dict(n=4, initial=both, steps=2, kind=kind, first=[f, 2])))
    out.append(long_names(("sequence", dict(n=3, initial=[(0, 1), (1, 0)], steps=2, kind="structure", first=[0, 4])), ("parents", dict(n=3, node=1))))
    return out
