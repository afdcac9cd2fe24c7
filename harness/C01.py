from .common import *

BOUNDS = dict(quick="up to 4 variables, cardinalities 2-4, up to 3 parents, 2-3 segments with symbolic duration in [0,10], states and next states; 5 parents of 6 states (7776 combinations) with chosen states",
              thorough="up to 5 variables, cardinalities 2-5, up to 4 parents, up to 4 segments")
OUTSIDE = "longer trajectories (the computation is additive over segments), more parents, larger cardinalities"
COVERS = ["mixed cardinalities", "segment counted", "segment not counted", "variable removed", "prior edges of other nodes", "thousands of combinations", "tens of thousands of segments", "simultaneous rows", "graph edited between estimates"]
ASSUMPTIONS = ["segment durations are real numbers (floating-point rounding up to 1e-10 relative is tolerated)"]


def residence(ctx, cards, edges, node, rows, remove=None):
    """T[k][x] equals the duration of the segments with own state x and the parents in state p_combs[k]."""
    ctx.tol = 1e-10
    st = structure(ctx, cards, edges)
    labels = list(LABELS[:len(cards)])
    t, s, d = data(ctx, cards, rows)
    trj = trajectory(ctx, t, s, d, len(cards))
    if remove is not None:
        st.remove_node(labels[remove])
        edges = [e for e in edges if remove not in e]
        ctx.cover("variable removed")
    g, soc = estimate(ctx, st, trj, labels[node])
    check_T(ctx, t, s, cards, edges, node, soc)
    if any(e[1] != node for e in edges):
        ctx.cover("prior edges of other nodes")


def check_T(ctx, t, s, cards, edges, node, soc):
    parents = sorted(a for a, b in edges if b == node)
    want = combos([cards[p] for p in parents])
    if len(set(cards[v] for v in parents + [node])) > 1:
        ctx.cover("mixed cardinalities")
    ctx.check("one matrix per combination", len(soc.actual_cims) == len(want) and len(soc.p_combs) == len(want))
    seen = set()
    total = []
    for k, cim in enumerate(soc.actual_cims):
        comb = tuple(int(v) for v in soc.p_combs[k])
        seen.add(comb)
        T = cim.state_residence_times
        ctx.check("size of the residence-time vector", T.shape == (cards[node],))
        for x in range(cards[node]):
            w = spec_T(ctx, t, s, node, parents, comb, x)
            ctx.eq("T[k][x] is the duration spent there", T[x], w)
            total.append(T[x])
            ctx.observe("T%s%d" % (comb, x), T[x])
    ctx.check("every combination has its matrix", seen == set(want))
    ctx.eq("each segment counted once", ctx.sum(total), ctx.sum(t))
    ctx.cover("segment counted")
    ctx.cover("segment not counted")


def regrown(ctx, cards, edges, script, rows):
    """The statistics are those of the parents a node has when it is estimated, also on a graph estimated from before."""
    ctx.tol = 1e-10
    edited(ctx, cards, edges, script, rows, lambda t, s, d, cards, edges, node, soc: check_T(ctx, t, s, cards, edges, node, soc))


def read(ctx, cards, edges, node, lens):
    """The same statistics for data read through the importer."""
    ctx.tol = 1e-10
    t, s, d, soc = imported(ctx, cards, edges, node, lens)
    check_T(ctx, t, s, cards, edges, node, soc)
    for x in t:
        ctx.cover_if("simultaneous rows", x == 0)


def two_nodes(ctx, cards, edges, nodes, rows):
    """Statistics of one node do not depend on what was computed before with the same structure."""
    ctx.tol = 1e-10
    st = structure(ctx, cards, edges)
    labels = list(LABELS[:len(cards)])
    t, s, d = data(ctx, cards, rows)
    trj = trajectory(ctx, t, s, d, len(cards))
    for node in nodes:
        g, soc = estimate(ctx, st, trj, labels[node])
        check_T(ctx, t, s, cards, edges, node, soc)


def many(ctx, cards, edges, node):
    ctx.tol = 1e-10
    for t, s, d, rs, cim in large(ctx, cards, edges, node):
        for x in range(cards[node]):
            ctx.eq("T[k][x] is the duration spent there", cim.state_residence_times[x], ctx.sum([t[r] for r in rs if s[r][node] == x]) if rs else 0.0)


def lasting(ctx, cards, edges, node, rows):
    ctx.tol = 1e-10
    for t, s, d, rs, cim in long(ctx, cards, edges, node, rows, 2):
        for x in range(cards[node]):
            ctx.eq("T[k][x] is the duration spent there", cim.state_residence_times[x], ctx.sum([t[r] for r in rs if s[r][node] == x]) if rs else 0.0)


def jobs(tier):
    out = shape_jobs("residence", tier)
    rm = [([2, 3, 2, 3], [(3, 1), (0, 1), (2, 1), (1, 0)], 1, 0), ([3, 2, 2], [(2, 1), (0, 1)], 1, 2),
          ([2, 3, 3], [(0, 2), (1, 2)], 2, 1), ([3, 2, 3], [(1, 2)], 2, 0)]
    for k, (cards, edges, node, r) in enumerate(rm):
        out.append(dict(name="removed-%d" % k, fn="residence", weight=8, params=dict(cards=cards, edges=edges, node=node,
                                                                                 rows=2 if tier == "quick" else 3, remove=r)))
    out.append(dict(name="two", fn="two_nodes", weight=9, params=dict(cards=[2, 3, 2], edges=[[1, 0], [2, 0], [0, 1]],
                                                                   nodes=[0, 1, 2, 0], rows=2)))
    out.append(dict(name="many", fn="many", weight=90, params=dict(cards=[3, 6, 6, 6, 6, 6], edges=[[p, 0] for p in (4, 2, 1, 5, 3)], node=0)))
    out.append(dict(name="long", fn="lasting", weight=95, params=dict(cards=[2, 3, 2], edges=[[2, 0], [1, 0]], node=0, rows=70000)))
    e2 = [[2, 0], [1, 0]]
    out.append(in_turn("turn-0", *[("residence", dict(cards=c, edges=e, node=0, rows=1)) for c, e in (([2, 2, 3], e2), ([2, 3, 2], e2), ([2, 2, 3], e2))]))
    out.append(in_turn("turn-1", *[("residence", dict(cards=c, edges=e, node=0, rows=1)) for c, e in (([2, 3, 2, 3], [[1, 0]]), ([2, 2, 3, 3], [[2, 0]]),
                                                                                       ([3, 2, 2, 2], [[3, 0]]), ([2, 2, 3], [[2, 0]]))]))
    out.append(long_names(("residence", dict(cards=[2, 2, 3], edges=e2, node=0, rows=1))))
    for k, (cards, edges, script) in enumerate(EDITED):
        out.append(dict(name="edited-%d" % k, fn="regrown", weight=9, params=dict(cards=cards, edges=edges, script=script, rows=1 if tier == "quick" else 2)))
    for k, (cards, edges, node) in enumerate([([2, 150], [[1, 0]], 0)]):
        out.append(dict(name="wide-%d" % k, fn="residence", weight=40, params=dict(cards=cards, edges=edges, node=node, rows=1)))
    out.append(in_turn("turn-2", *[("residence", dict(cards=c, edges=[[1, 0], [2, 0]], node=0, rows=1)) for c in ([2, 3, 3], [3, 2, 2], [2, 3, 3])]))
    for k, (cards, edges, node, lens) in enumerate(READ[:3 if tier == "quick" else None]):
        out.append(dict(name="read-%d" % k, fn="read", weight=9, params=dict(cards=cards, edges=edges, node=node, lens=lens)))
    return out
