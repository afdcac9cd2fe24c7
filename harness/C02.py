from .common import *

BOUNDS = dict(quick="up to 4 variables, cardinalities 2-4, up to 3 parents, 2 segments with symbolic states before and after (-1 included), durations in [0,10]; 5 parents of 6 states (7776 combinations) with chosen states",
              thorough="up to 5 variables, cardinalities 2-5, up to 4 parents, up to 4 segments")
OUTSIDE = "longer trajectories (counting is additive over segments), more parents, larger cardinalities"
COVERS = ["mixed cardinalities", "transition counted", "unobserved next state", "state kept", "variable removed", "thousands of combinations", "tens of thousands of segments", "simultaneous rows", "graph edited between estimates"]
ASSUMPTIONS = ["states of a variable lie in its range, next states may be -1 (unobserved)"]


def counts(ctx, cards, edges, node, rows, remove=None):
    """M[k][x][y] equals the number of segments from x to y with the parents in state p_combs[k]."""
    st = structure(ctx, cards, edges)
    labels = list(LABELS[:len(cards)])
    t, s, d = data(ctx, cards, rows)
    trj = trajectory(ctx, t, s, d, len(cards))
    if remove is not None:
        st.remove_node(labels[remove])
        edges = [e for e in edges if remove not in e]
        ctx.cover("variable removed")
    g, soc = estimate(ctx, st, trj, labels[node])
    check_M(ctx, s, d, cards, edges, node, soc)


def check_M(ctx, s, d, cards, edges, node, soc):
    parents = sorted(a for a, b in edges if b == node)
    want = combos([cards[p] for p in parents])
    n = cards[node]
    if len(set(cards[v] for v in parents + [node])) > 1:
        ctx.cover("mixed cardinalities")
    for r in range(len(s)):
        for lab, c in (("unobserved next state", d[r][node] == -1), ("state kept", d[r][node] == s[r][node]),
                       ("transition counted", ctx.And(d[r][node] >= 0, d[r][node] != s[r][node]))):
            ctx.cover_if(lab, c)
    ctx.check("one matrix per combination", len(soc.actual_cims) == len(want) and len(soc.p_combs) == len(want))
    seen = set()
    for k, cim in enumerate(soc.actual_cims):
        comb = tuple(int(v) for v in soc.p_combs[k])
        seen.add(comb)
        M = cim.state_transition_matrix
        ctx.check("size of the transition matrix", M.shape == (n, n))
        for x in range(n):
            out = 0
            for y in range(n):
                if y != x:
                    w = spec_M(ctx, s, d, node, parents, comb, x, y)
                    ctx.eq("M[k][x][y] counts the transitions", M[x][y], w)
                    out = out + w
            ctx.eq("the diagonal counts the departures", M[x][x], out)
            ctx.observe("M%s%d" % (comb, x), M[x][x])
    ctx.check("every combination has its matrix", seen == set(want))


def several(ctx, cards, edges, nodes, rows):
    st = structure(ctx, cards, edges)
    labels = list(LABELS[:len(cards)])
    t, s, d = data(ctx, cards, rows)
    trj = trajectory(ctx, t, s, d, len(cards))
    for node in nodes:
        g, soc = estimate(ctx, st, trj, labels[node])
        check_M(ctx, s, d, cards, edges, node, soc)


def many(ctx, cards, edges, node):
    n = cards[node]
    for t, s, d, rs, cim in large(ctx, cards, edges, node):
        M = cim.state_transition_matrix
        for x in range(n):
            w = [sum(1 for r in rs if s[r][node] == x and d[r][node] == y) for y in range(n)]
            ctx.check("M[k][x][y] counts the transitions", all(int(M[x][y]) == (w[y] if y != x else sum(w)) for y in range(n)))


def lasting(ctx, cards, edges, node, rows):
    n = cards[node]
    for t, s, d, rs, cim in long(ctx, cards, edges, node, rows, 2):
        M = cim.state_transition_matrix
        w = [[0] * n for _ in range(n)]
        for r in rs:
            x, y = s[r][node], d[r][node]
            if y >= 0 and x != y:
                w[x][y] += 1
                w[x][x] += 1
        ctx.check("M[k][x][y] counts the transitions", all(int(M[x][y]) == w[x][y] for x in range(n) for y in range(n)))


def regrown(ctx, cards, edges, script, rows):
    """The statistics are those of the parents a node has when it is estimated, also on a graph estimated from before."""
    ctx.tol = 1e-10
    edited(ctx, cards, edges, script, rows, lambda t, s, d, cards, edges, node, soc: check_M(ctx, s, d, cards, edges, node, soc))


def read(ctx, cards, edges, node, lens):
    t, s, d, soc = imported(ctx, cards, edges, node, lens)
    check_M(ctx, s, d, cards, edges, node, soc)
    ctx.cover_if("simultaneous rows", ctx.Or(*[x == 0 for x in t]))


def jobs(tier):
    out = shape_jobs("counts", tier)
    rm = [([2, 3, 2, 3], [(3, 1), (0, 1), (2, 1), (1, 0)], 1, 0), ([3, 2, 2], [(2, 1), (0, 1)], 1, 2),
          ([2, 3, 3], [(0, 2), (1, 2)], 2, 1), ([3, 2, 3], [(1, 2)], 2, 0)]
    for k, (cards, edges, node, r) in enumerate(rm):
        out.append(dict(name="removed-%d" % k, fn="counts", weight=8, params=dict(cards=cards, edges=edges, node=node,
                                                                               rows=2 if tier == "quick" else 3, remove=r)))
    out.append(dict(name="several", fn="several", weight=9, params=dict(cards=[2, 3, 2], edges=[[1, 0], [2, 0], [0, 1]],
                                                                     nodes=[0, 1, 2, 0], rows=2)))
    out.append(dict(name="many", fn="many", weight=90, params=dict(cards=[3, 6, 6, 6, 6, 6], edges=[[p, 0] for p in (4, 2, 1, 5, 3)], node=0)))
    out.append(dict(name="long", fn="lasting", weight=95, params=dict(cards=[2, 3, 2], edges=[[2, 0], [1, 0]], node=0, rows=70000)))
    e2 = [[2, 0], [1, 0]]
    out.append(in_turn("turn-0", *[("counts", dict(cards=c, edges=e, node=0, rows=1)) for c, e in (([2, 2, 3], e2), ([2, 3, 2], e2), ([2, 2, 3], e2))]))
    out.append(in_turn("turn-1", *[("counts", dict(cards=c, edges=e, node=0, rows=1)) for c, e in (([2, 3, 2, 3], [[1, 0]]), ([2, 2, 3, 3], [[2, 0]]),
                                                                                       ([3, 2, 2, 2], [[3, 0]]), ([2, 2, 3], [[2, 0]]))]))
    for k, (cards, edges, script) in enumerate(EDITED):
        out.append(dict(name="edited-%d" % k, fn="regrown", weight=9, params=dict(cards=cards, edges=edges, script=script, rows=1 if tier == "quick" else 2)))
    for k, (cards, edges, node) in enumerate([([2, 150], [[1, 0]], 0)]):
        out.append(dict(name="wide-%d" % k, fn="counts", weight=40, params=dict(cards=cards, edges=edges, node=node, rows=1)))
    out.append(in_turn("turn-2", *[("counts", dict(cards=c, edges=[[1, 0], [2, 0]], node=0, rows=1)) for c in ([2, 3, 3], [3, 2, 2], [2, 3, 3])]))
    for k, (cards, edges, node, lens) in enumerate(READ[:3 if tier == "quick" else None]):
        out.append(dict(name="read-%d" % k, fn="read", weight=9, params=dict(cards=cards, edges=edges, node=node, lens=lens)))
    out.append(long_names(("counts", dict(cards=[2, 2, 3], edges=e2, node=0, rows=1))))
    return out
