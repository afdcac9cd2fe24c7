"""Shared pieces of the harnesses."""
import itertools

import numpy as np

LABELS = ["X1", "1X", "X11", "X", "11", "1", "XX", "Y1", "1XX"]     # neither alphabetical nor in insertion order anywhere; of the same characters, parts of one another


def structure(ctx, cards, edges, labels=None, total=None, np_cards=True):
    """A real Structure over len(cards) variables; `edges` are index pairs."""
    labels = list(labels or LABELS[:len(cards)])
    e = [(labels[a], labels[b]) for a, b in edges]
    return ctx.lib.Structure(labels, np.arange(len(cards)), np.array(cards), e, total or len(cards))


def data(ctx, cards, rows, tmax=10, neg=True, nocross=()):
    """Symbolic trajectory segments: durations, states before, states after (-1: unobserved)."""
    n = len(cards)
    t = [ctx.real("t%d" % r, 0, tmax) for r in range(rows)]
    s = [[ctx.int("s%d_%d" % (r, v), 0, cards[v] - 1, np_=True) for v in range(n)] for r in range(rows)]
    d = [[ctx.int("d%d_%d" % (r, v), -1 if neg else 0, cards[v] - 1, np_=True) for v in range(n)] for r in range(rows)]
    return t, s, d


def trajectory(ctx, t, s, d, n):
    return ctx.lib.Trajectory([ctx.farray(t, np.float64), ctx.farray([a + b for a, b in zip(s, d)], np.int64)], n + 1)


def combos(cards):
    """Every combination, first varying fastest."""
    return [tuple(reversed(c)) for c in itertools.product(*[range(k) for k in reversed(cards)])]


def spec_T(ctx, t, s, node, parents, comb, x):
    return ctx.sum([ctx.ite(ctx.And(s[r][node] == x, *[s[r][p] == v for p, v in zip(parents, comb)]), t[r], 0.0)
                    for r in range(len(t))])


def spec_M(ctx, s, d, node, parents, comb, x, y):
    """Number of segments from x to y (x != y)."""
    return ctx.sum([ctx.ite(ctx.And(s[r][node] == x, d[r][node] == y, *[s[r][p] == v for p, v in zip(parents, comb)]), 1, 0)
                    for r in range(len(s))])


def imported(ctx, cards, edges, node, lens):
    """Estimation from data frames through the importer: trajectories of the given numbers of rows, simultaneous rows included,
    the last row possibly unobserved. Returns segments (durations, states before, states after) and the SetOfCims."""
    labels, n = list(LABELS[:len(cards)]), len(cards)
    trajs, t, s, d = [], [], [], []
    for k, rows in enumerate(lens):
        dur = [ctx.real("t%d_%d" % (k, r), 0, 10) for r in range(rows - 1)]
        st = [[ctx.int("s%d_%d_%d" % (k, r, v), -1 if r == rows - 1 else 0, cards[v] - 1) for v in range(n)] for r in range(rows)]
        trajs.append((dur, st))
        t, s, d = t + dur, s + st[:-1], d + st[1:]
    sp = sample_path(ctx, labels, cards, trajs, [(labels[a], labels[b]) for a, b in edges])
    g, soc = estimate(ctx, sp.structure, sp.trajectories, labels[node])
    return t, s, d, soc


def estimate(ctx, st, trj, node_label):
    """Run the real estimation path for one node; returns (graph, SetOfCims)."""
    g = ctx.lib.NetworkGraph(st)
    g.fast_init(node_label)
    pe = ctx.lib.ParametersEstimator(trj, g)
    pe.fast_init(node_label)
    return g, pe.compute_parameters_for_node(node_label)


def edited(ctx, cards, edges, script, rows, check):
    """Estimates from one graph while it is edited: ["add", e], ["del", e] (an edge added before) or ["est", node]."""
    st = structure(ctx, cards, edges)
    labels = list(LABELS[:len(cards)])
    t, s, d = data(ctx, cards, rows)
    trj = trajectory(ctx, t, s, d, len(cards))
    g = ctx.lib.NetworkGraph(st)
    g.add_nodes(st.nodes_labels)
    now = [list(e) for e in edges]
    for op, x in script:
        if op == "est":
            g.fast_init(labels[x])
            pe = ctx.lib.ParametersEstimator(trj, g)
            pe.fast_init(labels[x])
            check(t, s, d, cards, now, x, pe.compute_parameters_for_node(labels[x]))
        elif op == "add":
            g.add_edges([(labels[x[0]], labels[x[1]])])
            now = now + [list(x)]
        else:
            g.remove_edges([(labels[x[0]], labels[x[1]])])
            now = [e for e in now if e != list(x)]
    ctx.cover("graph edited between estimates")


EDITED = [([2, 3, 2], [], [["est", 0], ["add", [1, 0]], ["est", 0], ["add", [2, 0]], ["est", 0], ["del", [1, 0]], ["est", 0]]),
          ([2, 2, 3], [[2, 1]], [["add", [0, 1]], ["est", 1], ["del", [0, 1]], ["add", [1, 0]], ["est", 1], ["est", 0]]),
          ([2, 2, 2], [[2, 0], [0, 1]], [["est", 0], ["est", 1], ["est", 2], ["add", [1, 2]], ["est", 2]]),
          ([3, 2, 2], [], [["add", [1, 0]], ["est", 0], ["del", [1, 0]], ["add", [2, 0]], ["est", 0]])]

READ = [([2, 3], [[0, 1]], 1, [2, 2]), ([3, 2, 2], [[2, 0], [1, 0]], 0, [3]), ([2, 2], [], 0, [2, 1, 3]), ([3, 2, 2], [[2, 0], [1, 0]], 0, [3, 3])]

# (cardinalities, edges, node): every mix of cardinalities, edges deliberately out of variable order
SHAPES = [
    ([2], [], 0),
    ([3], [], 0),
    ([2, 2], [(1, 0)], 0),
    ([2, 3], [(0, 1)], 1),
    ([3, 2], [(0, 1)], 1),
    ([2, 3], [(1, 0)], 0),
    ([3, 3], [(1, 0), (0, 1)], 0),
    ([2, 2, 2], [(2, 0), (1, 0)], 0),
    ([2, 3, 2], [(2, 0), (1, 0)], 0),
    ([2, 2, 3], [(2, 0), (1, 0)], 0),
    ([3, 2, 2], [(2, 1), (0, 1)], 1),
    ([2, 3, 3], [(2, 1), (0, 1), (1, 0)], 1),
    ([3, 2, 4], [(1, 2), (0, 2)], 2),
    ([4, 3, 2], [(1, 2), (0, 2), (2, 0)], 2),
    ([2, 3, 2], [(0, 1), (1, 2)], 1),
]
SHAPES_DEEP = [
    ([2, 2, 2, 2], [(3, 0), (1, 0), (2, 0)], 0),
    ([2, 3, 2, 3], [(3, 1), (0, 1), (2, 1)], 1),
    ([3, 2, 4, 2], [(3, 2), (1, 2), (0, 2)], 2),
    ([2, 3, 3, 2], [(2, 3), (0, 3)], 3),
    ([2, 2, 2, 3, 2], [(4, 0), (3, 0), (2, 0), (1, 0)], 0),
    ([4, 5], [(1, 0)], 0),
    ([5, 2, 3], [(1, 0), (2, 0)], 0),
]


def shape_jobs(fn, tier, rows_quick=2, rows_deep=4, **extra):
    out = []
    for k, (cards, edges, node) in enumerate(SHAPES + (SHAPES_DEEP if tier != "quick" else SHAPES_DEEP[:3])):
        for rows in ([rows_quick] if tier == "quick" else [1, rows_quick, rows_deep]):
            out.append(dict(name="%s-%d-%dr" % (fn, k, rows), fn=fn, weight=rows * len(cards),
                            params=dict(cards=cards, edges=[list(e) for e in edges], node=node, rows=rows, **extra)))
    return out


def sample_path(ctx, labels, cards, trajs, edges=None):
    """The real import chain: data frames -> SampleImporter -> SamplePath. trajs: list of (durations, rows of states)."""
    dfs = []
    for dur, rows in trajs:
        t = [0.0]
        for x in dur:
            t.append(t[-1] + x)
        cols = {"Time": t}
        for v, l in enumerate(labels):
            cols[l] = [r[v] for r in rows]
        dfs.append(ctx.frame(cols))
    variables = ctx.frame({"Name": list(labels), "Value": list(cards)})
    prior = None if edges is None else ctx.frame({"From": [a for a, b in edges], "To": [b for a, b in edges]})
    imp = ctx.lib.SampleImporter(trajectory_list=dfs, variables=variables, prior_net_structure=prior)
    imp.import_data()
    sp = ctx.lib.SamplePath(imp)
    sp.build_trajectories()
    sp.build_structure()
    return sp


def chosen_rows(ctx, cards, n, name="x", steps=True):
    """n+1 rows of concrete states chosen by the solver (forking); with `steps` one variable changes per row."""
    rows = [[ctx.int("%s0_%d" % (name, v), 0, c - 1).__index__() for v, c in enumerate(cards)]]
    moves = [(v, d) for v, c in enumerate(cards) for d in range(1, c)]
    for i in range(n):
        r = list(rows[-1])
        if steps:
            v, d = ctx.choice("%sm%d" % (name, i), moves)
            r[v] = (r[v] + d) % cards[v]
        else:
            r = [ctx.int("%s%d_%d" % (name, i + 1, v), 0, c - 1).__index__() for v, c in enumerate(cards)]
        rows.append(r)
    return rows


def row_stats(trajs, node, card, parents, comb):
    """Exact statistics of concrete rows with possibly symbolic durations: (list of durations per state, counts)."""
    T = [[] for _ in range(card)]
    M = [[0] * card for _ in range(card)]
    for dur, rows in trajs:
        for i, d in enumerate(dur):
            a, b = rows[i], rows[i + 1]
            if all(a[p] == v for p, v in zip(parents, comb)):
                T[a[node]].append(d)
                if a[node] != b[node] and b[node] >= 0:
                    M[a[node]][b[node]] += 1
    for x in range(card):
        M[x][x] = sum(M[x])
    return T, M


def large(ctx, cards, edges, node, rows=2):
    """A node with thousands of parent combinations (their flat positions need more than 16 bits); the solver chooses the
    combinations met by the segments, durations are symbolic.  Yields (t, states before, states after, estimated set)."""
    n = len(cards)
    parents = sorted(a for a, b in edges if b == node)
    pick = [[c - 1 for c in cards], [c - 1 - i % 2 for i, c in enumerate(cards)]]
    t = [ctx.real("t%d" % r, 0, 10) for r in range(rows)]
    s = [list(ctx.choice("s%d" % r, pick)) for r in range(rows)]
    d = [list(x) for x in s]
    for r in range(rows):
        d[r][node] = (s[r][node] + 1 + r % (cards[node] - 1)) % cards[node]
    g, soc = estimate(ctx, structure(ctx, cards, edges, labels=["V%d" % ((v * 7 + 3) % 19) for v in range(n)]),
                      trajectory(ctx, t, s, d, n), "V%d" % ((node * 7 + 3) % 19))
    want = combos([cards[p] for p in parents])
    ctx.check("one matrix per combination", len(soc.actual_cims) == len(want) and len(soc.p_combs) == len(want)
              and {tuple(int(v) for v in c) for c in soc.p_combs} == set(want))
    for comb, cim in zip([tuple(int(v) for v in c) for c in soc.p_combs], soc.actual_cims):
        yield t, s, d, [r for r in range(rows) if tuple(s[r][p] for p in parents) == comb], cim
    ctx.cover("thousands of combinations")


def long(ctx, cards, edges, node, rows, free):
    """A trajectory of many segments, all but `free` of them fixed: counts and positions need more than 16 bits.  The free
    segments (first, last, in between) have symbolic durations and states chosen by the solver.  Yields like large()."""
    n = len(cards)
    parents = sorted(a for a, b in edges if b == node)
    t = [0.25] * rows
    s = [[0 if r % 20 else (r // 60 if v == node else r // 20) % c for v, c in enumerate(cards)] for r in range(rows)]
    d = [list(x) for x in s]
    for r in range(rows):
        d[r][node] = 1 if r % 20 else (s[r][node] + r // 40) % cards[node] if r % 40 else -1
    for i, r in enumerate([0, rows - 1] + [(k * rows) // (free - 1) for k in range(1, free - 1)]):
        t[r] = ctx.real("t%d" % i, 0, 10)
        s[r] = list(ctx.choice("s%d" % i, [[c - 1 for c in cards], [0 for c in cards]]))
        d[r] = list(s[r])
        d[r][node] = ctx.choice("d%d" % i, [-1, 0]) if i == 0 else 1
    g, soc = estimate(ctx, structure(ctx, cards, edges), trajectory(ctx, t, s, d, n), LABELS[node])
    at = {}
    for r in range(rows):
        at.setdefault(tuple(s[r][p] for p in parents), []).append(r)
    for comb, cim in zip([tuple(int(v) for v in c) for c in soc.p_combs], soc.actual_cims):
        yield t, s, d, at.get(comb, []), cim
    ctx.cover("tens of thousands of segments")


LONG = ["the_name_of_a_variable_that_differs_only_at_its_end_%s" % c for c in ("Z", "a", "10", "9", "M", "B", "x", "y", "k", "0", "n", "b")]


def in_turn(name, *steps, weight=20, labels=None, **k):
    """A job running several harness functions one after another on the same loaded package: nothing may be left behind by one
    that changes what the next does."""
    return dict(name=name, fn="in_turn", weight=weight, params=dict(steps=[list(s) for s in steps], labels=labels), **k)


def long_names(*steps, name="names", **k):
    """The same with long names that have their first fifty characters in common."""
    return in_turn(name, *steps, labels=LONG, **k)
