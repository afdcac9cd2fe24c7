from .common import *

BOUNDS = dict(quick="networks of 1-5 variables, every child of up to 4; every outcome of every independence test (the same question always gets the same answer), every set of known parents, tests that may mark their edge as not removable when they reject",
              thorough="up to 6 variables (6: no known parents)")
OUTSIDE = "more than 6 variables"
COVERS = ["something dropped", "nothing dropped", "all dropped", "known parent kept", "marked edge kept", "dropped given a set of 1", "dropped given a set of 2",
          "full estimation"]
ASSUMPTIONS = ["the verdict of a test is an arbitrary function of the parent and the separating set (C09 and C10 decide the real one)",
               "the structure carries no edges when a search starts (estimate_structure removes them first)"]


def estimator(ctx, sp, known, verdict, log):
    class Oracle(ctx.lib.StructureConstraintBasedEstimator):
        def complete_test(self, test_parent, test_child, parent_set, child_states_numb, tot_vars_count, parent_indx, child_indx):
            s = tuple(sorted(parent_set))
            v = verdict(test_parent, test_child, s)
            marked = False
            if not v and ctx.marks and bool(ctx.bool("mark_%s_%s" % (test_parent, test_child))):
                self._removable_edges_matrix[parent_indx][child_indx] = False
                marked = True
            log.append((str(test_parent), str(test_child), s, child_states_numb, tot_vars_count, int(parent_indx), int(child_indx), v, marked))
            return v
    return Oracle(sp, 0.1, 0.1, known, 25)


def check_node(ctx, labels, cards, child, known, log, edges):
    """The edges found for one child against the tests made for it."""
    c = labels[child]
    edges = [tuple(str(x) for x in e) for e in edges]
    ctx.check("every edge points from another variable to the node",
              all(b == c and a != c and a in labels for a, b in edges) and len(set(edges)) == len(edges))
    kept = {a for a, b in edges}
    remaining = {l for l in labels if l != c}
    rejected, marked = set(), set()
    for (p, ch, s, st, tot, i, j, v, m) in log:
        ctx.check("tests are about this node and a remaining parent", ch == c and p in remaining)
        ctx.check("the separating set is taken from the other remaining parents", p not in s and set(s) <= remaining and len(set(s)) == len(s))
        ctx.check("the test is told the right indexes and number of states", labels[i] == p and j == child and st == cards[child] and tot == len(labels))
        if v and p not in known:
            remaining = remaining - {p}
            ctx.cover("dropped given a set of %d" % len(s))
        else:
            rejected.add((p, s))
        if m:
            marked.add(p)
    ctx.check("exactly the accepted variables are dropped", kept == remaining)
    ctx.check("known parents are kept", known <= kept)
    for p in kept - known - marked:
        others = sorted(kept - {p})
        for k in range(len(others) + 1):
            for s in itertools.combinations(others, k):
                ctx.check("a kept variable was rejected for every separating set", (p, s) in rejected)
    ctx.cover("nothing dropped" if len(kept) == len(labels) - 1 else "something dropped")
    if not kept:
        ctx.cover("all dropped")
    if known:
        ctx.cover("known parent kept")
    if marked:
        ctx.cover("marked edge kept")


def setup(ctx, n):
    labels = list(LABELS[:n])
    cards = [2 + (v % 3) for v in range(n)]
    rows = [[0] * n, [1] + [0] * (n - 1), [1] * n]
    sp = sample_path(ctx, labels, cards, [([1.0, 1.0], rows)])

    def verdict(p, c, s):
        return bool(ctx.bool("ind_%s_%s|%s" % (p, c, "+".join(s))))
    return labels, cards, sp, verdict


def node(ctx, n, child, marks, nknown=None, free=None):
    """`free`: only tests of these parents given sets of at least that size have a chosen outcome, the others reject."""
    ctx.marks = marks
    labels, cards, sp, verdict = setup(ctx, n)
    if free:
        chosen, every = verdict, [labels[v] for v in free[0]]
        verdict = lambda p, c, s: p in every and len(s) >= free[1] and chosen(p, c, s)
    known = [l for v, l in enumerate(labels) if v != child and (nknown is None or v < nknown) and ctx.bool("known%d" % v)]
    # an edge known for another child does not matter here
    other = [(labels[child], labels[(child + 1) % n])] if n > 1 else []
    log = []
    est = estimator(ctx, sp, [(k, labels[child]) for k in known] + other, verdict, log)
    sp.structure.clean_structure_edges()
    edges = est.one_iteration_of_CTPC_algorithm(labels[child], n)
    check_node(ctx, labels, cards, child, set(known), log, edges)
    ctx.observe("edges", len(list(edges)))


def full(ctx, n):
    """estimate_structure: the search of every node, one after the other."""
    ctx.marks = False
    labels, cards, sp, verdict = setup(ctx, n)
    known = [(a, b) for a in labels for b in labels if a < b and ctx.bool("known_%s_%s" % (a, b))]
    log = []
    est = estimator(ctx, sp, known, verdict, log)
    edges = est.estimate_structure(disable_multiprocessing=True)
    for c in range(n):
        check_node(ctx, labels, cards, c, {a for a, b in known if b == labels[c]}, [e for e in log if e[1] == labels[c]],
                   [e for e in edges if e[1] == labels[c]])
    ctx.cover("full estimation")
    ctx.observe("edges", len(list(edges)))


def jobs(tier):
    deep = tier != "quick"
    out = []
    for n in (1, 2, 3):
        for child in range(n):
            for marks in (False, True):
                out.append(dict(name="node-%d-%d-%s" % (n, child, "mark" if marks else "plain"), fn="node", weight=n * n,
                                params=dict(n=n, child=child, marks=marks)))
    for child in range(4):
        out.append(dict(name="node-4-%d" % child, fn="node", weight=200, params=dict(n=4, child=child, marks=child == 2 or deep)))
    for child in (0, 3, 4) if not deep else range(5):
        out.append(dict(name="node-5-%d" % child, fn="node", weight=2000, params=dict(n=5, child=child, marks=deep, nknown=5)))
    out.append(dict(name="full-2", fn="full", weight=10, params=dict(n=2)))
    out.append(dict(name="full-3", fn="full", weight=300, params=dict(n=3)))
    if deep:
        for child in (0, 4):
            out.append(dict(name="node-6-%d" % child, fn="node", weight=5000, params=dict(n=6, child=child, marks=False, nknown=0)))
    out.append(in_turn("turn-0", ("node", dict(n=2, child=1, marks=True)), ("node", dict(n=3, child=1, marks=False)), weight=99))
    out.append(in_turn("turn-1", ("node", dict(n=3, child=2, marks=False)), ("node", dict(n=2, child=1, marks=False)), weight=99))
    out.append(long_names(("node", dict(n=3, child=1, marks=True)), weight=99))
    for k, (n, child, who, size) in enumerate([(7, 3, [0, 5], 4), (6, 0, [5, 2], 3), (8, 7, [4], 5)]):
        out.append(dict(name="large-%d" % k, fn="node", weight=300, params=dict(n=n, child=child, marks=False, nknown=0, free=[who, size])))
    return out
