from .common import *

BOUNDS = dict(quick="1-3 parents with symbolic cardinalities 1-4 (4 parents: 2-3), every mask, symbolic selected states",
              thorough="1-4 parents with symbolic cardinalities 1-5, 5 parents: 2-3, every mask")
OUTSIDE = "more parents, larger cardinalities"
COVERS = ["no parents", "one parent", "several parents", "mixed cardinalities", "selection of some", "selection of all",
          "nothing selected by", "lists one after another", "selections one after another", "hundreds of combinations"]


def combs(ctx, k, hi, lo=1):
    """The list of combinations for symbolic cardinalities."""
    cards = [ctx.int("card%d" % i, lo, hi).__index__() for i in range(k)]
    p = ctx.lib.NetworkGraph.build_p_comb_structure_for_a_node(list(cards))
    want = combos(cards)
    ctx.check("shape of the list", p.shape == (len(want), k))
    for r, w in enumerate(want):
        for c in range(k):
            ctx.eq("combination in its place", p[r][c], w[c])
    ctx.cover(["no parents", "one parent"][k] if k < 2 else "several parents")
    if len(set(cards)) > 1:
        ctx.cover("mixed cardinalities")


def one_after_another(ctx, lists):
    """Lists of combinations built one after another: of as many parents, of as many combinations, the same again."""
    for i, cards in enumerate(lists):
        p = ctx.lib.NetworkGraph.build_p_comb_structure_for_a_node(list(cards))
        want = combos(cards)
        ctx.check("shape of the list", p.shape == (len(want), len(cards)))
        ctx.check("combination in its place", [tuple(int(v) for v in r) for r in p] == want)
        if len(want) > 100:
            ctx.cover("hundreds of combinations")
            continue
        k = ctx.int("k%d" % i, 0, len(cards) - 1).__index__()
        v = ctx.int("v%d" % i, 0, cards[k] - 1)
        soc = ctx.lib.SetOfCims("X", list(cards), 2, p, tags(ctx, len(p)))
        got = [int(c.cim[0][0]) for c in soc.filter_cims_with_mask(np.array([j == k for j in range(len(cards))]), ctx.farray([v], np.int64))]
        for r, w in enumerate(want):
            ctx.check("a matrix is selected exactly if its combination agrees", ctx.iff(v == w[k], r in got))
        ctx.check("selected once and in list order", got == sorted(set(got)))
    ctx.cover("lists one after another")


def tags(ctx, n):
    C = ctx.lib.ConditionalIntensityMatrix
    return [C(cim=np.array([[float(i)]])) for i in range(n)]


def select(ctx, cards, mask, as_array):
    """filter_cims_with_mask returns exactly the matrices whose combination agrees."""
    k = len(cards)
    p = ctx.lib.NetworkGraph.build_p_comb_structure_for_a_node(list(cards))
    cims = tags(ctx, len(p))
    if as_array:
        cims = np.array(cims)
    soc = ctx.lib.SetOfCims("X", list(cards), 2, p, cims)
    vals = [ctx.int("v%d" % i, 0, cards[i] - 1) for i in range(k) if mask[i]]
    got = soc.filter_cims_with_mask(np.array(mask, dtype=bool), ctx.farray(vals, np.int64) if vals else [])
    got = [int(c.cim[0][0]) for c in got]
    ctx.observe("selected", got)
    want = combos(cards)
    if k < 2:
        ctx.check("fewer than two parents: all matrices", got == list(range(len(want))))
        ctx.cover("selection of all")
        return
    pos = [i for i in range(k) if mask[i]]
    for r, w in enumerate(want):
        agree = ctx.And(*[vals[j] == w[i] for j, i in enumerate(pos)]) if pos else True
        ctx.check("a matrix is selected exactly if its combination agrees", ctx.iff(agree, r in got))
    ctx.check("selected once and in list order", got == sorted(set(got)))
    ctx.cover("selection of all" if all(mask) else "selection of some" if any(mask) else "nothing selected by")


def reselect(ctx, cards, masks):
    """Selections one after another on the same matrices, by different parents and states."""
    p = ctx.lib.NetworkGraph.build_p_comb_structure_for_a_node(list(cards))
    soc = ctx.lib.SetOfCims("X", list(cards), 2, p, tags(ctx, len(p)))
    want = combos(cards)
    for q, mask in enumerate(masks):
        pos = [i for i in range(len(cards)) if mask[i]]
        vals = [ctx.int("v%d_%d" % (q, i), 0, cards[i] - 1) for i in pos]
        got = [int(c.cim[0][0]) for c in soc.filter_cims_with_mask(np.array(mask, dtype=bool), ctx.farray(vals, np.int64))]
        for r, w in enumerate(want):
            ctx.check("a matrix is selected exactly if its combination agrees", ctx.iff(ctx.And(*[vals[j] == w[i] for j, i in enumerate(pos)]), r in got))
        ctx.check("selected once and in list order", got == sorted(set(got)))
    ctx.cover("selections one after another")


def built(ctx, cards, edges, node):
    """The combinations the graph of a real structure carries, with edges in any order."""
    st = structure(ctx, cards, edges)
    g = ctx.lib.NetworkGraph(st)
    labels = LABELS[:len(cards)]
    g.fast_init(labels[node])
    parents = sorted(a for a, b in edges if b == node)
    want = combos([cards[p] for p in parents])
    ctx.check("combinations of the node's parents in variable order", [tuple(int(v) for v in r) for r in g.p_combs] == want)
    ctx.cover("several parents" if len(parents) > 1 else "one parent")


def jobs(tier):
    out = []
    deep = tier != "quick"
    for k, hi, lo in [(0, 1, 1), (1, 5, 1), (2, 4, 1), (3, 3, 1), (3, 4, 2), (4, 3, 2)] + ([(3, 5, 1), (4, 4, 1), (5, 3, 2)] if deep else []):
        out.append(dict(name="combs-%d-%d" % (k, hi), fn="combs", params=dict(k=k, hi=hi, lo=lo), weight=k * hi))
    for k, lists in enumerate([[[2, 3], [3, 2], [2, 3]], [[2, 3, 2], [3, 2, 2]], [[6, 2], [3, 4], [2, 6]], [[2, 2, 3], [4, 3], [2, 2, 3]], [[200, 2], [2, 300]]]):
        out.append(dict(name="after-%d" % k, fn="one_after_another", weight=6, params=dict(lists=lists)))
    cl = [[2], [3], [2, 2], [2, 3], [3, 2], [2, 3, 2], [3, 2, 4]] + ([[4, 3, 2], [2, 2, 2, 2], [2, 3, 2, 3], [5, 4]] if deep else [])
    for cards in cl:
        for m in itertools.product([False, True], repeat=len(cards)):
            out.append(dict(name="select-%s-%s" % (cards, "".join("01"[b] for b in m)), fn="select", weight=len(cards),
                            params=dict(cards=cards, mask=list(m), as_array=sum(m) % 2 == 0)))
    for k, (cards, masks) in enumerate([([2, 2], [[1, 0], [0, 1], [1, 1]]), ([2, 3, 2], [[0, 1, 0], [1, 0, 0], [0, 0, 1]]), ([2, 3, 2], [[1, 0, 1], [0, 1, 1], [1, 0, 1]]), ([3, 2], [[1, 1], [1, 0], [1, 1]]), ([2, 2, 2], [[1, 1, 0], [1, 0, 1]]), ([2, 2, 2], [[0, 1, 1], [1, 1, 0]])]):
        out.append(dict(name="reselect-%d" % k, fn="reselect", weight=8, params=dict(cards=cards, masks=[[bool(b) for b in m] for m in masks])))
    for k, (cards, edges, node) in enumerate(SHAPES + SHAPES_DEEP):
        if any(b == node for a, b in edges):
            out.append(dict(name="built-%d" % k, fn="built", params=dict(cards=cards, edges=edges, node=node)))
    return out
