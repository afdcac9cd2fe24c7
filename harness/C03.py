from .common import *

BOUNDS = dict(quick="cardinality 2-4, up to 4 parent combinations, residence times symbolic in [0,1000000], counts symbolic in 0..1000000000",
              thorough="cardinality 2-6, up to 9 parent combinations")
OUTSIDE = "larger matrices (entries are computed independently)"
COVERS = ["built", "from data", "single matrix"]
ASSUMPTIONS = ["the diagonal of a count matrix holds the departures (C02)"]


def stats(ctx, n, k):
    T, M = [], []
    for c in range(k):
        T.append([ctx.real("T%d_%d" % (c, x), 0, 10 ** 6) for x in range(n)])
        m = [[0 if x == y else ctx.int("M%d_%d%d" % (c, x, y), 0, 10 ** 9, np_=True) for y in range(n)] for x in range(n)]
        for x in range(n):
            m[x][x] = ctx.sum([m[x][y] for y in range(n) if y != x])
        M.append(m)
    return T, M


def check_cim(ctx, cim, T, M, n):
    ctx.check("shape", cim.cim.shape == (n, n))
    for x in range(n):
        ctx.eq("residence time unchanged", cim.state_residence_times[x], T[x])
        for y in range(n):
            ctx.eq("transition count unchanged", cim.state_transition_matrix[x][y], M[x][y])
            num = 1 - M[x][x] if x == y else M[x][y] + 1
            ctx.eq("diagonal intensity" if x == y else "off-diagonal intensity", cim.cim[x][y], num / (T[x] + 1.0))
            ctx.observe("q%d%d" % (x, y), cim.cim[x][y])


def build(ctx, n, cards):
    """SetOfCims.build_cims from statistics of every parent combination."""
    ctx.tol = 1e-10
    combs = combos(cards)
    k = len(combs)
    T, M = stats(ctx, n, k)
    G = ctx.lib.NetworkGraph
    p_combs = G.build_p_comb_structure_for_a_node(list(cards))
    soc = ctx.lib.SetOfCims("X", list(cards), n, p_combs)
    t, m = soc._state_residence_times, soc._transition_matrices
    t[:] = ctx.farray(T, np.float64)
    m[:] = ctx.farray(M, np.int64)
    soc.build_cims(t, m)
    ctx.check("one matrix per combination", len(soc.actual_cims) == k and soc.get_cims_number() == k)
    for c in range(k):
        check_cim(ctx, soc.actual_cims[c], T[c], M[c], n)
    ctx.cover("built")


def single(ctx, n):
    ctx.tol = 1e-10
    T, M = stats(ctx, n, 1)
    cim = ctx.lib.ConditionalIntensityMatrix(state_residence_times=ctx.farray(T[0], np.float64),
                                             state_transition_matrix=ctx.farray(M[0], np.int64))
    cim.compute_cim_coefficients()
    check_cim(ctx, cim, T[0], M[0], n)
    ctx.cover("single matrix")


def pipeline(ctx, cards, edges, node, rows):
    """Whole estimation: the intensities next to the statistics of real data, in the order of the combinations."""
    ctx.tol = 1e-10
    st = structure(ctx, cards, edges)
    labels = list(LABELS[:len(cards)])
    t, s, d = data(ctx, cards, rows)
    g, soc = estimate(ctx, st, trajectory(ctx, t, s, d, len(cards)), labels[node])
    parents = sorted(a for a, b in edges if b == node)
    n = cards[node]
    want = combos([cards[p] for p in parents])
    ctx.check("one matrix per combination", len(soc.actual_cims) == len(want))
    for k, cim in enumerate(soc.actual_cims):
        comb = tuple(int(v) for v in soc.p_combs[k])
        for x in range(n):
            T = spec_T(ctx, t, s, node, parents, comb, x)
            M = [0 if y == x else spec_M(ctx, s, d, node, parents, comb, x, y) for y in range(n)]
            for y in range(n):
                num = 1 - ctx.sum(M) if y == x else M[y] + 1
                ctx.eq("intensity of the data", cim.cim[x][y], num / (T + 1.0))
                ctx.eq("transition count unchanged", cim.state_transition_matrix[x][y], ctx.sum(M) if y == x else M[y])
            ctx.eq("residence time unchanged", cim.state_residence_times[x], T)
    ctx.cover("from data")


def jobs(tier):
    out = []
    sizes = [(2, []), (3, []), (4, []), (2, [2]), (3, [2]), (2, [3]), (3, [2, 2]), (2, [2, 3])]
    if tier != "quick":
        sizes += [(5, []), (6, []), (4, [3]), (3, [3, 3]), (4, [2, 2]), (2, [2, 2, 2])]
    for n, cards in sizes:
        out.append(dict(name="build-%d-%s" % (n, cards), fn="build", params=dict(n=n, cards=cards), weight=n * n * (1 + len(cards))))
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6):
        out.append(dict(name="single-%d" % n, fn="single", params=dict(n=n)))
    shp = [([2, 3], [(0, 1)], 1), ([3, 2], [(0, 1)], 1), ([2, 2, 3], [(2, 0), (1, 0)], 0), ([3], [], 0)]
    for k, (cards, edges, node) in enumerate(shp):
        out.append(dict(name="pipeline-%d" % k, fn="pipeline", weight=12,
                        params=dict(cards=cards, edges=edges, node=node, rows=2 if tier == "quick" else 3)))
    out.append(in_turn("turn-0", *[("pipeline", dict(cards=c, edges=[[2, 0], [1, 0]], node=0, rows=1)) for c in ([2, 2, 3], [2, 3, 2], [3, 2, 2])]))
    return out
