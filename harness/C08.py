from fractions import Fraction

from .common import *

BOUNDS = dict(quick="formula: 2-4 states, 1-4 parent combinations, statistics and hyperparameters symbolic (counts to 1000, times to 1000, hyperparameters in (0,10]); data: 2-3 variables, 1-2 trajectories of together 2-5 transitions (every walk of 2 transitions for two binary variables, else a menu of walks), symbolic durations, every sequence of 2 parent sets scored with one estimator",
              thorough="formula: 2-5 states, up to 9 combinations; data: 2-4 variables, 2-8 transitions, sequences of 2 and 3 parent sets")
OUTSIDE = "longer data, values of lgamma and log (uninterpreted; the same functions on both sides), rounding"
COVERS = ["formula", "linear", "data", "history", "parents", "no parents", "keyword hyperparameters", "edited graph"]
ASSUMPTIONS = ["lgamma and log are uninterpreted functions: only their arguments and how the terms are combined is decided"]
MENU_A = [1.0, 0.5, 2.0, 0.1]
MENU_T = [0.1, 1.0, 3.0]


def closed_form(ctx, T, M, n, tau, alpha):
    """T, M: per combination."""
    a2 = alpha / (n - 1)
    terms = []
    for t, m in zip(T, M):
        for x in range(n):
            terms.append(ctx.loggamma(alpha + m[x][x] + 1) + (alpha + 1) * ctx.log(tau) - ctx.loggamma(alpha + 1)
                         - (alpha + m[x][x] + 1) * ctx.log(tau + t[x]))
            terms.append(ctx.loggamma(alpha) - ctx.loggamma(alpha + m[x][x]))
            terms += [ctx.loggamma(a2 + m[x][y]) - ctx.loggamma(a2) for y in range(n) if y != x]
    return ctx.sum(terms)


def stats(ctx, n, k, lin):
    T, M = [], []
    for c in range(k):
        T.append([ctx.real("T%d_%d" % (c, x), 0, 10 ** 6) for x in range(n)])
        m = [[0 if x == y else ctx.int("M%d_%d%d" % (c, x, y), 0, lin or 10 ** 9, np_=True) for y in range(n)] for x in range(n)]
        if lin:
            m = [[v if isinstance(v, int) else v.__index__() for v in r] for r in m]
        for x in range(n):
            m[x][x] = ctx.sum([m[x][y] for y in range(n) if y != x])
        M.append(m)
    return T, M


def formula(ctx, n, cards, lin, keyword=False):
    combs = combos(cards)
    T, M = stats(ctx, n, len(combs), lin)
    if lin:
        tau, alpha = ctx.choice("tau", MENU_T), ctx.choice("alpha", MENU_A)
        if is_int(alpha):
            alpha = int(alpha)
    else:
        tau = ctx.real("tau", 0, 10, lo_strict=True, np_=False)
        alpha = ctx.real("alpha", 0, 10, lo_strict=True, np_=False)
    p_combs = ctx.lib.NetworkGraph.build_p_comb_structure_for_a_node(list(cards))
    soc = ctx.lib.SetOfCims("X", list(cards), n, p_combs)
    t, m = soc._state_residence_times, soc._transition_matrices
    t[:] = ctx.farray(T, np.float64)
    m[:] = ctx.farray(M, np.int64)
    soc.build_cims(t, m)
    f = ctx.lib.FamScoreCalculator()
    score = f.get_fam_score(cims=soc.actual_cims, alpha_xu=alpha, tau_xu=tau) if keyword else f.get_fam_score(soc.actual_cims, tau, alpha)
    ctx.eq("score is the closed form", score, closed_form(ctx, T, M, n, tau, alpha))
    again = f.get_fam_score(soc.actual_cims, tau, alpha)
    ctx.eq("same score again", again, score)
    ctx.observe("score", score)
    ctx.cover("linear" if lin else "formula")
    if keyword:
        ctx.cover("keyword hyperparameters")


def is_int(v):
    return float(v).is_integer()


def walks(cards, m):
    """A few fixed walks through the states."""
    out = []
    for q in range(6):
        r = [(q * (v + 1)) % c for v, c in enumerate(cards)]
        rows = [list(r)]
        for i in range(m):
            v = (i * (1 + q // 2) + q) % len(cards)
            r[v] = (r[v] + 1 + (i + q) % (cards[v] - 1)) % cards[v]
            rows.append(list(r))
        out.append(rows)
    return out


def scores(ctx, cards, trans, nseq, split, steps=True, menu=0, edit=None):
    """Scores of a sequence of parent sets computed with one estimator from data."""
    n = len(cards)
    labels = list(LABELS[:n])
    trajs = []
    for k, m in enumerate(split):
        if menu:
            rows = walks(cards, m)[ctx.int("walk%d" % k, 0, menu - 1).__index__()]
        else:
            rows = chosen_rows(ctx, cards, m, "x%d_" % k, steps)
        trajs.append(([ctx.real("d%d_%d" % (k, i), 0, 10, np_=False) for i in range(m)], rows))
    tau, alpha = 0.5, ctx.choice("alpha", [1, 0.5])
    sp = sample_path(ctx, labels, cards, trajs)
    est = ctx.lib.StructureScoreBasedEstimator(sp, tau, alpha)
    g = last = None
    for q in range(nseq):
        node = edit if edit is not None else ctx.choice("node%d" % q, list(range(n))) if q else 0
        others = [v for v in range(n) if v != node]
        par = [v for v in others if ctx.bool("p%d_%d" % (q, v))]
        if edit is not None and g is not None:
            g.remove_edges([(labels[p], labels[node]) for p in last if p not in par])
            g.add_edges([(labels[p], labels[node]) for p in par if p not in last])
            ctx.cover("edited graph")
        else:
            g = ctx.lib.NetworkGraph(sp.structure)
        last = par
        if par and (edit is None or not q):
            g.add_edges([(labels[p], labels[node]) for p in reversed(par)])
        score = est.get_score_from_graph(g, labels[node])
        T, M = [], []
        for comb in combos([cards[p] for p in par]):
            t, m = row_stats(trajs, node, cards[node], par, comb)
            T.append([ctx.sum(x) if x else 0.0 for x in t])
            M.append(m)
        ctx.eq("score of the data", score, closed_form(ctx, T, M, cards[node], tau, alpha))
        ctx.observe("score%d" % q, score)
        ctx.cover("parents" if par else "no parents")
        if q:
            ctx.cover("history")
    ctx.cover("data")


def jobs(tier):
    deep = tier != "quick"
    out = []
    for n, cards in [(2, []), (3, []), (4, []), (2, [2]), (3, [2]), (2, [3]), (3, [2, 2])] + \
            ([(5, []), (4, [3]), (3, [3, 3]), (2, [2, 3, 2])] if deep else []):
        out.append(dict(name="formula-%d-%s" % (n, cards), fn="formula", weight=50, params=dict(n=n, cards=cards, lin=0)))
    out.append(dict(name="formula-kw", fn="formula", weight=3, params=dict(n=3, cards=[], lin=0, keyword=True)))
    for n, cards, lin in [(2, [], 3), (3, [], 1), (2, [2], 1)] + ([(2, [2], 2), (3, [], 2), (3, [2], 1)] if deep else []):
        out.append(dict(name="lin-%d-%s-%d" % (n, cards, lin), fn="formula", weight=20, params=dict(n=n, cards=cards, lin=lin)))
    for k, (cards, split) in enumerate([([2, 2, 2], [4]), ([2, 2, 2], [6]), ([2, 3, 2], [5])]):
        out.append(dict(name="edit-%d" % k, fn="scores", weight=60, params=dict(cards=cards, trans=0, nseq=3 if deep else 2, split=split, menu=2, edit=(0, 1, 2)[k])))
    D = [([2, 2], [2], 2, 0), ([2, 3], [4], 2, 4), ([3, 2], [3, 2], 2, 2), ([2, 2, 2], [4], 2, 3)]
    if deep:
        D += [([2, 3], [2], 2, 0), ([3, 2], [3], 2, 0), ([2, 2, 3], [5, 3], 2, 3), ([2, 3], [3, 3], 3, 3), ([3, 2, 2, 2], [6], 2, 3)]
    for k, (cards, split, nseq, menu) in enumerate(D):
        out.append(dict(name="data-%d" % k, fn="scores", weight=100,
                        params=dict(cards=cards, trans=0, nseq=nseq, split=split, menu=menu)))
    out.append(dict(name="data-many", fn="scores", weight=90, params=dict(cards=[2, 7, 6], trans=0, nseq=1, split=[60], menu=2)))
    out.append(in_turn("turn-0", *[("formula", dict(n=n, cards=[], lin=0)) for n in (2, 2, 3)]))
    out.append(in_turn("turn-1", *[("formula", dict(n=n, cards=c, lin=0)) for n, c in ((3, []), (2, [2]), (2, []))]))
    out.append(in_turn("turn-2", *[("scores", dict(cards=c, trans=0, nseq=1, split=[m], menu=2)) for c, m in (([2, 2], 3), ([2, 3], 4), ([2, 2], 5))]))
    out.append(long_names(("scores", dict(cards=[2, 2], trans=0, nseq=2, split=[2], menu=0))))
    return out
