from .common import *
from . import C10

BOUNDS = dict(quick="children with 2-4 states; counts symbolic up to 1000 (states all left) for 2-3 states, every matrix pair with counts 0-2 (2 states), menus of count matrices with zeros (3-4 states); residence times symbolic in [0,1000]; both significances symbolic in (0,1) or from a menu; threshold symbolic 0-30, degrees of freedom symbolic 1-60",
              thorough="2-5 states, counts 0-3 enumerated by the solver for 2 states, larger menus")
OUTSIDE = "values of the F and chi-square quantile functions (uninterpreted where symbolic), rounding at the boundary of a test"
COVERS = ["independent", "dependent: exponential", "dependent: chi-square", "too few departures", "state never left", "transition never observed",
          "ratio with zero denominator", "symbolic counts", "enough departures", "conditional test: too few departures", "conditional test: enough departures", "rule of thumb with a separating set", "dependent: chi-square with a transition never observed", "children of different cardinalities"]
ASSUMPTIONS = ["quantiles of an F distribution with 0 degrees of freedom are not numbers (scipy)", "no statistic within a relative 1e-6 of a quantile that is a number (a tie is a matter of rounding)"]
LAB = ["X1", "1X", "X11"]


def estimator(ctx, n, ea, ca, thr):
    cards = [n, 2, 2]
    sp = sample_path(ctx, LAB, cards, [([1.0, 1.0], [[0, 0, 0], [1, 0, 0], [1, 1, 0]])])
    return ctx.lib.StructureConstraintBasedEstimator(sp, ea, ca, [], thr)


def cim(ctx, T, M, n):
    c = ctx.lib.SetOfCims("Z", [], n, ctx.lib.NetworkGraph.build_p_comb_structure_for_a_node([]))
    t, m = c._state_residence_times, c._transition_matrices
    t[:] = ctx.farray([T], np.float64)
    m[:] = ctx.farray([M], np.int64)
    c.build_cims(t, m)
    return c.actual_cims[0]


def expected(ctx, n, T1, M1, T2, M2, ea, ca, thr, thumb):
    """(rejected by the rule of thumb, rejected by the exponential tests, by the chi-square tests)"""
    few = False
    if n > 2:
        few = ctx.sum([M1[x][x] for x in range(n)]) < thr * thumb
    ex, ch = [], []
    for x in range(n):
        r1, r2 = M1[x][x], M2[x][x]
        if r1 == 0 or r2 == 0:
            ctx.cover("state never left")
            continue
        num = (1 - r2) / (T2[x] + 1.0)
        den = (1 - r1) / (T1[x] + 1.0)
        lo, hi = ctx.dist("f", "ppf", ea / 2, r1, r2), ctx.dist("f", "ppf", 1 - ea / 2, r1, r2)
        if r1 == 1:
            ctx.cover("ratio with zero denominator")
            # the ratio is infinite (rejected) or 0/0, not a number (not rejected)
            ex.append(not (r2 == 1))
        else:
            f = num / den
            for q in (lo, hi):
                if isinstance(q, float):                 # apart from the rounding of the quantile itself
                    ctx.assume(ctx.Or(f < q * (1 - 1e-6), f > q * (1 + 1e-6)))
            ex.append(ctx.Or(f < lo, f > hi))
        k, l = ctx.sqrt(r1 / r2), ctx.sqrt(r2 / r1)
        stat = []
        for y in range(n):
            if y != x:
                tot = M1[x][y] + M2[x][y]
                if tot == 0:
                    ctx.cover("transition never observed")
                    continue
                stat.append((k * M2[x][y] - l * M1[x][y]) ** 2 / tot)
        ch.append(ctx.sum(stat) > ctx.dist("chi2", "ppf", 1 - ca, n - 1))
    return few, ctx.Or(*ex) if ex else False, ctx.Or(*ch) if ch else False


def decide(ctx, n, mode, hi=2, ea_menu=None, ca_menu=None, given=None, first=None):
    T1 = [ctx.real("T1_%d" % x, 0, 1000) for x in range(n)]
    T2 = [ctx.real("T2_%d" % x, 0, 1000) for x in range(n)]
    if mode == "sym":
        mats = []
        for w in (1, 2):
            m = [[0 if x == y else ctx.int("M%d_%d%d" % (w, x, y), 1, 1000, np_=True) for y in range(n)] for x in range(n)]
            for x in range(n):
                m[x][x] = ctx.sum([m[x][y] for y in range(n) if y != x])
                ctx.assume(m[x][x] >= 2)
            mats.append(m)
        ctx.cover("symbolic counts")
    elif mode == "enum":
        mats = []
        for w in (1, 2):
            m = [[0 if x == y else ctx.int("M%d_%d%d" % (w, x, y), 0, hi).__index__() for y in range(n)] for x in range(n)]
            mats.append(m)
    else:
        mats = [menu(n)[i] if isinstance(i, int) else i for i in given] if given else [menu(n)[ctx.int("mat%d" % w, 0, 8).__index__()] for w in (1, 2)]
        mats = [[list(r) for r in m] for m in mats]
    if mode != "sym":
        for m in mats:
            for x in range(n):
                m[x][x] = sum(m[x][y] for y in range(n) if y != x)
    M1, M2 = mats
    if ea_menu:
        ea, ca = ctx.choice("ea", ea_menu), ctx.choice("ca", ca_menu)
    else:
        ea = ctx.real("ea", 0, 1, lo_strict=True, hi_strict=True, np_=False)
        ca = ctx.real("ca", 0, 1, lo_strict=True, hi_strict=True, np_=False)
    thr = ctx.int("thr", 0, 30)
    thumb = ctx.int("thumb", 1, 60) if n > 2 else ctx.choice("thumb", [0.0, 4])
    est = estimator(ctx, n, ea, ca, thr)
    if first:                                            # a child of another cardinality tested before
        m = [[0 if x == y else 3 for y in range(first)] for x in range(first)]
        for x in range(first):
            m[x][x] = 3 * (first - 1)
        est.independence_test(first, cim(ctx, [1.0] * first, m, first), cim(ctx, [2.0] * first, m, first), 4, 2, 0)
        ctx.cover("children of different cardinalities")
    before = est._removable_edges_matrix.copy()
    got = est.independence_test(n, cim(ctx, T1, M1, n), cim(ctx, T2, M2, n), thumb, 1, 0)
    few, ex, ch = expected(ctx, n, T1, M1, T2, M2, ea, ca, thr, thumb)
    dep = ctx.Or(few, ex, ch)
    ctx.check("independent exactly if no test rejects", ctx.iff(got, ctx.Not(dep)))
    after = est._removable_edges_matrix
    for i in range(3):
        for j in range(3):
            if (i, j) == (1, 0):
                ctx.check("marked as not removable exactly by the rule of thumb", ctx.iff(after[i][j], ctx.Not(few)))
            else:
                ctx.check("no other edge is marked", bool(after[i][j]) == bool(before[i][j]))
    ctx.cover_if("independent", ctx.Not(dep))
    ctx.cover_if("dependent: exponential", ctx.And(ex, ctx.Not(few)))
    ctx.cover_if("dependent: chi-square", ctx.And(ch, ctx.Not(few), ctx.Not(ex)))
    if any(M1[x][y] + M2[x][y] == 0 and M1[x][x] > 0 and M2[x][x] > 0 for x in range(n) for y in range(n)) if mode != "sym" else False:
        ctx.cover_if("dependent: chi-square with a transition never observed", ctx.And(ch, ctx.Not(few), ctx.Not(ex)))
    ctx.cover_if("too few departures", few)
    if n > 2:
        ctx.cover_if("enough departures", ctx.Not(few))
    ctx.observe("independent", bool(got))


def menu(n):
    """Count matrices (off the diagonal) with and without zeros."""
    out = []
    for pat in ([5], [0, 7], [9, 1, 0], [1, 0], [0], [30, 1, 0], [1, 30, 0], [40, 2, 0, 0, 8], [2, 1, 1, 0, 0, 0], [5, 1, 0], [1, 5, 0]):
        it = itertools.cycle(pat)
        out.append([[0 if x == y else next(it) for y in range(n)] for x in range(n)])
    return out


def thumb(ctx, cards, child, per):
    """The degrees of freedom a conditional test uses for the rule of thumb: (states - 1)^2 |parent| |separating set|."""
    labels = list(LABELS[:len(cards)])
    rows = C10.dense(cards, child, per)
    trajs = [([1.0] * (len(rows) - 1), rows)]
    sp = sample_path(ctx, labels, cards, trajs)
    n = cards[child]
    thr = ctx.int("thr", 0, 100)
    est = ctx.lib.StructureConstraintBasedEstimator(sp, 1e-12, 1e-12, [], thr)
    p, sep = C10.pick(ctx, "f", [v for v in range(len(cards)) if v != child])
    before = est._removable_edges_matrix.copy()
    got = est.complete_test(labels[p], labels[child], [labels[v] for v in sep], n, len(cards), p, child)
    df = (n - 1) ** 2 * cards[p]
    for v in sep:
        df *= cards[v]
    few = []
    for u in combos([cards[v] for v in sorted(sep)]):
        T, M = C10.sums(ctx, cards, trajs, child, sorted(sep), u)
        few.append(sum(M[x][x] for x in range(n)) < thr * df)
    few = ctx.Or(*few) if n > 2 else False
    ctx.check("rejected when the departures are too few for the degrees of freedom", ctx.iff(got, ctx.Not(few)))
    ctx.check("and the edge is marked then", ctx.iff(est._removable_edges_matrix[p][child], ctx.Not(few)))
    ctx.cover_if("conditional test: too few departures", few)
    ctx.cover_if("conditional test: enough departures", ctx.Not(few))
    if sep:
        ctx.cover("rule of thumb with a separating set")
    ctx.observe("independent", bool(got))


def jobs(tier):
    deep = tier != "quick"
    out = []
    A, C = [0.1, 0.01], [0.1, 0.001]
    for n in (2, 3) + ((4,) if deep else ()):
        out.append(dict(name="sym-%d" % n, fn="decide", weight=60, query_ms=(15000 if deep else 800) if n > 2 else 8000,
                        params=dict(n=n, mode="sym")))
    out.append(dict(name="enum-2", fn="decide", weight=80, params=dict(n=2, mode="enum", hi=3 if deep else 2, ea_menu=A, ca_menu=C)))
    for n in (3, 4) + ((2, 5) if deep else ()):
        out.append(dict(name="menu-%d" % n, fn="decide", weight=70, params=dict(n=n, mode="menu", ea_menu=A if deep else A[:1], ca_menu=C if deep else C[:1])))
    for k, (cards, child) in enumerate([([3, 2], 0), ([2, 3, 4], 1), ([3, 2, 2, 3], 3), ([2, 3], 0)] + ([([4, 3, 2], 0)] if deep else [])):
        out.append(dict(name="thumb-%d" % k, fn="thumb", weight=40, params=dict(cards=cards, child=child, per=2)))
    for k, (n, m) in enumerate([(2, (1, 2)), (2, (3, 1)), (3, (2, 1)), (3, (1, 3))]):
        out.append(in_turn("turn-%d" % k, *[("decide", dict(n=n, mode="menu", ea_menu=[ea], ca_menu=[ca], given=m)) for ea, ca in ((0.1, 0.05), (0.4, 0.6))]))
    for k, (n, m) in enumerate([(4, (9, 10)), (4, (0, 10)), (3, (9, 0))]):
        out.append(dict(name="given-%d" % k, fn="decide", weight=70, params=dict(n=n, mode="menu", given=list(m), ea_menu=[1e-6],
                                                                         ca_menu=[0.9, 0.7, 0.5, 0.3, 0.2, 0.1, 0.05, 0.02, 0.01, 0.003, 0.001])))
    for k, n in enumerate((7, 6) if deep else (7,)):               # only the last of many states tells the two apart
        same = [[0 if x == y else 5 for y in range(n)] for x in range(n)]
        for i, row in enumerate([[60, 4] + [1] * (n - 3) + [0]]):
            out.append(dict(name="last-%d-%d" % (k, i), fn="decide", weight=70, params=dict(n=n, mode="menu", given=[same, same[:-1] + [row]], ea_menu=[1e-6], ca_menu=[0.9, 0.1, 0.01])))
    for k, (n, f) in enumerate(((2, 3), (3, 2), (3, 4))):
        out.append(dict(name="after-%d" % k, fn="decide", weight=70, params=dict(n=n, mode="menu", given=[[[[0, 5, 5], [5, 0, 5], [5, 5, 0]], [[0, 9, 1], [9, 0, 1], [9, 1, 0]]][i] if n == 3 else menu(n)[5 * i] for i in (0, 1)], ea_menu=[1e-6], ca_menu=[0.9, 0.5, 0.1, 0.05, 0.01, 0.001], first=f)))
    for k, n in enumerate((2, 3)):                                 # hundreds of departures
        m = [[[0 if x == y else a + 10 * x + y for y in range(n)] for x in range(n)] for a in (610, 2700)]
        out.append(dict(name="large-%d" % k, fn="decide", weight=70, params=dict(n=n, mode="menu", given=m, ea_menu=[0.1], ca_menu=[0.1, 0.01])))
    out.append(long_names(("thumb", dict(cards=[2, 3, 4], child=1, per=2))))
    return out
