from .common import *

REPLAY = "env"
BOUNDS = dict(quick="the matrices of single variables with 2-4 states for every range 0 <= min <= max <= 100 and every random draw, of pairs for every draw and given ranges; every edge set of up to 3 variables with 2-4 states with given draws, 4 variables with given numbers of edges",
              thorough="5 states; pairs with every range; every edge set of 4 variables with given draws")
OUTSIDE = "more variables or states; the distribution of the draws themselves"
COVERS = ["no parents", "one parent", "two parents", "three parents", "minimum equals maximum", "generated again", "no graph yet"]
ASSUMPTIONS = ["drawn unit values keep a distance of 2^-20 from 0 and 1 (closer, the sums lose digits in double precision)", "rounding to four decimals moves a value by at most half a unit of the fourth decimal and keeps its sign"]
NAMES = ["X1", "1X", "X11", "X"]
GIVEN = [0.37, 0.0021, 0.94, 0.5, 0.113, 0.77, 0.25, 0.61, 0.08, 0.999, 0.43]
H = 0.5e-4 + 1e-9


def check(ctx, gen, labels, cards, lo, hi):
    g = gen.graph
    ctx.check("a set of matrices for every variable", sorted(str(k) for k in gen.cims) == sorted(labels))
    for i, l in enumerate(labels):
        s = gen.cims[l]
        parents = [v for v in range(len(labels)) if v != i and (labels[v], l) in [tuple(str(x) for x in e) for e in g.edges]]
        want = combos([cards[v] for v in parents])
        n = cards[i]
        cims = list(s.actual_cims)
        ctx.check("one matrix per combination of the parents' states", len(cims) == len(want))
        comb = s.p_combs
        got = [tuple(int(x) for x in c) for c in comb] if parents else [()] * (1 if len(comb) <= 1 else 2)
        ctx.check("listed with that combination", got == want)
        ctx.cover(["no parents", "one parent", "two parents", "three parents", "three parents"][len(parents)])
        for c, u in zip(cims, want):
            m = c.cim
            ctx.check("of the variable's size", tuple(m.shape) == (n, n))
            for x in range(n):
                q = -m[x][x]
                ctx.check("the exit rate is in the range", ctx.And(q >= lo - H, q <= hi + H))
                for y in range(n):
                    if y != x:
                        ctx.check("rates are not negative", m[x][y] >= 0)
                tot = ctx.sum([m[x][y] for y in range(n)])
                ctx.check("rows sum to zero", ctx.And(tot <= n * H, tot >= -n * H))
            # found again by the parents' states
            if len(parents) >= 2:
                sel = s.filter_cims_with_mask(np.array([True] * len(parents)), list(u))
                ctx.check("selecting by the combination gives the matrix", len(sel) == 1 and sel[0] is c)


def generate(ctx, cards, edges=None, again=False, np_vals=True, span=None, given=False):
    labels = NAMES[:len(cards)]
    gen = ctx.lib.NetworkGenerator(list(labels), np.array(cards) if np_vals else list(cards))
    if again:
        gen.generate_cims(1, 2)
        ctx.check("without a graph nothing is generated", gen.cims is None)
        ctx.cover("no graph yet")
    if edges is None:
        gen.generate_graph(0.5)
    else:
        n = len(cards)
        ctx.env.pin_shuffle = True
        gen.generate_graph(edges / (n * (n - 1)), fixed=True)
    if span:
        lo, hi = span
    else:
        lo = ctx.real("min", 0, 100, np_=False)
        hi = ctx.real("max", 0, 100, np_=False)
        ctx.assume(lo <= hi)
    ctx.env.draws.clear()
    ctx.env.unit_margin = 2.0 ** -20
    if given:
        ctx.env.unit_menu = GIVEN
    gen.generate_cims(lo, hi)
    check(ctx, gen, labels, cards, lo, hi)
    if again:
        lo2, hi2 = 5, 7.5
        gen.generate_cims(lo2, hi2)
        check(ctx, gen, labels, cards, lo2, hi2)
        ctx.cover("generated again")
    if not span:
        ctx.cover_if("minimum equals maximum", lo == hi)
    ctx.observe("first", gen.cims[labels[0]].actual_cims[0].cim[0][0])


def jobs(tier):
    deep = tier != "quick"
    out = []

    def add(w, **k):
        out.append(dict(name="generate-%d" % len(out), fn="generate", weight=w, params=k))
    add(10, cards=[2])
    add(30, cards=[3], np_vals=False)
    add(60, cards=[4])
    add(90, cards=[2, 2], span=[1, 5.5])
    add(90, cards=[2, 3], span=[0.25, 100], edges=1)
    add(90, cards=[3, 2], span=[2, 2], edges=1)
    add(3, cards=[2, 3], again=True, given=True, span=[1, 2])
    add(3, cards=[3, 2], np_vals=False, given=True, span=[0.5, 0.5])
    add(9, cards=[2, 3, 4], given=True, span=[0, 10])
    add(9, cards=[4, 2, 3], given=True, span=[0.1, 3], np_vals=False)
    add(9, cards=[2, 3, 2, 3], given=True, span=[1, 3], edges=12)
    add(9, cards=[2, 3, 2, 3], given=True, span=[1, 3], edges=7)
    add(9, cards=[3, 2, 4, 2], given=True, span=[1, 3], edges=10)
    add(60, cards=[9, 8, 2], given=True, span=[1, 3], edges=6)
    add(60, cards=[12, 2], given=True, span=[1, 3], edges=1)
    if deep:
        add(99, cards=[5])
        add(99, cards=[2, 2])
        add(99, cards=[2, 3], span=[1, 5.5])
        add(99, cards=[2, 2, 2], span=[1, 5.5], edges=4)
        add(999, cards=[2, 3, 2, 3], given=True, span=[1, 3])
    for k, cs in enumerate([([2, 3, 4], [2, 4, 3]), ([4, 2, 3], [3, 2, 4], [4, 2, 3])]):
        out.append(in_turn("turn-%d" % k, *[("generate", dict(cards=c, given=True, span=[1 + i, 3 + i], edges=6)) for i, c in enumerate(cs)]))
    out.append(long_names(("generate", dict(cards=[2, 3, 2, 3], given=True, span=[1, 3], edges=12))))
    return out
