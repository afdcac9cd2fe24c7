from .common import *
from .C18 import matrices, generator, explain

REPLAY = "env"
BOUNDS = dict(quick="1 to 3 trajectories of networks of 1-2 variables with 2-3 states; lists of 0-2 transitions (every combination) or of any end times with up to 3 transitions in all before them; every order in which the workers end, every random state and variate",
              thorough="up to 4 trajectories, 4 transitions before the end times")
OUTSIDE = "transitions within 1e-6 of an end time, crashing or killed workers, the operating system's process scheduling inside one trajectory (workers share nothing but the result list), how different numpy's streams for different seeds really are (seeds are taken to give unrelated streams unless they are equal), more trajectories"
COVERS = ["numbers of transitions", "end times", "both given", "nothing given", "equal limits", "different limits", "one request", "three requests", "no request", "differ", "requested again", "dozens of requests"]
ASSUMPTIONS = ["processes run on copies of their parent's memory, with a copy of its random state; they end in any order",
               "two random integers drawn from a range of 2^31 or more are different"]


def segments(ctx, sizes, draws):
    """The draws of trajectories of one variable with these numbers of rows, drawn one after another."""
    out, pos = [], 0
    for r in sizes:
        need = 2 * r - 1
        out.append(draws[pos:pos + need])
        pos += need
    return out if pos == len(draws) else None


def kinds_fit(seg):
    return all(d[0] == ("cat" if i % 2 else "exp") for i, d in enumerate(seg))


def sample(ctx, cards, edges, max_trs=None, t_ends=None, limit=3, both=False, equal=False, crowd=None):
    mats = matrices(ctx, cards, edges)
    lab, gen = generator(ctx, cards, edges, mats)
    n = len(cards)
    ks = tes = None
    kw = {}
    if max_trs is not None:
        ks = [ctx.int("k%d" % i, 0, max_trs[1], np_=False).__index__() for i in range(max_trs[0])]
        kw["max_trs"] = list(ks)
    if crowd:
        ctx.env.pin_order = ctx.choice("end", [0, -1])
        ks = [i % 5 == 3 for i in range(crowd)]
        ks = kw["max_trs"] = [1 if k else 0 for k in ks]
        ctx.cover("dozens of requests")
    if t_ends is not None:
        tes = [ctx.real("t%d" % i, 0, 50, np_=False) for i in range(1 if equal else t_ends)]
        if equal:
            tes = tes * t_ends
        kw["t_ends"] = list(tes)
        ctx.env.max_cats = limit
    if both:
        ctx.cover("both given")
    out = gen.multi_trajectory(**kw)
    if not kw:
        ctx.cover("nothing given")
        ctx.check("nothing is generated when nothing is requested", out is None or len(out) == 0)
        return
    out = list(out)
    want = len(tes if tes is not None else ks)
    ctx.check("one trajectory per request", len(out) == want)
    if len(out) != want:
        return
    ctx.cover({0: "no request", 1: "one request", 3: "three requests"}.get(want, "requests"))
    trs = []
    for o in out:
        ctx.check("columns are the time and the variables", [str(c) for c in o.columns] == ["Time"] + lab)
        trs.append([(o["Time"].iloc[i], [int(o[l].iloc[i]) for l in lab]) for i in range(len(o))])
    draws = list(ctx.env.draws)
    if tes is None:
        ctx.cover("numbers of transitions")
        ctx.check("each trajectory obeys its own number of transitions", sorted(len(t) - 1 for t in trs) == sorted(ks))
        ctx.cover_if("equal limits", len(set(ks)) < len(ks))
        ctx.cover_if("different limits", len(set(ks)) > 1)
    else:
        ctx.cover("end times")
        fits = []
        for perm in itertools.permutations(range(want)):
            fits.append(ctx.And(*[ctx.And(trs[i][-1][0] <= tes[j] + 1e-4, True) for i, j in enumerate(perm)]))
        if want:
            ctx.check("each trajectory ends before its own end time", ctx.Or(*fits))
        if equal:
            ctx.cover("equal limits")
        if n == 1 and want:
            # whose draws are whose; then none may stop early
            ok = []
            near = 1e-6 if ctx.symbolic else 5e-7
            for p in itertools.permutations(range(want)):
                segs = segments(ctx, [len(trs[i]) for i in p], draws)
                if segs is None or not all(map(kinds_fit, segs)):
                    continue
                for q in itertools.permutations(range(want)):
                    cs, far = [], []
                    for s, i, j in zip(segs, p, range(want)):
                        tot, st = 0, 0
                        for a, d in enumerate(s):
                            if a % 2:
                                st = d[2]
                                cs.append(ctx.And(trs[i][a // 2 + 1][0] - tot <= 1e-4, tot - trs[i][a // 2 + 1][0] <= 1e-4))
                                cs.append(tot < tes[q[j]] + 1e-9)
                                far.append(tot)
                            else:
                                tot = tot + d[2] * (1 if type(d[1]) is float and d[1] == 1.0 else d[1]) / (1 if not (type(d[1]) is float and d[1] == 1.0) else -mats[0][1][()][st][st])
                        cs.append(tot >= tes[q[j]] - 1e-9)
                        far.append(tot)
                        for x in far:                   # ties with an end time: see OUTSIDE
                            for te in tes:
                                ctx.assume(ctx.Or(x - te >= near, te - x >= near))
                        far = []
                    ok.append(ctx.And(*cs))
            if ok:
                ctx.check("each trajectory goes on to its own end time", ctx.Or(*ok))
            else:
                ctx.note("draws of an unknown kind")
    # not copies of one another
    for i in range(want):
        for j in range(i):
            if len(trs[i]) > 1 and len(trs[j]) > 1:
                a, b = trs[i][1][0], trs[j][1][0]
                gap = 2e-3 if ctx.symbolic else 1e-3
                diff = ctx.Or(a - b > gap, b - a > gap)
                can = ctx.possible(diff)
                ctx.check("trajectories are not copies of one another", can)
                if can:
                    ctx.cover("differ")
                    ctx.assume(diff)
    for i, t in enumerate(trs):
        ctx.observe("n%d" % i, len(t))
        for k, r in enumerate(t):
            ctx.observe("t%d_%d" % (i, k), r[0])


def twice(ctx, cards):
    """A second request does not repeat the first one's trajectories."""
    mats = matrices(ctx, cards, [])
    lab, gen = generator(ctx, cards, [], mats)
    if ctx.choice("limit", ["end", "number"]) == "end":
        ctx.env.max_cats = 2
        kw = dict(t_ends=[ctx.real("t", 0, 50, np_=False)])
    else:
        kw = dict(max_trs=[1])
    ts = []
    for _ in range(2):
        out = list(gen.multi_trajectory(**kw))
        ctx.check("one trajectory per request", len(out) == 1)
        if len(out) != 1:
            return
        ts.append(out[0]["Time"].iloc[1] if len(out[0]) > 1 else None)
    if None in ts:
        return
    gap = 2e-3 if ctx.symbolic else 1e-3
    diff = ctx.Or(ts[0] - ts[1] > gap, ts[1] - ts[0] > gap)
    can = ctx.possible(diff)
    ctx.check("a second request does not repeat the trajectories", can)
    if can:
        ctx.assume(diff)
    ctx.cover("requested again")
    ctx.observe("t", ts[0])
    ctx.observe("t2", ts[1])


def jobs(tier):
    deep = tier != "quick"
    out = []

    def add(w, **k):
        out.append(dict(name="par-%d" % len(out), fn="sample", weight=w, params=k))
    add(9, cards=[2], edges=[])
    add(9, cards=[2], edges=[], max_trs=[0, 0])
    add(9, cards=[2], edges=[], t_ends=0)
    add(9, cards=[2], edges=[], max_trs=[1, 3])
    add(20, cards=[2], edges=[], max_trs=[2, 2])
    add(20, cards=[2], edges=[], max_trs=[3, 1])
    add(20, cards=[2], edges=[], t_ends=1, limit=3)
    add(40, cards=[2], edges=[], t_ends=2, limit=3)
    add(40, cards=[2], edges=[], t_ends=2, limit=2, equal=True)
    add(40, cards=[2], edges=[], t_ends=3, limit=2)
    add(40, cards=[3, 2], edges=[[1, 0]], max_trs=[2, 1])
    add(40, cards=[2, 2], edges=[[0, 1]], t_ends=2, limit=1)
    add(40, cards=[2], edges=[], max_trs=[2, 1], t_ends=2, limit=2, both=True)
    add(40, cards=[2], edges=[], max_trs=[1, 1], t_ends=2, limit=2, both=True)
    out.append(dict(name="twice-2", fn="twice", weight=9, params=dict(cards=[2])))
    out.append(dict(name="twice-3", fn="twice", weight=9, params=dict(cards=[3, 2])))
    add(40, cards=[2], edges=[], crowd=40)
    if deep:
        add(300, cards=[2], edges=[], max_trs=[4, 1])
        add(300, cards=[3], edges=[], max_trs=[3, 2])
        add(300, cards=[2], edges=[], t_ends=3, limit=4)
        add(300, cards=[2], edges=[], t_ends=3, limit=4, equal=True)
        add(300, cards=[2, 3], edges=[[0, 1], [1, 0]], max_trs=[2, 3])
        add(300, cards=[2, 3], edges=[[0, 1], [1, 0]], t_ends=2, limit=3)
    return out
