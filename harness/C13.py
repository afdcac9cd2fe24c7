from .common import *
from . import search

REPLAY = "env"
BOUNDS = dict(quick="networks of 1-4 variables, 0-4 iterations, every score of every parent set, every random choice, up to two known parents, maximum number of parents 1-2 or none, patience 0-2 or none, tabu length and duration 0-4 or none",
              thorough="networks of 1-5 variables, 0-6 iterations")
OUTSIDE = "more iterations"
COVERS = ["hill", "tabu", "improved", "never improved", "stopped by patience", "all iterations used", "replacement undone", "removal", "improved after a failure"]
ASSUMPTIONS = ["the score is an arbitrary function of the parent set", "every answer of random.choice, sample, ... that its contract allows is possible",
               "the structure carries no edges when a search starts (estimate_structure removes them first)"]


def search_(ctx, **k):
    n, child = k["n"], k["child"]
    labels, known, edges, log, P = search.run(ctx, **k)
    me = labels[child]
    parents = tuple(sorted(a for a, b in edges))
    sets = [s for (_, s, _) in log]
    ctx.check("the score of this node is asked for, with edges to it only", all(c == me and not bad for c, _, bad in log))
    S = {}
    for s in set(sets) | {parents}:
        S[s] = search.score(ctx, me, s)
    ctx.check("the returned structure was evaluated", parents in sets)
    ctx.check("it is at least as good as the known parents", S[parents] >= search.score(ctx, me, known))
    for s in set(sets):
        ctx.check("it is the best structure evaluated", S[parents] >= S[s])
    best, fails, stop = tuple(sorted(known)), 0, None
    ctx.check("the search starts from the known parents", not sets or sets[0] == best)
    for i, s in enumerate(sets[1:]):
        d = set(s) ^ set(best)
        one = len(d) == 1
        swap = len(d) == 2 and len(s) == len(best)
        ctx.check("each move starts from the best structure so far", one or swap)
        if P["patience"] is not None:
            ctx.check("stops after patience + 1 moves without improvement", fails < P["patience"] + 1)
        if len(s) < len(best):
            ctx.cover("removal")
        if bool(S[s] > S[best]):
            best = s
            ctx.cover("improved" if not fails else "improved after a failure")
            fails = 0
        else:
            fails += 1
            if swap:
                ctx.cover("replacement undone")
    ctx.check("at most one structure per iteration", len(sets) - 1 <= P["iterations_number"])
    stuck = not [v for v in labels if v != me and v not in known]
    if P["max_parents"] is not None and set(best) == set(known):
        stuck = ctx.Or(stuck, len(best) >= P["max_parents"])
    ends = [stuck, len(sets) - 1 == P["iterations_number"]] + ([fails == P["patience"] + 1] if P["patience"] is not None else [])
    ctx.check("it does not stop while a move, an iteration and patience are left", ctx.Or(*ends))
    if fails == len(sets) - 1 and fails:
        ctx.cover("never improved")
    if P["patience"] is not None:
        ctx.cover_if("stopped by patience", ctx.And(fails == P["patience"] + 1, len(sets) - 1 < P["iterations_number"]))
    ctx.cover_if("all iterations used", ctx.And(P["iterations_number"] == len(sets) - 1, len(sets) > 1))
    ctx.cover(k["optimizer"])
    ctx.observe("parents", "+".join(parents))
    ctx.observe("score", S[parents])


def jobs(tier):
    deep = tier != "quick"
    out = []

    def add(**k):
        out.append(dict(name="%s-%d-%d-%d" % (k["optimizer"], k["n"], k["child"], len(out)), fn="search_", weight=k["n"] ** 2 * k["iters"][1], params=k))
    for n in (1, 2, 3, 4) + ((5,) if deep else ()):
        it = [0, 4] if n < 4 else ([2, 2] if not deep else [3, 3])
        if n == 5:
            it = [3, 3]
        if deep and n < 4:
            it = [0, 6 if n < 3 else 5]
        for opt in ("hill", "tabu"):
            t = dict(tabu=None, duration=None) if opt == "tabu" else {}
            add(n=n, child=0, optimizer=opt, iters=it, maxp=None, patience=None, nknown=0, **t)
            if n > 1:
                add(n=n, child=n - 1, optimizer=opt, iters=it, maxp=[1, max(1, n - 2)], patience=None, nknown=1 if n < 5 else 0, **t)
            if n < 4:
                add(n=n, child=0, optimizer=opt, iters=it, maxp=None, patience=[0, 2], nknown=1, **t)
            if n == 3 and opt == "tabu":
                add(n=n, child=1, optimizer=opt, iters=[3, 3] if not deep else [4, 4], maxp=None, patience=[0, 2], nknown=1, tabu=[0, 3], duration=[0, 3])
                add(n=n, child=1, optimizer=opt, iters=[3, 3] if not deep else [5, 5], maxp=[1, 2], patience=None, nknown=0, tabu=[1, 1], duration=[3, 3])
    for opt in ("hill", "tabu"):
        t = dict(tabu=[1, 1], duration=[4, 4]) if opt == "tabu" else {}
        add(n=4, child=2, optimizer=opt, iters=[3, 3], maxp=[1, 2], patience=None, nknown=0, **t)
        add(n=4, child=2, optimizer=opt, iters=[3, 3], maxp=None, patience=[0, 1], nknown=0, **t)
    for opt, t in (("hill", {}), ("tabu", dict(tabu=None, duration=None))):
        add(n=2, child=1, optimizer=opt, iters=[5, 6], maxp=None, patience=[1, 3], nknown=0, **t)
        add(n=3, child=1, optimizer=opt, iters=[6, 6] if not deep else [7, 8], maxp=None, patience=[2, 2] if not deep else [2, 3], nknown=0, **t)
    for opt in ("hill", "tabu"):
        t = dict(tabu=None, duration=None) if opt == "tabu" else {}
        out.append(in_turn("turn-" + opt, *[("search_", dict(n=n, child=ch, optimizer=opt, iters=[2, 2], maxp=m, patience=None, nknown=k, **t))
                                            for n, ch, m, k in ((3, 1, [1, 1], 1), (2, 1, None, 0), (3, 1, None, 0))], weight=99))
    out.append(long_names(*[("search_", dict(n=3, child=1, optimizer=o, iters=[2, 2], maxp=[1, 2], patience=None, nknown=1, **t))
                            for o, t in (("hill", {}), ("tabu", dict(tabu=None, duration=None)))], weight=99))
    for opt in ("hill", "tabu"):
        t = dict(tabu=None, duration=None) if opt == "tabu" else {}
        add(n=8, child=2, optimizer=opt, iters=[2, 2], maxp=[5, 7], patience=None, nknown=6, sure=5, **t)
        add(n=2, child=0, optimizer=opt, iters=[120, 120], maxp=None, patience=None, nknown=0, **t)
        add(n=2, child=1, optimizer=opt, iters=[40, 40], maxp=None, patience=[4, 30], nknown=0, **t)
    return out
