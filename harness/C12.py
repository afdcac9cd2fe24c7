from .common import *
from . import search

REPLAY = "env"
BOUNDS = dict(quick="networks of 1-4 variables, 0-4 iterations, every score of every parent set, every random choice, every subset of known parents, maximum number of parents 0-3 or none, patience 0-2 or none, tabu length and duration 0-4 or none",
              thorough="networks of 1-5 variables, 0-6 iterations")
OUTSIDE = "more iterations; termination is decided for the bounded runs: no endless wait and no exception on any path"
COVERS = ["hill", "tabu", "known parents", "no candidates", "maximum of zero", "maximum reached", "parent replaced", "more known parents than the maximum",
          "tabu list longer than the candidates", "no iterations"]
ASSUMPTIONS = ["the score is an arbitrary function of the parent set", "every answer of random.choice, sample, ... that its contract allows is possible",
               "the structure carries no edges when a search starts (estimate_structure removes them first)"]


def search_(ctx, **k):
    n, child = k["n"], k["child"]
    labels, known, edges, log, P = search.run(ctx, **k)
    me = labels[child]
    parents = [a for a, b in edges]
    ctx.check("every edge goes from another variable to this node", all(b == me and a != me and a in labels for a, b in edges))
    ctx.check("no edge twice", len(set(parents)) == len(parents))
    ctx.check("known parents are included", set(known) <= set(parents))
    mp = P["max_parents"]
    if mp is not None:
        ctx.check("at most the given maximum", ctx.Or(len(parents) <= mp, len(parents) <= len(known)))
        ctx.cover_if("maximum of zero", mp == 0)
        ctx.cover_if("maximum reached", ctx.And(len(parents) == mp, mp > 0))
        ctx.cover_if("more known parents than the maximum", mp < len(known))
    ctx.cover(k["optimizer"])
    if known:
        ctx.cover("known parents")
    if len(known) == n - 1:
        ctx.cover("no candidates")
    if len(log) <= 1:
        ctx.cover("no iterations")
    for a, b in zip(log, log[1:]):
        if len(a[1]) == len(b[1]) and a[1] != b[1]:
            ctx.cover("parent replaced")
    if k["optimizer"] == "tabu" and P["tabu_length"] is not None:
        ctx.cover_if("tabu list longer than the candidates", P["tabu_length"] > n - 1)
    ctx.observe("parents", "+".join(sorted(parents)))


def jobs(tier):
    deep = tier != "quick"
    out = []

    def add(**k):
        out.append(dict(name="%s-%d-%d-%d" % (k["optimizer"], k["n"], k["child"], len(out)), fn="search_", weight=k["n"] ** 2 * k["iters"][1], params=k))
    for n in (1, 2, 3, 4) + ((5,) if deep else ()):
        it = [0, 3] if n < 4 else ([2, 2] if not deep else [3, 3])
        if n == 5:
            it = [2, 2]
        if deep and n < 4:
            it = [0, 5]
        for child in {0, n - 1}:
            for maxp in (None, [0, max(1, n - 2)]):
                add(n=n, child=child, optimizer="hill", iters=it, maxp=maxp, patience=None, nknown=n - 1, others_known=True)
                add(n=n, child=child, optimizer="tabu", iters=it, maxp=maxp, patience=None, tabu=None, duration=None, nknown=n - 1)
        if n < 4:
            it2 = [0, 3] if not deep else [0, 4]
            add(n=n, child=0, optimizer="tabu", iters=it2, maxp=None, patience=None, tabu=[0, 4], duration=[0, 4], nknown=0)
            add(n=n, child=n - 1, optimizer="tabu", iters=it2, maxp=[0, 2], patience=[0, 2], tabu=[0, 1], duration=[2, 4], nknown=1)
            add(n=n, child=n - 1, optimizer="tabu", iters=it2, maxp=None, patience=None, tabu=[1, 2], duration=None, nknown=1)
            add(n=n, child=n - 1, optimizer="tabu", iters=it2, maxp=None, patience=None, tabu=None, duration=[1, 3], nknown=1)
            add(n=n, child=n - 1, optimizer="hill", iters=it2, maxp=[0, 2], patience=[0, 2], nknown=n - 1)
    add(n=4, child=1, optimizer="hill", iters=[3, 3], maxp=[1, 2], patience=None, nknown=1)
    add(n=4, child=1, optimizer="tabu", iters=[3, 3], maxp=[1, 2], patience=None, tabu=[1, 1], duration=[3, 3], nknown=1)
    for opt in ("hill", "tabu"):
        t = dict(tabu=None, duration=None) if opt == "tabu" else {}
        out.append(in_turn("turn-" + opt, *[("search_", dict(n=n, child=ch, optimizer=opt, iters=[2, 2], maxp=m, patience=None, nknown=k, **t))
                                            for n, ch, m, k in ((3, 1, [1, 1], 1), (2, 1, None, 0), (3, 1, None, 0))], weight=99))
    out.append(long_names(*[("search_", dict(n=3, child=1, optimizer=o, iters=[2, 2], maxp=[1, 2], patience=None, nknown=1, **t))
                            for o, t in (("hill", {}), ("tabu", dict(tabu=None, duration=None)))], weight=99))
    for opt in ("hill", "tabu"):
        t = dict(tabu=None, duration=None) if opt == "tabu" else {}
        add(n=8, child=2, optimizer=opt, iters=[2, 2], maxp=[0, 7], patience=None, nknown=6, sure=5, **t)
        add(n=2, child=0, optimizer=opt, iters=[60, 60], maxp=None, patience=None, nknown=0, **t)
    return out
