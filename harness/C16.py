from fractions import Fraction

from .common import *

REPLAY = "env"
JOB_END = ("draws", "fixed_sets")
BOUNDS = dict(quick="probabilistic: 0-3 variables, every outcome of every draw, any density in [0,1] (4 variables: one density per job, two variables' edges free); fixed: 1-3 variables with every permutation drawn, 2-6 variables with every density in [0,1] (one permutation), menus of float and integer densities up to 12 variables",
              thorough="probabilistic with 4 variables in full; more densities")
OUTSIDE = "densities within 1e-6 of, but not at, a whole number of edges; more variables; the numerical distribution of a single Bernoulli draw or shuffle (trusted to numpy and random)"
COVERS = ["probabilistic", "fixed", "rejected", "no edges", "all edges", "some edges", "density 0", "density 1", "generated twice", "every edge set"]
ASSUMPTIONS = ["a Bernoulli draw with probability p gives 1 only if p > 0 and 0 only if p < 1", "shuffle can give every permutation"]
CARDS = [2, 3, 4, 2, 5, 3, 2, 2, 3, 2, 4, 2]
NAMES = ["Z", "a1", "M", "B_2", "Y", "10", "9", "x y", "n8", "n9", "nA", "k"]


def result(ctx, gen, labels, cards):
    """The checks common to both modes; returns the edges."""
    n = len(labels)
    g = gen.graph
    nodes = [str(x) for x in g.nodes]
    ctx.check("contains every variable", nodes == labels)
    for i, l in enumerate(labels):
        ctx.check("with its cardinality", int(g.get_states_number(l)) == cards[i] and int(g.get_node_indx(l)) == i)
    edges = [tuple(str(x) for x in e) for e in g.edges]
    ctx.check("edges join two different variables", all(a != b and a in labels and b in labels for a, b in edges))
    ctx.check("no edge twice", len(set(edges)) == len(edges))
    ctx.check("the graph's structure agrees with it", sorted(tuple(str(x) for x in e) for e in g._graph_struct.edges) == sorted(edges)
              if hasattr(g, "_graph_struct") else True)
    d = gen.dyn_str
    ctx.check("the edge table lists the same edges", sorted((str(a), str(b)) for a, b in zip(d["From"], d["To"])) == sorted(edges))
    v = gen.variables
    ctx.check("the variable table lists the variables", [str(x) for x in v["Name"]] == labels and [int(x) for x in v["Value"]] == list(cards))
    ctx.cover("no edges" if not edges else "all edges" if len(edges) == n * (n - 1) else "some edges")
    return edges


def make(ctx, n, np_vals):
    labels, cards = NAMES[:n], CARDS[:n]
    return labels, cards, ctx.lib.NetworkGenerator(list(labels), np.array(cards) if np_vals else list(cards))


def outcomes(ctx, density):
    out = []
    for kind, p, v in ctx.env.draws:
        if kind == "binom":
            ctx.check("drawn with the given probability", p == density)
            out.append(v)
        elif kind == "u":
            out.append(ctx.ite(v < density, 1, 0))
        else:
            return None
    return out


def draws(ctx, n, density=None, np_vals=True, twice=False, pin=None):
    """Every edge has its own draw (decided over all paths together in job_end)."""
    labels, cards, gen = make(ctx, n, np_vals)
    d = density if density is not None else ctx.real("density", 0, 1, np_=False)
    if twice:
        gen.generate_graph(0.5)
        ctx.cover("generated twice")
        ctx.env.draws.clear()
    before = (ctx.env.stream, ctx.env.n)
    gen.generate_graph(d)
    edges = result(ctx, gen, labels, cards)
    out = outcomes(ctx, d)
    if n > 1 and before == (ctx.env.stream, ctx.env.n):
        ctx.check("nothing is drawn only if every edge is sure to be there or not to be", ctx.Or(d == 0, d == 1))
    if pin is None:
        ctx.observe("edges", "|".join(">".join(e) for e in sorted(edges)))
        if out is not None:
            for k, v in enumerate(out):
                ctx.observe("draw%d" % k, v)
    ctx.cover("probabilistic")
    ctx.cover_if("density 0", d == 0)
    ctx.cover_if("density 1", d == 1)


def job_end(paths, fn, params):
    n = params["n"]
    labels = NAMES[:n]
    pairs = [(a, b) for a in labels for b in labels if a != b]
    rows = [([tuple(e.split(">")) for e in obs["edges"].split("|") if e], [v for k, v in obs.items() if k.startswith("draw")], m)
            for m, obs in paths]
    if fn == "fixed_sets":
        k = params["k"]
        seen = {tuple(sorted(r[0])) for r in rows}
        want = {tuple(sorted(c)) for c in itertools.combinations(pairs, k)}
        if want - seen:
            yield ("any set of that many edges is possible", "never generated: %s" % (sorted(want - seen)[0],), rows[0][2])
        return
    if not pairs or any(len(r[1]) < 1 for r in rows):
        return
    if len({len(r[1]) for r in rows}) != 1:
        # the number of draws depends on their outcomes: compare the distributions, if the paths are all the outcomes
        if sum(2.0 ** -len(r[1]) for r in rows) == 1:
            p, total = Fraction(1, 3), {}
            for r in rows:
                e = tuple(sorted(r[0]))
                total[e] = total.get(e, 0) + p ** sum(r[1]) * (1 - p) ** (len(r[1]) - sum(r[1]))
            for k in range(len(pairs) + 1):
                for c in itertools.combinations(pairs, k):
                    if total.get(tuple(sorted(c)), 0) != p ** k * (1 - p) ** (len(pairs) - k):
                        yield ("each possible edge is present exactly if its own draw succeeds", "the edges %s are not found with their probability" % (c,), rows[0][2])
                        return
        return
    m = len(rows[0][1])
    fits = {}
    for e in pairs:
        fits[e] = [k for k in range(m) if all((e in r[0]) == (r[1][k] == 1) for r in rows)]
        if not fits[e]:
            bad = next((r for k in range(m) for r in rows if (e in r[0]) != (r[1][k] == 1)), rows[0])
            yield ("each possible edge is present exactly if its own draw succeeds", "no draw decides %s" % (e,), bad[2])
            return
    # an own draw for each edge: a matching of edges and draws
    used = {}

    def assign(e, seen):
        for k in fits[e]:
            if k not in seen:
                seen.add(k)
                if k not in used or assign(used[k], seen):
                    used[k] = e
                    return True
        return False
    for e in pairs:
        if not assign(e, set()):
            yield ("each possible edge has its own draw", "two edges share one: %s" % (e,), rows[0][2])
            return


def fixed(ctx, n, density=None, np_vals=False):
    """Fixed density: the exact number of edges or a RuntimeError."""
    ctx.env.pin_shuffle = True
    labels, cards, gen = make(ctx, n, np_vals)
    d = density if density is not None else ctx.real("density", 0, 1, np_=False)
    whole = d * (n * (n - 1))
    k = ctx.round(whole, None) if density is None else round(whole)
    eps = 0.0 if ctx.symbolic else 1e-10      # a double need not hit the whole number exactly
    near = ctx.And(whole - k <= eps, k - whole <= eps) if density is None else abs(whole - k) <= 1e-9
    if density is None:
        ctx.assume(ctx.Or(near, whole - k >= 1e-6, k - whole >= 1e-6))
    near = bool(near)
    try:
        gen.generate_graph(d, fixed=True)
        ok = True
    except RuntimeError:
        ok = False
    ctx.check("rejected with a RuntimeError exactly if the number of edges is not whole", ok == near)
    if ok:
        edges = result(ctx, gen, labels, cards)
        ctx.check("exactly density times n(n-1) edges", ctx.And(len(edges) - whole <= 1e-6, whole - len(edges) <= 1e-6))
        ctx.cover("fixed")
    else:
        ctx.cover("rejected")
    ctx.observe("ok", ok)


def fixed_sets(ctx, n, k):
    labels, cards, gen = make(ctx, n, False)
    gen.generate_graph(k / (n * (n - 1)), True)
    edges = result(ctx, gen, labels, cards)
    ctx.check("exactly the number asked for", len(edges) == k)
    ctx.observe("edges", "|".join(">".join(e) for e in sorted(edges)))
    ctx.cover("every edge set")


def jobs(tier):
    deep = tier != "quick"
    out = []

    def add(fn, w, **k):
        out.append(dict(name="%s-%d" % (fn, len(out)), fn=fn, weight=w, params=k))
    for n in (1, 2, 3):
        add("draws", n * n, n=n, np_vals=n != 2)
        add("draws", n * n, n=n, density=0.3, np_vals=n == 2, twice=n == 2)
    add("draws", 2, n=2, density=0)
    add("draws", 2, n=3, density=1)
    add("draws", 2, n=4, density=1.0)
    add("draws", 9, n=11, density=1)
    for n, k in ((2, 1), (3, 1), (3, 3), (3, 4)):
        add("fixed_sets", 20, n=n, k=k)
    for n in range(1, 7):
        add("fixed", n * n, n=n)
    for n in range(2, 13 if deep else 10):
        N = n * (n - 1)
        for k in sorted({0, 1, 3, N // 3, N // 2, N - 1, N}) if not deep else range(N + 1):
            if k <= N:
                add("fixed", 1, n=n, density=k / N)
        add("fixed", 1, n=n, density=1)
        add("fixed", 1, n=n, density=0, np_vals=True)
        add("fixed", 1, n=n, density=0.1)
        add("fixed", 1, n=n, density=0.7)
        add("fixed", 1, n=n, density=(N // 2 + 0.5) / N)
    if deep:
        add("draws", 999, n=4, density=0.3)
    out.append(in_turn("turn-0", ("draws", dict(n=2, density=0.3)), ("fixed", dict(n=2, density=0.5)), ("draws", dict(n=2, density=0.6)), ("fixed", dict(n=3, density=1))))
    out.append(long_names(("draws", dict(n=3, density=0.3)), ("fixed", dict(n=3, density=0.5))))
    return out
