from .common import *
from .C18 import generator, explain

BOUNDS = dict(quick="networks of 1-4 variables with 2-3 states (and a parent of 11 or 12 states), 0-3 parents, every listing order of up to 3 edges, every matrix; 1-2 trajectories of up to 3 transitions with every time and the chosen states; samplers built from the imported file are followed through every joint state",
              thorough="every listing order of 4 edges, longer trajectories, 2 parents of 11 states")
OUTSIDE = "variable names containing '=' or ',' (they separate the parts of a combination's key), files without any trajectory (the importer reads trajectories), the text encoding of numbers (trusted to json), times above 1e5"
COVERS = ["no edges", "one parent", "two parents", "more than ten states", "edges listed in another order", "several trajectories", "sampler in every joint state",
          "mixed cardinalities", "generated network", "exported again", "several networks in a file", "another network read by the same importer", "more than ten variables"]
ASSUMPTIONS = ["times are written with ten decimals", "a state is a whole number below the variable's cardinality or -1"]
NAMES = ["X10", "X1", "1", "a+b (c)", "Z"]          # one is part of another, digits only, signs that mean something in patterns


def rates(ctx, cards, edges, hi=64):
    out = []
    for v, n in enumerate(cards):
        par = sorted(a for a, b in edges if b == v)
        tab = {}
        for u in combos([cards[p] for p in par]):
            tab[u] = [[ctx.real("q%d_%s_%d%d" % (v, "_".join(map(str, u)), x, y), -hi if x == y else 0, 0 if x == y else hi, np_=False)
                       for y in range(n)] for x in range(n)]
        out.append((par, tab))
    return out


def distinct(cards, edges):
    out, k = [], 0
    for v, n in enumerate(cards):
        par = sorted(a for a, b in edges if b == v)
        tab = {}
        for u in combos([cards[p] for p in par]):
            m = []
            for x in range(n):
                k += 1
                row = [(k * 37 % 997 + 16 * y) / 16.0 + 0.25 for y in range(n)]
                row[x] = 0.0
                row[x] = -sum(row)
                m.append(row)
            tab[u] = m
        out.append((par, tab))
    return out


def frames(ctx, lab, cards, n, rows):
    """n trajectories: increasing times, states chosen, last row -1 (as sampled ones) or a state."""
    out = []
    for k in range(n):
        t = [0.0]
        for i in range(rows):
            t.append(t[-1] + ctx.real("d%d_%d" % (k, i), 0.001, 20))
        cols = {"Time": t}
        for v, l in enumerate(lab):
            cols[l] = [0] + [ctx.int("x%d_%d_%d" % (k, i, v), 0, cards[v] - 1, np_=False) for i in range(rows - 1)] + [-1 if k == 0 else (cards[v] - 1)]
        out.append((t, cols, ctx.frame(cols)))
    return out


def assignment(key, v, par, lab):
    """The states of the named parents in a combination's key."""
    if not par:
        return ()
    parts = dict(p.rsplit("=", 1) for p in key.split(","))
    if set(parts) != {lab[p] for p in par} or len(key.split(",")) != len(par):
        return None
    return tuple(int(parts[lab[p]]) for p in par)


def importer(ctx, path, index=0):
    imp = ctx.lib.JsonImporter(file_path=path, samples_label="samples", structure_label="dyn.str", variables_label="variables",
                               time_key="Time", variables_key="Name", cims_label="dyn.cims")
    imp.import_data(index)
    return imp


def close(ctx, a, b, tol=2.1e-10):
    return ctx.And(a - b <= tol, b - a <= tol)


def check_network(ctx, imp, lab, cards, edges, mats, index=0):
    vs = imp.variables
    ctx.check("the same variables and cardinalities", [str(x) for x in vs.iloc[:, 0]] == lab and [int(x) for x in vs.iloc[:, 1]] == list(cards))
    s = imp.structure
    got = [] if len(s) == 0 else [(str(a), str(b)) for a, b in zip(s["From"], s["To"])]
    ctx.check("the same edges", sorted(got) == sorted((lab[a], lab[b]) for a, b in edges))
    read = imp.import_sampled_cims(imp._raw_data, index, "dyn.cims")
    ctx.check("arrays for exactly the variables", sorted(read) == sorted(lab))
    for v, (par, tab) in enumerate(mats):
        given = imp._cims[lab[v]]
        seen = set()
        for key, rows in given.items():
            u = assignment(key, v, par, lab)
            ctx.check("every matrix is kept under states of exactly the parents", u in tab and u not in seen)
            if u not in tab:
                return
            seen.add(u)
            ctx.check("matrices keep their size", len(rows) == cards[v] and all(len(r) == cards[v] for r in rows))
            for x in range(cards[v]):
                for y in range(cards[v]):
                    ctx.check("the same intensity for every assignment of the parents", close(ctx, rows[x][str(y)], tab[u][x][y], 1e-12))
        ctx.check("a matrix for every assignment", seen == set(tab))
        arrs = read[lab[v]]
        ctx.check("one array per matrix of the file", len(arrs) == len(given))
        for key, m in zip(given, arrs):
            u = assignment(key, v, par, lab)
            ctx.check("arrays keep their size", m.shape == (cards[v], cards[v]))
            for x in range(cards[v]):
                for y in range(cards[v]):
                    ctx.check("the same intensity in the arrays read", close(ctx, m[x][y], tab[u][x][y], 1e-12))
        ctx.cover({0: "no parents", 1: "one parent", 2: "two parents"}.get(len(par), "more parents"))
    if max(cards) > 10:
        ctx.cover("more than ten states")
    if len(set(cards)) > 1:
        ctx.cover("mixed cardinalities")
    if not edges:
        ctx.cover("no edges")


def check_samples(ctx, imp, lab, trs):
    c = imp.concatenated_samples
    n = len(lab)
    ctx.check("trajectories keep their columns", [str(x) for x in c.columns[:n + 1]] == ["Time"] + lab)
    ctx.check("trajectories keep their rows", len(c) == sum(len(t) - 1 for t, _, _ in trs))
    r = 0
    for t, cols, _ in trs:
        for i in range(len(t) - 1):
            ctx.check("the same times", close(ctx, c.iat[r, 0], t[i + 1] - t[i], 2.1e-10))
            for v in range(n):
                ctx.eq("the same states", c.iat[r, 1 + v], cols[lab[v]][i])
                ctx.eq("the same next states", c.iat[r, 1 + n + v], cols[lab[v]][i + 1])
            r += 1
    imp2 = imp.import_trajectories(imp._raw_data)
    ctx.check("every trajectory is kept", len(imp2) == len(trs))
    for f, (t, cols, _) in zip(imp2, trs):
        ctx.check("the same number of rows", len(f) == len(t))
        for i in range(len(t)):
            ctx.check("the same times, to ten decimals", close(ctx, f["Time"].iloc[i], t[i], 1e-10))
    if len(trs) > 1:
        ctx.cover("several trajectories")


def build(ctx, lab, gen, trs):
    e = ctx.lib.JsonExporter(gen[0], gen[1], gen[2])
    for _, _, f in trs:
        e.add_trajectory(f)
    return e


def tables(ctx, lab, cards, edges):
    import pandas as pd
    return (pd.DataFrame([[l, c] for l, c in zip(lab, cards)], columns=["Name", "Value"]),
            pd.DataFrame([(lab[a], lab[b]) for a, b in edges], columns=["From", "To"]))


def roundtrip(ctx, cards, edges, ntraj=1, rows=2, perms=True, twice=False):
    mats = rates(ctx, cards, edges)
    lab, tg = generator(ctx, cards, edges, mats, names=NAMES)
    order = [list(p) for p in itertools.permutations(range(len(edges)))] if perms else [list(range(len(edges)))[::-1]]
    o = ctx.choice("order", order)
    listed = [edges[i] for i in o]
    variables, dyn = tables(ctx, lab, cards, listed)
    trs = frames(ctx, lab, cards, ntraj, rows)
    e = build(ctx, lab, (variables, dyn, tg._cims), trs)
    e.out_file("net.json")
    imp = importer(ctx, ctx.path("net.json"))
    check_network(ctx, imp, lab, cards, edges, mats)
    check_samples(ctx, imp, lab, trs)
    if listed != sorted(listed):
        ctx.cover("edges listed in another order")
    if twice:
        t, cols, f = frames(ctx, lab, cards, ntraj + 1, 1)[-1]
        e.add_trajectory(f)
        e.out_file("net.json")
        imp = importer(ctx, ctx.path("net.json"))
        check_network(ctx, imp, lab, cards, edges, mats)
        check_samples(ctx, imp, lab, trs + [(t, cols, f)])
        ctx.cover("exported again")
    ctx.observe("cims", len(imp._cims))


def wide(ctx, n):
    """More variables than usual, all of two states."""
    global NAMES
    keep = list(NAMES)
    try:
        NAMES += ["V%d" % i for i in range(n - len(NAMES))]
        roundtrip(ctx, [2] * n, [[0, n - 1], [n - 1, 1], [4, 2]], perms=False)
    finally:
        NAMES[:] = keep
    ctx.cover("more than ten variables")


def second(ctx):
    """A file with several networks: each is read as it was exported."""
    docs, kept, keep = [], [], ctx.prefix
    for k, (cards, edges) in enumerate((([2, 3], [[0, 1]]), ([2, 2], [[1, 0]]))):
        ctx.prefix = "net%d." % k
        mats = rates(ctx, cards, edges)
        lab, tg = generator(ctx, cards, edges, mats, names=NAMES[k:])
        variables, dyn = tables(ctx, lab, cards, edges)
        trs = frames(ctx, lab, cards, 1, 1)
        build(ctx, lab, (variables, dyn, tg._cims), trs).out_file("one.json")
        doc = ctx.read_json("one.json")
        docs += doc if isinstance(doc, list) else [doc]
        kept.append((lab, cards, edges, mats, trs))
    ctx.prefix = keep
    path = ctx.write_json("several.json", docs)
    imp, reuse = None, ctx.choice("reuse", [False, True])
    for k in ((0, 1), (1, 0))[ctx.choice("order", [0, 1])]:
        lab, cards, edges, mats, trs = kept[k]
        if imp is not None and reuse:
            imp.import_data(k)
            ctx.cover("another network read by the same importer")
        else:
            imp = importer(ctx, path, k)
        check_network(ctx, imp, lab, cards, edges, mats, k)
        check_samples(ctx, imp, lab, trs)
    ctx.cover("several networks in a file")


def sampler(ctx, cards, edges, k):
    """A sampler built from the file follows the original matrices through every joint state within k transitions."""
    mats = distinct(cards, edges)
    lab, tg = generator(ctx, cards, edges, mats, names=NAMES)
    variables, dyn = tables(ctx, lab, cards, edges)
    trs = frames(ctx, lab, cards, 1, 1)
    build(ctx, lab, (variables, dyn, tg._cims), trs).out_file("net.json")
    new = ctx.lib.TrajectoryGenerator(importer=importer(ctx, ctx.path("net.json")))
    ctx.env.draws.clear()
    follow(ctx, new, lab, cards, mats, k)
    ctx.cover("sampler in every joint state")


def follow(ctx, gen, lab, cards, mats, k):
    out = gen.CTBN_Sample(max_tr=k)
    rows = [(out["Time"].iloc[i], [int(out[l].iloc[i]) for l in lab]) for i in range(len(out))]
    if not explain(ctx, cards, mats, rows, list(ctx.env.draws), None):
        ctx.note("unknown kinds of draws")
    for i, r in enumerate(rows):
        ctx.observe("s%d" % i, "".join(map(str, r[1])))


def generated(ctx, cards, density, k):
    """Network generator -> exporter -> importer -> sampler."""
    lab = NAMES[:len(cards)]
    ng = ctx.lib.NetworkGenerator(lab, list(cards))
    ng.generate_graph(density)
    ctx.env.unit_menu = [0.11, 0.73, 0.29, 0.97, 0.41, 0.57, 0.83, 0.19, 0.67, 0.37, 0.91, 0.53, 0.23]
    ng.generate_cims(1, 3)
    ctx.env.unit_menu = None
    s = ng.dyn_str
    edges = [] if len(s) == 0 else [(lab.index(a), lab.index(b)) for a, b in zip(s["From"], s["To"])]
    mats = []
    for v in range(len(cards)):
        par = sorted(a for a, b in edges if b == v)
        soc = ng.cims[lab[v]]
        mats.append((par, {tuple(int(x) for x in u): [[float(c.cim[x][y]) for y in range(cards[v])] for x in range(cards[v])]
                           for u, c in zip(soc.p_combs if par else [()], soc.actual_cims)}))
    trs = frames(ctx, lab, cards, 1, 1)
    build(ctx, lab, (ng.variables, ng.dyn_str, ng.cims), trs).out_file("net.json")
    imp = importer(ctx, ctx.path("net.json"))
    check_network(ctx, imp, lab, cards, edges, mats)
    check_samples(ctx, imp, lab, trs)
    new = ctx.lib.TrajectoryGenerator(importer=imp)
    ctx.env.draws.clear()
    follow(ctx, new, lab, cards, mats, k)
    ctx.cover("generated network")


REPLAY = "env"


def jobs(tier):
    deep = tier != "quick"
    out = []

    def add(fn, w, **k):
        out.append(dict(name="%s-%d" % (fn, len(out)), fn=fn, weight=w, params=k))
    add("roundtrip", 5, cards=[2], edges=[], ntraj=2)
    add("roundtrip", 5, cards=[3, 2], edges=[], rows=3)
    add("roundtrip", 5, cards=[2, 3], edges=[[0, 1]], ntraj=2, twice=True)
    add("roundtrip", 5, cards=[3, 2], edges=[[0, 1], [1, 0]])
    add("roundtrip", 9, cards=[2, 3, 2], edges=[[0, 1], [2, 1], [1, 0]])
    add("roundtrip", 9, cards=[2, 2, 3], edges=[[1, 0], [2, 0], [0, 2]], twice=True)
    add("roundtrip", 9, cards=[2, 3, 2, 2], edges=[[0, 3], [1, 3], [2, 3]])
    add("roundtrip", 9, cards=[11, 2], edges=[[0, 1]], rows=1)
    add("roundtrip", 9, cards=[2, 12, 2], edges=[[1, 2], [0, 2]], rows=1)
    add("sampler", 9, cards=[2], edges=[], k=2)
    add("sampler", 9, cards=[3, 2], edges=[[0, 1], [1, 0]], k=3)
    add("sampler", 9, cards=[2, 11], edges=[[1, 0]], k=2)
    add("sampler", 9, cards=[11, 2, 2], edges=[[2, 1], [0, 1]], k=1)
    add("sampler", 9, cards=[2, 2, 2, 2], edges=[[1, 0], [2, 0], [3, 2]], k=2)
    add("sampler", 30, cards=[2, 3, 2], edges=[[0, 2], [1, 2]], k=3)
    add("sampler", 30, cards=[2, 2, 2], edges=[[2, 0], [1, 0], [0, 1]], k=3)
    add("generated", 30, cards=[2, 3], density=0.5, k=2)
    add("generated", 30, cards=[2, 2, 2], density=1.0, k=1)
    add("wide", 9, n=12)
    add("second", 9)
    add("roundtrip", 9, cards=[2], edges=[], ntraj=30, rows=1)
    add("roundtrip", 9, cards=[2], edges=[], ntraj=1, rows=300)
    if deep:
        add("roundtrip", 99, cards=[2, 3, 2, 2], edges=[[0, 3], [1, 3], [2, 3], [3, 0]], rows=3)
        add("roundtrip", 99, cards=[11, 2, 12], edges=[[0, 1], [2, 1]], rows=1)
        add("roundtrip", 99, cards=[2, 2, 2, 3, 2], edges=[[0, 3], [1, 3], [4, 3], [3, 4]], rows=4, ntraj=3)
        add("sampler", 99, cards=[3, 3], edges=[[0, 1], [1, 0]], k=4)
        add("sampler", 99, cards=[2, 2, 2, 2], edges=[[2, 0], [1, 0], [3, 0], [0, 1]], k=3)
        add("generated", 99, cards=[2, 2, 3], density=1.0, k=2)
    out.append(in_turn("turn-0", *[("roundtrip", dict(cards=c, edges=[[2, 0], [1, 0]])) for c in ([2, 2, 3], [2, 3, 2])]))
    out.append(in_turn("turn-1", *[("sampler", dict(cards=[2, 2, 2], edges=e, k=1)) for e in ([[1, 0], [2, 0]], [[2, 0], [0, 1]])]))
    out.append(long_names(("roundtrip", dict(cards=[2, 3, 2], edges=[[2, 0], [1, 0]])), ("sampler", dict(cards=[2, 2, 2], edges=[[1, 0], [2, 0]], k=1))))
    return out
