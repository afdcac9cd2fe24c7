from .common import *

BOUNDS = dict(quick="2-4 variables, symbolic cardinalities 1-100000 (2-5 where given as a list or an array), every subset of the possible prior edges (2-3 variables), every order of the variable list against the data, variables and edges given as frames, lists or arrays, missing parts",
              thorough="2-5 variables, every subset of the prior edges for up to 3 variables, up to 6 symbolic edges beyond")
OUTSIDE = "more variables"
COVERS = ["accepted", "prior edges", "no prior edges", "rejected order", "rejected missing", "json", "frames", "variables as a list or an array", "two data sets by one importer"]
ASSUMPTIONS = []


def samples(ctx, labels, lens=(3, 2)):
    dfs = []
    for k, n in enumerate(lens):
        cols = {"Time": [ctx.real("t%d_%d" % (k, r), 0, 9) for r in range(n)]}
        for v, l in enumerate(labels):
            cols[l] = [ctx.int("s%d_%d_%d" % (k, r, v), 0, 1) for r in range(n)]
        dfs.append(cols)
    return dfs


def importer(ctx, kind, data_labels, var_labels, cards, edges, vindex=None, prior="frame", given="frame", pcols=("From", "To")):
    cols = samples(ctx, data_labels)
    if kind == "json":
        smp = [[{l: c[l][r] for l in c} for r in range(len(c["Time"]))] for c in cols]
        doc = {"samples": smp, "dyn.str": [{pcols[0]: a, pcols[1]: b} for a, b in edges],
               "variables": [{"Name": l, "Value": c} for l, c in zip(var_labels, cards)]}
        imp = ctx.lib.JsonImporter(file_path=ctx.write_json("in.json", [doc] if prior == "frame" else doc), samples_label="samples",
                                   structure_label="dyn.str", variables_label="variables", time_key="Time", variables_key="Name")
        imp.import_data(0)
        ctx.cover("json")
        return imp
    if given == "frame":
        variables = ctx.frame({"Name": list(var_labels), "Value": list(cards)}, index=vindex)
    else:
        rows = [[l, c.__index__() if hasattr(c, "__index__") else int(c)] for l, c in zip(var_labels, cards)]
        variables = rows if given == "list" else np.array(rows, dtype=object if given == "objects" else None)
        ctx.cover("variables as a list or an array")
    if prior == "frame":
        st = ctx.frame({pcols[0]: [a for a, b in edges], pcols[1]: [b for a, b in edges]})
    elif prior == "list":
        st = [[a, b] for a, b in edges]
    elif prior == "array":
        st = np.array([[a, b] for a, b in edges], dtype=str).reshape(-1, 2)
    else:
        st = None
    imp = ctx.lib.SampleImporter(trajectory_list=[ctx.frame(c) for c in cols], variables=variables, prior_net_structure=st)
    imp.import_data()
    ctx.cover("frames")
    return imp


def described(ctx, kind, n, nedges, prior="frame", vindex=None, given="frame", pcols=("From", "To"), labels=("Z", "a", "M", "B", "Y"), sure=0):
    """The Structure of a SamplePath lists the variables in data order, with the cardinalities and prior edges given."""
    labels = list(labels[:n])
    cards = [ctx.int("card%d" % v, 1, 100000) if given == "frame" else ctx.int("card%d" % v, 2, 5) for v in range(n)]
    poss = [(a, b) for a in labels for b in labels if a != b]
    poss = (poss[::2] + poss[1::2])[:nedges]
    edges = [e for i, e in enumerate(poss) if i < sure or ctx.bool("e%d" % i)] if prior != "none" else []
    imp = importer(ctx, kind, labels, labels, cards, edges, vindex, prior, given, pcols)
    sp = ctx.lib.SamplePath(imp)
    sp.build_trajectories()
    sp.build_structure()
    st = sp.structure
    ctx.check("labels in data order", list(st.nodes_labels) == labels)
    ctx.check("number of variables", sp.total_variables_count == n and st.total_variables_number == n)
    ctx.check("one index and cardinality per variable", len(st.nodes_indexes) == n and len(st.nodes_values) == n)
    for v, l in enumerate(labels):
        ctx.eq("own column index", st.nodes_indexes[v], v)
        ctx.eq("own cardinality", st.nodes_values[v], cards[v])
        ctx.eq("index by name", st.get_node_indx(l), v)
        ctx.eq("cardinality by name", st.get_states_number(l), cards[v])
        ctx.check("name by position", st.get_node_id(v) == l and st.get_positional_node_indx(l) == v)
    ctx.check("exactly the prior edges", sorted(tuple(e) for e in st.edges) == sorted(edges))
    for a in labels:
        for b in labels:
            ctx.check("an edge is contained exactly if supplied", bool(st.contains_edge((a, b))) == ((a, b) in edges))
    ctx.check("has_prior_net_structure", bool(sp.has_prior_net_structure) == bool(edges))
    ctx.cover("accepted")
    ctx.cover("prior edges" if edges else "no prior edges")


def again(ctx):
    """Two data sets read one after the other by one importer: each description is that of its own data and stays so."""
    sets, docs = [(["Z", "a", "M"], [2, 3, 4], [0]), (["Q", "B"], [5, 2], [1])], []
    for k, (labels, cards, _) in enumerate(sets):
        cols = [{"Time": [0.5 * r for r in range(3)], **{l: [(r + v) % 2 for r in range(3)] for v, l in enumerate(labels)}}]
        cards[0] = ctx.int("card%d" % k, 2, 9)
        pairs = [(a, b) for a in labels for b in labels if a != b]
        sets[k][2][:] = [e for i, e in enumerate(pairs) if ctx.bool("e%d_%d" % (k, i))] if k else pairs[::2]
        docs.append({"samples": [[{l: c[l][r] for l in c} for r in range(3)] for c in cols], "dyn.str": [{"From": a, "To": b} for a, b in sets[k][2]],
                     "variables": [{"Name": l, "Value": c} for l, c in zip(labels, cards)]})
    imp = ctx.lib.JsonImporter(file_path=ctx.write_json("in.json", docs), samples_label="samples", structure_label="dyn.str",
                               variables_label="variables", time_key="Time", variables_key="Name")
    sp, seen = None, []
    same = ctx.choice("path", ["new", "same"])
    for k in ctx.choice("order", [[0, 1], [1, 0]]):
        imp.import_data(k)
        if sp is None or same == "new":
            sp = ctx.lib.SamplePath(imp)
        sp.build_trajectories()
        sp.build_structure()
        seen.append((k, sp.structure))
    for k, st in seen:
        labels, cards, edges = sets[k]
        ctx.check("labels in data order", list(st.nodes_labels) == labels)
        for v, l in enumerate(labels):
            ctx.eq("index by name", st.get_node_indx(l), v)
            ctx.eq("cardinality by name", st.get_states_number(l), cards[v])
        ctx.check("exactly the prior edges", sorted(tuple(e) for e in st.edges) == sorted(edges))
    ctx.cover("two data sets by one importer")


def order(ctx, kind, n, how):
    """Variables not in the order of the data columns are rejected."""
    labels = ["Z", "a", "M", "B"][:n] if n < 5 else LONG[:n]
    if how == "perm":
        left, perm = list(range(n)), []
        for i in range(n):
            perm.append(left.pop(ctx.int("p%d" % i, 0, len(left) - 1).__index__()))
        vl = [labels[p] for p in perm]
    elif how == "swap":
        i, j = (ctx.int("p%d" % k, 0, n - 1).__index__() for k in range(2))
        vl = list(labels)
        vl[i], vl[j] = vl[j], vl[i]
    elif how == "extra":
        vl = labels + ["Q"]
    elif how == "fewer":
        vl = labels[:-1]
    elif how == "first":
        vl = labels[1:]
    elif how == "case":
        vl = [l.swapcase() for l in labels]
    elif how == "blank":
        vl = labels[:-1] + [labels[-1] + " "]
    else:
        vl = labels[:-1] + ["Q"]
    imp = importer(ctx, kind, labels, vl, [2] * len(vl), [])
    sp = ctx.lib.SamplePath(imp)
    sp.build_trajectories()
    try:
        sp.build_structure()
        ok = True
    except RuntimeError:
        ok = False
    ctx.check("accepted exactly if the orders agree", ok == (vl == labels))
    ctx.cover("accepted" if ok else "rejected order")


def missing(ctx, what):
    labels = ["Z", "a"]
    cols = samples(ctx, labels, (1, 1) if what == "short" else (3,))
    variables = None if what == "novars" else ctx.frame({"Name": labels, "Value": [2, 2]})
    if what == "emptyvars":
        variables = variables.iloc[0:0]
    imp = ctx.lib.SampleImporter(trajectory_list=[ctx.frame(c) for c in cols], variables=variables)
    if what != "notimported":
        imp.import_data()
    if what == "cleared":
        imp.clear_concatenated_frame()
    if what == "none":
        imp._concatenated_samples = None
    if what == "array":
        imp._concatenated_samples = np.zeros((0, 5))
    try:
        ctx.lib.SamplePath(imp)
        ok = True
    except RuntimeError:
        ok = False
    ctx.check("accepted exactly if variables and samples are there", ok == (what == "complete"))
    ctx.cover("accepted" if ok else "rejected missing")


def jobs(tier):
    deep = tier != "quick"
    out = []
    for kind in ("frames", "json"):
        for n, ne in [(2, 2), (3, 4), (4, 3)] + ([(3, 6), (5, 6)] if deep else []):
            for prior in (("frame", "list", "none") if kind == "frames" else ("frame", "object")):
                if prior == "object" and n != 2:
                    continue
                out.append(dict(name="described-%s-%d-%d-%s" % (kind, n, ne, prior), fn="described", weight=2 ** ne,
                                params=dict(kind=kind, n=n, nedges=ne, prior=prior)))
        for n in (2, 3, 4) if deep else (2, 3):
            out.append(dict(name="order-%s-%d" % (kind, n), fn="order", params=dict(kind=kind, n=n, how="perm"), weight=6))
        for how in ("extra", "fewer", "first", "other", "case", "blank"):
            out.append(dict(name="order-%s-%s" % (kind, how), fn="order", params=dict(kind=kind, n=3, how=how)))
    out.append(dict(name="vindex", fn="described", params=dict(kind="frames", n=3, nedges=2, vindex=[4, 2, 9])))
    for g, pr in (("list", "array"), ("array", "list"), ("objects", "array"), ("array", "array")):
        out.append(dict(name="given-%s-%s" % (g, pr), fn="described", params=dict(kind="frames", n=2, nedges=2, prior=pr, given=g), weight=9))
    for w in ("complete", "novars", "emptyvars", "notimported", "cleared", "none", "array", "short"):
        out.append(dict(name="missing-" + w, fn="missing", params=dict(what=w)))
    for kind in ("frames", "json"):
        out.append(in_turn("turn-" + kind, *[("described", dict(kind=kind, n=n, nedges=1, prior=p)) for n, p in ((2, "frame"), (3, "frame"), (2, "none" if kind == "frames" else "frame"))]))
    for k, pc in enumerate((("Parent", "Child"), ("to", "a"), ("1", "0"))):
        for kind in ("frames", "json"):
            out.append(dict(name="columns-%s-%d" % (kind, k), fn="described", params=dict(kind=kind, n=2, nedges=2, pcols=pc)))
    out.append(dict(name="again", fn="again", params={}, weight=9))
    for kind in ("frames", "json"):
        out.append(dict(name="names-" + kind, fn="described", weight=9, params=dict(kind=kind, n=3, nedges=2, labels=LONG)))
        out.append(dict(name="order-many-" + kind, fn="order", weight=60, params=dict(kind=kind, n=12, how="swap")))
        out.append(dict(name="edges-many-" + kind, fn="described", weight=60, params=dict(kind=kind, n=5, nedges=20, labels=LONG, sure=18)))
    return out
