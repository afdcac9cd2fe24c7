from .common import *

REPLAY = "env"
BOUNDS = dict(quick="networks of 1-5 variables; every estimated edge set and every prior structure for up to 3 variables, two nodes' edges for 4, one node's for 5; no prior structure, an empty one, or any; both estimators; names of variables in any of several orders",
              thorough="every estimated edge set of 4 variables with several priors; 5 variables with one free node")
OUTSIDE = "more variables, the plot"
COVERS = ["isolated variable", "no edges", "all edges", "spurious edges", "no spurious edges", "no prior structure", "prior edge not found", "empty prior structure", "score", "constraint", "result file",
          "estimated twice", "estimated twice, asked in between", "known edges"]
ASSUMPTIONS = ["the edges found for each node are arbitrary"]
NAMES = [["Z", "a1", "M", "B_2", "Y"], ["A", "B", "C", "D", "E"], ["10", "9", "x y", "a", "é"], LONG[:5]]


def estimator(ctx, sp, kind, found, known=()):
    """A real estimator whose per-node outcome is given."""
    lib = ctx.lib
    if kind == "score":
        class E(lib.StructureScoreBasedEstimator):
            def estimate_parents(self, node_id, *a, **k):
                return [(p, str(node_id)) for p in found()[str(node_id)]]
        est = E(sp, 0.1, 1, list(known))
    else:
        class E(lib.StructureConstraintBasedEstimator):
            def one_iteration_of_CTPC_algorithm(self, var_id, tot_vars_count):
                return [(p, str(var_id)) for p in found()[str(var_id)]]
        est = E(sp, 0.1, 0.1, list(known), 25)
    return est


def report(ctx, n, kind, names, prior, free=None, again=False, rev=False, asked=False, known=0):
    labels = list((NAMES[names] if n < 6 else LONG)[:n])
    if rev:
        labels.reverse()
    pairs = [(a, b) for b in labels for a in labels if a != b]
    edges = None
    if prior == "any":
        edges = [e for i, e in enumerate(pairs) if ctx.bool("prior%d" % i)]
    elif prior is not None:
        edges = [pairs[i] for i in prior]
    sp = sample_path(ctx, labels, [2 + v % 2 for v in range(n)], [([1.0, 1.0], [[0] * n, [1] + [0] * (n - 1), [1] * n])], edges=edges)
    state = {"run": 0}
    outs = []
    for run in range(2 if again else 1):
        outs.append({b: [a for a in labels if a != b and
                         (ctx.bool("e%d_%s_%s" % (run, a, b)) if free is None or labels.index(b) in free
                          else (labels.index(a) + labels.index(b)) % 3 == 0)] for b in labels})
    ke = [e for i, e in enumerate(pairs) if i < known and ctx.bool("known%d" % i)]
    for o in outs:                                       # a known edge is always among those found
        for a, b in ke:
            o[b] = [x for x in labels if x in o[b] or x == a]
    if ke:
        ctx.cover("known edges")
    est = estimator(ctx, sp, kind, lambda: outs[state["run"]], ke)
    for run in range(len(outs)):
        state["run"] = run
        want = {(a, b) for b in labels for a in outs[run][b]}
        got = est.estimate_structure(disable_multiprocessing=True)
        ctx.check("the edges returned", {tuple(str(x) for x in e) for e in got} == want)
        if again and not run and not asked:
            continue
        m = est.adjacency_matrix()
        ctx.check("the adjacency matrix is square over the variables", tuple(m.shape) == (n, n))
        for i in range(n):
            for j in range(n):
                ctx.check("(i, j) is set exactly if the edge was estimated", bool(m[i][j]) == ((labels[i], labels[j]) in want))
        path = ctx.path("result.json")
        est.save_results(path)
        doc = ctx.read_json("result.json")
        nodes = [d["id"] for d in doc["nodes"]]
        ctx.check("the file lists every variable once", sorted(nodes) == sorted(labels))
        links = [(d["source"], d["target"]) for d in doc["links"]]
        ctx.check("the file lists exactly the estimated edges", sorted(links) == sorted(want) and doc.get("directed") is True and not doc.get("multigraph"))
        ctx.cover("result file")
        sp_edges = sorted(tuple(str(x) for x in e) for e in est.spurious_edges())
        if not edges:
            ctx.check("no spurious edges without a prior structure", sp_edges == [])
            ctx.cover("no prior structure" if edges is None else "empty prior structure")
        else:
            ctx.check("spurious are the estimated edges missing from the prior", sp_edges == sorted(want - set(edges)))
            ctx.cover("spurious edges" if sp_edges else "no spurious edges")
            if set(edges) - want:
                ctx.cover("prior edge not found")
    if again:
        ctx.cover("estimated twice, asked in between" if asked else "estimated twice")
    # asking changes nothing
    ctx.check("asking again gives the same matrix", bool((est.adjacency_matrix() == m).all()))
    used = {x for e in want for x in e}
    if set(labels) - used:
        ctx.cover("isolated variable")
    ctx.cover("no edges" if not want else "all edges" if len(want) == len(pairs) else "some edges")
    ctx.cover(kind)
    ctx.observe("file", str(sorted(links)))


def jobs(tier):
    deep = tier != "quick"
    out = []

    def add(w, **k):
        out.append(dict(name="report-%s-%d-%d" % (k["kind"], k["n"], len(out)), fn="report", weight=w, params=k))
    for kind in ("score", "constraint"):
        for n in (1, 2):
            for prior in (None, "any"):
                add(2, n=n, kind=kind, names=n - 1, prior=prior, again=True, rev=prior is None)
                add(2, n=n, kind=kind, names=n - 1, prior=prior, again=True, asked=True)
        add(60, n=3, kind=kind, names=2, prior=[0, 3])
        add(60, n=3, kind=kind, names=0, prior=None, rev=True)
        add(60, n=3, kind=kind, names=1, prior="any", free=[1])
        add(60, n=3, kind=kind, names=0, prior=[], free=[0, 2], rev=True)
        add(60, n=4, kind=kind, names=0, prior=[1, 5, 11, 4], free=[2, 0])
        add(60, n=4, kind=kind, names=2, prior=None, free=[1, 3], rev=True)
        add(100, n=5, kind=kind, names=2, prior=[3, 9, 14, 19, 0], free=[3] if not deep else [3, 1])
        if deep:
            add(900, n=4, kind=kind, names=0, prior=[1, 5, 11, 4])
            add(900, n=3, kind=kind, names=1, prior="any")
    for kind in ("score", "constraint"):
        add(20, n=2, kind=kind, names=0, prior="any", known=2)
        add(20, n=3, kind=kind, names=1, prior=[0, 3], free=[1], known=4)
    for kind in ("score", "constraint"):
        add(60, n=3, kind=kind, names=3, prior=[0, 3], free=[1])
    for kind in ("score", "constraint"):
        add(100, n=9, kind=kind, names=3, prior=list(range(1, 70, 2)) + [68], free=[], rev=kind == "score")
    return out
