"""Runs of the score-based searches with arbitrary scores and random choices (shared by C12 and C13)."""
from .common import *


def estimator(ctx, n, known, log, child):
    labels = list(LABELS[:n])
    rows = [[0] * n, [1] + [0] * (n - 1), [1] * n]
    sp = sample_path(ctx, labels, [2] * n, [([1.0, 1.0], rows)])

    class Scored(ctx.lib.StructureScoreBasedEstimator):
        def get_score_from_graph(self, graph, node_id):
            graph.fast_init(node_id)          # the real method prepares the graph for the node as well
            parents = tuple(sorted(str(a) for a, b in graph.edges if b == node_id))
            foreign = [e for e in graph.edges if e[1] != node_id]
            dup = len(parents) != len(set(parents))
            log.append((str(node_id), parents, bool(foreign) or dup))
            return ctx.real("score_%s|%s" % (node_id, "+".join(parents)), -8, 8)
    est = Scored(sp, 1, 1, known)
    sp.structure.clean_structure_edges()
    return labels, est


def score(ctx, node, parents):
    return ctx.real("score_%s|%s" % (node, "+".join(sorted(parents))), -8, 8)


def run(ctx, n, child, optimizer, iters, maxp, patience, tabu=None, duration=None, nknown=0, others_known=False, sure=0):
    """One search; returns (labels, known, edges, evaluated parent sets, parameters)."""
    lab = list(LABELS[:n])
    cand = [v for v in range(n) if v != child]
    known = [lab[v] for k, v in enumerate(cand) if k < sure or k < nknown and ctx.bool("known%d" % v)]
    edges_known = [(k, lab[child]) for k in known]
    if others_known and n > 1:
        edges_known.append((lab[child], lab[cand[0]]))

    def par(name, v):
        return ctx.int(name, v[0], v[1], np_=False) if isinstance(v, (list, tuple)) else v
    P = dict(max_parents=par("max_parents", maxp), iterations_number=par("iterations", iters), patience=par("patience", patience),
             optimizer=optimizer)
    if optimizer == "tabu":
        P.update(tabu_length=par("tabu_length", tabu), tabu_rules_duration=par("tabu_rules_duration", duration))
    log = []
    labels, est = estimator(ctx, n, edges_known, log, child)
    edges = est.estimate_parents(lab[child], **P)
    edges = [tuple(str(x) for x in e) for e in edges]
    return labels, known, edges, log, P
