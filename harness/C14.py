from .common import *
from . import search
from . import C10

REPLAY = "env"
BOUNDS = dict(quick="score-based: 1-4 variables, both optimizers, 0-3 iterations, arbitrary scores and random choices per node, arbitrary parameters; constraint-based: 1-3 variables with mixed cardinalities, given walks of up to 8 transitions, an arbitrary verdict for every pair of statistics compared; one process, or several (one job: 1-24 allowed processes on 1-16 processors, tasks finishing in any order); runs repeated on the same estimator in either mode",
              thorough="up to 5 variables, 4 iterations")
OUTSIDE = "real processes (worker processes are modelled as running each task on a copy of the objects and returning a copy); more variables or iterations"
COVERS = ["one node alone", "hill", "tabu", "constraint", "in one process", "in several processes", "no edges", "edges of several nodes", "fewer processes than processors", "second run"]
ASSUMPTIONS = ["a node's random choices do not depend on the other nodes (each node is given its own stream of arbitrary choices), its score is an arbitrary function of node and parent set",
               "the verdict of a comparison is an arbitrary function of the two statistics compared",
               "tasks of a process pool see copies of everything and cannot change the caller's objects"]


def stream(ctx, node):
    ctx.env.stream, ctx.env.n = "node_%s_" % node, 0


def pool_options(ctx, parallel, wide=False):
    ctx.env.any_order = wide
    if not parallel:
        return dict(disable_multiprocessing=True)
    ctx.env.cpu = ctx.int("processors", 1, 16, np_=False) if wide else 4
    k = None
    if wide:
        k = ctx.int("processes", 1, 24, np_=False) if ctx.bool("limited") else None
    elif ctx.bool("limited"):
        k = ctx.choice("workers", [2, 1])
    if k is not None:
        ctx.cover_if("fewer processes than processors", k < ctx.env.cpu)
    return dict(disable_multiprocessing=False, processes_number=k)


def norm(edges):
    return sorted(tuple(str(x) for x in e) for e in edges)


def compare(ctx, got, want, labels):
    got = norm(got)
    ctx.check("the union of the edges found for each node alone", got == norm(want))
    if not got:
        ctx.cover("no edges")
    if len({b for a, b in got}) > 1:
        ctx.cover("edges of several nodes")
    ctx.observe("edges", "|".join(">".join(e) for e in got))


def scores(ctx, n, optimizer, iters, parallel, maxp=None, patience=None, tabu=None, duration=None, nknown=0, again=False):
    """estimate_structure against the optimizers run for each node with the caller's parameters."""
    lab = list(LABELS[:n])
    known = [(a, b) for a in lab for b in lab if a != b and lab.index(a) < nknown and ctx.bool("known_%s_%s" % (a, b))]

    def par(name, v):
        return ctx.int(name, v[0], v[1], np_=False) if isinstance(v, list) else v
    P = dict(max_parents=par("max_parents", maxp), iterations_number=par("iterations", iters), patience=par("patience", patience))
    tabu = dict(tabu_length=par("tabu_length", tabu), tabu_rules_duration=par("duration", duration))
    lib = ctx.lib
    T = tabu if optimizer == "tabu" else {}
    sp = sample_path(ctx, lab, [2] * n, [([1.0, 1.0], [[0] * n, [1] + [0] * (n - 1), [1] * n])],
                     edges=[(lab[0], lab[-1])] if n > 1 else None)

    class Scored(lib.StructureScoreBasedEstimator):
        def get_score_from_graph(self, graph, node_id):
            graph.fast_init(node_id)
            return search.score(ctx, str(node_id), [str(a) for a, b in graph.edges if b == node_id])

        def estimate_parents(self, node_id, *a, **k):
            keep = ctx.env.state()
            stream(ctx, node_id)
            try:
                return super().estimate_parents(node_id, *a, **k)
            finally:
                ctx.env.set_state(keep)
    est = Scored(sp, 1, 1, known)
    got = est.estimate_structure(optimizer=optimizer, **P, **T, **pool_options(ctx, parallel))
    ctx.check("the prior edges of the data are left as they were", norm(sp.structure.edges) == norm([(lab[0], lab[-1])] if n > 1 else []))
    if again:
        got2 = est.estimate_structure(optimizer=optimizer, **P, **T, disable_multiprocessing=bool(parallel))
        ctx.check("a second run in the other mode gives the same edges", norm(got) == norm(got2))
        ctx.cover("second run")
    # every node alone, on a fresh estimator, and in another order (nothing may be kept from one node to another)
    want = []
    sp.structure.clean_structure_edges()
    for v in reversed(lab):
        one = Scored(sp, 1, 1, known)
        stream(ctx, v)
        if optimizer == "tabu":
            o = lib.TabuSearch(node_id=v, structure_estimator=one, **P, **tabu)
        else:
            o = lib.HillClimbing(node_id=v, structure_estimator=one, **P)
        want += list(o.optimize_structure())
    compare(ctx, got, want, lab)
    ctx.cover(optimizer)
    ctx.cover("in several processes" if parallel else "in one process")


def alone(ctx, n, child, optimizer, iters, maxp, patience, tabu=None, duration=None):
    """estimate_parents against the optimizer itself with the caller's parameters."""
    def par(name, v):
        return ctx.int(name, v[0], v[1], np_=False) if isinstance(v, list) else v
    P = dict(max_parents=par("max_parents", maxp), iterations_number=par("iterations", iters), patience=par("patience", patience))
    T = dict(tabu_length=par("tabu_length", tabu), tabu_rules_duration=par("duration", duration)) if optimizer == "tabu" else {}
    log = []
    lab, est = search.estimator(ctx, n, [(LABELS[n - 1], LABELS[child])] if n > 2 else [], log, child)
    v = lab[child]
    stream(ctx, v)
    got = est.estimate_parents(v, optimizer=optimizer, **P, **T)
    first, log[:] = list(log), []
    stream(ctx, v)
    cls = ctx.lib.TabuSearch if optimizer == "tabu" else ctx.lib.HillClimbing
    want = cls(node_id=v, structure_estimator=est, **P, **T).optimize_structure()
    ctx.check("the search of one node runs with the given parameters", norm(got) == norm(want))
    ctx.check("and evaluates the same structures", first == log)
    ctx.cover("one node alone")


def chosen(ctx, n, parallel, optimizer, wide=False, free=None):
    """The edges found for each node are arbitrary (an arbitrary function of node and parameters)."""
    lab = list((LABELS + ["L%d" % i for i in range(20)])[:n])
    sp = sample_path(ctx, lab, [2] * n, [([1.0, 1.0], [[0] * n, [1] + [0] * (n - 1), [1] * n])])
    P = dict(max_parents=ctx.int("max_parents", 0, 9, np_=False), iterations_number=ctx.int("iterations", 0, 99, np_=False),
             patience=ctx.int("patience", 0, 99, np_=False), tabu_length=ctx.int("tabu_length", 0, 99, np_=False),
             tabu_rules_duration=ctx.int("duration", 0, 99, np_=False), optimizer=optimizer)
    found = {v: [a for a in lab if a != v and ctx.bool("edge_%s_%s" % (a, v))] for v in lab} if free is None else \
        {v: [lab[(i + 1) % n]] + ([lab[(i + 2) % n]] if i in free and ctx.bool("edge_%s" % v) else []) for i, v in enumerate(lab)}
    wrong = []

    class Arbitrary(ctx.lib.StructureScoreBasedEstimator):
        def estimate_parents(self, node_id, max_parents=None, iterations_number=40, patience=10, tabu_length=None, tabu_rules_duration=5,
                             optimizer="hill"):
            got = dict(max_parents=max_parents, iterations_number=iterations_number, patience=patience, tabu_length=tabu_length,
                       tabu_rules_duration=tabu_rules_duration, optimizer=optimizer)
            ok = ctx.And(*[got[k] is not None and got[k] == P[k] for k in P])
            return [(a, str(node_id)) for a in found[str(node_id)]] + ([] if bool(ok) else [("wrong parameters", str(node_id))])
    est = Arbitrary(sp, 1, 1, [])
    got = est.estimate_structure(**P, **pool_options(ctx, parallel, wide))
    compare(ctx, got, [(a, v) for v in lab for a in found[v]], lab)


def chosen_constraint(ctx, n, parallel, free):
    lab = ["L%d" % ((i * 7 + 5) % 30) for i in range(n)]
    sp = sample_path(ctx, lab, [2] * n, [([1.0, 1.0], [[0] * n, [1] + [0] * (n - 1), [1] * n])])
    found = {v: [lab[(i + 1) % n]] + ([lab[(i + 2) % n]] if i in free and ctx.bool("edge_%s" % v) else []) for i, v in enumerate(lab)}

    class Arbitrary(ctx.lib.StructureConstraintBasedEstimator):
        def one_iteration_of_CTPC_algorithm(self, var_id, tot_vars_count):
            return [(a, str(var_id)) for a in found[str(var_id)]] + ([] if tot_vars_count == n else [("wrong parameters", str(var_id))])
    got = Arbitrary(sp, 0.1, 0.1, [], 25).estimate_structure(**pool_options(ctx, parallel))
    compare(ctx, got, [(a, v) for v in lab for a in found[v]], lab)


def constraint(ctx, cards, parallel, m, q, known=(), again=False, prior=()):
    labels = list(LABELS[:len(cards)])
    sp = sample_path(ctx, labels, cards, [([1.0 + i for i in range(m)], C10.walk(cards, m, q))], edges=[(labels[a], labels[b]) for a, b in prior] if prior else None)

    class Verdict(ctx.lib.StructureConstraintBasedEstimator):
        def independence_test(self, child_states_numb, cim1, cim2, thumb_value, parent_indx, child_indx):
            key = "/".join("".join(str(int(x)) for x in c.state_transition_matrix.reshape(-1)) for c in (cim1, cim2))
            return bool(ctx.bool("ind%d_%s" % (child_indx, key)))
    known = [(labels[a], labels[b]) for a, b in known]
    est = Verdict(sp, 0.1, 0.1, known, 25)
    got = est.estimate_structure(**pool_options(ctx, parallel))
    ctx.check("the prior edges of the data are left as they were", norm(sp.structure.edges) == norm([(labels[a], labels[b]) for a, b in prior]))
    if again:
        got2 = est.estimate_structure(disable_multiprocessing=bool(parallel))
        ctx.check("a second run in the other mode gives the same edges", norm(got) == norm(got2))
        ctx.cover("second run")
    want = []
    sp.structure.clean_structure_edges()
    for v in reversed(labels):
        one = Verdict(sp, 0.1, 0.1, known, 25)
        want += list(one.one_iteration_of_CTPC_algorithm(v, len(cards)))
    compare(ctx, got, want, labels)
    ctx.cover("constraint")
    ctx.cover("in several processes" if parallel else "in one process")


def jobs(tier):
    deep = tier != "quick"
    out = []

    def add(fn, w, **k):
        out.append(dict(name="%s-%d" % (fn, len(out)), fn=fn, weight=w, params=k))
    for opt in ("hill", "tabu"):
        add("alone", 5, n=3, child=1, optimizer=opt, iters=[0, 3], maxp=[0, 2], patience=None)
        add("alone", 5, n=4, child=0, optimizer=opt, iters=2, maxp=None, patience=[0, 1])
    add("alone", 5, n=4, child=2, optimizer="tabu", iters=3, maxp=None, patience=None, tabu=[1, 2], duration=[1, 3])
    for par in (False, True):
        for n in (1, 2, 3) + ((4,) if deep else ()):
            add("chosen", n * n, n=n, parallel=par, optimizer="hill" if par else "tabu")
        add("chosen", 9, n=18, parallel=par, optimizer="tabu" if par else "hill", free=[17])
        add("chosen_constraint", 9, n=18, parallel=par, free=[17, 0])
        if par:
            add("chosen", 9, n=2, parallel=par, optimizer="tabu", wide=True)
        for opt in ("hill", "tabu"):
            add("scores", 1, n=1, optimizer=opt, iters=2, parallel=par)
            add("scores", 10, n=2, optimizer=opt, iters=[0, 2], parallel=par, nknown=2 if deep else 1, again=True)
            add("scores", 30, n=3, optimizer=opt, iters=1 if not deep else 2, parallel=par, maxp=[0, 1] if par else 1, nknown=0 if par else 1)
            add("scores", 10, n=2, optimizer=opt, iters=3, parallel=par, patience=[0, 1])
            if opt == "tabu":
                add("scores", 10, n=2, optimizer=opt, iters=2, parallel=par, tabu=[0, 2], duration=[0, 2])
            if deep:
                add("scores", 300, n=3, optimizer=opt, iters=2, parallel=par)
                add("scores", 300, n=4, optimizer=opt, iters=1, parallel=par, maxp=1)
        add("constraint", 1, cards=[2], parallel=par, m=3, q=0)
        add("constraint", 10, cards=[2, 3], parallel=par, m=7, q=0, again=True, prior=[[1, 0]])
        add("constraint", 10, cards=[2, 2], parallel=par, m=7, q=1)
        add("constraint", 90, cards=[2, 3, 2] if par else [2, 2, 3], parallel=par, m=6, q=2, prior=[[0, 2], [2, 1]], known=[[0, 1], [2, 0], [1, 2]] + ([] if deep else [[2, 1]]) if par else [[2, 1], [0, 2], [1, 0]] + ([] if deep else [[0, 1]]))
        if deep:
            add("constraint", 200, cards=[3, 2, 2], parallel=par, m=8, q=3, known=[[0, 1]])
    for k, step in enumerate([("chosen", dict(n=3, parallel=False, optimizer="hill")), ("chosen", dict(n=2, parallel=True, optimizer="tabu")),
                              ("constraint", dict(cards=[2, 3], parallel=False, m=7, q=0))]):
        out.append(long_names(step, name="names-%d" % k, weight=60))
    return out
