from .common import *

BOUNDS = dict(quick="3-4 variables with 2-3 states, data: a menu of walks of 8-14 transitions with symbolic durations; every test (parent, separating set of any size, listed in both orders) after every sequence of up to 2 earlier tests of the same child, or after the search for another child; every outcome of the single comparisons",
              thorough="4-5 variables, up to 3 earlier tests, larger cardinalities")
OUTSIDE = "longer histories, more variables, other walks (the statistics themselves are decided for all data by C01 and C02)"
COVERS = ["after the search for another child", "empty separating set", "separating set of 1", "separating set of 2", "after earlier tests", "repeated test", "independent", "dependent",
          "real tests independent", "real tests dependent"]
ASSUMPTIONS = ["in the jobs called 'tests' the outcome of each comparison is arbitrary; in those called 'real' it is the real test's"]


def walk(cards, m, q):
    r = [(q * (v + 1)) % c for v, c in enumerate(cards)]
    rows = [list(r)]
    x = 7 + 5 * q
    for i in range(m):
        x = (x * 13 + 11) % 997
        v = x % len(cards)
        r[v] = (r[v] + 1 + (x // 7) % (cards[v] - 1)) % cards[v]
        rows.append(list(r))
    return rows


def dense(cards, child, per):
    """Every combination of the other variables is visited while the child cycles through its states `per` times."""
    r = [0] * len(cards)
    rows = [list(r)]
    others = [v for v in range(len(cards)) if v != child]
    for comb in combos([cards[v] for v in others]):
        for v, s in zip(others, comb):
            if r[v] != s:
                r[v] = s
                rows.append(list(r))
        for _ in range(per * cards[child]):
            r[child] = (r[child] + 1) % cards[child]
            rows.append(list(r))
    return rows


def make(ctx, cards, m, q, child=None):
    labels = list(LABELS[:len(cards)])
    if child is not None:
        rows = dense(cards, child, m)
        dur = [ctx.real("d%d" % i, 0, 20, np_=False) for i in range(len(rows) - 1)]
        return labels, [(dur, rows)], sample_path(ctx, labels, cards, [(dur, rows)])
    dur = [ctx.real("d%d" % i, 0, 20, np_=False) for i in range(m)]
    trajs = [(dur, walk(cards, m, q))]
    return labels, trajs, sample_path(ctx, labels, cards, trajs)


def pick(ctx, name, others, fixed=None, full=False, least=0):
    """A tested parent and a separating set (as a list in either order)."""
    p = ctx.choice(name + "p", others) if fixed is None else fixed
    if full:
        return p, [v for v in others if v != p]
    sep = [v for v in others if v != p and ctx.bool("%ss%d" % (name, v))]
    ctx.assume(len(sep) >= least)
    if len(sep) > 1 and ctx.bool(name + "rev"):
        sep.reverse()
    return p, sep


def sums(ctx, cards, trajs, child, parents, comb):
    T, M = row_stats(trajs, child, cards[child], parents, comb)
    return [ctx.sum(x) if x else 0.0 for x in T], M


def comparisons(ctx, cards, trajs, child, p, sep):
    """The statistics to be compared: one pair per combination of the separating set and state of the parent."""
    sep = sorted(sep)
    out = []
    for u in combos([cards[v] for v in sep]):
        one = sums(ctx, cards, trajs, child, sep, u)
        for s in range(cards[p]):
            out.append((one, sums(ctx, cards, trajs, child, sep + [p], list(u) + [s])))
    return out


def same(ctx, cim, stat, n):
    T, M = stat
    m = cim.state_transition_matrix
    if any(int(m[x][y]) != M[x][y] for x in range(n) for y in range(n)):
        return False
    for x in range(n):
        d = cim.state_residence_times[x] - T[x]
        if ctx.possible(ctx.Or(d > 1e-6, d < -1e-6)):
            return False
    return True


def recorder(ctx, sp, labels, free):
    """The estimator with the verdict of every single comparison chosen freely (`free[0]`: the test being judged)."""
    class Recorder(ctx.lib.StructureConstraintBasedEstimator):
        calls = []
        default = True

        def independence_test(self, child_states_numb, cim1, cim2, thumb_value, parent_indx, child_indx):
            v = bool(ctx.bool("v%d" % len(self.calls))) if free[0] else self.default
            self.calls.append((child_states_numb, cim1, cim2, thumb_value, parent_indx, child_indx, v))
            return v
    return Recorder(sp, 0.1, 0.1, [], 25)


def history(ctx, cards, child, m, q, earlier, last=None, search=None, full=False, least=0):
    labels, trajs, sp = make(ctx, cards, m, q)
    free = [False]
    est = recorder(ctx, sp, labels, free)
    others = [v for v in range(len(cards)) if v != child]
    n = cards[child]
    seen = []
    if search is not None:
        est.default = bool(ctx.bool("others accept"))
        est.one_iteration_of_CTPC_algorithm(labels[search], len(cards))
        est.default = True
        ctx.cover("after the search for another child")
    for h in range(earlier):
        p, sep = pick(ctx, "h%d" % h, others, least=least)
        seen.append((p, sorted(sep)))
        if not est.complete_test(labels[p], labels[child], [labels[v] for v in sep], n, len(cards), p, child):
            ctx.check("independent when every comparison accepts", False)
    p, sep = pick(ctx, "f", others, last, full)
    want = comparisons(ctx, cards, trajs, child, p, sep)
    free[0] = not full
    est.calls.clear()
    lst = [labels[v] for v in sep]
    got = est.complete_test(labels[p], labels[child], lst, n, len(cards), p, child)
    ctx.check("independent exactly if every comparison accepts", bool(got) == all(c[6] for c in est.calls))
    hit = [False] * len(want)
    for c in est.calls:
        ms = [i for i, (a, b) in enumerate(want) if same(ctx, c[1], a, n) and same(ctx, c[2], b, n)]
        ctx.check("every comparison is between the right statistics", len(ms) > 0)
        for i in ms:
            hit[i] = True
        ctx.check("the comparison is for this child and parent", c[0] == n and int(c[4]) == p and int(c[5]) == child)
    if got:
        ctx.check("every combination was compared", all(hit))
    ctx.check("the caller's separating set is not changed", lst == [labels[v] for v in sep])
    ctx.cover("independent" if got else "dependent")
    ctx.cover(["empty separating set", "separating set of 1", "separating set of 2", "separating set of 3", "separating set of 4"][len(sep)])
    if earlier:
        ctx.cover("after earlier tests")
    if (p, sorted(sep)) in seen:
        ctx.cover("repeated test")
    ctx.observe("independent", bool(got))
    ctx.observe("calls", len(est.calls))


def df(cards, child, p, sep):
    d = (cards[child] - 1) ** 2 * cards[p]
    for v in sep:
        d *= cards[v]
    return d


def real(ctx, cards, child, m, q, earlier, thr):
    """End to end: the same verdict as the single tests on statistics computed from the rows."""
    labels, trajs, sp = make(ctx, cards, m, q, child)
    n = cards[child]
    E = ctx.lib.StructureConstraintBasedEstimator
    est, ref = E(sp, 0.1, 0.1, [], thr), E(sp, 0.1, 0.1, [], thr)
    others = [v for v in range(len(cards)) if v != child]
    seen = []
    for h in range(earlier + 1):
        p, sep = pick(ctx, "h%d" % h, others)
        got = bool(est.complete_test(labels[p], labels[child], [labels[v] for v in sep], n, len(cards), p, child))
        want = True
        for a, b in comparisons(ctx, cards, trajs, child, p, sep):
            c1, c2 = [build(ctx, t, mm, n) for t, mm in (a, b)]
            if want and not ref.independence_test(n, c1, c2, df(cards, child, p, sep) if n > 2 else 0.0, p, child):
                want = False
        ctx.check("verdict of the data", got == want)
        ctx.check("the same edges are marked", bool((est._removable_edges_matrix == ref._removable_edges_matrix).all()))
        ctx.cover("real tests independent" if got else "real tests dependent")
        ctx.observe("v%d" % h, got)


def build(ctx, T, M, n):
    c = ctx.lib.SetOfCims("Z", [], n, ctx.lib.NetworkGraph.build_p_comb_structure_for_a_node([]))
    t, m = c._state_residence_times, c._transition_matrices
    t[:] = ctx.farray([T], np.float64)
    m[:] = ctx.farray([M], np.int64)
    c.build_cims(t, m)
    return c.actual_cims[0]


def jobs(tier):
    deep = tier != "quick"
    out = []
    H = [([2, 3, 2], 0, 9, 0, 1), ([3, 2, 2], 0, 9, 1, 2), ([2, 3, 2, 2], 1, 12, 2, 0), ([2, 2, 2, 3], 3, 12, 0, 0), ([3, 2, 2, 2], 2, 9, 3, 1)]
    if deep:
        H += [([2, 3, 2, 2], 1, 12, 2, 1), ([2, 2, 2, 3], 3, 12, 0, 1), ([2, 3, 2], 0, 9, 0, 3), ([3, 2, 3], 1, 12, 4, 3), ([2, 2, 3, 2], 0, 14, 5, 2), ([2, 3, 2, 2, 2], 3, 14, 6, 1), ([3, 3, 3, 2], 3, 16, 1, 1)]
    for k, (cards, child, m, q, e) in enumerate(H):
        for last in range(len(cards)):
            if last != child:
                out.append(dict(name="tests-%d-%d" % (k, last), fn="history", weight=len(cards) ** (1 + e),
                                params=dict(cards=cards, child=child, m=m, q=q, earlier=e, last=last)))
    for k, (cards, child, search) in enumerate([([2, 3, 2], 0, 1), ([3, 2, 2], 2, 0)] + ([([2, 2, 2, 2], 3, 0), ([2, 3, 2], 1, 2)] if deep else [])):
        out.append(dict(name="search-%d" % k, fn="history", weight=20,
                        params=dict(cards=cards, child=child, m=9, q=k, earlier=0, search=search)))
    R = [([2, 2], 0, 2, 0, 25), ([2, 3], 0, 2, 0, 25), ([3, 2], 0, 2, 0, 1), ([2, 2, 2], 1, 2, 0, 25)]
    if deep:
        R += [([2, 2, 2], 2, 3, 1, 25), ([3, 2, 2], 0, 2, 0, 1), ([2, 3, 2], 0, 2, 0, 25)]
    for k, (cards, child, m, e, thr) in enumerate(R):
        out.append(dict(name="real-%d" % k, fn="real", weight=10, params=dict(cards=cards, child=child, m=m, q=0, earlier=e, thr=thr)))
    out.append(long_names(("history", dict(cards=[2, 3, 2], child=1, m=9, q=0, earlier=0, search=0))))
    for k, (cards, child, last) in enumerate([([2, 2, 3, 2, 2], 2, 4)]):
        out.append(dict(name="five-%d" % k, fn="history", weight=300, params=dict(cards=cards, child=child, m=14, q=1, earlier=1, last=last, full=True, least=2)))
    return out
