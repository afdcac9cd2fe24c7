from .common import *

REPLAY = "env"
BOUNDS = dict(quick="networks of 1-3 variables with 2-3 states (no, one or two parents, cycles, edge tables in either order), given matrices with distinct rates or (one variable, and pairs for one transition) every matrix; every value of every random variate; 0-3 transitions, or any end time with up to 3 transitions before it, or both",
              thorough="4 transitions, 4 variables")
OUTSIDE = "waiting times ending within 1e-6 of each other or of the end time, more transitions or variables, states without any exit (rate 0), the numerical distribution of a single exponential or categorical draw (trusted to numpy)"
COVERS = ["no transitions", "several transitions", "end time", "number of transitions", "redrawn because a parent changed", "waiting time kept", "two parents", "one parent",
          "three states", "sampled again", "both limits, number reached", "both limits, end time first"]
ASSUMPTIONS = ["exponential variates are positive, a categorical draw only gives outcomes of positive probability"]
NAMES = ["X1", "1X", "X11", "X", "Y", "Z"]
H = 0.5e-4 + 1e-9


def matrices(ctx, cards, edges, sym=False):
    """For every variable: parents (in variable order), {parent states: matrix}; rates all different."""
    out, k = [], 0
    for v, n in enumerate(cards):
        par = sorted(a for a, b in edges if b == v)
        tab = {}
        for u in combos([cards[p] for p in par]):
            m = []
            for x in range(n):
                row = []
                for y in range(n):
                    if y == x:
                        row.append(0.0)
                        continue
                    k += 1
                    row.append(ctx.real("q%d_%s_%d%d" % (v, "".join(map(str, u)), x, y), 1 / 1024, 1024, np_=False) if sym else (k * 37 % 101) / 16.0 + 0.25)
                row[x] = -ctx.sum([row[y] for y in range(n) if y != x])
                m.append(row)
            tab[u] = m
        out.append((par, tab))
    return out


def generator(ctx, cards, edges, mats, rev=False, names=None):
    lab = list(names or NAMES)[:len(cards)]
    cims = {}
    for v, (par, tab) in enumerate(mats):
        us = combos([cards[p] for p in par])
        pc = ctx.lib.NetworkGraph.build_p_comb_structure_for_a_node([cards[p] for p in par])
        objs = np.empty(len(us), dtype=object)
        for i, u in enumerate(us):
            objs[i] = ctx.lib.ConditionalIntensityMatrix(cim=ctx.farray(tab[u], np.float64))
        cims[lab[v]] = ctx.lib.SetOfCims(node_id=lab[v], parents_states_number=[cards[p] for p in par], node_states_number=cards[v],
                                         p_combs=pc, cims=objs)
    e = [(lab[a], lab[b]) for a, b in (reversed(edges) if rev else edges)]
    import pandas as pd
    variables = pd.DataFrame([[l, c] for l, c in zip(lab, cards)], columns=["Name", "Value"])
    dyn = pd.DataFrame(e, columns=["From", "To"])
    return lab, ctx.lib.TrajectoryGenerator(variables=variables, dyn_str=dyn, dyn_cims=cims)


def near(ctx, a, b, tol=1e-9):
    return ctx.And(a - b <= tol, b - a <= tol)


def valid(ctx, c):
    return not ctx.possible(ctx.Not(c))


def row_of(mats, v, state):
    par, tab = mats[v]
    return tab[tuple(state[p] for p in par)][state[v]]


def explain(ctx, cards, mats, rows, draws, t_end, max_tr=None):
    """Follows the recorded draws: every row must be the one they lead to. False: the draws are of an unknown kind."""
    n = len(cards)
    ctx.check("starts at time 0", rows[0][0] == 0)
    groups, cats = [[]], []
    for d in draws:
        if d[0] == "exp":
            groups[-1].append(d)
        elif d[0] == "cat":
            cats.append(d)
            groups.append([])
        else:
            return False
    ctx.check("one row per transition besides the first", len(rows) == len(cats) + 1)
    if len(rows) != len(cats) + 1:
        return True
    gap = 1e-6 if ctx.symbolic else 5e-7
    state, dl, need, t = [0] * n, [None] * n, list(range(n)), 0.0
    for k in range(len(rows)):
        g, over = groups[k], k == len(cats)
        if over and (t_end is None or len(cats) == max_tr):
            break                                      # draws before stopping do not matter
        ctx.check("a waiting time is drawn for exactly the variables whose rate may have changed", len(g) == len(need))
        if len(g) != len(need):
            return True
        if len(need) < n:
            ctx.cover("waiting time kept")
        # which draw is for which variable
        best = None
        for perm in itertools.permutations(range(len(need))):
            conds = []
            for v, j in zip(need, perm):
                sc = g[j][1]
                if not (type(sc) is float and sc == 1.0):
                    conds.append(near(ctx, sc * -row_of(mats, v, state)[state[v]], 1.0))
            if best is None or all(valid(ctx, c) for c in conds):
                first = best is None
                best = perm, conds
                if not first or all(valid(ctx, c) for c in conds):
                    break
        for c in best[1]:
            ctx.check("waiting times have the rates of the current rows", c)
        for v, j in zip(need, best[0]):
            sc = g[j][1]
            dl[v] = t + (g[j][2] / -row_of(mats, v, state)[state[v]] if type(sc) is float and sc == 1.0 else g[j][2] * sc)
        if over:
            for v in range(n):
                ctx.check("no transition before the end time is missing", dl[v] >= t_end - 1e-9)
                ctx.assume(ctx.Or(dl[v] < t_end - 1e-8, dl[v] >= t_end + gap))
            break
        # the variable whose waiting time ends first
        v = next((v for v in range(n) if all(valid(ctx, dl[v] <= dl[w] + 1e-9) for w in range(n) if w != v)), None)
        if v is None:
            ctx.cut("two waiting times end together")
        for w in range(n):
            if w != v:
                ctx.assume(dl[w] - dl[v] >= gap)
        time, new = rows[k + 1]
        ctx.check("the row's time is when the first waiting time ends", near(ctx, time, dl[v], H))
        if t_end is not None:
            ctx.check("transitions happen before the end time", dl[v] < t_end + 1e-9)
            ctx.assume(ctx.Or(dl[v] < t_end - gap, dl[v] > t_end + 1e-8))
        row = row_of(mats, v, state)
        tot = ctx.sum([row[y] for y in range(cards[v]) if y != state[v]])
        pv, idx = cats[k][1], cats[k][2]
        fits = [y for y in range(cards[v]) if y != state[v] and valid(ctx, near(ctx, pv[idx] * tot, row[y]))]
        ctx.check("the new state is drawn in proportion to the rates of the current row", bool(fits))
        if not fits:
            return True
        if k + 1 < len(rows) - 1:
            ctx.check("exactly the variable whose waiting time ended changes, to the state drawn",
                      all((new[w] == state[w]) if w != v else (new[w] in fits) for w in range(n)))
            state[v] = new[v]
        else:
            state[v] = idx if idx in fits else fits[0]
        t = dl[v]
        need = [w for w in range(n) if w == v or v in mats[w][0]]
        if len(need) > 1:
            ctx.cover("redrawn because a parent changed")
    return True


def sample(ctx, cards, edges, max_tr=None, t_end=None, limit=4, sym=False, rev=False, again=False):
    mats = matrices(ctx, cards, edges, sym)
    lab, gen = generator(ctx, cards, edges, mats, rev)
    n = len(cards)
    k = te = None
    kw = {}
    if max_tr is not None:
        k = ctx.int("max_tr", max_tr[0], max_tr[1], np_=False).__index__() if max_tr[0] != max_tr[1] else max_tr[0]
        kw["max_tr"] = k
        ctx.cover("number of transitions")
    if t_end:
        te = ctx.real("t_end", 0, 50, np_=False)
        kw["t_end"] = te
        ctx.cover("end time")
    for run in range(2 if again else 1):
        ctx.env.draws.clear()
        ctx.env.max_cats = limit if k is None else k
        ctx.env.cats_claim = None if k is None else "stops after the requested number of transitions"
        out = gen.CTBN_Sample(**kw)
        if again and run == 1:
            ctx.cover("sampled again")
    ctx.check("columns are the time and the variables", [str(c) for c in out.columns] == ["Time"] + lab)
    ctx.check("rows are numbered in order", list(out.index) == list(range(len(out))))
    rows = [(out["Time"].iloc[i], [int(out[l].iloc[i]) for l in lab]) for i in range(len(out))]
    ctx.check("the last row's states are all -1", rows[-1][1] == [-1] * n)
    ctx.check("the others are states of the variables", all(0 <= x < c for r in rows[:-1] for x, c in zip(r[1], cards)))
    if len(rows) > 1:
        ctx.check("starts with every variable in state 0", rows[0][1] == [0] * n)
    if k is not None:
        ctx.check("stops after the requested number of transitions", len(rows) == k + 1 if te is None else len(rows) <= k + 1)
        if te is not None:
            ctx.cover("both limits, number reached" if len(rows) == k + 1 else "both limits, end time first")
    if not ctx.symbolic:
        ctx.check("times are rounded to four decimals", all(abs(r[0] - round(float(r[0]), 4)) < 1e-12 for r in rows))
    draws = list(ctx.env.draws)
    if not explain(ctx, cards, mats, rows, draws, te, k):
        ctx.note("unknown kinds of draws")
        return
    ctx.cover("no transitions" if len(rows) == 1 else "several transitions" if len(rows) > 2 else "one transition")
    for par, _ in mats:
        ctx.cover({1: "one parent", 2: "two parents"}.get(len(par), "no parents"))
    if 3 in cards:
        ctx.cover("three states")
    ctx.observe("rows", len(rows))
    for i, r in enumerate(rows):
        ctx.observe("t%d" % i, r[0])
        ctx.observe("s%d" % i, "".join(map(str, r[1])))


def jobs(tier):
    deep = tier != "quick"
    out = []

    def add(w, **k):
        out.append(dict(name="sample-%d" % len(out), fn="sample", weight=w, params=k))
    add(9, cards=[2], edges=[], max_tr=[0, 4])
    add(9, cards=[3], edges=[], max_tr=[0, 3], again=True)
    add(9, cards=[3], edges=[], max_tr=[2, 2], sym=True)
    add(9, cards=[2], edges=[], t_end=True, limit=3)
    add(9, cards=[3], edges=[], t_end=True, limit=2)
    add(30, cards=[2, 3], edges=[[0, 1]], max_tr=[0, 3])
    add(30, cards=[3, 2], edges=[[1, 0]], max_tr=[3, 3])
    add(30, cards=[2, 2], edges=[[1, 0], [0, 1]], max_tr=[3, 3], rev=True)
    add(30, cards=[2, 3], edges=[[1, 0]], t_end=True, limit=2)
    add(30, cards=[2, 2], edges=[], max_tr=[3, 3])
    add(30, cards=[2, 2], edges=[[0, 1]], max_tr=[1, 1], sym=True)
    add(90, cards=[2, 2, 3], edges=[[2, 0], [1, 0]], max_tr=[2, 2])
    add(90, cards=[2, 3, 2], edges=[[2, 0], [1, 0], [0, 1]], max_tr=[2, 2], rev=True)
    add(90, cards=[2, 2, 2], edges=[[0, 1], [1, 2]], max_tr=[3, 3])
    add(60, cards=[2, 3], edges=[[0, 1], [1, 0]], t_end=True, limit=3)
    add(90, cards=[2, 2, 2, 2], edges=[[3, 1], [0, 1], [2, 1], [1, 3]], max_tr=[2, 2], rev=True)
    add(30, cards=[2], edges=[], max_tr=[0, 3], t_end=True)
    add(30, cards=[2, 3], edges=[[1, 0]], max_tr=[1, 2], t_end=True)
    add(90, cards=[2, 2, 2, 2, 2, 2], edges=[[0, 5], [5, 4], [4, 0]], max_tr=[2, 2] if deep else [1, 1])
    add(90, cards=[2], edges=[], max_tr=[40, 40])
    if deep:
        add(300, cards=[3, 3], edges=[[0, 1], [1, 0]], max_tr=[5, 5])
        add(300, cards=[2, 2, 3], edges=[[2, 0], [1, 0], [0, 2]], max_tr=[4, 4])
        add(300, cards=[2, 3, 2], edges=[[2, 1], [0, 1], [1, 0]], t_end=True, limit=3)
        add(300, cards=[2, 2, 2, 2], edges=[[0, 1], [1, 2], [2, 3], [3, 0]], max_tr=[3, 3], rev=True)
        add(300, cards=[2, 2, 2, 2], edges=[[0, 1], [3, 1], [2, 1], [1, 0]], max_tr=[3, 3])
        add(300, cards=[2, 2], edges=[[0, 1], [1, 0]], max_tr=[2, 2], sym=True)
        add(300, cards=[4, 2], edges=[[1, 0]], max_tr=[3, 3])
    out.append(in_turn("turn-0", *[("sample", dict(cards=c, edges=[[1, 0], [2, 0]], max_tr=[1, 1])) for c in ([2, 2, 3], [2, 3, 2])], weight=60))
    out.append(in_turn("turn-1", ("sample", dict(cards=[2, 2], edges=[[0, 1]], max_tr=[2, 2])), ("sample", dict(cards=[2, 2], edges=[[1, 0]], t_end=True, limit=2)),
                       weight=60))
    out.append(long_names(("sample", dict(cards=[2, 3, 2], edges=[[1, 0], [2, 0]], max_tr=[1, 1])), weight=60))
    return out
