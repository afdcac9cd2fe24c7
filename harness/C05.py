import copy

from .common import *

BOUNDS = dict(quick="1-3 trajectories of 1-4 rows, 1-3 variables, symbolic times and states (-3..40000), several spellings of the variable and time columns, data frames with repeated index labels, JSON records with the time key in any position, files of 2-3 data sets",
              thorough="1-4 trajectories of 1-5 rows, 1-4 variables, more spellings and column orders")
OUTSIDE = "longer trajectories and more variables (rows are processed one by one); labels that are not strings"
COVERS = ["one trajectory", "several trajectories", "trajectory without transition", "json", "frames", "repeated index labels",
          "label is another label plus S", "time column not called Time",
          "several data sets in a file", "imported again"]
ASSUMPTIONS = ["states are integers, times are real numbers (rounding up to 1e-10 relative tolerated)"]


def make(ctx, labels, lens):
    ts = [[ctx.real("t%d_%d" % (k, r), 0, 100) for r in range(n)] for k, n in enumerate(lens)]
    ss = [[[ctx.int("s%d_%d_%d" % (k, r, v), -3, 40000) for v in range(len(labels))] for r in range(n)] for k, n in enumerate(lens)]
    return ts, ss


def check(ctx, imp, labels, order, ts, ss, variables):
    sp = ctx.lib.SamplePath(imp)
    sp.build_trajectories()
    tr = sp.trajectories
    segs = []
    for k in range(len(ts)):
        for r in range(len(ts[k]) - 1):
            segs.append((ts[k][r + 1] - ts[k][r], [ss[k][r][v] for v in order], [ss[k][r + 1][v] for v in order]))
    n = len(order)
    ctx.check("one segment per pair of consecutive rows", tr.size() == len(segs) and len(tr.times) == len(segs))
    ctx.check("columns: states before, then states after", tr.complete_trajectory.shape[1] == 2 * n and tr.trajectory.shape == (len(segs), n))
    for i, (dt, a, b) in enumerate(segs):
        ctx.eq("duration is the time difference", tr.times[i], dt)
        for v in range(n):
            ctx.eq("state before", tr.trajectory[i][v], a[v])
            ctx.eq("state before (complete)", tr.complete_trajectory[i][v], a[v])
            ctx.eq("state after", tr.complete_trajectory[i][n + v], b[v])
        ctx.observe("dt%d" % i, tr.times[i])
    ctx.cover("one trajectory" if len(ts) == 1 else "several trajectories")
    if any(len(t) == 1 for t in ts):
        ctx.cover("trajectory without transition")
    if any(a + "S" in labels for a in labels):
        ctx.cover("label is another label plus S")


def frames(ctx, labels, time, lens, header=None, dup=False, perm=None):
    ctx.tol = 1e-10
    ts, ss = make(ctx, labels, lens)
    dfs = []
    for k, n in enumerate(lens):
        vs = list(range(len(labels)))
        if perm and k > 0:
            vs = perm
        cols = {time: ts[k]}
        cols.update({labels[v]: [ss[k][r][v] for r in range(n)] for v in vs})
        dfs.append(ctx.frame(cols, index=[7] * n if dup else None))
    keep = copy.deepcopy(dfs)
    variables = ctx.frame({"Name": list(labels), "Value": [40001] * len(labels)})
    kv = variables.copy()
    imp = ctx.lib.SampleImporter(trajectory_list=dfs, variables=variables)
    if header is None:
        imp.import_data()
    else:
        imp.import_data([labels[v] for v in header])
    check(ctx, imp, labels, header or list(range(len(labels))), ts, ss, variables)
    ctx.check("the caller's list is unchanged", len(dfs) == len(keep))
    for a, b in zip(dfs, keep):
        ctx.check("the caller's columns are unchanged", list(a.columns) == list(b.columns) and a.shape == b.shape)
        for r in range(len(b)):
            for c in range(b.shape[1]):
                ctx.eq("the caller's data are unchanged", a.iat[r, c], b.iat[r, c])
    ctx.check("the caller's variables are unchanged", variables.equals(kv))
    ctx.cover("frames")
    if dup:
        ctx.cover("repeated index labels")
    if time != "Time":
        ctx.cover("time column not called Time")


def jsonfile(ctx, labels, time, lens, pos=0, shuffled=False):
    ctx.tol = 1e-10
    ts, ss = make(ctx, labels, lens)
    smp = []
    for k, n in enumerate(lens):
        tr = []
        for r in range(n):
            items = [(labels[v], ss[k][r][v]) for v in range(len(labels))]
            items.insert(pos, (time, ts[k][r]))
            if shuffled and (k + r) % 2 and (k, r) != (0, 0):
                items.reverse()
            tr.append(dict(items))
        smp.append(tr)
    doc = [{"samples": smp, "dyn.str": [], "variables": [{"Name": l, "Value": 40001} for l in labels]}]
    p = ctx.write_json("in.json", doc)
    imp = ctx.lib.JsonImporter(file_path=p, samples_label="samples", structure_label="dyn.str", variables_label="variables",
                               time_key=time, variables_key="Name")
    imp.import_data(0)
    check(ctx, imp, labels, list(range(len(labels))), ts, ss, None)
    ctx.cover("json")


def datasets(ctx, sets, pick, again=None):
    """A file holding several data sets, each with its own variables: the one asked for is imported, also after another."""
    ctx.tol = 1e-10
    made, doc = [], []
    for d, (labels, time, lens) in enumerate(sets):
        ts = [[ctx.real("t%d_%d_%d" % (d, k, r), 0, 100) for r in range(n)] for k, n in enumerate(lens)]
        ss = [[[ctx.int("s%d_%d_%d_%d" % (d, k, r, v), -3, 40000) for v in range(len(labels))] for r in range(n)] for k, n in enumerate(lens)]
        made.append((ts, ss))
        doc.append({"samples": [[dict([("Time", ts[k][r])] + [(labels[v], ss[k][r][v]) for v in range(len(labels))]) for r in range(n)]
                                for k, n in enumerate(lens)],
                    "dyn.str": [{"From": a, "To": b} for a, b in zip(labels, labels[1:])],
                    "variables": [{"Name": l, "Value": 4 + d} for l in labels]})
    p = ctx.write_json("in.json", doc)
    imp = ctx.lib.JsonImporter(file_path=p, samples_label="samples", structure_label="dyn.str", variables_label="variables",
                               time_key="Time", variables_key="Name")
    for i in ([pick] if again is None else [pick, again]):
        imp.import_data(i)
        labels = sets[i][0]
        ctx.check("variables of the chosen data set", [str(x) for x in imp.variables.iloc[:, 0]] == labels
                  and [int(x) for x in imp.variables.iloc[:, 1]] == [4 + i] * len(labels) and imp.sorter == labels)
        s = imp.structure
        ctx.check("edges of the chosen data set", ([] if len(s) == 0 else [(str(a), str(b)) for a, b in zip(s["From"], s["To"])])
                  == list(zip(labels, labels[1:])))
        check(ctx, imp, labels, list(range(len(labels))), made[i][0], made[i][1], None)
    ctx.cover("several data sets in a file")
    if again is not None:
        ctx.cover("imported again")


def jobs(tier):
    deep = tier != "quick"
    names = [["X"], ["A", "AS"], ["AS", "A", "ASS"], ["B", "A"], ["Time", "S", ""][:2], ["Z", "a1", "M"], ["x y", "S", "SS"]]
    if deep:
        names += [["AS", "ASS", "A", "ASSS"], ["0", "0S"], ["index", "level_0"]]
    lens = [[3], [2, 3], [1, 2], [2, 2, 2], [4]] + ([[5], [1, 4, 2], [3, 3, 2, 1]] if deep else [])
    out = []
    for i, l in enumerate(names):
        for j, ln in enumerate(lens):
            if not deep and (i + j) % 2 and i not in (1, 2):
                continue
            time = ["Time", "t", "T S"][(i + j) % 3]
            if time in l:
                time = "tt"
            out.append(dict(name="frames-%d-%d" % (i, j), fn="frames", params=dict(labels=l, time=time, lens=ln), weight=sum(ln) * len(l)))
            out.append(dict(name="json-%d-%d" % (i, j), fn="jsonfile", params=dict(labels=l, time=time, lens=ln, pos=(i + j) % (len(l) + 1)),
                            weight=sum(ln) * len(l)))
    out.append(dict(name="dup-0", fn="frames", params=dict(labels=["B", "A"], time="Time", lens=[3, 2], dup=True)))
    out.append(dict(name="dup-1", fn="frames", params=dict(labels=["B", "A"], time="Time", lens=[4], dup=True)))
    out.append(dict(name="perm-0", fn="frames", params=dict(labels=["B", "A", "C"], time="Time", lens=[3, 2], perm=[2, 0, 1])))
    out.append(dict(name="header-0", fn="frames", params=dict(labels=["B", "A"], time="Time", lens=[3, 2], header=[1, 0])))
    out.append(dict(name="header-1", fn="frames", params=dict(labels=["B", "A", "C"], time="t", lens=[3, 2], header=[2, 0])))
    out.append(dict(name="shuffled", fn="jsonfile", params=dict(labels=["B", "A", "C"], time="t", lens=[3, 2], shuffled=True)))
    out.append(dict(name="timeS", fn="frames", params=dict(labels=["A", "B"], time="AS", lens=[3, 2])))
    two = [[["B", "A"], "Time", [2, 3]], [["A", "C", "B"], "Time", [3]], [["A"], "Time", [1, 2]]]
    out.append(dict(name="sets-0", fn="datasets", params=dict(sets=two[:2], pick=1)))
    out.append(dict(name="sets-1", fn="datasets", params=dict(sets=two, pick=2, again=0)))
    out.append(dict(name="sets-2", fn="datasets", params=dict(sets=two, pick=0, again=1)))
    out.append(in_turn("turn-0", *[("frames", dict(labels=l, time="Time", lens=ln)) for l, ln in ((["B", "A"], [2, 2]), (["A", "B"], [3]), (["B", "C", "A"], [2, 2]))]))
    out.append(in_turn("turn-1", *[("jsonfile", dict(labels=l, time="Time", lens=ln, pos=i)) for i, (l, ln) in enumerate([(["B", "A"], [2, 2]), (["A", "B"], [3])])]))
    out.append(dict(name="many", fn="frames", weight=90, params=dict(labels=["B", "A"], time="Time", lens=[2] * 120)))
    out.append(dict(name="long", fn="frames", weight=90, params=dict(labels=["B"], time="Time", lens=[600])))
    out.append(dict(name="many-json", fn="jsonfile", weight=90, params=dict(labels=["B"], time="Time", lens=[2, 1] * 40)))
    return out
