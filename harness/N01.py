"""Not a property: the engine's numpy against the real one, one expression per job (symbolic value of every explored path's
model compared with the real value)."""
from .common import *

COVERS = []
EXPRS = """
a @ w | np.matmul(a, w) | np.einsum('ij,j->i', a, w) | np.einsum('ij,ij->i', a, a) | np.inner(a, w) | np.tensordot(a, w, axes=1)
np.einsum('ij->j', a) | np.einsum('ii->i', m) | np.einsum('ii', m) | np.outer(t, w) | np.multiply.outer(t, w) | a.dot(w)
np.ravel_multi_index(a.T, (3, 3)) | np.unravel_index(a[:, 0], (2, 2)) | np.digitize(t, [1.0, 2.0]) | np.searchsorted([0, 1, 2], a[:, 0])
np.unique(a[:, 0]) | np.unique(a[:, 0], return_counts=True) | np.unique(a, axis=0) | np.histogram(a[:, 0], bins=[0, 1, 2, 3])[0]
np.histogram(a[:, 0], bins=3, range=(0, 3), weights=t)[0] | np.histogram2d(a[:, 0], a[:, 1], bins=[3, 3], range=[[0, 3], [0, 3]])[0]
np.count_nonzero(a) | np.count_nonzero(a, axis=1) | np.nonzero(a[:, 0])[0] | np.argwhere(a == 1) | np.flatnonzero(a[:, 0] == 1)
np.isin(a, [1, 2]) | np.in1d(a[:, 0], [1]) | np.take(t, a[:, 0]) | np.take_along_axis(a, a[:, :1] % 2, axis=1) | np.choose(a[:, 0], [t, t * 2, t * 3])
np.lexsort((a[:, 0], a[:, 1])) | np.argsort(t) | np.sort(t) | np.cumsum(t) | np.cumprod(t) | np.diff(t) | np.ediff1d(t) | t.cumsum()
np.logical_and(a[:, 0] == 1, t > 1) | np.logical_or.reduce(a == 1, axis=1) | np.logical_and.reduce(a == 1, axis=1) | np.add.reduce(a, axis=1) | np.multiply.reduce(a, axis=1)
np.add.accumulate(t) | np.maximum.accumulate(t) | np.add.reduceat(t, [0, 1]) | np.apply_along_axis(lambda r: r.sum(), 1, a) | np.vectorize(lambda x: x + 1)(a)
np.fromiter((x + 1 for x in t), dtype=float) | np.nan_to_num(t / 0.0) | np.isclose(t, 1.0) | np.allclose(t, 1.0) | np.array_equal(a, a)
np.full_like(t, 2.0) | np.zeros_like(a) | np.ones_like(t) | np.empty_like(a).shape | np.eye(2) * m | np.identity(2) @ m | m[np.diag_indices(2)]
m[~np.eye(2, dtype=bool)] | np.tril(m) | np.triu(m, 1) | np.clip(t, 1, 2) | np.sign(t - 1) | np.abs(t - 1) | np.fabs(t - 1) | np.maximum(t, 1) | np.minimum(t, 1) | np.fmax(t, 1)
np.where(a == 1, 1, 0) | np.where(a[:, 0] == 1)[0] | np.select([t > 2, t > 1], [t, -t], 0) | np.divide(t, w3, out=np.zeros(3), where=w3 != 0) | np.square(t) | np.power(t, 2) | t ** 2 | np.reciprocal(t + 1)
np.average(t) | np.average(t, weights=w3 + 1) | np.mean(a, axis=0) | t.mean() | np.ptp(t) | np.median(t) | np.var(t) | t.sum() | t.max() | t.argmin() | np.argmax(t) | np.nanargmin(t) | np.nanmax(t) | np.nanmin(t)
np.delete(t, 1) | np.insert(t, 1, 5.0) | np.append(t, [1.0]) | np.concatenate([t, t]) | np.hstack((t, t)) | np.vstack((t, t)) | np.column_stack((t, t)) | np.stack([t, t], axis=1) | np.c_[t, t] | np.r_[t, 1.0] | np.dstack((t, t))
np.repeat(t, 2) | np.tile(t, 2) | np.roll(t, 1) | np.flip(t) | t[::-1] | np.split(t, [1])[1] | np.array_split(t, 2)[0] | np.broadcast_to(t, (2, 3)) | np.expand_dims(t, 0) | t[:, None] + t[None, :] | np.squeeze(t[None])
np.meshgrid(t, t)[0] | np.ix_([0, 1], [0, 1])[0] | m[np.ix_([1, 0], [0, 1])] | np.diagonal(m) | m.diagonal() | np.diag(m) | np.diag(t) | np.trace(m) | m.trace() | m.T | m.transpose() | np.swapaxes(a, 0, 1) | np.moveaxis(a, 0, 1)
a.astype(float) | a.astype(np.int32) | a.astype(bool) | t.astype(int) | a.tolist() | list(t) | t.item(1) | a.flatten() | a.ravel() | a.reshape(-1) | a.reshape(2, 3) | a.copy() | t.round(1) | np.around(t, 1) | np.round(t, 1) | np.floor(t) | np.ceil(t) | np.trunc(t) | np.rint(t)
np.bincount(a[:, 0], minlength=4) | np.bincount(a[:, 0], weights=t, minlength=3) | np.bincount(a[:, 0] + 3 * a[:, 1], t, minlength=9).reshape(3, 3) | np.any(a == 1) | np.all(a >= 0, axis=1) | (a == 1).sum() | (a == [1, 1]).all(axis=1) | np.sum(t[a[:, 0] == 1]) | t[a[:, 0] == 1].sum()
np.float64(t[0]) | np.int64(a[0, 0]) | int(a[0, 0]) | float(t[0]) | bool(a[0, 0]) | round(t[0], 2) | abs(t[0] - 1) | max(t) | min(t) | sum(t) | sorted(t) | divmod(a[0, 0], 2) | a % 2 | a // 2 | t // 1 | np.mod(a, 2) | np.floor_divide(a, 2) | np.divmod(a, 2)[1] | -t | +t | t / (t + 1) | a & 1 | a | 1 | a ^ 1 | ~(a == 1)
np.true_divide(a, 2) | np.negative(t) | np.subtract(t, 1) | np.add(t, 1) | np.multiply(t, 2) | np.equal(a, 1) | np.not_equal(a, 1) | np.less(t, 1) | np.greater_equal(t, 1) | np.logical_not(a == 1) | np.logical_xor(a == 1, a == 2) | np.isnan(t) | np.isfinite(t) | np.isinf(t) | np.signbit(t - 1)
F.at_add(np, a, t) | F.fancy(np, a, t) | F.inplace(np, a, t, m) | F.mask_assign(np, a, t) | F.where_idx(np, a, t) | F.views(np, m) | F.diag_view(np, m) | F.loops(np, a, t) | F.nd(np, a, t) | F.out(np, a, t) | F.put(np, a, t) | F.outer_idx(np, a, t) | F.multi(np, a, t) | F.emptyfill(np, t) | F.strided(np, m) | F.flat(np, m) | F.argsel(np, a, t) | F.itemset(np, m) | F.dictacc(np, a, t) | F.defdict(np, a, t) | F.groupby(np, a, t) | F.counter(np, a) | F.setrows(np, a) | F.tuplekey(np, a, t) | F.zipstar(np, a) | F.reduce_(np, t) | F.copyto(np, a, t) | F.fill(np, t) | F.ndenum(np, m) | F.nditer(np, m) | F.recipe(np, a, t)
F.pd_group(pd, a, t) | F.pd_counts(pd, a) | F.pd_cross(pd, a) | F.pd_loc(pd, a, t) | F.pd_diff(pd, t) | F.pd_shift(pd, t) | F.pd_assign(pd, a, t) | F.pd_iter(pd, a, t) | F.pd_merge(pd, a, t) | F.pd_concat(pd, a, t) | F.pd_mask(pd, a, t) | F.pd_sum(pd, a, t) | F.pd_values(pd, a, t) | F.pd_insert(pd, a, t) | F.pd_map(pd, a) | F.pd_at(pd, a, t) | F.pd_append(pd, a, t) | F.pd_dict(pd, a, t) | F.pd_where(pd, t) | F.pd_query(pd, a, t) | F.pd_dropna(pd, t) | F.pd_rename(pd, a, t) | F.pd_json(pd, a, t) | F.pd_recs(pd, a, t) | F.pd_np_split(pd, np, a, t)
"""


class F:
    def at_add(np, a, t):
        o = np.zeros((3, 3)); np.add.at(o, (a[:, 0], a[:, 1]), t); return o

    def fancy(np, a, t):
        o = np.zeros((3, 3)); o[a[:, 0], a[:, 1]] = t; return o[a[:, 0], a[:, 1]]

    def inplace(np, a, t, m):
        t = t.copy(); t += 1; t *= 2; t /= 3; t -= t.min(); b = a.copy(); b += 1; b[:, 0] -= 1; return np.concatenate([t, b.ravel()])

    def mask_assign(np, a, t):
        t = t.copy(); t[a[:, 0] == 1] = 9; t[(a[:, 0] == 0) & (t > 1)] *= 2; return t

    def where_idx(np, a, t):
        r = t.copy(); r[np.where(a[:, 0] == 1)] = 0; return r

    def views(np, m):
        m = m.copy(); v = m.ravel(); v[0] = 7; r = m.reshape(-1); r[3] = 8; m.T[0, 1] = 5; return m

    def diag_view(np, m):
        m = m.copy(); m[np.arange(2), np.arange(2)] = 0; np.fill_diagonal(m, m.sum(axis=1)); return m

    def loops(np, a, t):
        o = np.zeros((3, 3))
        for i in range(len(t)):
            o[a[i, 0]][a[i, 1]] += t[i]
        return o

    def nd(np, a, t):
        o = np.zeros(9)
        for (i, j), v in np.ndenumerate(a):
            o[v] += t[i]
        return o

    def out(np, a, t):
        o = np.zeros(3); np.add(t, 1, out=o); np.multiply(o, 2, out=o); np.sum(a, axis=0, out=np.zeros(2, dtype=int)); return o

    def put(np, a, t):
        o = np.zeros(3); np.put(o, [0, 2], t[:2]); return o

    def outer_idx(np, a, t):
        return (a[:, 0][:, None] == np.arange(3)).astype(int).T @ t

    def multi(np, a, t):
        oh = np.eye(3)[a[:, 0]]; return oh.T.dot(t)

    def emptyfill(np, t):
        o = np.empty(3); o[:] = np.nan; o[0] = t[0]; return np.isnan(o)

    def strided(np, m):
        return m.reshape(-1)[::3]

    def flat(np, m):
        m = m.copy(); m.flat[0] = 3; return [x for x in m.flat]

    def argsel(np, a, t):
        return a[np.argmin(t)]

    def itemset(np, m):
        m = m.copy(); m[0, 1] = m[1, 0]; m[0][0] = 2; return m

    def dictacc(np, a, t):
        d = {}
        for (x, y), v in zip(a, t):
            d[(x, y)] = d.get((x, y), 0) + v
        return [d.get((i, j), 0) for i in range(3) for j in range(3)]

    def defdict(np, a, t):
        import collections
        d = collections.defaultdict(float)
        for r, v in zip(a.tolist(), t.tolist()):
            d[tuple(r)] += v
        return [d[(i, j)] for i in range(3) for j in range(3)]

    def groupby(np, a, t):
        import itertools
        return [k for k, g in itertools.groupby(sorted(a[:, 0].tolist()))]

    def counter(np, a):
        import collections
        c = collections.Counter(a[:, 0].tolist()); return [c[i] for i in range(3)]

    def setrows(np, a):
        return len({tuple(r) for r in a})

    def tuplekey(np, a, t):
        d = {(i, j): 10 * i + j for i in range(3) for j in range(3)}; return [d[tuple(r)] for r in a]

    def zipstar(np, a):
        return list(zip(*a))

    def reduce_(np, t):
        import functools
        return functools.reduce(lambda x, y: x + y, t)

    def copyto(np, a, t):
        o = np.zeros(3); np.copyto(o, t, where=a[:, 0] == 1); return o

    def fill(np, t):
        o = np.zeros((2, 3)); o[...] = t; o[1, :] = 4; return o

    def ndenum(np, m):
        return [v for i in np.ndindex(2, 2) for v in [m[i]]]

    def nditer(np, m):
        return [m[i][j] for i, j in __import__("itertools").product(range(2), repeat=2)]

    def recipe(np, a, t):
        idx = (a * np.array([1, 3])).sum(axis=1); return [t[idx == k].sum() for k in range(9)]

    def fr(pd, a, t):
        d = pd.DataFrame({"Time": [0.0] * 3, "A": [0] * 3, "B": [0] * 3}).astype(object) if False else pd.DataFrame(dict(Time=list(t), A=list(a[:, 0]), B=list(a[:, 1])))
        return d

    def pd_group(pd, a, t):
        g = F.fr(pd, a, t).groupby("A")["Time"].sum(); return [g.get(k, 0) for k in range(3)]

    def pd_counts(pd, a):
        c = pd.Series(list(a[:, 0])).value_counts(); return [c.get(k, 0) for k in range(3)]

    def pd_cross(pd, a):
        c = pd.crosstab(a[:, 0], a[:, 1]); return c.to_numpy().sum()

    def pd_loc(pd, a, t):
        d = F.fr(pd, a, t); return d.loc[d["A"] == 1, "Time"].sum()

    def pd_diff(pd, t):
        return pd.Series(list(t)).diff().to_list()[1:]

    def pd_shift(pd, t):
        return pd.Series(list(t)).shift(-1).to_list()[:-1]

    def pd_assign(pd, a, t):
        return F.fr(pd, a, t).assign(C=lambda d: d["A"] + d["B"])["C"].to_list()

    def pd_iter(pd, a, t):
        return [r.A + r.Time for r in F.fr(pd, a, t).itertuples()]

    def pd_merge(pd, a, t):
        return pd.concat([F.fr(pd, a, t), F.fr(pd, a, t)], axis=1).shape

    def pd_concat(pd, a, t):
        return pd.concat([F.fr(pd, a, t), F.fr(pd, a, t)], ignore_index=True)["Time"].to_list()

    def pd_mask(pd, a, t):
        d = F.fr(pd, a, t); return d[(d["A"] == 1) & (d["Time"] > 1)]["Time"].to_list()

    def pd_sum(pd, a, t):
        d = F.fr(pd, a, t); return [d["Time"].sum(), d["A"].max(), d["Time"].min()]

    def pd_values(pd, a, t):
        d = F.fr(pd, a, t); return d[["A", "B"]].values.astype(int)

    def pd_insert(pd, a, t):
        d = F.fr(pd, a, t); d.insert(1, "C", d["A"]); d["D"] = d["Time"] * 2; del d["B"]; return d.iloc[1].tolist()

    def pd_map(pd, a):
        return pd.Series(list(a[:, 0])).map({0: 5, 1: 6, 2: 7}).to_list()

    def pd_at(pd, a, t):
        d = F.fr(pd, a, t); d.at[0, "A"] = 2; d.iloc[1, 0] = 4.0; d.loc[2, ["A", "B"]] = -1; return d.iloc[:, 0].to_list() + d["A"].to_list()

    def pd_append(pd, a, t):
        d = F.fr(pd, a, t); d.loc[len(d)] = [1.0, 2, 3]; return d["Time"].to_list()

    def pd_dict(pd, a, t):
        return [r["A"] for r in F.fr(pd, a, t).to_dict("records")]

    def pd_where(pd, t):
        return pd.Series(list(t)).where(pd.Series([True, False, True])).fillna(0).to_list()

    def pd_query(pd, a, t):
        return F.fr(pd, a, t).sort_values("Time")["Time"].to_list()

    def pd_dropna(pd, t):
        return pd.Series(list(t)).diff().dropna().to_list()

    def pd_rename(pd, a, t):
        return F.fr(pd, a, t).rename(columns={"A": "Z"})["Z"].to_list()

    def pd_json(pd, a, t):
        import json
        return [r["Time"] for r in json.loads(F.fr(pd, a, t).to_json(orient="records"))]

    def pd_recs(pd, a, t):
        return pd.DataFrame.from_records([dict(A=x) for x in a[:, 0]])["A"].to_list()

    def pd_np_split(pd, np, a, t):
        return np.diff(F.fr(pd, a, t)["Time"].to_numpy())


def exprs():
    return [e.strip() for l in EXPRS.strip().splitlines() for e in l.split(" | ")]


def flat(v):
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(x)]
    if isinstance(v, np.ndarray):
        return [y for x in v for y in flat(x)] if v.ndim else [v[()]]
    return [v]


def expr(ctx, e):
    G = ctx.lib.NetworkGraph.add_nodes.__globals__
    P = ctx.lib.SampleImporter.__init__.__globals__
    npx, pdx = G["np"], P["pd"]
    a = ctx.farray([[ctx.int("a%d%d" % (i, j), 0, 2, np_=True) for j in range(2)] for i in range(3)], np.int64)
    t = ctx.farray([ctx.real("t%d" % i, 0, 3) for i in range(3)], np.float64)
    m = ctx.farray([[ctx.int("m%d%d" % (i, j), 0, 5, np_=True) for j in range(2)] for i in range(2)], np.int64)
    r = eval(e, dict(np=npx, pd=pdx, a=a, t=t, m=m, w=np.array([1, 3]), w3=np.array([2, 0, 1]), F=F))
    for i, v in enumerate(flat(r)):
        ctx.observe("v%d" % i, v)
    ctx.check("done", ctx.real("u", 0, 1) <= 2)


def jobs(tier):
    return [dict(name="%03d %s" % (k, e), fn="expr", params=dict(e=e), validate=6) for k, e in enumerate(exprs())]
