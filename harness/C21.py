from .common import *

BOUNDS = dict(quick="every sequence of up to 5 stores, lookups and clears over every subset of 3 parents, every order of the members, and up to 8 stores before a lookup; most of the 256 subsets of 8 parents stored, then any looked up; names that contain others and separators",
              thorough="sequences of 6 operations over subsets of 4 parents, up to 12 stores")
OUTSIDE = "longer histories, keys changed by the caller after they were stored, storing nothing (None) under a key"
COVERS = ["found", "not found", "found after another set", "stored twice", "cleared", "empty set", "two parents", "looked up before", "hundreds of sets"]
ASSUMPTIONS = ["iterating over a set gives its members in any order"]
NAMES = ["Z", "a1", "M", "B_2"]


class Subset:
    """A set of names whose membership stays symbolic until it is looked at."""

    def __init__(self, ctx, key, names):
        self.ctx, self.key, self.names = ctx, key, names
        self.bits = [ctx.bool("%s.%s" % (key, n)) for n in names]
        self._real = None

    def same(self, other):
        return self.ctx.And(*[self.ctx.iff(a, b) for a, b in zip(self.bits, other.bits)])

    def given(self):
        return SymbolicSet(self) if self.ctx.symbolic else ListedSet(self)

    def order(self, members):
        ms = [n for n in self.names if n in members]
        if len(ms) > 1 and self.ctx.choice("%s.order" % self.key, [0, 1]):
            ms.reverse()
        return ms


class ListedSet(set):
    """A real set with the given iteration order."""

    def __init__(self, sub):
        set.__init__(self, [n for n, b in zip(sub.names, sub.bits) if b])
        self._sub = sub

    def __iter__(self):
        return iter(self._sub.order(set(set.__iter__(self))))


class SymbolicSet:
    __hash__ = None

    def __init__(self, sub):
        self._sub = sub
        self._set = None

    @property
    def __class__(self):
        return set

    def real(self):
        if self._set is None:
            self._set = {n for n, b in zip(self._sub.names, self._sub.bits) if b}       # forks
        return self._set

    def __eq__(self, o):
        if type(o) is SymbolicSet:
            return self._sub.same(o._sub)
        return self.real() == o

    def __ne__(self, o):
        if type(o) is SymbolicSet:
            return self._sub.ctx.Not(self._sub.same(o._sub))
        return self.real() != o

    def __iter__(self):
        return iter(self._sub.order(self.real()))

    def __len__(self):
        return len(self.real())

    def __contains__(self, x):
        for n, b in zip(self._sub.names, self._sub.bits):
            if n == x:
                return bool(b)
        return False

    def __bool__(self):
        return bool(self._sub.ctx.Or(*self._sub.bits))

    def __repr__(self):
        return repr(self._set) if self._set is not None else "{...}"     # error messages quote it

    def __deepcopy__(self, memo):
        return self

    __copy__ = copy = lambda self: self

    def __getattr__(self, name):
        return getattr(self.real(), name)

    def _other(o):
        return o.real() if type(o) is SymbolicSet else o

    for _n in ("__le__", "__lt__", "__ge__", "__gt__", "__and__", "__or__", "__xor__", "__sub__", "__rand__", "__ror__", "__rxor__", "__rsub__"):
        def _f(self, o, _n=_n, _other=_other):
            return getattr(self.real(), _n)(_other(o))
        locals()[_n] = _f
    for _n in ("issubset", "issuperset", "symmetric_difference", "difference", "union", "intersection", "isdisjoint"):
        def _f(self, *o, _n=_n, _other=_other):
            return getattr(self.real(), _n)(*map(_other, o))
        locals()[_n] = _f


def value(ctx):
    return ctx.lib.SetOfCims(node_id="Y", parents_states_number=[], node_states_number=2, p_combs=np.array([]))


def look(ctx, cache, store, q, label):
    r = cache.find(q.given())
    sames = [e[0].same(q) for e in store]
    if r is None:
        ctx.check(label + "nothing is found only if no equal set was stored", ctx.Not(ctx.Or(*sames)) if sames else True)
        ctx.cover("not found")
        return None
    k = [i for i, e in enumerate(store) if e[1] is r]
    ctx.check(label + "only what was stored since the last clear is found", bool(k))
    if not k:
        return r
    i = k[0]
    ctx.check(label + "what is found was stored first for an equal set", ctx.And(sames[i], *[ctx.Not(s) for s in sames[:i]]))
    ctx.cover("found")
    if i:
        ctx.cover("found after another set")
    ctx.cover_if("stored twice", ctx.Or(False, *[s for j, s in enumerate(sames) if j > i]))
    return r


def history(ctx, names, n):
    cache = ctx.lib.Cache()
    names = NAMES[:names] if isinstance(names, int) else names
    store, looked, ops = [], False, []
    for i in range(n):
        op = ctx.choice("op%d" % i, ["put", "find", "clear"])
        ops.append(op)
        if op == "clear":
            cache.clear()
            store = []
            ctx.cover("cleared")
        else:
            k = Subset(ctx, "k%d" % i, names)
            if op == "put":
                v = value(ctx)
                cache.put(k.given(), v)
                store.append((k, v))
            else:
                look(ctx, cache, store, k, "")
                looked = True
    q = Subset(ctx, "q", names)
    r = look(ctx, cache, store, q, "")
    ctx.check("a second lookup gives the same", look(ctx, cache, store, q, "") is r)
    if looked:
        ctx.cover("looked up before")
    ctx.cover_if("empty set", ctx.Not(ctx.Or(*q.bits)))
    ctx.cover_if("two parents", ctx.And(q.bits[0], q.bits[1]))
    ctx.observe("found", -1 if r is None else [i for i, e in enumerate(store) if e[1] is r][0] if any(e[1] is r for e in store) else -2)
    ctx.observe("ops", " ".join(ops))


def many(ctx, names, n):
    """Many stores, then a lookup of any set."""
    cache = ctx.lib.Cache()
    names = NAMES[:names] if isinstance(names, int) else names
    store = []
    for i in range(n):
        k, v = Subset(ctx, "k%d" % i, names), value(ctx)
        cache.put(k.given(), v)
        store.append((k, v))
    q = Subset(ctx, "q", names)
    r = look(ctx, cache, store, q, "")
    ctx.observe("found", -1 if r is None else [i for i, e in enumerate(store) if e[1] is r][:1])


def crowd(ctx, n):
    """Nearly every set of n parents is stored, some twice, before the lookup of any set."""
    cache = ctx.lib.Cache()
    names = ["P%d" % i for i in range(n)]
    store = {}
    for i in range(2 ** n):
        m = (i * 37 + 11) % 2 ** n
        if m % 9 == 4:
            continue
        for again in range(1 + (m % 5 == 2)):
            v = value(ctx)
            cache.put({names[b] for b in (range(n) if i % 2 else reversed(range(n))) if m >> b & 1}, v)
            store.setdefault(m, v)
    q = [ctx.bool("q%d" % b).__bool__() for b in range(n)]
    m = sum(2 ** b for b in range(n) if q[b])
    for k in range(2):
        r = cache.find({names[b] for b in range(n) if q[b]})
        ctx.check("what is found was stored first for an equal set, nothing if none was stored", r is store.get(m))
    ctx.cover("hundreds of sets")


def jobs(tier):
    deep = tier != "quick"
    out = [dict(name="history-%d" % n, fn="history", weight=4 ** n, params=dict(names=3, n=n)) for n in ([1, 3, 5] if not deep else [5, 6])]
    out += [dict(name="many-%d" % n, fn="many", weight=4 ** n, params=dict(names=k, n=n)) for k, n in ([(3, 8), (4, 6)] if not deep else [(3, 12), (4, 10)])]
    out.append(dict(name="crowd", fn="crowd", weight=9, params=dict(n=8 if not deep else 10)))
    out.append(dict(name="alike", fn="many", weight=1, params=dict(names=["X1", "1X", "X11"], n=2)))
    for k, sep in enumerate(["", ",", "_", " ", "-", "|", ";", "', '", "\n", None]):     # sets that read the same when written down
        out.append(dict(name="alike-%d" % k, fn="many", weight=1, params=dict(names=["A", "B", "A%sB" % sep] if sep is not None else ["A", "a", " A "], n=2)))
    return out
