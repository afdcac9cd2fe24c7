"""Environment of the code under test: random variates, worker processes, files.

Every answer of the environment is an input chosen by `ctx` (a solver variable in symbolic runs, a recorded
value in concrete replays), constrained only by the contract of the call.
"""
import zlib
import builtins
import copy
import io
import itertools
import json as real_json
import math
import os
import random as real_random

import numpy as np

from . import core
from .core import is_sym, Sym, Blocked


class Env:
    """One per run; bound to the ctx of that run."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.stream = "r"
        self.n = 0
        self.nstream = 0
        self.streams = {}
        self.bigs = []
        self.draws = []          # (kind, params, value) in order, for harnesses
        self.files = {}
        self.kept_states = {}
        self.cpu = 2
        self.symbolic = ctx.symbolic
        self.tasks = []
        self.fork_copy = True
        self.pin_shuffle = False
        self.max_cats = None            # cut runs with more categorical draws than this
        self.cats_claim = None          # property claimed when they are not
        self.unit_menu = None           # or given values for unit draws, used in turn
        self.unit_margin = 0.0          # keep unit draws this far from 0 and 1
        self.pin_order = None    # 0: processes end as started, -1: the other way round
        self.any_order = True    # pool tasks finish in any order
        self.key = None          # harnesses may prefix draw names (e.g. per node)

    def name(self, kind):
        self.n += 1
        return "%s.%s%d" % (self.stream, kind, self.n)

    def state(self):
        return (self.stream, self.n)

    def set_state(self, s):
        self.stream, self.n = s

    def reseed(self, seed=None):
        if seed is None:
            self.nstream += 1
            self.stream = "os%d" % self.nstream
        else:
            # streams are numbered by first use, so that symbolic and concrete runs give them the same names
            self.stream = "s%d" % self.streams.setdefault(seed_key(seed), len(self.streams))
        self.n = 0

    def big(self, lo, hi, kind="big"):
        """An integer from a large range (a seed): two draws never collide."""
        v = self.ctx.int(self.name(kind), lo, hi)
        for w in self.bigs:
            if is_sym(v) or is_sym(w):
                self.ctx.assume(core.binop("ne", v, w))
        self.bigs.append(v)
        return v

    # primitive draws
    def choose(self, n, kind="pick"):
        if n == 1:
            return 0
        v = self.ctx.int(self.name(kind), 0, n - 1)
        return v

    def unit(self, kind="u"):
        """uniform on [0, 1)"""
        if self.unit_menu is not None:
            self.n += 1
            return np.float64(self.unit_menu[self.n % len(self.unit_menu)])
        m = self.unit_margin
        return self.ctx.real(self.name(kind), 0 + m, 1 - m, hi_strict=True, np_=True)

    def expo(self):
        """unit exponential, > 0"""
        return self.ctx.real(self.name("E"), 0, 64, lo_strict=True, np_=True)


def seed_key(s):
    if is_sym(s):
        return "e:" + core.z3.simplify(s.e).sexpr()
    if isinstance(s, np.ndarray):
        s = s.tolist()
    if isinstance(s, (list, tuple)):
        return "l:" + ",".join(seed_key(v) for v in s)
    if isinstance(s, (int, np.integer)):
        return "v:%d" % s
    return "v:%r" % (s,)


_env = None


def env():
    return _env


def set_env(e):
    global _env
    _env = e


def _conc(i):
    return i.__index__()


# ----------------------------------------------------------------------------------- python random
def _seq(x):
    if isinstance(x, (set, frozenset)):
        raise TypeError("Population must be a sequence.  For dicts or sets, use sorted(d).")
    return list(x)


def r_choice(seq):
    if isinstance(seq, (set, frozenset)):
        raise TypeError("'set' object is not subscriptable")
    if len(seq) == 0:
        raise IndexError("Cannot choose from an empty sequence")
    i = _conc(env().choose(len(seq)))
    env().draws.append(("choice", len(seq), i))
    return seq[i]


def r_sample(population, k, *, counts=None):
    pop = _seq(population)
    if counts is not None:
        raise core.Unsupported("sample counts")
    if not 0 <= k <= len(pop):
        raise ValueError("Sample larger than population or is negative")
    if env().pin_shuffle:      # one of the possible samples
        return [pop.pop() for _ in range(k)]
    out = []
    for _ in range(k):
        i = _conc(env().choose(len(pop)))
        out.append(pop.pop(i))
    return out


def r_shuffle(x):
    n = len(x)
    if env().pin_shuffle:      # one of the possible orders (for harnesses about something else)
        return
    for i in reversed(range(1, n)):
        j = _conc(env().choose(i + 1, "shuf"))
        x[i], x[j] = x[j], x[i]


def r_choices(population, weights=None, *, cum_weights=None, k=1):
    pop = _seq(population)
    if cum_weights is not None:
        raise core.Unsupported("choices(cum_weights)")
    if weights is not None:
        tot = sum(weights)
        return [pop[n_categorical([w / tot for w in weights])] for _ in range(k)]
    return [pop[_conc(env().choose(len(pop)))] for _ in range(k)]


def r_random():
    u = env().unit()
    env().draws.append(("u", None, u))
    return u.item() if is_sym(u) else float(u)


def r_uniform(a, b):
    return a + (b - a) * r_random()


def r_randrange(start, stop=None, step=1):
    if stop is None:
        start, stop = 0, start
    r = range(int(start), int(stop), int(step))
    if len(r) == 0:
        raise ValueError("empty range for randrange()")
    if len(r) > 1000:
        return env().big(start, stop - 1)
    return r[_conc(env().choose(len(r)))]


def r_randint(a, b):
    return r_randrange(a, b + 1)


def r_getrandbits(k):
    return env().big(0, 2 ** k - 1, "bits") if k > 9 else env().ctx.int(env().name("bits"), 0, 2 ** k - 1)


def r_expovariate(lambd):
    e = env().expo()
    env().draws.append(("exp", 1 / lambd, e))
    return e / lambd


def seed_fn(*a, **k):
    v = a[0] if a else (next(iter(k.values())) if k else None)
    env().reseed(v)


def r_gauss(*a, **k):
    raise core.Unsupported("normal variates")


class FakeRandom:
    """random.Random: its own stream."""

    def __init__(self, seed=None):
        keep = env().state()
        env().reseed(seed)
        self._st = env().state()
        env().set_state(keep)

    def __getattr__(self, name):
        return _own_stream(self, RANDOM[name]) if name in RANDOM else _raise(AttributeError(name))


def _raise(e):
    raise e


def _own_stream(self, f):
    def call(*a, **k):
        keep = env().state()
        env().set_state(self._st)
        try:
            return f(*a, **k)
        finally:
            self._st = env().state()
            env().set_state(keep)
    return call


RANDOM = dict(Random=FakeRandom, choice=r_choice, sample=r_sample, shuffle=r_shuffle, choices=r_choices, random=r_random,
              uniform=r_uniform, randrange=r_randrange, randint=r_randint, getrandbits=r_getrandbits,
              expovariate=r_expovariate, seed=seed_fn)


# ----------------------------------------------------------------------------------- numpy random
def _shape(size):
    if size is None:
        return None
    if is_sym(size):
        size = _conc(size)
    return (int(size),) if np.ndim(size) == 0 else tuple(int(_conc(s)) for s in size)


def _fill(size, f):
    sh = _shape(size)
    if sh is None:
        return f()
    vals = [f() for _ in range(int(np.prod(sh)) if sh else 1)]
    if any(is_sym(v) for v in vals):
        from . import arr
        return arr.symarray(vals).reshape(sh)
    return np.array(vals).reshape(sh)


def n_exponential(scale=1.0, size=None):
    def one():
        e = env().expo()
        env().draws.append(("exp", scale, e))
        if not is_sym(scale) and not is_sym(e):
            if scale < 0:
                raise ValueError("scale < 0")
        elif bool(scale < 0):
            raise ValueError("scale < 0")
        return scale * e
    return _fill(size, one)


def n_standard_exponential(size=None, **k):
    return n_exponential(1.0, size)


def n_random_sample(size=None):
    def one():
        u = env().unit()
        env().draws.append(("u", None, u))
        return u
    return _fill(size, one)


def n_rand(*shape):
    return n_random_sample(shape if shape else None)


def n_uniform(low=0.0, high=1.0, size=None):
    return _fill(size, lambda: low + (high - low) * n_random_sample())


def n_binomial(n, p, size=None):
    if is_sym(p) or not (0 <= p <= 1):
        if bool(p < 0) or bool(p > 1):
            raise ValueError("p < 0, p > 1 or p is NaN")

    def one():
        lo, hi = 0, int(n)
        v = env().ctx.int(env().name("binom"), lo, hi)
        if is_sym(p) or is_sym(v):
            env().ctx.assume(core.or_(p > 0, core.eq(v, 0)))
            env().ctx.assume(core.or_(p < 1, core.eq(v, int(n))))
        env().draws.append(("binom", p, v))
        return v
    return _fill(size, one)


def n_multinomial(n, pvals, size=None):
    """One categorical draw (n=1): index i is possible exactly if pvals[i] > 0."""
    if int(n) != 1:
        raise core.Unsupported("multinomial n>1")
    pv = [pvals[i] for i in range(len(pvals))]

    def one():
        i = n_categorical(pv)
        row = np.zeros(len(pv), dtype=np.int64)
        row[i] = 1
        return row
    if size is None:
        return one()
    sh = _shape(size)
    return np.array([one() for _ in range(int(np.prod(sh)))]).reshape(sh + (len(pv),))


def n_categorical(pv):
    for p in pv[:-1]:
        if (is_sym(p) and bool(p < 0)) or (not is_sym(p) and not (0 <= p <= 1 + 1e-9)):
            raise ValueError("pvals < 0, pvals > 1 or pvals contains NaNs")
    if env().max_cats is not None and sum(d[0] == "cat" for d in env().draws) >= env().max_cats:
        if env().cats_claim:               # the harness claims that there are no more
            env().ctx.check(env().cats_claim, False)
            raise core.PathEnd("more than claimed")
        env().ctx.cut("more categorical draws than the bound")
    v = env().choose(len(pv), "cat")
    i = _conc(v) if is_sym(v) else int(v)
    p = pv[i]
    if is_sym(p):
        env().ctx.assume(p > 0)
    elif not p > 0:
        env().ctx.cut("zero-probability outcome")
    env().draws.append(("cat", list(pv), i))
    return i


def n_choice(a, size=None, replace=True, p=None):
    arr_ = np.arange(int(a)) if np.ndim(a) == 0 else np.asarray(a)
    if len(arr_) == 0 and (size is None or int(np.prod(_shape(size)))):
        raise ValueError("'a' cannot be empty unless no samples are taken")
    if p is not None:
        pv = [p[i] for i in range(len(p))]
        sh = _shape(size)
        if sh is None:
            return arr_[n_categorical(pv)]
        return np.array([arr_[n_categorical(pv)] for _ in range(int(np.prod(sh)))]).reshape(sh)
    sh = _shape(size)
    if sh is None:
        return arr_[_conc(env().choose(len(arr_)))]
    k = int(np.prod(sh))
    pool = list(range(len(arr_)))
    if not replace and k > len(pool):
        raise ValueError("Cannot take a larger sample than population when 'replace=False'")
    idx = []
    if env().pin_shuffle and not replace:
        return arr_[np.array(pool[::-1][:k], dtype=int)].reshape(sh)
    for _ in range(k):
        j = _conc(env().choose(len(pool)))
        idx.append(pool[j])
        if not replace:
            pool.pop(j)
    return arr_[np.array(idx, dtype=int)].reshape(sh)


def n_randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low

    def one():
        return r_randrange(low, high)
    return _fill(size, one)


def n_shuffle(x):
    r_shuffle(x)


def n_permutation(x):
    y = list(range(int(x))) if np.ndim(x) == 0 else list(x)
    r_shuffle(y)
    return np.array(y)


def n_get_state(legacy=True):
    """The key only depends on the seed, the position on the number of draws."""
    st = env().state()
    key = np.full(624, zlib.crc32(str(st[0]).encode()), dtype=np.uint32)
    env().kept_states[(int(key[0]), st[1])] = st
    return ("MT19937", key, st[1], 0, 0.0) if legacy else dict(bit_generator="MT19937", state=dict(key=key, pos=st[1]), has_gauss=0, gauss=0.0)


def n_set_state(state):
    k, p = (state["state"]["key"], state["state"]["pos"]) if isinstance(state, dict) else state[1:3]
    st = env().kept_states.get((int(k[0]), int(p)))
    if st is None:
        raise core.Unsupported("a state of the generator that was not read from it")
    env().set_state(st)


class FakeGenerator:
    """numpy Generator / RandomState with its own stream."""

    def __init__(self, seed=None):
        keep = env().state()
        env().reseed(seed)
        self._st = env().state()
        env().set_state(keep)

    def __getattr__(self, name):
        f = {"random": n_random_sample, "integers": n_randint}.get(name) or NPRANDOM.get(name)
        if f is None:
            raise AttributeError(name)

        return _own_stream(self, f)


class FakeSeedSequence:
    def __init__(self, entropy=None, spawn_key=()):
        if entropy is None:
            entropy = env().big(0, 2 ** 64, "entropy")
        self.entropy, self.spawn_key, self.n = entropy, tuple(spawn_key), 0

    def spawn(self, n):
        out = [FakeSeedSequence(self.entropy, self.spawn_key + (self.n + i,)) for i in range(n)]
        self.n += n
        return out

    def __repr__(self):
        return "seq:" + seed_key([self.entropy] + list(self.spawn_key))


NPRANDOM = dict(exponential=n_exponential, standard_exponential=n_standard_exponential,
                random_sample=n_random_sample, random=n_random_sample, ranf=n_random_sample, sample=n_random_sample,
                rand=n_rand, uniform=n_uniform, binomial=n_binomial, multinomial=n_multinomial, choice=n_choice,
                randint=n_randint, shuffle=n_shuffle, permutation=n_permutation, seed=seed_fn,
                default_rng=FakeGenerator, RandomState=FakeGenerator, Generator=FakeGenerator,
                SeedSequence=FakeSeedSequence, get_state=n_get_state, set_state=n_set_state)


def unmodelled(name, v):
    """Randomness without a model is never drawn for real."""
    if not callable(v) or isinstance(v, type) and issubclass(v, BaseException):
        return v

    def f(*a, **k):
        raise core.Unsupported("random function %s" % name)
    return f


# ----------------------------------------------------------------------------------- processes
def fork_copy(x):
    """What a worker process sees: a copy of the object (managed lists stay shared)."""
    return copy.deepcopy(x)


class ManagedList(list):
    def __deepcopy__(self, memo):
        return self

    def append(self, v):
        list.append(self, fork_copy(v))

    def extend(self, vs):
        for v in vs:
            self.append(v)

    def insert(self, i, v):
        list.insert(self, i, fork_copy(v))

    def __setitem__(self, i, v):
        list.__setitem__(self, i, fork_copy(v))


class ManagedDict(dict):
    def __deepcopy__(self, memo):
        return self

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, fork_copy(v))


class ManagedQueue:
    def __init__(self, *a, **k):
        self.q = []

    def __deepcopy__(self, memo):
        return self

    def put(self, v, *a, **k):
        self.q.append(fork_copy(v))

    def get(self, block=True, timeout=None):
        if not self.q:
            run_some()
        if not self.q:
            raise Blocked("get on an empty queue")
        return self.q.pop(0)

    def empty(self):
        return not self.q

    def qsize(self):
        return len(self.q)


class EmptyQueue(Exception):
    pass


class LocalQueue:
    """queue.Queue within one process: waiting on an empty queue never ends."""

    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.q = []

    def _full(self):
        return self.maxsize > 0 and len(self.q) >= self.maxsize

    full = _full

    def put(self, v, block=True, timeout=None):
        if self._full():
            if not block or timeout is not None:
                import queue
                raise queue.Full
            raise Blocked("put on a full queue")
        self.q.append(v)

    def put_nowait(self, v):
        self.put(v, False)

    def get(self, block=True, timeout=None):
        if not self.q:
            if not block or timeout is not None:
                import queue
                raise queue.Empty
            raise Blocked("get on an empty queue")
        return self._pop()

    def _pop(self):
        return self.q.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self.q

    def qsize(self):
        return len(self.q)

    def task_done(self):
        pass


class LocalLifo(LocalQueue):
    def _pop(self):
        return self.q.pop()


QUEUE = dict(Queue=LocalQueue, SimpleQueue=LocalQueue, LifoQueue=LocalLifo)


class FakeManager:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def list(self, *a):
        return ManagedList(*a)

    def dict(self, *a, **k):
        return ManagedDict(*a, **k)

    def Queue(self, *a):
        return ManagedQueue()

    def shutdown(self):
        pass


def run_some(target=None):
    """Let the started children run to completion in a symbolic order, until `target` is done."""
    e = env()
    while True:
        live = [p for p in e.tasks if p._started and not p._done]
        if not live or (target is not None and target._done):
            return
        if e.pin_order is not None:                  # one of two orders (for harnesses about many processes)
            i = e.pin_order
        else:
            i = _conc(e.choose(len(live), "sched")) if len(live) > 1 else 0
        live[i]._go()
        if target is None:
            return


class FakeProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self._started = self._done = False
        self.exitcode = None
        self.name = name
        self.daemon = daemon
        self.pid = None

    def __deepcopy__(self, memo):
        return self

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._started:
            raise AssertionError("cannot start a process twice")
        self._started = True
        self.pid = 1
        self._rng = env().state()
        self._snap = fork_copy((self._target, self._args, self._kwargs))
        env().tasks.append(self)

    def _go(self):
        keep = env().state()
        env().set_state(self._rng)
        self._target, self._args, self._kwargs = self._snap
        try:
            self.run()
            self.exitcode = 0
        except Exception as ex:          # a crashing child prints a traceback and ends
            self.exitcode = 1
            env().ctx.note("child process failed: %r" % (ex,))
        finally:
            env().set_state(keep)
            self._done = True

    def join(self, timeout=None):
        if not self._started:
            raise AssertionError("can only join a started process")
        if timeout is not None:
            # a bounded wait may expire before the child ends
            if _conc(env().choose(2, "expire")) == 1:
                return
        run_some(self)

    def is_alive(self):
        return self._started and not self._done

    def terminate(self):
        self._done = True

    kill = terminate

    def close(self):
        pass


class FakeFuture:
    def __init__(self, thunk):
        self._thunk, self._state = thunk, None

    def _run(self):
        if self._state is None:
            try:
                self._state = (True, self._thunk())
            except Exception as e:
                self._state = (False, e)

    def result(self, timeout=None):
        self._run()
        ok, v = self._state
        if ok:
            return v
        raise v

    def exception(self, timeout=None):
        self._run()
        return None if self._state[0] else self._state[1]

    def done(self):
        return self._state is not None

    def get(self, timeout=None):
        return self.result()

    def add_done_callback(self, fn):
        self._run()
        fn(self)


class FakeExecutor:
    """Process pool: every task runs on a copy of its function and arguments and returns a copy."""

    def __init__(self, max_workers=None, *a, **k):
        if max_workers is None:
            max_workers = k.pop("processes", None)
        if max_workers is not None and bool(max_workers <= 0):
            raise ValueError("max_workers must be greater than 0")
        self.pending = []
        self.closed = False
        e = env()
        self._rng = e.state()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._drain()
        self.closed = True
        return False

    def _task(self, fn, args, kw=None):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        snap = fork_copy((fn, tuple(args), dict(kw or {})))

        def thunk():
            f, a, k = snap
            return fork_copy(f(*a, **k))
        fut = FakeFuture(thunk)
        self.pending.append(fut)
        return fut

    def _drain(self):
        live = list(self.pending)
        self.pending = []
        while live:
            i = _conc(env().choose(len(live), "sched")) if 1 < len(live) <= 3 and env().any_order else 0
            live.pop(i)._run()

    def submit(self, fn, *a, **k):
        return self._task(fn, a, k)

    def map(self, fn, *its, timeout=None, chunksize=1):
        if len(its) == 2 and isinstance(self, FakePool):
            its = its[:1]
        futs = [self._task(fn, a) for a in zip(*its)]
        return self._results(futs)

    def _results(self, futs):
        self._drain()
        return (f.result() for f in futs)

    def shutdown(self, *a, **k):
        self._drain()
        self.closed = True


class FakeThreads(FakeExecutor):
    """Thread pool: the tasks share their objects; each runs as a whole, in any order."""

    def _task(self, fn, args, kw=None):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        fut = FakeFuture(lambda: fn(*args, **(kw or {})))
        self.pending.append(fut)
        return fut


class FakePool(FakeExecutor):
    def map(self, fn, it, chunksize=None):
        return list(FakeExecutor.map(self, fn, it))

    def imap(self, fn, it, chunksize=1):
        return FakeExecutor.map(self, fn, it)

    def imap_unordered(self, fn, it, chunksize=1):
        futs = [self._task(fn, (a,)) for a in it]
        order = list(futs)
        r_shuffle(order)
        self._drain()
        return (f.result() for f in order)

    def starmap(self, fn, it, chunksize=None):
        futs = [self._task(fn, tuple(a)) for a in it]
        return list(self._results(futs))

    def apply(self, fn, args=(), kwds=None):
        return self._task(fn, args, kwds).result()

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        return self._task(fn, args, kwds)

    def close(self):
        self._drain()

    def join(self):
        self._drain()

    def terminate(self):
        pass


def as_completed(futs, timeout=None):
    order = list(futs)
    r_shuffle(order)
    return iter(order)


def wait(futs, timeout=None, return_when=None):
    for f in futs:
        f._run()
    import collections
    return collections.namedtuple("D", "done not_done")(set(futs), set())


def cpu_count():
    return env().cpu


class FakeContext:
    Process = FakeProcess
    Pool = FakePool
    Queue = ManagedQueue
    Manager = FakeManager
    cpu_count = staticmethod(cpu_count)


MP = dict(Process=FakeProcess, Pool=FakePool, Manager=FakeManager, Queue=ManagedQueue, cpu_count=cpu_count,
          get_context=lambda method=None: FakeContext())
FUTURES = dict(ProcessPoolExecutor=FakeExecutor, ThreadPoolExecutor=FakeThreads, as_completed=as_completed,
               wait=wait)


# ----------------------------------------------------------------------------------- files / json
def json_norm(x):
    from .arr import SymArray
    from .pdx import SymText
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if isinstance(k, str):
                k = str.__str__(k)
            elif k is True or k is False or k is None or type(k) in (int, float):
                k = real_json.loads(real_json.dumps({k: 0})) and next(iter(real_json.loads(real_json.dumps({k: 0}))))
            elif isinstance(k, float):
                k = float.__repr__(k)
            else:
                raise TypeError("keys must be str, int, float, bool or None, not " + type(k).__name__)
            out[k] = json_norm(v)
        return out
    if isinstance(x, (list, tuple)):
        return [json_norm(v) for v in x]
    if is_sym(x):
        return x.item()
    return real_json.loads(real_json.dumps(x))


def j_dumps(obj, *a, **k):
    from .arr import has_sym
    from .pdx import symtext
    if not _has_sym_deep(obj):
        return real_json.dumps(obj, *a, **k)
    return symtext(json_norm(obj))


def _has_sym_deep(x):
    if is_sym(x):
        return True
    if isinstance(x, dict):
        return any(_has_sym_deep(v) for v in x.values()) or any(is_sym(k) for k in x)
    if isinstance(x, (list, tuple)):
        return any(_has_sym_deep(v) for v in x)
    return isinstance(x, str) and getattr(x, "doc", None) is not None


def j_loads(s, *a, **k):
    if getattr(s, "doc", None) is not None:
        return copy.deepcopy(s.doc)
    return real_json.loads(s, *a, **k)


def j_dump(obj, fp, *a, **k):
    fp.write(j_dumps(obj, *a, **k))


def j_load(fp, *a, **k):
    return j_loads(fp.read(), *a, **k)


JSON = dict(dumps=j_dumps, loads=j_loads, dump=j_dump, load=j_load)


class VFile:
    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        if "w" in mode:
            env().files[path] = []
        elif "a" in mode:
            env().files.setdefault(path, [])
        elif path not in env().files:
            raise FileNotFoundError(2, "No such file or directory", path)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, s):
        if "r" in self.mode and "+" not in self.mode:
            raise io.UnsupportedOperation("not writable")
        if not isinstance(s, str):
            raise TypeError("write() argument must be str")
        env().files[self.path].append(s)
        return len(s)

    def read(self, *a):
        parts = env().files[self.path]
        docs = [p for p in parts if getattr(p, "doc", None) is not None]
        if not docs:
            return "".join(parts)
        if len(parts) == 1:
            return parts[0]
        raise core.Unsupported("symbolic text mixed with other text in one file")

    def __iter__(self):
        return iter(self.read().splitlines(True))

    def close(self):
        pass

    def flush(self):
        pass


def v_open(path, mode="r", *a, **k):
    p = os.path.abspath(os.fspath(path))
    return VFile(p, mode)
