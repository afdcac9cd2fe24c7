"""One job: explore every path of one harness function with one parameter set."""
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

from . import core, hook, stubs
from .core import z3, PathAbort, Unsupported, PathTimeout, Blocked, Stop
from .ctx import SymCtx, plain, con_eq
from .concrete import classify

HERE = os.path.dirname(os.path.abspath(__file__))
_functions = set()
_state = {}


def start_monitoring():
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return
    prefix = hook.REPO.rstrip("/") + "/"

    def on_start(code, off):
        if code.co_filename.startswith(prefix):
            if code.co_flags & 1 and not code.co_qualname.startswith("<"):
                p = code.co_filename[len(prefix):]
                _functions.add(p.replace("PyCTBN/PyCTBN/", "") + ":" + code.co_qualname.replace(".<locals>", ""))
            return None
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


class Server:
    """Persistent process for concrete runs."""

    def __init__(self, harness):
        self.harness = harness
        self.p = None

    def _start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "concrete.py"), "serve", self.harness],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env,
                                  start_new_session=True)

    def run(self, fn, params, model, timeout=25):
        if self.p is None or self.p.poll() is not None:
            self._start()
        try:
            self.p.stdin.write((json.dumps(dict(fn=fn, params=params, model=model)) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            self.close()
            return dict(status="harness_error", detail="server died", label="", obs=[], missing=[], covers=[])
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.close()
            return dict(status="exception", label="timeout", detail="no answer within %ds" % timeout, obs=[], missing=[],
                        covers=[])
        line = self.p.stdout.readline()
        if not line:
            self.close()
            return dict(status="exception", label="crash", detail="process died", obs=[], missing=[], covers=[])
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p = None


def _alarm(sig, frm):
    raise PathTimeout("path time limit")


def model_values(eng, m):
    out = {}
    for name, (kind, c) in eng.inputs.items():
        v = m.eval(c, model_completion=True)
        if kind == "bool":
            out[name] = z3.is_true(v)
        else:
            f = core.num_of(v)
            if f is None:
                return None
            out[name] = int(f) if kind == "int" else float(f)
    return out


def run_job(harness, job, deadline, opts):
    """Returns the result dict of the job."""
    t0 = time.time()
    fn, params = job["fn"], job.get("params", {})
    mod = importlib.import_module("harness." + harness)
    if "mode" not in _state:
        import warnings
        warnings.simplefilter("ignore")
        hook.install("sym")
        _state["mode"] = True
        import numpy as np
        np.seterr(all="ignore")
        start_monitoring()
        signal.signal(signal.SIGALRM, _alarm)
    srv = _state.get("srv")
    if srv is None or srv.harness != harness:
        srv = _state["srv"] = Server(harness)
    _functions_before = set(_functions)
    eng = core.Engine(query_ms=job.get("query_ms", opts.get("query_ms", 8000)))
    core.set_engine(eng)
    R = dict(job=job["name"], paths=0, cut=0, obligations=0, trivial=0, discharged=0, inconclusive=0, unsupported={},
             harness_errors=[], violations=[], unconfirmed=[], covers={}, validated=0, mismatches=[], pinned=0,
             incomplete=False, samples=[], decisions=0, notes=[], replayed=0)
    if opts.get("crosscheck"):
        eng.dump = CrossCheck(opts["crosscheck"], R)
    work = [[]]
    max_val = job.get("validate", opts.get("validate", 12))
    path_s = job.get("path_s", 60)
    stop = False
    path_data = []

    def confirm(model, label, source):
        """Replay the model on the real code; record the violation if it reproduces."""
        ans = srv.run(fn, params, model)
        R["replayed"] += ans["status"] != "harness_error"
        if ans["status"] in ("violated", "exception"):
            R["violations"].append(dict(label=ans["label"] or label, detail=ans["detail"], model=model, fn=fn,
                                        params=params, harness=harness, source=source, claimed=label))
            return True, ans
        return False, ans

    def refined_model(extra, tries=60):
        """A model of pc & extra that respects the lazily added axioms and true values of the UFs it uses."""
        if len(R["unconfirmed"]) > 3:
            tries = min(tries, 4)
        for k in range(tries):
            r = eng.check(*extra)
            if r != z3.sat:
                return r, None
            m = eng.solver.model()
            if eng.lazy_done < len(eng.lazy):
                eng.flush_lazy()
                continue
            if eng.learn(m):
                continue
            return r, m
        return z3.unknown, m

    def decide(ob):
        """True: discharged. None: inconclusive. False: violated (recorded)."""
        neg = z3.Not(ob.strict)
        if eng.check(neg) == z3.sat:
            vals = model_values(eng, eng.solver.model())
            if vals is not None and confirm(vals, ob.label, "solver counterexample")[0]:
                return False
        r, m = refined_model([neg])
        if r == z3.unsat:
            return True
        if ob.tol is not None:
            r2, m2 = refined_model([z3.Not(ob.tol)])
            if r2 == z3.unsat:
                return True
            if m2 is not None:
                r, m = r2, m2
        if m is None:
            return None
        extra = [neg]
        vals = ans = None
        for attempt in range(4 if len(R["unconfirmed"]) < 4 else 1):
            vals = model_values(eng, m)
            if vals is not None:
                ok, ans = confirm(vals, ob.label, "solver counterexample")
                if ok:
                    return False
            # ask for a different, rounder counterexample
            nice = []
            for name, (kind, c) in eng.inputs.items():
                if kind == "real":
                    k = z3.Int(eng.fresh("nice"))
                    nice.append(c == z3.ToReal(k) / z3.RealVal([4, 10, 64, 3][attempt]))
            r, m = refined_model(extra + nice, tries=20)
            if m is None:
                break
        R["unconfirmed"].append(dict(label=ob.label, uf=bool(eng.uf_apps), model=model_values(eng, m) if m is not None else None,
                                     answer=ans.get("status") if ans is not None else None))
        return None

    def finish_path(ctx, status, err):
        nonlocal stop
        todo = []
        for o in ctx.obl:
            R["obligations"] += 1
            o.strict = z3.simplify(o.strict)
            if z3.is_true(o.strict):
                R["trivial"] += 1
                R["discharged"] += 1
            else:
                todo.append(o)
        if todo:
            r = eng.check(z3.Or([z3.Not(o.strict) for o in todo]))
            if r == z3.unsat:
                R["discharged"] += len(todo)
            else:
                for o in todo:
                    d = decide(o)
                    if d:
                        R["discharged"] += 1
                    elif d is None:
                        R["inconclusive"] += 1
                    else:
                        stop = True
                        return
        if err is not None:
            r, m = refined_model([], tries=20)
            vals = model_values(eng, m) if m is not None else None
            if vals is not None:
                ok, ans = confirm(vals, status, "exception on a symbolic path: " + err[:300])
                if ok:
                    stop = True
                    return
                R["unsupported"]["engine exception not reproduced: " + err[:160]] = \
                    R["unsupported"].get("engine exception not reproduced: " + err[:160], 0) + 1
            else:
                R["inconclusive"] += 1

    def validate(ctx, expect):
        """Run the path's model on the real code and compare what was observed."""
        nonlocal stop
        r, m = refined_model([], tries=3)
        if r != z3.sat:
            # fix the inputs: the true values of the uninterpreted functions then follow
            if eng.check() != z3.sat:
                return
            v0 = model_values(eng, eng.solver.model())
            if v0 is None:
                return
            r, m = refined_model([c == (core.const_real(Fraction(v0[n])) if kind == "real" else v0[n])
                                  for n, (kind, c) in eng.inputs.items()], tries=12)
        if m is None or r != z3.sat:
            return
        vals = model_values(eng, m)
        if vals is None:
            return
        sym_obs = []
        for name, v in ctx.obs:
            if core.is_sym(v):
                e = m.eval(v.e, model_completion=True)
                v = z3.is_true(e) if z3.is_bool(e) else core.num_of(e)
                v = float(v) if v is not None else None
            sym_obs.append((name, plain(v)))
        ok, ans = confirm(vals, "path model", "concrete replay of an explored path")
        if ok:
            stop = True
            return
        if ans["status"] == "unsupported":
            R["unsupported"][ans["detail"][:200]] = R["unsupported"].get(ans["detail"][:200], 0) + 1
            return
        if ans["status"] == "harness_error":
            R["harness_errors"].append(ans["detail"][:400])
            return
        if expect:
            a, b = sym_obs, [tuple(o) for o in ans["obs"]]
            if ans["status"] == "ok" and len(a) == len(b) and all(
                    x[0] == y[0] and (y[1] is None or x[1] is None or con_eq(x[1], y[1], 1e-4)) for x, y in zip(a, b)):
                R["validated"] += 1
            else:
                R["mismatches"].append(dict(status=ans["status"], detail=ans["detail"][:200], sym=str(a)[:300],
                                            con=str(b)[:300], model={k: vals[k] for k in list(vals)[:12]}))
        if len(R["samples"]) < 2:
            R["samples"].append({k: vals[k] for k in list(vals)[:40]})

    while work and not stop:
        if R["discharged"] == 0 and sum(R["unsupported"].values()) >= 150:
            R["incomplete"] = True                       # nothing in this job can be encoded
            break
        if time.time() > deadline:
            R["incomplete"] = True
            break
        prefix = work.pop()
        eng.begin(prefix)
        ctx = SymCtx(eng)
        stubs.set_env(stubs.Env(ctx))
        ctx.covered_before = R["covers"]
        ctx.env = stubs.env()
        ctx.scratch = os.getcwd()
        status, err = "ok", None
        signal.setitimer(signal.ITIMER_REAL, path_s)
        try:
            ctx.lib = hook.Lib()
            ctx.run(mod, fn, params)
        except core.PathEnd:
            status = "ended"
        except PathAbort:
            status = "cut"
        except PathTimeout:
            status, err = "timeout", "the path did not return within %ds" % path_s
        except Blocked as e:
            status, err = "blocked", "would wait forever: %s" % e
        except Unsupported as e:
            status = "unsupported"
            R["unsupported"][str(e)[:200]] = R["unsupported"].get(str(e)[:200], 0) + 1
            if opts.get("debug"):
                traceback.print_exc()
        except RecursionError as e:
            status, err = "exception", "RecursionError"
        except Exception as e:
            if opts.get("debug"):
                traceback.print_exc()
            if classify(e, hook.REPO) == "exception":
                status, err = "exception", "%s: %s" % (type(e).__name__, e)
            else:
                status = "harness_error"
                R["harness_errors"].append(traceback.format_exc(limit=-4)[-600:])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        work.extend(eng.pending)
        R["decisions"] += len(eng.trail)
        if status == "cut":
            R["cut"] += 1
            continue
        R["paths"] += 1
        if eng.pinned:
            R["pinned"] += 1
        for c in ctx.covers:
            R["covers"][c] = R["covers"].get(c, 0) + 1
        if status == "harness_error":
            # what was asserted before the harness lost its footing still counts
            try:
                finish_path(ctx, status, None)
            except PathAbort:
                pass
            if stop:
                R["harness_errors"].pop()
            elif len(R["harness_errors"]) > 3:
                break
            continue
        try:
            finish_path(ctx, status, err)
            if not stop and (status == "unsupported" or err is None and (R["validated"] + len(R["mismatches"]) < max_val)):
                validate(ctx, status == "ok")
            if status == "ok" and not stop and fn in getattr(mod, "JOB_END", ()):
                vals = model_values(eng, eng.solver.model()) if eng.check() == z3.sat else None
                path_data.append((vals, srv.run(fn, params, vals) if vals is not None else None))
        except PathAbort:
            R["cut"] += 1
        if len(R["notes"]) < 5:
            R["notes"] += ctx.notes[:2]
    if fn in getattr(mod, "JOB_END", ()) and not stop and not R["incomplete"]:
        # a claim about all paths together, judged on their runs of the real code
        bad = [a for a in path_data if a[1] is None or a[1]["status"] != "ok"]
        if bad:
            R["inconclusive"] += 1
        for lab, detail, model in [] if bad else mod.job_end([(m, dict(a["obs"])) for m, a in path_data], fn, params):
            R["violations"].append(dict(label=lab, detail=detail, model=model, fn=fn, params=params, harness=harness,
                                        source="all explored paths", claimed=lab))
    if work and not stop:
        R["incomplete"] = True
    R["stats"] = eng.stats
    R["functions"] = sorted(_functions)
    R["wall_s"] = round(time.time() - t0, 2)
    if eng.dump:
        eng.dump.finish()
    return R


class CrossCheck:
    """Every n-th decided query is also given to cvc5; a disagreement is an error of the machinery."""

    def __init__(self, limit, R):
        self.limit, self.R, self.n, self.done = limit, R, 0, 0
        R["crosschecked"] = 0
        R["cross_unknown"] = 0
        R["cross_disagree"] = []
        self.next = 3

    def __call__(self, solver, assumptions, verdict):
        self.n += 1
        if self.n < self.next or self.done >= self.limit:
            return
        self.next = int(self.next * 1.35) + 1
        s = z3.Solver()
        s.add(solver.assertions())
        s.add(*assumptions)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        self.done += 1
        try:
            p = subprocess.run(["cvc5", "--tlimit=10000", "-"], input=txt.encode(), capture_output=True, timeout=20)
            out = p.stdout.decode().strip().splitlines()
        except subprocess.TimeoutExpired:
            out = ["unknown"]
        ans = out[0] if out else "unknown"
        if ans not in ("sat", "unsat"):
            self.R["cross_unknown"] += 1
        elif ans != verdict:
            self.R["cross_disagree"].append(dict(z3=verdict, cvc5=ans, smt2=txt[:2000]))
        else:
            self.R["crosschecked"] += 1

    def finish(self):
        pass
