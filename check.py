#!/usr/bin/env python3
"""Decide one property:  check.py C01   (tier from VERIF_TIER, default quick)."""
import hashlib
import importlib
import json
import os
import selectors
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
WORKERS = int(os.environ.get("SYMX_WORKERS", "8"))


def selftest():
    """setup_cmd: the engine, z3 and the interpreter are there."""
    from symx import z3load, core
    z3 = core.z3
    x = z3.Int("x")
    s = z3.Solver()
    s.add(x * x == 49, x > 0)
    assert s.check() == z3.sat and s.model()[x].as_long() == 7
    print("engine ready: z3 %s, %d properties" % (z3.get_version_string(),
                                                  len([f for f in os.listdir(os.path.join(VERIF, "harness")) if f[0] == "C"])))
    return 0


def main():
    if sys.argv[1:2] == ["--selftest"]:
        return selftest()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    debug = False
    for a in sys.argv[2:]:
        if a.startswith("--tier="):
            tier = a[7:]
        elif a.startswith("--job="):
            only = a[6:]
        elif a == "--debug":
            debug = True
    t0 = time.time()
    mod = importlib.import_module("harness." + prop)
    jobs = mod.jobs(tier)
    if only:
        jobs = [j for j in jobs if j["name"].startswith(only)]
    budget = getattr(mod, "BUDGET", {}).get(tier, 280 if tier == "quick" else 3000)
    deadline = t0 + budget
    opts = dict(query_ms=8000 if tier == "quick" else 30000, validate=8 if tier == "quick" else 40,
                crosscheck=6 if tier == "quick" else 60, debug=debug)
    opts.update(getattr(mod, "OPTS", {}))
    results, violation = run_jobs(prop, jobs, deadline, opts, debug)
    return report(prop, mod, tier, seed, jobs, results, violation, t0, only)


def run_jobs(prop, jobs, deadline, opts, debug):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1")
    todo = list(jobs)
    todo.sort(key=lambda j: -j.get("weight", 1))
    sel = selectors.DefaultSelector()
    procs = {}
    results, violation = [], None

    def feed(p):
        if todo:
            j = todo.pop(0)
            procs[p] = j
            p.stdin.write((json.dumps(dict(harness=prop, job=j, deadline=deadline, opts=opts)) + "\n").encode())
            p.stdin.flush()
            return True
        procs[p] = None
        return False

    for _ in range(min(WORKERS, len(jobs))):
        p = subprocess.Popen([PY, os.path.join(VERIF, "symx", "worker.py")], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=None if debug else subprocess.DEVNULL, env=env,
                             start_new_session=True)
        sel.register(p.stdout, selectors.EVENT_READ, p)
        feed(p)
    try:
        while any(j is not None for j in procs.values()):
            ev = sel.select(timeout=5)
            for key, _ in ev:
                p = key.data
                line = p.stdout.readline()
                if not line:
                    results.append(dict(job=procs[p]["name"] if procs[p] else "?", crash="worker died"))
                    sel.unregister(p.stdout)
                    procs[p] = None
                    continue
                r = json.loads(line)
                results.append(r)
                if debug:
                    print({k: v for k, v in r.items() if k not in ("functions", "samples")}, file=sys.stderr)
                if r.get("violations") and violation is None:
                    violation = r["violations"][0]
                    return results, violation
                feed(p)
            if time.time() > deadline + 90:
                for p, j in procs.items():
                    if j is not None:
                        results.append(dict(job=j["name"], timeout=True))
                return results, violation
        return results, violation
    finally:
        for p in procs:
            # kill the worker and its concrete-run server (own session each)
            kill_tree(p.pid)
            p.wait()


def kill_tree(pid):
    try:
        kids = subprocess.run(["ps", "-o", "pid=", "--ppid", str(pid)], capture_output=True, text=True).stdout.split()
    except OSError:
        kids = []
    for k in kids:
        try:
            os.kill(int(k), signal.SIGKILL)
        except OSError:
            pass
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


def known(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return [k for k in json.load(f) if k.get("property") == prop and k.get("status") == "finding"]
    except FileNotFoundError:
        return []


def report(prop, mod, tier, seed, jobs, results, violation, t0, only):
    tot = dict(paths=0, cut=0, obligations=0, trivial=0, discharged=0, inconclusive=0, validated=0, pinned=0, decisions=0,
               queries=0, solver_s=0.0, unknown=0, crosschecked=0, cross_unknown=0)
    funcs, covers, errs, unsup, unconf, mism, cross, incomplete, samples = set(), {}, [], {}, [], [], [], [], []
    replays = sum(r.get("replayed", 0) for r in results)
    for r in results:
        if r.get("crash") or r.get("timeout"):
            errs.append("%s: %s" % (r["job"], r.get("crash") or "no result in time"))
            continue
        for k in tot:
            if k in ("queries", "solver_s", "unknown"):
                tot[k] += r["stats"][k]
            else:
                tot[k] += r.get(k, 0)
        funcs |= set(r["functions"])
        for c, n in r["covers"].items():
            covers[c] = covers.get(c, 0) + n
        errs += ["%s: %s" % (r["job"], e) for e in r["harness_errors"]]
        for k, n in r["unsupported"].items():
            unsup[k] = unsup.get(k, 0) + n
        unconf += [dict(u, job=r["job"]) for u in r["unconfirmed"]]
        mism += [dict(m, job=r["job"]) for m in r["mismatches"]]
        cross += r.get("cross_disagree", [])
        if r["incomplete"] and not r["violations"]:
            incomplete.append(r["job"])
        samples += [dict(job=r["job"], inputs=s) for s in r["samples"][:1]]
    wall = time.time() - t0
    missing = [] if violation or only else [c for c in getattr(mod, "COVERS", []) if c not in covers]
    code = 0
    lines = []
    if violation is not None:
        d = os.path.join(VERIF, "out", "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(violation, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump(violation, f, indent=1, default=str)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
        try:
            rc = 1 if violation["source"] == "all explored paths" else subprocess.run(
                [PY, os.path.join(VERIF, "symx", "concrete.py"), "replay", path],
                capture_output=True, env=env, timeout=90).returncode
        except subprocess.TimeoutExpired:
            rc = 1 if violation["label"] == "timeout" else 2
        if rc == 1:
            kf = [k for k in known(prop) if k["label"] == violation["label"]]
            if kf:
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, kf[0]["what"]))
            else:
                code = 1
                lines.append("%s: %s (%s) %s" % (prop, violation["label"], violation["source"], violation["detail"][:400]))
                lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        else:
            code = 2
            lines.append("ERROR: the counterexample did not reproduce in a fresh process: " + path)
    elif errs and (tot["discharged"] == 0 or len(errs) > max(2, tot["paths"] // 4)):
        code = 2
        lines += ["ERROR: " + e for e in errs[:5]]
    elif tot["paths"] == 0 or tot["discharged"] == 0 and not (unsup and replays):
        code = 2
        lines.append("ERROR: nothing decided")
    elif cross:
        code = 2
        lines.append("ERROR: z3 and cvc5 disagree on %d queries" % len(cross))
    elif missing and not incomplete and not unsup:
        code = 2
        lines.append("ERROR: vacuous, never reached: " + ", ".join(missing))
    elif len(mism) > max(3, tot["validated"]):
        code = 2
        lines.append("ERROR: symbolic and concrete runs disagree: " + json.dumps(mism[:2])[:800])
    if code == 0 and violation is None:
        # none of these is a verdict: the obligations concerned are counted as inconclusive, or never existed
        if tot["discharged"] == 0:
            lines.append("WARNING: INCONCLUSIVE: this tree uses constructs the encoder does not cover; "
                         "only %d path models were replayed on the real code" % replays)
        for e in errs[:5]:
            lines.append("WARNING: a path or job was not decided: " + e[:400])
        if [u for u in unconf if not u["uf"]]:
            # (where uninterpreted functions stand for lgamma, log or quantiles, a model that the real functions refute
            # is expected)
            lines.append("WARNING: %d counterexamples of the encoding did not reproduce on the real code: %s"
                         % (len(unconf), json.dumps(unconf[:2])[:800]))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2),
              violations=1 if code == 1 else 0, assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              coverage=dict(
                  states=tot["paths"], transitions=tot["decisions"], traces_validated_against_impl=tot["validated"],
                  samples=samples[:6],
                  explanation="states = symbolic paths of the real code explored to the end; transitions = branch decisions "
                              "on those paths; every path stands for all input values satisfying its path condition",
                  bounds=getattr(mod, "BOUNDS", {}).get(tier, ""), outside_bounds=getattr(mod, "OUTSIDE", ""),
                  functions_encoded=sorted(funcs), jobs=len(results), jobs_incomplete=incomplete,
                  paths_cut_by_assumptions=tot["cut"], obligations=tot["obligations"], discharged=tot["discharged"],
                  discharged_by_simplification=tot["trivial"], inconclusive=tot["inconclusive"],
                  solver_queries=tot["queries"], solver_time_s=round(tot["solver_s"], 2), solver_unknown=tot["unknown"],
                  cvc5_agreed=tot["crosschecked"], cvc5_no_answer=tot["cross_unknown"], cvc5_disagreed=len(cross),
                  reachability=covers, unreached=missing, paths_sampled_only=tot["pinned"], unsupported=unsup,
                  unconfirmed_counterexamples=len(unconf), concrete_mismatches=mism[:4],
                  undecided_paths_or_jobs=[e[:300] for e in errs[:5]], path_models_replayed=replays,
                  exhaustive=not incomplete and not unsup and not tot["pinned"] and not tot["inconclusive"]))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d paths, %d obligations (%d discharged, %d inconclusive), %d queries, %.1fs solver, %d validated, "
          "%d mismatches, unsupported %s, pinned %d, incomplete %s, %.1fs"
          % (prop, tier, tot["paths"], tot["obligations"], tot["discharged"], tot["inconclusive"], tot["queries"],
             tot["solver_s"], tot["validated"], len(mism), unsup, tot["pinned"], incomplete, wall))
    if mism:
        print("mismatch:", json.dumps(mism[:2])[:600])
    for l in lines:
        print(l)
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    sys.exit(main())
