"""Concrete runs of a harness on the real code.

  concrete.py serve HARNESS            one JSON request per line on stdin -> one JSON answer per line
  concrete.py replay FILE              replay a recorded counterexample; exit 1 if the property is broken
"""
import importlib
import io
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True


def classify(exc, repo):
    """Was the exception raised by the code under test (or something it called)?"""
    tb = exc.__traceback__
    while tb:
        if tb.tb_frame.f_code.co_filename.startswith(repo.rstrip("/") + "/"):
            return "exception"
        tb = tb.tb_next
    return "harness_error"


def run_once(mod, fn, params, model, scratch):
    from symx import hook, stubs, core
    from symx.ctx import ConCtx, Violated
    ctx = ConCtx(model)
    ctx.scratch = scratch
    stubs.set_env(stubs.Env(ctx))
    ctx.env = stubs.env()
    ctx.lib = hook.Lib()
    res = dict(status="ok", label="", detail="")
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        ctx.run(mod, fn, params)
    except Violated as v:
        res.update(status="violated", label=v.label, detail=v.detail)
    except core.PathAbort as e:
        res.update(status="cut", detail=str(e))
    except core.Blocked as e:
        res.update(status="exception", label="blocks", detail="would wait forever: %s" % e)
    except core.Unsupported as e:
        res.update(status="unsupported", detail="replay: %r" % e)
    except core.Stop as e:
        res.update(status="harness_error", detail=repr(e))
    except Exception as e:
        res.update(status=classify(e, hook.REPO), label="exception",
                   detail="%s: %s | %s" % (type(e).__name__, e, traceback.format_exc(limit=-3).replace("\n", " ; ")[-600:]))
    finally:
        os.chdir(cwd)
    res.update(obs=[list(o) for o in ctx.obs], covers=sorted(ctx.covers), missing=ctx.missing, checked=ctx.checked)
    return res


def setup(harness):
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    from symx import hook
    mod = importlib.import_module("harness." + harness)
    hook.install(getattr(mod, "REPLAY", "raw"))
    return mod


def main():
    import tempfile
    import shutil
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    sys.stdout = io.StringIO()
    if sys.argv[1] == "serve":
        mod = setup(sys.argv[2])
        for line in sys.stdin:
            req = json.loads(line)
            d = tempfile.mkdtemp(prefix="symx_")
            try:
                ans = run_once(mod, req["fn"], req["params"], req["model"], d)
            finally:
                shutil.rmtree(d, ignore_errors=True)
            sys.stdout = io.StringIO()
            real_out.write(json.dumps(ans, default=str) + "\n")
            real_out.flush()
    else:
        with open(sys.argv[2]) as f:
            r = json.load(f)
        mod = setup(r["harness"])
        d = tempfile.mkdtemp(prefix="symx_")
        try:
            ans = run_once(mod, r["fn"], r["params"], r["model"], d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        real_out.write(json.dumps(ans, default=str, indent=1) + "\n")
        real_out.flush()
        sys.exit(1 if ans["status"] in ("violated", "exception") else 0 if ans["status"] == "ok" else 2)


if __name__ == "__main__":
    main()
