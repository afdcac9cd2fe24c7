"""Planted changes: seed.py check ID...   validate /verif/seeded/ID in scratch copies and run the property's check on it.
seed.py run [ID...]: only run the checks."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

RES = "/verif/tools/seed_results.json"
SEEDED = "/verif/seeded"
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy(d, name):
    r = os.path.join(d, name)
    sh("cp -a /repo %s && git -C %s checkout -q -- ." % (r, r))
    return r


def scripts(d, r):
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("/repo", r)
        open(os.path.join(d, n), "w").write(s)


def demo(d, sid, r):
    f = os.path.join(d, "demo")
    shutil.rmtree(f, ignore_errors=True)
    shutil.copytree(os.path.join(SEEDED, sid), f, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    return sh("bash %s/demo.sh" % f, cwd=r, timeout=300)


def main():
    mode, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(SEEDED))
    for sid in ids:
        meta = json.load(open(os.path.join(SEEDED, sid, "meta.json")))
        d = tempfile.mkdtemp(prefix="seed_")
        try:
            r = copy(d, "r")
            msg, caught = [], []
            if mode == "check":
                o = demo(d, sid, r)
                msg.append("clean demo %d" % o.returncode)
                if o.returncode:
                    print(o.stdout[-600:])
            a = sh("git -C %s apply %s" % (r, os.path.join(SEEDED, sid, "patch.diff")))
            if a.returncode:
                print(sid, "PATCH FAILS", a.stdout[-300:])
                continue
            if mode == "check":
                o = demo(d, sid, r)
                msg.append("patched demo %d" % o.returncode)
                scripts(d, r)
                b = sh("bash %s/build.sh" % d)
                t = sh("bash %s/test.sh %s/out.json" % (d, d))
                out = json.load(open(d + "/out.json"))
                base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                passed = set(out.get("passed", [])) if "passed" in out else {k for k, v in out.items() if v == "passed"}
                msg.append("build %d, stable failing %s" % (b.returncode, sorted(base - passed)[:3]))
            for p in [meta["property"]] if os.environ.get("ALL") is None else os.environ["ALL"].split(","):
                c = sh("%s /verif/check.py %s" % (PY, p), env=dict(os.environ, SYMX_REPO=r))
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                msg.append("%s rc %d %s" % (p, c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED " + c.stdout[-200:]))
                caught = caught + [p] if c.returncode == 1 and v else caught
            res = json.load(open(RES)) if os.path.exists(RES) else {}
            res[sid] = ", ".join(sorted(set(caught) | set(res.get(sid, "").replace("-", "").split(", ")) - {""})) or "-"
            json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
            print(sid, "|", "; ".join(msg), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
