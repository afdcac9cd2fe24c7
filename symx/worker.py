"""Worker process: reads jobs (JSON lines) on stdin, answers with results."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    cwd = os.path.join(os.path.dirname(HERE), "out", "cwd")      # nothing real is read or written there
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    from symx import job as J
    import traceback
    for line in sys.stdin:
        req = json.loads(line)
        try:
            r = J.run_job(req["harness"], req["job"], req["deadline"], req["opts"])
        except BaseException:
            r = dict(job=req["job"]["name"], crash=traceback.format_exc()[-1500:])
        out.write(json.dumps(r, default=str) + "\n")
        out.flush()
    srv = J._state.get("srv")
    if srv:
        srv.close()


if __name__ == "__main__":
    main()
