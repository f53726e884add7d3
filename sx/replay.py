"""Concrete replay of harness inputs on the unmodified code of the repository.

usage: replay.py  < request.json  > response.json
request: {"harness": path, "repo": path, "known": [...], "cases": [{"fn","params","inputs"}]}"""
import importlib.util
import io
import json
import os
import signal
import sys
import traceback
import contextlib

HERE = os.path.dirname(os.path.abspath(__file__))


def load_harness(path):
    hdir = os.path.dirname(path)
    if hdir not in sys.path:
        sys.path.insert(0, hdir)
    name = os.path.basename(path)[:-3]
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def run_case(mod, api, case, known):
    t = api.ReplayT(case["inputs"], known)
    res = {"status": "ok", "msg": ""}
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            getattr(mod, case["fn"])(t, **case["params"])
    except api.AssumeFailed:
        res["status"] = "assume"
    except api.CheckFailedConcrete as e:
        res["status"] = "fail"
        res["msg"] = str(e)[:1500]
    except (Exception, SystemExit) as e:
        res["status"] = "exc"
        res["msg"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        res["tb"] = traceback.format_exc()[-3000:]
    res["observed"] = t.observed
    res["nchecks"] = t.nchecks
    res["known_hit"] = sorted(t.known_hit)
    return res


def main():
    req = json.load(sys.stdin)
    sys.path.insert(0, os.path.dirname(HERE))
    sys.path.insert(0, req["repo"])
    from sx import api
    import logging
    logging.disable(logging.CRITICAL)
    mod = load_harness(req["harness"])
    real_out = sys.stdout
    out = []
    for case in req["cases"]:
        # every case in its own process: no state carried between cases
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.alarm(60)
                data = json.dumps(run_case(mod, api, case, req.get("known", []))).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            out.append(json.loads(data.decode()))
        except ValueError:
            out.append({"status": "replay-error", "msg": "no answer", "observed": []})
    json.dump(out, real_out)
    real_out.flush()


if __name__ == "__main__":
    main()
