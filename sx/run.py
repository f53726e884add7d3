"""Check driver: explores every job of a property's harness symbolically,
replays witnesses and counterexamples on the real code, writes evidence."""
import argparse
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REPLAY_PY = os.environ.get("VERIF_REPLAY_PY", "/opt/venv/bin/python")
HARNESS = os.path.join(VERIF, "harness")
_REAL_PATH = (os.path.isfile, os.path.isdir)


class Replayer(object):
    def __init__(self, harness, known, cache):
        self.harness = harness
        self.known = known
        self.cache = cache
        self.s = 0.0

    def run(self, cases, timeout=300):
        if not cases:
            return []
        t0 = time.time()
        env = dict(os.environ)
        env["TTPCACHEFOLDER"] = self.cache
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONHASHSEED"] = "0"
        env.pop("PYTHONPATH", None)
        req = {"harness": self.harness, "repo": REPO, "known": self.known, "cases": cases}
        try:
            p = subprocess.run([REPLAY_PY, os.path.join(VERIF, "sx", "replay.py")], input=json.dumps(req).encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            self.s += time.time() - t0
            return [{"status": "replay-timeout", "msg": "", "observed": []} for _ in cases]
        self.s += time.time() - t0
        try:
            return json.loads(p.stdout.decode())
        except ValueError:
            return [{"status": "replay-error", "msg": p.stderr.decode()[-2000:], "observed": []} for _ in cases]


def worker(job):
    """explore one job in a forked child"""
    from . import core, symapi, values
    from .api import jsonable
    fn_name, params, limit, known, max_wit, stop_at, rep = job
    eng = core.ENG
    eng.reset_all()
    eng.on_reset = [global_state()]
    mod = sys.modules["__harness__"]
    fn = getattr(mod, fn_name)
    res = {"job": fn_name, "params": params, "witnesses": [], "candidates": [], "engine": [], "funcs": []}
    t = symapi.SymT(known)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    funcs = set()
    first = [True]

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(REPO):
                funcs.add("%s:%s" % (os.path.relpath(co.co_filename, REPO), co.co_qualname))

    def body():
        if first[0]:
            sys.setprofile(prof)
        try:
            fn(t, **params)
        except SystemExit as e:
            raise RuntimeError("SystemExit: %s" % e)
        finally:
            if first[0]:
                sys.setprofile(None)
                first[0] = eng.stats.paths < 3

    step = [1]

    def on_path(kind, payload):
        inputs = {}
        try:
            for k, v in eng.path_inputs.items():
                inputs[k] = values.model_value(v)
        except Exception as e:
            res["engine"].append("model extraction: %r" % e)
            return True
        case = {"fn": fn_name, "params": params, "inputs": inputs}
        if kind == "ok":
            if len(res["witnesses"]) < max_wit or eng.stats.paths % step[0] == 0:
                case["observed"] = [[l, jsonable(values.model_value(v))] for l, v in eng.observed]
                res["witnesses"].append(case)
                if len(res["witnesses"]) >= 2 * max_wit:
                    res["witnesses"] = res["witnesses"][::2]
                    step[0] *= 2
        elif kind in ("fail", "exc"):
            if kind == "exc":
                case["msg"] = "%s: %s" % (type(payload).__name__, str(payload)[:300])
                case["tb"] = "".join(traceback.format_exception(type(payload), payload, payload.__traceback__))[-3000:]
            else:
                case["msg"] = payload
            case["kind"] = kind
            res["candidates"].append(case)
            if len(res["candidates"]) >= stop_at:
                if any(n.alt for n in eng.trail):
                    eng.incomplete.append("stopped after %d counterexample candidates" % stop_at)
                return False
        elif kind == "engine":
            res["engine"].append("%s: %s" % (type(payload).__name__, payload))
            case["kind"] = "engine"
            case["observed"] = None
            res["witnesses"].append(case)
            if len(res["engine"]) > 50:
                eng.incomplete.append("too many engine errors")
                return False
        return True

    try:
        eng.explore(body, on_path, deadline=t0 + limit)
    except BaseException as e:
        res["engine"].append("explore: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2000:])
        eng.incomplete.append("engine failure")
    res["stats"] = eng.stats.as_dict()
    res["incomplete"] = eng.incomplete
    res["covered"] = dict(eng.covered)
    res["known_hit"] = sorted(t.known_hit)
    res["funcs"] = sorted(funcs)
    cases = res["candidates"] + res["witnesses"]
    res["outs"] = rep.run([{k: c[k] for k in ("fn", "params", "inputs")} for c in cases])
    res["wall"] = time.time() - t0
    return res


def load_harness_symbolic(path, modules):
    from . import rewrite, models
    import importlib
    import importlib.util
    hdir = os.path.dirname(path)
    pk = {"ttp": os.path.join(REPO, "ttp")}
    mods = {}
    for m in modules:
        spec = importlib.util.find_spec(m)
        mods[m] = spec.origin
    # shared harness helpers are instrumented as well
    for f in os.listdir(hdir):
        if f.endswith(".py"):
            mods[f[:-3]] = os.path.join(hdir, f)
    rewrite.install(pk, mods)
    for m in modules:
        importlib.import_module(m)
    name = os.path.basename(path)[:-3]
    m = importlib.import_module(name)
    sys.modules["__harness__"] = m
    if hasattr(m, "preload"):
        m.preload()
    return m


def global_state():
    """(container, snapshot) for module and class level containers of the
    instrumented modules: every path starts from the imported state"""
    from . import rewrite
    out = []
    seen = set()
    files = set(rewrite.INSTRUMENTED)
    simple = (str, int, float, bool, type(None), tuple, frozenset)
    mods = [m for m in list(sys.modules.values()) if getattr(m, "__file__", None) in files]

    def add(c):
        if id(c) in seen:
            return
        seen.add(id(c))
        if isinstance(c, dict):
            out.append((c, dict(c)))
            for v in list(c.values()):
                if isinstance(v, (dict, list, set)):
                    add(v)
        elif isinstance(c, list):
            out.append((c, list(c)))
        elif isinstance(c, set):
            out.append((c, set(c)))
    for m in mods:
        for k, v in list(m.__dict__.items()):
            if k.startswith("__"):
                continue
            if isinstance(v, (dict, list, set)):
                add(v)
            elif isinstance(v, type) and v.__module__ == m.__name__:
                for k2, v2 in list(v.__dict__.items()):
                    if not k2.startswith("__") and isinstance(v2, (dict, list, set)):
                        add(v2)
    scal = []
    for m in mods:
        scal.append((m.__dict__, {k: v for k, v in m.__dict__.items() if isinstance(v, simple) or callable(v) or isinstance(v, (dict, list, set))}))
    def reset():
        for c, snap in out:
            if isinstance(c, dict):
                dict.clear(c)
                dict.update(c, snap)
            elif isinstance(c, list):
                c[:] = snap
            else:
                c.clear()
                c.update(snap)
        for d, snap in scal:
            for k, v in snap.items():
                if d.get(k) is not v:
                    d[k] = v
    return reset


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            data = json.load(f)
    except IOError:
        return []
    return [e for e in data.get("findings", []) if e.get("property") == prop]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job", default=None, help="substring filter on job names (development)")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4)
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("--limit", type=float, default=None)
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    cache = tempfile.mkdtemp(prefix="ttpsx_")
    os.environ["TTPCACHEFOLDER"] = cache
    try:
        return run(a, seed, t0, cache)
    finally:
        shutil.rmtree(cache, ignore_errors=True)


def run(a, seed, t0, cache):
    prop = a.prop
    path = None
    for f in sorted(os.listdir(HARNESS)):
        if f.startswith(prop.lower() + "_") and f.endswith(".py"):
            path = os.path.join(HARNESS, f)
    if path is None:
        print("no harness for", prop)
        return 2
    sys.path.insert(0, REPO)
    known = [e["id"] for e in known_findings(prop)]
    src = open(path).read()
    mods = []
    for line in src.splitlines():
        if line.startswith("# instrument:"):
            mods = line.split(":", 1)[1].split()
    import logging
    logging.disable(logging.CRITICAL)
    mod = load_harness_symbolic(path, mods)
    jobs = mod.jobs(a.tier)
    if a.job:
        jobs = [j for j in jobs if a.job in j[0] or a.job in json.dumps(j[1])]
    budget = a.limit or (mod.BUDGET.get(a.tier) if hasattr(mod, "BUDGET") else None) or \
        (330 if a.tier == "quick" else 3000)
    max_wit = 20 if a.tier == "quick" else 300
    deadline = t0 + budget
    rep = Replayer(path, known, cache)
    results = []
    confirmed = []
    unconfirmed = []
    mismatches = []
    known_hit = set()
    validated = 0
    replay_assume = 0
    ctx = mp.get_context("fork")
    # hand out jobs; every job may use what is left of the budget
    pending = list(enumerate(jobs))
    running = {}
    nproc = 1 if a.serial else max(1, min(a.jobs, len(jobs)))
    samples = []
    stop = False

    def absorb(res):
        nonlocal validated, replay_assume, stop
        results.append(res)
        known_hit.update(res["known_hit"])
        cases = res["candidates"] + res["witnesses"]
        outs = res.get("outs", [])
        for c, o in zip(cases, outs):
            known_hit.update(o.get("known_hit", []))
            if o["status"] in ("fail", "exc"):
                confirmed.append((c, o))
            elif c.get("kind") in ("fail", "exc"):
                unconfirmed.append((c, o))
            elif o["status"] == "ok":
                if c.get("observed") is not None and c["observed"] != o["observed"]:
                    mismatches.append((c, o))
                elif c.get("kind") != "engine":
                    validated += 1
                    if len(samples) < 6:
                        samples.append({"job": c["fn"], "params": c["params"], "inputs": c["inputs"],
                                        "observed": o["observed"][:2]})
            else:
                mismatches.append((c, o))
        if a.v:
            st = res["stats"]
            print("  job %s %s: paths=%d aborted=%d forks=%d queries=%d solver=%.1fs wall=%.1fs checks=%d cand=%d%s%s" % (
                res["job"], json.dumps(res["params"])[:100], st["paths"], st["aborted"], st["forks"], st["queries"], st["solver_s"],
                res["wall"], st["checks"], len(res["candidates"]),
                " INCOMPLETE %s" % res["incomplete"][:2] if res["incomplete"] else "",
                " CONC %s" % st["concretised"] if st["concretised"] else ""))
            for e in res["engine"][:3]:
                print("     engine:", e)
            sys.stdout.flush()
        if confirmed:
            stop = True

    while (pending or running) and not stop:
        while pending and len(running) < nproc:
            i, j = pending.pop(0)
            left = max(5.0, deadline - time.time() - 5)
            r, w = ctx.Pipe(False)
            job = (j[0], j[1], min(left, (j[2] if len(j) > 2 else left)), known, max_wit, 4, rep)

            def child(w=w, job=job):
                try:
                    w.send(worker(job))
                except BaseException as e:
                    w.send({"job": job[0], "params": job[1], "witnesses": [], "candidates": [],
                            "engine": ["worker: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2000:]],
                            "stats": {}, "incomplete": ["worker failed"], "covered": {}, "known_hit": [], "funcs": [], "wall": 0})
                w.close()
            p = ctx.Process(target=child)
            p.start()
            w.close()
            running[p] = (r, j, time.time())
        ready = mp.connection.wait([v[0] for v in running.values()], timeout=1.0)
        for p in list(running):
            r, j, ts = running[p]
            if r in ready:
                try:
                    res = r.recv()
                except EOFError:
                    res = None
                p.join()
                del running[p]
                if res is None or not res.get("stats"):
                    from .core import Stats
                    base = {"job": j[0], "params": j[1], "witnesses": [], "candidates": [], "engine": ["worker died"],
                            "incomplete": ["worker died"], "covered": {}, "known_hit": [], "funcs": [], "wall": 0}
                    if res:
                        base.update({k: v for k, v in res.items() if v})
                    base["stats"] = Stats().as_dict()
                    res = base
                absorb(res)
            elif time.time() > deadline + 60:
                p.kill()
                p.join()
                del running[p]
                from .core import Stats
                absorb({"job": j[0], "params": j[1], "witnesses": [], "candidates": [], "engine": [],
                        "incomplete": ["killed at deadline"], "covered": {}, "known_hit": [], "funcs": [], "wall": 0,
                        "stats": Stats().as_dict()})
    for p in running:
        p.kill()
        p.join()

    return report(a, prop, seed, t0, mod, jobs, results, confirmed, unconfirmed, mismatches, validated,
                  samples, known_hit, rep, stop)


def report(a, prop, seed, t0, mod, jobs, results, confirmed, unconfirmed, mismatches, validated, samples,
           known_hit, rep, stopped):
    os.path.isfile, os.path.isdir = _REAL_PATH     # harnesses stub these
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
    conc = {}
    for r in results:
        for k, v in r["stats"].get("concretised", {}).items():
            conc[k] = conc.get(k, 0) + v
    incomplete = ["%s %s: %s" % (r["job"], json.dumps(r["params"])[:80], i) for r in results for i in r["incomplete"]]
    engine = ["%s: %s" % (r["job"], e) for r in results for e in r["engine"]]
    funcs = sorted(set(f for r in results for f in r["funcs"]))
    cover = {}
    for r in results:
        for k, v in r["covered"].items():
            cover[k] = cover.get(k, 0) + v
    want = list(getattr(mod, "COVERS", []))
    missing = [c for c in want if c not in cover] if not stopped else []
    exhaustive = not incomplete and not engine and not unconfirmed and not mismatches and not stopped and not missing
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("forks", 0),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no completed path"}],
            "exhaustive": bool(exhaustive),
            "explanation": "states = complete symbolic paths (one per feasible path condition within the bounds); "
                           "transitions = symbolic branch decisions; every branch alternative was put to z3; "
                           "traces_validated = path witnesses re-run on the unmodified code by the project interpreter "
                           "with identical observed results",
            "harness_jobs": len(jobs), "jobs_finished": len(results),
            "solver_queries": tot.get("queries", 0), "solver_sat": tot.get("sat", 0),
            "solver_unsat": tot.get("unsat", 0), "solver_unknown": tot.get("unknown", 0),
            "solver_s": round(tot.get("solver_s", 0.0), 2),
            "assertions": tot.get("checks", 0), "assertions_no_counterexample": tot.get("proved", 0),
            "branches_decided_by_character_domain": tot.get("dom_pruned", 0),
            "infeasible_or_assumed_away_paths": tot.get("aborted", 0),
            "functions_encoded": funcs,
            "reachability_witnesses": cover, "reachability_missing": missing,
            "concretisations": conc,
            "incomplete": incomplete[:40], "engine_limits_hit": engine[:20],
            "counterexamples_not_reproduced": [{"inputs": c["inputs"], "msg": c.get("msg"), "job": c["fn"],
                                                 "tb": c.get("tb", "")[-600:]} for c, o in unconfirmed[:5]],
            "encoding_mismatches": [{"inputs": c["inputs"], "job": c["fn"], "symbolic": c.get("observed"),
                                     "real": o.get("observed"), "status": o["status"]} for c, o in mismatches[:5]],
            "bounds": getattr(mod, "BOUNDS", {}).get(a.tier) or getattr(mod, "BOUNDS", {}).get("quick", ""),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "characters range over the engine's 115-character domain (printable ASCII, ASCII white space, U+001C, "
            "U+0085, U+00A0, U+00B2, U+00C9, U+00E9, U+0663, U+2028) unless the harness states a smaller alphabet",
            "z3, CPython 3.12's re parser/compiler (for character classes) and the models of builtins in /verif/sx are trusted; "
            "path witnesses are re-run on the real code to check them",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=False, default=str)
        f.write("\n")
    for e in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    print("%s %s: %d jobs, %d paths, %d branch decisions, %d solver queries (%.1fs), %d assertions, %d witnesses replayed, "
          "%.1fs wall, exhaustive=%s" % (prop, a.tier, len(results), tot.get("paths", 0), tot.get("forks", 0),
                                        tot.get("queries", 0), tot.get("solver_s", 0.0), tot.get("checks", 0), validated,
                                        time.time() - t0, exhaustive))
    for i in incomplete[:5]:
        print("INCONCLUSIVE:", i)
    for e in engine[:5]:
        print("ENGINE-LIMIT:", e[-600:])
    for c, o in unconfirmed[:3]:
        print("NOT-REPRODUCED:", c["fn"], json.dumps(c["params"])[:200], json.dumps(c["inputs"]), c.get("msg"), c.get("tb", "")[-1500:] if a.v else "", o["status"])
    for c, o in mismatches[:3]:
        print("ENCODING-MISMATCH:", c["fn"], json.dumps(c["params"])[:200], json.dumps(c["inputs"]), o["status"], o.get("msg"), "\n   sym ", c.get("observed"), "\n   real", o.get("observed"))
    if missing:
        print("UNREACHED:", missing)
    if confirmed:
        c, o = confirmed[0]
        rp = os.path.join(VERIF, "evidence", "replay_%s.json" % prop)
        with open(rp, "w") as f:
            json.dump({"property": prop, "harness": mod.__file__, "fn": c["fn"], "params": c["params"],
                       "inputs": c["inputs"], "result": o,
                       "how": "python3 /verif/sx/replay_one.py " + rp}, f, indent=1, default=str)
        print("counterexample: %s(%s) inputs=%s -> %s" % (c["fn"], json.dumps(c["params"])[:300], json.dumps(c["inputs"]), o["msg"][:800]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if tot.get("checks", 0) == 0 or (not validated):
        print("ERROR: no assertion reached / no witness validated: vacuous run")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
