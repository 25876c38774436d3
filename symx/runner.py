"""
Drives the cases of one property: exploration in worker processes, replay
of counterexamples and of path witnesses on the real package, evidence.
"""

import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import core, ctx as C, instrument, values as V, models as M
from . import m_json    # noqa: F401
from . import vfs
from .core import CheckFailed, EngineError, OutOfBudget, Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

FINDER = None
STATE = None
FUNCS = {}


def setup_paths():
    # third-party packages the code under test imports (six, Cheetah,
    # M2Crypto) live in the project's own virtual environment
    for p in ("/opt/venv/lib/python3.12/site-packages",):
        if os.path.isdir(p) and p not in sys.path:
            sys.path.append(p)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if HERE not in sys.path:
        sys.path.insert(0, HERE)


def install():
    """ the finder that serves the instrumented twins """
    global FINDER
    if FINDER is not None:
        return
    setup_paths()
    import filecmp
    FINDER = instrument.Finder(
        {"symjavatools": os.path.join(REPO, "javatools"),
         "symharness": os.path.join(HERE, "harness"),
         "symstd_filecmp": filecmp.__file__,
         "symvfs": os.path.join(HERE, "symx", "vfs_src.py")},
        {"javatools": "symjavatools", "harness": "symharness",
         "filecmp": "symstd_filecmp"})
    sys.meta_path.insert(0, FINDER)
    vfs.install()
    vfs.load()


def load(modname):
    """ (instrumented, plain) twins of a harness module """
    install()
    real = importlib.import_module("harness." + modname)
    sym = importlib.import_module("symharness." + modname)
    if getattr(real, "TEMPLATES", False):
        from . import cheetah
        cheetah.prepare(FINDER, REPO)
    return sym, real


def snapshot():
    global STATE
    mods = [m for m, _p, _s in FINDER.loaded.values()]
    STATE = instrument.State(mods)


def monitor():
    """ note which instrumented functions get executed """
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return
    root = os.path.join(REPO, "javatools") + os.sep

    def start(code, _off):
        fn = code.co_filename
        if fn.startswith(root) and code.co_name[0] != "<":
            FUNCS[(fn[len(root):], code.co_qualname)] = 1
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def replay_real(fn, params, inputs):
    """ run a harness over the real package.  Returns (status, detail,
    observed) """

    c = C.ConcCtx(inputs)
    try:
        fn(c, **params)
    except C.ReplayAbort as ra:
        return "abort", str(ra), c.observed
    except CheckFailed as cf:
        return "fail", cf.msg, c.observed
    except (Exception, SystemExit) as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        at = tb[-1]
        return "error", "%s: %s (%s:%d)" % (
            type(ex).__name__, str(ex)[:200],
            os.path.basename(at.filename), at.lineno), c.observed
    finally:
        c.cleanup()
    return "ok", None, c.observed


def _same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(map(_same, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(
            k in b and _same(v, b[k]) for k, v in a.items())
    return a == b


def run_case(job):
    """ explore one case.  Returns a plain dict """

    modname, case, opts = job
    t0 = time.time()
    sym, real = load(modname)
    fn = getattr(sym, case["fn"])
    rfn = getattr(real, case["fn"])
    params = case.get("params", {})
    if STATE is None:
        snapshot()
        monitor()

    eng = core.Engine(timeout_ms=opts.get("query_ms", 60000),
                      deadline=opts.get("deadline"),
                      max_paths=case.get("max_paths"))
    res = {"case": case["name"], "violations": [], "mismatch": [],
           "validated": 0, "samples": [], "error": None, "complete": False,
           "concretized": []}
    conc = set()
    want = opts.get("validate", 60)
    vbudget = opts.get("validate_s", 20.0)
    vspent = [0.0]

    def run():
        STATE.restore()
        fn(C.SymCtx(eng), **params)

    def on_path(e, outcome):
        conc.update(e.extra.get("concretized", ()))
        n = e.stats["paths"]
        inputs = None
        if outcome is not None:
            inputs = [(k, C.enc(V.model_value(v, e))) for k, v in e.inputs]
            status, detail, _o = replay_real(rfn, params, inputs)
            if isinstance(outcome, CheckFailed):
                msg, key = outcome.msg, outcome.key
                tb = None
            else:
                msg = "uncaught %s: %s" % (type(outcome).__name__,
                                           str(outcome)[:300])
                key = "uncaught " + type(outcome).__name__
                tb = "".join(traceback.format_exception(outcome)[-6:])
            res["violations"].append({
                "case": case["name"], "fn": case["fn"], "params": params,
                "inputs": inputs, "msg": msg, "key": key, "trace": tb,
                "replayed": status in ("fail", "error"),
                "real": [status, detail]})
            keys = set(v["key"] for v in res["violations"])
            good = sum(1 for v in res["violations"] if v["replayed"])
            return not (good >= 4 or len(res["violations"]) >= 40 or
                        len(keys) >= 6)
        if (res["validated"] < want or n % 50 == 0) and \
                vspent[0] < vbudget:
            t = time.time()
            inputs = [(k, C.enc(V.model_value(v, e))) for k, v in e.inputs]
            obs = [(k, V.model_value(v, e)) for k, v in e.observed]
            status, detail, robs = replay_real(rfn, params, inputs)
            vspent[0] += time.time() - t
            res["validated"] += 1
            if len(res["samples"]) < 2:
                res["samples"].append({"case": case["name"],
                                       "inputs": _short(inputs)})
            if status in ("fail", "error"):
                res["violations"].append({
                    "case": case["name"], "fn": case["fn"],
                    "params": params, "inputs": inputs,
                    "msg": "on the witness of a symbolic path: %s" % detail,
                    "key": "witness", "trace": None, "replayed": True,
                    "real": [status, detail]})
                return len(res["violations"]) < 4
            if status == "abort" or not _same(obs, robs):
                res["mismatch"].append({
                    "case": case["name"], "inputs": inputs,
                    "symbolic": repr(obs)[:800], "real": repr(robs)[:800],
                    "detail": detail})
        return True

    try:
        res["complete"] = bool(eng.explore(run, on_path))
    except OutOfBudget:
        res["error"] = "out of time"
    except Unsupported as u:
        res["error"] = "unsupported: %s\n%s" % (
            u, "".join(traceback.format_exception(u)[-4:]))
    except (EngineError, core.PathAbort) as u:
        res["error"] = "engine: %s" % u
    except Exception as ex:     # pylint: disable=broad-except
        res["error"] = "engine: " + traceback.format_exc()[-1500:]
    res["stats"] = eng.stats
    res["incomplete"] = eng.incomplete
    res["covers"] = eng.covers
    res["concretized"] = sorted(conc)
    res["wall"] = time.time() - t0
    res["funcs"] = sorted("%s:%s" % k for k in FUNCS)
    return res


def _short(inputs):
    out = {}
    for k, v in inputs:
        s = v if not isinstance(v, dict) else C.dec(v)
        s = repr(s) if isinstance(s, bytes) else s
        if isinstance(s, str) and len(s) > 120:
            s = s[:120] + "..."
        out[k] = s
    return out


def known_findings():
    fn = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as fd:
        return json.load(fd).get("findings", [])


def check(pid, tier, modname, spec, seed=1, only=None, verbose=False,
          jobs=None):
    """ returns the exit status """

    t0 = time.time()
    budget = spec.get("budget", {}).get(tier, 780 if tier == "quick"
                                        else 5400)
    deadline = t0 + budget
    install()
    load(modname)
    snapshot()
    monitor()

    cases = spec["cases"](tier)
    if only:
        cases = [c for c in cases if only in c["name"]]
    cases.sort(key=lambda c: -c.get("weight", 1))
    opts = {"deadline": deadline, "query_ms": 120000,
            "validate": 40 if tier == "quick" else 150,
            "validate_s": 10.0 if tier == "quick" else 60.0}

    work = [(modname, c, opts) for c in cases]
    results = []
    n = min(jobs or 8, len(work))
    if n <= 1:
        for w in work:
            results.append(run_case(w))
            _report(results[-1], verbose)
    else:
        mp = multiprocessing.get_context("fork")
        with mp.Pool(n, maxtasksperchild=8) as pool:
            for r in pool.imap_unordered(run_case, work, chunksize=1):
                results.append(r)
                _report(r, verbose)

    return conclude(pid, tier, spec, seed, results, cases, t0, only)


def _report(r, verbose):
    if not verbose:
        return
    st = r["stats"]
    print("  %-48s paths=%-5d q=%-6d solver=%.1fs wall=%.1fs val=%d%s%s"
          % (r["case"], st["paths"], st["queries"], st["solver_s"],
             r["wall"], r["validated"],
             " INC %s" % r["incomplete"] if r["incomplete"] else "",
             " ERR %s" % r["error"] if r["error"] else ""))
    for m in r["mismatch"][:3]:
        print("    MISMATCH", m["detail"], m["symbolic"], "|", m["real"],
              m["inputs"])
    sys.stdout.flush()


def conclude(pid, tier, spec, seed, results, cases, t0, only):
    violations = []
    unconfirmed = []
    errors = []
    mismatches = []
    stats = {}
    covers = {}
    incomplete = {}
    funcs = set()
    samples = []
    validated = 0
    concretized = set()
    for r in results:
        for v in r["violations"]:
            (violations if v["replayed"] else unconfirmed).append(v)
        if r["error"]:
            errors.append((r["case"], r["error"]))
        mismatches.extend(r["mismatch"])
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r["covers"].items():
            covers[k] = covers.get(k, 0) + v
        for k, v in r["incomplete"].items():
            incomplete[k] = incomplete.get(k, 0) + v
        funcs.update(r["funcs"])
        samples.extend(r["samples"])
        validated += r["validated"]
        concretized.update(r["concretized"])

    known = [k for k in known_findings() if k.get("property") == pid]
    listed = []
    fresh = []
    for v in violations:
        hit = None
        for k in known:
            if k.get("key") == v["key"] and (
                    not k.get("case") or v["case"].startswith(k["case"])):
                hit = k
        if hit:
            listed.append((hit, v))
        else:
            fresh.append(v)

    need = [c for c in spec.get("covers", ()) if not covers.get(c)]
    if only:
        need = []

    status = 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    shown = set()
    for v in fresh:
        blob = json.dumps([v["case"], v["key"]], sort_keys=True)
        if blob in shown:
            continue
        shown.add(blob)
        h = hashlib.sha1(json.dumps(
            [v["case"], v["inputs"]], sort_keys=True,
            default=str).encode()).hexdigest()[:12]
        path = os.path.join(HERE, "replays", "%s-%s.json" % (pid, h))
        rec = {"property": pid, "case": v["case"], "fn": v["fn"],
               "module": spec["module"], "params": v["params"],
               "inputs": v["inputs"], "msg": v["msg"], "real": v["real"]}
        try:
            with open(path, "w") as fd:
                json.dump(rec, fd, indent=1)
        except (TypeError, OSError):
            pass
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  case %s: %s" % (v["case"], v["msg"]))
        print("  real code: %s %s" % tuple(v["real"]))
        print("  inputs: %s" % json.dumps(_short(v["inputs"]))[:800])
        if v["trace"]:
            print("  " + v["trace"].strip().replace("\n", "\n  "))
        status = 1
        if len(shown) >= 5:
            break
    for k in known:
        if any(h is k for h, _v in listed):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    if status == 0:
        for v in unconfirmed[:5]:
            print("UNCONFIRMED property=%s case %s: %s -- real code: %s"
                  % (pid, v["case"], v["msg"], v["real"]))
            print("  inputs: %s" % json.dumps(_short(v["inputs"]))[:1500])
            if v["trace"]:
                print("  " + v["trace"].strip().replace("\n", "\n  "))
            status = 2
        for c, e in errors[:5]:
            print("INCONCLUSIVE property=%s case %s: %s" % (pid, c, e))
            status = 2
        if need:
            print("VACUOUS property=%s not reached: %s" % (pid, need))
            status = 2
    for m in mismatches[:3]:
        print("ENCODING-MISMATCH property=%s case %s %s\n  sym  %s\n  real %s"
              % (pid, m["case"], m["detail"], m["symbolic"], m["real"]))

    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": stats.get("paths", 0),
            "transitions": stats.get("decisions", 0) +
            stats.get("values", 0),
            "traces_validated_against_impl": validated,
            "samples": samples[:6] or [{"note": "no completed path"}],
            "cases": len(results),
            "cases_exhausted": sum(1 for r in results if r["complete"]
                                   and not r["incomplete"]
                                   and not r["error"]),
            "exhaustive_within_bounds": bool(
                all(r["complete"] for r in results) and not incomplete
                and not errors),
            "bounds": spec.get("bounds", {}).get(tier) if isinstance(
                spec.get("bounds"), dict) else spec.get("bounds", ""),
            "functions_encoded": sorted(funcs),
            "solver": "z3 %s" % V.z3.get_version_string(),
            "queries": stats.get("queries", 0),
            "queries_sat": stats.get("sat", 0),
            "queries_unsat": stats.get("unsat", 0),
            "queries_unknown": stats.get("unknown", 0),
            "assertion_queries": stats.get("check_queries", 0),
            "assertions_evaluated": stats.get("checks", 0),
            "solver_s": round(stats.get("solver_s", 0.0), 3),
            "paths_cut_by_assumptions": stats.get("aborted", 0),
            "incomplete": incomplete,
            "concretized_calls": sorted(concretized),
            "encoding_mismatches": len(mismatches),
            "reachability_witnesses": covers,
        },
        "assumptions": list(spec.get("assumptions", ())),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fd:
            json.dump(ev, fd, indent=1, sort_keys=True)
            fd.write("\n")
    print("%s %s: %d cases, %d paths, %d queries (%.1fs solver), %d "
          "witnesses replayed, %.1fs%s%s -> exit %d"
          % (pid, tier, len(results), stats.get("paths", 0),
             stats.get("queries", 0), stats.get("solver_s", 0.0), validated,
             wall, " INCOMPLETE %s" % incomplete if incomplete else "",
             " MISMATCHES %d" % len(mismatches) if mismatches else "",
             status))
    return status
