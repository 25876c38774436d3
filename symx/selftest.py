"""
Compares what the symbolic execution makes of operations on unknown
arguments with what CPython gives: see harness/h_models.py.
"""

import multiprocessing
import sys
import time

from . import runner

MOD = "h_models"


def main(only=None, verbose=False):
    t0 = time.time()
    runner.install()
    sym, _real = runner.load(MOD)
    runner.snapshot()
    runner.monitor()
    cases = [c for c in sym.cases() if not only or only in c["name"]]
    opts = {"deadline": t0 + 300, "query_ms": 60000, "validate": 100000,
            "validate_s": 600.0}
    bad = paths = compared = 0
    mp = multiprocessing.get_context("fork")
    with mp.Pool(8, maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(runner.run_case,
                                     [(MOD, c, opts) for c in cases]):
            paths += r["stats"]["paths"]
            compared += r["validated"]
            if verbose:
                runner._report(r, True)
            if r["error"] and r["error"].startswith("unsupported"):
                print("selftest: %s is not modelled: %s" % (
                    r["case"], r["error"].splitlines()[0]))
            elif r["error"] or r["mismatch"] or r["violations"]:
                bad += 1
                print("selftest: %s: %s" % (r["case"], r["error"] or ""))
                for m in r["mismatch"][:4]:
                    print("   ", m["symbolic"], "but CPython", m["real"],
                          "for", m["inputs"])
                for v in r["violations"][:2]:
                    print("   ", v["msg"], v["inputs"], v["trace"])
            sys.stdout.flush()
    print("selftest: %d operations, %d paths, %d compared with CPython, "
          "%d differ, %.0fs" % (len(cases), paths, compared, bad,
                                time.time() - t0))
    return 1 if bad else 0
