#!/usr/bin/env python3
"""
run.py check ID [--tier quick|thorough] [--only CASE] [-v] [--jobs N]
run.py replay FILE
run.py list
run.py selftest
"""

import argparse
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python"


def reexec():
    """ the interpreter with z3, a fixed hash seed, no bytecode files """
    env = dict(os.environ)
    want = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
            "TZ": "UTC"}
    same = all(env.get(k) == v for k, v in want.items())
    try:
        import z3       # noqa: F401
    except ImportError:
        same = False
    if same or env.get("SYMX_REEXEC"):
        return
    env.update(want)
    env["SYMX_REEXEC"] = "1"
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY] + sys.argv, env)


def main():
    reexec()
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(6000)
    from symx import runner
    runner.install()
    from harness import registry

    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("id")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--only")
    c.add_argument("-v", action="store_true")
    c.add_argument("--jobs", type=int)
    r = sub.add_parser("replay")
    r.add_argument("file")
    ls = sub.add_parser("list")
    ls.add_argument("--json", action="store_true")
    sub.add_parser("selftest")
    a = ap.parse_args()

    if a.cmd == "list" and a.json:
        out = {}
        for pid, spec in sorted(registry.load().items()):
            b = spec.get("bounds", "")
            if isinstance(b, dict):
                b = "quick: %s; thorough: %s" % (b["quick"], b["thorough"])
            out[pid] = "bounds: " + b + "".join(
                "; assuming " + x for x in spec.get("assumptions", ()))
        print(json.dumps(out))
        return 0
    if a.cmd == "list":
        for pid, spec in sorted(registry.load().items()):
            print(pid, spec["module"])
        return 0
    if a.cmd == "selftest":
        from symx import selftest
        return selftest.main()
    if a.cmd == "replay":
        with open(a.file) as fd:
            rec = json.load(fd)
        _sym, real = runner.load(rec["module"])
        st = runner.replay_real(getattr(real, rec["fn"]), rec["params"],
                                [tuple(x) for x in rec["inputs"]])
        print(st[0], st[1])
        return 1 if st[0] in ("fail", "error") else 0
    spec = registry.load()[a.id]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.check(a.id, a.tier, spec["module"], spec, seed, a.only,
                        a.v, a.jobs)


if __name__ == "__main__":
    sys.exit(main())
