#!/usr/bin/env python3
"""
Writes properties.jsonl and MANIFEST.json from meta/ and the registry.
"""

import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def props():
    out = []
    d = os.path.join(HERE, "meta")
    for fn in sorted(os.listdir(d)):
        if fn.startswith("props") and fn.endswith(".py"):
            out.extend(importlib.import_module("meta." + fn[:-3]).PROPS)
    return out


def read(*names):
    with open(os.path.join(HERE, *names)) as fd:
        return fd.read()


def wrap(text, first="", rest=""):
    return textwrap.fill(text, 76, initial_indent=first,
                         subsequent_indent=rest, break_long_words=False,
                         break_on_hyphens=False)


def design(ps, claimed):
    """ DESIGN.md """

    from meta.design import HOW
    out = [read("meta", "design_head.md")]
    for p in ps:
        if p.get("na"):
            continue
        out.append("### %s: %s\n" % (p["id"], p["title"]))
        out.append(wrap(p["statement"]) + "\n")
        out.append(wrap("*Decided by.* " + HOW[p["id"]]) + "\n")
        out.append(wrap("*Within.* " + claimed[p["id"]].replace(
            "bounds: ", "", 1) + ".") + "\n")
        if p.get("note"):
            out.append(wrap("*Note.* " + p["note"]) + "\n")
        out.append(wrap("*Beyond the tests.* " + p["tests"][0].upper()
                        + p["tests"][1:] + ".") + "\n")
    tail = read("meta", "design_tail.md")
    fixed = [x.split("property=", 1)[1] for x in
             json.loads(read("known-findings.json"))["fixed"]]
    tail = tail.replace("@FIXED@", "\n".join(
        wrap(x, "- ", "  ") for x in fixed))
    seeds = []
    d = os.path.join(HERE, "seeded")
    for name in sorted(os.listdir(d)):
        m = json.loads(read("seeded", name, "meta.json"))
        seeds.append(wrap("%s: caught by %s. Needs %s; %s." % (
            name, m["property"], m["needs"], m["what_it_breaks"]),
            "- ", "  "))
    tail = tail.replace("@SEEDS@", "\n".join(seeds))
    tail = tail.replace("@NA@", "\n".join(
        wrap("%s (%s): %s" % (p["id"], p["title"], p["na"]), "- ", "  ")
        for p in ps if p.get("na")) or "Nothing.")
    tail = tail.replace("@MISSES@\n", "")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fd:
        fd.write("\n".join(out) + "\n" + tail)


def main():
    from harness_ids import ids
    claimed = ids()
    ps = props()
    assert len(set(p["id"] for p in ps)) == len(ps)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
        for p in ps:
            assert len(p["title"]) <= 80, p["title"]
            rec = {
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["tests"],
                "anchors": {
                    "files": p["files"],
                    "state": [{"name": a, "meaning": b, "where": w}
                              for a, b, w in p.get("state", ())],
                    "mechanism": [{"name": a, "where": w}
                                  for a, w in p["mech"]],
                    "observe_at": p["observe"],
                    "hook_needed": None},
            }
            fd.write(json.dumps(rec) + "\n")
    checks, na = [], []
    for p in ps:
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        if p["id"] not in claimed:
            print("not yet built:", p["id"])
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 run.py check %s --tier quick" % p["id"],
            "thorough_cmd": "python3 run.py check %s --tier thorough"
            % p["id"],
            "level": "model_checking",
            "technique": "solver-based symbolic execution of the real Python "
                         "sources (AST-instrumented on every run) with Z3; "
                         "every path's assertions decided over all values "
                         "within the bounds, counterexamples replayed on "
                         "the real package",
            "level_note": p.get("note") or claimed[p["id"]],
        })
    missing = set(claimed) - set(p["id"] for p in ps)
    assert not missing, missing
    man = {"version": 1, "setup_cmd": "python3 run.py selftest",
           "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
        json.dump(man, fd, indent=1)
        fd.write("\n")
    design(ps, claimed)
    print(len(ps), "properties", len(checks), "checks", len(na), "n/a")


if __name__ == "__main__":
    main()
