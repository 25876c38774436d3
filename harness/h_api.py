"""
Comparisons asked for from code instead of the command line.
"""

import json

from javatools import classdiff, distdiff, jardiff, unpack_classfile

from symx import sched

from .h_diff import blank, field, write


# the tools, and what of their options an API user may set:
# (attribute, value, how the command line says it)
GENERAL = (
    ("silent", True, "-q"),
    ("json", True, "--json"),
    ("show_ignored", True, "--show-ignored"),
    ("show_unchanged", True, "--show-unchanged"),
    ("json_indent", 4, "--json-indent=4"),
    ("ignore_version_up", True, "--ignore-version-up"),
    ("ignore_version_down", True, "--ignore-version-down"),
    ("ignore_platform_up", True, "--ignore-platform-up"),
    ("ignore_platform_down", True, "--ignore-platform-down"),
    ("ignore_absolute_lines", True, "--ignore-absolute-lines"),
    ("ignore_relative_lines", True, "--ignore-relative-lines"),
    ("ignore_deprecated", True, "--ignore-deprecated"),
    ("ignore_added", True, "--ignore-added"),
    ("ignore_pool", True, "--ignore-pool"),
    ("html_copy_data", "x", "--html-copy-data=x"),
    ("html_stylesheets", ["x"], "--html-stylesheet=x"),
    ("html_javascripts", ["x"], "--html-javascript=x"),
    ("report_dir", "x", "--report-dir=x"),
    ("reports", ["json"], "--report=json"),
    ("output", "x", "--output=x"),
)
JAR = GENERAL + (
    ("ignore_jar_entry", ["e"], "--ignore-jar-entry=e"),
    ("ignore_jar_signature", True, "--ignore-jar-signature"),
    ("ignore_manifest", True, "--ignore-manifest"),
    ("ignore_manifest_subsections", True,
     "--ignore-manifest-subsections"),
    ("ignore_manifest_key", ["Key"], "--ignore-manifest-key=Key"),
)
DIST = JAR + (
    ("processes", 3, "--processes=3"),
    ("shallow", True, "--shallow"),
    ("ignore_filenames", ["*.x"], "--ignore-filenames=*.x"),
    ("ignore_trailing_whitespace", True, "--ignore-trailing-whitespace"),
)
TOOLS = {
    "class": (classdiff, classdiff.default_classdiff_options, GENERAL,
              "classfile"),
    "jar": (jardiff, jardiff.default_jardiff_options, JAR, "jar"),
    "dist": (distdiff, distdiff.default_distdiff_options, DIST, "dist"),
}


def settings(options, sides):
    return dict([(k, v) for k, v in vars(options).items() if k != sides])


def defaults(c, tool, n):
    """ what is set, and nothing else, differs from the defaults """
    mod, fn, known, sides = TOOLS[tool]
    plain = settings(mod.create_optparser("x").parse_args(["l", "r"]),
                     sides)
    c.check(settings(fn(), sides) == plain, "the defaults of the command",
            key="defaults")
    c.check(settings(fn(c.choose("none", (None, {}))), sides) == plain,
            "the defaults of the command", key="defaults")
    some = []
    for i in range(n):
        x = c.choose("set%d" % i, known)
        c.assume(not any([x[0] == y[0] for y in some]))
        some.append(x)
    given = dict([(k, v) for k, v, _a in some])
    asked = settings(mod.create_optparser("x").parse_args(
        [a for _k, _v, a in some] + ["l", "r"]), sides)
    got = fn(given)
    c.check(settings(got, sides) == asked, "as if given to the command",
            key="updates")
    c.check(given == dict([(k, v) for k, v, _a in some]),
            "what was given stays", key="given")
    # what is done with one leaves others alone
    for v in vars(got).values():
        if isinstance(v, list) and not any([v is x for x in
                                            given.values()]):
            v.append("more")
    got.ignore_pool = "x"
    c.check(settings(fn(), sides) == plain, "each its own", key="own")
    c.cover("defaults")


def side(c, tag):
    s = blank()
    s["methods"] = []
    s["fields"] = [field(c.str(tag + "f", 1, ((97, 99),)), "I")]
    s["major"] = c.choose(tag + "major", (50, 51))
    return write(s, c.choose(tag + "layout", ("plain", "shift")))


def alike(c, a, b, sides, is_json):
    """ the same, but for what is told of the places """
    if not is_json or not a or not b:
        return c.eq(a, b)
    a, b = json.loads(a), json.loads(b)
    for x in (a, b):
        for k in (sides, "report_dir"):
            x["runtime_options"].pop(k, None)
    return c.eq(a, b)


def compared(c, tool, names):
    """ the same outcome and the same reports as of the command """
    mod, fn, known, sides_at = TOOLS[tool]
    fs = c.fs()
    paths = []
    for tag in "lr":
        d = side(c, tag)
        if tool == "class":
            paths.append(fs.put(tag + ".class", d))
        elif tool == "jar":
            paths.append(fs.zip(tag + ".jar", [("a/B.class", d),
                                               ("e", tag.encode("ascii"))]))
        else:
            fs.put(tag + "/a/B.class", d)
            fs.put(tag + "/e.x", tag.encode("ascii"))
            paths.append(fs.path(tag))
    on = [x for x in known if x[0] in names and
          c.choose(x[0], (False, True))]
    updates = dict([(k, v) for k, v, _a in on])
    args = [a for _k, _v, a in on]
    if tool == "dist":
        updates["processes"] = 0
        args.append("--processes=0")
    reports = "reports" in updates
    out = []
    for i in range(2):
        where = fs.path("out%d" % i)
        fs.mkdir("out%d" % i)
        if reports:
            updates["report_dir"] = where
        with sched.Patched(c, None, 0) as s:
            if i:
                out.append(c.output(mod.main, ["x"] + args + (
                    ["--report-dir=" + where] if reports else []) + paths))
            else:
                sides = paths
                if tool == "class":
                    sides = [unpack_classfile(p) for p in paths]
                run = {"class": classdiff.cli_classes_diff,
                       "jar": jardiff.cli_jars_diff,
                       "dist": distdiff.cli_dist_diff}[tool]
                out.append(c.output(run, fn(updates), *sides))
            s.finish()
    c.check(out[0][0] == out[1][0] and out[0][0] in (0, 1),
            "the same outcome", key="outcome")
    c.check(alike(c, out[0][1], out[1][1], sides_at, "json" in updates),
            "the same report", key="report")
    files = fs.tree("out0")
    c.check(files == fs.tree("out1"), "the same files", key="files")
    c.check(bool(files) == reports, "only if asked for", key="files")
    for f in files:
        a = fs.get("out0/" + f).decode("utf-8")
        b = fs.get("out1/" + f).decode("utf-8")
        c.check(alike(c, a, b, sides_at, f.endswith(".json")),
                "the same contents", key="files")
    c.cover("compared")


def cases_api(tier):
    out = []
    for t in ("class", "jar", "dist"):
        for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
            out.append({"name": "defaults/%s/%d" % (t, n),
                        "fn": "defaults", "weight": 9 ** n,
                        "params": {"tool": t, "n": n}})
        for names in (["ignore_pool", "ignore_version_up"],
                      ["json", "show_unchanged", "silent"],
                      ["reports", "ignore_version_down"],
                      ["json", "json_indent", "show_ignored"]):
            out.append({"name": "compared/%s/%s" % (t, "-".join(names)),
                        "fn": "compared", "weight": 20,
                        "params": {"tool": t, "names": names}})
    for t, names in (("jar", ["ignore_jar_entry", "ignore_pool"]),
                     ("dist", ["ignore_filenames", "ignore_pool"]),
                     ("dist", ["shallow", "ignore_filenames"])):
        out.append({"name": "compared/%s/%s" % (t, "-".join(names)),
                    "fn": "compared", "weight": 20,
                    "params": {"tool": t, "names": names}})
    return out


PROPS = {
    "P43": {
        "cases": cases_api, "covers": ("defaults", "compared"),
        "bounds": {"quick": "up to 2 settings of all there are; two classes, "
                            "alone, in jars or in distributions, with "
                            "unknown members and versions",
                   "thorough": "up to 3 settings"},
    },
}
