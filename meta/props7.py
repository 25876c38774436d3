"""
Statements of the properties: contents of archives and distributions.
"""

PROPS = [
    dict(
        id="P33",
        title="Archive information is that of all the classes within",
        statement="An archive provides what its classes provide, and needs "
        "what they refer to and no class of it has, private members "
        "included; each name comes with every entry it is from. The "
        "information command tells just that less what is to be left out, "
        "the numbers and sizes of entries, the manifest if there is one, "
        "and each class, as text or JSON, zipped or exploded.",
        over=["inputs", "histories"],
        text="archives of classes with unknown members, access and "
        "references to one another; orders of asking; patterns to ignore",
        tests="the tests run the command on one jar",
        files=["javatools/jarinfo.py", "javatools/ziputils.py"],
        mech=[("what it provides and needs",
               "JarInfo._collect_requires_provides"),
              ("totals", "zip_entry_rollup"),
              ("output", "cli_jarinfo, cli_jarinfo_json")],
        observe=["JarInfo", "jarinfo.main"]),
    dict(
        id="P40",
        title="Distribution information is that of all the files within",
        statement="A distribution, a directory or an archive of one, "
        "provides what its loose classes and its archives provide, and "
        "needs what these refer to and nothing in it provides; each name "
        "comes with every file it is from, less what is to be left out. "
        "Asking leaves no temporary files behind once closed, and works "
        "after that as well.",
        over=["inputs", "histories"],
        text="distributions of loose classes and of archives with unknown "
        "members, access and references to one another, zipped or not",
        tests="the tests run the command on one directory",
        files=["javatools/distinfo.py", "javatools/jarinfo.py"],
        mech=[("what it provides and needs",
               "DistInfo._collect_requires_provides"),
              ("zipped ones", "DistInfo._working_path, close"),
              ("output", "cli_distinfo, cli_distinfo_json")],
        observe=["DistInfo", "distinfo.main"],
        note="Members that are not public, of a class in another archive "
        "of the same distribution, may or may not be told as needed."),
]
