"""
Statements of the properties: comparison of archives and distributions.
"""

PROPS = [
    dict(
        id="P30",
        title="Archives compare as their entries, manifests and classes do",
        statement="Two archives, zipped or exploded, count as changed just "
        "when an entry was added, removed or altered, a class differs, or "
        "the manifest or a signature file differs, leaving aside what the "
        "ignore options cover and nothing else. Each such entry is reported, "
        "under its own name and kind, and reports of classes go into files "
        "of their own when asked for.",
        over=["inputs"],
        text="archives with unknown contents of entries, manifests, classes "
        "and unknown presence of each entry on both sides",
        tests="the tests compare three fixed jars and look at the exit "
        "status",
        files=["javatools/jardiff.py", "javatools/manifest.py",
               "javatools/ziputils.py"],
        mech=[("entries", "JarContentsChange.collect_impl"),
              ("ignoring", "is_ignored of the JarContentChange classes"),
              ("reports", "JarReport, JarContentsReport")],
        observe=["jardiff.main"]),
    dict(
        id="P39",
        title="Report files of archives and distributions tell what was found",
        statement="Comparing archives or distributions with reports in files "
        "gives the exit status and output of a comparison without. The text "
        "and the JSON report of the whole, and those of each class, and of "
        "each archive in a distribution, that differs, in a directory named "
        "after it, are all written and no other; they tell just the changes "
        "that are not ignored.",
        over=["inputs"],
        text="archives and distributions with unknown contents and presence "
        "of entries of all kinds",
        tests="no test looks at the output",
        files=["javatools/jardiff.py", "javatools/distdiff.py",
               "javatools/report.py", "javatools/change.py"],
        mech=[("exit status", "cli_jars_diff"),
              ("output", "quick_report")],
        observe=["jardiff.main"]),
    dict(
        id="P31",
        title="Distributions compare as the files in them do",
        statement="Two distributions count as changed just when a file was "
        "added, removed or altered, where classes, archives, manifests and "
        "text files differ as their own comparison says, other files as "
        "their bytes do, apart from what is ignored by name or kind. Each "
        "change is reported under its name, with --shallow without looking "
        "into classes and archives.",
        over=["inputs"],
        text="distributions with files of every kind in nested directories, "
        "with unknown contents and presence on both sides",
        tests="two tests on fixed directories look at the exit status",
        files=["javatools/distdiff.py", "javatools/dirutils.py"],
        mech=[("kinds of files", "DistChange.collect_impl"),
              ("texts", "DistTextChange"), ("other", "DistContentChange"),
              ("archives, classes", "DistJarChange, DistClassChange"),
              ("manifests", "DistManifestChange")],
        observe=["distdiff.main"]),
    dict(
        id="P32",
        title="Comparing with several processes gives what one gives",
        statement="Comparing distributions with any number of processes "
        "comes to an end and gives the exit status, output and report files "
        "that a comparison by a single process does, in whatever order the "
        "processes run and their results arrive, and fails when that fails.",
        over=["schedules", "inputs"],
        text="numbers of processes and sub-reports, kinds of files, orders "
        "of all steps on queues and of directories being made",
        tests="no test uses more than one process",
        files=["javatools/distdiff.py", "javatools/change.py",
               "javatools/report.py"],
        mech=[("distribution of work", "DistReport.mp_check_impl"),
              ("processes", "_mp_run_check"),
              ("directories", "Reporter.subreporter, makedirs"),
              ("results", "squash, SquashedChange")],
        observe=["distdiff.main"],
        note="Processes and queues are a model: each process has copies of "
        "what it gets, items of one process arrive in order, processes can "
        "be preempted where they take from queues and before they make "
        "directories."),
]
