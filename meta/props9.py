PROPS = [
    dict(
        id="P41",
        title="HTML reports are well-formed and tell the changes",
        statement="The pages of HTML reports on classes, archives and "
        "distributions are well-formed documents, whatever characters names "
        "and values hold, and show these as they are. They mark which parts "
        "changed and which did not, and tell the values of both sides where "
        "these differ and the one value where they agree: facts of classes "
        "and members, annotations, constants, and code by lines. Their links "
        "lead to the pages on the entries, back to the pages these belong "
        "to, and to the stylesheets and scripts asked for, wherever the "
        "reports are written.",
        over=["inputs"],
        text="classes whose names and values hold unknown characters, "
        "special ones among them; entries on one or both sides; places of "
        "reports and media",
        tests="the tests write no HTML reports",
        files=["javatools/report.py", "javatools/cheetah/__init__.py",
               "javatools/cheetah/report.tmpl",
               "javatools/cheetah/change_Change.tmpl",
               "javatools/classdiff.py"],
        mech=[("pages", "CheetahReportFormat.run_impl"),
              ("which template", "resolve_cheetah_template"),
              ("escapes", "xml_entity_escape"),
              ("references", "CheetahReportFormat._relative, setup"),
              ("links back", "Reporter.subreporter, "
               "get_relative_breadcrumbs")],
        observe=["classdiff.main", "jardiff.main", "distdiff.main"],
        note="The templates are compiled from their current sources as the "
        "build does, and the compiled code is executed symbolically. Pages "
        "are read by a strict reader within the check. Characters special "
        "in URLs (# ? %) are outside the bounds."),
    dict(
        id="P42",
        title="Reports on two classes tell what changed from what to what",
        statement="The report of a comparison of two classes, as text or as "
        "JSON, printed or written into a file, names each fact which changed "
        "and tells its old and its new value: of the class, of fields, of "
        "methods and of their code. Facts which agree are told as unchanged "
        "when they are asked for and not told otherwise. Changes which are "
        "ignored do not count in the exit status, and are told, and marked, "
        "only when they are asked for.",
        over=["inputs"],
        text="pairs of classes which differ in one fact of any kind, with "
        "unknown names and values; options",
        tests="the tests look at the changes, never at what reports tell "
        "of them",
        files=["javatools/classdiff.py", "javatools/change.py",
               "javatools/report.py"],
        mech=[("descriptions", "GenericChange.check_impl, fn_pretty_desc"),
              ("values", "fn_pretty of each change in classdiff"),
              ("data", "GenericChange.simplify"),
              ("text", "Change.write, _indent_change"),
              ("JSON", "JSONReportFormat.run_impl")],
        observe=["classdiff.main"]),
    dict(
        id="P43",
        title="Comparisons asked for from code act as the commands do",
        statement="The option objects made for use from code hold the "
        "defaults of the command and whatever was asked to be updated, as if "
        "it had been given on the command line, and each is independent of "
        "others. Comparing two classes, archives or distributions with such "
        "options has the same outcome, prints the same report and writes the "
        "same files as the command with these options.",
        over=["inputs", "configurations"],
        text="sets of up to three options of any kind; pairs of classes with "
        "unknown members, versions and layouts, alone, in jars or in "
        "distributions",
        tests="nothing in the tests makes or uses such options",
        files=["javatools/classdiff.py", "javatools/jardiff.py",
               "javatools/distdiff.py"],
        mech=[("defaults", "default_classdiff_options, "
               "default_jardiff_options, default_distdiff_options"),
              ("comparison", "cli_classes_diff, cli_jars_diff, "
               "cli_dist_diff")],
        observe=["default_classdiff_options", "default_jardiff_options",
                 "default_distdiff_options", "cli_classes_diff",
                 "cli_jars_diff", "cli_dist_diff"]),
]
