"""
Statements of the properties: reports of classes.
"""

PROPS = [
    dict(
        id="P34",
        title="Class reports show what was asked for, as the class has it",
        statement="The text report of a class shows its header and exactly "
        "the members that the visibility option admits: public ones, public "
        "and protected ones, or all. Each option adds its own details, "
        "complete and in order, with the values in the class file: versions, "
        "signatures, annotations, constants, instructions, exception, line "
        "and variable tables. Asking for everything equals asking for each.",
        over=["inputs"],
        text="classes with unknown names, flags, numbers, tables of up to a "
        "few rows, all display options and several classes at once",
        tests="the tests run the command and look at no output",
        files=["javatools/classinfo.py", "javatools/__init__.py"],
        mech=[("visibility", "should_show"),
              ("text", "cli_print_classinfo, print_field, print_method"),
              ("options", "cli, add_classinfo_optgroup")],
        observe=["classinfo.main"]),
    dict(
        id="P38",
        title="The JSON report of a class tells what the class has",
        statement="The JSON report of a class is valid JSON that holds its "
        "name, parents, source file, version, platform, signature and "
        "enclosing method, and of exactly the members the visibility option "
        "admits their names, types, flags, signatures and constants, all as "
        "the class has them; the constants when asked for.",
        over=["inputs"],
        text="classes with unknown names, flags, numbers and attributes, "
        "all visibility options",
        tests="no test asks for JSON of a class",
        files=["javatools/classinfo.py"],
        mech=[("JSON", "cli_simplify_classinfo, cli_simplify_field, "
               "cli_simplify_method, cli_json_class")],
        observe=["classinfo.main"]),
]
