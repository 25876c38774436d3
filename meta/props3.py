"""
Statements of the properties: changes and class comparison.
"""

PROPS = [
    dict(
        id="P20",
        title="A group of changes is changed or ignored as its parts are",
        statement="For every tree of comparisons, a group counts as changed "
        "exactly when something within it changed, and as ignored exactly "
        "when it changed and each of its changed parts is ignored. Additions "
        "and removals always count as changes, and a single comparison does "
        "exactly when its two sides differ. Grouping the parts by kind loses, "
        "duplicates and reorders nothing within a kind.",
        over=["inputs", "histories"],
        text="trees of groups, additions, removals and comparisons with "
        "unknown data and unknown ignores",
        tests="the tests only see the trees of a few class files",
        files=["javatools/change.py"],
        state=[("children", "the sub-changes once collected",
                "SuperChange.changes")],
        mech=[("status", "SuperChange.check_impl, SuperChange.is_ignored"),
              ("grouping", "iterate_by_type, yield_sorted_by_type")],
        observe=["is_change", "is_ignored", "collect", "iterate_by_type"]),
    dict(
        id="P21",
        title="Reports show exactly the changes they were asked to show",
        statement="Text and JSON reports show a change exactly when it is a "
        "real change, or an ignored or an unchanged one that was asked for, "
        "and everything it is within is shown as well; what is shown tells "
        "its description and status. Reducing changes to summaries to save "
        "memory alters none of their status, description, kind or entry, nor "
        "the status of the group they are in. Text reports are plain ASCII "
        "whatever characters names hold.",
        over=["inputs"],
        text="trees of changes with unknown data and ignores, all report "
        "options, names of unknown characters",
        tests="reports are never compared by the tests",
        files=["javatools/change.py", "javatools/report.py"],
        mech=[("text report", "_indent_change, _indent"),
              ("JSON report", "SuperChange.simplify, JSONChangeEncoder"),
              ("summaries", "squash, SuperChange.squash_children")],
        observe=["TextReportFormat.run", "JSONReportFormat.run", "squash"]),
    dict(
        id="P22",
        title="A class never differs from itself, however its constants are laid out",
        statement="Comparing a class with another one that declares the same "
        "things reports no change but that of the layout of its constants, "
        "however many constants there are and whatever order they are in. "
        "Comparing a class file with itself reports no change at all and "
        "exits with status 0.",
        over=["inputs"],
        text="classes with every declarable part, unknown names, numbers, "
        "flags and constants, in several layouts of the constants",
        tests="the tests compare three pairs of compiled classes",
        files=["javatools/classdiff.py", "javatools/__init__.py"],
        mech=[("comparison", "JavaClassChange and the changes within"),
              ("constants", "JavaConstantPool.__eq__, JavaMemberInfo.__eq__")],
        observe=["JavaClassChange", "cli_classes_diff"]),
    dict(
        id="P23",
        title="Any difference in what a class declares is reported as that",
        statement="When exactly one declared thing of a class differs (name, "
        "parent, interfaces, access, version, signature, deprecation, "
        "annotations, a member's type, constant, exceptions, or its code's "
        "instructions, operands, limits, handlers or line numbers), the "
        "comparison reports a change, of that kind and of nothing else. The "
        "exit status is 1 then, and 0 when nothing differs.",
        over=["inputs"],
        text="two classes with one unknown element on each side",
        tests="the tests compare three pairs of compiled classes",
        files=["javatools/classdiff.py", "javatools/__init__.py"],
        mech=[("kinds of change", "the Change classes of classdiff"),
              ("code", "CodeBodyChange, CodeConstantsChange"),
              ("exit status", "cli_classes_diff")],
        observe=["JavaClassChange.collect", "cli_classes_diff"]),
    dict(
        id="P24",
        title="Ignore options of classdiff suppress what they name, no more",
        statement="The exit status of a class comparison is 0 exactly when "
        "every difference is one the given options ask to ignore: versions or "
        "platforms that went up or down, absolute or relative line numbers, "
        "deprecation, the constant pool. Asking by --ignore=LIST is the same "
        "as by the separate options.",
        over=["inputs", "configurations"],
        text="all combinations of the options, classes with up to four "
        "unknown differences",
        tests="the options are never tested",
        files=["javatools/classdiff.py", "javatools/change.py"],
        mech=[("decisions", "is_ignored_impl of the Change classes"),
              ("options", "classdiff_optgroup, _opt_cb_ign_*")],
        observe=["cli_classes_diff", "exit status"]),
    dict(
        id="P25",
        title="Each member of either class is matched, added or removed, once",
        statement="Comparing the members of two classes accounts for each "
        "field and method of either exactly once: matched with one of the "
        "same name (and arguments), or reported as added or removed when "
        "there is none left to match. A member with the very same type is "
        "preferred to another one.",
        over=["inputs"],
        text="members with unknown names and types on both sides",
        tests="no test holds overloads or members sharing a name",
        files=["javatools/classdiff.py"],
        mech=[("matching", "ClassMembersChange.collect_impl")],
        observe=["ClassFieldsChange.collect", "ClassMethodsChange.collect"]),
    dict(
        id="P35",
        title="Side by side views of constants and code lose and repeat nothing",
        statement="Putting the constants of two classes side by side lists "
        "every index of either once, with the constant each holds there or "
        "nothing past its end. Putting the code of two methods side by side "
        "shows each instruction of both exactly once, at its own line.",
        over=["inputs"],
        text="pools of up to 5 constants, code of up to 4 lines, with unknown "
        "values and line numbers",
        tests="these views are never tested",
        files=["javatools/classdiff.py"],
        mech=[("constants", "merge_constants, pretty_merge_constants"),
              ("code", "merge_code")],
        observe=["pretty_merge_constants", "merge_code"]),
]
