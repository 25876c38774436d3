"""
Statements of the properties: archives and directories.
"""

PROPS = [
    dict(
        id="P26",
        title="Comparing two archives reports each entry once, as it is",
        statement="Comparing two zip archives reports every file entry of "
        "either exactly once: as only on the left, only on the right, "
        "differing, or the same, where two entries are the same exactly when "
        "their contents are, whatever their names, sizes, checksums and "
        "compression. The lists, the generator and the variants that open "
        "the archives by name all agree. Archives are told from other data "
        "without disturbing the stream they are read from.",
        over=["inputs"],
        text="two archives with unknown entry names and contents, colliding "
        "checksums, directory entries, repeated names, long entries",
        tests="the tests only compare archives of a few fixed files",
        files=["javatools/ziputils.py"],
        mech=[("comparison", "compare, compare_zips, _different"),
              ("lists", "collect_compare_into, collect_compare_zips_into"),
              ("detection", "is_zipstream, zip_file")],
        observe=["compare", "compare_zips", "collect_compare",
                 "is_zipstream"]),
    dict(
        id="P27",
        title="A directory stands in for an archive of the same files",
        statement="Opening a directory as if it were an archive gives the "
        "entries, sizes, checksums and contents that an archive of the "
        "directory would give, however deep its files are. Comparing the "
        "directory with such an archive, either way round, reports every "
        "file as the same, and files that were edited or dropped as such.",
        over=["inputs", "histories"],
        text="directory trees with unknown contents, links, empty "
        "directories, edits on either side",
        tests="the tests never open a directory as an archive with "
        "differing contents",
        files=["javatools/ziputils.py"],
        state=[("members", "what was found in the directory",
                "ExplodedZipFile.members")],
        mech=[("directories as archives", "ExplodedZipFile, zip_file"),
              ("checksums", "file_crc32")],
        observe=["zip_file", "ExplodedZipFile.infolist", "compare"]),
    dict(
        id="P28",
        title="Archive totals count every entry and every byte once",
        statement="The number of files and of directories and the compressed "
        "and uncompressed sizes that are told of an archive are the sums "
        "over all its entries. The report of the command line shows just "
        "those, with the compression they give, also for archives that are "
        "empty or hold no data.",
        over=["inputs"],
        text="archives of up to a few entries of unknown kinds and sizes",
        tests="the tests compute no totals",
        files=["javatools/ziputils.py", "javatools/jarinfo.py"],
        mech=[("totals", "zip_entry_rollup"),
              ("report", "cli_jar_zip_info")],
        observe=["zip_entry_rollup", "cli_jar_zip_info"]),
    dict(
        id="P29",
        title="Comparing two directory trees reports each file once, as it is",
        statement="Comparing two directory trees reports every file of "
        "either exactly once, by its path from the top: as only on the left, "
        "only on the right, differing or the same, where two files are the "
        "same exactly when their contents are, whatever their times and "
        "sizes. The generator and the lists agree.",
        over=["inputs"],
        text="two trees of files at various depths with unknown contents, "
        "sizes and times, files against directories",
        tests="the tests compare two fixed directories",
        files=["javatools/dirutils.py"],
        mech=[("comparison", "compare, _gen_from_dircmp"),
              ("lists", "collect_compare_into")],
        observe=["compare", "collect_compare"]),
    dict(
        id="P36",
        title="Name patterns match exactly what the shell's would",
        statement="A name matches a list of patterns exactly when all of it "
        "matches at least one of them: stars stand for any run of "
        "characters, question marks for any one, brackets for a set or its "
        "complement, and all else for itself, with regard to case. No "
        "pattern at all matches nothing.",
        over=["inputs"],
        text="names of unknown characters against a range of patterns",
        tests="the tests match no names",
        files=["javatools/dirutils.py"],
        mech=[("matching", "fnmatches")],
        observe=["fnmatches"]),
    dict(
        id="P37",
        title="Copies hold the whole tree, and what is opened gets closed",
        statement="Copying a directory tree leaves every file and directory "
        "of it under the destination with the same contents, lists what was "
        "copied, and harms neither the originals nor what the destination "
        "had. Making a directory that is there already is no error. A "
        "resource used within a closing block is closed exactly once, also "
        "when the block fails, and the failure gets through.",
        over=["inputs", "faults"],
        text="trees of unknown contents, existing destinations, failing "
        "blocks",
        tests="the tests copy nothing",
        files=["javatools/dirutils.py"],
        mech=[("copies", "copydir, makedirsp"),
              ("closing", "closing, ClosingContext")],
        observe=["copydir", "makedirsp", "closing"]),
]
