"""
How each property is decided: what is unknown, what it is compared with.
"""

HOW = {
    "P01": "Histories of up to three operations (unpack, read, "
    "unpack_array, unpack_struct_array, unpack_objects, offset moves, "
    "close) over a run of unknown bytes, from every kind of source. "
    "Oracle: big-endian integers cut from the bytes at the position where "
    "the previous operation ended; a shortage must raise UnpackException "
    "with the two counts, and a read after it, too.",
    "P02": "The bytes of a pool are built from unknown entry contents, "
    "decoded by JavaConstantPool.unpack and compared slot by slot with the "
    "values they were built from. The tag of an entry is also left unknown "
    "(all 256 values: accepted or refused), texts hold unknown code points "
    "in Java's modified UTF-8 and the pool is cut at every position.",
    "P03": "One pool with a constant of every kind in three layouts (also "
    "with forward references), unknown names and numbers; deref_const, "
    "pretty_const and pretty_constants against what was put in.",
    "P04": "Class files with unknown names, flags, versions and attribute "
    "bytes, and given numbers of parts; every accessor of the structure "
    "against the parts. The same bytes cut at every position must raise "
    "the unpack error, and every magic number but 0xCAFEBABE is refused.",
    "P05": "Each attribute kind (alone, in groups, repeated, absent) with "
    "unknown numbers and names, against the rows it was built from.",
    "P06": "Trees of annotation values of unknown leaves; decoding against "
    "the tree, equality of two annotations from two pools against "
    "equality of the trees they mean. Unknown tags must be refused.",
    "P07": "The operand bytes and the opcode itself are unknown; a decoder "
    "written from the JVM specification as a table of operand shapes "
    "gives the expected instructions. tableswitch and lookupswitch with "
    "unknown headers and padding, wide, and pairs of instructions.",
    "P08": "Descriptors grown from a grammar with unknown names and any "
    "primitive, paired with their displayed form. Lookups by name and "
    "arguments among methods with unknown names, identifiers compared "
    "pairwise: equal just when name, arguments (and the return type of "
    "bridges) are.",
    "P09": "The 16-bit flag word is one unknown: every is_* predicate "
    "against its bit of the JVM specification, and the words that get "
    "displayed; every major and minor version against the table.",
    "P10": "Line tables with unknown offsets and lines over one-byte "
    "instructions. Oracle: the line of an offset is that of the last row at "
    "or before it; blocks by line must partition the code in order.",
    "P11": "Classes with members of unknown access and references of "
    "unknown targets (themselves included); provided and required names "
    "against sets computed from the specification, asked repeatedly and "
    "with ignore patterns in any order.",
    "P12": "write followed by parse, over unknown characters of all of "
    "Unicode placed at every offset around the 72 byte limit, every "
    "separator, and unknown sections and keys.",
    "P13": "The stored bytes split into physical lines by the check's own "
    "reader: at most 72 bytes each, one canonical separator, unfolding to "
    "exactly the attributes, and independent of the order of creation.",
    "P14": "Unknown bytes within 19 contexts, parsed by the code and by a "
    "plain reference parser of the JAR specification: same sections or "
    "both refuse.",
    "P15": "Archives with unknown contents and manifests in which every "
    "digest is right, wrong, absent or of another entry; the verdicts of "
    "the checksum verification, strict and not, against what was put in.",
    "P16": "Names of unknown characters within contexts such as "
    "META-INF/ and SIG-; the decision whether an entry takes part in "
    "signing against the JAR specification.",
    "P17": "A signature file is made for a manifest with unknown sections; "
    "it must vouch for it, in memory and when both are written and read "
    "back. One change of every kind (values, sections added, removed or "
    "renamed, digests) must be noticed and located; every combination of "
    "right, wrong and absent digests gives the documented verdict.",
    "P18": "Archives with unknown contents are signed and verified, "
    "altered in one of all the ways that matter (contents, manifest, "
    "signature file, block, added and removed entries), signed again by "
    "the same or another key, with every option. Everything up to the "
    "signature primitive is executed.",
    "P19": "The manifest command (create, query, verify) and jarutil's "
    "creation, over directories and archives of unknown contents with "
    "their options; the output against what the files are.",
    "P20": "Trees of changes with unknown data and unknown ignores; every "
    "node's change and ignored state against its leaves.",
    "P21": "Trees of changes printed with every combination of the report "
    "options; the lines and the JSON against the nodes that are to be "
    "shown. Names have unknown characters; squash must keep the verdict.",
    "P22": "One class with everything unknown is laid out twice, with "
    "different numbering of its constants: nothing may differ.",
    "P23": "Two classes with one element unknown on both sides: the "
    "comparison must find a difference exactly when they differ, and its "
    "leaf must be of the kind that names the element, with both values.",
    "P24": "Up to three unknown differences at once under every option: "
    "the exit status and what is ignored against what each option is "
    "documented to cover.",
    "P25": "Members of unknown names and types on both sides: each one "
    "appears in one change, matched, added or removed.",
    "P26": "Archives with unknown names and contents (also beyond the "
    "size read at once); one event for each name, with the right verdict, "
    "by names and by open archives; streams are left at their start.",
    "P27": "The same files in a directory and in an archive, of unknown "
    "contents; every method of the exploded archive against the archive.",
    "P28": "Sizes are unknown up to 2^40; the totals against the sums.",
    "P29": "Files at unknown places with unknown contents, sizes and "
    "times on either side; one event for each, with the right verdict.",
    "P30": "Jars with entries of every kind, on either or both sides, with "
    "unknown contents; the exit status, the text report and the kind of "
    "every change, under every ignore option.",
    "P31": "As P30 with files of every kind in two distributions, shallow "
    "and deep.",
    "P32": "distdiff with several processes under a scheduler: which "
    "process takes the next task, in which order results arrive and where "
    "processes are preempted before they make directories are unknowns of "
    "the solver. Oracle: the run in one process; helpers may fail.",
    "P33": "Jars with classes of unknown members and references; provided "
    "and required names, totals, manifest and class information, as text "
    "and JSON, against what was put in.",
    "P34": "A class in which every part is unknown in turn, displayed with "
    "every option; the expected text is composed by the check from the "
    "parts and the options.",
    "P35": "Unknown constants and code by lines on both sides; the rows of "
    "the merged views, read left and right, must be the two inputs, with "
    "nothing lost, repeated or out of order.",
    "P36": "Names of unknown characters against patterns from a list; the "
    "oracle matches character by character as the shell does.",
    "P37": "Trees of unknown contents copied into new and into existing "
    "places; things that are closed once, whatever fails.",
    "P38": "The classes of P34 as JSON, read back as data.",
    "P39": "The report files of jardiff, one for the jar and one for each "
    "entry that has its own, against the comparison.",
    "P40": "As P33 for distributions, as directories and as archives; the "
    "temporary files are part of the model.",
    "P41": "The compiled templates run on classes, jars and distributions "
    "whose names and values hold unknown characters; the pages, read back "
    "by a strict reader, must tell what was put in, and links must lead to "
    "files that were written.",
    "P42": "Pairs of classes that differ in one fact are written with "
    "unknown names; the reports of the command, as text and as JSON, must "
    "tell that fact with both values, mark it, and nothing else.",
    "P43": "The options made for use from code are compared with what the "
           "parser of the command makes of the same settings, and the "
           "comparison is run both ways on classes, jars and distributions "
           "with unknown contents: status, output and files agree."
}
