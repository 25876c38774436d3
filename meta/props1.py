"""
Statements of the properties: class files.
"""

PROPS = [
    dict(
        id="P01",
        title="Reads return exactly the next bytes or report the shortage",
        statement="Reading structured data from an in-memory buffer or from "
        "a stream returns, in order, exactly the big-endian values encoded "
        "in the next bytes, for single records, raw reads, counted arrays "
        "and counted sequences of objects, and both kinds of source give "
        "the same results. When the remaining data is too short the read "
        "raises the library's unpack error naming how many bytes were "
        "wanted and how many were there, and never returns partial or "
        "invented values. After the source is closed every read raises "
        "that same error.",
        over=["inputs", "histories"],
        text="every buffer content, every length and every sequence of read "
        "operations within the bounds, over bytes, buffers, memory views and "
        "streams",
        tests="the tests decode a handful of whole class files and never cut "
        "one short or mix operations after a failed read",
        files=["javatools/pack.py"],
        state=[("offset", "position within the buffer",
                "javatools/pack.py BufferUnpacker")],
        mech=[("length checks before each read",
               "javatools/pack.py BufferUnpacker, StreamUnpacker")],
        observe=["values returned by the unpacker", "UnpackException"]),
    dict(
        id="P02",
        title="Constant pools decode to exactly what the bytes say",
        statement="Every well-formed constant pool, in any order and mix of "
        "all the kinds of constant of the class file format, decodes to one "
        "entry per constant with the kind and the value its bytes encode; "
        "long and double constants take two slots, and decoding stops "
        "exactly after the last entry. Text constants are decoded from the "
        "format's modified UTF-8, including embedded zero characters and "
        "surrogate pairs. A truncated pool or an unknown tag raises the "
        "library's own error instead of producing a pool.",
        over=["inputs"],
        text="all byte contents of pools within the size bounds, every "
        "kind, pair and (thorough) triple of kinds",
        tests="the compiled fixture classes contain few kinds of constants "
        "and no malformed pools",
        files=["javatools/__init__.py", "javatools/pack.py"],
        state=[("constant pool", "tag and raw value of each slot",
                "JavaConstantPool.consts")],
        mech=[("pool decoding", "JavaConstantPool.unpack, _unpack_const_item,"
               " in javatools/__init__.py")],
        observe=["JavaConstantPool.consts", "deref_const"]),
    dict(
        id="P03",
        title="Constants dereference and display as what they refer to",
        statement="Dereferencing any constant of a well-formed pool yields "
        "the value obtained by following its references to the end, "
        "whatever the order of the entries in the pool. Every kind of "
        "constant has a displayable form which shows what it refers to, and "
        "listing the pool shows every constant exactly once with its index, "
        "kind and value.",
        over=["inputs"],
        text="pools holding every kind of constant in several orders with "
        "unknown names, numbers and references",
        tests="tests print a few fixture classes and look at fragments",
        files=["javatools/__init__.py"],
        state=[],
        mech=[("dereferencing", "JavaConstantPool.deref_const, "
               "pretty_deref_const, constants, pretty_constants")],
        observe=["deref_const", "pretty_deref_const", "pretty_constants"]),
    dict(
        id="P04",
        title="Class files decode to exactly the structure they encode",
        statement="For every well-formed class file, given as bytes or as a "
        "stream, the decoded class has the version, access flags, own and "
        "super class, interfaces, fields, methods and attributes that the "
        "bytes encode, in their order, with every attribute's content "
        "intact. Data that does not start with the class file magic is "
        "recognised as not a class and refused, and a class file cut short "
        "at any position is refused with the library's own error, never "
        "returned as a class.",
        over=["inputs"],
        text="class files of the bounded shapes with all numeric fields and "
        "attribute contents unknown; every truncation position; every first "
        "bytes",
        tests="fixtures are all intact output of one compiler",
        files=["javatools/__init__.py", "javatools/pack.py"],
        state=[],
        mech=[("class decoding", "JavaClassInfo.unpack, JavaMemberInfo.unpack"
               ", JavaAttributes.unpack, unpack_class, is_class")],
        observe=["unpack_class", "is_class", "JavaClassInfo fields"]),
    dict(
        id="P05",
        title="Attribute accessors report exactly what attributes encode",
        statement="For classes, fields, methods and method bodies, each "
        "accessor for a standard attribute (source file, signature, "
        "enclosing method, inner classes, debug extension, constant value, "
        "exceptions, "
        "deprecated, synthetic, code with its handlers, line numbers and "
        "local variable tables) reports exactly the content of that "
        "attribute with constants resolved. When the attribute is absent "
        "the accessor reports its absence without affecting any other "
        "accessor.",
        over=["inputs"],
        text="each attribute alone and combined with others, all numeric "
        "contents unknown, tables of bounded length, several constant pool "
        "layouts",
        tests="fixtures exercise single values of a few attributes",
        files=["javatools/__init__.py"],
        state=[("attributes", "name to content", "JavaAttributes")],
        mech=[("attribute accessors", "JavaClassInfo, JavaMemberInfo, "
               "JavaCodeInfo get_* methods")],
        observe=["the accessors of class, member and code objects"]),
    dict(
        id="P06",
        title="Annotations decode faithfully and compare by meaning",
        statement="Visible and invisible annotations of classes, fields, "
        "methods and parameters decode to the type, element names and "
        "element values of every element kind, including nested annotations "
        "and arrays, that the bytes encode. Two annotations compare equal "
        "exactly when they mean the same, independently of how the constant "
        "pools of their classes are arranged. Default values of annotation "
        "elements decode likewise. An unknown element kind or a truncated "
        "element is rejected with an error.",
        over=["inputs"],
        text="annotations of the bounded shapes with unknown names and "
        "values; pairs of annotations from differently ordered pools",
        tests="a single annotated fixture is decoded",
        files=["javatools/__init__.py"],
        state=[],
        mech=[("annotations", "JavaAnnotation, _unpack_annotations, "
               "_next_element_value in javatools/__init__.py")],
        observe=["get_annotations and siblings", "JavaAnnotation ==, str"]),
    dict(
        id="P07",
        title="Bytecode disassembles to exactly the instructions encoded",
        statement="Disassembling a method body yields, for every opcode of "
        "the instruction set, the instructions in order with their offsets, "
        "opcodes and operands, with the sizes and signs the JVM "
        "specification gives them, including alignment padding of switches "
        "and wide forms. Instructions follow each other without gap or "
        "overlap until the end of the code; code that ends within an "
        "instruction or contains an undefined opcode is reported as an "
        "error. Mnemonics and opcodes map to each other one to one.",
        over=["inputs", "programs"],
        text="all 256 opcode values at all four alignments with unknown "
        "following bytes; switch instructions with arbitrary headers; pairs "
        "of instructions",
        tests="the tests disassemble few opcodes of compiled fixtures",
        files=["javatools/opcodes.py"],
        state=[],
        mech=[("instruction table and operand decoding",
               "javatools/opcodes.py disassemble, _unpack*")],
        observe=["disassemble", "get_opname_by_code", "get_opcode_by_name"]),
    dict(
        id="P08",
        title="Type descriptors parse, display and look up unambiguously",
        statement="For every valid field or method descriptor the reported "
        "argument and return types are the ones encoded, and their displayed "
        "forms are the Java source forms with all array dimensions and "
        "modifiers. Members are found by name and argument types exactly "
        "when they have them; bridge methods likewise. The identifiers used "
        "to match members of two classes are equal exactly when name and "
        "type descriptors are equal.",
        over=["inputs"],
        text="descriptors of up to the bounded number of arguments and "
        "dimensions over every primitive and unknown class names",
        tests="fixture descriptors cover few combinations",
        files=["javatools/__init__.py"],
        state=[],
        mech=[("descriptor parsing", "_typeseq, _pretty_type, JavaMemberInfo "
               "get_*descriptor*, get_identifier, pretty_*")],
        observe=["get_arg_type_descriptors", "pretty_descriptor",
                 "get_method", "get_identifier"]),
    dict(
        id="P09",
        title="Access flags and platform versions are reported exactly",
        statement="For every access flag word of a class, field or method, "
        "each flag query answers whether exactly its bit is set, and the "
        "displayed modifiers name exactly the flags that are set and apply. "
        "The displayed declaration of a class names its kind, its own and "
        "its super class and interfaces. Every class file version maps to "
        "the Java platform that introduced it, and versions outside the "
        "known range map to no platform.",
        over=["inputs"],
        text="all 65536 flag words, all major and minor version pairs",
        tests="fixtures have a handful of flag combinations and one version",
        files=["javatools/__init__.py"],
        state=[],
        mech=[("flags", "is_public.. is_*, pretty_access_flags, "
               "get_platform, platform_from_version")],
        observe=["is_* methods", "pretty_access_flags", "pretty_descriptor",
                 "get_platform"]),
    dict(
        id="P10",
        title="Instructions are attributed to their source lines",
        statement="For every method body and line number table in code "
        "order, the line reported for a code offset is that of the nearest "
        "table entry at or before it. Grouping the disassembly by line "
        "neither loses, repeats nor reorders instructions, gives each "
        "instruction the line reported for its offset, and relative line "
        "numbers are the distance from the method's first line.",
        over=["inputs"],
        text="line tables of bounded length with unknown offsets and lines, "
        "over every offset of bounded code",
        tests="compiled fixtures have few table shapes",
        files=["javatools/__init__.py"],
        state=[],
        mech=[("line lookup", "JavaCodeInfo.get_line_for_offset, "
               "iter_code_by_lines")],
        observe=["get_line_for_offset", "iter_code_by_lines"]),
    dict(
        id="P11",
        title="Provided and required APIs are complete and exact",
        statement="The API a class provides is exactly its own name plus its "
        "public fields and methods (all of them when private ones are asked "
        "for); the API it requires is exactly the classes, fields and "
        "methods its constants refer to outside itself, with array types "
        "reduced to their element class. "
        "Patterns given to ignore remove exactly the entries matching them. "
        "The command tells these APIs of each class in order, as text, and "
        "as JSON.",
        over=["inputs"],
        text="classes of bounded size with unknown names and flags, each "
        "kind of reference, and ignore patterns",
        tests="provides and requires are tested on one fixture class",
        files=["javatools/__init__.py", "javatools/classinfo.py"],
        state=[],
        mech=[("API sets", "JavaClassInfo.get_provides, get_requires, "
               "_get_provides, _get_requires"),
              ("reports", "cli_class_provides, cli_class_requires")],
        observe=["get_provides", "get_requires", "classinfo.main"]),
]
