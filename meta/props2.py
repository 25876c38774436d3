"""
Statements of the properties: manifests and signatures.
"""

PROPS = [
    dict(
        id="P12",
        title="A manifest that is written reads back the same",
        statement="Every manifest, with any attribute names, values and "
        "sections the format can hold, reads back from its stored form with "
        "the same attributes in the same order in the main section and in "
        "every named section. Writing what was read gives the very same "
        "bytes, and the line separator in use is kept.",
        over=["inputs"],
        text="values of every length around the line limits with unknown "
        "characters of all of Unicode, keys of every length, unknown "
        "attribute and section names, both line separators",
        tests="the fixtures hold a few short ASCII manifests",
        files=["javatools/manifest.py"],
        state=[("sections", "sub sections by name",
                "Manifest.sub_sections")],
        mech=[("writing", "ManifestSection.store, write_key_val"),
              ("reading", "parse_sections, detect_linesep, Manifest.parse")],
        observe=["Manifest.get_data", "Manifest.parse"]),
    dict(
        id="P13",
        title="Stored manifests are canonical and keep the line limit",
        statement="A stored manifest has no line of more than 72 bytes "
        "including its line separator, begins with the main section, and "
        "unfolding its continuation lines gives exactly its attributes in "
        "order. What is stored does not depend on the order in which "
        "sections were created. Attribute names that are empty or longer "
        "than 68 bytes are refused with the library's error.",
        over=["inputs", "histories"],
        text="all key lengths, value lengths up to four lines, multi-byte "
        "characters at the limits, every creation order of a few sections",
        tests="the tests check two wrapped lines",
        files=["javatools/manifest.py"],
        mech=[("wrapping", "write_key_val, store_item"),
              ("order", "Manifest.get_data, Manifest.store")],
        observe=["Manifest.get_data", "Manifest.get_main_section",
                 "ManifestKeyException"]),
    dict(
        id="P14",
        title="Manifest text is parsed as the format says, or refused",
        statement="For every byte content, parsing splits lines at CR, LF "
        "or CRLF, joins continuation lines, ends sections at empty lines "
        "and yields exactly the attributes of the main section and of each "
        "named section, with a later value of a repeated attribute "
        "replacing an earlier one. A line that is neither an attribute, a "
        "continuation nor empty makes the whole manifest malformed, which "
        "is reported by the library's error.",
        over=["inputs"],
        text="unknown bytes alone and within each kind of context, compared "
        "with a reference reader",
        tests="the tests parse a handful of valid manifests",
        files=["javatools/manifest.py"],
        mech=[("parsing", "parse_sections, detect_linesep, "
               "ManifestSection.load, Manifest.parse")],
        observe=["Manifest.parse", "MalformedManifest"]),
    dict(
        id="P16",
        title="Exactly the signature-related files are exempt from signing",
        statement="An archive entry is exempt from checksum verification "
        "exactly when it is a folder, the manifest, a signature file or a "
        "signature block directly within META-INF, whatever the case its "
        "name is spelled in. No entry outside META-INF, or in a folder "
        "below it, is taken as a signature file or block.",
        over=["inputs"],
        text="entry names with unknown characters around every special "
        "name and ending",
        tests="only the names of the fixtures are tried",
        files=["javatools/manifest.py"],
        mech=[("name matching", "file_skips_verification, "
               "file_matches_sigfile, file_matches_sigblock")],
        observe=["file_skips_verification", "file_matches_sigfile",
                 "file_matches_sigblock"]),
    dict(
        id="P17",
        title="A signature file accepts only the manifest it was made for",
        statement="The signature file made from a manifest accepts that "
        "manifest, both as kept in memory and as written and read back, "
        "with every supported digest and line separator. After any change "
        "to the main section the main section is rejected, and after any "
        "change or addition to named sections exactly those sections are "
        "rejected. With several, wrong or missing digests, acceptance "
        "requires a right digest of the whole, or of the main section and "
        "of every section. Checking changes neither of the two.",
        over=["inputs"],
        text="manifests of bounded size with unknown names and values, each "
        "kind of change at each place, every combination of right, wrong "
        "and absent digests",
        tests="the tests verify a few prepared signed archives",
        files=["javatools/manifest.py"],
        mech=[("digests", "SignatureManifest.digest_manifest, "
               "verify_manifest*, b64_encoded_digest")],
        observe=["SignatureManifest.verify_manifest",
                 "verify_manifest_main_checksum",
                 "verify_manifest_entry_checksums"]),
]
