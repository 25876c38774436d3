"""
Statements of the properties: checksums and signatures of archives.
"""

PROPS = [
    dict(
        id="P15",
        title="Checksums vouch for exactly the contents they were made of",
        statement="Verifying an archive against a manifest fails just for "
        "those entries, other than the ones exempt, that none of the digests "
        "in their section matches; those without any digest fail when "
        "strict. Adding the entries of an archive to a manifest gives each "
        "the digest of its contents, keeps all else it says, and makes the "
        "archive verify. Verifying leaves archive and manifest as they are.",
        over=["inputs"],
        text="archives with unknown contents, names of every kind, and "
        "digests right, wrong, absent or of something else",
        tests="the tests verify some fixed archives",
        files=["javatools/manifest.py"],
        mech=[("verification", "Manifest.verify_jar_checksums, cli_verify"),
              ("digests", "Manifest.add_jar_entries, b64_encoded_digest"),
              ("exempt entries", "file_skips_verification")],
        observe=["verify_jar_checksums", "manifest.main"]),
    dict(
        id="P18",
        title="A signed archive verifies until what was signed is altered",
        statement="Signing an archive, as often as one likes, gives one that "
        "verifies with its certificate and no other, has all of its entries, "
        "contents and manifest attributes, each entry once, and leaves the "
        "original alone if told so. Verification refuses any archive where "
        "an entry was altered or added, or the manifest, the signature file "
        "or the signature block was altered or removed.",
        over=["inputs", "histories", "faults"],
        text="archives with unknown contents and attributes, keys, aliases "
        "and digests; alterations of every part with unknown values",
        tests="the tests verify some fixed archives, and need M2Crypto",
        files=["javatools/jarutil.py", "javatools/manifest.py"],
        mech=[("signing", "jarutil.sign"), ("verification",
                                            "jarutil.verify"),
              ("command", "cli_sign_jar, cli_verify_jar_signature"),
              ("manifests", "SignatureManifest")],
        observe=["jarutil.main", "jarutil.sign", "jarutil.verify"],
        note="The cryptography of M2Crypto is foreign code, which is not "
        "even installed here: an ideal signature scheme stands in for it."),
    dict(
        id="P19",
        title="The manifest and archive commands do what they are asked",
        statement="Creating a manifest of a directory or an archive gives a "
        "section with the digests asked for to each file that is not to be "
        "ignored, named relative to it, wherever the manifest goes; it "
        "vouches for an archive of these files. Queries tell the values of "
        "attributes; creating an archive stores exactly the files and "
        "directories named and a manifest, with the entry point asked "
        "for.",
        over=["inputs"],
        text="trees of files with unknown contents, patterns, digests, "
        "queries and destinations",
        tests="the tests create a manifest of one archive",
        files=["javatools/manifest.py", "javatools/jarutil.py"],
        mech=[("creation", "manifest.cli_create, single_path_generator, "
               "multi_path_generator, digest_chunks"),
              ("queries", "cli_query"), ("archives", "create_jar")],
        observe=["manifest.main", "jarutil.main"]),
]
