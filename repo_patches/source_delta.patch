From 898c092ba6b03753dcab85820a9542e4b577f18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 01/62] fix: decode the operand of bipush as a signed byte

---
 javatools/opcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index 6914b1d..8238396 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -282,7 +282,7 @@ OP_athrow = __op('athrow', 0xbf)
 
 OP_baload = __op('baload', 0x33)
 OP_bastore = __op('bastore', 0x54)
-OP_bipush = __op('bipush', 0x10, fmt='>B')
+OP_bipush = __op('bipush', 0x10, fmt='>b')
 
 OP_caload = __op('caload', 0x34)
 OP_castore = __op('castore', 0x55)
-- 
2.43.0


From 7f5c4391bc3b9a530dc40c4e8b62b244695d96c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 02/62] fix: the first operand of multianewarray is a constant

---
 javatools/opcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index 8238396..e477718 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -457,7 +457,7 @@ OP_lxor = __op('lxor', 0x83)
 
 OP_monitorentry = __op('monitorentry', 0xc2)
 OP_monitorexit = __op('monitorexit', 0xc3)
-OP_multianewarray = __op('multianewarray', 0xc5, fmt='>HB')
+OP_multianewarray = __op('multianewarray', 0xc5, fmt='>HB', const=True)
 
 OP_new = __op('new', 0xbb, fmt='>H', const=True)
 OP_newarray = __op('newarray', 0xbc, fmt='>B')
-- 
2.43.0


From e1da3fd1368ae021160d9be8267276fb206fb550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:12 +0000
Subject: [PATCH 03/62] fix: reading from a buffer or memoryview gives bytes

---
 javatools/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/pack.py b/javatools/pack.py
index 36bbe9a..ddb77c1 100644
--- a/javatools/pack.py
+++ b/javatools/pack.py
@@ -242,7 +242,7 @@ class BufferUnpacker(Unpacker):
             raise UnpackException(None, count, avail)
 
         self.offset = offset + count
-        return self.data[offset:self.offset]
+        return bytes(self.data[offset:self.offset])
 
 
     def close(self):
-- 
2.43.0


From 36b54b3c2de4b22268d5619af20728654212df39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:12 +0000
Subject: [PATCH 04/62] fix: accept the magic number as bytes in unpack_class

---
 javatools/__init__.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 4cb55db..3cfbc06 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -501,10 +501,8 @@ class JavaClassInfo(object):
         # only unpack the magic bytes if it wasn't specified
         magic = magic or unpacker.unpack_struct(_BBBB)
 
-        if isinstance(magic, (str, buffer)):
-            magic = tuple(ord(m) for m in magic)
-        else:
-            magic = tuple(magic)
+        # a str or buffer yields str or int items, depending on Python
+        magic = tuple(m if isinstance(m, int) else ord(m) for m in magic)
 
         if magic != JAVA_CLASS_MAGIC:
             raise ClassUnpackException("Not a Java class file")
@@ -2446,10 +2444,6 @@ def unpack_class(data, magic=None):
     """
 
     with unpack(data) as up:
-        magic = magic or up.unpack_struct(_BBBB)
-        if magic != JAVA_CLASS_MAGIC:
-            raise ClassUnpackException("Not a Java class file")
-
         o = JavaClassInfo()
         o.unpack(up, magic=magic)
 
-- 
2.43.0


From 3303e2048797c248864bc021d59a1ece1e236fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:12 +0000
Subject: [PATCH 05/62] fix: display every kind of constant that can be
 unpacked

---
 javatools/__init__.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 3cfbc06..d1d0586 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -397,14 +397,17 @@ class JavaConstantPool(object):
             # TODO: v[0] needs to come from the bootstrap methods table
             result = "Dynamic %r %r" % (v[0], self.deref_const(v[1]))
 
+        elif t == CONST_MethodHandle:
+            result = "MethodHandle %r %r" % (v[0], self.deref_const(v[1]))
+
         elif t == CONST_MethodType:
-            result = "MethodType %r %r" % (v[0], self.deref_const(v[1]))
+            result = "MethodType %s" % self.deref_const(v)
 
         elif t == CONST_Module:
-            result = "Module %s" % self.deref_cons(v[0])
+            result = "Module %s" % self.deref_const(v)
 
         elif t == CONST_Package:
-            result = "Package %s" % self.deref_cons(v[0])
+            result = "Package %s" % self.deref_const(v)
 
         elif not t:
             # the skipped-type, meaning the prior index was a
@@ -2218,6 +2221,9 @@ def _pretty_const_type_val(typecode, val):
     elif typecode == CONST_InvokeDynamic:
         typestr = "InvokeDynamic"
         val = repr(val)
+    elif typecode == CONST_Dynamic:
+        typestr = "Dynamic"
+        val = repr(val)
     elif typecode == CONST_Module:
         typestr = "Module"
     elif typecode == CONST_Package:
-- 
2.43.0


From d4f3e46637b7b1c17ed9b4fcd2531beb018ba253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 06/62] fix: recognise the zero-length Deprecated and Synthetic
 attributes

---
 javatools/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index d1d0586..51d773b 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -693,7 +693,7 @@ class JavaClassInfo(object):
         reference: http://docs.oracle.com/javase/specs/jvms/se7/html/jvms-4.html#jvms-4.7.15
         """  # noqa
 
-        return bool(self.get_attribute("Deprecated"))
+        return self.get_attribute("Deprecated") is not None
 
 
     def get_super(self):
@@ -1235,7 +1235,7 @@ class JavaMemberInfo(object):
         """  # noqa
 
         return ((self.access_flags & ACC_SYNTHETIC) or
-                bool(self.get_attribute("Synthetic")))
+                (self.get_attribute("Synthetic") is not None))
 
 
     def is_enum(self):
@@ -1261,7 +1261,7 @@ class JavaMemberInfo(object):
         reference: http://docs.oracle.com/javase/specs/jvms/se5.0/html/ClassFile.doc.html#78232
         """  # noqa
 
-        return bool(self.get_attribute("Deprecated"))
+        return self.get_attribute("Deprecated") is not None
 
 
     def _get_annotations(self, python_attr_name, java_attr_name,
-- 
2.43.0


From 31d729f7fb875d5a34ed0139c62af80048b5c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 07/62] fix: accept any sequence of types in get_method_bridges

---
 javatools/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 51d773b..2a1733d 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -596,6 +596,10 @@ class JavaClassInfo(object):
         those in arg_types.
         """
 
+        # ensure any lists or iterables are converted to tuple for
+        # comparison against get_arg_type_descriptors()
+        arg_types = tuple(arg_types)
+
         for m in self.get_methods_by_name(name):
             if ((m.is_bridge() and
                  m.get_arg_type_descriptors() == arg_types)):
-- 
2.43.0


From 8f2c1ddca24b889bae9d80d6aeb09f1325a3ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 08/62] fix: require the element class of multi-dimensional
 arrays

---
 javatools/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 2a1733d..d5d6fc2 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -984,9 +984,9 @@ class JavaClassInfo(object):
                     # the event that this was a method or field on the
                     # array, we'll throw away that as well, and just
                     # emit the type contained in the array.
-                    t = _typeseq(pv)[0]
-                    if t[1] == "L":
-                        pv = _pretty_type(t[1:])
+                    t = _typeseq(pv)[0].lstrip("[")
+                    if t[0] == "L":
+                        pv = _pretty_type(t)
                     else:
                         pv = None
 
-- 
2.43.0


From 3e7b5ab6a83af029df271186d6b4c313be964f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 09/62] fix: store manifest attributes with an empty value

---
 javatools/manifest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 7f27418..1078793 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -771,8 +771,8 @@ def write_key_val(stream, key, val, linesep=os.linesep):
     if hasattr(stream, 'buffer'):
         stream = stream.buffer
 
-    key = key.encode('utf-8') or ""
-    val = val.encode('utf-8') or ""
+    key = key.encode('utf-8')
+    val = val.encode('utf-8')
     linesep = linesep.encode('utf-8')
 
     if not (0 < len(key) < 69):
-- 
2.43.0


From 0c4f4cef46542e8e2754efc916d10b0580fc4758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 10/62] fix: read manifest values wrapped within a character or
 holding other line breaks

---
 javatools/manifest.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 1078793..7832c7e 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -269,8 +269,12 @@ class ManifestSection(OrderedDict):
         Populate this section from an iteration of the parse_items call
         """
 
+        # a line may be wrapped within a multi-byte character, so the
+        # value is decoded only once it is whole. We want at least some
+        # data, thus we ignore unknown characters
         for k, vals in items:
-            self[k] = "".join(vals)
+            self[k.decode('utf-8', errors="ignore")] = \
+                b"".join(vals).decode('utf-8', errors="ignore")
 
 
     def store(self, stream, linesep=os.linesep):
@@ -374,8 +378,6 @@ class Manifest(ManifestSection):
         :type data: bytes
         """
 
-        # we want at least some data, thus we ignore unknown characters
-        data = data.decode('utf-8', errors="ignore")
         self.linesep = detect_linesep(data)
 
         # the first section is the main one for the manifest. It's
@@ -695,9 +697,9 @@ def b64_encoded_digest(data, algorithm):
 
 def detect_linesep(data):
     """
-    :type data: unicode in Py2, str in Py3
+    :type data: bytes
     """
-    return "\r\n" if "\r\n" in data else "\n"
+    return "\r\n" if b"\r\n" in data else "\n"
 
 
 def parse_sections(data):
@@ -706,12 +708,12 @@ def parse_sections(data):
 
     [ (key, [val, ...]), ... ]
 
-    where key is a string and val is a string representing a single
+    where key is bytes and val is bytes representing a single
     line of any value associated with the key. Multiple vals may be
     present if the value is long enough to require line continuations
     in which case simply concatenate the vals together to get the full
     value.
-    :type data: unicode in Py2, str in Py3
+    :type data: bytes
     """
 
     if not data:
@@ -722,7 +724,7 @@ def parse_sections(data):
 
     for lineno, line in enumerate(data.splitlines()):
         # Clean up the line
-        cleanline = line.replace('\x00', '')
+        cleanline = line.replace(b'\x00', b'')
 
         if not cleanline:
             # blank line means end of current section (if any)
@@ -730,7 +732,7 @@ def parse_sections(data):
                 yield curr
                 curr = None
 
-        elif cleanline[0] == ' ':
+        elif cleanline.startswith(b' '):
             # line beginning with a space means a continuation
             if curr is None:
                 raise MalformedManifest("bad line continuation, "
@@ -745,12 +747,12 @@ def parse_sections(data):
                 curr = list()
 
             try:
-                key, val = cleanline.split(':', 1)
+                key, val = cleanline.split(b':', 1)
                 curr.append((key, [val[1:]]))
             except ValueError:
                 raise MalformedManifest(
                     "Invalid manifest line: %i; line contents: %s"
-                    % (lineno, cleanline))
+                    % (lineno, cleanline.decode('utf-8', errors="ignore")))
 
 
     # yield and leftovers
-- 
2.43.0


From 9356e0b6ce38c7e7bbc5946c6c07450f718e263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:30 +0000
Subject: [PATCH 11/62] fix: parse a manifest without any section

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 7832c7e..3af9221 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -383,7 +383,7 @@ class Manifest(ManifestSection):
         # the first section is the main one for the manifest. It's
         # also where we will check for our newline separator
         sections = parse_sections(data)
-        self.load(next(sections))
+        self.load(next(sections, ()))
 
         # and all following sections are considered sub-sections
         for section in sections:
-- 
2.43.0


From d3604f8b04ee5f378828ba2cc72e4917bf58276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:19 +0000
Subject: [PATCH 12/62] fix: digest the whole manifest as it will be stored

---
 javatools/manifest.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 3af9221..41694c3 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -534,16 +534,17 @@ class SignatureManifest(Manifest):
         sect_key = java_algorithm + "-Digest"
 
         digest = _get_digest(java_algorithm)
-        accum = manifest.get_main_section()
-        self[main_key] = b64_encoded_digest(accum, digest)
+        main_data = manifest.get_main_section()
+        self[main_key] = b64_encoded_digest(main_data, digest)
 
         for sub_section in manifest.sub_sections.values():
             sub_data = sub_section.get_data(linesep)
             sf_sect = self.create_section(sub_section.primary())
             sf_sect[sect_key] = b64_encoded_digest(sub_data, digest)
-            accum += sub_data
 
-        self[all_key] = b64_encoded_digest(accum, digest)
+        # the sections are not necessarily stored in the order they were
+        # created in, so digest what will be stored
+        self[all_key] = b64_encoded_digest(manifest.get_data(), digest)
 
 
     def verify_manifest_main_checksum(self, manifest):
-- 
2.43.0


From fcdbd1df5e6ead9497c37b76ec038ba8897ad621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:19 +0000
Subject: [PATCH 13/62] fix: verify sections of a manifest without a line
 separator

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 41694c3..dff69d0 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -608,6 +608,7 @@ class SignatureManifest(Manifest):
         # fail?
 
         failures = []
+        linesep = manifest.linesep or os.linesep
 
         for s in manifest.sub_sections.values():
             sf_section = self.create_section(s.primary(), overwrite=False)
@@ -619,7 +620,7 @@ class SignatureManifest(Manifest):
 
             for java_digest in digests:
                 section_digest = b64_encoded_digest(
-                    s.get_data(manifest.linesep),
+                    s.get_data(linesep),
                     _get_digest(java_digest))
 
                 if section_digest == sf_section.get(java_digest + "-Digest"):
-- 
2.43.0


From c76d110ce509602f0f714c419713239fef844fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:08 +0000
Subject: [PATCH 14/62] fix: decode characters stored as surrogate pairs

---
 javatools/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index d5d6fc2..c331876 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -2135,8 +2135,15 @@ def _unpack_const_item(unpacker):
             # easiest hack to handle java's modified utf-8 encoding
             # also we want at least some data, thus we ignore
             # unknown characters
-            val = val.replace(b"\xC0\x80", b"\x00") \
-                     .decode("utf8", errors="ignore")
+            val = val.replace(b"\xC0\x80", b"\x00")
+            try:
+                # characters beyond the basic plane are stored as a
+                # pair of surrogates
+                val = val.decode("utf8", "surrogatepass") \
+                         .encode("utf-16-le", "surrogatepass") \
+                         .decode("utf-16-le", "ignore")
+            except (UnicodeDecodeError, LookupError):
+                val = val.decode("utf8", errors="ignore")
 
     elif typecode == CONST_Integer:
         (val,) = unpacker.unpack(">i")
-- 
2.43.0


From 01d99a85b7264f00bb4b21d8a226c461848ea5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:47 +0000
Subject: [PATCH 15/62] fix: compare NaN and -0.0 constants as what they are

---
 javatools/__init__.py  | 19 +++++++++++++++++--
 javatools/classdiff.py | 10 +++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index c331876..f24f811 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -32,6 +32,7 @@ References
 
 
 from functools import partial
+from math import copysign
 from six.moves import range
 
 from .dirutils import fnmatches
@@ -182,7 +183,8 @@ class JavaConstantPool(object):
 
     def __eq__(self, other):
         return (isinstance(other, JavaConstantPool) and
-                (self.consts == other.consts))
+                ([(t, _comparable(v)) for t, v in self.consts] ==
+                 [(t, _comparable(v)) for t, v in other.consts]))
 
 
     def __ne__(self, other):
@@ -1995,7 +1997,8 @@ def _annotation_val_eq(left_tag, left_data, left_cpool,
     rconst = right_cpool.deref_const
 
     if left_tag in 'BCDFIJSZs':
-        return lconst(left_data) == rconst(right_data)
+        return (_comparable(lconst(left_data)) ==
+                _comparable(rconst(right_data)))
 
     elif left_tag == 'e':
         return ((lconst(left_data[0]) == rconst(right_data[0])) and
@@ -2179,6 +2182,18 @@ def _unpack_const_item(unpacker):
     return typecode, val
 
 
+def _comparable(val):
+    """
+    stand-in for a constant value when comparing it to another. Any NaN
+    is the same constant as itself, and 0.0 isn't the same as -0.0
+    """
+
+    if isinstance(val, float):
+        return ("NaN", 0) if val != val else (copysign(1, val), val)
+    else:
+        return val
+
+
 def _pretty_const_type_val(typecode, val):
     """
     given a typecode and a value, returns the appropriate pretty
diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 5323bd6..17f3676 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -31,7 +31,7 @@ from abc import ABCMeta
 from argparse import ArgumentParser, Action
 from six import add_metaclass
 
-from . import unpack_classfile
+from . import unpack_classfile, _comparable
 from .change import GenericChange, SuperChange
 from .change import Addition, Removal
 from .change import yield_sorted_by_type
@@ -445,8 +445,8 @@ class CodeConstantsChange(GenericChange):
 
             if has_const_arg(l[1]):
                 largs, rargs = list(largs), list(rargs)
-                largs[0] = left.cpool.deref_const(largs[0])
-                rargs[0] = right.cpool.deref_const(rargs[0])
+                largs[0] = _comparable(left.cpool.deref_const(largs[0]))
+                rargs[0] = _comparable(right.cpool.deref_const(rargs[0]))
 
             if largs != rargs:
                 offsets.append(l[0])
@@ -730,6 +730,10 @@ class FieldConstvalueChange(GenericChange):
         return repr(c.deref_constantvalue())
 
 
+    def fn_differ(self, left_data, right_data):
+        return _comparable(left_data) != _comparable(right_data)
+
+
 class FieldDeprecationChange(GenericChange):
 
     label = "Field deprecation"
-- 
2.43.0


From f2f5dc3844c2c5bd3ad9bbc3f22503ad72ca9d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:51 +0000
Subject: [PATCH 16/62] fix: tell constants in code apart by their type

---
 javatools/classdiff.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 17f3676..28e7c7d 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -386,6 +386,15 @@ class CodeExceptionChange(GenericChange):
         return repr(a)
 
 
+def _typed_const(cpool, index):
+    """
+    the type and the dereferenced value of a constant. A String and a
+    Class may well dereference to the same value.
+    """
+
+    return cpool.get_const(index)[0], _comparable(cpool.deref_const(index))
+
+
 class CodeConstantsChange(GenericChange):
     """
     This is a test to find instances where the individual opcodes and
@@ -445,8 +454,8 @@ class CodeConstantsChange(GenericChange):
 
             if has_const_arg(l[1]):
                 largs, rargs = list(largs), list(rargs)
-                largs[0] = _comparable(left.cpool.deref_const(largs[0]))
-                rargs[0] = _comparable(right.cpool.deref_const(rargs[0]))
+                largs[0] = _typed_const(left.cpool, largs[0])
+                rargs[0] = _typed_const(right.cpool, rargs[0])
 
             if largs != rargs:
                 offsets.append(l[0])
-- 
2.43.0


From 1af21bbdb7e903004fe660348ad54802ef263156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:10 +0000
Subject: [PATCH 17/62] fix: a change without changed children is not ignored

---
 javatools/change.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/javatools/change.py b/javatools/change.py
index ba4fbcd..ea86d24 100644
--- a/javatools/change.py
+++ b/javatools/change.py
@@ -478,12 +478,13 @@ class SuperChange(GenericChange):
         if not self.is_change():
             return False
 
-        changes = self.collect()
+        # without any changed children, the change is our own
+        changes = [c for c in self.collect() if c.is_change()]
         if not changes:
             return False
 
         for change in changes:
-            if change.is_change() and not change.is_ignored(options):
+            if not change.is_ignored(options):
                 return False
         return True
 
-- 
2.43.0


From 363c00e93a9774e57f2199c4160e9fd7567879f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:13 +0000
Subject: [PATCH 18/62] fix: honor the options to ignore platform changes

---
 javatools/classdiff.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 28e7c7d..bf88c4b 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -130,8 +130,12 @@ class ClassPlatformChange(GenericChange):
         lver = self.ldata.version
         rver = self.rdata.version
 
-        return ((o.ignore_version_up and lver < rver) or
-                (o.ignore_version_down and lver > rver))
+        # the platform follows from the version, so ignoring changes in
+        # the version covers it as well
+        return (((o.ignore_platform_up or o.ignore_version_up) and
+                 lver < rver) or
+                ((o.ignore_platform_down or o.ignore_version_down) and
+                 lver > rver))
 
 
 class ClassSuperclassChange(GenericChange):
-- 
2.43.0


From 15304c9c098f2931d2e8268fc7d871c03b8af11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:17 +0000
Subject: [PATCH 19/62] fix: --ignore with lines, version or platform covers
 what these stand for

---
 javatools/classdiff.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index bf88c4b..86a4584 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -1053,6 +1053,10 @@ class _opt_cb_ignore(Action):
             ignore.append(i)
             setattr(options, "ignore_" + i.replace("-", "_"), True)
 
+            group = _ignore_groups.get(i)
+            if group:
+                group(None, None)(parser, options, None)
+
 
 class _opt_cb_ign_lines(Action):
     """
@@ -1087,6 +1091,14 @@ class _opt_cb_ign_platform(Action):
         options.ignore_platform_down = True
 
 
+# those ignores which are made up of others
+_ignore_groups = {
+    "lines": _opt_cb_ign_lines,
+    "version": _opt_cb_ign_version,
+    "platform": _opt_cb_ign_platform,
+}
+
+
 class _opt_cb_verbose(Action):
     """
     handle the --verbose option
-- 
2.43.0


From 4e346fdb6b7cc7277f7866d11031caf4c076c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:20 +0000
Subject: [PATCH 20/62] fix: compare each of the members sharing an identifier

---
 javatools/classdiff.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 86a4584..7d4e25b 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -306,23 +306,38 @@ class ClassMembersChange(SuperChange):
 
 
     def collect_impl(self):
+        # members may share an identifier when they differ by type only
         li = {}
 
         for member in self.ldata:
-            li[member.get_identifier()] = member
-
-        for member in self.rdata:
-            key = member.get_identifier()
-            lf = li.get(key, None)
-
-            if lf:
-                del li[key]
+            li.setdefault(member.get_identifier(), []).append(member)
+
+        right = list(self.rdata)
+        found = [None] * len(right)
+
+        # those of the very same type belong together first of all
+        for same_type in (True, False):
+            for index, member in enumerate(right):
+                if found[index] is not None:
+                    continue
+
+                candidates = li.get(member.get_identifier(), [])
+                for lf in candidates:
+                    if (not same_type or
+                            lf.get_descriptor() == member.get_descriptor()):
+                        found[index] = lf
+                        candidates.remove(lf)
+                        break
+
+        for lf, member in zip(found, right):
+            if lf is not None:
                 yield self.member_changed(lf, member)
             else:
                 yield self.member_added(None, member)
 
-        for member in li.values():
-            yield self.member_removed(member, None)
+        for candidates in li.values():
+            for member in candidates:
+                yield self.member_removed(member, None)
 
 
 class CodeAbsoluteLinesChange(GenericChange):
-- 
2.43.0


From bbfbeec743e00974aebf08559213f923325cfc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:23 +0000
Subject: [PATCH 21/62] fix: list each constant once when merging pools of
 differing length

---
 javatools/classdiff.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 7d4e25b..97b945b 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -929,19 +929,21 @@ def pretty_merge_constants(left_cpool, right_cpool):
     lsize = len(left_cpool.consts)
     rsize = len(right_cpool.consts)
 
-    index = 1
-    for index in range(1, min(lsize, rsize)):
+    # there is no constant 0, and an empty pool has no constants
+    common = max(1, min(lsize, rsize))
+
+    for index in range(1, common):
         lt, lv = left_cpool.pretty_const(index)
         rt, rv = right_cpool.pretty_const(index)
         yield (index, lt, lv, rt, rv)
 
     if lsize > rsize:
-        for index in range(index, lsize):
+        for index in range(common, lsize):
             lt, lv = left_cpool.pretty_const(index)
             yield (index, lt, lv, None, None)
 
     elif rsize > lsize:
-        for index in range(index, rsize):
+        for index in range(common, rsize):
             rt, rv = right_cpool.pretty_const(index)
             yield (index, None, None, rt, rv)
 
-- 
2.43.0


From 1f0b48651aca51712690c8987bb23f343705fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:26 +0000
Subject: [PATCH 22/62] fix: keep all of the code of a line that is left and
 returned to

---
 javatools/classdiff.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 97b945b..7a12998 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -958,22 +958,17 @@ def merge_code(left_code, right_code):
 
     data = dict()
 
-    code_lines = (left_code and left_code.iter_code_by_lines()) or tuple()
-    for abs_line, rel_line, dis in code_lines:
-        assert rel_line is not None
+    for side, code in enumerate((left_code, right_code)):
+        code_lines = (code and code.iter_code_by_lines()) or tuple()
 
-        data[rel_line] = [(abs_line, dis), None]
+        for abs_line, rel_line, dis in code_lines:
+            assert rel_line is not None
 
-    code_lines = (right_code and right_code.iter_code_by_lines()) or tuple()
-    for abs_line, rel_line, dis in code_lines:
-        assert rel_line is not None
-
-        found = data.get(rel_line, None)
-        if found is None:
-            found = [None, (abs_line, dis)]
-            data[rel_line] = found
-        else:
-            found[1] = (abs_line, dis)
+            found = data.setdefault(rel_line, [None, None])
+            if found[side] is not None:
+                # loops get back to a line they left before
+                dis = tuple(found[side][1]) + tuple(dis)
+            found[side] = (abs_line, dis)
 
     return data
 
-- 
2.43.0


From 9693e02ff420e1d498199a6748ae6c8f3b2e4dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:35 +0000
Subject: [PATCH 23/62] fix: keep the archives open while comparing them by
 name

---
 javatools/ziputils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 4b92ca3..23b6fbc 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -54,7 +54,8 @@ def compare(left, right):
     """
 
     with open_zip(left) as lz, open_zip(right) as rz:
-        return compare_zips(lz, rz)
+        for event in compare_zips(lz, rz):
+            yield event
 
 
 def compare_zips(left, right):
-- 
2.43.0


From f4bd55e6b4b377720d4505c52970ba000b525250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 24/62] fix: accept bytes in is_zipstream

---
 javatools/ziputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 23b6fbc..8a2ad43 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -191,7 +191,7 @@ def is_zipstream(data):
     rewound after being tested.
     """
 
-    if isinstance(data, (str, buffer)):
+    if isinstance(data, (bytes, buffer)):
         data = BytesIO(data)
 
     if hasattr(data, "read"):
-- 
2.43.0


From 77f0ede8b1598d6d75c21722fc6f3ad2ff56c172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 25/62] fix: open entries of exploded archives as binary

---
 javatools/ziputils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 8a2ad43..669982b 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -290,6 +290,9 @@ class ExplodedZipFile(object):
 
 
     def open(self, name, mode='rb'):
+        # entries of a ZipFile are binary, and opened with mode 'r'
+        if mode == 'r':
+            mode = 'rb'
         return open(join(self.fn, name), mode)
 
 
-- 
2.43.0


From a4eb8830b0673e09792fbe4133fad62445ae0e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 26/62] fix: print the totals of an archive without contents

---
 javatools/jarinfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/jarinfo.py b/javatools/jarinfo.py
index 3bb0a12..4959b5c 100644
--- a/javatools/jarinfo.py
+++ b/javatools/jarinfo.py
@@ -200,7 +200,7 @@ def cli_jar_zip_info(jarinfo):
     zipfile = jarinfo.get_zipfile()
 
     files, dirs, comp, uncomp = zip_entry_rollup(zipfile)
-    prcnt = (float(comp) / float(uncomp)) * 100
+    prcnt = (float(comp) / float(uncomp)) * 100 if uncomp else 100.0
 
     print("Contains %i files, %i directories" % (files, dirs))
     print("Uncompressed size is %i" % uncomp)
-- 
2.43.0


From ec1e6ba70189282b67bee36c1a93a098b215bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 27/62] fix: compare trees with more than one common directory

---
 javatools/dirutils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index b5c2174..b5f0b38 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -136,9 +136,7 @@ def _gen_from_dircmp(dc, lpath, rpath):
     for f in same_files:
         yield (BOTH, join(relpath(dc.left, lpath), f))
 
-    subdirs = dc.subdirs.values()
-    subdirs = sorted(subdirs)
-    for sub in subdirs:
+    for _name, sub in sorted(dc.subdirs.items()):
         for event in _gen_from_dircmp(sub, lpath, rpath):
             yield event
 
-- 
2.43.0


From 970326d47292075440a200b9dbba8a462f30ad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 28/62] fix: name the files at the top of both trees as any
 other

---
 javatools/dirutils.py | 4 ++--
 javatools/distdiff.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index b5f0b38..e70904a 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -128,13 +128,13 @@ def _gen_from_dircmp(dc, lpath, rpath):
     diff_files.sort()
 
     for f in diff_files:
-        yield (DIFF, join(relpath(dc.right, rpath), f))
+        yield (DIFF, relpath(join(dc.right, f), rpath))
 
     same_files = dc.same_files
     same_files.sort()
 
     for f in same_files:
-        yield (BOTH, join(relpath(dc.left, lpath), f))
+        yield (BOTH, relpath(join(dc.left, f), lpath))
 
     for _name, sub in sorted(dc.subdirs.items()):
         for event in _gen_from_dircmp(sub, lpath, rpath):
diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 5da4d79..3e7e55a 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -344,7 +344,7 @@ class DistChange(SuperChange):
                 elif event == SAME:
                     yield DistTextChange(ld, rd, entry, False)
 
-            elif deep and fnmatches(entry, "*/MANIFEST.MF"):
+            elif deep and fnmatches(entry, "MANIFEST.MF", "*/MANIFEST.MF"):
                 if event == LEFT:
                     yield DistContentRemoved(ld, rd, entry)
                 elif event == RIGHT:
-- 
2.43.0


From 89cdfc10495faae05197f34250d9944975e300c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 29/62] fix: compare files of the same size and time by their
 contents

---
 javatools/dirutils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index e70904a..316cf2f 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -22,7 +22,7 @@ trees
 """
 
 
-from filecmp import dircmp
+from filecmp import cmpfiles, dircmp
 from fnmatch import fnmatch
 from os import makedirs, walk
 from os.path import exists, isdir, join, relpath
@@ -124,13 +124,15 @@ def _gen_from_dircmp(dc, lpath, rpath):
         else:
             yield (RIGHT, relpath(fp, rpath))
 
-    diff_files = dc.diff_files
+    # those of dircmp come from a shallow comparison, of size and mtime
+    same_files, diff_files, _errors = cmpfiles(dc.left, dc.right,
+                                               dc.common_files,
+                                               shallow=False)
     diff_files.sort()
 
     for f in diff_files:
         yield (DIFF, relpath(join(dc.right, f), rpath))
 
-    same_files = dc.same_files
     same_files.sort()
 
     for f in same_files:
-- 
2.43.0


From 17a7b079e6122e3af7214ac3ee437a967866e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 30/62] fix: report files that are directories in the other
 tree

---
 javatools/dirutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index 316cf2f..a8a2e25 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -98,7 +98,9 @@ def _gen_from_dircmp(dc, lpath, rpath):
     do the work of comparing the dircmp
     """
 
-    left_only = dc.left_only
+    # a file on one side and a directory on the other have nothing in
+    # common but the name
+    left_only = dc.left_only + dc.common_funny
     left_only.sort()
 
     for f in left_only:
@@ -111,7 +113,7 @@ def _gen_from_dircmp(dc, lpath, rpath):
         else:
             yield (LEFT, relpath(fp, lpath))
 
-    right_only = dc.right_only
+    right_only = dc.right_only + dc.common_funny
     right_only.sort()
 
     for f in right_only:
-- 
2.43.0


From aa2d2d5c1ec436e2c1a2a910b0812bf88c574d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 31/62] fix: copy nested directories where they belong

---
 javatools/dirutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index a8a2e25..0d15d83 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -70,7 +70,7 @@ def copydir(orig, dest):
     for root, dirs, files in walk(orig):
         for d in dirs:
             # ensure directories exist
-            makedirsp(join(dest, d))
+            makedirsp(join(dest, relpath(join(root, d), orig)))
 
         for f in files:
             root_f = join(root, f)
-- 
2.43.0


From c04393a0dce0daf53e51a524a1d47894738ab015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:52 +0000
Subject: [PATCH 32/62] fix: classinfo --json mixed up the arguments of its
 helpers

---
 javatools/classinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index ac8b84b..01127a1 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -327,7 +327,7 @@ def cli_simplify_fields(options, info):
     fields = list()
     for field in info.fields:
         if should_show(options, field):
-            fields.append(cli_simplify_field(options, field))
+            fields.append(cli_simplify_field(field))
     return fields
 
 
@@ -335,7 +335,7 @@ def cli_simplify_methods(options, info):
     methods = list()
     for method in info.methods:
         if should_show(options, method):
-            methods.append(cli_simplify_method(options, method))
+            methods.append(cli_simplify_method(method))
     return methods
 
 
-- 
2.43.0


From 70933edf2ff3282371e82e58d0056a36cb3fe0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:56 +0000
Subject: [PATCH 33/62] fix: classinfo swapped the labels of minor and major
 version

---
 javatools/classinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index 01127a1..62327b3 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -244,8 +244,8 @@ def cli_print_classinfo(options, info):
         if info.get_enclosingmethod():
             print("  EnclosingMethod:", info.get_enclosingmethod())
         major, minor = info.get_version()
-        print("  minor version:", major)
-        print("  major version:", minor)
+        print("  minor version:", minor)
+        print("  major version:", major)
         platform = platform_from_version(*info.version) or "unknown"
         print("  Platform:", platform)
 
-- 
2.43.0


From 43620922bae74a248cc8e49cc06649323c0941d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:00 +0000
Subject: [PATCH 34/62] fix: classinfo numbered every annotation 0

---
 javatools/classinfo.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index 62327b3..3ff2ca6 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -83,8 +83,7 @@ def print_field(options, field):
     if options.verbose:
         if field.get_annotations():
             print("  RuntimeVisibleAnnotations:")
-            index = 0
-            for anno in field.get_annotations():
+            for index, anno in enumerate(field.get_annotations()):
                 print("  %i: %s" % (index, anno.pretty_annotation()))
 
         cv = field.get_constantvalue()
@@ -106,8 +105,7 @@ def print_method(options, method):
 
     if method.get_annotations():
         print("  RuntimeVisibleAnnotations:")
-        index = 0
-        for anno in method.get_annotations():
+        for index, anno in enumerate(method.get_annotations()):
             print("  %i: %s" % (index, anno.pretty_annotation()))
 
     code = method.get_code()
@@ -237,8 +235,7 @@ def cli_print_classinfo(options, info):
 
         if info.get_annotations():
             print("  RuntimeVisibleAnnotations:")
-            index = 0
-            for anno in info.get_annotations():
+            for index, anno in enumerate(info.get_annotations()):
                 print("  %i: %s" % (index, anno.pretty_annotation()))
 
         if info.get_enclosingmethod():
-- 
2.43.0


From 28e13a6251bd519d0484fca17c7d4a2ba0fbd8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:04 +0000
Subject: [PATCH 35/62] fix: classinfo --verbose showed Exceptions where there
 are none

---
 javatools/classinfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index 3ff2ca6..1668fd6 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -187,7 +187,7 @@ def print_method(options, method):
                 print("   %s" % "\t".join(line))
 
     if options.verbose:
-        exps = method.pretty_exceptions()
+        exps = tuple(method.pretty_exceptions())
         if exps:
             print("  Exceptions:")
             for e in exps:
-- 
2.43.0


From f7f666c21bf473c3b9a8bcd4dfa5acde7c121289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:48 +0000
Subject: [PATCH 36/62] fix: jardiff --ignore-jar-entry skipped signature files

---
 javatools/jardiff.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/javatools/jardiff.py b/javatools/jardiff.py
index 08d09c6..5d13d18 100644
--- a/javatools/jardiff.py
+++ b/javatools/jardiff.py
@@ -114,7 +114,8 @@ class JarContentChange(SuperChange):
 
 
     def is_ignored(self, options):
-        return fnmatches(self.entry, *options.ignore_jar_entry) or \
+        entries = getattr(options, "ignore_jar_entry", ())
+        return fnmatches(self.entry, *entries) or \
             super(JarContentChange, self).is_ignored(options)
 
 
@@ -206,7 +207,8 @@ class JarSignatureFileChange(JarContentChange):
     label = "Jar Signature File"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileChange, self).is_ignored(options)
 
     def collect_impl(self):
         if self.is_change():
@@ -226,7 +228,8 @@ class JarSignatureFileAdded(JarContentAdded):
     label = "Jar Signature File Added"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileAdded, self).is_ignored(options)
 
 
 class JarSignatureFileRemoved(JarContentRemoved):
@@ -234,7 +237,8 @@ class JarSignatureFileRemoved(JarContentRemoved):
     label = "Jar Signature File Removed"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileRemoved, self).is_ignored(options)
 
 
 class JarSignatureBlockFileChange(JarContentChange):
@@ -242,7 +246,8 @@ class JarSignatureBlockFileChange(JarContentChange):
     label = "Jar Signature Block File"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileChange, self).is_ignored(options)
 
     def collect_impl(self):
         if self.is_change():
@@ -258,7 +263,8 @@ class JarSignatureBlockFileAdded(JarContentAdded):
 
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileAdded, self).is_ignored(options)
 
 
 class JarSignatureBlockFileRemoved(JarContentRemoved):
@@ -267,7 +273,8 @@ class JarSignatureBlockFileRemoved(JarContentRemoved):
 
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileRemoved, self).is_ignored(options)
 
 
 class GenericFileChange(GenericChange):
-- 
2.43.0


From 763fbd4d80c73786d4c788c60671da9880f3bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 37/62] fix: --ignore-manifest-key is case-insensitive

---
 javatools/manifest.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index dff69d0..dbc2073 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -141,11 +141,13 @@ class ManifestSectionChange(GenericChange):
         if getattr(options, "ignore_manifest_subsections", False):
             return True
 
-        ikeys = set(getattr(options, "ignore_manifest_key", set()))
+        ikeys = set(k.lower() for k in
+                    getattr(options, "ignore_manifest_key", ()))
         if ikeys:
             lset = set(self.ldata.items())
             rset = set(self.rdata.items())
-            changed = set(k for k, _v in lset.symmetric_difference(rset))
+            changed = set(k.lower() for k, _v in
+                          lset.symmetric_difference(rset))
             return changed.issubset(ikeys)
 
         else:
@@ -189,11 +191,13 @@ class ManifestMainChange(GenericChange):
 
 
     def is_ignored(self, options):
-        ikeys = set(getattr(options, "ignore_manifest_key", set()))
+        ikeys = set(k.lower() for k in
+                    getattr(options, "ignore_manifest_key", ()))
         if ikeys:
             lset = set(self.ldata.items())
             rset = set(self.rdata.items())
-            changed = set(k for k, _v in lset.symmetric_difference(rset))
+            changed = set(k.lower() for k, _v in
+                          lset.symmetric_difference(rset))
             return changed.issubset(ikeys)
 
         else:
-- 
2.43.0


From 4537913f8ebc9d0b8b6278caa3767dc5245d2a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:41 +0000
Subject: [PATCH 38/62] fix: distdiff lost changes to files it does not look
 into

---
 javatools/distdiff.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 3e7e55a..d52415c 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -107,6 +107,18 @@ class DistContentChange(SuperChange):
         return tuple()
 
 
+    def check_impl(self):
+
+        """ Without any more concrete children, what was found by
+        comparing the files themselves stands """
+
+        changed = self.is_change()
+        if not self.collect():
+            return changed, None
+
+        return super(DistContentChange, self).check_impl()
+
+
     def get_description(self):
         c = "has changed" if self.is_change() else "is unchanged"
         return "%s %s: %s" % (self.label, c, self.entry)
-- 
2.43.0


From 7c7e6539f2b9b6d8b243b2a210ae2479ccce802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:45 +0000
Subject: [PATCH 39/62] fix: distdiff failed on text files that are not UTF-8

---
 javatools/distdiff.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index d52415c..57cd196 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -162,9 +162,9 @@ class DistTextChange(DistContentChange):
         # check if the only difference is in the trailing whitespace,
         # and if so, set lineending to true so we can optionally
         # ignore the change later.
-        with self.open_left(mode="rt") as lfd:
-            with self.open_right(mode="rt") as rfd:
-                for li, ri in zip_longest(lfd, rfd, fillvalue=""):
+        with self.open_left() as lfd:
+            with self.open_right() as rfd:
+                for li, ri in zip_longest(lfd, rfd, fillvalue=b""):
                     if li.rstrip() != ri.rstrip():
                         self.lineending = False
                         break
@@ -181,11 +181,10 @@ class DistTextChange(DistContentChange):
                 (self.lineending and options.ignore_trailing_whitespace))
 
     def collect_impl(self):
-        with self.open_left(mode="rt") as lfd, \
-             self.open_right(mode="rt") as rfd:
-
-            left = lfd.read()
-            right = rfd.read()
+        with self.open_left() as lfd, self.open_right() as rfd:
+            # there is no telling the encoding, this is for display
+            left = lfd.read().decode("utf-8", "replace")
+            right = rfd.read().decode("utf-8", "replace")
             if left != right:
                 yield GenericChange(left, right)
 
-- 
2.43.0


From 01ef987be094c84fd0ad24bb5080df816ce00a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:34 +0000
Subject: [PATCH 40/62] fix: distdiff --processes hung when a helper failed

---
 javatools/distdiff.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 57cd196..3160207 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -482,6 +482,8 @@ class DistReport(DistChange):
             # get all of the results and feed them back into our change
             for _i in range(0, task_count):
                 index, change = results.get()
+                if isinstance(change, Exception):
+                    raise change
                 changes[index] = change
 
         except KeyboardInterrupt:
@@ -545,14 +547,20 @@ def _mp_run_check(tasks, results, options):
             # this is the part that takes up all of our time and
             # produces side-effects like writing out files for all of
             # the report formats.
-            change.check()
+            try:
+                change.check()
+
+                # rather than serializing the completed change (which
+                # could be rather large now that it's been realized),
+                # we send back only what we want, which is the squashed
+                # overview, and throw away the used bits.
+                squashed = squash(change, options=options)
+                change.clear()
 
-            # rather than serializing the completed change (which
-            # could be rather large now that it's been realized), we
-            # send back only what we want, which is the squashed
-            # overview, and throw away the used bits.
-            squashed = squash(change, options=options)
-            change.clear()
+            except Exception as ex:
+                # the parent is waiting for something to come back, but
+                # not every exception survives being pickled
+                squashed = RuntimeError("%s: %s" % (type(ex).__name__, ex))
 
             results.put((index, squashed))
 
-- 
2.43.0


From 702488ed4d0792480beb9fdd3218beb939bda14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:35 +0000
Subject: [PATCH 41/62] fix: distinfo looked for the contents of archives
 beside these

---
 javatools/distinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/distinfo.py b/javatools/distinfo.py
index 843b47f..4778dc6 100644
--- a/javatools/distinfo.py
+++ b/javatools/distinfo.py
@@ -153,7 +153,7 @@ class DistInfo(object):
 
 
     def get_jarinfo(self, entry):
-        return JarInfo(join(self.base_path, entry))
+        return JarInfo(join(self._working_path(), entry))
 
 
     def get_classes(self):
@@ -167,7 +167,7 @@ class DistInfo(object):
 
 
     def get_classinfo(self, entry):
-        return unpack_classfile(join(self.base_path, entry))
+        return unpack_classfile(join(self._working_path(), entry))
 
 
     def get_contents(self):
-- 
2.43.0


From fd7df87abb0fb70807b41515de6e66a7184cd3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:37 +0000
Subject: [PATCH 42/62] fix: jarinfo --zip --json divided by zero on empty
 archives

---
 javatools/jarinfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/jarinfo.py b/javatools/jarinfo.py
index 4959b5c..67aea53 100644
--- a/javatools/jarinfo.py
+++ b/javatools/jarinfo.py
@@ -263,7 +263,7 @@ def cli_jarinfo_json(options, info):
     if options.zip:
         zipfile = info.get_zipfile()
         filec, dirc, totalc, totalu = zip_entry_rollup(zipfile)
-        prcnt = (float(totalc) / float(totalu)) * 100
+        prcnt = (float(totalc) / float(totalu)) * 100 if totalu else 100.0
 
         data["zip.type"] = zipfile.__class__.__name__
         data["zip.file_count"] = filec
-- 
2.43.0


From dc96b55f062402899d42d135f21ba913d49a6471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:59 +0000
Subject: [PATCH 43/62] fix: jarinfo --manifest failed without a manifest or
 with a directory

---
 javatools/jarinfo.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/javatools/jarinfo.py b/javatools/jarinfo.py
index 67aea53..0583606 100644
--- a/javatools/jarinfo.py
+++ b/javatools/jarinfo.py
@@ -164,8 +164,16 @@ class JarInfo(object):
 
 
     def get_manifest(self):
+        """
+        the Manifest of this archive, or None if it doesn't have one
+        """
+
+        zf = self.get_zipfile()
+        if "META-INF/MANIFEST.MF" not in zf.namelist():
+            return None
+
         mf = Manifest()
-        mf.load_from_jar(self.filename)
+        mf.parse(zf.read("META-INF/MANIFEST.MF"))
         return mf
 
 
-- 
2.43.0


From 22b2dbaf34ddf2703ac04673aa3c1021b4c79a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:02 +0000
Subject: [PATCH 44/62] fix: entries without digests fail only strict
 verification

---
 javatools/manifest.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index dbc2073..b66fec3 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -452,8 +452,9 @@ class Manifest(ManifestSection):
             file_section = self.create_section(filename, overwrite=False)
 
             digests = file_section.keys_with_suffix("-Digest")
-            if not digests and strict:
-                verify_failures.append(filename)
+            if not digests:
+                if strict:
+                    verify_failures.append(filename)
                 continue
 
             for java_digest in digests:
@@ -618,8 +619,9 @@ class SignatureManifest(Manifest):
             sf_section = self.create_section(s.primary(), overwrite=False)
 
             digests = s.keys_with_suffix("-Digest")
-            if not digests and strict:
-                failures.append(s.primary())
+            if not digests:
+                if strict:
+                    failures.append(s.primary())
                 continue
 
             for java_digest in digests:
-- 
2.43.0


From a4e81f280aea6a9640337cfa48f75c0e5a372ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:05 +0000
Subject: [PATCH 45/62] fix: signing keeps the attributes of entries

---
 javatools/manifest.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index b66fec3..b933166 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -490,7 +490,12 @@ class Manifest(ManifestSection):
             for entry in jar.namelist():
                 if file_skips_verification(entry):
                     continue
-                section = self.create_section(entry)
+                # digests of what the entry used to be don't hold any
+                # more, anything else does
+                section = self.create_section(entry, overwrite=False)
+                for key in list(section):
+                    if key.endswith("-Digest"):
+                        del section[key]
                 section[key_digest] = b64_encoded_digest(jar.read(entry),
                                                          digest)
 
-- 
2.43.0


From fdf528ce5c9c5977e71d9b0a3dbff0beceb5c2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:07 +0000
Subject: [PATCH 46/62] fix: names of files in the manifest of a directory

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index b933166..9d54b81 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -870,7 +870,8 @@ def directory_generator(dirname, trim=0):
 
     for dirpath, dirnames, filenames in walk(dirname):
         for fname in filenames:
-            yield join(dirpath, fname[trim:]), file_chunk(join(dirpath, fname))
+            pathname = join(dirpath, fname)
+            yield pathname[trim:], file_chunk(pathname)
 
 
 def multi_path_generator(pathnames):
-- 
2.43.0


From ae65e9b13c3fda062d83b43a6d7681a93d656760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:10 +0000
Subject: [PATCH 47/62] fix: manifest create -r took each letter for a path

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 9d54b81..1eccdf6 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -968,7 +968,7 @@ def cli_create(argument_list):
     use_digests = [_get_digest(digest) for digest in requested_digests]
 
     if args.recursive:
-        entries = multi_path_generator(args.content)
+        entries = multi_path_generator([args.content])
     else:
         entries = single_path_generator(args.content)
 
-- 
2.43.0


From 7ba5deae48aaf5bba58d32b5bdded4cab769463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:12 +0000
Subject: [PATCH 48/62] fix: manifest create accepts -i more than once

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 1eccdf6..f4867d6 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -976,7 +976,8 @@ def cli_create(argument_list):
 
     ignores = ["META-INF/*"]
     if args.ignore:
-        ignores.extend(*args.ignore)
+        for patterns in args.ignore:
+            ignores.extend(patterns)
 
     for name, chunks in entries:
         # skip the stuff that we were told to ignore
-- 
2.43.0


From 1b36acb5437ad2d2b35b45e7403f33b8d9d70b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:14 +0000
Subject: [PATCH 49/62] fix: jarutil v refuses archives without a manifest

---
 javatools/jarutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 5507fc3..c4c631d 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -333,7 +333,7 @@ def cli_verify_jar_signature(argument_list):
         print("Verification of jar signatures requires M2Crypto")
         return -1
 
-    except VerificationError as error_message:
+    except (VerificationError, MissingManifestError) as error_message:
         print(error_message)
         return 1
 
-- 
2.43.0


From 93a9ae5362d048fecdb13fc044bcfb684497440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:17 +0000
Subject: [PATCH 50/62] fix: replace an earlier signature with the same alias

---
 javatools/jarutil.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index c4c631d..35bcecc 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -209,10 +209,15 @@ def sign(jar_file, cert_file, key_file, key_alias,
         new_jar.writestr("META-INF/%s.SF" % key_alias, sf.get_data())
         new_jar.writestr("META-INF/%s.%s" % (key_alias, sig_block_extension),
                          sigdata)
+        # what an earlier signature with the same alias left
+        replaced = ["META-INF/MANIFEST.MF"]
+        for ext in ("SF", "RSA", "DSA", "EC"):
+            replaced.append(("META-INF/%s.%s" % (key_alias, ext)).upper())
+
         jar = ZipFile(jar_file, "a")
         for entry in jar.namelist():
             # TODO: In Py2, namelist() can be of type unicode
-            if not entry.upper() == "META-INF/MANIFEST.MF":
+            if entry.upper() not in replaced:
                 new_jar.writestr(entry, jar.read(entry))
 
         new_jar.close()
-- 
2.43.0


From 543eac20afa7e9291895fba9ce2735e0cccae382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:14 +0000
Subject: [PATCH 51/62] fix: close what HTML reports open

---
 javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl | 2 +-
 javatools/cheetah/classdiff_FieldChange.tmpl             | 4 ++--
 javatools/cheetah/classdiff_MethodAdded.tmpl             | 2 +-
 javatools/cheetah/classdiff_MethodChange.tmpl            | 4 ++--
 javatools/cheetah/report.tmpl                            | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl b/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
index 480fb0f..acd0cb3 100644
--- a/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
+++ b/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
@@ -67,8 +67,8 @@ row_class = (" is_changed")[(lt, lv) == (rt, rv)]
 #else
 <td class="const-type is_changed"><%= rt or "" %></td>
 <td class="const-value is_changed"><%= escape(str(rv or "")) %></td>
-</tr>
 #end if
+</tr>
 #end for
 
 </table>
diff --git a/javatools/cheetah/classdiff_FieldChange.tmpl b/javatools/cheetah/classdiff_FieldChange.tmpl
index e48d100..d9fe146 100644
--- a/javatools/cheetah/classdiff_FieldChange.tmpl
+++ b/javatools/cheetah/classdiff_FieldChange.tmpl
@@ -65,7 +65,7 @@ $render_change(data.pop("FieldInvisibleAnnotationsChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= escape(subch.pretty_ldata()) %>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -85,7 +85,7 @@ $render_change(data.pop("FieldInvisibleAnnotationsChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %>
+<td><%= subch.pretty_ldata() %></td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/classdiff_MethodAdded.tmpl b/javatools/cheetah/classdiff_MethodAdded.tmpl
index 9cbd415..ad72d75 100644
--- a/javatools/cheetah/classdiff_MethodAdded.tmpl
+++ b/javatools/cheetah/classdiff_MethodAdded.tmpl
@@ -12,7 +12,7 @@ b = ", ".join(info.pretty_arg_types())
 c = info.pretty_type()
 %>
 <h3><%= escape("%s(%s):%s" % (a, b, c)) %></h3>
-<div class="description">Method Added</div
+<div class="description">Method Added</div>
 #end block
 
 
diff --git a/javatools/cheetah/classdiff_MethodChange.tmpl b/javatools/cheetah/classdiff_MethodChange.tmpl
index fb17872..8de6a91 100644
--- a/javatools/cheetah/classdiff_MethodChange.tmpl
+++ b/javatools/cheetah/classdiff_MethodChange.tmpl
@@ -70,7 +70,7 @@ $render_change(data.pop("MethodCodeChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= escape(subch.pretty_ldata()) %>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -90,7 +90,7 @@ $render_change(data.pop("MethodCodeChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %>
+<td><%= subch.pretty_ldata() %></td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/report.tmpl b/javatools/cheetah/report.tmpl
index 78e9ac9..8fb280a 100644
--- a/javatools/cheetah/report.tmpl
+++ b/javatools/cheetah/report.tmpl
@@ -32,7 +32,7 @@ $change.__class__.__name__
 
 #block head_javascripts
 #if not getattr($options, "html_no_jquery", False)
-<script type="text/javascript" src="http://ajax.googleapis.com/ajax/libs/jquery/1.7.1/jquery.min.js" type="text/javascript"></script>
+<script type="text/javascript" src="http://ajax.googleapis.com/ajax/libs/jquery/1.7.1/jquery.min.js"></script>
 #end if
 #for js in $javascripts
 <script type="text/javascript" src="$js"></script>
-- 
2.43.0


From 3edb26c3a40f4c97bb092c3822b38575c02d4551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:17 +0000
Subject: [PATCH 52/62] fix: show annotations without elements in HTML reports

---
 javatools/cheetah/classdiff_AnnotationsChange.tmpl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/cheetah/classdiff_AnnotationsChange.tmpl b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
index d969e17..20e7025 100644
--- a/javatools/cheetah/classdiff_AnnotationsChange.tmpl
+++ b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
@@ -56,14 +56,14 @@ $render_annotations($change.get_ldata())
 <tr>
 <td class="const-index"><%= index %></td>
 <td class="const-value">
-<%= (la and la.pretty_annotation()) or "" %></td>
+<%= "" if la is None else la.pretty_annotation() %></td>
 
 #if (la == ra)
 <td class="const-value is_unchanged">
-<%= (ra and ra.pretty_annotation()) or "" %></td>
+<%= "" if ra is None else ra.pretty_annotation() %></td>
 #else
 <td class="const-value is_changed">
-<%= (ra and ra.pretty_annotation()) or "" %></td>
+<%= "" if ra is None else ra.pretty_annotation() %></td>
 #end if
 </tr>
 <% index += 1 %>
-- 
2.43.0


From 64b9ec8ce4c7bfca036b659ea7e06fe08215fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:20 +0000
Subject: [PATCH 53/62] fix: escape names and values in HTML reports

---
 javatools/cheetah/__init__.py                  |  1 +
 javatools/cheetah/change_SquashedChange.tmpl   |  2 +-
 .../cheetah/classdiff_AnnotationsChange.tmpl   |  8 ++++----
 .../cheetah/classdiff_ClassInfoChange.tmpl     | 18 +++++++++---------
 javatools/cheetah/classdiff_FieldChange.tmpl   |  6 +++---
 javatools/cheetah/classdiff_MethodChange.tmpl  | 18 +++++++++---------
 javatools/cheetah/report.tmpl                  |  5 +++--
 7 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/javatools/cheetah/__init__.py b/javatools/cheetah/__init__.py
index cb78896..1f56214 100644
--- a/javatools/cheetah/__init__.py
+++ b/javatools/cheetah/__init__.py
@@ -61,6 +61,7 @@ def xml_entity_escape(data):
     data = data.replace("&", "&amp;")
     data = data.replace(">", "&gt;")
     data = data.replace("<", "&lt;")
+    data = data.replace('"', "&quot;")
     return data
 
 
diff --git a/javatools/cheetah/change_SquashedChange.tmpl b/javatools/cheetah/change_SquashedChange.tmpl
index 216885e..dc0d534 100644
--- a/javatools/cheetah/change_SquashedChange.tmpl
+++ b/javatools/cheetah/change_SquashedChange.tmpl
@@ -30,7 +30,7 @@ oc = change.origclass
 uri = "%s/%s.html" % (change.entry, oc.report_name)
 %>
 $escape($change.entry)
-<span class="moreinfo">[<a href="<%= uri %>">details</a>]</span>
+<span class="moreinfo">[<a href="<%= escape(uri) %>">details</a>]</span>
 #end block
 </div>
 
diff --git a/javatools/cheetah/classdiff_AnnotationsChange.tmpl b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
index 20e7025..dfa329c 100644
--- a/javatools/cheetah/classdiff_AnnotationsChange.tmpl
+++ b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
@@ -32,7 +32,7 @@ $render_annotations($change.get_ldata())
 #for index in range(0, len(annos))
 <tr>
 <td class="const-index"><%= index %></td>
-<td class="const-value"><%= annos[index].pretty_annotation() %></td>
+<td class="const-value"><%= escape(annos[index].pretty_annotation()) %></td>
 </tr>
 #end for
 </table>
@@ -56,14 +56,14 @@ $render_annotations($change.get_ldata())
 <tr>
 <td class="const-index"><%= index %></td>
 <td class="const-value">
-<%= "" if la is None else la.pretty_annotation() %></td>
+<%= "" if la is None else escape(la.pretty_annotation()) %></td>
 
 #if (la == ra)
 <td class="const-value is_unchanged">
-<%= "" if ra is None else ra.pretty_annotation() %></td>
+<%= "" if ra is None else escape(ra.pretty_annotation()) %></td>
 #else
 <td class="const-value is_changed">
-<%= "" if ra is None else ra.pretty_annotation() %></td>
+<%= "" if ra is None else escape(ra.pretty_annotation()) %></td>
 #end if
 </tr>
 <% index += 1 %>
diff --git a/javatools/cheetah/classdiff_ClassInfoChange.tmpl b/javatools/cheetah/classdiff_ClassInfoChange.tmpl
index 94329f4..11df5e8 100644
--- a/javatools/cheetah/classdiff_ClassInfoChange.tmpl
+++ b/javatools/cheetah/classdiff_ClassInfoChange.tmpl
@@ -39,15 +39,15 @@ $sub_deprecation(data["ClassDeprecationChange"][0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 <tr>
-<td><%= subch.pretty_rdata() %></td>
+<td><%= escape(subch.pretty_rdata()) %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -83,15 +83,15 @@ $sub_deprecation(data["ClassDeprecationChange"][0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 <tr>
-<td class="is_changed"><%= subch.pretty_rdata() %></td>
+<td class="is_changed"><%= escape(subch.pretty_rdata()) %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -103,16 +103,16 @@ $sub_deprecation(data["ClassDeprecationChange"][0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= ", ".join(subch.pretty_ldata()) or "(None)" %></td>
+<td><%= escape(", ".join(subch.pretty_ldata()) or "(None)") %></td>
 </tr>
 <tr>
 <td class="is_changed">
-<%= ", ".join(subch.pretty_rdata()) or "(None)" %></td>
+<%= escape(", ".join(subch.pretty_rdata()) or "(None)") %></td>
 </tr>
 #elif subch.get_ldata()
 <tr>
 <th>$label</th>
-<td><%= ", ".join(subch.pretty_ldata()) %></td>
+<td><%= escape(", ".join(subch.pretty_ldata())) %></td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/classdiff_FieldChange.tmpl b/javatools/cheetah/classdiff_FieldChange.tmpl
index d9fe146..1b3a888 100644
--- a/javatools/cheetah/classdiff_FieldChange.tmpl
+++ b/javatools/cheetah/classdiff_FieldChange.tmpl
@@ -77,15 +77,15 @@ $render_change(data.pop("FieldInvisibleAnnotationsChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 <tr>
-<td><%= subch.pretty_rdata() %></td>
+<td><%= escape(subch.pretty_rdata()) %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/classdiff_MethodChange.tmpl b/javatools/cheetah/classdiff_MethodChange.tmpl
index 8de6a91..8a21a84 100644
--- a/javatools/cheetah/classdiff_MethodChange.tmpl
+++ b/javatools/cheetah/classdiff_MethodChange.tmpl
@@ -82,15 +82,15 @@ $render_change(data.pop("MethodCodeChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 <tr>
-<td><%= subch.pretty_rdata() %></td>
+<td><%= escape(subch.pretty_rdata()) %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -102,15 +102,15 @@ $render_change(data.pop("MethodCodeChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 <tr>
-<td>(<%= ", ".join(subch.pretty_rdata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_rdata())) %>)</td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 #end if
 #end def
@@ -167,15 +167,15 @@ $render_change(data.pop("MethodCodeChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 <tr>
-<td class="is_changed">(<%= ", ".join(subch.pretty_rdata()) %>)</td>
+<td class="is_changed">(<%= escape(", ".join(subch.pretty_rdata())) %>)</td>
 </tr>
 #elif subch.get_ldata()
 <tr>
 <th>$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/report.tmpl b/javatools/cheetah/report.tmpl
index 8fb280a..3c8a13f 100644
--- a/javatools/cheetah/report.tmpl
+++ b/javatools/cheetah/report.tmpl
@@ -1,3 +1,4 @@
+#from javatools.cheetah import xml_entity_escape as escape
 <?xml version="1.0" encoding="UTF-8"?>
 <!DOCTYPE html 
      PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"
@@ -25,7 +26,7 @@ $change.__class__.__name__
 
 #block head_stylesheets
 #for ss in $stylesheets
-<link rel="stylesheet" type="text/css" href="$ss" />
+<link rel="stylesheet" type="text/css" href="$escape($ss)" />
 #end for
 #end block
 
@@ -35,7 +36,7 @@ $change.__class__.__name__
 <script type="text/javascript" src="http://ajax.googleapis.com/ajax/libs/jquery/1.7.1/jquery.min.js"></script>
 #end if
 #for js in $javascripts
-<script type="text/javascript" src="$js"></script>
+<script type="text/javascript" src="$escape($js)"></script>
 #end for
 #end block
 
-- 
2.43.0


From 0688c3b844a5249df8a479bd1e9a70f6b6bdb4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:36 +0000
Subject: [PATCH 54/62] fix: show constants of value zero in HTML reports

---
 javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl | 4 ++--
 javatools/cheetah/classdiff_FieldChange.tmpl             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl b/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
index acd0cb3..45a1774 100644
--- a/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
+++ b/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
@@ -60,13 +60,13 @@ row_class = (" is_changed")[(lt, lv) == (rt, rv)]
 <tr>
 <td class="const-index"><%= index %></td>
 <td class="const-type"><%= lt or "" %></td>
-<td class="const-value"><%= escape(str(lv or "")) %></td>
+<td class="const-value"><%= "" if lv is None else escape(str(lv)) %></td>
 #if (lt, lv) == (rt, rv)
 <td class="const-type empty"></td>
 <td class="const-value empty"></td>
 #else
 <td class="const-type is_changed"><%= rt or "" %></td>
-<td class="const-value is_changed"><%= escape(str(rv or "")) %></td>
+<td class="const-value is_changed"><%= "" if rv is None else escape(str(rv)) %></td>
 #end if
 </tr>
 #end for
diff --git a/javatools/cheetah/classdiff_FieldChange.tmpl b/javatools/cheetah/classdiff_FieldChange.tmpl
index 1b3a888..95cf1f4 100644
--- a/javatools/cheetah/classdiff_FieldChange.tmpl
+++ b/javatools/cheetah/classdiff_FieldChange.tmpl
@@ -148,7 +148,7 @@ $render_change(data.pop("FieldInvisibleAnnotationsChange")[0])
 <td class="is_changed">
  <%= escape(subch.pretty_rdata() or "(None)") %></td>
 </tr>
-#elif subch.get_ldata()
+#elif subch.get_ldata() is not None
 <tr>
 <th>$label</th>
 <td><%= escape(subch.pretty_ldata()) %></td>
-- 
2.43.0


From 2dc66f6d8df1694338c03a9e4565f718e6dbddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:42 +0000
Subject: [PATCH 55/62] fix: decode the debug information of a class

---
 javatools/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index f24f811..6e9628c 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -786,7 +786,7 @@ class JavaClassInfo(object):
         """  # noqa
 
         buff = self.get_attribute("SourceDebugExtension")
-        return (buff and str(buff)) or None
+        return (buff and bytes(buff).decode("utf8", "replace")) or None
 
 
     def get_innerclasses(self):
-- 
2.43.0


From eb616e487331d8c1db2e7dd47742e637539624de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:25 +0000
Subject: [PATCH 56/62] fix: decode the default values of annotation elements

---
 javatools/__init__.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 6e9628c..93d51ef 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1347,8 +1347,8 @@ class JavaMemberInfo(object):
 
     def get_annotationdefault(self):
         """
-        The AnnotationDefault attribute, only present upon fields in an
-        annotaion.
+        The AnnotationDefault attribute, only present upon methods of
+        an annotation. A tag and data pair, or None if not present.
 
         reference: http://docs.oracle.com/javase/specs/jvms/se7/html/jvms-4.html#jvms-4.7.20
         """  # noqa
@@ -1358,9 +1358,7 @@ class JavaMemberInfo(object):
             return None
 
         with unpack(buff) as up:
-            (ti, ) = up.unpack_struct(_H)
-
-        return ti
+            return _unpack_annotation_val(up, self.cpool)
 
 
     def deref_annotationdefault(self):
@@ -1368,11 +1366,11 @@ class JavaMemberInfo(object):
         dereferences the AnnotationDefault attribute
         """
 
-        index = self.get_annotationdefault()
-        if index is None:
+        val = self.get_annotationdefault()
+        if val is None:
             return None
         else:
-            return self.deref_const(index)
+            return _deref_annotation_val(val, self.cpool)
 
 
     def get_code(self):
@@ -2056,6 +2054,25 @@ def _unpack_annotation_val(unpacker, cpool):
     return tag, data
 
 
+def _deref_annotation_val(val, cpool):
+    """
+    the dereferenced value of a tag and data pair annotation value
+    """
+
+    tag, data = val
+
+    if tag == 'e':
+        return tuple(cpool.deref_const(d) for d in data)
+
+    elif tag == '@':
+        return data
+
+    elif tag == '[':
+        return [_deref_annotation_val(d, cpool) for d in data]
+
+    return cpool.deref_const(data)
+
+
 def _pretty_annotation_val(val, cpool):
     """
     a pretty display of a tag and data pair annotation value
-- 
2.43.0


From cbaa1d75ec43d82f73a7c2bc4585f81aaddd8add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:59 +0000
Subject: [PATCH 57/62] fix: text of exception handlers

---
 javatools/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 93d51ef..eb7dbf7 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1871,7 +1871,7 @@ class JavaExceptionInfo(object):
 
 
     def __str__(self):
-        return "(%s)" % ",".join(self.info())
+        return "(%s)" % ",".join(str(i) for i in self.info())
 
 
 class JavaInnerClassInfo(object):
-- 
2.43.0


From 5c9b1a19236a4762a0dd5fc169c03460c777b0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:34 +0000
Subject: [PATCH 58/62] fix: options with default values can be made from code

---
 javatools/classdiff.py | 17 ++++++++++++-----
 javatools/distdiff.py  | 10 ++--------
 javatools/jardiff.py   |  9 ++-------
 3 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 7a12998..5e7c0bd 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -1173,12 +1173,19 @@ def default_classdiff_options(updates=None):
     options object.
     """
 
-    parser = create_optparser()
-    options, _args = parser.parse_args(list())
+    return _default_options(create_optparser(), updates)
 
-    if updates:
-        # pylint: disable=W0212
-        options._update_careful(updates)
+
+def _default_options(parser, updates=None):
+    """
+    the default values of the options of a parser which requires a
+    left and a right side, with the fields in updates set.
+    """
+
+    options = parser.parse_args(["", ""])
+
+    for key, val in (updates or {}).items():
+        setattr(options, key, val)
 
     return options
 
diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 3160207..d119e94 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -37,6 +37,7 @@ from .change import GenericChange, SuperChange, Addition, Removal
 from .change import squash, yield_sorted_by_type
 from .classdiff import JavaClassChange, JavaClassReport
 from .classdiff import add_classdiff_optgroup, add_general_optgroup
+from .classdiff import _default_options
 from .dirutils import compare, fnmatches
 from .dirutils import LEFT, RIGHT, SAME, DIFF
 from .manifest import Manifest, ManifestChange
@@ -669,14 +670,7 @@ def default_distdiff_options(updates=None):
     object.
     """
 
-    parser = create_optparser()
-    options = parser.parse_args(list())
-
-    if updates:
-        # pylint: disable=W0212
-        options._update_careful(updates)
-
-    return options
+    return _default_options(create_optparser(), updates)
 
 
 def main(args=sys.argv):
diff --git a/javatools/jardiff.py b/javatools/jardiff.py
index 5d13d18..1b900f4 100644
--- a/javatools/jardiff.py
+++ b/javatools/jardiff.py
@@ -616,14 +616,9 @@ def default_jardiff_options(updates=None):
     object.
     """
 
-    parser = create_optparser()
-    options, _args = parser.parse_args(list())
+    from .classdiff import _default_options
 
-    if updates:
-        # pylint: disable=W0212
-        options._update_careful(updates)
-
-    return options
+    return _default_options(create_optparser(), updates)
 
 
 def main(args=sys.argv):
-- 
2.43.0


From 73fcff01b8a8d4e099ce82c5f7c15f923f46d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:01 +0000
Subject: [PATCH 59/62] fix: verifying an archive leaves the manifest alone

---
 javatools/manifest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index f4867d6..0b04fea 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -449,7 +449,10 @@ class Manifest(ManifestSection):
             if file_skips_verification(filename):
                 continue
 
-            file_section = self.create_section(filename, overwrite=False)
+            # checking leaves the manifest as it is
+            file_section = self.sub_sections.get(filename)
+            if file_section is None:
+                file_section = ManifestSection(filename)
 
             digests = file_section.keys_with_suffix("-Digest")
             if not digests:
-- 
2.43.0


From c006220a5e76a39c355588fab34c5c42c8202590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 60/62] fix: verifying a manifest leaves the signature file
 alone

---
 javatools/manifest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 0b04fea..0b37922 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -624,7 +624,10 @@ class SignatureManifest(Manifest):
         linesep = manifest.linesep or os.linesep
 
         for s in manifest.sub_sections.values():
-            sf_section = self.create_section(s.primary(), overwrite=False)
+            # checking leaves the signature file as it is
+            sf_section = self.sub_sections.get(s.primary())
+            if sf_section is None:
+                sf_section = ManifestSection(s.primary())
 
             digests = s.keys_with_suffix("-Digest")
             if not digests:
-- 
2.43.0


From 4be63dd664482929d037bbf31ad8face3ef135ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:17 +0000
Subject: [PATCH 61/62] fix: the entry point asked for gets into the manifest
 of a new archive

---
 javatools/jarutil.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 35bcecc..61496ed 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -225,20 +225,26 @@ def sign(jar_file, cert_file, key_file, key_alias,
         copyfile(new_jar_file.name, jar_file if output is None else output)
 
 
-def create_jar(jar_file, entries):
+def create_jar(jar_file, entries, main_class=None):
     """
     Create JAR from given entries.
     :param jar_file: filename of the created JAR
     :type jar_file: str
     :param entries: files to put into the JAR
     :type entries: list[str]
+    :param main_class: application entry point, if any
+    :type main_class: str
     :return: None
     """
 
+    manifest = Manifest()
+    if main_class:
+        manifest["Main-Class"] = main_class
+
     # 'jar' adds separate entries for directories, also for empty ones.
     with ZipFile(jar_file, "w") as jar:
         jar.writestr("META-INF/", "")
-        jar.writestr("META-INF/MANIFEST.MF", Manifest().get_data())
+        jar.writestr("META-INF/MANIFEST.MF", manifest.get_data())
         for entry in entries:
             jar.write(entry)
             if os.path.isdir(entry):
@@ -261,7 +267,7 @@ def cli_create_jar(argument_list):
                         help="Specify application entry point")
 
     args, entries = parser.parse_known_args(argument_list)
-    create_jar(args.jar_file, entries)
+    create_jar(args.jar_file, entries, args.main_class)
     return 0
 
 
-- 
2.43.0


From 18a2766a455cccba8ef934a43004675d11defb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:48 +0000
Subject: [PATCH 62/62] fix: class names may contain parentheses in method
 descriptors

---
 javatools/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index eb7dbf7..bc7e2da 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -2314,7 +2314,14 @@ def _next_argsig(s):
         result = (s[:i], s[i:])
 
     elif c == "(":
-        i = s.find(')') + 1
+        # step over whole arguments, the name of a class may well have
+        # parentheses of its own
+        rest = s[1:]
+        while rest and rest[0] != ")":
+            arg, rest = _next_argsig(rest)
+            if not arg:
+                rest = ""
+        i = (len(s) - len(rest) + 1) if rest else 0
         result = (s[:i], s[i:])
 
     # Some files may be corrupted and contain bad argument signature (c = '.').
-- 
2.43.0

