From c3cce82c02e958c0d08a2cc960fbce31d1258821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 01/80] fix: bipush operand is a signed byte

---
 javatools/opcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index 6914b1d..8238396 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -282,7 +282,7 @@ OP_athrow = __op('athrow', 0xbf)
 
 OP_baload = __op('baload', 0x33)
 OP_bastore = __op('bastore', 0x54)
-OP_bipush = __op('bipush', 0x10, fmt='>B')
+OP_bipush = __op('bipush', 0x10, fmt='>b')
 
 OP_caload = __op('caload', 0x34)
 OP_castore = __op('castore', 0x55)
-- 
2.43.0


From 359efc7ae52390e4cd0435e17333ccc0e183dd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 02/80] fix: multianewarray refers to a constant pool entry

---
 javatools/opcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index 8238396..e477718 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -457,7 +457,7 @@ OP_lxor = __op('lxor', 0x83)
 
 OP_monitorentry = __op('monitorentry', 0xc2)
 OP_monitorexit = __op('monitorexit', 0xc3)
-OP_multianewarray = __op('multianewarray', 0xc5, fmt='>HB')
+OP_multianewarray = __op('multianewarray', 0xc5, fmt='>HB', const=True)
 
 OP_new = __op('new', 0xbb, fmt='>H', const=True)
 OP_newarray = __op('newarray', 0xbc, fmt='>B')
-- 
2.43.0


From 6bf1c7cd5fb2bd46c213438ed12ca68aa4b598aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 03/80] fix: opcode 0xc2 is named monitorenter

---
 javatools/opcodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index e477718..eb04a40 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -73,7 +73,8 @@ __all__ = (
     "OP_lload_3", "OP_lmul", "OP_lneg", "OP_lookupswitch", "OP_lor",
     "OP_lrem", "OP_lreturn", "OP_lshl", "OP_lshr", "OP_lstore",
     "OP_lstore_0", "OP_lstore_1", "OP_lstore_2", "OP_lstore_3", "OP_lsub",
-    "OP_lushr", "OP_lxor", "OP_monitorentry", "OP_monitorexit",
+    "OP_lushr", "OP_lxor", "OP_monitorenter", "OP_monitorentry",
+    "OP_monitorexit",
     "OP_multianewarray", "OP_new", "OP_newarray", "OP_nop", "OP_pop",
     "OP_pop2", "OP_putfield", "OP_putstatic", "OP_ret", "OP_return",
     "OP_saload", "OP_sastore", "OP_sipush", "OP_swap", "OP_tableswitch",
@@ -455,7 +456,8 @@ OP_lsub = __op('lsub', 0x65)
 OP_lushr = __op('lushr', 0x7d)
 OP_lxor = __op('lxor', 0x83)
 
-OP_monitorentry = __op('monitorentry', 0xc2)
+OP_monitorenter = __op('monitorenter', 0xc2)
+OP_monitorentry = OP_monitorenter  # former, misspelled name
 OP_monitorexit = __op('monitorexit', 0xc3)
 OP_multianewarray = __op('multianewarray', 0xc5, fmt='>HB', const=True)
 
-- 
2.43.0


From bdde0f3ad46bec0c5dc1ba257a2edbf412560430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 04/80] fix: pretty_deref_const failed for MethodType,
 MethodHandle, Module and Package

---
 javatools/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 4cb55db..dcca0c1 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -397,14 +397,18 @@ class JavaConstantPool(object):
             # TODO: v[0] needs to come from the bootstrap methods table
             result = "Dynamic %r %r" % (v[0], self.deref_const(v[1]))
 
+        elif t == CONST_MethodHandle:
+            # TODO: v[0] treat index according to its kind
+            result = "MethodHandle %r %r" % (v[0], self.deref_const(v[1]))
+
         elif t == CONST_MethodType:
-            result = "MethodType %r %r" % (v[0], self.deref_const(v[1]))
+            result = "MethodType %s" % self.deref_const(v)
 
         elif t == CONST_Module:
-            result = "Module %s" % self.deref_cons(v[0])
+            result = "Module %s" % self.deref_const(v)
 
         elif t == CONST_Package:
-            result = "Package %s" % self.deref_cons(v[0])
+            result = "Package %s" % self.deref_const(v)
 
         elif not t:
             # the skipped-type, meaning the prior index was a
-- 
2.43.0


From 4255aad3d150423eb7cd1da3d88a959b664ce325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 05/80] fix: pretty_const failed for Dynamic constants

---
 javatools/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index dcca0c1..c050a81 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -2224,6 +2224,9 @@ def _pretty_const_type_val(typecode, val):
     elif typecode == CONST_InvokeDynamic:
         typestr = "InvokeDynamic"
         val = repr(val)
+    elif typecode == CONST_Dynamic:
+        typestr = "Dynamic"
+        val = repr(val)
     elif typecode == CONST_Module:
         typestr = "Module"
     elif typecode == CONST_Package:
-- 
2.43.0


From fed2e80020f0c00c2339cf6094e8c2d54e851343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 06/80] fix: zero-length Deprecated and Synthetic attributes
 were ignored

---
 javatools/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index c050a81..8e5a8d6 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -696,7 +696,7 @@ class JavaClassInfo(object):
         reference: http://docs.oracle.com/javase/specs/jvms/se7/html/jvms-4.html#jvms-4.7.15
         """  # noqa
 
-        return bool(self.get_attribute("Deprecated"))
+        return self.get_attribute("Deprecated") is not None
 
 
     def get_super(self):
@@ -1238,7 +1238,7 @@ class JavaMemberInfo(object):
         """  # noqa
 
         return ((self.access_flags & ACC_SYNTHETIC) or
-                bool(self.get_attribute("Synthetic")))
+                self.get_attribute("Synthetic") is not None)
 
 
     def is_enum(self):
@@ -1264,7 +1264,7 @@ class JavaMemberInfo(object):
         reference: http://docs.oracle.com/javase/specs/jvms/se5.0/html/ClassFile.doc.html#78232
         """  # noqa
 
-        return bool(self.get_attribute("Deprecated"))
+        return self.get_attribute("Deprecated") is not None
 
 
     def _get_annotations(self, python_attr_name, java_attr_name,
-- 
2.43.0


From bf2071a5d3993b32f054cb3f29b3e040542e86a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 07/80] fix: accept already read magic bytes as bytes or buffer

---
 javatools/__init__.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 8e5a8d6..90e71b9 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -505,10 +505,7 @@ class JavaClassInfo(object):
         # only unpack the magic bytes if it wasn't specified
         magic = magic or unpacker.unpack_struct(_BBBB)
 
-        if isinstance(magic, (str, buffer)):
-            magic = tuple(ord(m) for m in magic)
-        else:
-            magic = tuple(magic)
+        magic = tuple(m if isinstance(m, int) else ord(m) for m in magic)
 
         if magic != JAVA_CLASS_MAGIC:
             raise ClassUnpackException("Not a Java class file")
@@ -2453,10 +2450,6 @@ def unpack_class(data, magic=None):
     """
 
     with unpack(data) as up:
-        magic = magic or up.unpack_struct(_BBBB)
-        if magic != JAVA_CLASS_MAGIC:
-            raise ClassUnpackException("Not a Java class file")
-
         o = JavaClassInfo()
         o.unpack(up, magic=magic)
 
-- 
2.43.0


From fc7369588279adcc05824468d3178315303cebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 08/80] fix: get_source_debug_extension returned the repr of
 the data

---
 javatools/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 90e71b9..42e6bd6 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -780,7 +780,10 @@ class JavaClassInfo(object):
         """  # noqa
 
         buff = self.get_attribute("SourceDebugExtension")
-        return (buff and str(buff)) or None
+        if not buff:
+            return None
+
+        return bytes(buff).decode("utf8", "replace")
 
 
     def get_innerclasses(self):
-- 
2.43.0


From cb6eaf798e7e8772e1534b57e2065206646a0972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 09/80] fix: str() of an exception table entry failed

---
 javatools/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 42e6bd6..0783259 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1870,7 +1870,7 @@ class JavaExceptionInfo(object):
 
 
     def __str__(self):
-        return "(%s)" % ",".join(self.info())
+        return "(%s)" % ",".join(str(i) for i in self.info())
 
 
 class JavaInnerClassInfo(object):
-- 
2.43.0


From 829b5b2f5afaa1b80d9c45467579286526d5a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 10/80] fix: reading a class from a buffer failed, its slices
 have no text methods

---
 javatools/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/pack.py b/javatools/pack.py
index 36bbe9a..ddb77c1 100644
--- a/javatools/pack.py
+++ b/javatools/pack.py
@@ -242,7 +242,7 @@ class BufferUnpacker(Unpacker):
             raise UnpackException(None, count, avail)
 
         self.offset = offset + count
-        return self.data[offset:self.offset]
+        return bytes(self.data[offset:self.offset])
 
 
     def close(self):
-- 
2.43.0


From c2e487f32bf97d84e02e4c3a935dbd507d00aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 11/80] fix: comparing zips by filename read from already
 closed archives

---
 javatools/ziputils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 4b92ca3..23b6fbc 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -54,7 +54,8 @@ def compare(left, right):
     """
 
     with open_zip(left) as lz, open_zip(right) as rz:
-        return compare_zips(lz, rz)
+        for event in compare_zips(lz, rz):
+            yield event
 
 
 def compare_zips(left, right):
-- 
2.43.0


From 98942d937e73ba09885105b119cc8aa598d3f881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 12/80] fix: is_zipstream failed for bytes

---
 javatools/ziputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 23b6fbc..8a2ad43 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -191,7 +191,7 @@ def is_zipstream(data):
     rewound after being tested.
     """
 
-    if isinstance(data, (str, buffer)):
+    if isinstance(data, (bytes, buffer)):
         data = BytesIO(data)
 
     if hasattr(data, "read"):
-- 
2.43.0


From 7bbc3112048f77aafb4e489e385afb22736fa54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 13/80] fix: entries of exploded archives were opened in text
 mode

---
 javatools/ziputils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 8a2ad43..6d2fde5 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -290,6 +290,9 @@ class ExplodedZipFile(object):
 
 
     def open(self, name, mode='rb'):
+        # like the members of a ZipFile, these are always binary
+        if "b" not in mode:
+            mode += "b"
         return open(join(self.fn, name), mode)
 
 
-- 
2.43.0


From 416db7289bc6153bc5441042aaf39d82d54d9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:02 +0000
Subject: [PATCH 14/80] fix: AnnotationDefault holds an element_value, not an
 index

---
 javatools/__init__.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 0783259..6ac1493 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1344,8 +1344,9 @@ class JavaMemberInfo(object):
 
     def get_annotationdefault(self):
         """
-        The AnnotationDefault attribute, only present upon fields in an
-        annotaion.
+        The AnnotationDefault attribute, only present upon methods of an
+        annotation. A (tag, data) tuple as found in JavaAnnotation, or
+        None if there is no default.
 
         reference: http://docs.oracle.com/javase/specs/jvms/se7/html/jvms-4.html#jvms-4.7.20
         """  # noqa
@@ -1355,21 +1356,19 @@ class JavaMemberInfo(object):
             return None
 
         with unpack(buff) as up:
-            (ti, ) = up.unpack_struct(_H)
-
-        return ti
+            return _unpack_annotation_val(up, self.cpool)
 
 
     def deref_annotationdefault(self):
         """
-        dereferences the AnnotationDefault attribute
+        pretty version of the AnnotationDefault attribute
         """
 
-        index = self.get_annotationdefault()
-        if index is None:
+        val = self.get_annotationdefault()
+        if val is None:
             return None
         else:
-            return self.deref_const(index)
+            return _pretty_annotation_val(val, self.cpool)
 
 
     def get_code(self):
-- 
2.43.0


From 8644365c658b7eaaffdaa39a2c0c8fd4fa680b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 15/80] fix: get_line_for_offset relied on a sorted line number
 table

---
 javatools/__init__.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 6ac1493..af3f238 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1733,15 +1733,16 @@ class JavaCodeInfo(object):
         returns the line number given a code offset
         """
 
-        prev_line = 0
+        # the entries of the table may be in any order
 
+        prev_offset = 0
+        prev_line = 0
         for (offset, line) in self.get_linenumbertable():
-            if offset < code_offset:
-                prev_line = line
-            elif offset == code_offset:
+            if offset == code_offset:
                 return line
-            else:
-                return prev_line
+            elif prev_offset <= offset < code_offset:
+                prev_offset = offset
+                prev_line = line
 
         return prev_line
 
-- 
2.43.0


From 4104cad73dea32bcfe6306213e94eacc54c5c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 16/80] fix: get_method_bridges never matched argument types
 given as a list

---
 javatools/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index af3f238..9f9eda4 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -596,6 +596,8 @@ class JavaClassInfo(object):
         those in arg_types.
         """
 
+        arg_types = tuple(arg_types)
+
         for m in self.get_methods_by_name(name):
             if ((m.is_bridge() and
                  m.get_arg_type_descriptors() == arg_types)):
-- 
2.43.0


From bf9a1179a6cd80d659c6d335628cfd8d67004f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 17/80] fix: get_requires lacked the types of multi-dimensional
 arrays

---
 javatools/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 9f9eda4..20eee23 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -985,9 +985,9 @@ class JavaClassInfo(object):
                     # the event that this was a method or field on the
                     # array, we'll throw away that as well, and just
                     # emit the type contained in the array.
-                    t = _typeseq(pv)[0]
-                    if t[1] == "L":
-                        pv = _pretty_type(t[1:])
+                    t = _typeseq(pv)[0].lstrip("[")
+                    if t[0] == "L":
+                        pv = _pretty_type(t)
                     else:
                         pv = None
 
-- 
2.43.0


From d1edade82961a3f81463da50b105d090f624a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:23 +0000
Subject: [PATCH 18/80] fix: an empty collection of child changes is collected
 only once

JarContentsChange cannot collect again after its check, so that jardiff
--show-unchanged failed for JARs without any files.
---
 javatools/change.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/change.py b/javatools/change.py
index ba4fbcd..c637b61 100644
--- a/javatools/change.py
+++ b/javatools/change.py
@@ -409,7 +409,7 @@ class SuperChange(GenericChange):
 
     def __init__(self, ldata, rdata):
         super(SuperChange, self).__init__(ldata, rdata)
-        self.changes = tuple()
+        self.changes = None
 
 
     def fn_pretty(self, c):
@@ -423,7 +423,7 @@ class SuperChange(GenericChange):
 
         super(SuperChange, self).clear()
 
-        for c in self.changes:
+        for c in self.changes or tuple():
             c.clear()
         self.changes = tuple()
 
@@ -449,7 +449,7 @@ class SuperChange(GenericChange):
         time, unless force is True
         """
 
-        if force or not self.changes:
+        if force or self.changes is None:
             self.changes = tuple(self.collect_impl())
         return self.changes
 
-- 
2.43.0


From 28fdaf17d6876654479bdda14ad1660f1805be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:23 +0000
Subject: [PATCH 19/80] fix: platform changes are ignored by the
 ignore-platform options

---
 javatools/classdiff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 5323bd6..52d764b 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -130,8 +130,8 @@ class ClassPlatformChange(GenericChange):
         lver = self.ldata.version
         rver = self.rdata.version
 
-        return ((o.ignore_version_up and lver < rver) or
-                (o.ignore_version_down and lver > rver))
+        return ((o.ignore_platform_up and lver < rver) or
+                (o.ignore_platform_down and lver > rver))
 
 
 class ClassSuperclassChange(GenericChange):
-- 
2.43.0


From 47aaeb09d07f62ed0b351fe83e1aedf29f83e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:23 +0000
Subject: [PATCH 20/80] fix: pretty_merge_constants emits the last common index
 only once

---
 javatools/classdiff.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 52d764b..f86459b 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -897,19 +897,20 @@ def pretty_merge_constants(left_cpool, right_cpool):
     lsize = len(left_cpool.consts)
     rsize = len(right_cpool.consts)
 
-    index = 1
-    for index in range(1, min(lsize, rsize)):
+    common = max(1, min(lsize, rsize))
+
+    for index in range(1, common):
         lt, lv = left_cpool.pretty_const(index)
         rt, rv = right_cpool.pretty_const(index)
         yield (index, lt, lv, rt, rv)
 
     if lsize > rsize:
-        for index in range(index, lsize):
+        for index in range(common, lsize):
             lt, lv = left_cpool.pretty_const(index)
             yield (index, lt, lv, None, None)
 
     elif rsize > lsize:
-        for index in range(index, rsize):
+        for index in range(common, rsize):
             rt, rv = right_cpool.pretty_const(index)
             yield (index, None, None, rt, rv)
 
-- 
2.43.0


From e97c099a092680cf097ffd4cee75a5318a085fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:23 +0000
Subject: [PATCH 21/80] fix: merge_code keeps all of the code of a line that
 occurs repeatedly

---
 javatools/classdiff.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index f86459b..7cea22e 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -929,18 +929,21 @@ def merge_code(left_code, right_code):
     for abs_line, rel_line, dis in code_lines:
         assert rel_line is not None
 
-        data[rel_line] = [(abs_line, dis), None]
+        found = data.setdefault(rel_line, [None, None])
+        if found[0] is None:
+            found[0] = (abs_line, list(dis))
+        else:
+            found[0][1].extend(dis)
 
     code_lines = (right_code and right_code.iter_code_by_lines()) or tuple()
     for abs_line, rel_line, dis in code_lines:
         assert rel_line is not None
 
-        found = data.get(rel_line, None)
-        if found is None:
-            found = [None, (abs_line, dis)]
-            data[rel_line] = found
+        found = data.setdefault(rel_line, [None, None])
+        if found[1] is None:
+            found[1] = (abs_line, list(dis))
         else:
-            found[1] = (abs_line, dis)
+            found[1][1].extend(dis)
 
     return data
 
-- 
2.43.0


From 85949ee0473b9d7663112b6294ff69146c39c6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:57 +0000
Subject: [PATCH 22/80] fix: constants are compared by type and exact value

NaN made a class differ from itself, while 0.0 and -0.0, or loading the
integer 1 and the float 1.0, were considered equal.
---
 javatools/__init__.py  | 30 ++++++++++++++++++++++++++++--
 javatools/classdiff.py | 15 +++++++++++----
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 20eee23..3672b2a 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -169,6 +169,18 @@ class UnknownConstantPoolTagException(Exception):
     pass
 
 
+def same_value(left, right):
+    """
+    compares the values of two constants. Unlike with the == operator,
+    NaN is the same as NaN, and 0.0 is not the same as -0.0
+    """
+
+    if isinstance(left, float) and isinstance(right, float):
+        return repr(left) == repr(right)
+    else:
+        return left == right
+
+
 class JavaConstantPool(object):
     """
     A constants pool
@@ -182,7 +194,9 @@ class JavaConstantPool(object):
 
     def __eq__(self, other):
         return (isinstance(other, JavaConstantPool) and
-                (self.consts == other.consts))
+                len(self.consts) == len(other.consts) and
+                all(lt == rt and same_value(lv, rv) for (lt, lv), (rt, rv)
+                    in zip(self.consts, other.consts)))
 
 
     def __ne__(self, other):
@@ -232,6 +246,18 @@ class JavaConstantPool(object):
         return self.consts[index]
 
 
+    def same_const(self, index, other, other_index):
+        """
+        whether the constant at index is the same as the one at
+        other_index of the constant pool other, in type and
+        dereferenced value
+        """
+
+        return (self.get_const(index)[0] == other.get_const(other_index)[0]
+                and same_value(self.deref_const(index),
+                               other.deref_const(other_index)))
+
+
     def deref_const(self, index):
         """
         returns the dereferenced value from the const pool. For simple
@@ -1996,7 +2022,7 @@ def _annotation_val_eq(left_tag, left_data, left_cpool,
     rconst = right_cpool.deref_const
 
     if left_tag in 'BCDFIJSZs':
-        return lconst(left_data) == rconst(right_data)
+        return same_value(lconst(left_data), rconst(right_data))
 
     elif left_tag == 'e':
         return ((lconst(left_data[0]) == rconst(right_data[0])) and
diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 7cea22e..45d3314 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -31,7 +31,7 @@ from abc import ABCMeta
 from argparse import ArgumentParser, Action
 from six import add_metaclass
 
-from . import unpack_classfile
+from . import same_value, unpack_classfile
 from .change import GenericChange, SuperChange
 from .change import Addition, Removal
 from .change import yield_sorted_by_type
@@ -445,10 +445,13 @@ class CodeConstantsChange(GenericChange):
 
             if has_const_arg(l[1]):
                 largs, rargs = list(largs), list(rargs)
-                largs[0] = left.cpool.deref_const(largs[0])
-                rargs[0] = right.cpool.deref_const(rargs[0])
+                lconst = largs.pop(0)
+                rconst = rargs.pop(0)
+                same = left.cpool.same_const(lconst, right.cpool, rconst)
+            else:
+                same = True
 
-            if largs != rargs:
+            if not same or largs != rargs:
                 offsets.append(l[0])
 
         self.offsets = offsets
@@ -726,6 +729,10 @@ class FieldConstvalueChange(GenericChange):
         return c.deref_constantvalue()
 
 
+    def fn_differ(self, left_data, right_data):
+        return not same_value(left_data, right_data)
+
+
     def fn_pretty(self, c):
         return repr(c.deref_constantvalue())
 
-- 
2.43.0


From 8e86e4e75c46387a5df6eb9a242b9260503d19af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:45 +0000
Subject: [PATCH 23/80] fix: members sharing an identifier are all compared

Fields of the same name, or methods of the same name and argument types,
may exist several times in a class with different types. Only the last of
them was compared.
---
 javatools/classdiff.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 45d3314..72dc99e 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -302,23 +302,32 @@ class ClassMembersChange(SuperChange):
 
 
     def collect_impl(self):
+        # members of the same identifier may still differ in their type
         li = {}
-
         for member in self.ldata:
-            li[member.get_identifier()] = member
+            li.setdefault(member.get_identifier(), []).append(member)
 
+        unmatched = []
         for member in self.rdata:
-            key = member.get_identifier()
-            lf = li.get(key, None)
+            found = li.get(member.get_identifier(), [])
+            for lf in found:
+                if lf.get_descriptor() == member.get_descriptor():
+                    found.remove(lf)
+                    yield self.member_changed(lf, member)
+                    break
+            else:
+                unmatched.append(member)
 
-            if lf:
-                del li[key]
-                yield self.member_changed(lf, member)
+        for member in unmatched:
+            found = li.get(member.get_identifier(), None)
+            if found:
+                yield self.member_changed(found.pop(0), member)
             else:
                 yield self.member_added(None, member)
 
-        for member in li.values():
-            yield self.member_removed(member, None)
+        for found in li.values():
+            for member in found:
+                yield self.member_removed(member, None)
 
 
 class CodeAbsoluteLinesChange(GenericChange):
-- 
2.43.0


From 0fe963c28ada74e04059f36192928a18c0dfc459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:39 +0000
Subject: [PATCH 24/80] fix: comparing directories failed if they share several
 subdirectories

---
 javatools/dirutils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index b5c2174..295ab17 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -136,9 +136,8 @@ def _gen_from_dircmp(dc, lpath, rpath):
     for f in same_files:
         yield (BOTH, join(relpath(dc.left, lpath), f))
 
-    subdirs = dc.subdirs.values()
-    subdirs = sorted(subdirs)
-    for sub in subdirs:
+    subdirs = sorted(dc.subdirs.items())
+    for _name, sub in subdirs:
         for event in _gen_from_dircmp(sub, lpath, rpath):
             yield event
 
-- 
2.43.0


From 15bc75906aa82a98210083765c21e792d05bbf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:39 +0000
Subject: [PATCH 25/80] fix: files of equal size and time were not compared by
 content

---
 javatools/dirutils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index 295ab17..bdfa7cd 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -22,7 +22,7 @@ trees
 """
 
 
-from filecmp import dircmp
+from filecmp import cmpfiles, dircmp
 from fnmatch import fnmatch
 from os import makedirs, walk
 from os.path import exists, isdir, join, relpath
@@ -124,16 +124,19 @@ def _gen_from_dircmp(dc, lpath, rpath):
         else:
             yield (RIGHT, relpath(fp, rpath))
 
-    diff_files = dc.diff_files
-    diff_files.sort()
+    # the comparison of dircmp is shallow, it would take files of the
+    # same size and modification time as being the same
+    same_files, diff_files, errors = cmpfiles(dc.left, dc.right,
+                                              dc.common_files,
+                                              shallow=False)
+
+    # we cannot tell that what we are unable to read is the same
+    diff_files = sorted(diff_files + errors)
 
     for f in diff_files:
         yield (DIFF, join(relpath(dc.right, rpath), f))
 
-    same_files = dc.same_files
-    same_files.sort()
-
-    for f in same_files:
+    for f in sorted(same_files):
         yield (BOTH, join(relpath(dc.left, lpath), f))
 
     subdirs = sorted(dc.subdirs.items())
-- 
2.43.0


From 74e746de4a13cc1ec40b4bd0ed2611068ca12d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:03 +0000
Subject: [PATCH 26/80] fix: a file replaced by a directory was not compared at
 all

---
 javatools/dirutils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index bdfa7cd..c8b2d01 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -98,7 +98,12 @@ def _gen_from_dircmp(dc, lpath, rpath):
     do the work of comparing the dircmp
     """
 
-    left_only = dc.left_only
+    # a file on one side and a directory of the same name on the other
+    # have nothing in common, but are not listed as left or right only
+    clash = [f for f in dc.common_funny
+             if isdir(join(dc.left, f)) != isdir(join(dc.right, f))]
+
+    left_only = dc.left_only + clash
     left_only.sort()
 
     for f in left_only:
@@ -111,7 +116,7 @@ def _gen_from_dircmp(dc, lpath, rpath):
         else:
             yield (LEFT, relpath(fp, lpath))
 
-    right_only = dc.right_only
+    right_only = dc.right_only + clash
     right_only.sort()
 
     for f in right_only:
-- 
2.43.0


From d55747dbc594c2bc3147e03c2eaec6b558e3330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:03 +0000
Subject: [PATCH 27/80] fix: copydir created nested directories in the wrong
 place

---
 javatools/dirutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index c8b2d01..ddd68d1 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -70,7 +70,7 @@ def copydir(orig, dest):
     for root, dirs, files in walk(orig):
         for d in dirs:
             # ensure directories exist
-            makedirsp(join(dest, d))
+            makedirsp(join(dest, relpath(join(root, d), orig)))
 
         for f in files:
             root_f = join(root, f)
-- 
2.43.0


From 665cd9150297f59256abfab25857b7c0ff5bf566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:03 +0000
Subject: [PATCH 28/80] fix: changed files of a distribution were reported as
 unchanged

---
 javatools/distdiff.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 5da4d79..fd3e99d 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -107,6 +107,17 @@ class DistContentChange(SuperChange):
         return tuple()
 
 
+    def check_impl(self):
+        """
+        Content which has no more concrete children is as changed as it
+        was found to be when comparing the directories
+        """
+
+        changed = self.changed
+        result = super(DistContentChange, self).check_impl()
+        return result if self.collect() else (changed, None)
+
+
     def get_description(self):
         c = "has changed" if self.is_change() else "is unchanged"
         return "%s %s: %s" % (self.label, c, self.entry)
-- 
2.43.0


From d9f64874370684fb0a63e2850f8c4e6dcb1f4403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:03 +0000
Subject: [PATCH 29/80] fix: top-level entries were not matched by their name,
 due to a leading ./

---
 javatools/dirutils.py | 4 ++--
 javatools/distdiff.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index ddd68d1..cc2c84e 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -139,10 +139,10 @@ def _gen_from_dircmp(dc, lpath, rpath):
     diff_files = sorted(diff_files + errors)
 
     for f in diff_files:
-        yield (DIFF, join(relpath(dc.right, rpath), f))
+        yield (DIFF, relpath(join(dc.right, f), rpath))
 
     for f in sorted(same_files):
-        yield (BOTH, join(relpath(dc.left, lpath), f))
+        yield (BOTH, relpath(join(dc.left, f), lpath))
 
     subdirs = sorted(dc.subdirs.items())
     for _name, sub in subdirs:
diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index fd3e99d..2c8eac9 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -355,7 +355,7 @@ class DistChange(SuperChange):
                 elif event == SAME:
                     yield DistTextChange(ld, rd, entry, False)
 
-            elif deep and fnmatches(entry, "*/MANIFEST.MF"):
+            elif deep and fnmatches(entry, "MANIFEST.MF", "*/MANIFEST.MF"):
                 if event == LEFT:
                     yield DistContentRemoved(ld, rd, entry)
                 elif event == RIGHT:
-- 
2.43.0


From 7de67b81b66b6a221291c00402c394c2d5182b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:22 +0000
Subject: [PATCH 30/80] fix: a failing sub-report left distdiff waiting forever

---
 javatools/distdiff.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 2c8eac9..6274823 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -31,6 +31,7 @@ from argparse import ArgumentParser
 from multiprocessing import cpu_count
 from os.path import join
 from six.moves import range, zip_longest
+from traceback import format_exc
 
 from . import unpack_classfile
 from .change import GenericChange, SuperChange, Addition, Removal
@@ -480,9 +481,12 @@ class DistReport(DistChange):
                     change.check()
 
             # get all of the results and feed them back into our change
+            failures = list()
             for _i in range(0, task_count):
-                index, change = results.get()
+                index, change, failure = results.get()
                 changes[index] = change
+                if failure:
+                    failures.append(failure)
 
         except KeyboardInterrupt:
             # drain the tasks queue so it will exit gracefully
@@ -490,6 +494,10 @@ class DistReport(DistChange):
                 pass
             raise
 
+        if failures:
+            raise RuntimeError("failure in helper process:\n%s" %
+                               "\n".join(failures))
+
         # complete the check by setting our internal collection of
         # child changes and returning our overall status
         c = False
@@ -545,16 +553,22 @@ def _mp_run_check(tasks, results, options):
             # this is the part that takes up all of our time and
             # produces side-effects like writing out files for all of
             # the report formats.
-            change.check()
+            squashed = failure = None
+            try:
+                change.check()
+
+                # rather than serializing the completed change (which
+                # could be rather large now that it's been realized), we
+                # send back only what we want, which is the squashed
+                # overview, and throw away the used bits.
+                squashed = squash(change, options=options)
+                change.clear()
 
-            # rather than serializing the completed change (which
-            # could be rather large now that it's been realized), we
-            # send back only what we want, which is the squashed
-            # overview, and throw away the used bits.
-            squashed = squash(change, options=options)
-            change.clear()
+            except Exception:
+                # the parent is waiting for one result per task
+                failure = format_exc()
 
-            results.put((index, squashed))
+            results.put((index, squashed, failure))
 
     except KeyboardInterrupt:
         # prevent a billion lines of backtrace from hitting the user
-- 
2.43.0


From 34d050949a88a32e9436eb4171906bc31d0e7fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:59 +0000
Subject: [PATCH 31/80] fix: text which is not in the locale encoding made
 distdiff fail

---
 javatools/distdiff.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 6274823..c7550f4 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -27,6 +27,7 @@ be checked for deep differences.
 
 import sys
 
+from io import open
 from argparse import ArgumentParser
 from multiprocessing import cpu_count
 from os.path import join
@@ -92,12 +93,12 @@ class DistContentChange(SuperChange):
         return join(self.rdata, self.entry)
 
 
-    def open_left(self, mode="rb"):
-        return open(self.left_fn(), mode)
+    def open_left(self, mode="rb", errors=None):
+        return open(self.left_fn(), mode, errors=errors)
 
 
-    def open_right(self, mode="rb"):
-        return open(self.right_fn(), mode)
+    def open_right(self, mode="rb", errors=None):
+        return open(self.right_fn(), mode, errors=errors)
 
 
     def collect_impl(self):
@@ -162,8 +163,9 @@ class DistTextChange(DistContentChange):
         # check if the only difference is in the trailing whitespace,
         # and if so, set lineending to true so we can optionally
         # ignore the change later.
-        with self.open_left(mode="rt") as lfd:
-            with self.open_right(mode="rt") as rfd:
+        errors = "surrogateescape"
+        with self.open_left(mode="rt", errors=errors) as lfd:
+            with self.open_right(mode="rt", errors=errors) as rfd:
                 for li, ri in zip_longest(lfd, rfd, fillvalue=""):
                     if li.rstrip() != ri.rstrip():
                         self.lineending = False
@@ -181,8 +183,9 @@ class DistTextChange(DistContentChange):
                 (self.lineending and options.ignore_trailing_whitespace))
 
     def collect_impl(self):
-        with self.open_left(mode="rt") as lfd, \
-             self.open_right(mode="rt") as rfd:
+        errors = "backslashreplace"
+        with self.open_left(mode="rt", errors=errors) as lfd, \
+             self.open_right(mode="rt", errors=errors) as rfd:
 
             left = lfd.read()
             right = rfd.read()
-- 
2.43.0


From daefa1b5cc13b13b4e501f06988df5005b8c35b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:22 +0000
Subject: [PATCH 32/80] fix: --ignore of lines, version or platform had no
 effect

---
 javatools/classdiff.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 72dc99e..2a79237 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -1036,6 +1036,14 @@ def add_classdiff_optgroup(parser):
                    action=_opt_cb_ign_version)
 
 
+# the ignore options which imply others
+_IGNORE_GROUPS = {
+    "lines": ("absolute_lines", "relative_lines"),
+    "version": ("version_up", "version_down"),
+    "platform": ("platform_up", "platform_down"),
+}
+
+
 class _opt_cb_ignore(Action):
     """
     handle the --ignore option, which trigges other options
@@ -1054,7 +1062,9 @@ class _opt_cb_ignore(Action):
         ign = (i for i in ign if i)
         for i in ign:
             ignore.append(i)
-            setattr(options, "ignore_" + i.replace("-", "_"), True)
+            i = i.replace("-", "_")
+            for name in (i,) + _IGNORE_GROUPS.get(i, ()):
+                setattr(options, "ignore_" + name, True)
 
 
 class _opt_cb_ign_lines(Action):
-- 
2.43.0


From 5b083103ea4f1e30032e9f13b243e1be480d68b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:22 +0000
Subject: [PATCH 33/80] fix: --ignore-added had no effect

---
 javatools/classdiff.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 2a79237..9030aac 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -275,6 +275,10 @@ class MemberAdded(Addition):
         return "%s: %s" % (self.label, self.rdata.pretty_descriptor())
 
 
+    def is_ignored(self, options):
+        return getattr(options, "ignore_added", False)
+
+
 @add_metaclass(ABCMeta)
 class MemberRemoved(Removal):
     """
-- 
2.43.0


From 9fa3bb4c1e987c2cfb104b7d577db7129e0f6174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:22 +0000
Subject: [PATCH 34/80] fix: --ignore-manifest-key is case-insensitive

---
 javatools/manifest.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 7f27418..4a61643 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -141,11 +141,13 @@ class ManifestSectionChange(GenericChange):
         if getattr(options, "ignore_manifest_subsections", False):
             return True
 
-        ikeys = set(getattr(options, "ignore_manifest_key", set()))
+        ikeys = set(k.lower() for k in
+                    getattr(options, "ignore_manifest_key", ()))
         if ikeys:
             lset = set(self.ldata.items())
             rset = set(self.rdata.items())
-            changed = set(k for k, _v in lset.symmetric_difference(rset))
+            changed = set(k.lower() for k, _v in
+                          lset.symmetric_difference(rset))
             return changed.issubset(ikeys)
 
         else:
@@ -189,11 +191,13 @@ class ManifestMainChange(GenericChange):
 
 
     def is_ignored(self, options):
-        ikeys = set(getattr(options, "ignore_manifest_key", set()))
+        ikeys = set(k.lower() for k in
+                    getattr(options, "ignore_manifest_key", ()))
         if ikeys:
             lset = set(self.ldata.items())
             rset = set(self.rdata.items())
-            changed = set(k for k, _v in lset.symmetric_difference(rset))
+            changed = set(k.lower() for k, _v in
+                          lset.symmetric_difference(rset))
             return changed.issubset(ikeys)
 
         else:
-- 
2.43.0


From fe68f4900781dad08aa6dd9a6a49eab3362ad318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:52 +0000
Subject: [PATCH 35/80] fix: the default options of classdiff, jardiff and
 distdiff were not available

---
 javatools/classdiff.py | 26 ++++++++++++++++++--------
 javatools/distdiff.py  | 10 ++--------
 javatools/jardiff.py   |  9 ++-------
 3 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 9030aac..5b97df1 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -1158,6 +1158,23 @@ def create_optparser(progname=None):
     return parser
 
 
+def default_options(parser, updates=None):
+    """
+    the options of parser with their default values. updates is an
+    optional dictionary which will be used to update fields that exist
+    on the options object.
+    """
+
+    # the two things to compare are not optional
+    options = parser.parse_args(["", ""])
+
+    for key, value in (updates or {}).items():
+        if hasattr(options, key):
+            setattr(options, key, value)
+
+    return options
+
+
 def default_classdiff_options(updates=None):
     """
     generate an options object with the appropriate default values in
@@ -1166,14 +1183,7 @@ def default_classdiff_options(updates=None):
     options object.
     """
 
-    parser = create_optparser()
-    options, _args = parser.parse_args(list())
-
-    if updates:
-        # pylint: disable=W0212
-        options._update_careful(updates)
-
-    return options
+    return default_options(create_optparser(), updates)
 
 
 def main(args=sys.argv):
diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index c7550f4..9a15d0e 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -39,6 +39,7 @@ from .change import GenericChange, SuperChange, Addition, Removal
 from .change import squash, yield_sorted_by_type
 from .classdiff import JavaClassChange, JavaClassReport
 from .classdiff import add_classdiff_optgroup, add_general_optgroup
+from .classdiff import default_options
 from .dirutils import compare, fnmatches
 from .dirutils import LEFT, RIGHT, SAME, DIFF
 from .manifest import Manifest, ManifestChange
@@ -678,14 +679,7 @@ def default_distdiff_options(updates=None):
     object.
     """
 
-    parser = create_optparser()
-    options = parser.parse_args(list())
-
-    if updates:
-        # pylint: disable=W0212
-        options._update_careful(updates)
-
-    return options
+    return default_options(create_optparser(), updates)
 
 
 def main(args=sys.argv):
diff --git a/javatools/jardiff.py b/javatools/jardiff.py
index 08d09c6..1244b08 100644
--- a/javatools/jardiff.py
+++ b/javatools/jardiff.py
@@ -609,14 +609,9 @@ def default_jardiff_options(updates=None):
     object.
     """
 
-    parser = create_optparser()
-    options, _args = parser.parse_args(list())
+    from .classdiff import default_options
 
-    if updates:
-        # pylint: disable=W0212
-        options._update_careful(updates)
-
-    return options
+    return default_options(create_optparser(), updates)
 
 
 def main(args=sys.argv):
-- 
2.43.0


From 5ac5791f1693d71a0b83fa381add24fc1cf1e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:10 +0000
Subject: [PATCH 36/80] fix: --ignore-jar-entry did not apply to signature
 files

---
 javatools/jardiff.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/javatools/jardiff.py b/javatools/jardiff.py
index 1244b08..f4936d0 100644
--- a/javatools/jardiff.py
+++ b/javatools/jardiff.py
@@ -206,7 +206,8 @@ class JarSignatureFileChange(JarContentChange):
     label = "Jar Signature File"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileChange, self).is_ignored(options)
 
     def collect_impl(self):
         if self.is_change():
@@ -226,7 +227,8 @@ class JarSignatureFileAdded(JarContentAdded):
     label = "Jar Signature File Added"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileAdded, self).is_ignored(options)
 
 
 class JarSignatureFileRemoved(JarContentRemoved):
@@ -234,7 +236,8 @@ class JarSignatureFileRemoved(JarContentRemoved):
     label = "Jar Signature File Removed"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileRemoved, self).is_ignored(options)
 
 
 class JarSignatureBlockFileChange(JarContentChange):
@@ -242,7 +245,8 @@ class JarSignatureBlockFileChange(JarContentChange):
     label = "Jar Signature Block File"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileChange, self).is_ignored(options)
 
     def collect_impl(self):
         if self.is_change():
@@ -258,7 +262,8 @@ class JarSignatureBlockFileAdded(JarContentAdded):
 
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileAdded, self).is_ignored(options)
 
 
 class JarSignatureBlockFileRemoved(JarContentRemoved):
@@ -267,7 +272,8 @@ class JarSignatureBlockFileRemoved(JarContentRemoved):
 
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileRemoved, self).is_ignored(options)
 
 
 class GenericFileChange(GenericChange):
-- 
2.43.0


From 66cd911600479f5a57212686138cf2da6347c737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:06 +0000
Subject: [PATCH 37/80] fix: manifest attributes with an empty value could not
 be written

---
 javatools/manifest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 4a61643..f1ab53c 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -775,8 +775,8 @@ def write_key_val(stream, key, val, linesep=os.linesep):
     if hasattr(stream, 'buffer'):
         stream = stream.buffer
 
-    key = key.encode('utf-8') or ""
-    val = val.encode('utf-8') or ""
+    key = key.encode('utf-8')
+    val = val.encode('utf-8')
     linesep = linesep.encode('utf-8')
 
     if not (0 < len(key) < 69):
-- 
2.43.0


From 7eb2b3e98ba49787c3b055005aca4c71c99b4ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:06 +0000
Subject: [PATCH 38/80] fix: manifest values may contain unicode line
 separators

---
 javatools/manifest.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index f1ab53c..8a20d1b 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -30,6 +30,7 @@ from __future__ import print_function
 import argparse
 import hashlib
 import os
+import re
 import sys
 
 from base64 import b64encode
@@ -724,7 +725,8 @@ def parse_sections(data):
     # our current section
     curr = None
 
-    for lineno, line in enumerate(data.splitlines()):
+    # only CR and LF separate lines, str.splitlines knows many more
+    for lineno, line in enumerate(re.split("\r\n|\r|\n", data)):
         # Clean up the line
         cleanline = line.replace('\x00', '')
 
-- 
2.43.0


From 64ce4ff53db9f9dccc72448563e8a6c1134f7c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:06 +0000
Subject: [PATCH 39/80] fix: characters split over continuation lines of a
 manifest were lost

---
 javatools/manifest.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 8a20d1b..9dfcd57 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -379,19 +379,20 @@ class Manifest(ManifestSection):
         :type data: bytes
         """
 
-        # we want at least some data, thus we ignore unknown characters
-        data = data.decode('utf-8', errors="ignore")
+        # a continuation may begin within a multi-byte character, thus
+        # the values are decoded only after they have been put together
+        data = data.decode('latin-1')
         self.linesep = detect_linesep(data)
 
         # the first section is the main one for the manifest. It's
         # also where we will check for our newline separator
         sections = parse_sections(data)
-        self.load(next(sections))
+        self.load(_decode_items(next(sections)))
 
         # and all following sections are considered sub-sections
         for section in sections:
             next_section = ManifestSection(None)
-            next_section.load(section)
+            next_section.load(_decode_items(section))
             self.sub_sections[next_section.primary()] = next_section
 
 
@@ -705,6 +706,20 @@ def detect_linesep(data):
     return "\r\n" if "\r\n" in data else "\n"
 
 
+def _decode_items(items):
+    """
+    decodes the items of a section which were read as latin-1, that is,
+    byte by byte
+    """
+
+    # we want at least some data, thus we ignore unknown characters
+    def decode(val):
+        return val.encode('latin-1').decode('utf-8', errors="ignore")
+
+    for key, vals in items:
+        yield decode(key), [decode("".join(vals))]
+
+
 def parse_sections(data):
     """
     yields one section at a time in the form
-- 
2.43.0


From ccc732c8d129863090aaacc38ee6543c73a7d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:06 +0000
Subject: [PATCH 40/80] fix: an empty manifest could not be parsed

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 9dfcd57..9a47add 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -387,7 +387,7 @@ class Manifest(ManifestSection):
         # the first section is the main one for the manifest. It's
         # also where we will check for our newline separator
         sections = parse_sections(data)
-        self.load(_decode_items(next(sections)))
+        self.load(_decode_items(next(sections, ())))
 
         # and all following sections are considered sub-sections
         for section in sections:
-- 
2.43.0


From d0039dd4a5085e0113c8e996382e0d539ddd7ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:06 +0000
Subject: [PATCH 41/80] fix: the digest of the whole manifest did not match the
 stored manifest

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 9a47add..b086d3c 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -541,7 +541,8 @@ class SignatureManifest(Manifest):
         accum = manifest.get_main_section()
         self[main_key] = b64_encoded_digest(accum, digest)
 
-        for sub_section in manifest.sub_sections.values():
+        # in the order in which the manifest is going to be stored
+        for sub_section in sorted(manifest.sub_sections.values()):
             sub_data = sub_section.get_data(linesep)
             sf_sect = self.create_section(sub_section.primary())
             sf_sect[sect_key] = b64_encoded_digest(sub_data, digest)
-- 
2.43.0


From bf3c44669be028f65e0cc0a7589aa77e84b908ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:06 +0000
Subject: [PATCH 42/80] fix: digest algorithms ending in letters of the suffix
 were truncated

---
 javatools/manifest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index b086d3c..ae64e90 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -305,9 +305,9 @@ class ManifestSection(OrderedDict):
 
     def keys_with_suffix(self, suffix):
         """
-        :return: list of keys ending with given :suffix:.
+        :return: list of keys ending with given :suffix:, without it.
         """
-        return [k.rstrip(suffix) for k in self.keys() if k.endswith(suffix)]
+        return [k[:-len(suffix)] for k in self.keys() if k.endswith(suffix)]
 
 
 class Manifest(ManifestSection):
-- 
2.43.0


From a1bd5a4d36483ce3ed9a67030c080a1657debb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:06 +0000
Subject: [PATCH 43/80] fix: sections were checked by the algorithms of the
 manifest, not of the signature file

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index ae64e90..2f5fc3f 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -616,7 +616,7 @@ class SignatureManifest(Manifest):
         for s in manifest.sub_sections.values():
             sf_section = self.create_section(s.primary(), overwrite=False)
 
-            digests = s.keys_with_suffix("-Digest")
+            digests = sf_section.keys_with_suffix("-Digest")
             if not digests and strict:
                 failures.append(s.primary())
                 continue
-- 
2.43.0


From 7ae5142b890933fd8675f896d9119ae1746e4545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:06 +0000
Subject: [PATCH 44/80] fix: adding digests to a manifest dropped the
 attributes of its entries

---
 javatools/manifest.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 2f5fc3f..f7e2243 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -489,7 +489,9 @@ class Manifest(ManifestSection):
             for entry in jar.namelist():
                 if file_skips_verification(entry):
                     continue
-                section = self.create_section(entry)
+                section = self.create_section(entry, overwrite=False)
+                for old_digest in section.keys_with_suffix("-Digest"):
+                    del section[old_digest + "-Digest"]
                 section[key_digest] = b64_encoded_digest(jar.read(entry),
                                                          digest)
 
-- 
2.43.0


From e0c09031cd4056b1da02acab56d197a1175749b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:06 +0000
Subject: [PATCH 45/80] fix: manifest entries of a directory had truncated
 names

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index f7e2243..d72391d 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -879,7 +879,8 @@ def directory_generator(dirname, trim=0):
 
     for dirpath, dirnames, filenames in walk(dirname):
         for fname in filenames:
-            yield join(dirpath, fname[trim:]), file_chunk(join(dirpath, fname))
+            pathname = join(dirpath, fname)
+            yield pathname[trim:], file_chunk(pathname)
 
 
 def multi_path_generator(pathnames):
-- 
2.43.0


From fe1b9d4f20b7dd518fc5fd34f5edbda6025c96ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:06 +0000
Subject: [PATCH 46/80] fix: manifest c -r looked for each character of the
 given name

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index d72391d..7cc91fe 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -977,7 +977,7 @@ def cli_create(argument_list):
     use_digests = [_get_digest(digest) for digest in requested_digests]
 
     if args.recursive:
-        entries = multi_path_generator(args.content)
+        entries = multi_path_generator([args.content])
     else:
         entries = single_path_generator(args.content)
 
-- 
2.43.0


From 2792c6d4efbbcf3956d9ceebf03e3990c27d659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 47/80] fix: manifest c failed if --ignore was given repeatedly

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 7cc91fe..fbd5210 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -985,7 +985,8 @@ def cli_create(argument_list):
 
     ignores = ["META-INF/*"]
     if args.ignore:
-        ignores.extend(*args.ignore)
+        for patterns in args.ignore:
+            ignores.extend(patterns)
 
     for name, chunks in entries:
         # skip the stuff that we were told to ignore
-- 
2.43.0


From 3ad5e041156c41c5918ead6ec5bce733b41d5575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 48/80] fix: signing without a digest algorithm failed instead
 of using the default

---
 javatools/jarutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 5507fc3..9f8367e 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -186,16 +186,16 @@ def sign(jar_file, cert_file, key_file, key_alias,
 
     mf = Manifest()
     mf.load_from_jar(jar_file)
-    mf.add_jar_entries(jar_file, digest)
+    sf_digest_algorithm = "SHA-256" if digest is None else digest
+    mf.add_jar_entries(jar_file, sf_digest_algorithm)
 
     # create a signature manifest, and make it match the line separator
     # style of the manifest it'll be digesting.
     sf = SignatureManifest(linesep=mf.linesep)
 
-    sf_digest_algorithm = "SHA-256" if digest is None else digest
     sf.digest_manifest(mf, sf_digest_algorithm)
 
-    sig_digest_algorithm = digest  # No point to make it different
+    sig_digest_algorithm = sf_digest_algorithm  # No point to make it different
     sig_block_extension = private_key_type(key_file)
 
     sigdata = sf.get_signature(cert_file, key_file,
-- 
2.43.0


From b5aeb157df9eb9fb1699524dbe578dee1a2f9690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 49/80] fix: signing again with the same alias kept the
 previous signature

---
 javatools/jarutil.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 9f8367e..0e28b56 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -209,11 +209,18 @@ def sign(jar_file, cert_file, key_file, key_alias,
         new_jar.writestr("META-INF/%s.SF" % key_alias, sf.get_data())
         new_jar.writestr("META-INF/%s.%s" % (key_alias, sig_block_extension),
                          sigdata)
-        jar = ZipFile(jar_file, "a")
-        for entry in jar.namelist():
-            # TODO: In Py2, namelist() can be of type unicode
-            if not entry.upper() == "META-INF/MANIFEST.MF":
-                new_jar.writestr(entry, jar.read(entry))
+
+        # what has just been written replaces the original entries,
+        # including a signature made earlier with the same alias
+        replaced = ["META-INF/MANIFEST.MF"]
+        for extension in ("SF", "RSA", "DSA", "EC"):
+            replaced.append(("META-INF/%s.%s" % (key_alias, extension)).upper())
+
+        with ZipFile(jar_file, "r") as jar:
+            for entry in jar.namelist():
+                # TODO: In Py2, namelist() can be of type unicode
+                if entry.upper() not in replaced:
+                    new_jar.writestr(entry, jar.read(entry))
 
         new_jar.close()
         new_jar_file.flush()
-- 
2.43.0


From 27e076b9329fbdabe5a2de3c45dd975445f8cdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 50/80] fix: the command verify of jarutil was not accepted

---
 javatools/jarutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 0e28b56..ca16516 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -373,7 +373,7 @@ def main(args=sys.argv):
         return cli_create_jar(rest)
     elif "sign".startswith(command):
         return cli_sign_jar(rest)
-    elif "view".startswith(command):
+    elif "verify".startswith(command):
         return cli_verify_jar_signature(rest)
     else:
         return usage()
-- 
2.43.0


From fa150a5c1e76f3d2bb48d86f4b1b6a8efd6e8ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:01 +0000
Subject: [PATCH 51/80] fix: entries without digests failed even if not
 verified strictly

---
 javatools/manifest.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index fbd5210..e5febb5 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -452,8 +452,9 @@ class Manifest(ManifestSection):
             file_section = self.create_section(filename, overwrite=False)
 
             digests = file_section.keys_with_suffix("-Digest")
-            if not digests and strict:
-                verify_failures.append(filename)
+            if not digests:
+                if strict:
+                    verify_failures.append(filename)
                 continue
 
             for java_digest in digests:
@@ -619,8 +620,9 @@ class SignatureManifest(Manifest):
             sf_section = self.create_section(s.primary(), overwrite=False)
 
             digests = sf_section.keys_with_suffix("-Digest")
-            if not digests and strict:
-                failures.append(s.primary())
+            if not digests:
+                if strict:
+                    failures.append(s.primary())
                 continue
 
             for java_digest in digests:
-- 
2.43.0


From 7fa87fd605991f693ea2449319416c92b9415b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:01 +0000
Subject: [PATCH 52/80] fix: sections of a manifest without line separator
 could not be verified

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index e5febb5..8bee79a 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -615,6 +615,7 @@ class SignatureManifest(Manifest):
         # fail?
 
         failures = []
+        linesep = manifest.linesep or os.linesep
 
         for s in manifest.sub_sections.values():
             sf_section = self.create_section(s.primary(), overwrite=False)
@@ -627,7 +628,7 @@ class SignatureManifest(Manifest):
 
             for java_digest in digests:
                 section_digest = b64_encoded_digest(
-                    s.get_data(manifest.linesep),
+                    s.get_data(linesep),
                     _get_digest(java_digest))
 
                 if section_digest == sf_section.get(java_digest + "-Digest"):
-- 
2.43.0


From bb7198a73b35046d8b15fcbd4cd6aaa2cb0bb370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:05 +0000
Subject: [PATCH 53/80] fix: jarutil create ignored the main class given

---
 javatools/jarutil.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index ca16516..bd9e6c2 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -227,20 +227,26 @@ def sign(jar_file, cert_file, key_file, key_alias,
         copyfile(new_jar_file.name, jar_file if output is None else output)
 
 
-def create_jar(jar_file, entries):
+def create_jar(jar_file, entries, main_class=None):
     """
     Create JAR from given entries.
     :param jar_file: filename of the created JAR
     :type jar_file: str
     :param entries: files to put into the JAR
     :type entries: list[str]
+    :param main_class: application entry point, or None
+    :type main_class: str
     :return: None
     """
 
+    manifest = Manifest()
+    if main_class:
+        manifest["Main-Class"] = main_class
+
     # 'jar' adds separate entries for directories, also for empty ones.
     with ZipFile(jar_file, "w") as jar:
         jar.writestr("META-INF/", "")
-        jar.writestr("META-INF/MANIFEST.MF", Manifest().get_data())
+        jar.writestr("META-INF/MANIFEST.MF", manifest.get_data())
         for entry in entries:
             jar.write(entry)
             if os.path.isdir(entry):
@@ -263,7 +269,7 @@ def cli_create_jar(argument_list):
                         help="Specify application entry point")
 
     args, entries = parser.parse_known_args(argument_list)
-    create_jar(args.jar_file, entries)
+    create_jar(args.jar_file, entries, args.main_class)
     return 0
 
 
-- 
2.43.0


From 92ce0ca86fed58127ada52a8dfa1978f1899fbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:05 +0000
Subject: [PATCH 54/80] fix: usage of manifest v named an option which is not
 supported

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 8bee79a..c677124 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -1018,7 +1018,7 @@ def cli_create(argument_list):
 
 def cli_verify(args):
     if len(args) != 1 or "-h" in args:
-        print("Usage: manifest v [--ignore=PATH] file.jar")
+        print("Usage: manifest v file.jar")
         return 2
 
     jarfn = args[0]
-- 
2.43.0


From af12f1810e6e3ac19d0d04c3384f719d71684774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:09 +0000
Subject: [PATCH 55/80] fix: a malformed signature block was not reported as
 failing verification

---
 javatools/crypto.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/javatools/crypto.py b/javatools/crypto.py
index da896b9..58d927f 100644
--- a/javatools/crypto.py
+++ b/javatools/crypto.py
@@ -199,8 +199,12 @@ def verify_signature_block(certificate_file, content, signature):
     """
 
     sig_bio = BIO.MemoryBuffer(signature)
-    pkcs7 = SMIME.PKCS7(m2.pkcs7_read_bio_der(sig_bio._ptr()), 1)
-    signers_cert_stack = pkcs7.get0_signers(X509.X509_Stack())
+    try:
+        pkcs7 = SMIME.PKCS7(m2.pkcs7_read_bio_der(sig_bio._ptr()), 1)
+        signers_cert_stack = pkcs7.get0_signers(X509.X509_Stack())
+    except SMIME.PKCS7_Error as message:
+        raise SignatureBlockVerificationError(message)
+
     trusted_cert_store = X509.X509_Store()
     trusted_cert_store.set_verify_cb(ignore_missing_email_protection_eku_cb)
     trusted_cert_store.load_info(certificate_file)
-- 
2.43.0


From 787275624d67e5101740c27c6c3a7389c0c6adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:00 +0000
Subject: [PATCH 56/80] fix: signatures by certificates with a key usage for
 signing were rejected

---
 javatools/crypto.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/javatools/crypto.py b/javatools/crypto.py
index 58d927f..9882407 100644
--- a/javatools/crypto.py
+++ b/javatools/crypto.py
@@ -169,9 +169,10 @@ def ignore_missing_email_protection_eku_cb(ok, ctx):
     # Do not modify the default behavior in this case.
     cert = ctx.get_current_cert()
     try:
+        # the value holds the usages by their long names
         key_usage = cert.get_ext('keyUsage').get_value()
-        if 'digitalSignature' not in key_usage \
-                and 'nonRepudiation' not in key_usage:
+        if 'Digital Signature' not in key_usage \
+                and 'Non Repudiation' not in key_usage:
             return ok
     except LookupError:
         pass
-- 
2.43.0


From a895153e21e1572fc2237cd18a1cdc82e4d81edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:20 +0000
Subject: [PATCH 57/80] fix: keep sub-reports below the report directory

Entry names of archives may be absolute or hold .. components, by which
reports were written to anywhere on the file system.
---
 javatools/report.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/javatools/report.py b/javatools/report.py
index 195bb8d..0296dda 100644
--- a/javatools/report.py
+++ b/javatools/report.py
@@ -31,7 +31,7 @@ from argparse import Action
 from Cheetah.DummyTransaction import DummyTransaction
 from functools import partial
 from json import dump, JSONEncoder
-from os.path import exists, join, relpath
+from os.path import exists, join, relpath, sep
 from six import add_metaclass
 from six.moves import range
 
@@ -109,7 +109,9 @@ class Reporter(object):
         the same output formats
         """
 
-        newbase = join(self.basedir, subpath)
+        # entry names come from the archives which are compared, and may
+        # be absolute or lead upwards
+        newbase = join(self.basedir, relpath(join(sep, subpath), sep))
         r = Reporter(newbase, entry, self.options)
 
         crumbs = list(self.breadcrumbs)
-- 
2.43.0


From 46b24f8b20bf1c6b46b1e0770808f12e3a1720a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:39 +0000
Subject: [PATCH 58/80] fix: read the parts of packed distributions from where
 they are extracted

---
 javatools/distinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/distinfo.py b/javatools/distinfo.py
index 843b47f..4778dc6 100644
--- a/javatools/distinfo.py
+++ b/javatools/distinfo.py
@@ -153,7 +153,7 @@ class DistInfo(object):
 
 
     def get_jarinfo(self, entry):
-        return JarInfo(join(self.base_path, entry))
+        return JarInfo(join(self._working_path(), entry))
 
 
     def get_classes(self):
@@ -167,7 +167,7 @@ class DistInfo(object):
 
 
     def get_classinfo(self, entry):
-        return unpack_classfile(join(self.base_path, entry))
+        return unpack_classfile(join(self._working_path(), entry))
 
 
     def get_contents(self):
-- 
2.43.0


From a39e303b0a2b214b0caf011c601d574b9e006f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:57 +0000
Subject: [PATCH 59/80] fix: JSON of a class simplifies its fields and methods

The options were passed as the member, so that --json failed for any
class with a field or method to show.
---
 javatools/classinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index ac8b84b..01127a1 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -327,7 +327,7 @@ def cli_simplify_fields(options, info):
     fields = list()
     for field in info.fields:
         if should_show(options, field):
-            fields.append(cli_simplify_field(options, field))
+            fields.append(cli_simplify_field(field))
     return fields
 
 
@@ -335,7 +335,7 @@ def cli_simplify_methods(options, info):
     methods = list()
     for method in info.methods:
         if should_show(options, method):
-            methods.append(cli_simplify_method(options, method))
+            methods.append(cli_simplify_method(method))
     return methods
 
 
-- 
2.43.0


From b0f7cad42e9f0c39dbd3d68bfecfab8330467c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:57 +0000
Subject: [PATCH 60/80] fix: classinfo shows major and minor version under
 their own label

---
 javatools/classinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index 01127a1..62327b3 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -244,8 +244,8 @@ def cli_print_classinfo(options, info):
         if info.get_enclosingmethod():
             print("  EnclosingMethod:", info.get_enclosingmethod())
         major, minor = info.get_version()
-        print("  minor version:", major)
-        print("  major version:", minor)
+        print("  minor version:", minor)
+        print("  major version:", major)
         platform = platform_from_version(*info.version) or "unknown"
         print("  Platform:", platform)
 
-- 
2.43.0


From 178459cac2bb8f6c9863d3bd4568dda9c8d280b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:08 +0000
Subject: [PATCH 61/80] fix: annotations are listed with their own index

---
 javatools/classinfo.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index 62327b3..3ff2ca6 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -83,8 +83,7 @@ def print_field(options, field):
     if options.verbose:
         if field.get_annotations():
             print("  RuntimeVisibleAnnotations:")
-            index = 0
-            for anno in field.get_annotations():
+            for index, anno in enumerate(field.get_annotations()):
                 print("  %i: %s" % (index, anno.pretty_annotation()))
 
         cv = field.get_constantvalue()
@@ -106,8 +105,7 @@ def print_method(options, method):
 
     if method.get_annotations():
         print("  RuntimeVisibleAnnotations:")
-        index = 0
-        for anno in method.get_annotations():
+        for index, anno in enumerate(method.get_annotations()):
             print("  %i: %s" % (index, anno.pretty_annotation()))
 
     code = method.get_code()
@@ -237,8 +235,7 @@ def cli_print_classinfo(options, info):
 
         if info.get_annotations():
             print("  RuntimeVisibleAnnotations:")
-            index = 0
-            for anno in info.get_annotations():
+            for index, anno in enumerate(info.get_annotations()):
                 print("  %i: %s" % (index, anno.pretty_annotation()))
 
         if info.get_enclosingmethod():
-- 
2.43.0


From e871e1f5f5059aad1463911bdd0f4aa7ca8d5095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:40 +0000
Subject: [PATCH 62/80] fix: show the sizes of archives without any data

jarinfo --zip failed with ZeroDivisionError.
---
 javatools/jarinfo.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/javatools/jarinfo.py b/javatools/jarinfo.py
index 3bb0a12..df4e627 100644
--- a/javatools/jarinfo.py
+++ b/javatools/jarinfo.py
@@ -196,11 +196,22 @@ def cli_jar_manifest_info(jarinfo):
     print()
 
 
+def compress_percent(compressed, uncompressed):
+    """
+    the compressed size in percent of the uncompressed size, which is
+    zero for archives without any data
+    """
+
+    if not uncompressed:
+        return 0.0
+    return (float(compressed) / float(uncompressed)) * 100
+
+
 def cli_jar_zip_info(jarinfo):
     zipfile = jarinfo.get_zipfile()
 
     files, dirs, comp, uncomp = zip_entry_rollup(zipfile)
-    prcnt = (float(comp) / float(uncomp)) * 100
+    prcnt = compress_percent(comp, uncomp)
 
     print("Contains %i files, %i directories" % (files, dirs))
     print("Uncompressed size is %i" % uncomp)
@@ -263,7 +274,7 @@ def cli_jarinfo_json(options, info):
     if options.zip:
         zipfile = info.get_zipfile()
         filec, dirc, totalc, totalu = zip_entry_rollup(zipfile)
-        prcnt = (float(totalc) / float(totalu)) * 100
+        prcnt = compress_percent(totalc, totalu)
 
         data["zip.type"] = zipfile.__class__.__name__
         data["zip.file_count"] = filec
-- 
2.43.0


From 34fd753ec1faa219e3e10ec2db54edc8c9e3e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:40 +0000
Subject: [PATCH 63/80] fix: JarInfo has the manifest of exploded and already
 opened archives

It was read from the named file as a zip only. jarinfo --manifest also
failed for archives without a manifest, where it means to say so.
---
 javatools/jarinfo.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/javatools/jarinfo.py b/javatools/jarinfo.py
index df4e627..4ba6eb0 100644
--- a/javatools/jarinfo.py
+++ b/javatools/jarinfo.py
@@ -164,8 +164,16 @@ class JarInfo(object):
 
 
     def get_manifest(self):
+        """
+        the manifest of the underlying zip, or None if it has none
+        """
+
+        zipfile = self.get_zipfile()
+        if "META-INF/MANIFEST.MF" not in zipfile.namelist():
+            return None
+
         mf = Manifest()
-        mf.load_from_jar(self.filename)
+        mf.parse(zipfile.read("META-INF/MANIFEST.MF"))
         return mf
 
 
@@ -178,7 +186,7 @@ class JarInfo(object):
 def cli_jar_manifest_info(jarinfo):
     mf = jarinfo.get_manifest()
 
-    if not mf:
+    if mf is None:
         print("Manifest not present.")
         print()
         return
-- 
2.43.0


From 10d6ceb502eee1c6eb04381633ac9dffccac2db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:40 +0000
Subject: [PATCH 64/80] fix: query attributes of sections with a colon in their
 name

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index c677124..36157d9 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -1044,7 +1044,8 @@ def cli_query(args):
     mf.load_from_jar(args[0])
 
     for q in args[1:]:
-        s = q.split(':', 1)
+        # attribute names have no colon, whereas section names may
+        s = q.rsplit(':', 1)
         if len(s) > 1:
             mfs = mf.sub_sections.get(s[0])
             if mfs:
-- 
2.43.0


From c88ec80aabda803c0f0a7cdf0a1d632a663d023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:17 +0000
Subject: [PATCH 65/80] fix: close the description of added methods

---
 javatools/cheetah/classdiff_MethodAdded.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/cheetah/classdiff_MethodAdded.tmpl b/javatools/cheetah/classdiff_MethodAdded.tmpl
index 9cbd415..ad72d75 100644
--- a/javatools/cheetah/classdiff_MethodAdded.tmpl
+++ b/javatools/cheetah/classdiff_MethodAdded.tmpl
@@ -12,7 +12,7 @@ b = ", ".join(info.pretty_arg_types())
 c = info.pretty_type()
 %>
 <h3><%= escape("%s(%s):%s" % (a, b, c)) %></h3>
-<div class="description">Method Added</div
+<div class="description">Method Added</div>
 #end block
 
 
-- 
2.43.0


From 2ee947dd1cbf4a0853149a1edbbfc1d6be317157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:17 +0000
Subject: [PATCH 66/80] fix: close the cells of unchanged names and types

---
 javatools/cheetah/classdiff_FieldChange.tmpl  | 4 ++--
 javatools/cheetah/classdiff_MethodChange.tmpl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/javatools/cheetah/classdiff_FieldChange.tmpl b/javatools/cheetah/classdiff_FieldChange.tmpl
index e48d100..d9fe146 100644
--- a/javatools/cheetah/classdiff_FieldChange.tmpl
+++ b/javatools/cheetah/classdiff_FieldChange.tmpl
@@ -65,7 +65,7 @@ $render_change(data.pop("FieldInvisibleAnnotationsChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= escape(subch.pretty_ldata()) %>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -85,7 +85,7 @@ $render_change(data.pop("FieldInvisibleAnnotationsChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %>
+<td><%= subch.pretty_ldata() %></td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/classdiff_MethodChange.tmpl b/javatools/cheetah/classdiff_MethodChange.tmpl
index fb17872..8de6a91 100644
--- a/javatools/cheetah/classdiff_MethodChange.tmpl
+++ b/javatools/cheetah/classdiff_MethodChange.tmpl
@@ -70,7 +70,7 @@ $render_change(data.pop("MethodCodeChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= escape(subch.pretty_ldata()) %>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -90,7 +90,7 @@ $render_change(data.pop("MethodCodeChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %>
+<td><%= subch.pretty_ldata() %></td>
 </tr>
 #end if
 #end def
-- 
2.43.0


From e1c4f18c33630c384456638122e848e249ff038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:17 +0000
Subject: [PATCH 67/80] fix: close the rows of unchanged constants

---
 javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl b/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
index 480fb0f..acd0cb3 100644
--- a/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
+++ b/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
@@ -67,8 +67,8 @@ row_class = (" is_changed")[(lt, lv) == (rt, rv)]
 #else
 <td class="const-type is_changed"><%= rt or "" %></td>
 <td class="const-value is_changed"><%= escape(str(rv or "")) %></td>
-</tr>
 #end if
+</tr>
 #end for
 
 </table>
-- 
2.43.0


From 4151e9b1e9c83c2f13fec2e929bff785d8a6edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:17 +0000
Subject: [PATCH 68/80] fix: no attribute twice in HTML reports

---
 javatools/cheetah/report.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/cheetah/report.tmpl b/javatools/cheetah/report.tmpl
index 78e9ac9..8fb280a 100644
--- a/javatools/cheetah/report.tmpl
+++ b/javatools/cheetah/report.tmpl
@@ -32,7 +32,7 @@ $change.__class__.__name__
 
 #block head_javascripts
 #if not getattr($options, "html_no_jquery", False)
-<script type="text/javascript" src="http://ajax.googleapis.com/ajax/libs/jquery/1.7.1/jquery.min.js" type="text/javascript"></script>
+<script type="text/javascript" src="http://ajax.googleapis.com/ajax/libs/jquery/1.7.1/jquery.min.js"></script>
 #end if
 #for js in $javascripts
 <script type="text/javascript" src="$js"></script>
-- 
2.43.0


From 45f1b19c1ac9c26b5a679af3929a1e74ded2a033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:14 +0000
Subject: [PATCH 69/80] fix: escape annotations in HTML reports

---
 javatools/cheetah/classdiff_AnnotationsChange.tmpl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/javatools/cheetah/classdiff_AnnotationsChange.tmpl b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
index d969e17..7b7c916 100644
--- a/javatools/cheetah/classdiff_AnnotationsChange.tmpl
+++ b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
@@ -32,7 +32,7 @@ $render_annotations($change.get_ldata())
 #for index in range(0, len(annos))
 <tr>
 <td class="const-index"><%= index %></td>
-<td class="const-value"><%= annos[index].pretty_annotation() %></td>
+<td class="const-value"><%= escape(annos[index].pretty_annotation()) %></td>
 </tr>
 #end for
 </table>
@@ -56,14 +56,14 @@ $render_annotations($change.get_ldata())
 <tr>
 <td class="const-index"><%= index %></td>
 <td class="const-value">
-<%= (la and la.pretty_annotation()) or "" %></td>
+<%= escape((la and la.pretty_annotation()) or "") %></td>
 
 #if (la == ra)
 <td class="const-value is_unchanged">
-<%= (ra and ra.pretty_annotation()) or "" %></td>
+<%= escape((ra and ra.pretty_annotation()) or "") %></td>
 #else
 <td class="const-value is_changed">
-<%= (ra and ra.pretty_annotation()) or "" %></td>
+<%= escape((ra and ra.pretty_annotation()) or "") %></td>
 #end if
 </tr>
 <% index += 1 %>
-- 
2.43.0


From d759c866675d17746aac6bae145992a66361b9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:14 +0000
Subject: [PATCH 70/80] fix: escape names and types in HTML reports

---
 .../cheetah/classdiff_ClassInfoChange.tmpl     | 18 +++++++++---------
 javatools/cheetah/classdiff_FieldChange.tmpl   |  6 +++---
 javatools/cheetah/classdiff_MethodChange.tmpl  | 18 +++++++++---------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/javatools/cheetah/classdiff_ClassInfoChange.tmpl b/javatools/cheetah/classdiff_ClassInfoChange.tmpl
index 94329f4..36645a5 100644
--- a/javatools/cheetah/classdiff_ClassInfoChange.tmpl
+++ b/javatools/cheetah/classdiff_ClassInfoChange.tmpl
@@ -39,15 +39,15 @@ $sub_deprecation(data["ClassDeprecationChange"][0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 <tr>
-<td><%= subch.pretty_rdata() %></td>
+<td><%= escape(subch.pretty_rdata()) %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -83,15 +83,15 @@ $sub_deprecation(data["ClassDeprecationChange"][0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(str(subch.pretty_ldata())) %></td>
 </tr>
 <tr>
-<td class="is_changed"><%= subch.pretty_rdata() %></td>
+<td class="is_changed"><%= escape(str(subch.pretty_rdata())) %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(str(subch.pretty_ldata())) %></td>
 </tr>
 #end if
 #end def
@@ -103,16 +103,16 @@ $sub_deprecation(data["ClassDeprecationChange"][0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= ", ".join(subch.pretty_ldata()) or "(None)" %></td>
+<td><%= escape(", ".join(subch.pretty_ldata()) or "(None)") %></td>
 </tr>
 <tr>
 <td class="is_changed">
-<%= ", ".join(subch.pretty_rdata()) or "(None)" %></td>
+<%= escape(", ".join(subch.pretty_rdata()) or "(None)") %></td>
 </tr>
 #elif subch.get_ldata()
 <tr>
 <th>$label</th>
-<td><%= ", ".join(subch.pretty_ldata()) %></td>
+<td><%= escape(", ".join(subch.pretty_ldata())) %></td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/classdiff_FieldChange.tmpl b/javatools/cheetah/classdiff_FieldChange.tmpl
index d9fe146..1b3a888 100644
--- a/javatools/cheetah/classdiff_FieldChange.tmpl
+++ b/javatools/cheetah/classdiff_FieldChange.tmpl
@@ -77,15 +77,15 @@ $render_change(data.pop("FieldInvisibleAnnotationsChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 <tr>
-<td><%= subch.pretty_rdata() %></td>
+<td><%= escape(subch.pretty_rdata()) %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/classdiff_MethodChange.tmpl b/javatools/cheetah/classdiff_MethodChange.tmpl
index 8de6a91..8a21a84 100644
--- a/javatools/cheetah/classdiff_MethodChange.tmpl
+++ b/javatools/cheetah/classdiff_MethodChange.tmpl
@@ -82,15 +82,15 @@ $render_change(data.pop("MethodCodeChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 <tr>
-<td><%= subch.pretty_rdata() %></td>
+<td><%= escape(subch.pretty_rdata()) %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -102,15 +102,15 @@ $render_change(data.pop("MethodCodeChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 <tr>
-<td>(<%= ", ".join(subch.pretty_rdata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_rdata())) %>)</td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 #end if
 #end def
@@ -167,15 +167,15 @@ $render_change(data.pop("MethodCodeChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 <tr>
-<td class="is_changed">(<%= ", ".join(subch.pretty_rdata()) %>)</td>
+<td class="is_changed">(<%= escape(", ".join(subch.pretty_rdata())) %>)</td>
 </tr>
 #elif subch.get_ldata()
 <tr>
 <th>$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 #end if
 #end def
-- 
2.43.0


From ec78bc49d98987d0d651eadd6320e1b5243de09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:41 +0000
Subject: [PATCH 71/80] fix: escape quotes in HTML reports

---
 javatools/cheetah/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/javatools/cheetah/__init__.py b/javatools/cheetah/__init__.py
index cb78896..1f56214 100644
--- a/javatools/cheetah/__init__.py
+++ b/javatools/cheetah/__init__.py
@@ -61,6 +61,7 @@ def xml_entity_escape(data):
     data = data.replace("&", "&amp;")
     data = data.replace(">", "&gt;")
     data = data.replace("<", "&lt;")
+    data = data.replace('"', "&quot;")
     return data
 
 
-- 
2.43.0


From eb7cd7c7daf64a85cf3f9fdd0464d108b213d3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:41 +0000
Subject: [PATCH 72/80] fix: escape links in HTML reports

---
 javatools/cheetah/report.tmpl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/javatools/cheetah/report.tmpl b/javatools/cheetah/report.tmpl
index 8fb280a..4b6508f 100644
--- a/javatools/cheetah/report.tmpl
+++ b/javatools/cheetah/report.tmpl
@@ -1,3 +1,4 @@
+#from javatools.cheetah import xml_entity_escape as escape
 <?xml version="1.0" encoding="UTF-8"?>
 <!DOCTYPE html 
      PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"
@@ -25,7 +26,7 @@ $change.__class__.__name__
 
 #block head_stylesheets
 #for ss in $stylesheets
-<link rel="stylesheet" type="text/css" href="$ss" />
+<link rel="stylesheet" type="text/css" href="$escape($ss)" />
 #end for
 #end block
 
@@ -35,7 +36,7 @@ $change.__class__.__name__
 <script type="text/javascript" src="http://ajax.googleapis.com/ajax/libs/jquery/1.7.1/jquery.min.js"></script>
 #end if
 #for js in $javascripts
-<script type="text/javascript" src="$js"></script>
+<script type="text/javascript" src="$escape($js)"></script>
 #end for
 #end block
 
@@ -59,7 +60,7 @@ $change.__class__.__name__
 #from os.path import join
 <ul class="breadcrumbs">
 #for p,t in $breadcrumbs
-<li><a href="<%= join(p,t+".html") %>"><%= t %></a></li>
+<li><a href="<%= escape(join(p,t+".html")) %>"><%= escape(t) %></a></li>
 #end for
 <li>$title</li>
 </ul>
-- 
2.43.0


From 396eb2d19167e840dd92c60b75e39a0759671880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:10 +0000
Subject: [PATCH 73/80] fix: link to the sub-reports of entries with special
 characters

---
 javatools/cheetah/change_SquashedChange.tmpl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/javatools/cheetah/change_SquashedChange.tmpl b/javatools/cheetah/change_SquashedChange.tmpl
index 216885e..de14ca1 100644
--- a/javatools/cheetah/change_SquashedChange.tmpl
+++ b/javatools/cheetah/change_SquashedChange.tmpl
@@ -1,4 +1,6 @@
 #extends javatools.cheetah.change_Change
+#from os.path import join, relpath, sep
+#from six.moves.urllib.parse import quote
 #from javatools.cheetah import xml_entity_escape as escape
 #implements respond
 
@@ -27,7 +29,8 @@ cl = " ".join(cl)
 <%
 change = getattr(self, "change")
 oc = change.origclass
-uri = "%s/%s.html" % (change.entry, oc.report_name)
+subdir = relpath(join(sep, change.entry), sep)
+uri = quote("%s/%s.html" % (subdir, oc.report_name))
 %>
 $escape($change.entry)
 <span class="moreinfo">[<a href="<%= uri %>">details</a>]</span>
-- 
2.43.0


From cbc833af289f3aa29ca2f1ebbe5de157910c652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:54 +0000
Subject: [PATCH 74/80] fix: name what changed in HTML reports

---
 javatools/cheetah/change_Change.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/cheetah/change_Change.tmpl b/javatools/cheetah/change_Change.tmpl
index e68b7fb..989b562 100644
--- a/javatools/cheetah/change_Change.tmpl
+++ b/javatools/cheetah/change_Change.tmpl
@@ -23,7 +23,7 @@ cl = " ".join(cl)
 
 #block description
 <div class="description">
-$escape($change.label)
+$escape($change.get_description())
 </div>
 #end block
 
-- 
2.43.0


From 47cc04a43953f922368c3f9f884d1317822109dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:40 +0000
Subject: [PATCH 75/80] fix: verifying a signature left the archive open

---
 javatools/jarutil.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index bd9e6c2..098b593 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -85,8 +85,12 @@ def verify(certificate, jar_file, sf_name=None):
     failure of the whole validation.
     """  # noqua
 
+    with ZipFile(jar_file) as zip_file:
+        _verify_archive(certificate, jar_file, sf_name, zip_file)
+
+
+def _verify_archive(certificate, jar_file, sf_name, zip_file):
     # Step 0: get the "key alias", used also for naming of sig-related files.
-    zip_file = ZipFile(jar_file)
     sf_files = [f for f in zip_file.namelist() if file_matches_sigfile(f)]
 
     if len(sf_files) == 0:
-- 
2.43.0


From 7f0ce6b8ca0110055095fe61c0fd0e9e44d87f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:40 +0000
Subject: [PATCH 76/80] fix: close the archive being written when signing fails

---
 javatools/jarutil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 098b593..d122a8f 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -207,8 +207,8 @@ def sign(jar_file, cert_file, key_file, key_alias,
 
     # We might just add new entries to the original JAR, but jarsigner puts
     # all META-INF/ to the beginning of the archive. Let's do the same.
-    with NamedTemporaryFile() as new_jar_file:
-        new_jar = ZipFile(new_jar_file, "w", ZIP_DEFLATED)
+    with NamedTemporaryFile() as new_jar_file, \
+         ZipFile(new_jar_file, "w", ZIP_DEFLATED) as new_jar:
         new_jar.writestr("META-INF/MANIFEST.MF", mf.get_data())
         new_jar.writestr("META-INF/%s.SF" % key_alias, sf.get_data())
         new_jar.writestr("META-INF/%s.%s" % (key_alias, sig_block_extension),
-- 
2.43.0


From 1e060b504f2384b406c4860ded37276a2f65aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:40 +0000
Subject: [PATCH 77/80] fix: verifying checksums left the archive open

---
 javatools/manifest.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 36157d9..b9ac1b9 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -442,9 +442,13 @@ class Manifest(ManifestSection):
         :return: list of entries for which verification has failed
         """
 
+        with ZipFile(jar_file) as zip_file:
+            return self._verify_archive_checksums(zip_file, strict)
+
+
+    def _verify_archive_checksums(self, zip_file, strict):
         verify_failures = []
 
-        zip_file = ZipFile(jar_file)
         for filename in zip_file.namelist():
             if file_skips_verification(filename):
                 continue
-- 
2.43.0


From ff7dc1f3f690f9bb138a19ffad918992a6565157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:40 +0000
Subject: [PATCH 78/80] fix: manifest c left files open when it failed

---
 javatools/manifest.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index b9ac1b9..0130aa1 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -949,11 +949,10 @@ def single_path_generator(pathname):
             yield entry
 
     else:
-        zf = ZipFile(pathname)
-        for f in zf.namelist():
-            if f[-1] != '/':
-                yield f, zipentry_chunk(zf, f)
-        zf.close()
+        with ZipFile(pathname) as zf:
+            for f in zf.namelist():
+                if f[-1] != '/':
+                    yield f, zipentry_chunk(zf, f)
 
 
 def cli_create(argument_list):
@@ -1010,14 +1009,10 @@ def cli_create(argument_list):
         # we'll output to the manifest file if specified, and we'll
         # even create parent directories for it, if necessary
         makedirsp(split(args.manifest)[0])
-        output = open(args.manifest, "wb")
+        with open(args.manifest, "wb") as output:
+            mf.store(output)
     else:
-        output = sys.stdout
-
-    mf.store(output)
-
-    if args.manifest:
-        output.close()
+        mf.store(sys.stdout)
 
 
 def cli_verify(args):
-- 
2.43.0


From f97d21169db75ef23f810bca5b5d676ce56d7967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:40 +0000
Subject: [PATCH 79/80] fix: distinfo left archives open and temporary files
 behind when it failed

---
 javatools/distinfo.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/javatools/distinfo.py b/javatools/distinfo.py
index 4778dc6..a30adba 100644
--- a/javatools/distinfo.py
+++ b/javatools/distinfo.py
@@ -90,13 +90,12 @@ class DistInfo(object):
         p = set()
 
         for entry in self.get_jars():
-            ji = self.get_jarinfo(entry)
-            for sym, data in ji.get_requires().items():
-                req.setdefault(sym, []).append((REQ_BY_JAR, entry, data))
-            for sym, data in ji.get_provides().items():
-                prov.setdefault(sym, []).append((PROV_BY_JAR, entry, data))
-                p.add(sym)
-            ji.close()
+            with self.get_jarinfo(entry) as ji:
+                for sym, data in ji.get_requires().items():
+                    req.setdefault(sym, []).append((REQ_BY_JAR, entry, data))
+                for sym, data in ji.get_provides().items():
+                    prov.setdefault(sym, []).append((PROV_BY_JAR, entry, data))
+                    p.add(sym)
 
         for entry in self.get_classes():
             ci = self.get_classinfo(entry)
@@ -246,12 +245,15 @@ def cli(options):
     pathn = options.dist
     info = DistInfo(pathn)
 
-    if options.json:
-        cli_distinfo_json(options, info)
-    else:
-        cli_distinfo(options, info)
+    try:
+        if options.json:
+            cli_distinfo_json(options, info)
+        else:
+            cli_distinfo(options, info)
+
+    finally:
+        info.close()
 
-    info.close()
     return 0
 
 
-- 
2.43.0


From 7b8b9be7465caa9f2238a2870af8f8457e57d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:18 +0000
Subject: [PATCH 80/80] fix: distdiff hung if comparing a file failed while
 helpers were running

---
 javatools/distdiff.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 9a15d0e..41115ee 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -480,9 +480,16 @@ class DistReport(DistChange):
                 process.start()
 
             # while the helpers are running, perform our checks
-            for change in changes:
-                if change:
-                    change.check()
+            try:
+                for change in changes:
+                    if change:
+                        change.check()
+
+            except Exception:
+                # the helpers don't exit before their results are read
+                for _i in range(0, task_count):
+                    results.get()
+                raise
 
             # get all of the results and feed them back into our change
             failures = list()
-- 
2.43.0

