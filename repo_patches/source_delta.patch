From 18dc14059b540f798218ac59e7d602d14f15e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:58 +0000
Subject: [PATCH 01/68] fix: reject a date that matches none of its formats

The test for the last format was off by one, so unparseable text silently
became a null date.
---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ea6d191..92a4de4 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -918,7 +918,7 @@ class Date(Field, RangeMixin):
                 try:
                     return iso8601.parse_date(value).date()
                 except iso8601.ParseError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
@@ -926,7 +926,7 @@ class Date(Field, RangeMixin):
                 try:
                     return datetime.datetime.strptime(value, spec).date()
                 except ValueError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
-- 
2.43.0


From cfe02e6f5f6792cf38d94f3bac19c848684d8f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 02/68] fix: report text that is not a decimal as invalid

decimal.InvalidOperation is not a ValueError, so it escaped from the mapping.
---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 92a4de4..da371ac 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -857,7 +857,10 @@ class Decimal(Number):
         if isinstance(path.value, numbers.Number):
             return decimal.Decimal(path.value)
         value = path.primitive(six.string_types[0])
-        return decimal.Decimal(value)
+        try:
+            return decimal.Decimal(value)
+        except decimal.InvalidOperation:
+            raise ValueError('"{0}" is not a decimal'.format(value))
 
 
 class Boolean(Field):
-- 
2.43.0


From 1dce057524dc1f2daf5766c56ba84494d9f321d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:16 +0000
Subject: [PATCH 03/68] fix: report an integer too large for a float as invalid

OverflowError escaped from the mapping.
---
 pilo/source/__init__.py | 5 ++++-
 pilo/source/json.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index ed5ece5..0630f7d 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -238,7 +238,10 @@ class ParserMixin(object):
         if isinstance(value, (float)):
             pass
         elif isinstance(value, six.integer_types):
-            value = float(value)
+            try:
+                value = float(value)
+            except OverflowError:
+                raise self.error(path, '"{0}" is not a float'.format(value))
         elif isinstance(value, six.string_types):
             try:
                 value = float(value)
diff --git a/pilo/source/json.py b/pilo/source/json.py
index 118bf5a..a0d115a 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -67,7 +67,10 @@ class JsonSource(Source):
         if isinstance(value, (float)):
             return value
         if isinstance(value, six.integer_types):
-            return float(value)
+            try:
+                return float(value)
+            except OverflowError:
+                raise self.error(field, '{0} is not a float'.format(value))
         if not self.strict:
             if isinstance(value, six.string_types):
                 try:
-- 
2.43.0


From 78f8e9e18042dda4d349e3b7a7d10ed28c756981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:20 +0000
Subject: [PATCH 04/68] fix: a bounded number field does not accept NaN

NaN passed both bounds of a float and raised InvalidOperation for a decimal.
---
 pilo/fields.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index da371ac..cfbf6ea 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -793,6 +793,12 @@ class Number(Field):
         if not super(Number, self)._validate(value):
             return False
         if value is not None:
+            if (
+                (self.min_value is not None or self.max_value is not None) and
+                (value.is_nan() if isinstance(value, decimal.Decimal) else value != value)
+            ):
+                self.ctx.errors.invalid('"{0}" is not in range'.format(value))
+                return False
             if self.min_value is not None and value < self.min_value:
                 self.ctx.errors.invalid('"{0}" must be >= {1}'.format(
                     value, self.min_value
-- 
2.43.0


From 4ddf15d379d548146c7403b794857835aae3e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:39 +0000
Subject: [PATCH 05/68] fix: a literal source key ending in () is not a call

Keys come from the input for Dict fields, groups and unmapped capture, so that an
input key such as "clear()" called that method on the input and modified it.
---
 pilo/source/default.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 4620093..fbea468 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -52,6 +52,10 @@ class DefaultPath(Path):
 
     def resolve(self, container, part):
         if isinstance(part.key, six.string_types) and part.key.endswith('()'):
+            if not self.src.ignore(self):
+                value = self._as_item(container, part.key)
+                if value is not NONE:
+                    return value
             part = copy.copy(part)
             part.key = part.key[:-2]
             value = self.resolve(container, part)
-- 
2.43.0


From fe4dfef73d337f999a876ad91d5502ee1a4c9161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:14 +0000
Subject: [PATCH 06/68] fix: methods of a source container are not its values

A field named e.g. items or copy that was missing from a dict source got the bound
method of the dict instead of its default.
---
 pilo/source/default.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index fbea468..31828bf 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -1,5 +1,6 @@
 import collections
 import copy
+import inspect
 import six
 
 from . import Source, Path, ParserMixin, NONE
@@ -7,7 +8,7 @@ from . import Source, Path, ParserMixin, NONE
 
 class DefaultPath(Path):
 
-    def _resolve(self, container, atom):
+    def _resolve(self, container, atom, call=False):
         if self.src.ignore(self):
             return NONE
         value = self._as_item(container, atom)
@@ -16,7 +17,7 @@ class DefaultPath(Path):
         value = self._as_alias(container, atom)
         if value is not NONE:
             return value
-        return self._as_attr(container, atom)
+        return self._as_attr(container, atom, call)
 
     def _as_item(self, container, atom):
         try:
@@ -30,12 +31,19 @@ class DefaultPath(Path):
             return self._as_item(container, alias)
         return NONE
 
-    def _as_attr(self, container, atom):
+    def _as_attr(self, container, atom, call=False):
         if isinstance(atom, six.string_types):
             try:
-                return getattr(container, atom)
+                value = getattr(container, atom)
             except (AttributeError, TypeError):
                 return NONE
+            # e.g. a missing "items" key is not dict.items
+            if (
+                not call and inspect.isroutine(value) and
+                isinstance(container, (collections.Mapping, collections.Sequence))
+            ):
+                return NONE
+            return value
         return NONE
 
     # Path
@@ -50,7 +58,7 @@ class DefaultPath(Path):
         parts.append(super(DefaultPath, self).__str__())
         return ':'.join(parts)
 
-    def resolve(self, container, part):
+    def resolve(self, container, part, call=False):
         if isinstance(part.key, six.string_types) and part.key.endswith('()'):
             if not self.src.ignore(self):
                 value = self._as_item(container, part.key)
@@ -58,17 +66,17 @@ class DefaultPath(Path):
                     return value
             part = copy.copy(part)
             part.key = part.key[:-2]
-            value = self.resolve(container, part)
+            value = self.resolve(container, part, call=True)
             if value is NONE:
                 return NONE
             return value()
 
         if isinstance(part.key, six.string_types):
-            value = self._resolve(container, part.key)
+            value = self._resolve(container, part.key, call)
             if value is NONE:
                 value = container
                 for atom in part.key.split('.'):
-                    value = self._resolve(value, atom)
+                    value = self._resolve(value, atom, call)
                     if value is NONE:
                         break
         else:
-- 
2.43.0


From 1c1ed0b688f3a785e81922b43fd2e1022b2de263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:18 +0000
Subject: [PATCH 07/68] fix: text in a native source is a primitive, not a
 sequence

A list field split text into its characters, also if it was to allow a bare field.
---
 pilo/source/default.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 31828bf..fdfad42 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -105,7 +105,10 @@ class DefaultSource(Source, ParserMixin):
         return DefaultPath(self, self.location)
 
     def sequence(self, path):
-        if isinstance(path.value, (collections.Sequence, list, tuple)):
+        if (
+            isinstance(path.value, (collections.Sequence, list, tuple)) and
+            not isinstance(path.value, six.string_types + (six.binary_type,))
+        ):
             return len(path.value)
         raise self.error(path, 'is not a sequence')
 
-- 
2.43.0


From 8edeed997fdd6f5046f4b002d584348a3dda5b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:21 +0000
Subject: [PATCH 08/68] fix: nothing exists below a path that does not exist

A second look at a path below a missing one resolved against the NONE constant
itself, so that e.g. "name" became the text "NONE".
---
 pilo/source/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 0630f7d..062702a 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -101,9 +101,9 @@ class Path(collections.MutableSequence):
             i, value = 0, self.root
 
         for part in self.parts[i:]:
-            value = part.value = self.resolve(value, part)
             if value is NONE:
                 break
+            value = part.value = self.resolve(value, part)
 
         return value
 
-- 
2.43.0


From fdb878f5a45d387dbf6043f0501fa59c313e5428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:24 +0000
Subject: [PATCH 09/68] fix: rewinding to the innermost frame keeps the stack

stack[-0:] is the whole stack, so that it was emptied and never restored.
---
 pilo/context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pilo/context.py b/pilo/context.py
index 103b1e1..73e378c 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -136,11 +136,12 @@ class Context(threading.local):
         """
         for i, frame in enumerate(reversed(self.stack)):
             if stop(frame):
-                frames = self.stack[-i:]
+                depth = len(self.stack) - i
                 break
         else:
             raise RewindDidNotStop()
-        del self.stack[-i:]
+        frames = self.stack[depth:]
+        del self.stack[depth:]
         if self.src_path is not None:
             for frame in frames:
                 if 'src_path' in frame:
-- 
2.43.0


From 4384cb8451819a3da9db5735f4c5d184cfb8ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:11 +0000
Subject: [PATCH 10/68] fix: formatting a field without a value is invalid

The format was filled with the repr of the NONE, NOT_SET or ERROR constant.
---
 pilo/fields.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index cfbf6ea..8f8089b 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -695,7 +695,12 @@ class String(Field):
             values = {}
             try:
                 for name, field in six.iteritems(kwargs):
-                    values[name] = six.moves.reduce(getattr, field.split('.'), self.ctx.form)
+                    value = self.ctx.form
+                    for attr in field.split('.'):
+                        value = getattr(value, attr)
+                        if value in IGNORE:
+                            raise AttributeError('"{0}" has no value'.format(field))
+                    values[name] = value
             except AttributeError as ex:
                 self.ctx.errors.invalid(str(ex))
                 return ERROR
-- 
2.43.0


From dc874bc0bacaae2cc7b67f527fdfac1303964874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:15 +0000
Subject: [PATCH 11/68] fix: field errors keep the path they occurred at

They shared the live source path, which is empty again once the mapping is over.
---
 pilo/fields.py          |  2 +-
 pilo/source/__init__.py |  6 ++++++
 pilo/source/mount.py    | 10 ++++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 8f8089b..9c0242c 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -115,7 +115,7 @@ class FieldError(ValueError):
     def __init__(self, message, field):
         super(FieldError, self).__init__(message)
         self.field = field
-        self.path = field.ctx.src_path
+        self.path = copy.copy(field.ctx.src_path)
 
 
 class Missing(FieldError):
diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 062702a..d28ef42 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -114,6 +114,12 @@ class Path(collections.MutableSequence):
         else:
             self[-1].value = obj
 
+    def __copy__(self):
+        other = type(self).__new__(type(self))
+        other.__dict__.update(self.__dict__)
+        other.parts = list(self.parts)
+        return other
+
     def resolve(self, container, part):
         raise NotImplementedError()
 
diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 251965d..81f2bd4 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 import six
 
 from . import PathPart, Source, NONE, DefaultSource
@@ -13,6 +14,15 @@ class MountPath(collections.MutableSequence):
             (key, src.path()) for key, src in src.srcs.iteritems()
         )
 
+    def __copy__(self):
+        other = type(self).__new__(type(self))
+        other.__dict__.update(self.__dict__)
+        other.dne = copy.copy(self.dne)
+        other.paths = dict(
+            (key, copy.copy(path)) for key, path in six.iteritems(self.paths)
+        )
+        return other
+
     @property
     def path(self):
         return self.paths.get(self.part.key, self.dne) if self.part else None
-- 
2.43.0


From 7baf457295eadc926e4f9e4f3ed07ed8982a3c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:19 +0000
Subject: [PATCH 12/68] fix: Form.has reports fields without a value as such

It looked the field up on the instance, which evaluates it, and so raised for every
field that was not in the form.
---
 pilo/fields.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 9c0242c..41ec981 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1692,14 +1692,14 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
             name = field
             if name in self:
                 return True
-            field = getattr(self, name, None)
-            if field is None:
+            field = getattr(type(self), name, None)
+            if not isinstance(field, Field):
                 return False
         elif not isinstance(field, Field):
             raise TypeError('{0!r} is not string for Field'.format(field))
         try:
-            return field.__get__(self) is not None
-        except LookupError:
+            return field.__get__(self, type(self)) is not None
+        except (LookupError, AttributeError, FieldError, FormError):
             return False
 
     def flatten(self):
-- 
2.43.0


From e464acbd9ef1f1e39bca9f0cf2e59d796e7a86ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:23 +0000
Subject: [PATCH 13/68] fix: json sources work without the encoding argument of
 json.loads

It was ignored since Python 3.1 and removed in 3.9.
---
 pilo/source/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index a0d115a..b4b219f 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -40,7 +40,9 @@ class JsonSource(Source):
         self.strict = strict
         self.location = location
         self.text = text
-        self.data = json.loads(text, encoding=encoding)
+        if encoding is not None and isinstance(text, six.binary_type):
+            text = text.decode(encoding)
+        self.data = json.loads(text)
 
     def as_string(self, field, value):
         if isinstance(value, six.string_types):
-- 
2.43.0


From cab1ac5b365890486cec260f7d12cf4357aa5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:26 +0000
Subject: [PATCH 14/68] fix: a literal key with dots in a json source is found

Entries with such keys were missing for Dict fields.
---
 pilo/source/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index b4b219f..4cd47d0 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -23,7 +23,10 @@ class JsonPath(Path):
 
     def resolve(self, container, part):
         try:
-            if not isinstance(part.key, six.string_types) or '.' not in part.key:
+            if (
+                not isinstance(part.key, six.string_types) or '.' not in part.key or
+                (isinstance(container, dict) and part.key in container)
+            ):
                 return container[part.key]
             value = container
             for atom in part.key.split('.'):
-- 
2.43.0


From 62dbd02d062418a4dd7bbb23486b4a3f5534196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:29 +0000
Subject: [PATCH 15/68] fix: mounted sources work on Python 3 and report their
 errors

---
 pilo/source/mount.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 81f2bd4..46e6c0b 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -8,10 +8,11 @@ from . import PathPart, Source, NONE, DefaultSource
 class MountPath(collections.MutableSequence):
 
     def __init__(self, src):
+        self.src = src
         self.part = None
         self.dne = DefaultSource({}).path()
         self.paths = dict(
-            (key, src.path()) for key, src in src.srcs.iteritems()
+            (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
 
     def __copy__(self):
@@ -70,12 +71,12 @@ class MountPath(collections.MutableSequence):
 
     def primitive(self, *types):
         if self.part is None:
-            raise self.error(self, 'not a primitive')
+            raise self.src.error(self, 'not a primitive')
         return self.paths[self.part.key].primitive(*types)
 
     def sequence(self):
         if self.part is None:
-            raise self.error(self, 'not a sequence')
+            raise self.src.error(self, 'not a sequence')
         return self.paths[self.part.key].sequence()
 
     def mapping(self):
-- 
2.43.0


From b16f5811016b418f54041a0f9124cceba771addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:32 +0000
Subject: [PATCH 16/68] fix: union sources give native values and uncached
 conversions to fields

Decimal, date, time and datetime fields looked at the unconverted path value, which
is an internal object in a union, and a cached untyped value was returned
unchecked where text was asked for, e.g. by UUID fields.
---
 pilo/fields.py       | 21 ++++++++++++---------
 pilo/source/union.py |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 41ec981..cc15bb0 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -863,10 +863,11 @@ class Float(Number):
 class Decimal(Number):
 
     def _parse(self, path):
-        if isinstance(path.value, decimal.Decimal):
-            return path.value
-        if isinstance(path.value, numbers.Number):
-            return decimal.Decimal(path.value)
+        value = path.primitive()
+        if isinstance(value, decimal.Decimal):
+            return value
+        if isinstance(value, numbers.Number):
+            return decimal.Decimal(value)
         value = path.primitive(six.string_types[0])
         try:
             return decimal.Decimal(value)
@@ -916,8 +917,9 @@ class Date(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        if isinstance(path.value, datetime.date):
-            return path.value
+        value = path.primitive()
+        if isinstance(value, datetime.date):
+            return value
         value = path.primitive(six.string_types[0])
         if not self._format:
             self.ctx.errors.invalid('Unknown format for value "{0}"'.format(value))
@@ -972,7 +974,7 @@ class Time(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        value = path.value
+        value = path.primitive()
         if isinstance(value, (time.struct_time, datetime.time)):
             return value
         value = path.primitive(six.string_types[0])
@@ -1011,8 +1013,9 @@ class Datetime(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        if isinstance(path.value, datetime.datetime):
-            return path.value
+        value = path.primitive()
+        if isinstance(value, datetime.datetime):
+            return value
         value = path.primitive(six.string_types[0])
         if self._format == 'iso8601':
             try:
diff --git a/pilo/source/union.py b/pilo/source/union.py
index 8bba843..f5d6c18 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -112,7 +112,7 @@ class UnionSource(Source):
 
     def primitive(self, path, *types):
         if isinstance(path.value, Join):
-            path.value = path.value.primitive(*types)
+            return path.value.primitive(*types)
         return path.value
 
 
-- 
2.43.0


From f7d084a02acc0b93b1b102e9e4425e80ee8279ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:36 +0000
Subject: [PATCH 17/68] fix: nulls in union sources are nulls

A null was handed to the field parsers as if it were a value.
---
 pilo/source/union.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index f5d6c18..8b084d2 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -30,6 +30,8 @@ class UnionPath(Path):
     def is_null(self):
         if super(UnionPath, self).is_null:
             return True
+        if isinstance(self.value, Join):
+            return all(path.is_null for path in self.value.paths)
         if isinstance(self.value, Mapping):
             return len(self.value.mappings) == 0
         if isinstance(self.value, Sequence):
@@ -129,9 +131,10 @@ class Join(Source):
         return Sequence(self.src, self.paths)
 
     def primitive(self, *types):
-        if not self.paths:
-            return NONE
-        return self.paths[0].primitive(*types)
+        for path in self.paths:
+            if not path.is_null:
+                return path.primitive(*types)
+        return NONE
 
     # Source
 
-- 
2.43.0


From 8a23f4bc4bff573e29f354eb443fd71354ebef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:40 +0000
Subject: [PATCH 18/68] fix: the merge depth of mappings is a depth

It was compared with the number of sources.
---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 8b084d2..8feb62e 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -150,7 +150,7 @@ class Mapping(collections.Mapping):
         mappings = []
         if merge is None:
             merge = src.mapping_merge
-            if src.merge_depth is not None and src.merge_depth <= len(paths):
+            if src.merge_depth is not None and src.merge_depth <= len(paths[0]):
                 merge = 'first'
         if merge not in ('first', 'last', 'combine'):
             raise ValueError('merge="{0}" invalid'.format(merge))
-- 
2.43.0


From 8f77f5861492bf2cc62f8b76741465877ada0994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:00 +0000
Subject: [PATCH 19/68] fix: config sources from text, without defaults, and
 iterated

Reading text or a file, any section of a source without defaults, and listing the
options of a section on Python 3 all failed with an AttributeError.
---
 pilo/source/configparser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 84a5538..a704aff 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -60,7 +60,7 @@ class SectionMapping(collections.Mapping):
         self.config = config
         self.section = section
         pattern = r'(?P<name>[\w\_]+)\[(?P<key>[\w\_\-\.]+)\]'
-        self.defaults = defaults
+        self.defaults = defaults or {}
         self.sub_mappings = collections.defaultdict(dict)
         for option, value in self.config.items(section):
             m = re.match(pattern, option)
@@ -78,7 +78,7 @@ class SectionMapping(collections.Mapping):
         raise KeyError(key)
 
     def __iter__(self):
-        for k, v in self.sub_mappings.iteritems():
+        for k, v in six.iteritems(self.sub_mappings):
             yield k
         for k, v in self.config.items(self.section):
             yield k
@@ -91,7 +91,7 @@ class Mapping(collections.Mapping):
 
     def __init__(self, config, defaults=None):
         self.config = config
-        self.defaults = defaults
+        self.defaults = defaults or {}
 
     def __getitem__(self, key):
         if not self.config.has_section(key):
@@ -131,8 +131,8 @@ class ConfigSource(Source, ParserMixin):
         if isinstance(config, six.string_types):
             parser = six.moves.configparser.ConfigParser()
             if preserve_case:
-                config.optionxform = lambda x: x
-            parser.readfp(six.moves.StringIO.StringIO(config))
+                parser.optionxform = lambda x: x
+            parser.readfp(six.moves.StringIO(config))
             config = parser
         self.config = config
         self.section = section
-- 
2.43.0


From dcb1ccf6a97b0289b9d99df0db81129795abb6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:03 +0000
Subject: [PATCH 20/68] fix: in-line code is executed in its module

exec(code) in dict only does that on Python 2.
---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index cc15bb0..3b6b137 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1237,7 +1237,7 @@ class Code(Field):
     def compile(cls, name, code, **code_globals):
         module = imp.new_module('<{0}>'.format(name))
         module.__dict__.update(code_globals)
-        exec(code) in module.__dict__
+        six.exec_(code, module.__dict__)
         return module
 
     def _parse(self, path):
-- 
2.43.0


From a466132e3045abb105f9afff6f891159d8cfbe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:06 +0000
Subject: [PATCH 21/68] fix: code fields resolve attributes in the named module

__import__ returns the top-level package, so package.module:attribute failed.
---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 3b6b137..2533f1c 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -47,6 +47,7 @@ import sys
 import datetime
 import decimal
 import imp
+import importlib
 import inspect
 import numbers
 import re
@@ -1224,7 +1225,7 @@ class Code(Field):
 
     @classmethod
     def load(cls, name, attr):
-        module = __import__(name)
+        module = importlib.import_module(name)
         try:
             obj = six.moves.reduce(getattr, attr.split('.'), module)
         except AttributeError:
-- 
2.43.0


From 8e901158af77c219eba6de41c6da93d0cc954cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:24 +0000
Subject: [PATCH 22/68] fix: Field.from_context works on Python 3

contextlib.nested is gone.
---
 pilo/fields.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 2533f1c..35a7e9e 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -41,7 +41,6 @@ This defines `Form` and the `Field`s use to build them. Use it like:
         print form.payload.sfield
 
 """
-import contextlib
 import copy
 import sys
 import datetime
@@ -432,10 +431,14 @@ class Field(CreatedCountMixin, ContextMixin):
     def from_context(self):
 
         def resolve(self):
-            return contextlib.nested(
-                self.ctx(src=DefaultSource(self.ctx)),
-                self.ctx(src=self.src),
-            )
+            self.ctx(src=DefaultSource(self.ctx))
+            self.ctx(src=self.src)
+
+            def close():
+                self.ctx.restore()
+                self.ctx.restore()
+
+            return Close(close)
 
         self.resolve.attach(self)(resolve)
         return self
-- 
2.43.0


From 36ef15ccb8280fd5fecfbca635e62c3a8bce840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:28 +0000
Subject: [PATCH 23/68] fix: mapping does not touch the process-wide warning
 filters

catch_warnings is not thread-safe: overlapping mappings in two threads left the
filters changed. The warning it hid was that of contextlib.nested, now unused.
---
 pilo/fields.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 35a7e9e..f0cf023 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -53,7 +53,6 @@ import re
 import six
 import time
 import uuid
-import warnings
 import weakref
 
 try:
@@ -1650,24 +1649,20 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return dict_field.map()
 
     def _root_map(self, src, tags, unmapped, error):
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                'ignore', 'With-statements now directly support multiple context managers'
-            )
-            if src is None:
-                src = self._map_source({})
-            elif isinstance(src, dict):
-                src = self._map_source(src)
-            elif isinstance(src, (list, tuple)):
-                src = self._seq_source(src)
-            elif isinstance(src, Source):
-                pass
-            else:
-                raise ValueError('Invalid src, expected None, dict or Source')
-            errors = (CollectErrors if error == 'collect' else RaiseErrors)()
-            with self.ctx(src=src, errors=errors):
-                self._map(tags, unmapped)
-                errors = self.ctx.errors
+        if src is None:
+            src = self._map_source({})
+        elif isinstance(src, dict):
+            src = self._map_source(src)
+        elif isinstance(src, (list, tuple)):
+            src = self._seq_source(src)
+        elif isinstance(src, Source):
+            pass
+        else:
+            raise ValueError('Invalid src, expected None, dict or Source')
+        errors = (CollectErrors if error == 'collect' else RaiseErrors)()
+        with self.ctx(src=src, errors=errors):
+            self._map(tags, unmapped)
+            errors = self.ctx.errors
         return errors
 
     def _nested_map(self, tags, unmapped, error):
-- 
2.43.0


From 71812dafa0f9cc51924c8b7933cb7d1d115f1be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:04 +0000
Subject: [PATCH 24/68] fix: copy forms that have a field named items

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index f0cf023..82d2cef 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1762,6 +1762,6 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
 
     def copy(self):
         dst = type(self)()
-        for k, v in six.iteritems(self):
-            dst[k] = v
+        for k in self:
+            dst[k] = self[k]
         return dst
-- 
2.43.0


From a3a688316b950c5c5d509739f3e9a78603cda1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:07 +0000
Subject: [PATCH 25/68] fix: evaluate fields of a form that has a field named
 src

Looking for the source of the form evaluated that field without end.
---
 pilo/fields.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 82d2cef..234b234 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -628,10 +628,14 @@ class Field(CreatedCountMixin, ContextMixin):
         if self.name in form:
             return form[self.name]
         if getattr(self.ctx, 'form', None) is None:
+            if isinstance(getattr(type(form), 'src', None), Field):
+                src = DefaultSource({})
+            else:
+                src = getattr(form, 'src', DefaultSource({}))
             with self.ctx(
                      form=form,
                      parent=form,
-                     src=getattr(form, 'src', DefaultSource({})),
+                     src=src,
                      errors=RaiseErrors()
                  ):
                 value = self.map()
-- 
2.43.0


From 8683fa610c8642cff0480e59063ee6b7dbbda5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:11 +0000
Subject: [PATCH 26/68] fix: positional sources reach fields that have their
 own source key

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 234b234..16825ce 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1606,7 +1606,8 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return DefaultSource(
             obj,
             aliases=dict(
-                (field.name, i) for i, field in enumerate(self.fields)
+                (field.name if field.src in (None, NONE) else field.src, i)
+                for i, field in enumerate(type(self).fields)
             )
         )
 
-- 
2.43.0


From 048345c58202ecdd093da1e013e09ef6f4e87dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:15 +0000
Subject: [PATCH 27/68] fix: a null has no parent to attach

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 16825ce..0cc0842 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -612,7 +612,7 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         with self.ctx(field=self, parent=self):
             value = self._map(value)
-        if self.attach_parent and value not in IGNORE:
+        if self.attach_parent and value is not None and value not in IGNORE:
             if hasattr(self.ctx, 'parent'):
                 value.parent = weakref.proxy(self.ctx.parent)
             else:
-- 
2.43.0


From 6ba8f5c2749e6c0b16c303a3c3d5e78a95e5ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:18 +0000
Subject: [PATCH 28/68] fix: source mappings can have keys other than text and
 integers

Such keys, e.g. null or a float, failed with an AttributeError.
---
 pilo/source/__init__.py | 8 +++++---
 pilo/source/mount.py    | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index d28ef42..3dfc933 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -83,8 +83,10 @@ class Path(collections.MutableSequence):
             for part in self[1:]:
                 if isinstance(part.key, six.integer_types):
                     part = '[{0}]'.format(part.key)
-                else:
+                elif isinstance(part.key, six.string_types):
                     part = '.' + part.key
+                else:
+                    part = '.{0}'.format(part.key)
                 parts.append(part)
         return ''.join(parts)
 
@@ -155,7 +157,7 @@ class Path(collections.MutableSequence):
     # collections.MutableSequence
 
     def __setitem__(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         self.parts[index] = value
 
@@ -163,7 +165,7 @@ class Path(collections.MutableSequence):
         del self.parts[index]
 
     def insert(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         self.parts.insert(index, value)
 
diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 46e6c0b..2806296 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -95,7 +95,7 @@ class MountPath(collections.MutableSequence):
     # collections.MutableSequence
 
     def __setitem__(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         if index < 0:
             index = len(self) + index
@@ -119,7 +119,7 @@ class MountPath(collections.MutableSequence):
         del self.path[index - 1]
 
     def insert(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         if index < 0:
             index = len(self) + index
-- 
2.43.0


From 916510b6207d5a66fbfe698e1554a38b3286fbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:22 +0000
Subject: [PATCH 29/68] fix: the tags option takes a collection of tags

A list or dict of tags was itself used as the tag and failed as unhashable.
---
 pilo/fields.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 0cc0842..9598588 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -392,7 +392,12 @@ class Field(CreatedCountMixin, ContextMixin):
             self.attach_parent = attach_parent
 
         if tags is not NOT_SET:
-            self.tag(tags)
+            if isinstance(tags, dict):
+                self.tag(**tags)
+            elif isinstance(tags, (list, tuple, set, frozenset)):
+                self.tag(*tags)
+            else:
+                self.tag(tags)
 
         return self
 
-- 
2.43.0


From 16bfce136a30103515827ba1fdf6137dc619ef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:26 +0000
Subject: [PATCH 30/68] fix: required keys can be any collection, like their
 default

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 9598588..0e41b78 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1205,10 +1205,10 @@ class Dict(Field):
             return False
         if value is not None:
             if self.required_keys:
-                missing_keys = self.required_keys.difference(value.keys())
+                missing_keys = [key for key in self.required_keys if key not in value]
                 if missing_keys:
                     self.ctx.errors.invalid('Missing required keys {0}'.format(
-                        ', '.join(missing_keys)
+                        ', '.join(str(key) for key in missing_keys)
                     ))
                     return False
             if self.max_keys and len(value) > self.max_keys:
-- 
2.43.0


From b88f5eee18c145ca2eeec15bf2ba318084e25e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:30 +0000
Subject: [PATCH 31/68] fix: choices can be any sequence

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 0e41b78..96dd871 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -771,7 +771,7 @@ class String(Field):
                 value, self.pattern_re.pattern
             ))
             return False
-        if self.choices and value not in self.choices + list(self.translations.values()):
+        if self.choices and value not in list(self.choices) + list(self.translations.values()):
             if len(self.choices) == 1:
                 self.ctx.errors.invalid('"{0}" is not "{1}"'.format(
                     value, self.choices[0],
-- 
2.43.0


From 4fc7fa2e1b686fb1538fbb8f9599628a6c3e97d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:33 +0000
Subject: [PATCH 32/68] fix: translating a field with a value that is not
 hashable

An untyped field with translations failed on input that is a list or mapping.
---
 pilo/fields.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 96dd871..0784bf6 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -530,8 +530,11 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         Possibly munges a value.
         """
-        if self.translations and value in self.translations:
-            value = self.translations[value]
+        try:
+            if self.translations and value in self.translations:
+                value = self.translations[value]
+        except TypeError:
+            pass  # not hashable, so not translated
         return value
 
     def _default(self):
-- 
2.43.0


From a952c9fb85a27c538c3ecc774feea2330a84ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:37 +0000
Subject: [PATCH 33/68] fix: a float pattern yields floats

It converted the matched text to an integer.
---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 0784bf6..1970ded 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -867,7 +867,7 @@ class Float(Number):
                 raise ValueError('{0} does not match pattern "{1}"'.format(
                     value, pattern_re.pattern
                 ))
-            return int(m.group(0))
+            return float(m.group(0))
 
         return self.parse(parse)
 
-- 
2.43.0


From 4891302cbcf2e7ddb1b15121666cbdc217ce9eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 34/68] fix: report a mapping key of another type than its
 constraints as invalid

Keys are not parsed, so e.g. an integer key of a string key field with a
length, or a text key of a bounded integer one, raised TypeError.
---
 pilo/fields.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 1970ded..3e5afa2 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1197,7 +1197,11 @@ class Dict(Field):
                 value = self.value_field.map()
                 if value in IGNORE:
                     continue
-            key = self.key_field(key)
+            try:
+                key = self.key_field(key)
+            except TypeError as ex:  # e.g. another type than its bounds
+                self.ctx.errors.invalid(str(ex))
+                continue
             if key in IGNORE:
                 continue
             mapping[key] = value
-- 
2.43.0


From a2c9a436cb987ece90d9b994e02184bdc824ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:14 +0000
Subject: [PATCH 35/68] fix: group patterns match only text keys

A mapping with a key that is not text next to a group with a pattern raised
TypeError.
---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 3e5afa2..9077efa 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1473,7 +1473,7 @@ class Group(Field):
             if isinstance(src, six.string_types):
                 if src == key:
                     return field, None
-            else:
+            elif isinstance(key, six.string_types):
                 m = src.match(key)
                 if m is not None:
                     return field, m
-- 
2.43.0


From 7ee9d9f3facee39f7aca00af48ec4928c8ab4194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:40 +0000
Subject: [PATCH 36/68] fix: report a time that cannot be compared to its
 bounds as invalid

A native datetime in a bounded date field, or an aware datetime in one with
naive bounds, raised TypeError out of the mapping.
---
 pilo/fields.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 9077efa..23c2d3e 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -965,11 +965,15 @@ class Date(Field, RangeMixin):
         if not super(Date, self)._validate(value):
             return False
         if value is not None:
-            if self.after_value is not None and value < self.after_value:
-                self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
-                return False
-            if self.before_value is not None and value > self.before_value:
-                self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
+            try:
+                if self.after_value is not None and value < self.after_value:
+                    self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
+                    return False
+                if self.before_value is not None and value > self.before_value:
+                    self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
+                    return False
+            except TypeError as ex:  # e.g. a datetime and a date
+                self.ctx.errors.invalid(str(ex))
                 return False
         return True
 
@@ -1004,11 +1008,15 @@ class Time(Field, RangeMixin):
         if not super(Time, self)._validate(value):
             return False
         if value is not None:
-            if self.after_value is not None and value < self.after_value:
-                self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
-                return False
-            if self.before_value is not None and value > self.before_value:
-                self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
+            try:
+                if self.after_value is not None and value < self.after_value:
+                    self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
+                    return False
+                if self.before_value is not None and value > self.before_value:
+                    self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
+                    return False
+            except TypeError as ex:  # e.g. a datetime and a date
+                self.ctx.errors.invalid(str(ex))
                 return False
         return True
 
@@ -1049,11 +1057,15 @@ class Datetime(Field, RangeMixin):
         if not super(Datetime, self)._validate(value):
             return False
         if value is not None:
-            if self.after_value is not None and value < self.after_value:
-                self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
-                return False
-            if self.before_value is not None and value > self.before_value:
-                self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
+            try:
+                if self.after_value is not None and value < self.after_value:
+                    self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
+                    return False
+                if self.before_value is not None and value > self.before_value:
+                    self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
+                    return False
+            except TypeError as ex:  # e.g. a datetime and a date
+                self.ctx.errors.invalid(str(ex))
                 return False
         return True
 
-- 
2.43.0


From 65670bd2deb4edaaeba2a39b7bb1315dd26fd68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:36 +0000
Subject: [PATCH 37/68] fix: a capturing string field takes null like other
 fields

A null source value raised TypeError out of the mapping.
---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 23c2d3e..02094a7 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -732,6 +732,8 @@ class String(Field):
             pattern = re.compile(pattern)
 
         def munge(self, value):
+            if value is None:
+                return value
             match = pattern.match(value)
             if not match:
                 return NONE
-- 
2.43.0


From ecb169c6ed3993eb52614ce6bae83da833a54a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:23 +0000
Subject: [PATCH 38/68] fix: nothing exists under a key that is not mounted

---
 pilo/source/mount.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 2806296..ed6f1c3 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -10,7 +10,7 @@ class MountPath(collections.MutableSequence):
     def __init__(self, src):
         self.src = src
         self.part = None
-        self.dne = DefaultSource({}).path()
+        self.dne = DefaultSource(NONE).path()
         self.paths = dict(
             (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
@@ -72,12 +72,12 @@ class MountPath(collections.MutableSequence):
     def primitive(self, *types):
         if self.part is None:
             raise self.src.error(self, 'not a primitive')
-        return self.paths[self.part.key].primitive(*types)
+        return self.path.primitive(*types)
 
     def sequence(self):
         if self.part is None:
             raise self.src.error(self, 'not a sequence')
-        return self.paths[self.part.key].sequence()
+        return self.path.sequence()
 
     def mapping(self):
         if self.part is None:
-- 
2.43.0


From ecad408ef0f313c1f34ba4ef57e4296bc86413d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 39/68] fix: union sources leave the list they are given as it
 is

---
 pilo/source/union.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 8feb62e..fed451b 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -77,6 +77,7 @@ class UnionSource(Source):
         merge_depth=None,
     ):
         super(UnionSource, self).__init__()
+        srcs = list(srcs)
         for i, src in enumerate(srcs):
             if isinstance(src, Source):
                 continue
-- 
2.43.0


From 45b5fa3ab6723c4d60c3f50f5103bb59c6bf1d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:47 +0000
Subject: [PATCH 40/68] fix: values of context variables with names of dict
 methods

---
 pilo/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/context.py b/pilo/context.py
index 73e378c..c45ce89 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -112,7 +112,7 @@ class Context(threading.local):
         """
         Each value with name `k`.
         """
-        return [getattr(frame, k) for frame in self.stack if hasattr(frame, k)]
+        return [frame[k] for frame in self.stack if k in frame]
 
     def reset(self):
         """
-- 
2.43.0


From c802af664cda57c2eca94723ae925a209b44ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:19 +0000
Subject: [PATCH 41/68] fix: union sources keep their values when fields read
 others

---
 pilo/context.py      |  9 +++++----
 pilo/source/union.py | 27 +++++----------------------
 2 files changed, 10 insertions(+), 26 deletions(-)

diff --git a/pilo/context.py b/pilo/context.py
index c45ce89..317186b 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -142,13 +142,14 @@ class Context(threading.local):
             raise RewindDidNotStop()
         frames = self.stack[depth:]
         del self.stack[depth:]
+        parts = []
         if self.src_path is not None:
             for frame in frames:
                 if 'src_path' in frame:
                     break
                 if 'src' in frame:
-                    self.src_path.pop()
-        return Close(functools.partial(self.restore, frames))
+                    parts.append(self.src_path.pop())
+        return Close(functools.partial(self.restore, frames, parts))
 
     def push(self, **kwargs):
         """
@@ -164,7 +165,7 @@ class Context(threading.local):
     #: Alias for `push`.
     __call__ = push
 
-    def restore(self, frames=None):
+    def restore(self, frames=None, parts=None):
         """
         """
         if frames is None:
@@ -177,7 +178,7 @@ class Context(threading.local):
                     if 'src_path' in frame:
                         break
                     if 'src' in frame:
-                        self.src_path.append(frame.src)
+                        self.src_path.append(parts.pop() if parts else frame.src)
             self.stack.extend(frames)
 
 
diff --git a/pilo/source/union.py b/pilo/source/union.py
index fed451b..0f9e77f 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 
 from . import Path, PathPart, Source, NONE, DefaultSource
 
@@ -44,27 +45,6 @@ class UnionPath(Path):
         except (IndexError, KeyError, TypeError):
             return NONE
 
-    # collections.MutableSequence
-
-    def __setitem__(self, index, value):
-        super(UnionPath, self).__setitem__(index, value)
-        if isinstance(value, PathPart):
-            value = value.key
-        for path in self.paths:
-            path[index] = value
-
-    def __delitem__(self, index):
-        super(UnionPath, self).__delitem__(index)
-        for path in self.paths:
-            del path[index]
-
-    def insert(self, index, value):
-        super(UnionPath, self).insert(index, value)
-        if isinstance(value, PathPart):
-            value = value.key
-        for path in self.paths:
-            path.insert(index, value)
-
 
 class UnionSource(Source):
 
@@ -182,6 +162,8 @@ class Mapping(collections.Mapping):
         paths = []
         for path, keys in self.mappings:
             if key in keys:
+                path = copy.copy(path)
+                path.append(key)
                 paths.append(path)
         if not paths:
             raise KeyError(key)
@@ -232,7 +214,8 @@ class Sequence(collections.Sequence):
             offset += length
         else:
             raise IndexError(key)
-        path[-1].key -= offset
+        path = copy.copy(path)
+        path.append(key - offset)
         return Join(self.src, [path])
 
     def __len__(self):
-- 
2.43.0


From 5649548d7cb432c3a575fd197b9b6c51393c0ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:49 +0000
Subject: [PATCH 42/68] fix: nulls of mounted unions are nulls

---
 pilo/source/mount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index ed6f1c3..e810a3c 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -67,7 +67,7 @@ class MountPath(collections.MutableSequence):
     def is_null(self):
         if self.part is None:
             return False
-        return self.value is None
+        return self.path.is_null
 
     def primitive(self, *types):
         if self.part is None:
-- 
2.43.0


From fedfbafbfe48e7180dfa06556c5dae8a65c013c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:58 +0000
Subject: [PATCH 43/68] fix: polymorphic sub-forms select their class from any
 kind of source

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 02094a7..846c75c 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1408,7 +1408,8 @@ class PolymorphicSubForm(Field):
 
     def _form_type(self, path):
         try:
-            identity = self.type_field.probe(path.value)
+            with self.ctx(errors=CollectErrors()):
+                identity = self.type_field.probe(None)
         except ValueError as ex:
             self.ctx.errors.invalid(str(ex))
             return ERROR
-- 
2.43.0


From 067848a5c9d8f09623d32d37556244663fb53762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:04 +0000
Subject: [PATCH 44/68] fix: a field given to a group by itself is looked up
 below its own key

---
 pilo/fields.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 846c75c..90cc348 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1443,7 +1443,9 @@ class Group(Field):
                 raise ValueError(
                     'field{0}.src is not set'.format(_path(*path))
                 )
-            self.fields.append((obj.src, obj))
+            field = obj.clone()
+            field.src = None  # resolved by the key that matches
+            self.fields.append((obj.src, field))
 
         def _add_tuple(obj, *path):
             if len(obj) != 2:
-- 
2.43.0


From 086b35b24e7ec2dd9732a4a6933581ced5589d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:03 +0000
Subject: [PATCH 45/68] fix: rewriting or filtering a form turns its tuples
 into lists

---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 90cc348..844c608 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1779,7 +1779,10 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                     if isinstance(item, Form):
                         item = item.munge(func)
                     items.append(item)
-                value = items
+                if isinstance(value, list):
+                    value = items
+                elif any(isinstance(item, Form) for item in value):
+                    value = tuple(items)
             form[field.name] = value
         return form
 
-- 
2.43.0


From 51d3f8f85d8db44482bdb425efb640541c626f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:18 +0000
Subject: [PATCH 46/68] fix: formatting a native time replaces the format of
 the field

---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 844c608..b1520f2 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -991,6 +991,8 @@ class Time(Field, RangeMixin):
     def format(self, value):
         if isinstance(value, time.struct_time):
             return time.strftime(self._format, value)
+        if isinstance(value, datetime.time):
+            return value.strftime(self._format)
         self._format = value
         return self
 
-- 
2.43.0


From 75101eb17d9ac37d0e1e7dc9b119d77329984a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:21 +0000
Subject: [PATCH 47/68] fix: iso8601 dates and datetimes format as the word
 iso8601

---
 pilo/fields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index b1520f2..6bc2f74 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -929,6 +929,8 @@ class Date(Field, RangeMixin):
                 format = self._format[0]
             else:
                 format = self._format
+            if format == 'iso8601':
+                return value.isoformat()
             return value.strftime(format)
         self._format = value
         return self
@@ -1035,6 +1037,8 @@ class Datetime(Field, RangeMixin):
 
     def format(self, value):
         if isinstance(value, datetime.date):
+            if self._format == 'iso8601':
+                return value.isoformat()
             return value.strftime(self._format)
         self._format = value
         return self
-- 
2.43.0


From 09ef24926e88d52814bf0a4ac065c929cc72692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:08 +0000
Subject: [PATCH 48/68] fix: code references with trailing text load what
 precedes it

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 6bc2f74..fd29113 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1248,7 +1248,7 @@ class Dict(Field):
 
 class Code(Field):
 
-    pattern = re.compile(r'(?:(?P<module>[\w\.]+):)?(?P<attr>[\w\.]+)')
+    pattern = re.compile(r'(?:(?P<module>[\w\.]+):)?(?P<attr>[\w\.]+)$')
 
     @classmethod
     def inline_match(cls, value):
-- 
2.43.0


From cf99abbbe255a0d7ec2c4ec864ef599aa5e19ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:01 +0000
Subject: [PATCH 49/68] fix: a source key that calls what is not callable
 raises TypeError

---
 pilo/source/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index fdfad42..f4a2df7 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -67,7 +67,7 @@ class DefaultPath(Path):
             part = copy.copy(part)
             part.key = part.key[:-2]
             value = self.resolve(container, part, call=True)
-            if value is NONE:
+            if value is NONE or not callable(value):
                 return NONE
             return value()
 
-- 
2.43.0


From 41bf3ccbbebdffef3b5e2fed2664ade96b85a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:04 +0000
Subject: [PATCH 50/68] fix: ignored keys and aliases depend on when a path is
 resolved

---
 pilo/source/default.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index f4a2df7..dbba0a7 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -8,13 +8,13 @@ from . import Source, Path, ParserMixin, NONE
 
 class DefaultPath(Path):
 
-    def _resolve(self, container, atom, call=False):
-        if self.src.ignore(self):
+    def _resolve(self, container, atom, depth, call=False):
+        if self.src.ignore(self[:depth]):
             return NONE
         value = self._as_item(container, atom)
         if value is not NONE:
             return value
-        value = self._as_alias(container, atom)
+        value = self._as_alias(container, atom, depth)
         if value is not NONE:
             return value
         return self._as_attr(container, atom, call)
@@ -25,8 +25,8 @@ class DefaultPath(Path):
         except (IndexError, KeyError, TypeError):
             return NONE
 
-    def _as_alias(self, container, atom):
-        if self.src.aliases and atom in self.src.aliases and len(self) == 1:
+    def _as_alias(self, container, atom, depth):
+        if self.src.aliases and atom in self.src.aliases and depth == 1:
             alias = self.src.aliases[atom]
             return self._as_item(container, alias)
         return NONE
@@ -58,29 +58,32 @@ class DefaultPath(Path):
         parts.append(super(DefaultPath, self).__str__())
         return ':'.join(parts)
 
-    def resolve(self, container, part, call=False):
+    def resolve(self, container, part, call=False, depth=None):
+        if depth is None:
+            # the parts below are not resolved yet
+            depth = [p is part for p in self].index(True) + 1
         if isinstance(part.key, six.string_types) and part.key.endswith('()'):
-            if not self.src.ignore(self):
+            if not self.src.ignore(self[:depth]):
                 value = self._as_item(container, part.key)
                 if value is not NONE:
                     return value
             part = copy.copy(part)
             part.key = part.key[:-2]
-            value = self.resolve(container, part, call=True)
+            value = self.resolve(container, part, call=True, depth=depth)
             if value is NONE or not callable(value):
                 return NONE
             return value()
 
         if isinstance(part.key, six.string_types):
-            value = self._resolve(container, part.key, call)
+            value = self._resolve(container, part.key, depth, call)
             if value is NONE:
                 value = container
                 for atom in part.key.split('.'):
-                    value = self._resolve(value, atom, call)
+                    value = self._resolve(value, atom, depth, call)
                     if value is NONE:
                         break
         else:
-            value = self._resolve(container, part.key)
+            value = self._resolve(container, part.key, depth)
         return value
 
 
-- 
2.43.0


From 373fb5c59e7a5cca8f0f1d2ed83ff7ee73b967ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 51/68] fix: capture unmapped keys in a form with a field named
 update

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index fd29113..8f497a7 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1666,7 +1666,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                     self[field.name] = value
         unmapped = self._unmapped(unmapped)
         if unmapped is not None:
-            self.update(unmapped)
+            dict.update(self, unmapped)
 
     def _unmapped(self, directive):
         if not directive:
-- 
2.43.0


From 505cb9e1d7b68d5872af936b32a6e3e8e9249807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 52/68] fix: value of an abstract type field is a hook

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 8f497a7..17e4d51 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1346,7 +1346,7 @@ class Type(String):
 
     @property
     def value(self):
-        if self.default in IGNORE:
+        if isinstance(self.default, Hook) or self.default in IGNORE:
             if not self.choices:
                 raise TypeError('{0} is abstract'.format(self))
             raise TypeError('{0} is polymorphic'.format(self))
-- 
2.43.0


From e24dcc284123d5f40285bf3dd8e1e6cac056c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:24 +0000
Subject: [PATCH 53/68] fix: polymorphic forms defined after the first cast are
 not found

---
 pilo/fields.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 17e4d51..75f5f9f 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1354,6 +1354,9 @@ class Type(String):
 
     def cast(self, value):
         identity = self.probe(value)
+        if identity not in self.types:
+            # e.g. a class defined since
+            self.types = Types.map(self)
         if identity not in self.types:
             raise ValueError('{0} value {1} invalid'.format(self, identity))
         return self.types[identity]
@@ -1421,6 +1424,9 @@ class PolymorphicSubForm(Field):
             return ERROR
         if identity is None:
             return NONE
+        if identity not in self.type_field.types:
+            # e.g. a class defined since
+            self.type_field.types = Types.map(self.type_field)
         if identity not in self.type_field.types:
             self.ctx.errors.invalid('invalid identity {0}'.format(identity))
             return ERROR
-- 
2.43.0


From 4aef6d83f8b9f122939b707231be70187fd24938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:27 +0000
Subject: [PATCH 54/68] fix: reading a primitive as a subclass of its type
 fails

---
 pilo/source/__init__.py | 2 +-
 pilo/source/json.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 3dfc933..6430a4a 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -293,7 +293,7 @@ class ParserMixin(object):
 
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
diff --git a/pilo/source/json.py b/pilo/source/json.py
index 4cd47d0..e4c60c6 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -113,7 +113,7 @@ class JsonSource(Source):
                 return self.parsers[t]
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
-- 
2.43.0


From 94cc44a543d56cb704071adce21f5c87b8ea3cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:30 +0000
Subject: [PATCH 55/68] fix: message of an invalid sequence merge

---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 0f9e77f..9b7252c 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -200,7 +200,7 @@ class Sequence(collections.Sequence):
             elif merge == 'last':
                 sequences[0] = (path, length)
             else:
-                raise ValueError('merge="{1}" invalid'.format(merge))
+                raise ValueError('merge="{0}" invalid'.format(merge))
         self.src = src
         self.sequences = sequences
 
-- 
2.43.0


From 0fd4ff49ddb437d94dada594c0690a23864ad763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:33 +0000
Subject: [PATCH 56/68] fix: negative indexes of merged sequences

---
 pilo/source/union.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 9b7252c..f35a0c1 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -207,6 +207,10 @@ class Sequence(collections.Sequence):
     # collections.Sequence
 
     def __getitem__(self, key):
+        if key < 0:
+            key += len(self)
+            if key < 0:
+                raise IndexError(key)
         offset = 0
         for path, length in self.sequences:
             if key < offset + length:
-- 
2.43.0


From aa91e260bbdf39748f5a66ee5cb0034147ef78a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:37 +0000
Subject: [PATCH 57/68] fix: config sections fail when asked for a key that is
 not text

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index a704aff..d4ff9db 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -71,7 +71,7 @@ class SectionMapping(collections.Mapping):
     def __getitem__(self, key):
         if key in self.sub_mappings:
             return self.sub_mappings[key]
-        if self.config.has_option(self.section, key):
+        if isinstance(key, six.string_types) and self.config.has_option(self.section, key):
             return self.config.get(self.section, key)
         if key in self.defaults:
             return self.defaults[key]
-- 
2.43.0


From f09a86450554025590a005d48830a895838746b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:22 +0000
Subject: [PATCH 58/68] fix: path values go stale when its parts are edited

---
 pilo/source/__init__.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 6430a4a..e543602 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -159,15 +159,28 @@ class Path(collections.MutableSequence):
     def __setitem__(self, index, value):
         if not isinstance(value, PathPart):
             value = PathPart(key=value)
+        index = range(len(self.parts))[index]
         self.parts[index] = value
+        self._unresolve(index + 1)
 
     def __delitem__(self, index):
+        index = range(len(self.parts))[index]
         del self.parts[index]
+        self._unresolve(index)
 
     def insert(self, index, value):
         if not isinstance(value, PathPart):
             value = PathPart(key=value)
+        if index < 0:
+            index = max(0, len(self.parts) + index)
         self.parts.insert(index, value)
+        self._unresolve(index + 1)
+
+    def _unresolve(self, index):
+        """
+        Parts after an edited one do not lead where they did.
+        """
+        self.parts[index:] = [PathPart(part.key) for part in self.parts[index:]]
 
 
 class Source(object):
-- 
2.43.0


From ed343feea61112132088be9af38e1d4381cdb7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:13 +0000
Subject: [PATCH 59/68] fix: names exported by pilo.fields

---
 pilo/fields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 75f5f9f..f3dcea5 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -71,7 +71,7 @@ else:
 
 
 __all__ = [
-    'Field'
+    'Field',
     'String',
     'Integer',
     'Int',
@@ -79,8 +79,8 @@ __all__ = [
     'Decimal',
     'Boolean',
     'Bool',
-    'List'
-    'Dict'
+    'List',
+    'Dict',
     'SubForm',
     'Form',
 ]
-- 
2.43.0


From 77bc9fed60083addf42778f1b55edc864c16bf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:15 +0000
Subject: [PATCH 60/68] fix: string length and dict max_keys of zero are
 ignored

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index f3dcea5..efa1017 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -682,7 +682,7 @@ class String(Field):
 
     def __init__(self, *args, **kwargs):
         length = kwargs.pop('length', None)
-        if length:
+        if length is not None:
             if isinstance(length, (list, tuple)):
                 self.min_length, self.max_length = length
             else:
@@ -1238,7 +1238,7 @@ class Dict(Field):
                         ', '.join(str(key) for key in missing_keys)
                     ))
                     return False
-            if self.max_keys and len(value) > self.max_keys:
+            if self.max_keys is not None and len(value) > self.max_keys:
                 self.ctx.errors.invalid('Cannot have more than {0} key(s)'.format(
                     self.max_keys
                 ))
-- 
2.43.0


From 196e66bb3f664dc518b915cb93eb7aff4b7712c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:17 +0000
Subject: [PATCH 61/68] fix: hooks of fields that capture unmapped keys are
 called with an enclosing form

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index efa1017..281401a 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1670,7 +1670,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                 value = field.map()
                 if value not in IGNORE:
                     self[field.name] = value
-        unmapped = self._unmapped(unmapped)
+            unmapped = self._unmapped(unmapped)
         if unmapped is not None:
             dict.update(self, unmapped)
 
-- 
2.43.0


From f1b4b60b84e7cda36172af1224e5a7d820afa3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:20 +0000
Subject: [PATCH 62/68] fix: absent optional identity fails to probe

---
 pilo/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pilo/__init__.py b/pilo/__init__.py
index 1dddad3..c4f1612 100644
--- a/pilo/__init__.py
+++ b/pilo/__init__.py
@@ -95,6 +95,9 @@ class Types(dict):
         probe = self.type_form()
         errors = probe.map(src)
         if not errors:
+            if self.type_field.name not in probe:
+                # optional
+                return None
             return self.type_field.__get__(probe)
         if default in IGNORE:
             raise errors[0]
-- 
2.43.0


From 669ddba66edee591491f9a6492deb78606693fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:25 +0000
Subject: [PATCH 63/68] fix: whitespace preserved for the wrong lines of a
 configuration

---
 pilo/source/configparser.py | 40 ++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index d4ff9db..708c72e 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -140,22 +140,34 @@ class ConfigSource(Source, ParserMixin):
         self.defaults = defaults
         self.preserve_whitespace = preserve_whitespace
 
-    def as_raw(self, path):
-        option = str(path[-1])
-        lines = []
+    def as_raw(self, path, value):
+        keys = [part.key for part in path]
+        section = self.section or keys.pop(0)
+        option = self.config.optionxform(
+            keys[0] if len(keys) == 1 else '{0}[{1}]'.format(*keys)
+        )
+        current, first, lines = None, None, []
         with open(self.location, 'r') as fo:
-            section_header = '[{0}]'.format(self.section)
             for line in fo:
-                if line.strip() == section_header:
+                if line[0].isspace():
+                    if first is not None:
+                        lines.append(line)
+                    continue
+                if line[0] in '#;':
+                    continue
+                if first is not None:
                     break
-            for line in fo:
-                if line.strip().startswith(option):
-                    break
-            for line in fo:
-                if line and not line[0].isspace():
-                    break
-                lines.append(line)
-        return textwrap.dedent(''.join(lines))
+                header = re.match(r'\[(.+)\]', line)
+                if header:
+                    current = header.group(1)
+                    continue
+                m = re.match(r'(.*?)\s*[=:]\s*(.*)$', line)
+                if m and current == section and self.config.optionxform(m.group(1)) == option:
+                    first = m.group(2)
+        if first is None:
+            # not in the section itself
+            return value
+        return (first + '\n' if first else '') + textwrap.dedent(''.join(lines))
 
     # Source
 
@@ -180,6 +192,6 @@ class ConfigSource(Source, ParserMixin):
 
         # preserve white-space for mulit-line strings
         if self.preserve_whitespace and isinstance(value, six.string_types) and value.count('\n') > 0:
-            value = self.as_raw(path)
+            value = self.as_raw(path, value)
 
         return value
-- 
2.43.0


From a5f4bffa25534538287c9df9f1f8607e80ac50bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:08 +0000
Subject: [PATCH 64/68] fix: refusing what is not a field in a Tuple fails to
 format the message

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 281401a..38cd442 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1091,7 +1091,7 @@ class Tuple(Field):
             raise TypeError('{0!r} is not a field sequence'.format(fields))
         for field in fields:
             if not isinstance(field, Field):
-                raise TypeError('{0:r} is not a field'.format(field))
+                raise TypeError('{0!r} is not a field'.format(field))
         self.allow_field = kwargs.pop('allow_field', False)
         if self.allow_field and len(fields) > 1:
             for field in fields[1:]:
-- 
2.43.0


From 767a02a6d16c5a35ea74d6f27f6bbbde5eb497c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:25 +0000
Subject: [PATCH 65/68] fix: a Tuple that allows a bare field never checks for
 defaults

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 38cd442..9dbd9de 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1095,7 +1095,7 @@ class Tuple(Field):
         self.allow_field = kwargs.pop('allow_field', False)
         if self.allow_field and len(fields) > 1:
             for field in fields[1:]:
-                if field.default is NOT_SET:
+                if isinstance(field.default, Hook) and not field.default:
                     raise ValueError(
                        'allow_field=True but field {0!r} has no default'.format(field)
                     )
-- 
2.43.0


From 8ee05825efb365d65fe7c23112a7bdf869b98a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:01 +0000
Subject: [PATCH 66/68] fix: refuse what is not the only choice where choices
 are a set

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 9dbd9de..9bcda47 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -779,7 +779,7 @@ class String(Field):
         if self.choices and value not in list(self.choices) + list(self.translations.values()):
             if len(self.choices) == 1:
                 self.ctx.errors.invalid('"{0}" is not "{1}"'.format(
-                    value, self.choices[0],
+                    value, list(self.choices)[0],
                 ))
             else:
                 self.ctx.errors.invalid('"{0}" is not one of {1}'.format(
-- 
2.43.0


From f4edfeff2feced4cbb95c5d3fbdfb005df79f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:36 +0000
Subject: [PATCH 67/68] fix: keep the parts below when the mount point of a
 path is edited

---
 pilo/source/mount.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index e810a3c..0c41778 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -97,18 +97,14 @@ class MountPath(collections.MutableSequence):
     def __setitem__(self, index, value):
         if not isinstance(value, PathPart):
             value = PathPart(key=value)
-        if index < 0:
-            index = len(self) + index
+        index = range(len(self))[index]
         if index == 0:
-            self.part = value
+            self._remount(value, [part.key for part in self.path])
         else:
             self.path[index - 1] = value
 
     def __delitem__(self, index):
-        if self.part is None:
-            raise IndexError()
-        if index < 0:
-            index = len(self) + index
+        index = range(len(self))[index]
         if index == 0:
             if self.path is not None and len(self.path) > 0:
                 raise TypeError('Cannot delete mount point')
@@ -122,12 +118,23 @@ class MountPath(collections.MutableSequence):
         if not isinstance(value, PathPart):
             value = PathPart(key=value)
         if index < 0:
-            index = len(self) + index
-        if index == 0:
+            index = max(0, len(self) + index)
+        if self.part is None:
             self.part = value
+        elif index == 0:
+            self._remount(value, [part.key for part in self.parts])
         else:
             self.path.insert(index - 1, value)
 
+    def _remount(self, part, keys):
+        """
+        What was below another mount point is below this one.
+        """
+        while len(self.path) > 0:
+            self.path.pop()
+        self.part = part
+        self.path.extend(keys)
+
 
 class MountSource(Source):
 
-- 
2.43.0


From ce47ed0e48cb8b456bfcc8a86bbd117f5bbec362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:38 +0000
Subject: [PATCH 68/68] fix: mounts below a mount exist

The root of a mount has no value, so mounting one below a key of another hid all of it.
---
 pilo/source/mount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 0c41778..1e20583 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -61,7 +61,7 @@ class MountPath(collections.MutableSequence):
     def exists(self):
         if self.part is None:
             return True
-        return self.value is not NONE
+        return self.path.exists
 
     @property
     def is_null(self):
-- 
2.43.0

