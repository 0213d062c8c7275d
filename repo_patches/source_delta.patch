From 3e3cc88aeebebdc5d93587dead3d79bdc82811a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 01/64] fix: preserve unbounded range ends when pickling and
 copying

---
 vistautils/range.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index 18a0db0..08ef1c4 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -191,6 +191,11 @@ class _BelowAll(_Cut[T]):
         # some arbitrary number
         return 233904909
 
+    def __reduce__(self):
+        # copies and unpickled versions must be the singleton itself
+        # because comparisons are done by identity
+        return "_BELOW_ALL"
+
 
 @attrs(frozen=True, slots=True, hash=False, eq=False)
 class _AboveAll(_Cut[T]):
@@ -224,6 +229,11 @@ class _AboveAll(_Cut[T]):
         # some arbitrary number
         return 9989388
 
+    def __reduce__(self):
+        # copies and unpickled versions must be the singleton itself
+        # because comparisons are done by identity
+        return "_ABOVE_ALL"
+
 
 # noinspection PyRedeclaration
 _BELOW_ALL = _BelowAll()
-- 
2.43.0


From de0b67ca0347fd3ed7f0bb69b9afa33d6b54b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 02/64] fix: make range set hash codes consistent with equality

---
 vistautils/range.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/range.py b/vistautils/range.py
index 08ef1c4..944b544 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -787,7 +787,8 @@ class RangeSet(
             return False
 
     def __hash__(self) -> int:
-        return hash(self.as_ranges())
+        # as_ranges() may be a view, which would be hashed by its identity
+        return hash(tuple(self.as_ranges()))
 
     @abstractmethod
     def is_empty(self) -> bool:
-- 
2.43.0


From c790f7b2b5d921e31baa47a3dd912a0b65d006d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 03/64] fix: disjoint span index must not confuse equal items
 at different spans

---
 vistautils/span.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vistautils/span.py b/vistautils/span.py
index 7d80016..b0a9512 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -239,13 +239,13 @@ class _DisjointHasSpanIndex(HasSpanIndex[T]):
         return self._range_to_item_index.get_enclosed_by(span.as_range())
 
     def get_containing(self, span: Span) -> Optional[T]:
-        rng = span.as_range()
-        if (
-            self._range_to_item_index[rng.lower_endpoint]
-            == self._range_to_item_index[rng.upper_endpoint]
-        ):
-            return self._range_to_item_index[rng.lower_endpoint]
-        return None
+        # we compare ranges rather than items because distinct items may be equal
+        containing_range = self._range_to_item_index.range_set.range_enclosing_range(
+            span.as_range()
+        )
+        if containing_range is None:
+            return None
+        return self._range_to_item_index.rng_to_val[containing_range]
 
 
 @attrs(frozen=True, slots=True)
-- 
2.43.0


From e96df6a3a821ad840970ba49057f7a3d29944b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 04/64] fix: properly nest tags for annotations with identical
 spans

---
 vistautils/annotated_text_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index e54cbdd..923335f 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -179,7 +179,9 @@ class HTMLStyleAnnotationFormatter:
         )
         end_tags = (
             HTMLStyleAnnotationFormatter.Tag(to_end_tag(ann), False, ann.span.end)
-            for ann in sorted(annotations, key=end_tag_key)
+            # annotations with identical spans must be closed in the reverse of the order in which
+            # they were opened
+            for ann in sorted(reversed(list(annotations)), key=end_tag_key)
         )
 
         # interleave the start and end tag lists
-- 
2.43.0


From d65e4c69288bf0acb488a36453c7bbd1ef816409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 05/64] fix: allow formatting empty text

---
 vistautils/annotated_text_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index 923335f..37ab672 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -91,6 +91,9 @@ class HTMLStyleAnnotationFormatter:
         paragraph from a document.
         """
         if not text_offsets:
+            if not text:
+                # there are no empty spans, so there is nothing which could be annotated
+                return ""
             text_offsets = Span.from_inclusive_to_exclusive(0, len(text))
         check_arg(
             len(text_offsets) == len(text),
-- 
2.43.0


From 93723b89e524663d6d61a4e6afa13d097c9a0b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 06/64] fix: allow creating annotated spans by class on Python
 3.12

---
 vistautils/annotated_text_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index 37ab672..7ebf90e 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -42,11 +42,11 @@ class AnnotatedSpan:
 
     @staticmethod
     def create_div_of_class(span: Span, clazz: str) -> "AnnotatedSpan":
-        return AnnotatedSpan(DIV, span, {"class": clazz})
+        return AnnotatedSpan(DIV, span, [("class", clazz)])
 
     @staticmethod
     def create_span_of_class(span: Span, clazz: str) -> "AnnotatedSpan":
-        return AnnotatedSpan(SPAN, span, {"class": clazz})
+        return AnnotatedSpan(SPAN, span, [("class", clazz)])
 
 
 def to_start_tag(annotated_range: AnnotatedSpan) -> str:
-- 
2.43.0


From a06cc7ab2caf3020dfbd6098f14a09138042860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 07/64] fix: do not leak .tgz files opened by character sources

---
 vistautils/io_utils.py | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 63a8b06..a701164 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -11,7 +11,6 @@ from typing import (
     Any,
     AnyStr,
     BinaryIO,
-    Callable,
     Iterable,
     Iterator,
     List,
@@ -222,30 +221,20 @@ class _FileWithinTgzCharSource(CharSource):
     _encoding: str = attrib(validator=validators.instance_of(str))
 
     def open(self) -> TextIO:
-        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding)
         # extractfile here returns  binary file object. We are lazy here and load it all into
-        # memory to make dealing with the encoding issues simple
-        tgz_data = tgz_file.extractfile(self._path_within_tgz)
-        if tgz_data is not None:
-            ret = CharSource.from_string(tgz_data.read().decode(self._encoding)).open()
-            # we need to fiddle with the close method on the returned TextIO so that when it is
-            # closed the containing zip file is closed as well
-            old_close: Callable = ret.close
-        else:
-            raise IOError(
-                f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
-            )
-
-        def new_close(_):
-            old_close()  # pylint:disable=not-callable
-            tgz_file.close()
-
-        ret.close = types.MethodType(new_close, ret)  # type: ignore
-        return ret
+        # memory to make dealing with the encoding issues simple. This also means the .tgz file
+        # itself does not need to stay open.
+        with tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding) as tgz_file:
+            tgz_data = tgz_file.extractfile(self._path_within_tgz)
+            if tgz_data is None:
+                raise IOError(
+                    f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
+                )
+            return CharSource.from_string(tgz_data.read().decode(self._encoding)).open()
 
     def is_empty(self) -> bool:
-        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding)
-        return tgz_file.getmember(self._path_within_tgz).size == 0
+        with tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding) as tgz_file:
+            return tgz_file.getmember(self._path_within_tgz).size == 0
 
 
 class CharSink(metaclass=ABCMeta):
-- 
2.43.0


From 00ec4ce57a309d7edb95b5d4e003059cdb09bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 08/64] fix: do not leak zip files when a path within them
 cannot be opened

---
 vistautils/io_utils.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index a701164..e84b266 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -368,7 +368,12 @@ class _ByteSourceFromPathInZipFile(ByteSource):
         # pylint:disable=not-callable
         # pylint:disable=unused-argument
         zip_file = ZipFile(self._zip_path, "r")
-        ret = zip_file.open(self._path_within_zip, "r")
+        try:
+            ret = zip_file.open(self._path_within_zip, "r")
+        except BaseException:
+            # the caller gets nothing to close, so we need to clean up ourselves
+            zip_file.close()
+            raise
         # we need to fiddle with the close method on the returned BytesIO so that when it is
         # closed the containing zip file is closed as well
         old_close = ret.close
@@ -597,7 +602,12 @@ class _FileInZipByteSink(ByteSink):
         # pylint:disable=not-callable
         # pylint:disable=unused-argument
         zip_file = ZipFile(self._zip_path, "a")
-        ret = zip_file.open(self._path_within_zip, "w")
+        try:
+            ret = zip_file.open(self._path_within_zip, "w")
+        except BaseException:
+            # the caller gets nothing to close, so we need to clean up ourselves
+            zip_file.close()
+            raise
         # we need to fiddle with the close method on the returned BytesIO so that when it is
         # closed the containing zip file is closed as well
         old_close = ret.close
-- 
2.43.0


From 311d0ba9cbfc7000ed7d79cbb97ab4d5043685b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 09/64] fix: failed puts to zip sinks must not be recorded as
 keys

---
 vistautils/key_value.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 86a6f3a..4403a29 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -483,10 +483,12 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
                 "Zip-backed key-value sinks do not support duplicate puts on the "
                 "same key"
             )
-        self._keys.add(key)
         filename = self._filename_function(key)
         check_arg(isinstance(value, str) or isinstance(value, bytes))
         self._zip_file.writestr(filename, value)  # type: ignore
+        # we only record the key once the value is really there so that a failed put is not
+        # listed among the keys
+        self._keys.add(key)
 
     @abstractmethod
     def _to_bytes(self, val: V) -> bytes:
-- 
2.43.0


From fd9033fa61a5e8b370d6c83a67c2861f1966e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 10/64] fix: re-used zip sinks must not list keys which were
 overwritten

---
 vistautils/key_value.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 4403a29..7e68bd1 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -496,6 +496,9 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
 
     def __enter__(self) -> "KeyValueSink[str, V]":
         self._zip_file = ZipFile(str(self._path), "w" if self._overwrite else "a")
+        # forget any keys from previous uses of this sink;
+        # they are read back below if what was written then is still there
+        self._keys = set()
         if self._keys_in_function:
             # update rather than assignment because return might not be mutable
             existing_keys = self._keys_in_function(self._zip_file)
-- 
2.43.0


From d00e9d26ae212b22643412a22bb5705e833c272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 11/64] fix: default binary key-value source should provide
 bytes

---
 vistautils/key_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 7e68bd1..e2b56f0 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -1015,7 +1015,7 @@ def byte_key_value_source_from_params(
         input_namespace,
         KeyValueSource,
         special_factories=_BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES,
-        default_factory=_doc_id_source_from_params,
+        default_factory=_doc_id_binary_source_from_params,
         context=effective_context,
         factory_namespace_param_name="type",
     )
-- 
2.43.0


From 91991044a2a5713d1bcbc3b4574242dc41b6926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 12/64] fix: file-map key-value sources must read the map they
 are pointed to

---
 vistautils/key_value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index e2b56f0..fe5d910 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -840,12 +840,12 @@ class _InterpretedKeyValueSource(Generic[K, V], KeyValueSource[K, V]):
 
 _CHAR_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
     "zip": "_ZipCharFileKeyValuesSource",
-    "file-map": "_PathMappingCharKeyValueSource",
+    "file-map": "_doc_id_source_from_params",
 }
 
 _BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
     "zip": "_ZipBytesFileKeyValuesSource",
-    "file-map": "_PathMappingBytesKeyValueSource",
+    "file-map": "_doc_id_binary_source_from_params",
 }
 
 
-- 
2.43.0


From 1dfd83a7497a802ab7a1d370bc36142d1db06d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 13/64] fix: allow path-mapping sources to be built from dicts
 on Python 3.12

---
 vistautils/key_value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index fe5d910..21f8062 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -313,7 +313,8 @@ class KeyValueSource(Generic[K, V], KeyValueLinearSource[K, V], metaclass=ABCMet
 
         The contents of the paths, interpreted as UTF-8, will be the values.
         """
-        return _PathMappingCharKeyValueSource(id_to_path)  # type: ignore
+        # passing items rather than the mapping itself allows the mapping to be a regular dict
+        return _PathMappingCharKeyValueSource(id_to_path.items())  # type: ignore
 
     @staticmethod
     def from_doc_id_to_file_map(
-- 
2.43.0


From d867a04870d86acca0706d7770accda92d523df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 14/64] fix: correct namespace prefix for default factories

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index e8ba62f..11f582d 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1368,7 +1368,7 @@ def _extend_prefix(
 ) -> Tuple[str, ...]:
     ret = list(namespace_prefix)
     ret.append(new_element)
-    return tuple(new_element)
+    return tuple(ret)
 
 
 @attrs(auto_attribs=True)
-- 
2.43.0


From 5f2aa0cac3cef9b1fe4fdc7d654e39ea0cb785ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 15/64] fix: use the requested special factory when creating
 objects from parameters

---
 vistautils/parameters.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 11f582d..2252e0d 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1043,9 +1043,21 @@ class Parameters:
                 if requested_param_string_value in special_values:
                     return validate(special_values[requested_param_string_value])
                 elif requested_param_string_value in special_factories:
+                    special_factory = special_factories[requested_param_string_value]
+                    if isinstance(special_factory, str):
+                        # just as when given in a namespace, special factories
+                        # may be specified by expressions
+                        special_factory = eval_in_context_of_modules(
+                            special_factory,
+                            context if context else dict(globals()),
+                            context_modules=self._context_modules_from_prefix(
+                                special_factory
+                            ),
+                            expected_type=object,
+                        )
                     return validate(
                         apply_factory(
-                            default_factory,
+                            special_factory,
                             Parameters.empty(
                                 namespace_prefix=_extend_prefix(
                                     self.namespace_prefix, name
-- 
2.43.0


From b7043c5055ceec70d4a3d637afbc1571959a9a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 16/64] fix: use defaults when a namespace specifies neither
 value nor factory

---
 vistautils/parameters.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 2252e0d..26cb3dd 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -999,6 +999,15 @@ class Parameters:
                 # The general case is that the user has a namespace providing all the information
                 # for evaluation.
                 namespace = self.namespace(name)
+                if (
+                    value_namespace_param_name not in namespace
+                    and factory_namespace_param_name not in namespace
+                ):
+                    # If neither is specified, we use the defaults, if there are any.
+                    if default_value is not None:
+                        return validate(default_value)
+                    elif default_factory is not None:
+                        return validate(apply_factory(default_factory, namespace))
                 namespace.assert_exactly_one_present(
                     [value_namespace_param_name, factory_namespace_param_name]
                 )
-- 
2.43.0


From 53d1fe5f398da768c6f4939a52b4d7b9aae4d678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 17/64] fix: respect falsy default values in parameter
 accessors

---
 vistautils/parameters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 26cb3dd..5846efa 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -457,7 +457,7 @@ class Parameters:
                 f"For parameter {param_name}, {enum_name} could not be found in "
                 f"{list(enum_class.__members__)}"
             )
-        elif default:
+        elif default is not None:
             return default
         else:
             # Always raises error since param_name returned None on `optional_string()`
@@ -611,7 +611,7 @@ class Parameters:
 
         if name in self:
             return self.positive_integer(name)
-        if default:
+        if default is not None:
             if isinstance(default, int) and default > 0:
                 return default  # type: ignore
             else:
@@ -670,7 +670,7 @@ class Parameters:
 
         if name in self:
             return self.floating_point(name, valid_range)
-        if default:
+        if default is not None:
             if (
                 valid_range is not None
                 and isinstance(default, float)
@@ -791,7 +791,7 @@ class Parameters:
         if default is not None:  # pragma: no cover
             self._warn_about_default()
 
-        if not default:
+        if default is None:
             return self.get_optional(name, List)
         elif isinstance(default, List):
             return self.get_optional(name, List, default=default)
-- 
2.43.0


From cb7f085b41bde11578102c225d766c1912de7673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 18/64] fix: allow interpolating parameters with falsy values

---
 vistautils/parameters.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 5846efa..3ca155a 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1659,7 +1659,10 @@ class YAMLParametersLoader:
                         val
                     ):
                         nodes.append(key)
-                        if get_from_nested_dict(mutable_parameters, interp_match):
+                        if (
+                            get_from_nested_dict(mutable_parameters, interp_match)
+                            is not None
+                        ):
                             # We don't want to include nodes from the context in the interpolation
                             # ordering since the context is present
                             # only to be referred to by for interpolation into other parameters,
@@ -1678,7 +1681,7 @@ class YAMLParametersLoader:
 
         def get_backing_off_to_context(param_name: str) -> Any:
             from_these_params = get_from_nested_dict(mutable_parameters, param_name)
-            if from_these_params:
+            if from_these_params is not None:
                 return from_these_params
 
             # if the parameter is not present in the parameters we are interpolating directly,
@@ -1697,7 +1700,7 @@ class YAMLParametersLoader:
                 mutable_parameters, param_to_interpolate
             )
 
-            if not uninterpolated_param_value:
+            if uninterpolated_param_value is None:
                 raise RuntimeError(f"This should be impossible: {param_to_interpolate}")
 
             # Next, we need to actually interpolate the values.
-- 
2.43.0


From 931c076180131f5a33f99356d5d63f683905131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 19/64] fix: tolerate environmental variables with dots in
 their names

---
 vistautils/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 3ca155a..18d7256 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1534,7 +1534,8 @@ class YAMLParametersLoader:
             if self.interpolate_environmental_variables:
                 for k, v in os.environ.items():
                     # environmental variables are overridden by explicit parameters
-                    if k not in interpolation_context:
+                    # and those whose names cannot be parameter names are ignored
+                    if k not in interpolation_context and "." not in k:
                         interpolation_context[k] = v
 
             return previously_loaded.unify(
-- 
2.43.0


From 010a2daf9ac9c474650dfa50cb137f060cd5a9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 20/64] fix: use explicitly specified parameters in
 parameter-only entry points

---
 vistautils/parameters_only_entrypoint.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vistautils/parameters_only_entrypoint.py b/vistautils/parameters_only_entrypoint.py
index 231932d..a6d53bd 100644
--- a/vistautils/parameters_only_entrypoint.py
+++ b/vistautils/parameters_only_entrypoint.py
@@ -59,13 +59,16 @@ def _real_parameters_only_entry_point(
         program_name = os.path.basename(main.__file__)
 
     arg_parser = ArgumentParser(prog=program_name, description=usage_message)
-    if not parameters:
+    if parameters is None:
         arg_parser.add_argument("param_file", type=Path)
     arg_parser.add_argument("-p", action="append", nargs=2, required=False)
 
     parsed_args = arg_parser.parse_args(args)
 
-    params = YAMLParametersLoader().load(parsed_args.param_file)
+    if parameters is None:
+        params = YAMLParametersLoader().load(parsed_args.param_file)
+    else:
+        params = parameters
     if parsed_args.p:
         params = params.unify(params.from_key_value_pairs(parsed_args.p))
     configure_logging_from(params)
-- 
2.43.0


From e37d0025fec2a3825e8ae79a9f07773819cb4fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 21/64] fix: make downsampling work on Python 3.11 and later

---
 vistautils/scripts/downsample_key_value_store.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vistautils/scripts/downsample_key_value_store.py b/vistautils/scripts/downsample_key_value_store.py
index b90a38d..748004c 100644
--- a/vistautils/scripts/downsample_key_value_store.py
+++ b/vistautils/scripts/downsample_key_value_store.py
@@ -34,10 +34,8 @@ def main(params: Parameters):
     with byte_key_value_source_from_params(params) as input_source:
         keys = list(input_source.keys())
         num_to_sample = min(params.positive_integer(_NUM_TO_SAMPLE_PARAM), len(keys))
-        random.shuffle(
-            keys,
-            random=random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).random,
-        )
+        # random.shuffle no longer accepts a source of randomness as of Python 3.11
+        random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).shuffle(keys)
         keys_to_keep = keys[:num_to_sample]
         output_zip_path = params.creatable_file("output_zip_path")
         logging.info("Downsampling %s files to %s", num_to_sample, output_zip_path)
-- 
2.43.0


From 67f1dd31e32c382f4077f0348fcdc57ef57b15ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 22/64] fix: optional type checks must not accept falsy values
 of the wrong type

---
 vistautils/preconditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/preconditions.py b/vistautils/preconditions.py
index 249fd54..e849729 100644
--- a/vistautils/preconditions.py
+++ b/vistautils/preconditions.py
@@ -71,7 +71,7 @@ def check_opt_isinstance(item: T, classinfo: _ClassInfo) -> T:
 
     Raises a TypeError otherwise
     """
-    if item and not isinstance(item, classinfo):
+    if item is not None and not isinstance(item, classinfo):
         raise TypeError(
             "Expected instance of type {!r} but got type {!r} for {!r}".format(
                 classinfo, type(item), item
-- 
2.43.0


From 2a44716e4ce8a563ce5714ffeda7c30e3c1f278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 23/64] fix: only must not rely on how elements compare to each
 other

---
 vistautils/iter_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/iter_utils.py b/vistautils/iter_utils.py
index 85bb573..74bb7c9 100644
--- a/vistautils/iter_utils.py
+++ b/vistautils/iter_utils.py
@@ -77,7 +77,7 @@ def only(it: Union[Iterator[_T], Iterable[_T]]) -> _T:
         raise ValueError("Expected only a single element in an iterable, but got none")
 
     second_element = next(iterator, _SENTINEL)
-    if second_element != _SENTINEL:
+    if second_element is not _SENTINEL:
         raise ValueError("Expected only a single element in iterable, but got at least 2")
     return ret
 
-- 
2.43.0


From 46103545837ba677ef48619f01f0fa66f5e9dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 24/64] fix: strip the whole .tar.gz extension when naming the
 output zip

---
 vistautils/scripts/tar_gz_to_zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 447b3b0..6bcf2e9 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -85,7 +85,7 @@ def main():
 
 
 def _output_name(filename: str) -> str:
-    valid_extensions = [".tar", ".tgz", "tar.gz"]
+    valid_extensions = [".tar", ".tgz", ".tar.gz"]
     for valid_extension in valid_extensions:
         if filename.endswith(valid_extension):
             filename = filename[: len(filename) - len(valid_extension)]
-- 
2.43.0


From 7fd7745fd8b2219dcaa1753478555618ec0b11e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 25/64] fix: make non-streaming tar conversion work with
 directories and size cutoffs

---
 vistautils/scripts/tar_gz_to_zip.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 6bcf2e9..566a9c9 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -1,6 +1,7 @@
 import argparse
 import os
 import tarfile
+from tempfile import TemporaryDirectory
 from zipfile import ZipFile
 
 USAGE = """
@@ -64,11 +65,23 @@ def main():
     with ZipFile(output_zip_name, "x") as out:
         with tarfile.open(tar_file) as inp:
             if dont_stream:
-                inp.extractall()
-                for member in inp:
-                    if member.isfile():
-                        out.write(member.name)
-                    os.remove(member.name)
+                # we unpack to a temporary directory to avoid touching any files
+                # already in the working directory
+                with TemporaryDirectory() as unpack_directory:
+                    inp.extractall(unpack_directory)
+                    for member in inp:
+                        if member.isfile():
+                            if omit_large_files and member.size > large_file_cutoff:
+                                print(
+                                    f"WARNING: Omitting {member.name} as "
+                                    f"its size {member.size / 1e9:.2f} GB "
+                                    f"exceeds {args.large_file_cutoff:.2f} GB"
+                                )
+                            else:
+                                out.write(
+                                    os.path.join(unpack_directory, member.name),
+                                    arcname=member.name,
+                                )
             else:
                 for member in inp:
                     if member.isfile():
-- 
2.43.0


From 166f21aae1846e462b296739b1ed2eabfeedae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 26/64] fix: namespaces interpolated from context must have
 correct prefixes

---
 vistautils/parameters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 18d7256..a6a64ce 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1688,7 +1688,12 @@ class YAMLParametersLoader:
             # if the parameter is not present in the parameters we are interpolating directly,
             # we look it up in the context.
             try:
-                return context._private_get(param_name)
+                from_context = context._private_get(param_name)
+                # a namespace needs to get the prefix for where it is inserted
+                # when converted back to Parameters below
+                if isinstance(from_context, Parameters):
+                    return from_context.as_nested_dicts()
+                return from_context
             except ParameterError as e:
                 raise ParameterError(
                     f"The key '{param_to_interpolate}' doesn't exist in the parameters."
-- 
2.43.0


From 7f0024a24263704b020b0880dbaf9165c0b06d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 27/64] fix: close zip files even if reading or writing their
 keys fails

---
 vistautils/key_value.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 21f8062..cec3c4f 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -502,16 +502,23 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
         self._keys = set()
         if self._keys_in_function:
             # update rather than assignment because return might not be mutable
-            existing_keys = self._keys_in_function(self._zip_file)
+            try:
+                existing_keys = self._keys_in_function(self._zip_file)
+            except BaseException:
+                # __exit__ won't be called if we fail here
+                self._zip_file.close()
+                raise
             if existing_keys:
                 self._keys.update(existing_keys)
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> None:
         # if we are in a context manager, self._zip_file is not None
-        if self._keys_out_function:
-            self._keys_out_function(self._zip_file, self._keys)  # type: ignore
-        self._zip_file.close()  # type: ignore
+        try:
+            if self._keys_out_function:
+                self._keys_out_function(self._zip_file, self._keys)  # type: ignore
+        finally:
+            self._zip_file.close()  # type: ignore
 
 
 class _ZipCharFileKeyValueSink(_ZipKeyValueSink[str]):
@@ -634,7 +641,13 @@ class _ZipFileKeyValueSource(Generic[V], KeyValueSource[str, V], metaclass=ABCMe
     def __enter__(self) -> "KeyValueSource[str, V]":
         self._zip_file = ZipFile(str(self.path), "r")
         if self._keys_function:
-            self._keys = self._keys_function(self._zip_file)
+            try:
+                self._keys = self._keys_function(self._zip_file)
+            except BaseException:
+                # __exit__ won't be called if we fail here
+                self._zip_file.close()
+                self._zip_file = None
+                raise
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> None:
-- 
2.43.0


From e149309f0eef3e3fd1d5d668e430ab5e43b25ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 28/64] fix: disjoint span index must not silently drop items
 sharing a span

---
 vistautils/span.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vistautils/span.py b/vistautils/span.py
index b0a9512..219cdb2 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -213,7 +213,14 @@ def _build_range_to_item_index(
 ) -> ImmutableRangeMap[int, T]:
     if inp is None:
         return immutablerangemap()
-    return immutablerangemap((span.as_range(), item) for span, item in inp)
+    ranges_to_items = [(span.as_range(), item) for span, item in inp]
+    ret: ImmutableRangeMap[int, T] = immutablerangemap(ranges_to_items)
+    # overlapping but distinct ranges are checked for by the range map itself
+    check_arg(
+        len(ret.as_dict()) == len(ranges_to_items),
+        "Multiple items share the same span in an index of disjoint spans",
+    )
+    return ret
 
 
 @attrs(frozen=True, slots=True)
-- 
2.43.0


From 0d4de574806455c57e03faf872f2bdf9e6f55104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 29/64] fix: allow printing ranges over tuples

---
 vistautils/range.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vistautils/range.py b/vistautils/range.py
index 944b544..fc3c22c 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -268,13 +268,13 @@ class _BelowValue(_Cut[T]):
         return False
 
     def describe_as_lower_bound(self) -> str:
-        return "[%s" % self._endpoint
+        return "[%s" % (self._endpoint,)
 
     def describe_as_upper_bound(self) -> str:
-        return "%s)" % self._endpoint
+        return "%s)" % (self._endpoint,)
 
     def __repr__(self) -> str:
-        return "\\\\%s/" % self._endpoint
+        return "\\\\%s/" % (self._endpoint,)
 
 
 @attrs(frozen=True, slots=True, repr=False, hash=False, eq=False)
@@ -305,13 +305,13 @@ class _AboveValue(_Cut[T]):
         return False
 
     def describe_as_lower_bound(self) -> str:
-        return "(%s" % self._endpoint
+        return "(%s" % (self._endpoint,)
 
     def describe_as_upper_bound(self) -> str:
-        return "%s]" % self._endpoint
+        return "%s]" % (self._endpoint,)
 
     def __repr__(self) -> str:
-        return "/%s\\\\" % self._endpoint
+        return "/%s\\\\" % (self._endpoint,)
 
 
 # must initialize after declaring Range
-- 
2.43.0


From 037c7e7da8bdbda2a63761084acafdcf2126870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 30/64] fix: allow pickling empty range sets with protocols 0
 and 1

---
 vistautils/range.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index fc3c22c..720b5b6 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -817,6 +817,11 @@ class RangeSet(
     def __setstate__(self, state: Iterable[Range[T]]) -> None:
         raise NotImplementedError()
 
+    def __reduce_ex__(self, protocol):
+        # Before protocol 2, pickle leaves out states which are false in boolean contexts,
+        # so empty range sets could not be restored.
+        return super().__reduce_ex__(max(protocol, 2))
+
 
 T2 = TypeVar("T2")
 
-- 
2.43.0


From 31be7618ef7c6498feac941f9ac05b911c192f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 31/64] fix: close zip files even if closing the file within
 them fails

---
 vistautils/io_utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index e84b266..2ca805a 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -379,8 +379,10 @@ class _ByteSourceFromPathInZipFile(ByteSource):
         old_close = ret.close
 
         def new_close(self):
-            old_close()
-            zip_file.close()
+            try:
+                old_close()
+            finally:
+                zip_file.close()
 
         ret.close = types.MethodType(new_close, ret)  # type: ignore
         return ret  # type: ignore
@@ -613,8 +615,10 @@ class _FileInZipByteSink(ByteSink):
         old_close = ret.close
 
         def new_close(self):
-            old_close()
-            zip_file.close()
+            try:
+                old_close()
+            finally:
+                zip_file.close()
 
         ret.close = types.MethodType(new_close, ret)  # type: ignore
         return ret  # type: ignore
-- 
2.43.0


From 0dc4803a226ae5db88243a143892a625a24c7142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 32/64] fix: close byte sources which cannot be wrapped as
 character sources

---
 vistautils/io_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 2ca805a..2427416 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -197,7 +197,13 @@ class _CharSourceWrappingByteSource(CharSource):
     _encoding: str
 
     def open(self) -> TextIO:
-        return io.TextIOWrapper(self._wrapped_source.open(), encoding=self._encoding)
+        binary_file = self._wrapped_source.open()
+        try:
+            return io.TextIOWrapper(binary_file, encoding=self._encoding)
+        except BaseException:
+            # the caller gets nothing to close, so we need to clean up ourselves
+            binary_file.close()
+            raise
 
 
 @attrs(slots=True, frozen=True)
-- 
2.43.0


From 7718f9c48d402f8f9cff7a8c94bd28b9cc8b3d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 33/64] fix: close gzipped files whose encoding turns out to be
 bad

---
 vistautils/io_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 2427416..f3bc429 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -212,7 +212,13 @@ class _GZipFileSource(CharSource):
     _encoding: str = attrib(validator=validators.instance_of(str))
 
     def open(self) -> TextIO:
-        return gzip.open(self._path, "rt", encoding=self._encoding)  # type: ignore
+        # gzip.open does not close the file if the encoding turns out to be bad
+        binary_file = gzip.open(self._path, "rb")
+        try:
+            return io.TextIOWrapper(binary_file, encoding=self._encoding)  # type: ignore
+        except BaseException:
+            binary_file.close()
+            raise
 
     def is_empty(self) -> bool:
         with gzip.open(self._path) as inp:
-- 
2.43.0


From d1c5036024f251b515ad507f10fb64d5b6a48703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 34/64] fix: respect explicit_split.must_be_exhaustive when
 splitting key-value stores

---
 vistautils/scripts/split_key_value_store.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/split_key_value_store.py b/vistautils/scripts/split_key_value_store.py
index ad860df..26d874c 100644
--- a/vistautils/scripts/split_key_value_store.py
+++ b/vistautils/scripts/split_key_value_store.py
@@ -114,7 +114,11 @@ def _explicit_split(source: KeyValueSource[str, bytes], params: Parameters):
                         )
                     raise RuntimeError(error_message)
 
-    if params.boolean("must_be_exhaustive", default=True):
+    # the parameter is documented as part of the explicit split namespace,
+    # but we have always accepted it at the top level as well
+    if explicit_split_namespace.boolean(
+        "must_be_exhaustive", default=params.boolean("must_be_exhaustive", default=True)
+    ):
         keys_not_copied = immutableset(source.keys()) - set(keys_copied)
         if keys_not_copied:
             raise RuntimeError(
-- 
2.43.0


From 66b3012ca84c25032cebc471c126c59c154778d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 35/64] fix: accept the documented 'directory' type of
 key-value sinks

---
 vistautils/key_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index cec3c4f..5d15a38 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -1037,11 +1037,13 @@ def byte_key_value_source_from_params(
 
 _CHAR_KEY_VALUE_SINK_SPECIAL_VALUES = {
     "zip": "_ZipCharFileKeyValueSink",
+    "directory": "_DirectoryCharKeyValueSink",
     "file-map": "_DirectoryCharKeyValueSink",
 }
 
 _BYTE_KEY_VALUE_SINK_SPECIAL_VALUES = {
     "zip": "_ZipBytesFileKeyValueSink",
+    "directory": "_DirectoryBytesKeyValueSink",
     "file-map": "_DirectoryBytesKeyValueSink",
 }
 
-- 
2.43.0


From d0e1cdedd8935553bb3e882a9f89eb4cfc7eab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 36/64] fix: allow exhaustive explicit splits of document map
 key-value stores

---
 vistautils/scripts/split_key_value_store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/split_key_value_store.py b/vistautils/scripts/split_key_value_store.py
index 26d874c..1a0aefd 100644
--- a/vistautils/scripts/split_key_value_store.py
+++ b/vistautils/scripts/split_key_value_store.py
@@ -119,7 +119,9 @@ def _explicit_split(source: KeyValueSource[str, bytes], params: Parameters):
     if explicit_split_namespace.boolean(
         "must_be_exhaustive", default=params.boolean("must_be_exhaustive", default=True)
     ):
-        keys_not_copied = immutableset(source.keys()) - set(keys_copied)
+        keys_not_copied = immutableset(
+            source.keys(), disable_order_check=True
+        ) - set(keys_copied)
         if keys_not_copied:
             raise RuntimeError(
                 f"Expected the split to be a partition, but "
-- 
2.43.0


From 6f83f40d689c10f8155634f90441682eee9baf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 37/64] fix: convert tar files alike whether streaming or not,
 whatever their members' names and times

---
 vistautils/scripts/tar_gz_to_zip.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 566a9c9..a9e1e65 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -1,8 +1,10 @@
 import argparse
 import os
+import shutil
 import tarfile
+import time
 from tempfile import TemporaryDirectory
-from zipfile import ZipFile
+from zipfile import ZipFile, ZipInfo
 
 USAGE = """
     Converts a (un)compressed tar file to .zip
@@ -65,10 +67,10 @@ def main():
     with ZipFile(output_zip_name, "x") as out:
         with tarfile.open(tar_file) as inp:
             if dont_stream:
-                # we unpack to a temporary directory to avoid touching any files
-                # already in the working directory
+                # We unpack to a temporary file so that neither files already present nor anything
+                # outside the output can be touched, whatever the names in the tar file are.
                 with TemporaryDirectory() as unpack_directory:
-                    inp.extractall(unpack_directory)
+                    unpacked_file = os.path.join(unpack_directory, "unpacked")
                     for member in inp:
                         if member.isfile():
                             if omit_large_files and member.size > large_file_cutoff:
@@ -78,10 +80,10 @@ def main():
                                     f"exceeds {args.large_file_cutoff:.2f} GB"
                                 )
                             else:
-                                out.write(
-                                    os.path.join(unpack_directory, member.name),
-                                    arcname=member.name,
-                                )
+                                with inp.extractfile(member) as data:
+                                    with open(unpacked_file, "wb") as unpacked:
+                                        shutil.copyfileobj(data, unpacked)
+                                _add_to_zip(out, member.name, unpacked_file)
             else:
                 for member in inp:
                     if member.isfile():
@@ -97,6 +99,16 @@ def main():
                                 out.writestr(member.name, data.read())
 
 
+def _add_to_zip(out: ZipFile, name: str, file: str) -> None:
+    # ZipFile.write would normalize the name and fail for timestamps before 1980
+    zip_info = ZipInfo(name, date_time=time.localtime()[:6])
+    zip_info.external_attr = 0o600 << 16  # the same as when streaming
+    zip_info.file_size = os.path.getsize(file)
+    with open(file, "rb") as data:
+        with out.open(zip_info, "w") as dest:
+            shutil.copyfileobj(data, dest)
+
+
 def _output_name(filename: str) -> str:
     valid_extensions = [".tar", ".tgz", ".tar.gz"]
     for valid_extension in valid_extensions:
-- 
2.43.0


From e60635d269289c8d82705a07758800bc2f8eeacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 38/64] fix: namespaces must know their paths even if the
 prefix is given as an iterator

---
 vistautils/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index a6a64ce..e72aa6d 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -106,6 +106,8 @@ class Parameters:
         becomes a namespace.
         """
         check_isinstance(mapping, Mapping)
+        # it is used repeatedly below, so it must not be e.g. a generator
+        namespace_prefix = tuple(namespace_prefix)
         ret: List[Tuple[str, Any]] = []
         for (key, val) in mapping.items():
             if isinstance(val, Mapping):
-- 
2.43.0


From 886c8fe4aad5d5afad19bd84572b953c257f9ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 39/64] fix: allow listing sub-namespaces which contain lists

---
 vistautils/parameters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index e72aa6d..0768437 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -52,7 +52,7 @@ _U = TypeVar("_U")  # pylint:disable=invalid-name
 _EnumType = TypeVar("_EnumType", bound=Enum)
 
 
-@attrs(frozen=True, slots=True)
+@attrs(frozen=True, slots=True, hash=False)
 class Parameters:
     """
     Configuration parameters for a program.
@@ -86,6 +86,10 @@ class Parameters:
                 "." not in key, "Parameter keys cannot contain namespace separator '.'"
             )
 
+    def __hash__(self) -> int:
+        # parameter values need not be hashable (e.g. lists are not)
+        return hash((frozenset(self._data), self.namespace_prefix))
+
     @staticmethod
     def empty(*, namespace_prefix: Iterable[str] = tuple()) -> "Parameters":
         """
-- 
2.43.0


From cfd5fc0bff3545e876db9267d2ca3f6e7813b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 40/64] fix: namespaces in unified parameters must know their
 paths

---
 vistautils/parameters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 0768437..0bbf45b 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -245,7 +245,12 @@ class Parameters:
             if key not in self:
                 ret[key] = new_val
 
-        return Parameters.from_mapping(ret, namespace_prefix=namespace_prefix)
+        # we convert everything to dictionaries so that namespaces taken over from either side
+        # get the prefixes of their place in the result
+        return Parameters.from_mapping(
+            Parameters.from_mapping(ret).as_nested_dicts(),
+            namespace_prefix=namespace_prefix,
+        )
 
     def creatable_directory(self, param: str) -> Path:
         """
-- 
2.43.0


From 8f6490b2791fc39f8355f9721d3075a2ae734517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 41/64] fix: evaluate parameters with dots which do not belong
 to module names

---
 vistautils/parameters.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 0bbf45b..31dce55 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1,4 +1,5 @@
 # pylint: skip-file
+import importlib
 import inspect
 import logging
 import os
@@ -844,7 +845,21 @@ class Parameters:
         *foo*, *foo.bar*, and *foo.bar.baz*.
         """
         parts = maybe_fully_qualified_name.split(".")[:-1]
-        return [".".join(parts[0 : i + 1]) for i in range(len(parts))]
+        ret: List[str] = []
+        for i, part in enumerate(parts):
+            # any other expression may contain dots, too, e.g. *2.5* or *foo.bar(x.y)*
+            if not part.isidentifier():
+                break
+            module_name = ".".join(parts[0 : i + 1])
+            try:
+                importlib.import_module(module_name)
+            except ModuleNotFoundError as e:
+                if e.name == module_name:
+                    # what follows are the attributes of something which is not a module
+                    break
+                raise
+            ret.append(module_name)
+        return ret
 
     # type ignored because ImmutableDict.empty() has type Dict[Any, Any]
     def evaluate(
-- 
2.43.0


From 38953985a1d310521bce45bccbbbb508344e3f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 42/64] fix: honour special values and factories which are not
 expressions within namespaces

---
 vistautils/parameters.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 31dce55..a323da7 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1039,6 +1039,9 @@ class Parameters:
                 )
                 if value_namespace_param_name in namespace:
                     # The user specifies the value to be evaluated directly
+                    special_value_name = namespace.string(value_namespace_param_name)
+                    if special_value_name in special_values:
+                        return validate(special_values[special_value_name])
                     return validate(
                         self.evaluate(
                             name,
@@ -1051,6 +1054,11 @@ class Parameters:
                 elif factory_namespace_param_name in namespace:
                     # The user specifies an expression to be evaluated which yields
                     # a factory which can create an object which this namespace.
+                    special_factory = special_factories.get(
+                        namespace.string(factory_namespace_param_name)
+                    )
+                    if callable(special_factory):
+                        return validate(apply_factory(special_factory, namespace))
                     return validate(
                         apply_factory(
                             self.evaluate(
-- 
2.43.0


From fe54547bee1f77b97b43093f02063ef58cb48298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 43/64] fix: break path lists only at newlines

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index a323da7..80f803a 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1249,7 +1249,7 @@ class Parameters:
             list_file = self.existing_file(param)
             path_strings = [
                 line.strip()
-                for line in list_file.read_text(encoding="utf-8").splitlines()
+                for line in list_file.read_text(encoding="utf-8").split("\n")
                 if line.strip() and not line.strip().startswith("#")
             ]
             location_read_from = f"file {list_file.absolute()!s}"
-- 
2.43.0


From 45dba36bba100524bd2129cf99586426f879e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 44/64] fix: reset checkpoints in directories given as symbolic
 links

---
 vistautils/checkpoints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vistautils/checkpoints.py b/vistautils/checkpoints.py
index 9c9b979..9137a28 100644
--- a/vistautils/checkpoints.py
+++ b/vistautils/checkpoints.py
@@ -59,5 +59,7 @@ class _CheckPointDirectory(Checkpoints):
         return Path(self.directory, item).is_file()
 
     def reset_all(self) -> None:
-        shutil.rmtree(str(self.directory))
-        self.directory.mkdir(parents=True, exist_ok=True)
+        # rmtree refuses to remove a directory through a symbolic link
+        directory = self.directory.resolve()
+        shutil.rmtree(str(directory))
+        directory.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 6d2992a2d827fc0180e558871cc0aaadf9c6c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 45/64] fix: reject amounts of memory followed by something
 else

---
 vistautils/memory_amount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/memory_amount.py b/vistautils/memory_amount.py
index b0dbdac..4d7fb5b 100644
--- a/vistautils/memory_amount.py
+++ b/vistautils/memory_amount.py
@@ -64,7 +64,7 @@ class MemoryAmount:
 
     @staticmethod
     def parse(memory_string: str) -> "MemoryAmount":
-        parts = MemoryAmount._PARSE_PATTERN.match(memory_string)
+        parts = MemoryAmount._PARSE_PATTERN.fullmatch(memory_string)
         if parts:
             return MemoryAmount(
                 amount=int(parts.group(1)), unit=MemoryUnit.parse(parts.group(2))
-- 
2.43.0


From da5a13957069a470dd4fe946d240c350484c4e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 46/64] fix: minimal_enclosing_span of spans which can be
 iterated only once

---
 vistautils/span.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/span.py b/vistautils/span.py
index 219cdb2..c1f1e74 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -129,6 +129,8 @@ class Span(Sized):
 
         This will raise a `ValueError` if `spans` is empty.
         """
+        # we iterate twice, but may have been given something which can be iterated only once
+        spans = list(spans)
         return Span(min(span.start for span in spans), max(span.end for span in spans))
 
     @staticmethod
-- 
2.43.0


From 2d5af6aef153143ac71f85b5ddeba5ef6d1c499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 47/64] fix: buffering sinks keep what was written to files
 closed without a with-statement

---
 vistautils/io_utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index f3bc429..3cd439a 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -584,9 +584,10 @@ class StringCharSink(CharSink):
         outer_self = self
 
         class StringFileLike(io.StringIO):
-            def __exit__(self, exc_type, exc_val, exc_tb):
-                outer_self.last_string_written = self.getvalue()
-                super().__exit__(exc_type, exc_val, exc_tb)
+            def close(self):
+                if not self.closed:
+                    outer_self.last_string_written = self.getvalue()
+                super().close()
 
         return StringFileLike()
 
@@ -650,9 +651,10 @@ class BufferByteSink(ByteSink):
         outer_self = self
 
         class BytesFileLike(io.BytesIO):
-            def __exit__(self, exc_type, exc_val, exc_tb):
-                outer_self.last_bytes_written = self.getvalue()
-                super().__exit__(exc_type, exc_val, exc_tb)
+            def close(self):
+                if not self.closed:
+                    outer_self.last_bytes_written = self.getvalue()
+                super().close()
 
         return BytesFileLike()
 
-- 
2.43.0


From 8e4a34e8a4af85b50fcc2b154ccae847ac2ebba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 48/64] fix: zip key-value sinks reject a key whose file would
 be replaced by the key list

---
 vistautils/key_value.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 5d15a38..b23846e 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -486,6 +486,11 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
             )
         filename = self._filename_function(key)
         check_arg(isinstance(value, str) or isinstance(value, bytes))
+        # otherwise the list of keys would replace the value when the sink is closed
+        check_arg(
+            filename != "__keys" or self._keys_out_function is not _write_keys_to_keys_file,
+            "The name __keys is reserved for the list of keys",
+        )
         self._zip_file.writestr(filename, value)  # type: ignore
         # we only record the key once the value is really there so that a failed put is not
         # listed among the keys
-- 
2.43.0


From bc0f326262361082138810f58038d5562d9930e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 49/64] fix: text with negative document offsets lost its end
 when annotated

---
 vistautils/annotated_text_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index 7ebf90e..8718b76 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -116,8 +116,8 @@ class HTMLStyleAnnotationFormatter:
             ret.write(tag.string)
 
         # get any trailing text after last tag
-        if last_uncopied_offset < text_offsets.end:
-            ret.write(text[last_uncopied_offset : text_offsets.end])
+        if last_uncopied_offset < len(text):
+            ret.write(text[last_uncopied_offset:])
         return ret.getvalue()
 
     @staticmethod
-- 
2.43.0


From 1a8d59e3303d6ef82bb8b3d5bd9e85c01a693e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 50/64] fix: directory key-value sinks reject a key whose file
 would be replaced by the index

---
 vistautils/key_value.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index b23846e..8022e31 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -405,6 +405,10 @@ class _DirectoryCharKeyValueSink(KeyValueSink[str, str]):
 
     def put(self, key: str, value: str) -> None:
         out_file = self._path / key
+        # otherwise the index would replace the value when the sink is closed
+        check_arg(
+            out_file != self._path / "_index", "The name _index is reserved for the index"
+        )
         CharSink.to_file(out_file).write(value)
         self.id_to_file[key] = out_file
 
@@ -432,6 +436,10 @@ class _DirectoryBytesKeyValueSink(KeyValueSink[str, bytes]):
 
     def put(self, key: str, value: bytes) -> None:
         out_file = self._path / key
+        # otherwise the index would replace the value when the sink is closed
+        check_arg(
+            out_file != self._path / "_index", "The name _index is reserved for the index"
+        )
         ByteSink.to_file(out_file).write(value)
         self.id_to_file[key] = out_file
 
-- 
2.43.0


From bddf447581f152ea31c6eb55f4cc47bc24832c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 51/64] fix: run programs which were not started from a script
 file

---
 vistautils/parameters_only_entrypoint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters_only_entrypoint.py b/vistautils/parameters_only_entrypoint.py
index a6d53bd..7546969 100644
--- a/vistautils/parameters_only_entrypoint.py
+++ b/vistautils/parameters_only_entrypoint.py
@@ -56,7 +56,10 @@ def _real_parameters_only_entry_point(
         # Get original script name for use in the usage message.
         import __main__ as main  # pylint:disable=import-outside-toplevel
 
-        program_name = os.path.basename(main.__file__)
+        # there is no script if the program was started by "python -c" or interactively;
+        # None makes argparse use its default
+        if hasattr(main, "__file__"):
+            program_name = os.path.basename(main.__file__)
 
     arg_parser = ArgumentParser(prog=program_name, description=usage_message)
     if parameters is None:
-- 
2.43.0


From 6cfe159935a5f8a3197b5019f07dec12b80321a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 52/64] fix: write values of types derived from str, int and
 float so that they can be loaded again

---
 vistautils/parameters.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 80f803a..de8fa4d 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1828,9 +1828,20 @@ class YAMLParametersWriter:
         if isinstance(param_node, Path):
             return str(param_node)
         elif isinstance(param_node, Mapping):
-            return {k: self._preprocess_dicts(v) for (k, v) in param_node.items()}
-        elif isinstance(param_node, (str, int, float)):
+            return {
+                (str.__str__(k) if isinstance(k, str) else k): self._preprocess_dicts(v)
+                for (k, v) in param_node.items()
+            }
+        elif isinstance(param_node, bool):
             return param_node
+        # instances of derived types (e.g. enumerations) would be written as Python objects,
+        # which cannot be loaded
+        elif isinstance(param_node, str):
+            return str.__str__(param_node)
+        elif isinstance(param_node, int):
+            return int.__int__(param_node)
+        elif isinstance(param_node, float):
+            return float.__float__(param_node)
         # we need to check this explicitly because otherwise
         # they would trigger the check for sequences below
         elif isinstance(param_node, (bytes, bytearray)):
-- 
2.43.0


From a5f04cae8e1e2d56da9f33bd012d6bf3aba320ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:27 +0000
Subject: [PATCH 53/64] fix: a link within a .tgz file is not empty if what it
 leads to is not

---
 vistautils/io_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 3cd439a..8775c78 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -246,7 +246,13 @@ class _FileWithinTgzCharSource(CharSource):
 
     def is_empty(self) -> bool:
         with tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding) as tgz_file:
-            return tgz_file.getmember(self._path_within_tgz).size == 0
+            # a link has no size of its own, so we need to look at the data
+            tgz_data = tgz_file.extractfile(self._path_within_tgz)
+            if tgz_data is None:
+                raise IOError(
+                    f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
+                )
+            return not tgz_data.read(1)
 
 
 class CharSink(metaclass=ABCMeta):
-- 
2.43.0


From 99304d63fbad716174fa4b2cdde33d3c137d5e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 54/64] fix: files of unknown size, e.g. below /proc, are not
 empty if they can be read

---
 vistautils/io_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 8775c78..18d8519 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -1,6 +1,5 @@
 import gzip
 import io
-import os
 import tarfile
 import types
 from abc import ABCMeta, abstractmethod
@@ -188,7 +187,9 @@ class _FileCharSource(CharSource):
         return open(self._path, "r", encoding="utf-8")
 
     def is_empty(self) -> bool:
-        return os.path.getsize(self._path) == 0
+        # the size is not known in advance for every file, e.g. below /proc
+        with open(self._path, "rb") as inp:
+            return not inp.read(1)
 
 
 @attrs(slots=True, frozen=True, auto_attribs=True)
@@ -374,7 +375,9 @@ class _FileByteSource(ByteSource):
         return open(self._path, "rb")
 
     def is_empty(self) -> bool:
-        return os.path.getsize(self._path) == 0
+        # the size is not known in advance for every file, e.g. below /proc
+        with open(self._path, "rb") as inp:
+            return not inp.read(1)
 
 
 @attrs(slots=True, frozen=True)
-- 
2.43.0


From 55af0f67454820a5eee66965658f683fb89a0dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 55/64] fix: write texts with escapes below many levels of
 nesting so that they load unchanged

pyyaml inserts backslashes into such texts when the indentation reaches the line width.
---
 vistautils/parameters.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index de8fa4d..2c28bc1 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1803,17 +1803,31 @@ class YAMLParametersWriter:
         if isinstance(sink, Path) or isinstance(sink, str):
             sink = CharSink.to_file(sink)
         with sink.open() as out:
+            to_write = self._preprocess_dicts(params.as_nested_dicts())
             yaml.dump(
-                self._preprocess_dicts(params.as_nested_dicts()),
+                to_write,
                 out,
                 # prevents leaf dictionaries from being written in the
                 # human unfriendly compact style
                 default_flow_style=False,
                 indent=4,
-                width=78,
+                # there must be room to the right of the indentation
+                # or pyyaml inserts backslashes when breaking texts with escapes
+                width=max(78, 4 * self._depth(to_write) + 40),
                 sort_keys=False,
             )
 
+    def _depth(self, param_node: Any) -> int:
+        """
+        Get how deeply mappings and lists are nested.
+        """
+        if isinstance(param_node, dict):
+            return 1 + max((self._depth(v) for v in param_node.values()), default=0)
+        elif isinstance(param_node, list):
+            return 1 + max((self._depth(item) for item in param_node), default=0)
+        else:
+            return 0
+
     def _preprocess_dicts(self, param_node: Any) -> Any:
         r"""
         Ensure that objects are written to param files in certain canonical ways.
-- 
2.43.0


From 08079846c6ec382dddc695226dbf5e483ffd1901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:21 +0000
Subject: [PATCH 56/64] fix: allow percent signs in the messages of checks
 without message arguments

---
 vistautils/preconditions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/preconditions.py b/vistautils/preconditions.py
index e849729..de394a8 100644
--- a/vistautils/preconditions.py
+++ b/vistautils/preconditions.py
@@ -32,7 +32,8 @@ def check_not_none(x: T, msg: str = None) -> T:
 def check_arg(result: Any, msg: str = None, msg_args: Tuple = None) -> None:
     if not result:
         if msg:
-            raise ValueError(msg % (msg_args or ()))
+            # without arguments, the message may contain percent signs of its own
+            raise ValueError(msg % msg_args if msg_args else msg)
         else:
             raise ValueError()
 
-- 
2.43.0


From 35b4ab8a6fbae8b0b2786a4ea04558555633d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:43 +0000
Subject: [PATCH 57/64] fix: list the empty key of zip key-value stores which
 have no other keys

---
 vistautils/key_value.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 8022e31..d2c8dfc 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -57,7 +57,11 @@ def _read_keys_from_keys_file(zip_file: ZipFile) -> Optional[AbstractSet[str]]:
 
 
 def _write_keys_to_keys_file(zip_file: ZipFile, keys: AbstractSet[str]) -> None:
-    zip_file.writestr("__keys", "\n".join(keys).encode("utf-8"))
+    keys_data = "\n".join(keys)
+    if keys and not keys_data:
+        # An empty file would be read as there being no keys at all, not as the empty key.
+        keys_data = "\n"
+    zip_file.writestr("__keys", keys_data.encode("utf-8"))
 
 
 class KeyValueSink(Generic[K, V], metaclass=ABCMeta):
-- 
2.43.0


From 46f3d20b0b8651aed0af060514004250eebc094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:43 +0000
Subject: [PATCH 58/64] fix: skip members of tar files only if their key is
 None, as documented

---
 vistautils/key_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index d2c8dfc..3dc4f84 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -776,7 +776,7 @@ class TarGzipBytesLinearKeyValueSource(KeyValueLinearSource[str, bytes]):
             for member in self.inp:  # type: ignore
                 if member.isfile() and self.name_filter(member.name):
                     key = self.key_function(member.name)
-                    if key and key_filter(key):
+                    if key is not None and key_filter(key):
                         data = self.inp.extractfile(member)  # type: ignore
                         if data:
                             with data:
-- 
2.43.0


From f91f5c91e3283d5bc77eb0530f8e90d014f117c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:43 +0000
Subject: [PATCH 59/64] fix: reject keys with line breaks which the key list of
 a zip store cannot hold

---
 vistautils/key_value.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 3dc4f84..323979b 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -503,6 +503,11 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
             filename != "__keys" or self._keys_out_function is not _write_keys_to_keys_file,
             "The name __keys is reserved for the list of keys",
         )
+        # otherwise the parts of the key would be listed as if they were keys
+        check_arg(
+            self._keys_out_function is not _write_keys_to_keys_file or "\n" not in key,
+            "The list of keys has one key per line, so keys cannot contain line breaks",
+        )
         self._zip_file.writestr(filename, value)  # type: ignore
         # we only record the key once the value is really there so that a failed put is not
         # listed among the keys
-- 
2.43.0


From c83f3dbc8988422645ec1e381513bb87f376af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:37 +0000
Subject: [PATCH 60/64] fix: reject entries which a docID to file map would
 alter instead of writing them

---
 vistautils/io_utils.py  | 15 +++++++++++++++
 vistautils/key_value.py |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 18d8519..647837a 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -681,12 +681,27 @@ def file_lines_to_set(file: Path) -> ImmutableSet[str]:
     )
 
 
+def check_can_be_in_doc_id_to_file_map(doc_id: str, path: Path) -> None:
+    """
+    Raise a `ValueError` if an entry would be something else once written and read back.
+
+    This is so if it has separators within it or white space around it, which is not preserved.
+    """
+    for field in (str(doc_id), str(path.absolute())):
+        if field != field.strip() or any(x in field for x in "\t\n\r"):
+            raise ValueError(f"{field!r} cannot be part of a docID to file map")
+
+
 def write_doc_id_to_file_map(
     doc_id_to_file_map: Mapping[str, Path], sink: CharSink
 ) -> None:
     """
     Writes a tab-separated docID-to-file-map to the specified sink.
+
+    A `ValueError` is raised if a docID or path cannot be represented in such a map.
     """
+    for doc_id, path in doc_id_to_file_map.items():
+        check_can_be_in_doc_id_to_file_map(doc_id, path)
     with sink.open() as out:
         for doc_id in sorted(doc_id_to_file_map.keys()):
             out.write(
diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 323979b..8f23020 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -28,6 +28,7 @@ from vistautils.io_utils import (
     ByteSource,
     CharSink,
     CharSource,
+    check_can_be_in_doc_id_to_file_map,
     read_doc_id_to_file_map,
     write_doc_id_to_file_map,
 )
@@ -413,6 +414,7 @@ class _DirectoryCharKeyValueSink(KeyValueSink[str, str]):
         check_arg(
             out_file != self._path / "_index", "The name _index is reserved for the index"
         )
+        check_can_be_in_doc_id_to_file_map(key, out_file)
         CharSink.to_file(out_file).write(value)
         self.id_to_file[key] = out_file
 
@@ -444,6 +446,7 @@ class _DirectoryBytesKeyValueSink(KeyValueSink[str, bytes]):
         check_arg(
             out_file != self._path / "_index", "The name _index is reserved for the index"
         )
+        check_can_be_in_doc_id_to_file_map(key, out_file)
         ByteSink.to_file(out_file).write(value)
         self.id_to_file[key] = out_file
 
-- 
2.43.0


From 04e1031558e2ee567392f9888d03c6d6ecda0133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:34 +0000
Subject: [PATCH 61/64] fix: reject null characters in the file names of zip
 stores, which would cut them off

---
 vistautils/key_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 8f23020..e8cebcf 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -511,6 +511,8 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
             self._keys_out_function is not _write_keys_to_keys_file or "\n" not in key,
             "The list of keys has one key per line, so keys cannot contain line breaks",
         )
+        # zip files end names at null characters, so the value could not be found again
+        check_arg("\0" not in filename, "File names cannot contain null characters")
         self._zip_file.writestr(filename, value)  # type: ignore
         # we only record the key once the value is really there so that a failed put is not
         # listed among the keys
-- 
2.43.0


From 32121b77954008e189030934462734002a8b7576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 62/64] fix: report link loops given as existing files or
 directories as parameter errors

---
 vistautils/parameters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 2c28bc1..d992688 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -375,7 +375,8 @@ class Parameters:
 
         Throws a `ParameterError` if `param` is not a known parameter.
         """
-        ret = Path.resolve(Path(self.string(param)))
+        # unlike Path.resolve, this does not fail on link loops, which do not exist as well
+        ret = Path(os.path.realpath(self.string(param)))
         if ret.exists():
             if ret.is_file():
                 return ret
@@ -416,7 +417,8 @@ class Parameters:
 
         Throws a `ParameterError` if `param` is not a known parameter.
         """
-        ret = Path.resolve(Path(self.string(param)))
+        # unlike Path.resolve, this does not fail on link loops, which do not exist as well
+        ret = Path(os.path.realpath(self.string(param)))
         if ret.exists():
             if ret.is_dir():
                 return ret
-- 
2.43.0


From b1f8a0fe06e924754ca7af71b4eb3f283575a50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:04 +0000
Subject: [PATCH 63/64] fix: reject keys which the key list of zip key-value
 sinks cannot encode

They were accepted if the file name function coped with them, and then the key list
as a whole could not be written when the sink was closed.
---
 vistautils/key_value.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index e8cebcf..095b7c1 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -511,6 +511,10 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
             self._keys_out_function is not _write_keys_to_keys_file or "\n" not in key,
             "The list of keys has one key per line, so keys cannot contain line breaks",
         )
+        if self._keys_out_function is _write_keys_to_keys_file:
+            # this raises an error for keys which the list of keys could not hold,
+            # which otherwise would be lost as a whole when the sink is closed
+            key.encode("utf-8")
         # zip files end names at null characters, so the value could not be found again
         check_arg("\0" not in filename, "File names cannot contain null characters")
         self._zip_file.writestr(filename, value)  # type: ignore
-- 
2.43.0


From 44b6310b1fcd23c77488da64c63a6ffcbc9d4285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:21 +0000
Subject: [PATCH 64/64] fix: reject keys which the index of directory key-value
 sinks cannot encode

Their values were written, and then the index lacked all following keys.
---
 vistautils/key_value.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 095b7c1..880d637 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -415,6 +415,8 @@ class _DirectoryCharKeyValueSink(KeyValueSink[str, str]):
             out_file != self._path / "_index", "The name _index is reserved for the index"
         )
         check_can_be_in_doc_id_to_file_map(key, out_file)
+        # the index, which is in UTF-8, could not be written as a whole otherwise
+        str(out_file.absolute()).encode("utf-8")
         CharSink.to_file(out_file).write(value)
         self.id_to_file[key] = out_file
 
@@ -447,6 +449,8 @@ class _DirectoryBytesKeyValueSink(KeyValueSink[str, bytes]):
             out_file != self._path / "_index", "The name _index is reserved for the index"
         )
         check_can_be_in_doc_id_to_file_map(key, out_file)
+        # the index, which is in UTF-8, could not be written as a whole otherwise
+        str(out_file.absolute()).encode("utf-8")
         ByteSink.to_file(out_file).write(value)
         self.id_to_file[key] = out_file
 
-- 
2.43.0

