From bfbe7eb884926e857a9b000bb68323a98546fddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 01/31] fix: Struct.from_bytes(exact=True) ignored one trailing
 byte

---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 64bdb03..d8b13c9 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -551,9 +551,9 @@ class Struct(HasStruct):
         loaded_data = cls.from_stream(stream, context, init_kwargs)
 
         here = stream.tell()
-        if exact and (here < len(data) - 1):
+        if exact and here < len(data):
             raise errors.ExtraneousDataError(
-                f"Read {here + 1} bytes, but there are {len(data)} in the input data.",
+                f"Read {here} bytes, but there are {len(data)} in the input data.",
                 offset=stream.tell(),
             )
         return loaded_data
-- 
2.43.0


From 77a8c263717c0e9350ac97fadd4f29d66ad0d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 02/31] fix: StringZ loading was limited to the size of the
 default value

---
 binobj/fields/stringlike.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 36ef36c..09a1129 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -159,11 +159,11 @@ class StringZ(String):
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
     ) -> str:
-        max_bytes: Optional[int]
-        try:
+        # The size of an unsized string must come from the data, never from the value
+        # the field has (or would default to).
+        max_bytes: Optional[int] = None
+        if self.size is not None:
             max_bytes = self.get_expected_size(loaded_fields)
-        except errors.UndefinedSizeError:
-            max_bytes = None
 
         iterator = helpers.iter_bytes(stream, max_bytes)
         reader = codecs.iterdecode(iterator, self.encoding)
-- 
2.43.0


From d42c621adb8ec0a665002987c116686274f3226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 03/31] fix: MultipleInheritanceError named StructMetadata
 instead of the struct

---
 binobj/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index d8b13c9..9d8ed01 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -119,7 +119,7 @@ class StructMetadata:
         ]
 
         if len(struct_bases) > 1:
-            raise errors.MultipleInheritanceError(struct=cls.__name__)
+            raise errors.MultipleInheritanceError(struct=struct_class.__name__)
 
         metadata = cls(name=struct_class.__name__)
         namespace = vars(struct_class)
-- 
2.43.0


From 87996a3cf154e6529a1f0cdd0b79d7474ab4267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 04/31] fix: BuggyFieldImplementationError message didn't
 include the value

---
 binobj/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 07f7fc7..af0b830 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -647,7 +647,7 @@ class Field(Generic[T]):
                 f"{type(self).__qualname__} is broken: either _size_for_value() (or"
                 " less likely, _get_null_repr()) calls one of the `Field.to_*` or"
                 " `Field.from_*` methods. Doing so causes infinite recursion. (Value:"
-                " {value!r})",
+                f" {value!r})",
                 field=self,
             ) from None
 
-- 
2.43.0


From 62d3dcfab4bdc1106de12d55a9a51be7aa3d1be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 05/31] fix: len() of a struct mapping proxy gave the struct's
 size in bytes

---
 binobj/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 9d8ed01..c3784b4 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -846,7 +846,7 @@ class StructMappingProxy(Mapping[str, Any]):
         yield from iter(self.struct)
 
     def __len__(self) -> int:
-        return len(self.struct)
+        return sum(1 for _ in self.struct)
 
 
 @dc.dataclass
-- 
2.43.0


From 48c4feaf577763a3a0bf1a0662b847466a8c8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 06/31] fix: Union bypassed validators, constants, and nulls of
 the loaded member

---
 binobj/fields/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 61954ee..7b3b290 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -492,7 +492,7 @@ class Union(Field[Any]):
     ) -> Any:
         loader = self.load_decider(stream, self.choices, context, loaded_fields)
         if isinstance(loader, Field):
-            return loader._do_load(stream, context, loaded_fields)  # noqa: SLF001
+            return loader.from_stream(stream, context, loaded_fields)
         if isinstance(loader, type) and issubclass(loader, Struct):
             return loader.from_stream(stream, context)
         raise TypeError(
-- 
2.43.0


From 0f4d6702db9df43a2a1d211471586fdc69f92cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 07/31] fix: fields with a default factory were treated as
 missing when dumping

---
 binobj/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index af0b830..b4c3877 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -440,7 +440,7 @@ class Field(Generic[T]):
         if self.name in all_values:
             # The value is already set in the struct so we don't need to do anything.
             value_to_dump = all_values[self.name]
-        elif self._default is not UNDEFINED:
+        elif self.factory is not None or self._default is not UNDEFINED:
             # The value is *not* set in the struct. Either this field must have a
             # default value, or it must be a computed field. Check for default values
             # here.
-- 
2.43.0


From 5d0a6bbc70bafa1ba2420eb20b7f1a45b6d6ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 08/31] fix: a negative size given by another field read the
 rest of the stream

---
 binobj/fields/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index b4c3877..950d76e 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -989,6 +989,12 @@ class Field(Generic[T]):
         offset = stream.tell()
         n_bytes = self.get_expected_size(loaded_fields)
 
+        if n_bytes < 0:
+            # Reading a negative number of bytes would read the rest of the stream.
+            raise errors.DeserializationError(
+                f"Invalid size for {self}: {n_bytes!r}", field=self, offset=offset
+            )
+
         data_read = stream.read(n_bytes)
         if len(data_read) < n_bytes:
             raise errors.UnexpectedEOFError(field=self, size=n_bytes, offset=offset)
-- 
2.43.0


From 824d80979dd1f7ec9d711055c693da2fcd73a7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 09/31] fix: read_int() with a negative size read the rest of
 the stream

---
 binobj/helpers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binobj/helpers.py b/binobj/helpers.py
index 183934c..ef91662 100644
--- a/binobj/helpers.py
+++ b/binobj/helpers.py
@@ -45,6 +45,12 @@ def read_int(
         endian = sys.byteorder
 
     offset = stream.tell()
+    if n_bytes < 0:
+        # Reading a negative number of bytes would read the rest of the stream.
+        raise errors.DeserializationError(
+            f"Invalid integer size: {n_bytes!r}", offset=offset
+        )
+
     data = stream.read(n_bytes)
     if len(data) < n_bytes:
         raise errors.UnexpectedEOFError(field=None, size=n_bytes, offset=offset)
-- 
2.43.0


From 44de5b996cc00c542867a86837ef28701ac6cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 10/31] fix: validators were run on fields that aren't present
 in the data

---
 binobj/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index c3784b4..1cd1192 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -349,6 +349,8 @@ class Struct(HasStruct):
         for f_name, validators in self.__binobj_struct__.field_validators.items():
             f_obj = self.__binobj_struct__.components[f_name]
             value = self[f_name]
+            if value is fields.NOT_PRESENT:
+                continue
 
             # First, invoke the validators defined on the field object.
             for instance_validator in f_obj.validators:
-- 
2.43.0


From cc7f18dc477440cbb089038a038385ee2f72b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 11/31] fix: values of discardable fields were dropped when
 dumping

---
 binobj/structures.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 1cd1192..5a9907c 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -277,31 +277,44 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
 
 @overload
-def recursive_to_dicts(item: Struct) -> dict[str, Any]: ...
+def recursive_to_dicts(
+    item: Struct, keep_discardable: bool = False
+) -> dict[str, Any]: ...
 
 
 @overload
-def recursive_to_dicts(item: Mapping[K, V]) -> dict[K, V]: ...
+def recursive_to_dicts(
+    item: Mapping[K, V], keep_discardable: bool = False
+) -> dict[K, V]: ...
 
 
 @overload
-def recursive_to_dicts(item: Sequence[T]) -> list[T]: ...
+def recursive_to_dicts(
+    item: Sequence[T], keep_discardable: bool = False
+) -> list[T]: ...
 
 
-def recursive_to_dicts(item: object) -> Any:
+def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
     """Ensure that any nested structures are also converted to dictionaries.
 
     This is used when a :class:`Struct` is converted to a dictionary.
 
     :param item:
         Anything. If it's an unsupported type it'll get returned as is.
+    :param bool keep_discardable:
+        Passed to :meth:`Struct.to_dict` of every struct found.
     """
     if isinstance(item, Struct):
-        return item.to_dict()
+        return item.to_dict(keep_discardable)
     if isinstance(item, Mapping):
-        return {recursive_to_dicts(k): recursive_to_dicts(v) for k, v in item.items()}
+        return {
+            recursive_to_dicts(k, keep_discardable): recursive_to_dicts(
+                v, keep_discardable
+            )
+            for k, v in item.items()
+        }
     if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
-        return [recursive_to_dicts(v) for v in item]
+        return [recursive_to_dicts(v, keep_discardable) for v in item]
     return item
 
 
@@ -379,7 +392,7 @@ class Struct(HasStruct):
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
         # fields expecting a dictionary.
-        all_fields = self.to_dict()
+        all_fields = self.to_dict(keep_discardable=True)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -441,7 +454,7 @@ class Struct(HasStruct):
                 if field.discard:
                     del dct[field.name]
 
-        return recursive_to_dicts(dct)
+        return recursive_to_dicts(dct, keep_discardable)
 
     def _to_dict_whatever_possible(self) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
-- 
2.43.0


From ed02c02fea98543d9565fc204fcc059d70c3a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 12/31] fix: presence predicates didn't get the context while
 collecting values to dump

---
 binobj/structures.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 5a9907c..d963e1f 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -278,23 +278,25 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
 @overload
 def recursive_to_dicts(
-    item: Struct, keep_discardable: bool = False
+    item: Struct, keep_discardable: bool = False, context: object = None
 ) -> dict[str, Any]: ...
 
 
 @overload
 def recursive_to_dicts(
-    item: Mapping[K, V], keep_discardable: bool = False
+    item: Mapping[K, V], keep_discardable: bool = False, context: object = None
 ) -> dict[K, V]: ...
 
 
 @overload
 def recursive_to_dicts(
-    item: Sequence[T], keep_discardable: bool = False
+    item: Sequence[T], keep_discardable: bool = False, context: object = None
 ) -> list[T]: ...
 
 
-def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
+def recursive_to_dicts(
+    item: object, keep_discardable: bool = False, context: object = None
+) -> Any:
     """Ensure that any nested structures are also converted to dictionaries.
 
     This is used when a :class:`Struct` is converted to a dictionary.
@@ -303,18 +305,20 @@ def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
         Anything. If it's an unsupported type it'll get returned as is.
     :param bool keep_discardable:
         Passed to :meth:`Struct.to_dict` of every struct found.
+    :param context:
+        Passed to :meth:`Struct.to_dict` of every struct found.
     """
     if isinstance(item, Struct):
-        return item.to_dict(keep_discardable)
+        return item.to_dict(keep_discardable, context)
     if isinstance(item, Mapping):
         return {
-            recursive_to_dicts(k, keep_discardable): recursive_to_dicts(
-                v, keep_discardable
+            recursive_to_dicts(k, keep_discardable, context): recursive_to_dicts(
+                v, keep_discardable, context
             )
             for k, v in item.items()
         }
     if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
-        return [recursive_to_dicts(v, keep_discardable) for v in item]
+        return [recursive_to_dicts(v, keep_discardable, context) for v in item]
     return item
 
 
@@ -392,7 +396,7 @@ class Struct(HasStruct):
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
         # fields expecting a dictionary.
-        all_fields = self.to_dict(keep_discardable=True)
+        all_fields = self.to_dict(keep_discardable=True, context=context)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -413,7 +417,9 @@ class Struct(HasStruct):
         self.to_stream(stream, context)
         return stream.getvalue()
 
-    def to_dict(self, keep_discardable: bool = False) -> dict[str, Any]:
+    def to_dict(
+        self, keep_discardable: bool = False, context: object = None
+    ) -> dict[str, Any]:
         """Convert this struct into an ordered dictionary.
 
         The primary use for this method is converting a loaded :class:`Struct` into
@@ -422,6 +428,8 @@ class Struct(HasStruct):
 
         :param bool keep_discardable:
             If True, don't exclude fields marked with ``discard=True`` from the result.
+        :param context:
+            The context object to pass to the fields when computing their values.
 
         :rtype: Dict[str, Any]
 
@@ -440,10 +448,10 @@ class Struct(HasStruct):
         .. versionchanged:: 0.6.1
             The ``keep_discardable`` argument was added.
         """
-        dct = self._to_dict_whatever_possible()
+        dct = self._to_dict_whatever_possible(context)
         dct.update(
             {
-                field.name: field.compute_value_for_dump(dct)
+                field.name: field.compute_value_for_dump(dct, context)
                 for field in self.__binobj_struct__.components.values()
                 if field.name not in dct
             }
@@ -454,9 +462,9 @@ class Struct(HasStruct):
                 if field.discard:
                     del dct[field.name]
 
-        return recursive_to_dicts(dct, keep_discardable)
+        return recursive_to_dicts(dct, keep_discardable, context)
 
-    def _to_dict_whatever_possible(self) -> dict[str, Any]:
+    def _to_dict_whatever_possible(self, context: object = None) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
 
         We use this to get values for all computed fields as well as any fields that
@@ -469,7 +477,7 @@ class Struct(HasStruct):
         for field in self.__binobj_struct__.components.values():
             try:
                 dct[field.name] = field.compute_value_for_dump(
-                    typing.cast(StrDict, self)
+                    typing.cast(StrDict, self), context
                 )
             except (errors.SerializationError, errors.UndefinedSizeError):  # noqa: PERF203
                 pass
-- 
2.43.0


From f1edd7cd712e9945f14fdd9cd3dd2510e4fc1ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 13/31] fix: presence predicates didn't get the context while
 validating a struct

---
 binobj/structures.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index d963e1f..2c3f389 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -356,16 +356,24 @@ class Struct(HasStruct):
 
         self.__values__ = values
 
-    def validate_contents(self) -> None:
+    def validate_contents(self, context: object = None) -> None:
         """Validate the stored values in this struct.
 
+        :param context:
+            The context object to pass to fields whose values aren't set and must be
+            computed.
         :raise ~binobj.errors.ValidationError: Validation failed.
 
         .. versionadded:: 0.4.0
         """
         for f_name, validators in self.__binobj_struct__.field_validators.items():
             f_obj = self.__binobj_struct__.components[f_name]
-            value = self[f_name]
+            if f_name in self.__values__:
+                value = self[f_name]
+            else:
+                value = f_obj.compute_value_for_dump(
+                    typing.cast(StrDict, self), context
+                )
             if value is fields.NOT_PRESENT:
                 continue
 
@@ -391,7 +399,7 @@ class Struct(HasStruct):
             Additional data to pass to this method. Subclasses must ignore anything they
             don't recognize.
         """
-        self.validate_contents()
+        self.validate_contents(context)
 
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
@@ -531,7 +539,7 @@ class Struct(HasStruct):
             results.setdefault(name, field.from_stream(stream, context, results))
 
         instance = cls(**results)
-        instance.validate_contents()
+        instance.validate_contents(context)
 
         for field in cls.__binobj_struct__.components.values():
             if field.discard:
-- 
2.43.0


From 4c86496f05b96d942d19bb9ca8c76bc306b8b83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 14/31] fix: partial_dump ignored computed values, presence,
 and sibling fields

---
 binobj/structures.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 2c3f389..22d069f 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -728,21 +728,24 @@ class Struct(HasStruct):
             Any object containing extra information to pass to the fields'
             :meth:`~binobj.fields.base.Field.from_stream` methods.
         """
-        data = self.__values__
+        all_fields = self._to_dict_whatever_possible(context)
 
         for field in self.__binobj_struct__.components.values():
-            value = data.get(field.name, field.default)
-            if value is fields.UNDEFINED:
+            try:
+                value = field.compute_value_for_dump(
+                    typing.cast(StrDict, self), context
+                )
+            except errors.MissingRequiredValueError:
                 # Field is missing from the dump data. If the caller wants us to dump
                 # only the fields that're defined, we can bail out now.
                 if last_field is None:
                     return
-                if field.required:
-                    # Caller wants us to dump up to and including ``last_field`` so we
-                    # need to crash.
-                    raise errors.MissingRequiredValueError(field=field)
+                # Caller wants us to dump up to and including ``last_field`` so we
+                # need to crash.
+                raise
 
-            field.to_stream(stream, value, context)
+            if value is not fields.NOT_PRESENT:
+                field.to_stream(stream, value, context=context, all_fields=all_fields)
             if field.name == last_field:
                 return
 
-- 
2.43.0


From 9588688c84c1aad4c497c1c1f11d8a717bec1392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 15/31] fix: len() of a struct crashed on absent fields and
 referenced array counts

---
 binobj/structures.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 22d069f..6675fb4 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -797,14 +797,20 @@ class Struct(HasStruct):
         current_fields = self._to_dict_whatever_possible()
 
         for field in self.__binobj_struct__.components.values():
+            if current_fields.get(field.name) is fields.NOT_PRESENT:
+                continue
             if field.has_fixed_size:
                 size += typing.cast(int, field.size)
             else:
                 try:
                     size += field.get_expected_size(current_fields)
                 except errors.Error:
-                    field_value = field.compute_value_for_dump(current_fields)
-                    size += len(field.to_bytes(field_value))
+                    field_value = recursive_to_dicts(
+                        field.compute_value_for_dump(current_fields), True
+                    )
+                    size += len(
+                        field.to_bytes(field_value, all_fields=current_fields)
+                    )
 
         return size
 
-- 
2.43.0


From 6546c025a15d79f35c9e4fe13de050bf6a431052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 16/31] fix: struct sizes and field offsets took optional and
 defaulted fields for fixed

---
 binobj/fields/base.py | 12 +++++++++++-
 binobj/pep526.py      |  6 +++++-
 binobj/structures.py  | 19 ++++++++++++++++---
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 950d76e..3c03e39 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -71,6 +71,11 @@ NOT_PRESENT = _NotPresent.token
 T = TypeVar("T")
 
 
+def _always_present(*_args: object) -> bool:
+    """Indicate that a field is always present."""
+    return True
+
+
 class Field(Generic[T]):
     r"""The base class for all struct fields.
 
@@ -275,7 +280,7 @@ class Field(Generic[T]):
         null_value: Union[bytes, _Default, _Undefined, T] = UNDEFINED,
         size: Union[int, str, Field[int], None] = None,
         validate: Union[FieldValidator, Iterable[FieldValidator]] = (),
-        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = (lambda *_: True),
+        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = _always_present,
         not_present_value: Union[T, None, _NotPresent] = NOT_PRESENT,
     ):
         self.const = const
@@ -338,6 +343,11 @@ class Field(Generic[T]):
         """
         return isinstance(self.size, int)
 
+    @property
+    def is_always_present(self) -> bool:
+        """Is this field in the data no matter what the other fields' values are?"""
+        return self.present is _always_present
+
     def bind_to_container(
         self,
         struct_info: StructMetadata,
diff --git a/binobj/pep526.py b/binobj/pep526.py
index 48b76f5..66f9a1d 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -257,7 +257,11 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             raise errors.FieldRedefinedError(struct=class_object.__name__, field=name)
 
         field_instance.bind_to_container(meta, name, field_index, byte_offset)
-        if byte_offset is not None and field_instance.has_fixed_size:
+        if (
+            byte_offset is not None
+            and field_instance.has_fixed_size
+            and field_instance.is_always_present
+        ):
             byte_offset += typing.cast(int, field_instance.size)
         else:
             byte_offset = None
diff --git a/binobj/structures.py b/binobj/structures.py
index 6675fb4..9353f36 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -194,9 +194,18 @@ class StructMetadata:
         if field_values is None:
             field_values = {}
 
-        field_objects = self.components.values()
+        total_size = 0
         try:
-            return sum(f.get_expected_size(field_values) for f in field_objects)
+            for field in self.components.values():
+                if field.name not in field_values and (
+                    field.size is None or not field.is_always_present
+                ):
+                    # The size depends on a value we don't have, and the default value
+                    # of the field is only a guess.
+                    return None
+                if field_values.get(field.name) is not fields.NOT_PRESENT:
+                    total_size += field.get_expected_size(field_values)
+            return total_size
         except (errors.UndefinedSizeError, errors.MissingRequiredValueError):
             return None
 
@@ -245,7 +254,11 @@ def collect_assigned_fields(
             raise errors.FieldRedefinedError(struct=class_metadata.name, field=item)
 
         item.bind_to_container(class_metadata, item_name, field_index, byte_offset)
-        if byte_offset is not None and item.has_fixed_size:
+        if (
+            byte_offset is not None
+            and item.has_fixed_size
+            and item.is_always_present
+        ):
             byte_offset += typing.cast(int, item.size)
         else:
             byte_offset = None
-- 
2.43.0


From 764619431dacd2a3fef81e47b82c5311b0004a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 17/31] fix: subclassing a struct changed the __objclass__ of
 its parent's fields

---
 binobj/structures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 9353f36..dbc92f5 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -862,8 +862,9 @@ class Struct(HasStruct):
 
         # Set __objclass__ on all fields to aid type introspection. The `inspect` module
         # uses this as an aid.
-        for field in meta.components.values():
-            field.__objclass__ = cls
+        for field in vars(cls).values():
+            if isinstance(field, fields.Field):
+                field.__objclass__ = cls
 
         super().__init_subclass__()
 
-- 
2.43.0


From 2bdfad0392ac1cc1eb37ced4258b6b54031bde9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 18/31] fix: binobj.dataclass ignored inherited fields and
 field validators

---
 binobj/pep526.py     | 11 +++++++++--
 binobj/structures.py |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 66f9a1d..9c79980 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -221,12 +221,17 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
     if meta.num_own_fields > 0:
         raise errors.MixedDeclarationsError(struct=class_object)
 
-    field_index = 0
+    field_index = len(meta.components)
     n_fields_found = 0
-    byte_offset = meta.size_bytes
+    byte_offset = meta.get_size()
+    own_annotations = vars(class_object).get("__annotations__", {})
     all_annotations = typing.get_type_hints(class_object, include_extras=True)
 
     for name, raw_annotation in all_annotations.items():
+        if name in meta.components and name not in own_annotations:
+            # Inherited from the superclass, not redefined here.
+            continue
+
         flattened_annotations = flatten_annotations(raw_annotation)
 
         info_list = [
@@ -267,6 +272,8 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             byte_offset = None
 
         meta.components[name] = field_instance
+        meta.field_validators.setdefault(name, [])
+        field_instance.__objclass__ = class_object
         field_index += 1
         n_fields_found += 1
 
diff --git a/binobj/structures.py b/binobj/structures.py
index dbc92f5..c239fd9 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -282,6 +282,9 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
         if item.field_names:
             # Attach this validator to each named field.
             for field_name in item.field_names:
+                if field_name in namespace.get("__annotations__", ()):
+                    # Declared with an annotation, so it's not a field yet.
+                    metadata.field_validators.setdefault(field_name, [])
                 metadata.field_validators[field_name].append(item)
         else:
             # Validator doesn't define any fields, must be a validator for the entire
-- 
2.43.0


From 350951c6f3837bd4eff6c7707354bc48fd68e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 19/31] fix: StringZ didn't report a missing terminator as an
 unexpected EOF

---
 binobj/fields/stringlike.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 09a1129..2474c1c 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -165,6 +165,7 @@ class StringZ(String):
         if self.size is not None:
             max_bytes = self.get_expected_size(loaded_fields)
 
+        offset = stream.tell()
         iterator = helpers.iter_bytes(stream, max_bytes)
         reader = codecs.iterdecode(iterator, self.encoding)
         result = io.StringIO()
@@ -174,7 +175,11 @@ class StringZ(String):
                 return result.getvalue()
             result.write(char)
 
-        # If we get out here then we hit EOF before getting to the null terminator.
+        # If we get out here then we hit EOF or the size limit before getting to the
+        # null terminator.
+        n_read = stream.tell() - offset
+        if max_bytes is None or n_read < max_bytes:
+            raise errors.UnexpectedEOFError(field=self, size=n_read + 1, offset=offset)
         raise errors.DeserializationError(
             "Hit EOF before finding the trailing null.", field=self
         )
-- 
2.43.0


From 9df6264dd0559352c023913b67b1ce06842b7eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 20/31] fix: Float leaked OverflowError when dumping

---
 binobj/fields/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 45a4eb5..4af0c30 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -110,7 +110,7 @@ class Float(Field[float]):
     ) -> None:
         try:
             serialized = struct.pack(self.format_string, data)
-        except struct.error as exc:
+        except (struct.error, OverflowError) as exc:
             raise errors.SerializationError(message=str(exc), field=self) from exc
         stream.write(serialized)
 
-- 
2.43.0


From fb1ba30aa7da496611a96f8ccb9b2034045b80ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 21/31] fix: UUID4 leaked ValueError when loading an invalid
 string

---
 binobj/fields/stringlike.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 2474c1c..593fab0 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -261,7 +261,12 @@ class UUID4(Field[uuid.UUID]):
             return uuid.UUID(bytes=raw_data)
         if self.stored_as is UUIDFormat.BINARY_VARIANT_2:
             return uuid.UUID(bytes_le=raw_data)
-        return uuid.UUID(hex=raw_data.decode("ascii"))
+        try:
+            return uuid.UUID(hex=raw_data.decode("ascii"))
+        except ValueError as exc:
+            raise errors.DeserializationError(
+                message=str(exc), field=self, data=raw_data
+            ) from exc
 
     @override
     def _do_dump(
-- 
2.43.0


From 36c49d6e8d2dfa424ef1eb68dee5403d35456e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 22/31] fix: string fields leaked UnicodeError when loading and
 dumping

---
 binobj/fields/stringlike.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 593fab0..3ba6298 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -104,7 +104,12 @@ class String(Field[str]):
     ) -> Optional[str]:
         """Load a fixed-length string from a stream."""
         to_load = self._read_exact_size(stream, loaded_fields)
-        return to_load.decode(self.encoding)
+        try:
+            return to_load.decode(self.encoding)
+        except UnicodeError as exc:
+            raise errors.DeserializationError(
+                message=str(exc), field=self, data=to_load
+            ) from exc
 
     @override
     def _do_dump(
@@ -125,7 +130,12 @@ class String(Field[str]):
         :return: ``string`` encoded as ``size`` bytes.
         :rtype: bytes
         """
-        to_dump = string.encode(self.encoding)
+        try:
+            to_dump = string.encode(self.encoding)
+        except UnicodeError as exc:
+            raise errors.UnserializableValueError(
+                field=self, value=string, reason=str(exc)
+            ) from exc
         write_size = self.get_expected_size(all_fields)
 
         size_diff = len(to_dump) - write_size
@@ -170,10 +180,13 @@ class StringZ(String):
         reader = codecs.iterdecode(iterator, self.encoding)
         result = io.StringIO()
 
-        for char in reader:
-            if char == "\0":
-                return result.getvalue()
-            result.write(char)
+        try:
+            for char in reader:
+                if char == "\0":
+                    return result.getvalue()
+                result.write(char)
+        except UnicodeError as exc:
+            raise errors.DeserializationError(message=str(exc), field=self) from exc
 
         # If we get out here then we hit EOF or the size limit before getting to the
         # null terminator.
@@ -188,7 +201,13 @@ class StringZ(String):
     def _do_dump(
         self, stream: BinaryIO, data: str, context: object, all_fields: StrDict
     ) -> None:
-        stream.write((data + "\0").encode(self.encoding))
+        try:
+            serialized = (data + "\0").encode(self.encoding)
+        except UnicodeError as exc:
+            raise errors.UnserializableValueError(
+                field=self, value=data, reason=str(exc)
+            ) from exc
+        stream.write(serialized)
 
     def _size_for_value(self, value: str) -> int:
         return len((value + "\0").encode(self.encoding))
-- 
2.43.0


From 415a21c718ccf91b37dbf743b59a31919f3e8d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 23/31] fix: Timestamp leaked errors for values out of range

---
 binobj/fields/numeric.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 4af0c30..ffc8068 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -428,11 +428,14 @@ class Timestamp(Field[datetime.datetime]):
         value = helpers.read_int(
             stream, self.get_expected_size(loaded_fields), self.signed, self.endian
         )
-        if not self.tz_aware:
-            return datetime.datetime.fromtimestamp(value / self._units)
-        return datetime.datetime.fromtimestamp(
-            value / self._units, datetime.timezone.utc
-        )
+        try:
+            if not self.tz_aware:
+                return datetime.datetime.fromtimestamp(value / self._units)
+            return datetime.datetime.fromtimestamp(
+                value / self._units, datetime.timezone.utc
+            )
+        except (ValueError, OverflowError, OSError) as err:
+            raise errors.DeserializationError(message=str(err), field=self) from err
 
     @override
     def _do_dump(
@@ -457,8 +460,8 @@ class Timestamp(Field[datetime.datetime]):
                 stacklevel=2,
             )
 
-        timestamp = int(data.timestamp() * self._units)
         try:
+            timestamp = int(data.timestamp() * self._units)
             helpers.write_int(
                 stream,
                 timestamp,
-- 
2.43.0


From cd6e466edb2df0b87f82a4789317feb04a634bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:39 +0000
Subject: [PATCH 24/31] fix: discardable fields were hidden from later fields
 in partial_load()

---
 binobj/structures.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index c239fd9..cd69454 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -636,6 +636,17 @@ class Struct(HasStruct):
 
         :return: The loaded struct.
         """
+        result = cls._load_fields(stream, last_field, context)
+        for field in cls.__binobj_struct__.components.values():
+            if field.discard:
+                result.pop(field.name, None)
+        return cls(**result)
+
+    @classmethod
+    def _load_fields(
+        cls, stream: BinaryIO, last_field: Optional[str], context: object
+    ) -> MutableStrDict:
+        """Load the fields for :meth:`partial_load`, including discardable ones."""
         if (
             last_field is not None
             and last_field not in cls.__binobj_struct__.components
@@ -662,13 +673,12 @@ class Struct(HasStruct):
                 stream.seek(offset)
                 break
 
-            if not field.discard:
-                result[field.name] = value
+            result[field.name] = value
 
             if field.name == last_field:
                 break
 
-        return cls(**result)
+        return result
 
     @classmethod
     def get_field(cls, stream: BinaryIO, name: str, context: object = None) -> Any:
@@ -720,7 +730,7 @@ class Struct(HasStruct):
         # result in validation errors if there is data before the desired field that's
         # invalid.
         try:
-            loaded_data = cls.partial_load(stream, name, context)
+            loaded_data = cls._load_fields(stream, name, context)
         finally:
             stream.seek(original_offset)
         return loaded_data[name]
-- 
2.43.0


From b965cde3eade2cff10d6a5f27eb699a299b91628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 25/31] fix: binobj.dataclass ignored the default and
 nullability of nested structs

---
 binobj/pep526.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 9c79980..89ff7c7 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -153,15 +153,17 @@ class AnnotationInfo:
         """Convert a type annotation to a Field object if it represents one."""
         if isinstance(self.type_class, type):
             # We got a class object. Could be a struct or field, ignore everything else.
+            kw: dict[str, Any]
+            kw = {"null_value": fields.DEFAULT} if self.nullable else {}
+
             if issubclass(self.type_class, Struct):
                 # A Struct class is shorthand for Nested(Struct).
-                return fields.Nested(self.type_class)
+                return fields.Nested(
+                    self.type_class, name=self.name, default=self.default_value, **kw
+                )
             if issubclass(self.type_class, fields.Field):
                 # This is a Field class. Initialize it with only the arguments we're
                 # certain of. This gives us a Field instance.
-                kw: dict[str, Any]
-                kw = {"null_value": fields.DEFAULT} if self.nullable else {}
-
                 return self.type_class(name=self.name, default=self.default_value, **kw)
 
             # Else: Not a struct or field class -- ignore
-- 
2.43.0


From 879a657385a5a75f0cb0b98c0e65a692c03f0e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:02 +0000
Subject: [PATCH 26/31] fix: an array dumped from an iterator accepted any
 number of elements when its count was negative

---
 binobj/fields/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 7b3b290..c168010 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -280,7 +280,7 @@ class Array(Field[list[Optional[T]]]):
         """Dump an unsized iterable into the stream."""
         n_written = 0
         for value in data:
-            if n_written == n_elems:
+            if n_elems is not None and n_written >= n_elems:
                 # We've already written the requisite number of items to the stream, but
                 # received at least one more item. Crash.
                 raise errors.ArraySizeError(
@@ -292,7 +292,7 @@ class Array(Field[list[Optional[T]]]):
             )
             n_written += 1
 
-        if n_elems is not None and n_written < n_elems:
+        if n_elems is not None and n_written != n_elems:
             raise errors.ArraySizeError(
                 field=self, n_expected=n_elems, n_given=n_written
             )
-- 
2.43.0


From 07da56092afa3ed102f08971ffb7ae63c0119c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 27/31] fix: count the bytes of a sized field's null
 representation in len()

A null value may be longer or shorter than the field it stands for, and it's
written as it is, but the length of a struct always counted the field's size.
---
 binobj/structures.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index cd69454..3144fa0 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -823,9 +823,13 @@ class Struct(HasStruct):
         current_fields = self._to_dict_whatever_possible()
 
         for field in self.__binobj_struct__.components.values():
-            if current_fields.get(field.name) is fields.NOT_PRESENT:
+            value = current_fields.get(field.name, fields.UNDEFINED)
+            if value is fields.NOT_PRESENT:
                 continue
-            if field.has_fixed_size:
+            if value is None and field.size is not None:
+                # The null representation isn't necessarily as long as the field.
+                size += len(field.to_bytes(None, all_fields=current_fields))
+            elif field.has_fixed_size:
                 size += typing.cast(int, field.size)
             else:
                 try:
-- 
2.43.0


From af33d448713d44326bd6a8937230001a940ddf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 28/31] fix: binobj.dataclass silently dropped fields annotated
 with the X | Y union syntax

---
 binobj/pep526.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 89ff7c7..df75e53 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -35,6 +35,7 @@ Here are a few examples of how you can declare your fields::
 from __future__ import annotations
 
 import dataclasses
+import types
 import typing
 import warnings
 from typing import Any
@@ -60,6 +61,9 @@ __all__ = ["dataclass"]
 
 TStruct = TypeVar("TStruct", bound=Struct)
 
+# PEP 604 unions (``X | None``) have an origin of their own on Python 3.10 and up.
+UNION_ORIGINS = (Union, getattr(types, "UnionType", Union))
+
 
 def flatten_annotations(annotation: Any) -> list[Any]:
     """Convert an annotation that *might* be a :class:`typing.Annotated` into a list.
@@ -111,10 +115,10 @@ class AnnotationInfo:
         type_args = typing.get_args(annotation)
         nullable = type(None) in type_args
 
-        # Handle Optional[T] which gets rendered as Union[T, type(None)].
+        # Handle Optional[T] which gets rendered as Union[T, type(None)], and `T | None`.
         # We have to compare types directly with `is` because the type annotations don't
         # support isinstance() and issubclass().
-        if typing.get_origin(type_class) is Union:
+        if typing.get_origin(type_class) in UNION_ORIGINS:
             # Filter out None from the type arguments.
             type_args = tuple(t for t in type_args if t is not type(None))
 
-- 
2.43.0


From 393daea9c59d0f86dfbd8456ebee3c16b105115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 29/31] fix: comparing a struct raised an error if its size
 couldn't be computed

list() asks its argument for its length, which for a struct is its size in
bytes and needs the values of all fields.
---
 binobj/structures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 3144fa0..84dbd00 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -857,13 +857,13 @@ class Struct(HasStruct):
             return all(v is fields.UNDEFINED for v in self.__values__.values())
 
         # Compare only defined values by using __iter__ to get the keys that are
-        # defined.
-        self_values = recursive_to_dicts({n: self[n] for n in list(self)})
+        # defined. Beware of list(), which asks a struct for its size.
+        self_values = recursive_to_dicts({n: self[n] for n in self})
 
         if not isinstance(other, (Struct, Mapping)):
             return False
 
-        other_values = recursive_to_dicts({n: other[n] for n in list(other)})
+        other_values = recursive_to_dicts({n: other[n] for n in other})
         return other_values == self_values
 
     def __bytes__(self) -> bytes:
-- 
2.43.0


From d4b0f9a9f4c8eddb8299de1c50f92dacba686e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 30/31] fix: comparing a struct with something else could fail
 converting nested structs

The type of the other object is now looked at first, as it decides alone.
---
 binobj/structures.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 84dbd00..25d6df8 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -856,13 +856,12 @@ class Struct(HasStruct):
             )
             return all(v is fields.UNDEFINED for v in self.__values__.values())
 
-        # Compare only defined values by using __iter__ to get the keys that are
-        # defined. Beware of list(), which asks a struct for its size.
-        self_values = recursive_to_dicts({n: self[n] for n in self})
-
         if not isinstance(other, (Struct, Mapping)):
             return False
 
+        # Compare only defined values by using __iter__ to get the keys that are
+        # defined. Beware of list(), which asks a struct for its size.
+        self_values = recursive_to_dicts({n: self[n] for n in self})
         other_values = recursive_to_dicts({n: other[n] for n in other})
         return other_values == self_values
 
-- 
2.43.0


From 79a95524d462fcb4ce73c5d1926446adf0d08559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:00 +0000
Subject: [PATCH 31/31] fix: stacking @validates decorators silently dropped
 the outer one's field names

---
 binobj/decorators.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/binobj/decorators.py b/binobj/decorators.py
index 0a1948e..440e0f9 100644
--- a/binobj/decorators.py
+++ b/binobj/decorators.py
@@ -31,9 +31,18 @@ class ValidatorMethodWrapper:
     def __init__(
         self, func: Union[FieldValidator, StructValidator], field_names: Iterable[str]
     ):
-        self.func = func
-        self.field_names = tuple(field_names or ())
+        field_names = tuple(field_names or ())
+        if isinstance(func, ValidatorMethodWrapper):
+            # The decorators are stacked. Wrapping the other wrapper as is would replace
+            # our field names with its own.
+            if bool(field_names) != bool(func.field_names):
+                raise TypeError("Can't validate both fields and the entire struct.")
+            field_names += func.field_names
+            func = func.func
+
         functools.wraps(func)(self)
+        self.func = func
+        self.field_names = field_names
 
     def __call__(self, *args: Any) -> Optional[bool]:
         """Execute the wrapped function."""
-- 
2.43.0

