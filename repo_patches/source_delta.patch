From 820523955dc6ddaf1e1fefb623ab9ea7d77b800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 01/30] fix: reject a single trailing byte in
 Struct.from_bytes(exact=True)

---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 64bdb03..fbf7be0 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -551,9 +551,9 @@ class Struct(HasStruct):
         loaded_data = cls.from_stream(stream, context, init_kwargs)
 
         here = stream.tell()
-        if exact and (here < len(data) - 1):
+        if exact and (here < len(data)):
             raise errors.ExtraneousDataError(
-                f"Read {here + 1} bytes, but there are {len(data)} in the input data.",
+                f"Read {here} bytes, but there are {len(data)} in the input data.",
                 offset=stream.tell(),
             )
         return loaded_data
-- 
2.43.0


From 295f49710f07b06fb78f55235897891472b4ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 02/30] fix: don't limit loading a StringZ to the size of its
 default value

---
 binobj/fields/stringlike.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 36ef36c..893200c 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -159,11 +159,11 @@ class StringZ(String):
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
     ) -> str:
-        max_bytes: Optional[int]
-        try:
+        # Only an explicit size limits how far we read. Without one we must not fall back
+        # to the size of the default value, as the loaded string can be longer.
+        max_bytes: Optional[int] = None
+        if self.size is not None:
             max_bytes = self.get_expected_size(loaded_fields)
-        except errors.UndefinedSizeError:
-            max_bytes = None
 
         iterator = helpers.iter_bytes(stream, max_bytes)
         reader = codecs.iterdecode(iterator, self.encoding)
-- 
2.43.0


From dc831ca517ec343c504ee8d9ac55b60848e943f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 03/30] fix: start fields of a dataclass struct after the
 inherited fields

---
 binobj/pep526.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 48b76f5..14b45f2 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -221,9 +221,10 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
     if meta.num_own_fields > 0:
         raise errors.MixedDeclarationsError(struct=class_object)
 
-    field_index = 0
+    # Fields inherited from the parent struct come before the ones declared here.
+    field_index = len(meta.components)
     n_fields_found = 0
-    byte_offset = meta.size_bytes
+    byte_offset = meta.get_size()
     all_annotations = typing.get_type_hints(class_object, include_extras=True)
 
     for name, raw_annotation in all_annotations.items():
-- 
2.43.0


From 3d02ebc70bec38017e76438daf5db5152b458d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 04/30] fix: ignore inherited annotations in dataclass structs

---
 binobj/pep526.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 14b45f2..be32c94 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -227,7 +227,14 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
     byte_offset = meta.get_size()
     all_annotations = typing.get_type_hints(class_object, include_extras=True)
 
+    # get_type_hints() also gives us the annotations of the superclasses, which aren't
+    # fields of this class.
+    own_annotations = vars(class_object).get("__annotations__", {})
+
     for name, raw_annotation in all_annotations.items():
+        if name not in own_annotations:
+            continue
+
         flattened_annotations = flatten_annotations(raw_annotation)
 
         info_list = [
-- 
2.43.0


From da34a97dc6681e27f309d827bd44d6c721c7c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 05/30] fix: run field validators of dataclass structs

---
 binobj/pep526.py     | 1 +
 binobj/structures.py | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index be32c94..abe6261 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -271,6 +271,7 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             byte_offset = None
 
         meta.components[name] = field_instance
+        meta.field_validators.setdefault(name, [])
         field_index += 1
         n_fields_found += 1
 
diff --git a/binobj/structures.py b/binobj/structures.py
index fbf7be0..26131e5 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -269,6 +269,10 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
         if item.field_names:
             # Attach this validator to each named field.
             for field_name in item.field_names:
+                if field_name in namespace.get("__annotations__", {}):
+                    # Declared with a PEP 526 annotation. The field object doesn't exist
+                    # until the class is decorated with ``dataclass``.
+                    metadata.field_validators.setdefault(field_name, [])
                 metadata.field_validators[field_name].append(item)
         else:
             # Validator doesn't define any fields, must be a validator for the entire
-- 
2.43.0


From 95afdea8b35b3e5ebf202b77b2e5484af5a6f946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:26 +0000
Subject: [PATCH 06/30] fix: raise SerializationError for floats too large for
 the field

---
 binobj/fields/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 45a4eb5..4af0c30 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -110,7 +110,7 @@ class Float(Field[float]):
     ) -> None:
         try:
             serialized = struct.pack(self.format_string, data)
-        except struct.error as exc:
+        except (struct.error, OverflowError) as exc:
             raise errors.SerializationError(message=str(exc), field=self) from exc
         stream.write(serialized)
 
-- 
2.43.0


From 21a95a347c1b16c6a32a573af127aa64537185b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 07/30] fix: don't lose precision when loading and dumping
 timestamps

---
 binobj/fields/numeric.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 4af0c30..6fc7051 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -343,6 +343,9 @@ class UInt64(Int64):
         super().__init__(signed=False, **kwargs)
 
 
+_EPOCH: Final = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
+
+
 class Timestamp(Field[datetime.datetime]):
     r"""A timestamp stored as an integer offset from the `Unix epoch`_.
 
@@ -394,7 +397,7 @@ class Timestamp(Field[datetime.datetime]):
     .. seealso:: :class:`.Timestamp32`, :class:`.Timestamp64`
     """
 
-    _RESOLUTION_UNITS: Final = {"s": 1, "ms": 1e3, "us": 1e6, "ns": 1e9}
+    _RESOLUTION_UNITS: Final = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}
 
     def __init__(
         self,
@@ -428,10 +431,12 @@ class Timestamp(Field[datetime.datetime]):
         value = helpers.read_int(
             stream, self.get_expected_size(loaded_fields), self.signed, self.endian
         )
-        if not self.tz_aware:
-            return datetime.datetime.fromtimestamp(value / self._units)
-        return datetime.datetime.fromtimestamp(
-            value / self._units, datetime.timezone.utc
+        # Floats don't have enough precision to represent all timestamps with a resolution
+        # finer than a second, so we can't divide `value` by the units directly.
+        seconds, subseconds = divmod(value, self._units)
+        timezone = datetime.timezone.utc if self.tz_aware else None
+        return datetime.datetime.fromtimestamp(seconds, timezone).replace(
+            microsecond=subseconds * 10**6 // self._units
         )
 
     @override
@@ -457,7 +462,17 @@ class Timestamp(Field[datetime.datetime]):
                 stacklevel=2,
             )
 
-        timestamp = int(data.timestamp() * self._units)
+        # Use integer arithmetic only, for the same reason as in _do_load(). Anything finer
+        # than the resolution is truncated towards zero.
+        if data.tzinfo is None:
+            microseconds = int(data.replace(microsecond=0).timestamp()) * 10**6
+            microseconds += data.microsecond
+        else:
+            microseconds = (data - _EPOCH) // datetime.timedelta(microseconds=1)
+        timestamp = abs(microseconds) * self._units // 10**6
+        if microseconds < 0:
+            timestamp = -timestamp
+
         try:
             helpers.write_int(
                 stream,
-- 
2.43.0


From 554078b25a12a674ee0d1f92831da3a706ca5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 08/30] fix: dump the assigned value of discardable fields

---
 binobj/structures.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 26131e5..8c17136 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -281,31 +281,45 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
 
 @overload
-def recursive_to_dicts(item: Struct) -> dict[str, Any]: ...
+def recursive_to_dicts(
+    item: Struct, keep_discardable: bool = False
+) -> dict[str, Any]: ...
 
 
 @overload
-def recursive_to_dicts(item: Mapping[K, V]) -> dict[K, V]: ...
+def recursive_to_dicts(
+    item: Mapping[K, V], keep_discardable: bool = False
+) -> dict[K, V]: ...
 
 
 @overload
-def recursive_to_dicts(item: Sequence[T]) -> list[T]: ...
+def recursive_to_dicts(
+    item: Sequence[T], keep_discardable: bool = False
+) -> list[T]: ...
 
 
-def recursive_to_dicts(item: object) -> Any:
+def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
     """Ensure that any nested structures are also converted to dictionaries.
 
     This is used when a :class:`Struct` is converted to a dictionary.
 
     :param item:
         Anything. If it's an unsupported type it'll get returned as is.
+    :param bool keep_discardable:
+        If True, don't exclude fields marked with ``discard=True`` from the dictionaries
+        nested structures are converted to.
     """
     if isinstance(item, Struct):
-        return item.to_dict()
+        return item.to_dict(keep_discardable)
     if isinstance(item, Mapping):
-        return {recursive_to_dicts(k): recursive_to_dicts(v) for k, v in item.items()}
+        return {
+            recursive_to_dicts(k, keep_discardable): recursive_to_dicts(
+                v, keep_discardable
+            )
+            for k, v in item.items()
+        }
     if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
-        return [recursive_to_dicts(v) for v in item]
+        return [recursive_to_dicts(v, keep_discardable) for v in item]
     return item
 
 
@@ -381,7 +395,7 @@ class Struct(HasStruct):
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
         # fields expecting a dictionary.
-        all_fields = self.to_dict()
+        all_fields = self.to_dict(keep_discardable=True)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -443,7 +457,7 @@ class Struct(HasStruct):
                 if field.discard:
                     del dct[field.name]
 
-        return recursive_to_dicts(dct)
+        return recursive_to_dicts(dct, keep_discardable)
 
     def _to_dict_whatever_possible(self) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
-- 
2.43.0


From 9247b42d300b9d899148922898b4ebfef417478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 09/30] fix: pass the context to present() when collecting
 values to dump

---
 binobj/structures.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 8c17136..8e98b93 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -282,23 +282,25 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
 @overload
 def recursive_to_dicts(
-    item: Struct, keep_discardable: bool = False
+    item: Struct, keep_discardable: bool = False, context: object = None
 ) -> dict[str, Any]: ...
 
 
 @overload
 def recursive_to_dicts(
-    item: Mapping[K, V], keep_discardable: bool = False
+    item: Mapping[K, V], keep_discardable: bool = False, context: object = None
 ) -> dict[K, V]: ...
 
 
 @overload
 def recursive_to_dicts(
-    item: Sequence[T], keep_discardable: bool = False
+    item: Sequence[T], keep_discardable: bool = False, context: object = None
 ) -> list[T]: ...
 
 
-def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
+def recursive_to_dicts(
+    item: object, keep_discardable: bool = False, context: object = None
+) -> Any:
     """Ensure that any nested structures are also converted to dictionaries.
 
     This is used when a :class:`Struct` is converted to a dictionary.
@@ -308,18 +310,20 @@ def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
     :param bool keep_discardable:
         If True, don't exclude fields marked with ``discard=True`` from the dictionaries
         nested structures are converted to.
+    :param context:
+        Additional data to pass to the ``present`` callables of nested structures.
     """
     if isinstance(item, Struct):
-        return item.to_dict(keep_discardable)
+        return item.to_dict(keep_discardable, context)
     if isinstance(item, Mapping):
         return {
-            recursive_to_dicts(k, keep_discardable): recursive_to_dicts(
-                v, keep_discardable
+            recursive_to_dicts(k, keep_discardable, context): recursive_to_dicts(
+                v, keep_discardable, context
             )
             for k, v in item.items()
         }
     if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
-        return [recursive_to_dicts(v, keep_discardable) for v in item]
+        return [recursive_to_dicts(v, keep_discardable, context) for v in item]
     return item
 
 
@@ -395,7 +399,7 @@ class Struct(HasStruct):
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
         # fields expecting a dictionary.
-        all_fields = self.to_dict(keep_discardable=True)
+        all_fields = self.to_dict(keep_discardable=True, context=context)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -416,7 +420,9 @@ class Struct(HasStruct):
         self.to_stream(stream, context)
         return stream.getvalue()
 
-    def to_dict(self, keep_discardable: bool = False) -> dict[str, Any]:
+    def to_dict(
+        self, keep_discardable: bool = False, context: object = None
+    ) -> dict[str, Any]:
         """Convert this struct into an ordered dictionary.
 
         The primary use for this method is converting a loaded :class:`Struct` into
@@ -425,6 +431,8 @@ class Struct(HasStruct):
 
         :param bool keep_discardable:
             If True, don't exclude fields marked with ``discard=True`` from the result.
+        :param context:
+            Additional data to pass to the ``present`` callables of the fields.
 
         :rtype: Dict[str, Any]
 
@@ -443,10 +451,10 @@ class Struct(HasStruct):
         .. versionchanged:: 0.6.1
             The ``keep_discardable`` argument was added.
         """
-        dct = self._to_dict_whatever_possible()
+        dct = self._to_dict_whatever_possible(context)
         dct.update(
             {
-                field.name: field.compute_value_for_dump(dct)
+                field.name: field.compute_value_for_dump(dct, context)
                 for field in self.__binobj_struct__.components.values()
                 if field.name not in dct
             }
@@ -457,9 +465,9 @@ class Struct(HasStruct):
                 if field.discard:
                     del dct[field.name]
 
-        return recursive_to_dicts(dct, keep_discardable)
+        return recursive_to_dicts(dct, keep_discardable, context)
 
-    def _to_dict_whatever_possible(self) -> dict[str, Any]:
+    def _to_dict_whatever_possible(self, context: object = None) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
 
         We use this to get values for all computed fields as well as any fields that
@@ -472,7 +480,7 @@ class Struct(HasStruct):
         for field in self.__binobj_struct__.components.values():
             try:
                 dct[field.name] = field.compute_value_for_dump(
-                    typing.cast(StrDict, self)
+                    typing.cast(StrDict, self), context
                 )
             except (errors.SerializationError, errors.UndefinedSizeError):  # noqa: PERF203
                 pass
-- 
2.43.0


From b2223cfafa60fd57c06745f7e1a3bf699b71e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 10/30] fix: handle absent fields and references to other
 fields in Struct.__len__

---
 binobj/structures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 8e98b93..e786f6a 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -789,6 +789,9 @@ class Struct(HasStruct):
         current_fields = self._to_dict_whatever_possible()
 
         for field in self.__binobj_struct__.components.values():
+            if current_fields.get(field.name) is fields.NOT_PRESENT:
+                # The field isn't going to be dumped.
+                continue
             if field.has_fixed_size:
                 size += typing.cast(int, field.size)
             else:
@@ -796,7 +799,7 @@ class Struct(HasStruct):
                     size += field.get_expected_size(current_fields)
                 except errors.Error:
                     field_value = field.compute_value_for_dump(current_fields)
-                    size += len(field.to_bytes(field_value))
+                    size += len(field.to_bytes(field_value, all_fields=current_fields))
 
         return size
 
-- 
2.43.0


From f2603c3f497b7e211c8e6ee0dbeb8642af9bb273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 11/30] fix: don't treat optional and unsized fields as having
 a fixed size in structs

---
 binobj/fields/base.py | 15 ++++++++++++++-
 binobj/pep526.py      |  6 +++++-
 binobj/structures.py  | 15 ++++++++++++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 07f7fc7..80b3b39 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -71,6 +71,11 @@ NOT_PRESENT = _NotPresent.token
 T = TypeVar("T")
 
 
+def _always_present(*_args: object) -> bool:
+    """The default ``present`` callable: the field is always there."""
+    return True
+
+
 class Field(Generic[T]):
     r"""The base class for all struct fields.
 
@@ -275,7 +280,7 @@ class Field(Generic[T]):
         null_value: Union[bytes, _Default, _Undefined, T] = UNDEFINED,
         size: Union[int, str, Field[int], None] = None,
         validate: Union[FieldValidator, Iterable[FieldValidator]] = (),
-        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = (lambda *_: True),
+        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = _always_present,
         not_present_value: Union[T, None, _NotPresent] = NOT_PRESENT,
     ):
         self.const = const
@@ -338,6 +343,14 @@ class Field(Generic[T]):
         """
         return isinstance(self.size, int)
 
+    @property
+    def is_conditional(self) -> bool:
+        """Can this field be missing from the serialized data?
+
+        .. versionadded:: 0.12.0
+        """
+        return self.present is not _always_present
+
     def bind_to_container(
         self,
         struct_info: StructMetadata,
diff --git a/binobj/pep526.py b/binobj/pep526.py
index abe6261..134d569 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -265,7 +265,11 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             raise errors.FieldRedefinedError(struct=class_object.__name__, field=name)
 
         field_instance.bind_to_container(meta, name, field_index, byte_offset)
-        if byte_offset is not None and field_instance.has_fixed_size:
+        if (
+            byte_offset is not None
+            and field_instance.has_fixed_size
+            and not field_instance.is_conditional
+        ):
             byte_offset += typing.cast(int, field_instance.size)
         else:
             byte_offset = None
diff --git a/binobj/structures.py b/binobj/structures.py
index e786f6a..526b6fd 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -195,6 +195,15 @@ class StructMetadata:
             field_values = {}
 
         field_objects = self.components.values()
+        for field in field_objects:
+            if field.name not in field_values and (
+                field.size is None or field.is_conditional
+            ):
+                # We don't know what this field's value is going to be or if it'll be
+                # there at all. Its default value doesn't tell us anything, because it
+                # can be overridden.
+                return None
+
         try:
             return sum(f.get_expected_size(field_values) for f in field_objects)
         except (errors.UndefinedSizeError, errors.MissingRequiredValueError):
@@ -245,7 +254,11 @@ def collect_assigned_fields(
             raise errors.FieldRedefinedError(struct=class_metadata.name, field=item)
 
         item.bind_to_container(class_metadata, item_name, field_index, byte_offset)
-        if byte_offset is not None and item.has_fixed_size:
+        if (
+            byte_offset is not None
+            and item.has_fixed_size
+            and not item.is_conditional
+        ):
             byte_offset += typing.cast(int, item.size)
         else:
             byte_offset = None
-- 
2.43.0


From 53d8935f4a5bff89d6c5c80c930b071d17cb1566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 12/30] fix: load the preceding fields in get_field if the
 field relies on them

---
 binobj/structures.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 526b6fd..a167142 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -699,11 +699,20 @@ class Struct(HasStruct):
         original_offset = stream.tell()
 
         # If the field is at a fixed offset from the beginning of the struct, then we
-        # can read and return it directly.
-        if field.offset is not None:
+        # can read and return it directly. This isn't possible if it relies on the values
+        # of other fields.
+        if field.offset is not None and not field.is_conditional:
             try:
                 stream.seek(original_offset + field.offset)
                 return field.from_stream(stream, context, {})
+            except (
+                errors.FieldReferenceError,
+                errors.MissingRequiredValueError,
+                errors.CannotDetermineNullError,
+                KeyError,
+            ):
+                # Needs the value of a field we haven't loaded.
+                pass
             finally:
                 stream.seek(original_offset)
 
-- 
2.43.0


From 5e1ca94764ea9daa65ba21f2a97d7fd86a74dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 13/30] fix: handle absent, computed and dependent fields in
 partial_dump

---
 binobj/structures.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index a167142..4cba6d2 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -745,21 +745,21 @@ class Struct(HasStruct):
             Any object containing extra information to pass to the fields'
             :meth:`~binobj.fields.base.Field.from_stream` methods.
         """
-        data = self.__values__
+        data = self._to_dict_whatever_possible(context)
 
         for field in self.__binobj_struct__.components.values():
-            value = data.get(field.name, field.default)
+            value = data.get(field.name, fields.UNDEFINED)
             if value is fields.UNDEFINED:
                 # Field is missing from the dump data. If the caller wants us to dump
                 # only the fields that're defined, we can bail out now.
                 if last_field is None:
                     return
-                if field.required:
-                    # Caller wants us to dump up to and including ``last_field`` so we
-                    # need to crash.
-                    raise errors.MissingRequiredValueError(field=field)
+                # Caller wants us to dump up to and including ``last_field`` so we need to
+                # crash.
+                raise errors.MissingRequiredValueError(field=field)
 
-            field.to_stream(stream, value, context)
+            if value is not fields.NOT_PRESENT:
+                field.to_stream(stream, value, context, data)
             if field.name == last_field:
                 return
 
-- 
2.43.0


From 90801f974891391b202d92655b0fe85276ef4179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 14/30] fix: report a missing null terminator at the end of the
 stream as unexpected EOF

---
 binobj/fields/stringlike.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 893200c..86986ff 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -165,16 +165,21 @@ class StringZ(String):
         if self.size is not None:
             max_bytes = self.get_expected_size(loaded_fields)
 
-        iterator = helpers.iter_bytes(stream, max_bytes)
-        reader = codecs.iterdecode(iterator, self.encoding)
+        offset = stream.tell()
+        decoder = codecs.getincrementaldecoder(self.encoding)()
         result = io.StringIO()
 
-        for char in reader:
+        for byte in helpers.iter_bytes(stream, max_bytes):
+            char = decoder.decode(byte)
             if char == "\0":
                 return result.getvalue()
             result.write(char)
 
-        # If we get out here then we hit EOF before getting to the null terminator.
+        # If we get out here then we hit EOF before getting to the null terminator, or
+        # it's not within the maximum size of the field.
+        n_read = stream.tell() - offset
+        if max_bytes is None or n_read < max_bytes:
+            raise errors.UnexpectedEOFError(field=self, size=n_read + 1, offset=offset)
         raise errors.DeserializationError(
             "Hit EOF before finding the trailing null.", field=self
         )
-- 
2.43.0


From 0abff2c092e29f0358011f98a0cae6b565d1ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 15/30] fix: don't validate fields that aren't present

---
 binobj/structures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index 4cba6d2..2238afc 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -384,6 +384,9 @@ class Struct(HasStruct):
         for f_name, validators in self.__binobj_struct__.field_validators.items():
             f_obj = self.__binobj_struct__.components[f_name]
             value = self[f_name]
+            if value is fields.NOT_PRESENT:
+                # There's nothing to validate.
+                continue
 
             # First, invoke the validators defined on the field object.
             for instance_validator in f_obj.validators:
-- 
2.43.0


From 3ebf3664280faa187d8144d6a13a1f92d92cb6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 16/30] fix: use the factory for values of unset fields in
 structs

---
 binobj/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 80b3b39..d0bc1bd 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -453,7 +453,7 @@ class Field(Generic[T]):
         if self.name in all_values:
             # The value is already set in the struct so we don't need to do anything.
             value_to_dump = all_values[self.name]
-        elif self._default is not UNDEFINED:
+        elif self._default is not UNDEFINED or self.factory is not None:
             # The value is *not* set in the struct. Either this field must have a
             # default value, or it must be a computed field. Check for default values
             # here.
-- 
2.43.0


From 9b92373b5aeedc4bd8f972998fc9efdcb0bab220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 17/30] fix: don't crash on constants of field types without a
 size

---
 binobj/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index d0bc1bd..b4ee184 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -574,7 +574,7 @@ class Field(Generic[T]):
         """
         # Since this is called in the constructor we need to check to see if _size has
         # been assigned to yet.
-        if self.has_fixed_size and hasattr(self, "_size"):
+        if hasattr(self, "_size") and self.has_fixed_size:
             return typing.cast(int, self._size)
         return None
 
-- 
2.43.0


From 05448e9acaf80b7830c713a8df66978cc4ec2eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 18/30] fix: nulls shorter or longer than their field make the
 layout variable

---
 binobj/fields/base.py       | 20 ++++++++++++++++++++
 binobj/fields/containers.py |  2 +-
 binobj/pep526.py            |  6 +-----
 binobj/structures.py        | 10 ++++------
 4 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index b4ee184..08c58d3 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -351,6 +351,26 @@ class Field(Generic[T]):
         """
         return self.present is not _always_present
 
+    @property
+    def null_fills_field(self) -> bool:
+        """Does ``None`` take up as many bytes as any other value of this field?
+
+        .. versionadded:: 0.12.0
+        """
+        return (
+            not self.has_fixed_size
+            or not isinstance(self.null_value, bytes)
+            or len(self.null_value) == self.size
+        )
+
+    @property
+    def has_fixed_extent(self) -> bool:
+        """Does this field take up the same number of bytes in all serialized data?
+
+        .. versionadded:: 0.12.0
+        """
+        return self.has_fixed_size and not self.is_conditional and self.null_fills_field
+
     def bind_to_container(
         self,
         struct_info: StructMetadata,
diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 61954ee..9687227 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -114,7 +114,7 @@ class Array(Field[list[Optional[T]]]):
         else:
             raise TypeError("`count` must be an integer, string, or a `Field`.")
 
-        if isinstance(self.count, int) and component.has_fixed_size:
+        if isinstance(self.count, int) and component.has_fixed_extent:
             self._size = self.count * typing.cast(int, component.size)
 
     def get_final_element_count(self, field_values: StrDict) -> Optional[int]:
diff --git a/binobj/pep526.py b/binobj/pep526.py
index 134d569..a4b660c 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -265,11 +265,7 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             raise errors.FieldRedefinedError(struct=class_object.__name__, field=name)
 
         field_instance.bind_to_container(meta, name, field_index, byte_offset)
-        if (
-            byte_offset is not None
-            and field_instance.has_fixed_size
-            and not field_instance.is_conditional
-        ):
+        if byte_offset is not None and field_instance.has_fixed_extent:
             byte_offset += typing.cast(int, field_instance.size)
         else:
             byte_offset = None
diff --git a/binobj/structures.py b/binobj/structures.py
index 2238afc..8fc24dd 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -197,7 +197,9 @@ class StructMetadata:
         field_objects = self.components.values()
         for field in field_objects:
             if field.name not in field_values and (
-                field.size is None or field.is_conditional
+                field.size is None
+                or field.is_conditional
+                or not field.null_fills_field
             ):
                 # We don't know what this field's value is going to be or if it'll be
                 # there at all. Its default value doesn't tell us anything, because it
@@ -254,11 +256,7 @@ def collect_assigned_fields(
             raise errors.FieldRedefinedError(struct=class_metadata.name, field=item)
 
         item.bind_to_container(class_metadata, item_name, field_index, byte_offset)
-        if (
-            byte_offset is not None
-            and item.has_fixed_size
-            and not item.is_conditional
-        ):
+        if byte_offset is not None and item.has_fixed_extent:
             byte_offset += typing.cast(int, item.size)
         else:
             byte_offset = None
-- 
2.43.0


From 663d50aac5ed71683c3b98f579a82cb5b5ec998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 19/30] fix: comparing structs with missing values crashed

---
 binobj/structures.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 8fc24dd..bd1f1bb 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -839,13 +839,14 @@ class Struct(HasStruct):
             return all(v is fields.UNDEFINED for v in self.__values__.values())
 
         # Compare only defined values by using __iter__ to get the keys that are
-        # defined.
-        self_values = recursive_to_dicts({n: self[n] for n in list(self)})
+        # defined. Don't use list() for this, since it calls __len__ and that crashes if
+        # a value the length depends on isn't set.
+        self_values = recursive_to_dicts({n: self[n] for n in iter(self)})
 
         if not isinstance(other, (Struct, Mapping)):
             return False
 
-        other_values = recursive_to_dicts({n: other[n] for n in list(other)})
+        other_values = recursive_to_dicts({n: other[n] for n in iter(other)})
         return other_values == self_values
 
     def __bytes__(self) -> bytes:
-- 
2.43.0


From 8e7699d2c42ccc95aae756a6a88f1e9f3737530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:20 +0000
Subject: [PATCH 20/30] fix: unions ignored the null value, constant and
 validators of the field they load

---
 binobj/fields/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 9687227..cb50da7 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -492,7 +492,7 @@ class Union(Field[Any]):
     ) -> Any:
         loader = self.load_decider(stream, self.choices, context, loaded_fields)
         if isinstance(loader, Field):
-            return loader._do_load(stream, context, loaded_fields)  # noqa: SLF001
+            return loader.from_stream(stream, context, loaded_fields)
         if isinstance(loader, type) and issubclass(loader, Struct):
             return loader.from_stream(stream, context)
         raise TypeError(
-- 
2.43.0


From b8d45ab7837eee7dbde9c751edbd562f6de34241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:01 +0000
Subject: [PATCH 21/30] fix: constant fields accepted their null representation
 when loading

---
 binobj/fields/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 08c58d3..761f9c7 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -732,6 +732,8 @@ class Field(Generic[T]):
                     # If we get here then the bytes we read ahead match null_value. Move
                     # the stream pointer to the beginning of the next field.
                     stream.seek(len(null_repr), os.SEEK_CUR)
+                    if self.const is not UNDEFINED and self.const is not None:
+                        raise errors.ValidationError(field=self, value=None)
                     for validator in self.validators:
                         validator(None)
                     return None
-- 
2.43.0


From 324c4e088b743e311209e7d22c62ac82f37f892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 22/30] fix: an iterator was dumped as an array with a negative
 count

---
 binobj/fields/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index cb50da7..ff7e31f 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -280,7 +280,7 @@ class Array(Field[list[Optional[T]]]):
         """Dump an unsized iterable into the stream."""
         n_written = 0
         for value in data:
-            if n_written == n_elems:
+            if n_elems is not None and n_written >= n_elems:
                 # We've already written the requisite number of items to the stream, but
                 # received at least one more item. Crash.
                 raise errors.ArraySizeError(
@@ -292,7 +292,7 @@ class Array(Field[list[Optional[T]]]):
             )
             n_written += 1
 
-        if n_elems is not None and n_written < n_elems:
+        if n_elems is not None and n_written != n_elems:
             raise errors.ArraySizeError(
                 field=self, n_expected=n_elems, n_given=n_written
             )
-- 
2.43.0


From 2771561f5ca99cf5d9e7f5df7594aa862e2fdd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 23/30] fix: `T | None` annotations were silently ignored by
 dataclass

---
 binobj/pep526.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index a4b660c..7ce9bac 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -35,6 +35,7 @@ Here are a few examples of how you can declare your fields::
 from __future__ import annotations
 
 import dataclasses
+import types
 import typing
 import warnings
 from typing import Any
@@ -111,10 +112,18 @@ class AnnotationInfo:
         type_args = typing.get_args(annotation)
         nullable = type(None) in type_args
 
+        # `T | None` means the same thing as Optional[T] but isn't always rendered as one.
+        # It's a `types.UnionType`, which only exists in Python 3.10+.
+        is_optional_union_type = (
+            typing.get_origin(type_class) is getattr(types, "UnionType", Union)
+            and nullable
+            and len(type_args) == 2  # noqa: PLR2004
+        )
+
         # Handle Optional[T] which gets rendered as Union[T, type(None)].
         # We have to compare types directly with `is` because the type annotations don't
         # support isinstance() and issubclass().
-        if typing.get_origin(type_class) is Union:
+        if typing.get_origin(type_class) is Union or is_optional_union_type:
             # Filter out None from the type arguments.
             type_args = tuple(t for t in type_args if t is not type(None))
 
-- 
2.43.0


From 85d466890638a07d40b65f2b08ac4e2562ceb036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:12 +0000
Subject: [PATCH 24/30] fix: dataclass dropped the default and optionality of
 nested structs

---
 binobj/pep526.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 7ce9bac..5dbbc0f 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -160,17 +160,19 @@ class AnnotationInfo:
 
     def make_field_instance(self) -> Optional[Field[Any]]:
         """Convert a type annotation to a Field object if it represents one."""
+        kw: dict[str, Any]
+        kw = {"null_value": fields.DEFAULT} if self.nullable else {}
+
         if isinstance(self.type_class, type):
             # We got a class object. Could be a struct or field, ignore everything else.
             if issubclass(self.type_class, Struct):
                 # A Struct class is shorthand for Nested(Struct).
-                return fields.Nested(self.type_class)
+                return fields.Nested(
+                    self.type_class, name=self.name, default=self.default_value, **kw
+                )
             if issubclass(self.type_class, fields.Field):
                 # This is a Field class. Initialize it with only the arguments we're
                 # certain of. This gives us a Field instance.
-                kw: dict[str, Any]
-                kw = {"null_value": fields.DEFAULT} if self.nullable else {}
-
                 return self.type_class(name=self.name, default=self.default_value, **kw)
 
             # Else: Not a struct or field class -- ignore
-- 
2.43.0


From 3140db0f0909cefdfaea43b2c09064424efb1338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 25/30] fix: dataclass took methods inherited from Struct as
 default values

---
 binobj/pep526.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 5dbbc0f..fd4f535 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -140,7 +140,10 @@ class AnnotationInfo:
             type_class = type_args[0]
             type_args = typing.get_args(type_class)
 
-        default_value = getattr(struct_class, field_name, fields.UNDEFINED)
+        # Only look at the class itself, or a field that happens to be called e.g. `update`
+        # would get a method inherited from Struct as its default value.
+        namespace = vars(struct_class)
+        default_value = namespace.get(field_name, fields.UNDEFINED)
         if callable(default_value):
             warnings.warn(
                 "Passing a bare callable as the default value was a misfeature. Use"
@@ -153,7 +156,7 @@ class AnnotationInfo:
             name=field_name,
             type_class=type_class,
             type_args=type_args,
-            has_default=hasattr(struct_class, field_name),
+            has_default=field_name in namespace,
             default_value=default_value,
             nullable=nullable,
         )
-- 
2.43.0


From 4b8183cd1e0a5e46bddb52418668ca2cb4186279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 26/30] fix: dataclass dropped the default of fields given as
 instances

---
 binobj/pep526.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index fd4f535..d084dee 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -185,7 +185,15 @@ class AnnotationInfo:
             # Not an instance of Field -- ignore
             return None
 
-        # Else: The annotation is a field instance.
+        # Else: The annotation is a field instance. It doesn't know about the default value
+        # given in the class body yet.
+        if self.has_default:
+            is_factory = callable(self.default_value)
+            self.type_class.factory = self.default_value if is_factory else None
+            self.type_class._default = (
+                fields.UNDEFINED if is_factory else self.default_value
+            )
+
         return self.type_class
 
 
-- 
2.43.0


From f99ccc22aea28fbcd8f83a83c3e0ae49b7b6d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 27/30] fix: get_field used a field's value although it depends
 on fields not loaded

---
 binobj/structures.py | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index bd1f1bb..2db72d8 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -701,26 +701,24 @@ class Struct(HasStruct):
 
         # If the field is at a fixed offset from the beginning of the struct, then we
         # can read and return it directly. This isn't possible if it relies on the values
-        # of other fields.
+        # of other fields, so we throw away the result if it looked for any.
         if field.offset is not None and not field.is_conditional:
+            loaded_fields = _NothingLoaded()
             try:
                 stream.seek(original_offset + field.offset)
-                return field.from_stream(stream, context, {})
-            except (
-                errors.FieldReferenceError,
-                errors.MissingRequiredValueError,
-                errors.CannotDetermineNullError,
-                KeyError,
-            ):
-                # Needs the value of a field we haven't loaded.
-                pass
+                value = field.from_stream(stream, context, loaded_fields)
+                if not loaded_fields.was_consulted:
+                    return value
+            except Exception:
+                if not loaded_fields.was_consulted:
+                    raise
             finally:
                 stream.seek(original_offset)
 
         # If we get here then the field is *not* at a fixed offset from the beginning of
-        # the struct, and we have to read everything up to it. This can unfortunately
-        # result in validation errors if there is data before the desired field that's
-        # invalid.
+        # the struct, or depends on other fields, and we have to read everything up to
+        # it. This can unfortunately result in validation errors if there is data before
+        # the desired field that's invalid.
         try:
             loaded_data = cls.partial_load(stream, name, context)
         finally:
@@ -882,6 +880,25 @@ def is_struct(thing: object) -> TypeGuard[HasStruct]:
     return hasattr(thing, STRUCT_META_NAME)
 
 
+class _NothingLoaded(Mapping[str, Any]):
+    """An empty mapping that remembers whether anything was looked up in it."""
+
+    def __init__(self) -> None:
+        self.was_consulted = False
+
+    def __getitem__(self, item: str) -> Any:
+        self.was_consulted = True
+        raise KeyError(item)
+
+    def __iter__(self) -> Iterator[str]:
+        self.was_consulted = True
+        return iter(())
+
+    def __len__(self) -> int:
+        self.was_consulted = True
+        return 0
+
+
 @dc.dataclass
 class StructMappingProxy(Mapping[str, Any]):
     """An immutable wrapper that makes a :class:`Struct` work like a :class:`dict`.
-- 
2.43.0


From 8b95602a1ad1cf0ed7d505a98ed3125baea845fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 28/30] fix: a sized StringZ left its padding in the stream
 when loading

---
 binobj/fields/stringlike.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 86986ff..456c5ac 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -172,6 +172,14 @@ class StringZ(String):
         for byte in helpers.iter_bytes(stream, max_bytes):
             char = decoder.decode(byte)
             if char == "\0":
+                if max_bytes is not None:
+                    # A sized field takes up all of its size even if the string is
+                    # shorter, so skip the padding.
+                    n_left = max_bytes - (stream.tell() - offset)
+                    if len(stream.read(n_left)) < n_left:
+                        raise errors.UnexpectedEOFError(
+                            field=self, size=max_bytes, offset=offset
+                        )
                 return result.getvalue()
             result.write(char)
 
-- 
2.43.0


From 2c7dd8b14f8892c3419a2abedb2a6a26c5e60780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 29/30] fix: validate the values that are dumped, in the
 context of the dump

Validation looked at values without the context. A field that is present only in
the given context was dumped without its validator methods being called, and a
missing field that is absent in this context was reported as missing.
---
 binobj/structures.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 2db72d8..4a92a31 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -372,16 +372,28 @@ class Struct(HasStruct):
 
         self.__values__ = values
 
-    def validate_contents(self) -> None:
+    def validate_contents(self, context: object = None) -> None:
         """Validate the stored values in this struct.
 
+        :param context:
+            The context the struct is being dumped with, if any. It can determine which
+            fields are present.
+
         :raise ~binobj.errors.ValidationError: Validation failed.
 
         .. versionadded:: 0.4.0
         """
         for f_name, validators in self.__binobj_struct__.field_validators.items():
             f_obj = self.__binobj_struct__.components[f_name]
-            value = self[f_name]
+            if f_name in self.__values__:
+                value = self.__values__[f_name]
+            else:
+                # Whether a field is present can depend on the context, so we have to
+                # look at the same value that's going to be dumped.
+                value = f_obj.compute_value_for_dump(
+                    typing.cast(StrDict, self), context
+                )
+
             if value is fields.NOT_PRESENT:
                 # There's nothing to validate.
                 continue
@@ -408,7 +420,7 @@ class Struct(HasStruct):
             Additional data to pass to this method. Subclasses must ignore anything they
             don't recognize.
         """
-        self.validate_contents()
+        self.validate_contents(context)
 
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
-- 
2.43.0


From 78787779c1ca6c29751b1677f0a68f8ed9d76f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 30/30] fix: compare nested structures by their set values

Comparing two structures converted nested ones the way dumping them would. That
failed for incomplete nested structures, and considered structures equal whose
nested values differ but are discarded or not present without a context.
---
 binobj/structures.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 4a92a31..43d70d6 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -338,6 +338,22 @@ def recursive_to_dicts(
     return item
 
 
+def set_values_to_dicts(item: Any) -> Any:
+    """Convert structures to dictionaries of their set values, recursively.
+
+    Unlike :func:`recursive_to_dicts`, this doesn't look at how a structure would be
+    dumped, so it ignores defaults and works for incomplete structures as well.
+
+    :param item:
+        Anything. If it's an unsupported type it'll get returned as is.
+    """
+    if isinstance(item, (Struct, Mapping)):
+        return {n: set_values_to_dicts(item[n]) for n in iter(item)}
+    if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
+        return [set_values_to_dicts(v) for v in item]
+    return item
+
+
 @typing.runtime_checkable
 class HasStruct(Protocol):
     __binobj_struct__: ClassVar[StructMetadata]
@@ -851,13 +867,12 @@ class Struct(HasStruct):
         # Compare only defined values by using __iter__ to get the keys that are
         # defined. Don't use list() for this, since it calls __len__ and that crashes if
         # a value the length depends on isn't set.
-        self_values = recursive_to_dicts({n: self[n] for n in iter(self)})
+        self_values = set_values_to_dicts(self)
 
         if not isinstance(other, (Struct, Mapping)):
             return False
 
-        other_values = recursive_to_dicts({n: other[n] for n in iter(other)})
-        return other_values == self_values
+        return set_values_to_dicts(other) == self_values
 
     def __bytes__(self) -> bytes:
         return self.to_bytes()
-- 
2.43.0

