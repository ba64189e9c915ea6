From acfd47fe27966478d8b35e45caf813e43c6cdb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:13 +0000
Subject: [PATCH 01/29] fix: identify classes in the de-serializer cache by
 identity, not by module and name

---
 strong_typing/deserializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 16a0d69..776055f 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -829,7 +829,7 @@ def create_deserializer(
     return _get_deserializer(typ, context, options)
 
 
-_CACHE: dict[tuple[str, str], Deserializer] = {}
+_CACHE: dict[Any, Deserializer] = {}
 
 
 def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: DeserializerOptions) -> Deserializer:
@@ -853,7 +853,8 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
     typ = unwrap_annotated_type(typ) if is_type_annotated(typ) else typ
 
     if isinstance(typ, type) and typing.get_origin(typ) is None:
-        cache_key = (typ.__module__, typ.__name__)
+        # classes are identified by the class object, several classes may share the same module and name
+        cache_key = typ
 
     if cache_key is not None:
         deserializer = _CACHE.get(cache_key)
-- 
2.43.0


From 755fbc338afe2950a1d0b42bab39676ddc895d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:18 +0000
Subject: [PATCH 02/29] fix: take options into account when looking up a cached
 de-serializer

---
 strong_typing/deserializer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 776055f..dce069b 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -825,6 +825,9 @@ def create_deserializer(
 
     if options is None:
         options = DeserializerOptions()
+    else:
+        # engines outlive this call, make them independent of what the caller does to the options object later
+        options = dataclasses.replace(options)
 
     return _get_deserializer(typ, context, options)
 
@@ -857,6 +860,9 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
         cache_key = typ
 
     if cache_key is not None:
+        # nested parsers adhere to the options that an engine has been created with
+        cache_key = (cache_key, dataclasses.astuple(options))
+
         deserializer = _CACHE.get(cache_key)
         if deserializer is None:
             deserializer = _create_deserializer(typ, options)
-- 
2.43.0


From b942851b68bd85b902952f22bfe42b728c6c350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:10 +0000
Subject: [PATCH 03/29] fix: do not share de-serializer engines with other
 calls before they are complete

---
 strong_typing/deserializer.py | 86 +++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 30 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index dce069b..99d9360 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -84,15 +84,27 @@ class DeserializerOptions:
     skip_unassigned: bool = False
 
 
+class PendingDeserializers:
+    "De-serializer engines whose construction has been started by a call, and which may yet be incomplete."
+
+    by_class: dict[tuple[type, Any], Deserializer]
+    by_alias: dict[tuple[ModuleType, str], Deserializer]
+
+    def __init__(self) -> None:
+        self.by_class = {}
+        self.by_alias = {}
+
+
 class RecursiveDeserializer(Deserializer[T]):
     options: DeserializerOptions
+    pending: PendingDeserializers
 
     def __init__(self, options: DeserializerOptions):
         super().__init__()
         self.options = options
 
     def get_deserializer(self, typ: TypeLike, context: Optional[ModuleType]) -> Deserializer:
-        return _get_deserializer(typ, context, self.options)
+        return _get_deserializer(typ, context, self.options, self.pending)
 
 
 class NoneDeserializer(Deserializer[None]):
@@ -829,57 +841,71 @@ def create_deserializer(
         # engines outlive this call, make them independent of what the caller does to the options object later
         options = dataclasses.replace(options)
 
-    return _get_deserializer(typ, context, options)
+    pending = PendingDeserializers()
+    deserializer = _get_deserializer(typ, context, options, pending)
 
+    # share engines with other calls only when all engines they depend on are complete
+    for cache_key, completed in pending.by_class.items():
+        _CACHE.setdefault(cache_key, completed)
 
-_CACHE: dict[Any, Deserializer] = {}
+    return deserializer
 
 
-def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: DeserializerOptions) -> Deserializer:
+_CACHE: dict[tuple[type, Any], Deserializer] = {}
+
+
+def _get_deserializer(
+    typ: TypeLike,
+    context: Optional[ModuleType],
+    options: DeserializerOptions,
+    pending: PendingDeserializers,
+) -> Deserializer:
     "Creates or re-uses a de-serializer engine to parse an object obtained from a JSON string."
 
-    cache_key = None
+    alias_key = None
 
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
             raise TypeError(f"missing context for evaluating type: {typ}")
 
-        if isinstance(typ, str):
-            if hasattr(context, typ):
-                cache_key = (context.__name__, typ)
-        elif isinstance(typ, typing.ForwardRef):
-            if hasattr(context, typ.__forward_arg__):
-                cache_key = (context.__name__, typ.__forward_arg__)
-
+        alias_key = (context, typ.__forward_arg__ if isinstance(typ, typing.ForwardRef) else typ)
         typ = evaluate_type(typ, context)
 
     typ = unwrap_annotated_type(typ) if is_type_annotated(typ) else typ
 
+    deserializer: Optional[Deserializer]
     if isinstance(typ, type) and typing.get_origin(typ) is None:
-        # classes are identified by the class object, several classes may share the same module and name
-        cache_key = typ
-
-    if cache_key is not None:
+        # classes are identified by the class object, several classes may share the same module and name;
         # nested parsers adhere to the options that an engine has been created with
-        cache_key = (cache_key, dataclasses.astuple(options))
+        class_key = (typ, dataclasses.astuple(options))
+        deserializer = _CACHE.get(class_key) or pending.by_class.get(class_key)
+        if deserializer is not None:
+            return deserializer
 
-        deserializer = _CACHE.get(cache_key)
-        if deserializer is None:
-            deserializer = _create_deserializer(typ, options)
-
-            # store de-serializer immediately in cache to avoid stack overflow for recursive types
-            _CACHE[cache_key] = deserializer
+        deserializer = _create_deserializer(typ, options)
 
-            if isinstance(typ, type):
-                # use type's own module as context for evaluating member types
-                context = sys.modules[typ.__module__]
+        # register de-serializer immediately to avoid stack overflow for recursive types
+        pending.by_class[class_key] = deserializer
 
-            # create any de-serializers this de-serializer is depending on
-            deserializer.build(context)
+        # use type's own module as context for evaluating member types
+        context = sys.modules[typ.__module__]
     else:
-        # special forms are not always hashable, create a new de-serializer every time
+        # special forms are not always hashable, create a new de-serializer unless referenced recursively by its name
+        if alias_key is not None:
+            deserializer = pending.by_alias.get(alias_key)
+            if deserializer is not None:
+                return deserializer
+
         deserializer = _create_deserializer(typ, options)
-        deserializer.build(context)
+
+        if alias_key is not None:
+            pending.by_alias[alias_key] = deserializer
+
+    if isinstance(deserializer, RecursiveDeserializer):
+        deserializer.pending = pending
+
+    # create any de-serializers this de-serializer is depending on
+    deserializer.build(context)
 
     return deserializer
 
-- 
2.43.0


From b517d3ac44abb146558165f044ff2f4723bed6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:36 +0000
Subject: [PATCH 04/29] fix: let exactly one of several concurrent callers
 create a module

---
 strong_typing/inspection.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 27e4508..e90f0f3 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -743,12 +743,13 @@ def create_module(name: str) -> types.ModuleType:
     :param name: Fully qualified name of the new module (with dot notation).
     """
 
-    if name in sys.modules:
-        raise KeyError(f"{name!r} already in sys.modules")
-
     spec = importlib.machinery.ModuleSpec(name, None)
     module = importlib.util.module_from_spec(spec)
-    sys.modules[name] = module
+
+    # check and register in a single step to have exactly one creator succeed
+    if sys.modules.setdefault(name, module) is not module:
+        raise KeyError(f"{name!r} already in sys.modules")
+
     if spec.loader is not None:
         spec.loader.exec_module(module)
     return module
-- 
2.43.0


From e5c7c9fcf126a60304337427c51b688c8ad3fd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:41 +0000
Subject: [PATCH 05/29] fix: return a copy of the registered examples in a
 generated schema

---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 81f8930..8a8e948 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -505,7 +505,7 @@ class JsonSchemaGenerator:
 
         # add example (if present)
         if self.options.use_examples and entry.examples:
-            type_schema["examples"] = entry.examples
+            type_schema["examples"] = deepcopy(entry.examples)
 
         return type_schema
 
-- 
2.43.0


From 896e7dd9ce4ccbbee47fae4a515d5f72a972bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:48 +0000
Subject: [PATCH 06/29] fix: keep dependencies of known types reported by a
 dependency function in type ordering

---
 strong_typing/topological.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index 3bb93c7..0f4e723 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -6,7 +6,7 @@ Type-safe data interchange for Python data classes.
 
 from typing import Callable, Iterable, Optional, TypeVar
 
-from .inspection import TypeCollector
+from .inspection import _ROOT, TypeCollector
 
 T = TypeVar("T")
 
@@ -65,20 +65,22 @@ def type_topological_sort(
     :returns: The list of types in topological order.
     """
 
+    types = list(types)
     if not all(isinstance(typ, type) for typ in types):
         raise TypeError("expected a list of types")
 
     collector = TypeCollector()
     collector.traverse_all(types)
-    graph = collector.graph
+    graph = {typ: references for typ, references in collector.graph.items() if typ is not _ROOT}
 
     if dependency_fn:
         new_types: set[type] = set()
         for source_type, references in graph.items():
-            dependent_types = dependency_fn(source_type)
+            dependent_types = set(dependency_fn(source_type))
             references.update(dependent_types)
             new_types.update(dependent_types)
         for new_type in new_types:
-            graph[new_type] = set()
+            # keep dependencies of types that are already part of the graph
+            graph.setdefault(new_type, set())
 
     return topological_sort(graph)
-- 
2.43.0


From 0c619d988ff284d20c3022d5f1a356f7ac0b70c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:17 +0000
Subject: [PATCH 07/29] fix: register a type in the schema catalog in a single
 step

---
 strong_typing/schema.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 8a8e948..95047ee 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -127,12 +127,15 @@ class TypeCatalogEntry:
 class TypeCatalog:
     "Maintains an association of well-known Python types to their JSON schema."
 
+    # the only place to hold entries such that a registration takes effect in a single step
     _by_type: dict[TypeLike, TypeCatalogEntry]
-    _by_name: dict[str, TypeCatalogEntry]
 
     def __init__(self) -> None:
         self._by_type = {}
-        self._by_name = {}
+
+    @property
+    def _by_name(self) -> dict[str, TypeCatalogEntry]:
+        return {entry.identifier: entry for entry in list(self._by_type.values())}
 
     def __contains__(self, data_type: TypeLike) -> bool:
         if isinstance(data_type, typing.ForwardRef):
@@ -152,12 +155,9 @@ class TypeCatalog:
         if isinstance(data_type, typing.ForwardRef):
             raise TypeError("forward references cannot be used to register a type")
 
-        if data_type in self._by_type:
-            raise ValueError(f"type {data_type} is already registered in the catalog")
-
         entry = TypeCatalogEntry(schema, identifier, examples)
-        self._by_type[data_type] = entry
-        self._by_name[identifier] = entry
+        if self._by_type.setdefault(data_type, entry) is not entry:
+            raise ValueError(f"type {data_type} is already registered in the catalog")
 
     def get(self, data_type: TypeLike) -> TypeCatalogEntry:
         if isinstance(data_type, typing.ForwardRef):
-- 
2.43.0


From f80c0f8a378d3def169310f8aed37c6d45da9690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:25 +0000
Subject: [PATCH 08/29] fix: try the remaining member types of a union when a
 member type rejects a value

---
 strong_typing/deserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 99d9360..80a31b5 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -428,10 +428,12 @@ class UnionDeserializer(RecursiveDeserializer):
             # iterate over potential types of discriminated union
             try:
                 return member_parser.parse(data)
-            except (JsonKeyError, JsonTypeError):
+            except (JsonKeyError, JsonTypeError, JsonValueError, ValueError):
                 # indicates a required field is missing from JSON dict
                 # -OR-
                 # the data cannot be cast to the expected type, i.e. we don't have the type that we are looking for
+                # -OR-
+                # the data is not a valid representation of the expected type, e.g. a string that is not a UUID
                 continue
 
         type_names = ", ".join(python_type_to_str(member_type) for member_type in self.member_types)
-- 
2.43.0


From d43dec9c50217c4c959d4645ec2bdc82de45e04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:31 +0000
Subject: [PATCH 09/29] fix: reject non-scalar discriminator values, and check
 discriminators in a fixed order

---
 strong_typing/deserializer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 80a31b5..778e092 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -465,13 +465,13 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
     "De-serializes a JSON value with one or more disambiguating properties into a Python union type."
 
     member_types: tuple[type, ...]
-    disambiguating_properties: set[str]
+    disambiguating_properties: list[str]
     member_parsers: dict[tuple[str, Any], Deserializer]
 
     def __init__(self, member_types: tuple[type, ...], options: DeserializerOptions) -> None:
         super().__init__(options)
         self.member_types = member_types
-        self.disambiguating_properties = get_discriminating_properties(member_types)
+        self.disambiguating_properties = sorted(get_discriminating_properties(member_types))
 
     def build(self, context: Optional[ModuleType]) -> None:
         self.member_parsers = {}
@@ -507,7 +507,9 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
             if disambiguating_value is None:
                 continue
 
-            member_parser = self.member_parsers.get((property_name, disambiguating_value))
+            member_parser = None
+            if isinstance(disambiguating_value, (bool, int, float, str)):
+                member_parser = self.member_parsers.get((property_name, disambiguating_value))
             if member_parser is None:
                 raise JsonTypeError(
                     f"disambiguating property value is invalid for tagged union type `{self.union_type}`: {data}"
-- 
2.43.0


From ae0683c2003a9351720837945cfcbeb68b5a7967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:37 +0000
Subject: [PATCH 10/29] fix: raise a JSON value error for numbers and durations
 that are out of range

---
 strong_typing/deserializer.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 778e092..0e5a87c 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -140,7 +140,10 @@ class FloatDeserializer(Deserializer[float]):
     def parse(self, data: JsonType) -> float:
         if not isinstance(data, float) and not isinstance(data, int):
             raise JsonTypeError(f"`int` type expects data as JSON `number` but instead received: {data}")
-        return float(data)
+        try:
+            return float(data)
+        except OverflowError as ex:
+            raise JsonValueError("integer value is out of range for type `float`") from ex
 
 
 class StringDeserializer(Deserializer[str]):
@@ -243,11 +246,14 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
         if nanoseconds % 1000 != 0:  # timedelta type supports microsecond precision only
             raise JsonValueError(f"`timedelta` type supports microsecond precision only but received: {data}")
 
-        return datetime.timedelta(
-            days=7 * weeks + days,
-            seconds=3600 * hours + 60 * minutes + seconds,
-            microseconds=nanoseconds // 1000,
-        )
+        try:
+            return datetime.timedelta(
+                days=7 * weeks + days,
+                seconds=3600 * hours + 60 * minutes + seconds,
+                microseconds=nanoseconds // 1000,
+            )
+        except OverflowError as ex:
+            raise JsonValueError(f"duration is out of range for type `timedelta`: {data}") from ex
 
 
 class UUIDDeserializer(Deserializer[uuid.UUID]):
-- 
2.43.0


From 2b52e527595bd27aa11e61c6b6f21a807a2f9f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:44 +0000
Subject: [PATCH 11/29] fix: do not accept a JSON boolean in place of a number

---
 strong_typing/deserializer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 0e5a87c..04eb371 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -129,7 +129,7 @@ class IntDeserializer(Deserializer[int]):
     "Parses JSON `number` values into Python `int` type."
 
     def parse(self, data: JsonType) -> int:
-        if not isinstance(data, int):
+        if not isinstance(data, int) or isinstance(data, bool):
             raise JsonTypeError(f"`int` type expects integer data as JSON `number` but instead received: {data}")
         return int(data)
 
@@ -138,7 +138,7 @@ class FloatDeserializer(Deserializer[float]):
     "Parses JSON `number` values into Python `float` type."
 
     def parse(self, data: JsonType) -> float:
-        if not isinstance(data, float) and not isinstance(data, int):
+        if not isinstance(data, (float, int)) or isinstance(data, bool):
             raise JsonTypeError(f"`int` type expects data as JSON `number` but instead received: {data}")
         try:
             return float(data)
@@ -567,7 +567,11 @@ class EnumDeserializer(Deserializer[E]):
         self.enum_type = enum_type
 
     def parse(self, data: JsonType) -> E:
-        return self.enum_type(data)
+        member = self.enum_type(data)
+        if isinstance(data, bool) != isinstance(member.value, bool):
+            # Python considers `True == 1` and `False == 0`
+            raise JsonTypeError(f"enumeration `{self.enum_type.__name__}` has no member with value: {data}")
+        return member
 
 
 class CustomDeserializer(Deserializer[T]):
-- 
2.43.0


From 821f0cbc569ba837a4201d9d7a98f6575cd45043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:24 +0000
Subject: [PATCH 12/29] fix: use the same property names in a schema as in
 serialized objects

---
 strong_typing/schema.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 95047ee..73378d7 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -19,12 +19,11 @@ from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, o
 import jsonschema
 
 from . import docstring
-from .auxiliary import Alias, IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
+from .auxiliary import IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
 from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
     enum_value_types,
-    get_annotation,
     get_class_properties,
     is_type_enum,
     is_type_like,
@@ -33,6 +32,7 @@ from .inspection import (
     unwrap_optional_type,
     unwrap_union_types,
 )
+from .mapping import python_field_to_json_property
 from .name import python_type_to_name
 from .serialization import object_to_json
 
@@ -432,12 +432,8 @@ class JsonSchemaGenerator:
         properties: dict[str, Schema] = {}
         required: list[str] = []
         for property_name, property_type in get_class_properties(typ):
-            # rename property if an alias name is specified
-            alias = get_annotation(property_type, Alias)
-            if alias:
-                output_name = alias.name
-            else:
-                output_name = property_name
+            # rename property if an alias name is specified or the name has a suffix to avoid clash with a keyword
+            output_name = python_field_to_json_property(property_name, property_type)
 
             if is_type_optional(property_type):
                 optional_type: type = unwrap_optional_type(property_type)
-- 
2.43.0


From 6dbeda47284e70dcfb40206618d153492a4ca20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:30 +0000
Subject: [PATCH 13/29] fix: generate a string schema for IP addresses, which
 are serialized as strings

---
 strong_typing/schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 73378d7..9dbe173 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -10,6 +10,7 @@ import decimal
 import enum
 import functools
 import inspect
+import ipaddress
 import json
 import typing
 import uuid
@@ -260,6 +261,12 @@ class JsonSchemaGenerator:
         elif typ is uuid.UUID:
             # f81d4fae-7dec-11d0-a765-00a0c91e6bf6
             return {"type": "string", "format": "uuid"}
+        elif typ is ipaddress.IPv4Address:
+            # 192.0.2.1
+            return {"type": "string", "format": "ipv4"}
+        elif typ is ipaddress.IPv6Address:
+            # 2001:db8::1
+            return {"type": "string", "format": "ipv6"}
         elif typ is Any:
             return {
                 "oneOf": [
-- 
2.43.0


From bf85f1099623fd6297e267336d388ffcaac5eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:38 +0000
Subject: [PATCH 14/29] fix: read back optional and renamed members of a named
 tuple the way they are written

---
 strong_typing/deserializer.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 04eb371..4fb64f6 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -724,14 +724,31 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
     "De-serializes a named tuple from a JSON `object`."
 
     def build(self, context: Optional[ModuleType]) -> None:
-        property_parsers: list[FieldDeserializer] = [
-            RequiredFieldDeserializer(
-                field_name,
-                field_name,
-                self.get_deserializer(field_type, context),
-            )
-            for field_name, field_type in get_resolved_hints(self.class_type).items()
-        ]
+        property_parsers: list[FieldDeserializer] = []
+        field_defaults: dict[str, Any] = getattr(self.class_type, "_field_defaults", {})
+        for field_name, field_type in get_resolved_hints(self.class_type).items():
+            property_name = python_field_to_json_property(field_name, field_type)
+
+            is_optional = is_type_optional(field_type)
+
+            if is_optional:
+                required_type: type = unwrap_optional_type(field_type)
+            else:
+                required_type = field_type
+
+            parser = self.get_deserializer(required_type, context)
+
+            if field_name in field_defaults:
+                field_parser: FieldDeserializer = DefaultFieldDeserializer(
+                    property_name, field_name, parser, field_defaults[field_name]
+                )
+            elif is_optional:
+                field_parser = OptionalFieldDeserializer(property_name, field_name, parser)
+            else:
+                field_parser = RequiredFieldDeserializer(property_name, field_name, parser)
+
+            property_parsers.append(field_parser)
+
         super().assign(property_parsers)
 
     def create(self, **field_values: Any) -> NamedTuple:
-- 
2.43.0


From eef920e8ffd113bbcba558e1e623dda0c16b22a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:00 +0000
Subject: [PATCH 15/29] fix: write negative durations in a form that can be
 read back

---
 strong_typing/deserializer.py | 5 +++--
 strong_typing/serializer.py   | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 4fb64f6..8d130bd 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -213,7 +213,7 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
             raise JsonTypeError(f"`timedelta` type expects JSON `string` data but instead received: {data}")
 
         pattern = re.compile(
-            r"^P"  # starts with 'P'
+            r"^(?P<sign>-)?P"  # starts with 'P', optional minus sign for a negative duration
             r"(?:(?P<weeks>\d+)W)?"  # optional weeks
             r"(?:(?P<days>\d+)D)?"  # optional days
             r"(?:T"  # start of time part
@@ -247,13 +247,14 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
             raise JsonValueError(f"`timedelta` type supports microsecond precision only but received: {data}")
 
         try:
-            return datetime.timedelta(
+            duration = datetime.timedelta(
                 days=7 * weeks + days,
                 seconds=3600 * hours + 60 * minutes + seconds,
                 microseconds=nanoseconds // 1000,
             )
         except OverflowError as ex:
             raise JsonValueError(f"duration is out of range for type `timedelta`: {data}") from ex
+        return -duration if parts["sign"] else duration
 
 
 class UUIDDeserializer(Deserializer[uuid.UUID]):
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 8b14156..49534e2 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -102,6 +102,13 @@ class TimeSerializer(Serializer[datetime.time]):
 
 class TimeDeltaSerializer(Serializer[datetime.timedelta]):
     def generate(self, obj: datetime.timedelta) -> str:
+        if obj.days < 0:
+            # normalized form has a negative day component and positive seconds and microseconds
+            return f"-{self.generate_duration(-obj)}"
+        else:
+            return self.generate_duration(obj)
+
+    def generate_duration(self, obj: datetime.timedelta) -> str:
         if obj.days != 0:
             day_component = f"{obj.days}D"
         else:
-- 
2.43.0


From 224160615c4c190afbd44120c1e068ce18d458d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:24 +0000
Subject: [PATCH 16/29] fix: honor aliases in type annotations given as a
 string when serializing

---
 strong_typing/serializer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 49534e2..3823191 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -18,7 +18,7 @@ import types
 import typing
 import uuid
 from types import FunctionType, MethodType, ModuleType
-from typing import Any, Callable, Generic, Literal, NamedTuple, Optional, TypeVar, Union
+from typing import Any, Callable, Generic, Iterable, Literal, NamedTuple, Optional, TypeVar, Union
 
 from .core import JsonType
 from .exception import JsonTypeError, JsonValueError
@@ -303,9 +303,16 @@ class TypedClassSerializer(Serializer[T]):
                 python_field_to_json_property(field_name, field_type),
                 _get_serializer(field_type, context),
             )
-            for field_name, field_type in get_class_properties(class_type)
+            for field_name, field_type in self.get_fields(class_type)
         ]
 
+    @staticmethod
+    def get_fields(class_type: type[T]) -> Iterable[tuple[str, TypeLike]]:
+        "Returns the fields of a class, evaluating type annotations given as a string (unlike `get_class_properties`)."
+
+        resolved_hints = get_resolved_hints(class_type)
+        return ((field_name, resolved_hints[field_name]) for field_name, _ in get_class_properties(class_type))
+
     def generate(self, obj: T) -> dict[str, JsonType]:
         object_dict: dict[str, JsonType] = {}
         for property_generator in self.property_generators:
-- 
2.43.0


From e72ecd8ce8db701cb094263deba7d470a8ac12b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:49 +0000
Subject: [PATCH 17/29] fix: serialize objects of classes that refer to
 themselves in a container

---
 strong_typing/serializer.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 3823191..7df0997 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -331,6 +331,19 @@ class DataclassSerializer(TypedClassSerializer[T]):
         super().__init__(class_type, context)
 
 
+class MemberClassSerializer(Serializer[T]):
+    "Serializes an object of a class that another class refers to, possibly recursively."
+
+    class_type: type[T]
+
+    def __init__(self, class_type: type[T]) -> None:
+        self.class_type = class_type
+
+    def generate(self, obj: T) -> JsonType:
+        # look up the serializer when it is needed to avoid stack overflow for recursive types
+        return _fetch_serializer(typing.cast(type, self.class_type)).generate(obj)
+
+
 class UnionSerializer(Serializer):
     def generate(self, obj: Any) -> JsonType:
         return object_to_json(obj)
@@ -413,9 +426,8 @@ def create_serializer(typ: TypeLike, context: Optional[ModuleType] = None) -> Se
     :raises TypeError: A serializer engine cannot be constructed for the input type.
     """
 
-    if context is None:
-        if isinstance(typ, type):
-            context = sys.modules[typ.__module__]
+    if context is None and isinstance(typ, type):
+        return _fetch_serializer(typ)
 
     return _get_serializer(typ, context)
 
@@ -428,7 +440,10 @@ def _get_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
         typ = evaluate_type(typ, context)
 
     if isinstance(typ, type):
-        return _fetch_serializer(typ)
+        if getattr(typ, "__annotations__", None):
+            return MemberClassSerializer(typ)
+        else:
+            return _fetch_serializer(typ)
     else:
         # special forms are not always hashable
         return _create_serializer(typ, context)
-- 
2.43.0


From f68da466f616859cd24d6bab403424a76a40c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:57 +0000
Subject: [PATCH 18/29] fix: write a JSON record to a stream in a single step

---
 strong_typing/serialization.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/strong_typing/serialization.py b/strong_typing/serialization.py
index 218781c..1d7fa2d 100644
--- a/strong_typing/serialization.py
+++ b/strong_typing/serialization.py
@@ -106,11 +106,5 @@ def json_dump_string(json_object: JsonType) -> str:
 
 
 def json_dump(json_object: JsonType, file: TextIO) -> None:
-    json.dump(
-        json_object,
-        file,
-        ensure_ascii=False,
-        check_circular=False,
-        separators=(",", ":"),
-    )
-    file.write("\n")
+    # pass the entire record to the stream at once, and only if it can be represented in JSON
+    file.write(json_dump_string(json_object) + "\n")
-- 
2.43.0


From 845b2c3bab387f887ee5a989cbb6b5ec087db6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:33 +0000
Subject: [PATCH 19/29] fix: serialize annotated types in the context of the
 class that refers to them

---
 strong_typing/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 7df0997..ad8161b 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -519,7 +519,7 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
         return LiteralSerializer(typing.get_args(typ), context)
 
     if is_type_annotated(typ):
-        return create_serializer(unwrap_annotated_type(typ))
+        return _get_serializer(unwrap_annotated_type(typ), context)
 
     # check if object has custom serialization method
     convert_func = getattr(typ, "to_json", None)
-- 
2.43.0


From d42fd819503fe2719d21e70756b960d531fe997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:54 +0000
Subject: [PATCH 20/29] fix: tell apart members of a tagged union by the JSON
 name of their discriminator

---
 strong_typing/deserializer.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 8d130bd..ffc36ea 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -30,7 +30,6 @@ from .inspection import (
     enum_value_types,
     evaluate_type,
     get_class_properties,
-    get_class_property,
     get_resolved_hints,
     is_dataclass_instance,
     is_dataclass_type,
@@ -447,23 +446,25 @@ class UnionDeserializer(RecursiveDeserializer):
         raise JsonKeyError(f"type `Union[{type_names}]` could not be instantiated from: {data}")
 
 
-def get_literal_properties(typ: type) -> set[str]:
-    "Returns the names of all properties in a class that are of a literal type."
+def get_literal_properties(typ: type) -> dict[str, TypeLike]:
+    "Returns all properties in a class that are of a literal type, by the name that they have in a JSON object."
 
-    return set(
-        property_name for property_name, property_type in get_class_properties(typ) if is_type_literal(property_type)
-    )
+    return {
+        python_field_to_json_property(field_name, field_type): field_type
+        for field_name, field_type in get_class_properties(typ)
+        if is_type_literal(field_type)
+    }
 
 
 def get_discriminating_properties(types: tuple[type, ...]) -> set[str]:
-    "Returns a set of properties with literal type that are common across all specified classes."
+    "Returns a set of JSON properties with literal type that are common across all specified classes."
 
     if not types or not all(isinstance(typ, type) for typ in types):
         return set()
 
-    props = get_literal_properties(types[0])
+    props = set(get_literal_properties(types[0]))
     for typ in types[1:]:
-        props = props & get_literal_properties(typ)
+        props = props & set(get_literal_properties(typ))
 
     return props
 
@@ -484,7 +485,7 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
         self.member_parsers = {}
         for member_type in self.member_types:
             for property_name in self.disambiguating_properties:
-                literal_type = get_class_property(member_type, property_name)
+                literal_type = get_literal_properties(member_type).get(property_name)
                 if not literal_type:
                     continue
 
-- 
2.43.0


From 48273584757aa6f19633ac015c18572cd8ce6daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:36 +0000
Subject: [PATCH 21/29] fix: resolve registered types that a schema mentions by
 name first

---
 strong_typing/schema.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 9dbe173..4031a40 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -123,6 +123,7 @@ class TypeCatalogEntry:
     schema: Optional[Schema]
     identifier: str
     examples: Optional[JsonType] = None
+    data_type: Optional[TypeLike] = None
 
 
 class TypeCatalog:
@@ -156,7 +157,7 @@ class TypeCatalog:
         if isinstance(data_type, typing.ForwardRef):
             raise TypeError("forward references cannot be used to register a type")
 
-        entry = TypeCatalogEntry(schema, identifier, examples)
+        entry = TypeCatalogEntry(schema, identifier, examples, data_type)
         if self._by_type.setdefault(data_type, entry) is not entry:
             raise ValueError(f"type {data_type} is already registered in the catalog")
 
@@ -304,9 +305,10 @@ class JsonSchemaGenerator:
         # types registered in the type catalog of well-known types
         type_catalog = JsonSchemaGenerator.type_catalog
         if not force_expand and data_type in type_catalog:
-            # user-defined type
-            identifier = type_catalog.get(data_type).identifier
-            self.types_used.setdefault(identifier, data_type)
+            # user-defined type, possibly mentioned by name only
+            entry = type_catalog.get(data_type)
+            identifier = entry.identifier
+            self.types_used.setdefault(identifier, typing.cast(TypeLike, entry.data_type))
             return {"$ref": f"{self.options.definitions_path}{identifier}"}
 
         # unwrap annotated types
-- 
2.43.0


From 6eac307d4f580c98a01e886ebe36ec8e6cb4dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:47 +0000
Subject: [PATCH 22/29] fix: de-serialize annotated forward references

---
 strong_typing/deserializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index ffc36ea..52d7429 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -897,6 +897,8 @@ def _get_deserializer(
 
     alias_key = None
 
+    typ = unwrap_annotated_type(typ) if is_type_annotated(typ) else typ
+
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
             raise TypeError(f"missing context for evaluating type: {typ}")
-- 
2.43.0


From 36d6fa0ccf658ea43e7e76b55a0f51d2d56ecfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:16 +0000
Subject: [PATCH 23/29] fix: validate formats as defined by the dialect of the
 schema

---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 4031a40..8a169ea 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -606,7 +606,7 @@ def validate_object(data_type: TypeLike, json_dict: JsonType) -> None:
     """
 
     schema_dict = classdef_to_schema(data_type)
-    jsonschema.validate(json_dict, schema_dict, format_checker=jsonschema.FormatChecker())
+    jsonschema.validate(json_dict, schema_dict, format_checker=Validator.Latest.value.FORMAT_CHECKER)
 
 
 def print_schema(data_type: type) -> None:
-- 
2.43.0


From 3d5943e072d93c8003c697c727a91a712bd3f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:10 +0000
Subject: [PATCH 24/29] fix: resolve registered types that builtin generics
 mention by name

---
 strong_typing/schema.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 8a169ea..5ced0c5 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -140,10 +140,8 @@ class TypeCatalog:
         return {entry.identifier: entry for entry in list(self._by_type.values())}
 
     def __contains__(self, data_type: TypeLike) -> bool:
-        if isinstance(data_type, typing.ForwardRef):
-            fwd: typing.ForwardRef = data_type
-            name = fwd.__forward_arg__
-            return name in self._by_name
+        if isinstance(data_type, (typing.ForwardRef, str)):
+            return id_from_ref(data_type) in self._by_name
         else:
             return data_type in self._by_type
 
@@ -162,10 +160,8 @@ class TypeCatalog:
             raise ValueError(f"type {data_type} is already registered in the catalog")
 
     def get(self, data_type: TypeLike) -> TypeCatalogEntry:
-        if isinstance(data_type, typing.ForwardRef):
-            fwd: typing.ForwardRef = data_type
-            name = fwd.__forward_arg__
-            return self._by_name[name]
+        if isinstance(data_type, (typing.ForwardRef, str)):
+            return self._by_name[id_from_ref(data_type)]
         else:
             return self._by_type[data_type]
 
-- 
2.43.0


From f22fcabb595ddb383458ea7570d3e0b551579f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:54 +0000
Subject: [PATCH 25/29] fix: serialize objects of classes that inherit a
 reference to themselves

---
 strong_typing/serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index ad8161b..b11606b 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -440,7 +440,8 @@ def _get_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
         typ = evaluate_type(typ, context)
 
     if isinstance(typ, type):
-        if getattr(typ, "__annotations__", None):
+        if any(getattr(base, "__annotations__", None) for base in typ.__mro__):
+            # includes classes whose members are all inherited
             return MemberClassSerializer(typ)
         else:
             return _fetch_serializer(typ)
-- 
2.43.0


From e8a6cc1937fd6d58759bdecf0a7f924bb4325ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:19 +0000
Subject: [PATCH 26/29] fix: members of large enumerations were used as regular
 expressions for dictionary keys in schemas

---
 strong_typing/schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 5ced0c5..5e197e9 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -38,7 +38,7 @@ from .name import python_type_to_name
 from .serialization import object_to_json
 
 # determines the maximum number of distinct enum members up to which a dict[EnumType, Any] is converted into a JSON
-# schema with explicitly listed properties (rather than employing a pattern constraint on property names)
+# schema with explicitly listed properties (rather than employing a constraint on property names)
 OBJECT_ENUM_EXPANSION_LIMIT = 4
 
 
@@ -391,7 +391,7 @@ class JsonSchemaGenerator:
                 enum_values = [str(e.value) for e in key_type]
                 if len(enum_values) > OBJECT_ENUM_EXPANSION_LIMIT:
                     dict_schema = {
-                        "propertyNames": {"pattern": "^(" + "|".join(enum_values) + ")$"},
+                        "propertyNames": {"enum": enum_values},
                         "additionalProperties": value_schema,
                     }
                 else:
-- 
2.43.0


From 4bc979886b5cb695a23792bfdb9bb9825b7e76c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:34 +0000
Subject: [PATCH 27/29] fix: types could not be made from schemas whose
 definitions refer to themselves or to later ones

---
 strong_typing/classdef.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index e129a41..ab1caf0 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -175,6 +175,10 @@ def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str)
 
     top_node = json_to_object(JsonSchemaTopLevelObject, schema)
     if top_node.definitions is not None:
+        # definitions may refer to themselves, each other, and to those that follow
+        for type_name in top_node.definitions:
+            setattr(module, type_name, typing.ForwardRef(type_name))
+
         for type_name, type_node in top_node.definitions.items():
             type_def = node_to_typedef(module, type_name, type_node)
             if type_def.default is not dataclasses.MISSING:
-- 
2.43.0


From 03cb84bbde50e175e1d4b8f49741cddf4041f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:02 +0000
Subject: [PATCH 28/29] fix: values of enumerations in schemas were lost or
 refused because of their member names

---
 strong_typing/classdef.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index ab1caf0..66e78ad 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -142,11 +142,23 @@ def enum_safe_name(name: str) -> str:
     name = re.sub(r"\W", "_", name)
     is_dunder = name.startswith("__")
     is_sunder = name.startswith("_") and name.endswith("_")
-    if is_dunder or is_sunder:  # provide an alternative for dunder and sunder names
+    if is_dunder or is_sunder or name in ["", "mro"]:  # provide an alternative for dunder, sunder and invalid names
         name = f"v{name}"
     return name
 
 
+def enum_safe_members(values: list[str]) -> dict[str, str]:
+    "Assigns a unique enumeration member name to each value."
+
+    members: dict[str, str] = {}
+    for value in values:
+        name = enum_safe_name(value)
+        while name in members:
+            name = f"{name}_1"
+        members[name] = value
+    return members
+
+
 def enum_values_to_type(
     module: types.ModuleType,
     name: str,
@@ -301,7 +313,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
             string_type = enum_values_to_type(
                 module,
                 context,
-                {enum_safe_name(e): e for e in node.enum},
+                enum_safe_members(node.enum),
                 title=node.title,
                 description=node.description,
             )
-- 
2.43.0


From ef7760968c5314f9ba09751edb30931c74b7ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:14 +0000
Subject: [PATCH 29/29] fix: evaluate the name of a type among the names of its
 module only

A class named like a local variable of the evaluating function (`typ`,
`module`) was taken for the value of that variable.
---
 strong_typing/inspection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index e90f0f3..660bbda 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -106,21 +106,21 @@ def evaluate_type(typ: Any, module: types.ModuleType) -> Any:
 
     if isinstance(typ, str):
         # evaluate data-class field whose type annotation is a string
-        return eval(typ, module.__dict__, locals())
+        return eval(typ, module.__dict__, {})
     if isinstance(typ, typing.ForwardRef):
         if sys.version_info >= (3, 14):
             return typing.evaluate_forward_ref(typ, owner=module)
         elif sys.version_info >= (3, 13):
             return typ._evaluate(
                 module.__dict__,
-                locals(),
+                {},
                 type_params=(),
                 recursive_guard=frozenset(),
             )
         else:
             return typ._evaluate(
                 module.__dict__,
-                locals(),
+                {},
                 recursive_guard=frozenset(),
             )
     else:
-- 
2.43.0

