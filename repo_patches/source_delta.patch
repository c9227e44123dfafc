From 277e4abe7f3a3b96497b8f11a72abcb9f4d1cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:32 +0000
Subject: [PATCH 01/92] fix: give every reported error a registered code and a
 message matching its arguments

Dangling context/unit references, invalid segment children and several other
malformed items crashed Filing.open because their error message could not be
formatted or was not registered at all.
---
 brel/errors/error_factory_registry.py       | 12 ++++++------
 brel/parsers/XHMTL/elements/parse_hidden.py |  4 +++-
 brel/parsers/XML/xml_context_parser.py      |  6 +++++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 40cd86b..8d691c8 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -188,7 +188,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.XML_INSTANCE,
         "004",
-        "The unit {id} has a divide element with two children with the same tag: lambda: ErrorInstance(tag}. One should be 'unitNumerator' and the other 'unitDenominator'",
+        "The unit {id} has a divide element with two children with the same tag: {tag}. One should be 'unitNumerator' and the other 'unitDenominator'",
         "Check the children of the `divide` element. Did you forget to rename one of the children?",
     ),
     ErrorCode.XML_INVALID_UNIT_ELEMENT_CHILDREN: lambda: ErrorInstance(
@@ -219,7 +219,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "Context ID {context_id} is not valid.",
         "Check the `contextRef` attribute of the corresponding fact.",
     ),
-    ErrorCode.XML_INVALID_FACT_CONTEXT_ID: lambda: ErrorInstance(
+    ErrorCode.XML_INVALID_FACT_UNIT_ID: lambda: ErrorInstance(
         Severity.ERROR,
         Area.XML_INSTANCE,
         "102",
@@ -289,7 +289,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.WARNING,
         Area.IXBRL_INSTANCE,
         "201",
-        "The ix:references element must have one of the following children: link:schemaRef, link:linkbaseRef. Found {children}.",
+        "The ix:references element must have one of the following children: link:schemaRef, link:linkbaseRef. Found {child_tag}.",
         "Check for a misspelling in the child element.",
     ),
     # RESOURCES: 300 - 399
@@ -445,8 +445,8 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Area.IXBRL_INSTANCE,
         "516",
         "Non-fraction child of another non-fraction element has a different format, scale or unit.\n"
-        + "Parent has the following format, scale and unit {parent_format), {parent_scale), {parent_unit}.\n"
-        + "The child has the following format, scale and unit: lambda: ErrorInstance(this_format), {this_scale), {this_unit}",
+        + "Parent has the following format, scale and unit {parent_format}, {parent_scale}, {parent_unit}.\n"
+        + "The child has the following format, scale and unit: {this_format}, {this_scale}, {this_unit}",
         "Check the attributes of the child and parent element.",
     ),
     ErrorCode.IXBRL_INVALID_NON_NUMERIC_FACT_ESCAPE_ATTRIBUTE_VALUE: lambda: ErrorInstance(
@@ -789,7 +789,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.TAXONOMY_PACKAGE,
         "002",
-        "The catalog contains multiple rewriteURI elements with equivalent 'uriStartString' URIs: lambda: ErrorInstance(uri}",
+        "The catalog contains multiple rewriteURI elements with equivalent 'uriStartString' URIs: {uri}",
         "Check the rewriteURI elements for typos or duplication.",
         QName(error_namespaces["tpe"], "tpe", "multipleRewriteURIsForStartString"),
     ),
diff --git a/brel/parsers/XHMTL/elements/parse_hidden.py b/brel/parsers/XHMTL/elements/parse_hidden.py
index 4b80f2a..de392ca 100644
--- a/brel/parsers/XHMTL/elements/parse_hidden.py
+++ b/brel/parsers/XHMTL/elements/parse_hidden.py
@@ -22,5 +22,7 @@ def validate_hidden_elements(
                 )
             else:
                 error_repository.insert(
-                    ErrorCode.IXBRL_INVALID_HIDDEN_ELEMENT, element, tag=child_tag
+                    ErrorCode.IXBRL_INVALID_HIDDEN_ELEMENT,
+                    element,
+                    child_tag=child_tag,
                 )
diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index afb42bb..a470170 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -91,6 +91,10 @@ def parse_context_xml(
 
                 fact_context._add_characteristic(typed_dimension_characteristic)
             else:
-                error_repository.insert(ErrorCode.INVALID_DIMENSION_TYPE, xml_dimension)
+                error_repository.insert(
+                    ErrorCode.INVALID_DIMENSION_TYPE,
+                    xml_dimension,
+                    dimension_type=xml_dimension.tag,
+                )
 
     return fact_context
-- 
2.43.0


From f12295ee96fa66e3ce2c8e7e4a4fdf718e1e5229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:55 +0000
Subject: [PATCH 02/92] fix: report facts without an id, and facts sharing an
 id, instead of dropping them

---
 brel/data/fact/in_memory_fact_repository.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/brel/data/fact/in_memory_fact_repository.py b/brel/data/fact/in_memory_fact_repository.py
index 6eb46ae..e58101d 100644
--- a/brel/data/fact/in_memory_fact_repository.py
+++ b/brel/data/fact/in_memory_fact_repository.py
@@ -16,7 +16,7 @@ from brel.brel_fact import Fact
 class InMemoryFactRepository(FactRepository):
     def __init__(self) -> None:
         self.__facts_by_id: dict[str, Fact] = {}
-        self.__facts_without_id: list[Fact] = []
+        self.__facts: list[Fact] = []
 
     def get_by_id(self, id: str) -> Fact:
         return self.__facts_by_id[id]
@@ -31,15 +31,14 @@ class InMemoryFactRepository(FactRepository):
         return id in self.__facts_by_id
 
     def get_all(self):
-        return list(self.__facts_by_id.values())
+        return list(self.__facts)
 
     def upsert(self, fact: Fact) -> None:
         """
         Set the fact by its ID.
         :param fact: The fact to set.
         """
+        self.__facts.append(fact)
         fact_id = fact.get_id()
-        if fact_id is None:
-            self.__facts_without_id.append(fact)
-        else:
+        if fact_id is not None:
             self.__facts_by_id[fact_id] = fact
-- 
2.43.0


From c910e6cbf2dc80f0463ad4d1db9d1435f15c664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 03/92] fix: compare QNames by namespace and local name, not by
 prefix

Facts, dimensions and members were rejected as unknown when the instance bound
another prefix than the schema to the same namespace.
---
 brel/qnames/qname.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/qnames/qname.py b/brel/qnames/qname.py
index 15af6a9..1bd8352 100644
--- a/brel/qnames/qname.py
+++ b/brel/qnames/qname.py
@@ -8,13 +8,14 @@
 ====================
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 
 @dataclass(frozen=True, eq=True)
 class QName:
     uri: str
-    prefix: str
+    # the prefix is only a notation, it is not part of the name's identity
+    prefix: str = field(compare=False)
     local_name: str
 
     def get_URL(self) -> str:
-- 
2.43.0


From e9b59ace923239eb37fd7bbaea1316f6a73f8c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 04/92] fix: keep entities with equal identifiers but different
 schemes apart, report empty identifiers

---
 brel/parsers/XML/characteristics/xml_parse_entity.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index cc4b5da..3ae2612 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -51,12 +51,16 @@ def parse_entity_from_xml(
     entity_id = identifier_element.text
 
     if entity_id is None:
-        f"Could not find text in identifier element {identifier_element}",
+        error_repository.insert(
+            ErrorCode.ENTITY_IDENTIFIER_MISSING_VALUE, identifier_element
+        )
         return None
 
-    if characteristic_repository.has(entity_id, EntityCharacteristic):
-        return characteristic_repository.get(entity_id, EntityCharacteristic)
+    # the same identifier can denote different entities under different schemes
+    entity_key = f"{{{entity_url}}}{entity_id}"
+    if characteristic_repository.has(entity_key, EntityCharacteristic):
+        return characteristic_repository.get(entity_key, EntityCharacteristic)
     else:
         entity_characteristic = EntityCharacteristic(entity_id, entity_url)
-        characteristic_repository.upsert(entity_id, entity_characteristic)
+        characteristic_repository.upsert(entity_key, entity_characteristic)
         return entity_characteristic
-- 
2.43.0


From 0d682c510328fa84f915dde4407d212f9bc8d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 05/92] fix: skip typed dimensions that do not exist instead of
 failing after reporting them

---
 brel/parsers/XML/characteristics/xml_parse_typed_dimension.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index b06f67c..f467893 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -71,6 +71,7 @@ def parse_typed_dimension_from_xml(
             xml_element,
             dimension=dimension_axis,
         )
+        return None
 
     i_report_element = report_element_repository.get_typed_by_qname(
         dimension_qname, Dimension
-- 
2.43.0


From 61e595bde8b40d68ed7420cb5646dc80576db8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:55 +0000
Subject: [PATCH 06/92] fix: share dimension characteristics by namespace and
 keep their report elements when copying contexts

Cached dimension characteristics were keyed by prefixed names, so two documents
binding one prefix to different namespaces mixed them up; inline contexts deep-copied
the dimensions and members of the taxonomy, which then compared unequal to themselves.
---
 brel/data/context/in_memory_context_repository.py         | 8 ++++++--
 .../XML/characteristics/xml_parse_explicit_dimension.py   | 4 ++--
 .../XML/characteristics/xml_parse_typed_dimension.py      | 2 +-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/brel/data/context/in_memory_context_repository.py b/brel/data/context/in_memory_context_repository.py
index 00a0343..bd13166 100644
--- a/brel/data/context/in_memory_context_repository.py
+++ b/brel/data/context/in_memory_context_repository.py
@@ -1,4 +1,3 @@
-from copy import deepcopy
 from typing import Dict, Optional
 from brel.brel_context import Context
 from brel.data.context.context_repository import ContextRepository
@@ -18,7 +17,12 @@ class InMemoryContextRepository(ContextRepository):
         if context_id not in self.__contexts:
             return None
 
-        return deepcopy(self.__contexts[context_id])
+        # copy the context only, its characteristics are shared with other contexts
+        context = self.__contexts[context_id]
+        context_copy = Context(context_id)
+        for aspect in context.get_aspects():
+            context_copy._add_characteristic(context.get_characteristic(aspect))
+        return context_copy
 
     def insert_context(self, context: Context) -> bool:
         """
diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index b75f1ec..f25365a 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -48,7 +48,7 @@ def parse_explicit_dimension_from_xml(
     error_repository = filing_context.get_error_repository()
 
     aspect_id = get_str_attribute(xml_element, "dimension")
-    if not characteristic_repository.has(aspect_id, ExplicitDimensionCharacteristic):
+    if not aspect_repository.has(aspect_id):
         aspect_repository.upsert(Aspect(aspect_id, []))
 
     aspect = aspect_repository.get(aspect_id)
@@ -83,7 +83,7 @@ def parse_explicit_dimension_from_xml(
 
     member = report_element_repository.get_typed_by_qname(member_qname, Member)
 
-    dimension_id = f"{aspect_id} {member_id}"
+    dimension_id = f"{dimension_qname.clark_notation()} {member_qname.clark_notation()}"
     if not characteristic_repository.has(dimension_id, ExplicitDimensionCharacteristic):
         characteristic_repository.upsert(
             dimension_id,
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index f467893..6631b1a 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -103,7 +103,7 @@ def parse_typed_dimension_from_xml(
 
         return None
 
-    dimension_id = f"{dimension_axis} {dimension_value}"
+    dimension_id = f"{dimension_qname.clark_notation()} {dimension_value}"
     if not characteristic_repository.has(dimension_id, TypedDimensionCharacteristic):
         dimension_characteristic = TypedDimensionCharacteristic(
             i_report_element, dimension_value, dimension_aspect
-- 
2.43.0


From fce60d479dbadb5e46f9b7e5693fd75301954aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:13 +0000
Subject: [PATCH 07/92] fix: look units up in the instance of the fact that
 refers to them

---
 brel/parsers/XML/xml_facts_parser.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 73cf669..c580efc 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -11,7 +11,6 @@ It parses XBRL in the XML syntax.
 ====================
 """
 
-from typing import cast
 import lxml
 import lxml.etree
 
@@ -97,6 +96,8 @@ def parse_facts_xml(
     xml_service = context.get_xml_service()
 
     for xbrl_instance in xml_service.get_all_etrees():
+        # unit ids are only unique within their instance
+        instance_units: dict[str, UnitCharacteristic] = {}
         for xml_fact in find_elements(xbrl_instance, ".//*[@contextRef]"):
             fact_characteristics: list[UnitCharacteristic | ConceptCharacteristic] = []
 
@@ -140,20 +141,14 @@ def parse_facts_xml(
 
                     continue
 
-                if not characteristics_repository.has(unit_id, UnitCharacteristic):
+                if unit_id not in instance_units:
                     new_unit = parse_unit_from_xml(context, unit_xml)
                     if not new_unit:
                         continue
 
-                    characteristics_repository.upsert(unit_id, new_unit)
+                    instance_units[unit_id] = new_unit
 
-                unit_characteristic = characteristics_repository.get(
-                    unit_id, UnitCharacteristic
-                )
-
-                fact_characteristics.append(
-                    cast(UnitCharacteristic, unit_characteristic)
-                )
+                fact_characteristics.append(instance_units[unit_id])
 
             # ======== PARSE THE CONTEXT ========
             context_id = get_str_attribute(xml_fact, "contextRef")
-- 
2.43.0


From 8d66ac81b3f5f93cb16b85b239869cbb2a027b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:13 +0000
Subject: [PATCH 08/92] fix: keep every measure of a divide unit, tolerate
 incomplete divides and comments

---
 .../XML/characteristics/xml_parse_unit.py     | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index 21fe6a9..7b3cfbf 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -64,7 +64,7 @@ def parse_unit_from_xml(
     denominators: list[QName] = []
 
     # get the child elements of the unit and check if its tag is 'measure' or 'divide'
-    children = list(xml_element)
+    children = list(xml_element.iterchildren("*"))
     if len(children) != 1:
         error_repository.insert(
             ErrorCode.XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD,
@@ -84,7 +84,7 @@ def parse_unit_from_xml(
             numerators.append(child_qname)
 
         elif "divide" in child_tag:
-            num_and_denom = list(child)
+            num_and_denom = list(child.iterchildren("*"))
             if len(num_and_denom) != 2:
                 error_repository.insert(
                     ErrorCode.XML_DIVIDE_ELEMENT_WITHOUT_TWO_CHILDREN,
@@ -107,18 +107,30 @@ def parse_unit_from_xml(
                         child_tag=num_or_denom_tag,
                     )
 
-                measure_child = num_or_denom[0]
-                child_qname = parse_unit_measure_from_xml(measure_child, filing_context)
-
-                if not child_qname:
+                measure_children = list(num_or_denom.iterchildren("*"))
+                if not measure_children:
+                    error_repository.insert(
+                        ErrorCode.XML_MISSING_UNIT_MEASURE, num_or_denom
+                    )
                     return None
 
-                if "unitNumerator" in num_or_denom_tag:
-                    numerators.append(child_qname)
-                elif "unitDenominator" in num_or_denom_tag:
-                    denominators.append(child_qname)
+                for measure_child in measure_children:
+                    child_qname = parse_unit_measure_from_xml(
+                        measure_child, filing_context
+                    )
+
+                    if not child_qname:
+                        return None
+
+                    if "unitNumerator" in num_or_denom_tag:
+                        numerators.append(child_qname)
+                    elif "unitDenominator" in num_or_denom_tag:
+                        denominators.append(child_qname)
 
-            if num_and_denom[0].tag == num_and_denom[1].tag:
+            if (
+                len(num_and_denom) == 2
+                and num_and_denom[0].tag == num_and_denom[1].tag
+            ):
                 error_repository.insert(
                     ErrorCode.XML_DUPLICATE_DIVIDE_ELEMENT_CHILDREN,
                     xml_element,
-- 
2.43.0


From bb2dd826276f62e8a5e502642f0be5fc5711ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:13 +0000
Subject: [PATCH 09/92] fix: ignore comments in segments and typed members

---
 .../XML/characteristics/xml_parse_typed_dimension.py       | 7 ++++---
 brel/parsers/XML/xml_context_parser.py                     | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index 6631b1a..d773212 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -77,14 +77,15 @@ def parse_typed_dimension_from_xml(
         dimension_qname, Dimension
     )
 
-    if len(xml_element) > 1:
+    typed_values = list(xml_element.iterchildren("*"))
+    if len(typed_values) > 1:
         error_repository.insert(
             ErrorCode.MULTIPLE_TYPED_DIMENSION_ELEMENT_CHILDREN,
             xml_element,
             dimension=dimension_axis,
         )
 
-    if len(xml_element) == 0:
+    if len(typed_values) == 0:
         error_repository.insert(
             ErrorCode.NO_TYPED_DIMENSION_ELEMENT_CHILDREN,
             xml_element,
@@ -93,7 +94,7 @@ def parse_typed_dimension_from_xml(
 
         return None
 
-    dimension_value = xml_element[0].text
+    dimension_value = typed_values[0].text
     if dimension_value is None:
         error_repository.insert(
             ErrorCode.MISSING_TYPED_DIMENSION_VALUE,
diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index a470170..cca2001 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -71,7 +71,7 @@ def parse_context_xml(
     segment = context_entity.find("{*}segment", namespaces=None)
 
     if segment is not None:
-        for xml_dimension in segment:
+        for xml_dimension in segment.iterchildren("*"):
             if "explicitMember" in xml_dimension.tag:
                 explicit_dimension_characteristic = parse_explicit_dimension_from_xml(
                     filing_context, xml_dimension
-- 
2.43.0


From aa444afcebfdcef33f835496787e9242ae4be724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:02 +0000
Subject: [PATCH 10/92] fix: give different remote documents different names in
 the cache, whatever their encoding

---
 brel/data/file/pyfs_file_repository.py | 4 ++--
 brel/parsers/utils/file_utils.py       | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/brel/data/file/pyfs_file_repository.py b/brel/data/file/pyfs_file_repository.py
index 5c40743..f89ed7d 100644
--- a/brel/data/file/pyfs_file_repository.py
+++ b/brel/data/file/pyfs_file_repository.py
@@ -28,9 +28,9 @@ class PyFsFileRepository(FileRepository):
             self.fs.removetree("/")
 
     def add_file(self, uri: str, file: IO[bytes]) -> None:
-        return self.fs.writetext(
+        return self.fs.writebytes(
             uri_to_filename(uri),
-            file.read().decode("utf-8"),
+            file.read(),
         )
 
     def get_file(self, uri: str) -> IO[bytes]:
diff --git a/brel/parsers/utils/file_utils.py b/brel/parsers/utils/file_utils.py
index c05b40a..071ed64 100644
--- a/brel/parsers/utils/file_utils.py
+++ b/brel/parsers/utils/file_utils.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+import hashlib
 import re
 
 
@@ -29,6 +30,8 @@ def uri_to_filename(uri: str) -> str:
         else:
             return posix_uri
 
+    # different uris can look alike once reduced to characters that are safe in a filename
+    digest = hashlib.sha256(uri.encode("utf-8")).hexdigest()[:16]
     uri = uri.replace("." + file_format, "")
 
     if "http" in uri:
@@ -51,4 +54,4 @@ def uri_to_filename(uri: str) -> str:
     # replace all \ with _
     uri = uri.replace("\\", "_")
 
-    return uri + file_format
+    return f"{uri[:150]}_{digest}{file_format}"
-- 
2.43.0


From a8331e34db889424612f205ca88f4fd3d07a50e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 11/92] fix: read local files from disk at every opening

Local files were served from a cache keyed by their base name, so edits were
ignored and files of the same name in other directories were mixed up.
---
 brel/services/file/file_service.py |  6 ++----
 brel/services/xml/xml_service.py   | 28 ++++++++++++++++------------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index 9f52118..c054693 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -62,7 +62,5 @@ class FileService:
 
         return self.get_file(uri)
 
-    def copy_and_add_file(self, local_path: str) -> IO[bytes]:
-        with open(local_path, "rb") as file:
-            self.add_file(local_path, file)
-        return self.get_file(local_path)
+    def get_local_file(self, local_path: str) -> IO[bytes]:
+        return open(local_path, "rb")
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index ae53ca7..9e38532 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -9,6 +9,7 @@
 """
 
 import re
+from io import BytesIO
 from typing import List, Optional, Set
 import urllib.parse
 from lxml.etree import _ElementTree  # type: ignore
@@ -64,20 +65,23 @@ class XMLService:
 
         parser = self.__parser_resolver.get_parser(uri)
 
-        if self.__file_service.has_file(uri):
-            with self.__file_service.get_file(uri) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
-        elif is_uri_remote:
-            with self.__file_service.download_and_add_file(uri) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
+        if not is_uri_remote:
+            # local files are not cached, they can change between two openings
+            content_file = self.__file_service.get_local_file(
+                urllib.parse.urlparse(uri).path
+            )
+        elif self.__file_service.has_file(uri):
+            content_file = self.__file_service.get_file(uri)
         else:
-            local_filepath = urllib.parse.urlparse(uri).path
-            with self.__file_service.copy_and_add_file(local_filepath) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
+            content_file = self.__file_service.download_and_add_file(uri)
+
+        with content_file as file:
+            content = file.read()
+
+        self.__xml_repository.add_etree(uri, parser(BytesIO(content)))
 
-        with self.__file_service.get_file(uri) as file:
-            for reference_uri in self.__extract_references(file.read()):
-                self.add_etree_recursive(reference_uri, referencing_uri=uri)
+        for reference_uri in self.__extract_references(content):
+            self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
     def __extract_references(self, content: bytes) -> set[str]:
         reference_uris: set[str] = set()
-- 
2.43.0


From cc6f6fca4fc6b0fb25ffa54371e5c760e1023da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 12/92] fix: recognise one file under different relative paths,
 and rewrites of remote references to local files

---
 brel/services/xml/xml_service.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 9e38532..11f92ca 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+import os
 import re
 from io import BytesIO
 from typing import List, Optional, Set
@@ -45,7 +46,10 @@ class XMLService:
         :param referencing_uri: The URI of the file that references this XML file.
         the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
         """
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
+        remote_prefixes = ("http://", "https://")
+        is_uri_remote = uri.startswith(remote_prefixes) or referencing_uri.startswith(
+            remote_prefixes
+        )
         if not is_uri_remote:
             referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
             uri_splitting_char = "\\" if "\\" in uri else "/"
@@ -58,7 +62,10 @@ class XMLService:
             uri = urllib.parse.urljoin(referencing_uri, uri)
 
         uri = self.__uri_rewrite_repository.rewrite(uri)
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
+        is_uri_remote = uri.startswith(remote_prefixes)
+        if not is_uri_remote:
+            # a/b/../c.xsd and a/c.xsd are the same file
+            uri = os.path.normpath(uri)
 
         if self.__xml_repository.has_etree(uri):
             return
-- 
2.43.0


From 11284d2eab48441a248bbb414fdc882d8747760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:49 +0000
Subject: [PATCH 13/92] fix: take a document's references from its elements, in
 document order

References were matched in the raw text: those in comments were followed, all but the
last pair of an xsi:schemaLocation were not, a second '#' or a non UTF-8 encoding failed,
and the set of references was walked in an order that changed from run to run.
---
 brel/services/xml/xml_service.py | 47 ++++++++++++++------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 11f92ca..8d78bca 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -9,7 +9,6 @@
 """
 
 import os
-import re
 from io import BytesIO
 from typing import List, Optional, Set
 import urllib.parse
@@ -85,35 +84,29 @@ class XMLService:
         with content_file as file:
             content = file.read()
 
-        self.__xml_repository.add_etree(uri, parser(BytesIO(content)))
+        etree = parser(BytesIO(content))
+        self.__xml_repository.add_etree(uri, etree)
 
-        for reference_uri in self.__extract_references(content):
+        for reference_uri in self.__extract_references(etree):
             self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
-    def __extract_references(self, content: bytes) -> set[str]:
-        reference_uris: set[str] = set()
-        reference_pattern = re.compile(
-            r":href=['\"]([^'\"]+)['\"]|schemaLocation=['\"]([^'\"]+)['\"]"
-        )
-
-        for match in reference_pattern.finditer(content.decode("utf-8")):
-            href = match.group(1)
-            if href:
-                if "#" in href:
-                    href_uri, _ = href.split("#")
-                else:
-                    href_uri = href
-
-                if href_uri:
-                    reference_uris.add(href_uri)
-
-            schema_location = match.group(2)
-            if schema_location:
-                # get only last part, as there can be 2 links, only the second of which is relevant in our case.
-                schema_location = schema_location.split()[-1]
-                reference_uris.add(schema_location)
-
-        return reference_uris
+    def __extract_references(self, etree: _ElementTree) -> list[str]:
+        """
+        :returns list[str]: the URIs referenced by the document without their fragments, in document order
+        """
+        reference_uris: dict[str, None] = {}
+
+        for element in etree.iter("*"):
+            for attribute, value in element.attrib.items():
+                if attribute.endswith("}href"):
+                    reference_uris[urllib.parse.urldefrag(value.strip()).url] = None
+                elif attribute == "schemaLocation":
+                    reference_uris[value.strip()] = None
+                elif attribute.endswith("}schemaLocation"):
+                    # pairs of a namespace and the location of its schema
+                    reference_uris.update(dict.fromkeys(value.split()[1::2]))
+
+        return [uri for uri in reference_uris if uri]
 
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
-- 
2.43.0


From 2833ae03506886ade5fa560aece363d72d92096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:40 +0000
Subject: [PATCH 14/92] fix: report unavailable remote files instead of failing
 after reporting them

---
 brel/services/file/file_service.py | 22 ++++++++++++++--------
 brel/services/xml/xml_service.py   |  6 +++++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index c054693..19d6aa6 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -10,8 +10,8 @@
 
 import time
 from io import BytesIO
-from typing import IO
-from requests import Session
+from typing import IO, Optional
+from requests import RequestException, Session
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.file.file_repository import FileRepository
 from brel.errors.error_code import ErrorCode
@@ -37,7 +37,11 @@ class FileService:
     def has_file(self, uri: str) -> bool:
         return self.__file_repository.has_file(uri)
 
-    def download_and_add_file(self, uri: str) -> IO[bytes]:
+    def download_and_add_file(self, uri: str) -> Optional[IO[bytes]]:
+        """
+        Downloads the file and adds it to the repository.
+        :returns Optional[IO[bytes]]: the file, or None if it is unavailable, which is reported as an error
+        """
         headers = {}
 
         if "www.sec.gov" in uri:
@@ -48,18 +52,20 @@ class FileService:
             }
             time.sleep(0.1)
 
-        response = self.__session.get(uri, headers=headers, timeout=10)
+        status = "no response"
         try:
+            response = self.__session.get(uri, headers=headers, timeout=10)
+            status = str(response.status_code)
             response.raise_for_status()
-            file = BytesIO(response.content)
-            self.add_file(uri, file)
-        except:
+        except RequestException:
             self.__error_repository.insert(
                 ErrorCode.UNAVAILABLE_REMOTE_FILE,
                 uri=uri,
-                status_code=str(response.status_code),
+                status_code=status,
             )
+            return None
 
+        self.add_file(uri, BytesIO(response.content))
         return self.get_file(uri)
 
     def get_local_file(self, local_path: str) -> IO[bytes]:
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 8d78bca..5ac867b 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -79,7 +79,11 @@ class XMLService:
         elif self.__file_service.has_file(uri):
             content_file = self.__file_service.get_file(uri)
         else:
-            content_file = self.__file_service.download_and_add_file(uri)
+            downloaded_file = self.__file_service.download_and_add_file(uri)
+            if downloaded_file is None:
+                # the unavailability has been reported
+                return
+            content_file = downloaded_file
 
         with content_file as file:
             content = file.read()
-- 
2.43.0


From 28f42c428c6cecb39d9efdb57eeeabf7abedce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:40 +0000
Subject: [PATCH 15/92] fix: prefer the longest matching URI rewrite, as XML
 catalogs require

---
 .../in_memory_uri_rewrite_repository.py          | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
index f049936..4b056f7 100644
--- a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
+++ b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
@@ -22,8 +22,14 @@ class InMemoryURIRewriteRepository(URIRewriteRepository):
         del self.__catalog[original_string]
 
     def rewrite(self, uri: str) -> str:
-        for original_string, replacement_string in self.__catalog.items():
-            if uri.startswith(original_string):
-                return replacement_string + uri[len(original_string) :]
-
-        return uri
+        matching_strings = [
+            original_string
+            for original_string in self.__catalog
+            if uri.startswith(original_string)
+        ]
+        if not matching_strings:
+            return uri
+
+        # like in XML catalogs, the longest match takes precedence
+        original_string = max(matching_strings, key=len)
+        return self.__catalog[original_string] + uri[len(original_string) :]
-- 
2.43.0


From ee1cdcfd02afcfba95176109ef45a0b3912c4df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:11 +0000
Subject: [PATCH 16/92] fix: resolve typedDomainRef relative to its schema,
 tolerate unresolvable ones and anonymous types

---
 brel/data/xml/xml_repository.py               |  7 +++
 brel/parsers/XML/xml_report_element_parser.py | 17 ++++--
 brel/services/xml/xml_service.py              | 61 +++++++++++++------
 3 files changed, 61 insertions(+), 24 deletions(-)

diff --git a/brel/data/xml/xml_repository.py b/brel/data/xml/xml_repository.py
index a65c593..54ce481 100644
--- a/brel/data/xml/xml_repository.py
+++ b/brel/data/xml/xml_repository.py
@@ -33,6 +33,13 @@ class XMLRepository:
     def get_etree(self, uri: str) -> lxml.etree._ElementTree:
         return self.__xml_etree_cache[self.normalize_uri(uri)]
 
+    def get_uri(self, etree: lxml.etree._ElementTree) -> str:
+        return next(
+            uri
+            for uri, added_etree in self.__xml_etree_cache.items()
+            if added_etree is etree
+        )
+
     def get_all_etrees(self) -> list[lxml.etree._ElementTree]:
         return list(self.__xml_etree_cache.values())
 
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 703202c..6c18e37 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -89,13 +89,19 @@ def parse_report_element(
 
             if has_str_attribute(report_element_xml, typed_domain_ref):
                 ref_full = get_str_attribute(report_element_xml, typed_domain_ref)
-                ref_schema_name, ref_id = ref_full.split("#")
+                ref_schema_name, _, ref_id = ref_full.partition("#")
                 refschema = (
-                    xml_service.get_etree(ref_schema_name)
+                    xml_service.find_referenced_etree(ref_schema_name, current_etree)
                     if ref_schema_name and ref_schema_name != "."
                     else current_etree
                 )
-                ref_xml = refschema.find(f".//*[@id='{ref_id}']")
+                ref_xml = (
+                    next(
+                        (e for e in refschema.iter("*") if e.get("id") == ref_id), None
+                    )
+                    if refschema is not None
+                    else None
+                )
                 if ref_xml is None:
                     error_repository.insert(
                         ErrorCode.REFERENCED_SCHEMA_ELEMENT_NOT_FOUND,
@@ -104,6 +110,9 @@ def parse_report_element(
                         ref_schema_name=ref_schema_name,
                     )
                     return
-                ref_type = get_str_attribute(ref_xml, "type")
+                # an element without a named type can have any type
+                ref_type = get_str_attribute(
+                    ref_xml, "type", "{http://www.w3.org/2001/XMLSchema}anyType"
+                )
                 ref_type_qname = qname_from_str(ref_type, ref_xml)
                 report_element.make_typed(ref_type_qname)
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 5ac867b..4dfbc58 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -21,6 +21,8 @@ from brel.parsers.utils.lxml_utils import get_str_attribute
 from brel.services.file.file_service import FileService
 from brel.services.xml.xml_file_parser_resolver import XMLFileParserResolver
 
+REMOTE_PREFIXES = ("http://", "https://")
+
 
 class XMLService:
     def __init__(
@@ -45,26 +47,8 @@ class XMLService:
         :param referencing_uri: The URI of the file that references this XML file.
         the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
         """
-        remote_prefixes = ("http://", "https://")
-        is_uri_remote = uri.startswith(remote_prefixes) or referencing_uri.startswith(
-            remote_prefixes
-        )
-        if not is_uri_remote:
-            referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
-            uri_splitting_char = "\\" if "\\" in uri else "/"
-
-            uri = uri_splitting_char.join(
-                referencing_uri.split(referencing_splitting_char)[:-1]
-                + uri.split(uri_splitting_char)
-            )
-        else:
-            uri = urllib.parse.urljoin(referencing_uri, uri)
-
-        uri = self.__uri_rewrite_repository.rewrite(uri)
-        is_uri_remote = uri.startswith(remote_prefixes)
-        if not is_uri_remote:
-            # a/b/../c.xsd and a/c.xsd are the same file
-            uri = os.path.normpath(uri)
+        uri = self.resolve_uri(uri, referencing_uri)
+        is_uri_remote = uri.startswith(REMOTE_PREFIXES)
 
         if self.__xml_repository.has_etree(uri):
             return
@@ -94,6 +78,31 @@ class XMLService:
         for reference_uri in self.__extract_references(etree):
             self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
+    def resolve_uri(self, uri: str, referencing_uri: str) -> str:
+        """
+        :returns str: the URI of the file that the uri in the file at referencing_uri refers to
+        """
+        is_uri_remote = uri.startswith(REMOTE_PREFIXES) or referencing_uri.startswith(
+            REMOTE_PREFIXES
+        )
+        if not is_uri_remote:
+            referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
+            uri_splitting_char = "\\" if "\\" in uri else "/"
+
+            uri = uri_splitting_char.join(
+                referencing_uri.split(referencing_splitting_char)[:-1]
+                + uri.split(uri_splitting_char)
+            )
+        else:
+            uri = urllib.parse.urljoin(referencing_uri, uri)
+
+        uri = self.__uri_rewrite_repository.rewrite(uri)
+        if not uri.startswith(REMOTE_PREFIXES):
+            # a/b/../c.xsd and a/c.xsd are the same file
+            uri = os.path.normpath(uri)
+
+        return uri
+
     def __extract_references(self, etree: _ElementTree) -> list[str]:
         """
         :returns list[str]: the URIs referenced by the document without their fragments, in document order
@@ -115,6 +124,18 @@ class XMLService:
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
 
+    def find_referenced_etree(
+        self, uri: str, referencing_etree: _ElementTree
+    ) -> Optional[_ElementTree]:
+        """
+        :returns Optional[_ElementTree]: the etree that the uri in the referencing etree refers to, if it was added
+        """
+        referencing_uri = self.__xml_repository.get_uri(referencing_etree)
+        referenced_uri = self.resolve_uri(uri, referencing_uri)
+        if not self.__xml_repository.has_etree(referenced_uri):
+            return None
+        return self.__xml_repository.get_etree(referenced_uri)
+
     def get_all_etrees(self) -> list[_ElementTree]:
         return self.__xml_repository.get_all_etrees()
 
-- 
2.43.0


From 1270316983160859f35e495d8a82a7732c3fef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:42 +0000
Subject: [PATCH 17/92] fix: build networks in document order, so that opening
 a filing twice gives the same networks

---
 .../XML/networks/xml_extended_link_parser.py  | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 579f7a0..cc3e566 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -116,9 +116,9 @@ def parse_xml_link(
 
     for network_factory in network_factories:
         nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
-        edges: set[tuple[str, str, str]] = set()
+        edges: dict[tuple[str, str, str], None] = {}
         node_to_arcs: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
-        roots: set[INetworkNode] = set()
+        roots: list[INetworkNode] = []
 
         for arc_element in find_elements(xml_link_element, ".//*[@xlink:type='arc']"):
             arc_from = get_str_attribute(arc_element, "xlink:from")
@@ -134,7 +134,7 @@ def parse_xml_link(
                 )
                 continue
 
-            edges.add((arc_from, arc_to, arc_role))
+            edges[(arc_from, arc_to, arc_role)] = None
             node_to_arcs[arc_from].append(arc_element)
             node_to_arcs[arc_to].append(arc_element)
 
@@ -176,18 +176,18 @@ def parse_xml_link(
                     if node is None:
                         continue
 
-                    roots.add(node)
+                    roots.append(node)
                     nodes_lookup[label].append(node)
                 else:
-                    outgoing_role_types = set(
+                    outgoing_role_types = dict.fromkeys(
                         get_str_attribute(arc, "xlink:arcrole") for arc in arcs_from
                     )
 
-                    incoming_role_types = set(
+                    incoming_role_types = dict.fromkeys(
                         get_str_attribute(arc, "xlink:arcrole") for arc in arcs_to
                     )
 
-                    for role_type in incoming_role_types.union(outgoing_role_types):
+                    for role_type in incoming_role_types | outgoing_role_types:
                         node_arcs.sort(
                             key=lambda arc: get_str_attribute(arc, "xlink:to") == label,
                             reverse=True,
@@ -214,7 +214,7 @@ def parse_xml_link(
                             continue
 
                         if role_type not in incoming_role_types:
-                            roots.add(node)
+                            roots.append(node)
                         nodes_lookup[label].append(node)
 
             else:
@@ -230,7 +230,7 @@ def parse_xml_link(
                     if node is None:
                         continue
 
-                    roots.add(node)
+                    roots.append(node)
                     nodes_lookup[label].append(node)
                 else:
                     arc = arcs_to[0] if len(arcs_to) > 0 else arcs_from[0]
@@ -243,7 +243,7 @@ def parse_xml_link(
                         continue
 
                     if len(arcs_to) == 0:
-                        roots.add(node)
+                        roots.append(node)
                     nodes_lookup[label].append(node)
 
         # second pass. Create the tree by iterating over the edges and adding the edge's 'to' node as a child to the edge's 'from' node
@@ -270,7 +270,7 @@ def parse_xml_link(
             continue
 
         if network_factory.is_physical():
-            role_types = set(node.get_arc_role() for node in roots)
+            role_types = dict.fromkeys(node.get_arc_role() for node in roots)
             for role_type in role_types:
                 role_type_roots = [
                     node for node in roots if node.get_arc_role() == role_type
-- 
2.43.0


From 5f401e80097fdd8f7499281268234540445fdeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:53 +0000
Subject: [PATCH 18/92] fix: report locators to objects their link cannot hold
 instead of failing

---
 .../networks/xml_calculation_network_factory.py   |  8 +++++++-
 .../networks/xml_definition_network_factory.py    | 15 +++++++++++----
 .../XML/networks/xml_footnote_network_factory.py  |  8 ++++++--
 .../XML/networks/xml_label_network_factory.py     |  8 ++++++--
 .../networks/xml_presentation_network_factory.py  |  8 ++++++--
 .../XML/networks/xml_reference_network_factory.py |  8 ++++++--
 6 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_calculation_network_factory.py b/brel/parsers/XML/networks/xml_calculation_network_factory.py
index 5f6b8b2..84e2e78 100644
--- a/brel/parsers/XML/networks/xml_calculation_network_factory.py
+++ b/brel/parsers/XML/networks/xml_calculation_network_factory.py
@@ -18,6 +18,7 @@ from lxml.etree import _Element  # type: ignore
 
 from brel.brel_fact import Fact
 from brel.data.errors.error_repository import ErrorRepository
+from brel.errors.error_code import ErrorCode
 from brel.networks import (
     CalculationNetwork,
     CalculationNetworkNode,
@@ -91,7 +92,12 @@ class CalculationNetworkFactory(IXMLNetworkFactory):
         link_name = qname_from_str(xml_link.tag, xml_link)
 
         if not isinstance(points_to, Concept):
-            raise TypeError(f"points_to must be of type Concept, not {type(points_to)}")
+            error_repository.insert(
+                ErrorCode.XML_UNSUPPORTED_REFERENCED_ELEMENT_TYPE,
+                xml_referenced_element,
+                type=type(points_to).__name__,
+            )
+            return None
 
         return CalculationNetworkNode(
             points_to,
diff --git a/brel/parsers/XML/networks/xml_definition_network_factory.py b/brel/parsers/XML/networks/xml_definition_network_factory.py
index 2a67a3d..2af3129 100644
--- a/brel/parsers/XML/networks/xml_definition_network_factory.py
+++ b/brel/parsers/XML/networks/xml_definition_network_factory.py
@@ -18,6 +18,7 @@ from lxml.etree import _Element  # type: ignore
 
 from brel.brel_fact import Fact
 from brel.data.errors.error_repository import ErrorRepository
+from brel.errors.error_code import ErrorCode
 from brel.networks import (
     DefinitionNetwork,
     DefinitionNetworkNode,
@@ -86,9 +87,12 @@ class PhysicalDefinitionNetworkFactory(IXMLNetworkFactory):
 
         # check if 'points_to' is a ReportElement
         if not isinstance(points_to, IReportElement):
-            raise TypeError(
-                f"points_to must be of type IReportElement, not {type(points_to)}"
+            error_repository.insert(
+                ErrorCode.XML_UNSUPPORTED_REFERENCED_ELEMENT_TYPE,
+                xml_referenced_element,
+                type=type(points_to).__name__,
             )
+            return None
 
         return DefinitionNetworkNode(
             points_to, [], arc_role, arc_qname, link_role, link_name, order
@@ -156,9 +160,12 @@ class LogicalDefinitionNetworkFactory(IXMLNetworkFactory):
 
         # check if 'points_to' is a ReportElement
         if not isinstance(points_to, IReportElement):
-            raise TypeError(
-                f"points_to must be of type IReportElement, not {type(points_to)}"
+            error_repository.insert(
+                ErrorCode.XML_UNSUPPORTED_REFERENCED_ELEMENT_TYPE,
+                xml_referenced_element,
+                type=type(points_to).__name__,
             )
+            return None
 
         return DefinitionNetworkNode(
             points_to, [], arc_role, arc_qname, link_role, link_name, order
diff --git a/brel/parsers/XML/networks/xml_footnote_network_factory.py b/brel/parsers/XML/networks/xml_footnote_network_factory.py
index c00247a..979d451 100644
--- a/brel/parsers/XML/networks/xml_footnote_network_factory.py
+++ b/brel/parsers/XML/networks/xml_footnote_network_factory.py
@@ -20,6 +20,7 @@ import lxml.etree
 
 from brel.brel_fact import Fact
 from brel.data.errors.error_repository import ErrorRepository
+from brel.errors.error_code import ErrorCode
 from brel.networks import (
     FootnoteNetwork,
     FootnoteNetworkNode,
@@ -106,9 +107,12 @@ class FootnoteNetworkFactory(IXMLNetworkFactory):
         link_name = qname_from_str(xml_link.tag, xml_link)
 
         if isinstance(points_to, IResource) and not isinstance(points_to, BrelFootnote):
-            raise ValueError(
-                f"points_to must be of type BreelFootnote, not {type(points_to)}"
+            error_repository.insert(
+                ErrorCode.XML_UNSUPPORTED_REFERENCED_ELEMENT_TYPE,
+                xml_referenced_element,
+                type=type(points_to).__name__,
             )
+            return None
 
         return FootnoteNetworkNode(
             points_to, [], arc_role, arc_qname, link_role, link_name, order
diff --git a/brel/parsers/XML/networks/xml_label_network_factory.py b/brel/parsers/XML/networks/xml_label_network_factory.py
index 80f489d..beeff1c 100644
--- a/brel/parsers/XML/networks/xml_label_network_factory.py
+++ b/brel/parsers/XML/networks/xml_label_network_factory.py
@@ -18,6 +18,7 @@ from lxml.etree import _Element  # type: ignore
 
 from brel.brel_fact import Fact
 from brel.data.errors.error_repository import ErrorRepository
+from brel.errors.error_code import ErrorCode
 from brel.networks import (
     INetwork,
     INetworkNode,
@@ -84,9 +85,12 @@ class LabelNetworkFactory(IXMLNetworkFactory):
         if not isinstance(points_to, BrelLabel) and not isinstance(
             points_to, IReportElement
         ):
-            raise TypeError(
-                f"'points_to' must be of type BrelLabel or IReportElement, not {type(points_to)}"
+            error_repository.insert(
+                ErrorCode.XML_UNSUPPORTED_REFERENCED_ELEMENT_TYPE,
+                xml_referenced_element,
+                type=type(points_to).__name__,
             )
+            return None
 
         return LabelNetworkNode(points_to, arc_role, arc_qname, link_role, link_name)
 
diff --git a/brel/parsers/XML/networks/xml_presentation_network_factory.py b/brel/parsers/XML/networks/xml_presentation_network_factory.py
index a3a0bbd..e1259f3 100644
--- a/brel/parsers/XML/networks/xml_presentation_network_factory.py
+++ b/brel/parsers/XML/networks/xml_presentation_network_factory.py
@@ -19,6 +19,7 @@ import lxml.etree
 
 from brel.brel_fact import Fact
 from brel.data.errors.error_repository import ErrorRepository
+from brel.errors.error_code import ErrorCode
 from brel.networks import (
     INetwork,
     INetworkNode,
@@ -123,9 +124,12 @@ class PresentationNetworkFactory(IXMLNetworkFactory):
 
         # check if 'points_to' is a ReportElement
         if not isinstance(points_to, IReportElement):
-            raise TypeError(
-                f"points_to must be of type IReportElement, not {type(points_to)}"
+            error_repository.insert(
+                ErrorCode.XML_UNSUPPORTED_REFERENCED_ELEMENT_TYPE,
+                xml_referenced_element,
+                type=type(points_to).__name__,
             )
+            return None
 
         return PresentationNetworkNode(
             points_to,
diff --git a/brel/parsers/XML/networks/xml_reference_network_factory.py b/brel/parsers/XML/networks/xml_reference_network_factory.py
index 0886d1a..b8df69b 100644
--- a/brel/parsers/XML/networks/xml_reference_network_factory.py
+++ b/brel/parsers/XML/networks/xml_reference_network_factory.py
@@ -18,6 +18,7 @@ import lxml.etree
 
 from brel.brel_fact import Fact
 from brel.data.errors.error_repository import ErrorRepository
+from brel.errors.error_code import ErrorCode
 from brel.networks import (
     INetwork,
     INetworkNode,
@@ -104,9 +105,12 @@ class ReferenceNetworkFactory(IXMLNetworkFactory):
         if not isinstance(points_to, IReportElement) and not isinstance(
             points_to, BrelReference
         ):
-            raise TypeError(
-                f"When creating a reference network, points_to must be of type IReportElement or BrelReference, not {type(points_to)}"
+            error_repository.insert(
+                ErrorCode.XML_UNSUPPORTED_REFERENCED_ELEMENT_TYPE,
+                xml_referenced_element,
+                type=type(points_to).__name__,
             )
+            return None
 
         return ReferenceNetworkNode(
             points_to, [], arc_role, arc_qname, link_role, link_name, order
-- 
2.43.0


From 70417faa9869246a0b255df42d76bdcb65ba98e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:53 +0000
Subject: [PATCH 19/92] fix: tolerate labels without arcs and label arcs
 between report elements

---
 brel/parsers/XML/networks/xml_label_network_factory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_label_network_factory.py b/brel/parsers/XML/networks/xml_label_network_factory.py
index beeff1c..9747f96 100644
--- a/brel/parsers/XML/networks/xml_label_network_factory.py
+++ b/brel/parsers/XML/networks/xml_label_network_factory.py
@@ -109,14 +109,15 @@ class LabelNetworkFactory(IXMLNetworkFactory):
             if not isinstance(root, LabelNetworkNode):
                 raise TypeError("roots must all be of type LabelNetworkNode")
             if not root.points_to() == "report element":
-                raise ValueError(f"root {root} is not a report element")
+                # a label that no arc connects to a report element labels nothing
+                continue
 
             report_element = root.get_report_element()
             for label_node in root.get_children():
                 if not isinstance(label_node, LabelNetworkNode):
                     raise TypeError("children must all be of type LabelNetworkNode")
                 if not label_node.points_to() == "resource":
-                    raise ValueError(f"child {label_node} is not a resource")
+                    continue
 
                 label = label_node.get_resource()
 
-- 
2.43.0


From 8d03f8a2be6407c5f1a96337d5d5957ea16c1b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:14 +0000
Subject: [PATCH 20/92] fix: give resources their default role and all of their
 text, ignore comments in references

---
 .../XML/networks/xml_resource_parser.py       | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_resource_parser.py b/brel/parsers/XML/networks/xml_resource_parser.py
index 2135f6f..4313769 100644
--- a/brel/parsers/XML/networks/xml_resource_parser.py
+++ b/brel/parsers/XML/networks/xml_resource_parser.py
@@ -18,9 +18,20 @@ from brel.resource import IResource, BrelFootnote, BrelLabel, BrelReference
 from brel.parsers.utils.lxml_utils import (
     get_elem_lang_recursive,
     get_str_attribute,
+    get_str_attribute_optional,
     get_clark_notation_tag,
 )
 
+STANDARD_FOOTNOTE_ROLE = "http://www.xbrl.org/2003/role/footnote"
+STANDARD_REFERENCE_ROLE = "http://www.xbrl.org/2003/role/reference"
+
+
+def get_text(xml_element: _Element) -> str:
+    """
+    :returns str: the text of the element including the text in nested markup, but without comments
+    """
+    return str(xml_element.xpath("string()"))
+
 
 def parse_xml_resource(
     xml_element: _Element, filing_context: FilingContext
@@ -31,7 +42,7 @@ def parse_xml_resource(
         raise ValueError("The xlink:type is not resource")
 
     label = get_str_attribute(xml_element, "xlink:label")
-    role = get_str_attribute(xml_element, "xlink:role")
+    role = get_str_attribute_optional(xml_element, "xlink:role")
     tag = get_clark_notation_tag(xml_element)
 
     if "label" in tag:
@@ -41,8 +52,8 @@ def parse_xml_resource(
             error_repository.insert(ErrorCode.MISSING_LABEL_LANGUAGE, xml_element)
             return None
 
-        text = xml_element.text if xml_element.text else ""
-        return BrelLabel(text, label, lang, role)
+        text = get_text(xml_element)
+        return BrelLabel(text, label, lang, role or BrelLabel.STANDARD_LABEL_ROLE)
     elif "footnote" in tag:
         lang = get_elem_lang_recursive(xml_element)
 
@@ -52,13 +63,14 @@ def parse_xml_resource(
             )
             return None
 
-        text = xml_element.text or "".join(child.__str__() for child in xml_element)
-        return BrelFootnote(text, label, lang, role)
+        text = get_text(xml_element)
+        return BrelFootnote(text, label, lang, role or STANDARD_FOOTNOTE_ROLE)
     elif "reference" in tag:
         content = {
-            re.sub(r"^\{.*\}", "", child.tag): child.text for child in xml_element
+            re.sub(r"^\{.*\}", "", child.tag): child.text
+            for child in xml_element.iterchildren("*")
         }
-        return BrelReference(content, label, role)
+        return BrelReference(content, label, role or STANDARD_REFERENCE_ROLE)
     else:
         error_repository.insert(
             ErrorCode.XML_UNSUPPORTED_RESOURCE_TAG, xml_element, tag=tag
-- 
2.43.0


From 6dbc943f0422c651b391486275137ee11c8ab9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:31 +0000
Subject: [PATCH 21/92] fix: keep the orders of definition arcs exact

---
 brel/parsers/XML/networks/xml_definition_network_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XML/networks/xml_definition_network_factory.py b/brel/parsers/XML/networks/xml_definition_network_factory.py
index 2af3129..bbff922 100644
--- a/brel/parsers/XML/networks/xml_definition_network_factory.py
+++ b/brel/parsers/XML/networks/xml_definition_network_factory.py
@@ -148,7 +148,7 @@ class LogicalDefinitionNetworkFactory(IXMLNetworkFactory):
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif get_str_attribute(xml_arc, "xlink:to") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0).__round__()
+            order = float(xml_arc.attrib.get("order") or 0.0)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
-- 
2.43.0


From e8ae6c572114a6452460d94ef65fe75e91e5eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:31 +0000
Subject: [PATCH 22/92] fix: list the nodes and arc roles of networks in a
 repeatable order

---
 brel/networks/i_network.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/brel/networks/i_network.py b/brel/networks/i_network.py
index 2baa6dd..35cd6ff 100644
--- a/brel/networks/i_network.py
+++ b/brel/networks/i_network.py
@@ -23,7 +23,7 @@ They are all implemented in the same way as the calculation network and can be i
 """
 
 from abc import ABC
-from typing import Any, Dict, Set
+from typing import Any, Dict
 
 from brel import QName
 from brel.networks import INetworkNode
@@ -86,7 +86,9 @@ class INetwork(ABC):
         Get all the arc roles that are used by nodes in the network
         :returns list[str]: list of all arc roles that are used by nodes in the network
         """
-        arc_role_set = set([node.get_arc_role() for node in self.get_all_nodes()])
+        arc_role_set = dict.fromkeys(
+            node.get_arc_role() for node in self.get_all_nodes()
+        )
         return list(arc_role_set)
 
     def get_arc_name(self) -> QName | None:
@@ -118,21 +120,21 @@ class INetwork(ABC):
         :returns list[NetworkNode]: containing all nodes in the network
         """
 
-        # create a set to store all nodes in
-        nodes: Set[INetworkNode] = set()
+        # create a dict to store all nodes in, in document order
+        nodes: Dict[INetworkNode, None] = {}
 
-        # recursive function to add all children of a node to the nodes set
+        # recursive function to add all children of a node to the nodes
         def add_children(node: INetworkNode) -> None:
-            nodes.add(node)
+            nodes[node] = None
             for child in node.get_children():
                 add_children(child)
 
-        # add all children of the root node to the nodes set
+        # add all children of the root node to the nodes
         roots: list[INetworkNode] = self.get_roots()
         for root in roots:
             add_children(root)
 
-        # return the nodes set as a list
+        # return the nodes as a list
         return list(nodes)
 
     def convert_to_dict(self) -> Dict[str, Any]:
-- 
2.43.0


From 7c27216fa58c6bb8b022cd3929929d4066d984ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:31 +0000
Subject: [PATCH 23/92] fix: merge networks of one role independently of the
 order of their links

---
 brel/parsers/utils/network_utils.py | 133 ++++++++++++++++------------
 1 file changed, 77 insertions(+), 56 deletions(-)

diff --git a/brel/parsers/utils/network_utils.py b/brel/parsers/utils/network_utils.py
index d6b369d..adf1ecf 100644
--- a/brel/parsers/utils/network_utils.py
+++ b/brel/parsers/utils/network_utils.py
@@ -1,7 +1,9 @@
-from brel.networks import INetwork, INetworkNode
-
-# from brel.utils import pprint
-from functools import cmp_to_key
+from brel.networks import (
+    CalculationNetworkNode,
+    INetwork,
+    INetworkNode,
+    PresentationNetworkNode,
+)
 
 
 def nodes_equal(self: INetworkNode, other: INetworkNode) -> bool:
@@ -28,6 +30,61 @@ def nodes_equal(self: INetworkNode, other: INetworkNode) -> bool:
         return False
 
 
+def relations_equal(self: INetworkNode, other: INetworkNode) -> bool:
+    # checks if two nodes point to the same thing and are related to their parents in the same way
+    if not nodes_equal(self, other):
+        return False
+
+    if self.get_arc_role() != other.get_arc_role():
+        return False
+
+    if self.get_order() != other.get_order():
+        return False
+
+    if isinstance(self, PresentationNetworkNode) and isinstance(
+        other, PresentationNetworkNode
+    ):
+        return self.get_preferred_label_role() == other.get_preferred_label_role()
+
+    if isinstance(self, CalculationNetworkNode) and isinstance(
+        other, CalculationNetworkNode
+    ):
+        return self.get_weight() == other.get_weight()
+
+    return True
+
+
+def merge_children(target: INetworkNode, source: INetworkNode) -> None:
+    """
+    Adds the children of the source to the target. Children that the target already has are merged recursively.
+    """
+    for child in source.get_children():
+        equal_child = next(
+            (c for c in target.get_children() if relations_equal(c, child)), None
+        )
+        if equal_child is None:
+            target._add_child(child)
+        elif equal_child is not child:
+            merge_children(equal_child, child)
+
+
+def find_equal_node(
+    node: INetworkNode, candidates: list[INetworkNode]
+) -> INetworkNode | None:
+    """
+    :returns INetworkNode | None: the first node equal to the given node among the candidates and their descendants
+    """
+    for candidate in candidates:
+        if nodes_equal(candidate, node):
+            return candidate
+
+        equal_node = find_equal_node(node, candidate.get_children())
+        if equal_node is not None:
+            return equal_node
+
+    return None
+
+
 def combine_networks(networks: list[INetwork]) -> INetwork:
     """
     Combine a list of networks into one network.
@@ -38,59 +95,23 @@ def combine_networks(networks: list[INetwork]) -> INetwork:
     if len(networks) == 0:
         raise ValueError("No networks provided.")
 
-    # this algorithm works with the following steps:
-    # 1. Get an order of the networks. Networks closer to the root come first.
-    # 2. Create an empty aggregate network.
-    # 3. For each network in the order, add the roots to the aggregate network nodes as children.
-
     if len(networks) == 1:
         return networks[0]
 
-    # Step 1. sort the networks by prerequisite
-
-    def is_prerequisite(n1: INetwork, n2: INetwork) -> int:
-        # n1 is a prerequisite of n2 if all roots of n2 are in n1
-        # and if the roots of n2 are not a subset of the roots of n1
-        n1_roots = n1.get_roots()
-        n2_roots = n2.get_roots()
-
-        n1_nodes = n1.get_all_nodes()
-
-        result = all((n2_root in n1_nodes for n2_root in n2_roots)) and not all(
-            (n2_root in n1_roots for n2_root in n2_roots)
-        )
-
-        if result:
-            return -1
+    # this algorithm works with the following steps:
+    # 1. Collect the roots of all networks.
+    # 2. Move the children of each root that also occurs below another root to where it occurs.
+    # The result does not depend on the order of the networks.
+    roots = [root for network in networks for root in network.get_roots()]
+    combined_roots: list[INetworkNode] = []
+    while len(roots) > 0:
+        root = roots.pop(0)
+        equal_node = find_equal_node(root, combined_roots + roots)
+        if equal_node is None:
+            combined_roots.append(root)
         else:
-            return 1
-
-    networks_sorted = networks.copy()
-    sorted(networks_sorted, key=cmp_to_key(is_prerequisite))
-
-    # Step 2. Make an aggregate network.
-    # In this case we re-use the first network as the aggregate network.
-    agg_network = networks_sorted.pop()
-    agg_roots = agg_network.get_roots()
-
-    def get_all_nodes():
-        all_nodes = []
-        for root in agg_roots:
-            all_nodes.extend(root.get_all_descendants())
-        return all_nodes
-
-    # Step 3. Add the roots of each network to the aggregate network.
-    # if there is a node in the aggregate network that fits, then add the children of the root to that node.
-    # otherwise, add the root to the aggregate networks roots.
-    while len(networks_sorted) > 0:
-        network = networks_sorted.pop()
-        aggregate_nodes = get_all_nodes()
-        for root in network.get_roots():
-            parent = next((n for n in aggregate_nodes if nodes_equal(n, root)), None)
-            if parent is None:
-                agg_roots.append(root)
-            else:
-                for child in root.get_children():
-                    parent._add_child(child)
-
-    return agg_network
+            merge_children(equal_node, root)
+
+    combined_network = networks[0]
+    combined_network.get_roots()[:] = combined_roots
+    return combined_network
-- 
2.43.0


From 63a3e309122e2247ada3527c22c654b3b3a387f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:09 +0000
Subject: [PATCH 24/92] fix: check aggregation at every level, exactly, and
 only among facts with the same dimensions

---
 brel/networks/calculation_network.py | 36 ++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index 4b37881..85d27a5 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -14,6 +14,8 @@ Calculation networks also contain helper functions for checking the consistency
 
 DEBUG = False
 
+from decimal import Decimal
+from fractions import Fraction
 from typing import Iterable, cast
 
 from brel import Fact, QName
@@ -110,6 +112,14 @@ class CalculationNetwork(INetwork):
         :returns bool: True iff the network is aggregation consistent
         """
 
+        def get_exact_value(fact: Fact) -> Fraction:
+            try:
+                return Fraction(Decimal(fact.get_value_as_str()))
+            except (ArithmeticError, ValueError):
+                raise ValueError(
+                    f"Fact {fact.get_id()} does not have a numeric value. It has value {fact.get_value_as_str()}"
+                )
+
         def is_subnetwork_aggregation_consistent(
             node: CalculationNetworkNode,
         ) -> bool:
@@ -135,19 +145,23 @@ class CalculationNetwork(INetwork):
             )
 
             for node_fact in node_facts:
-                node_value = float(node_fact)
+                node_value = get_exact_value(node_fact)
 
                 if DEBUG:  # pragma: no cover
                     print(f"{node_fact._get_id()}: {node_value} = ", end=" ")
 
                 # get the sum of the children values
-                children_sum: float = 0
+                children_sum = Fraction(0)
                 for child in node.get_children():
                     child = cast(CalculationNetworkNode, child)
                     child_concept = child.get_concept()
 
                     # child facts are all facts with the same characteristics as the node fact, except for the concept
-                    child_facts: Iterable[Fact] = facts
+                    # in particular, they do not have additional dimensions
+                    node_aspects = set(node_fact.get_aspects())
+                    child_facts: Iterable[Fact] = [
+                        fact for fact in facts if set(fact.get_aspects()) == node_aspects
+                    ]
                     for node_aspect in node_fact.get_aspects():
                         # if the aspect is the concept, then get all fact with the child_concept as the concept characteristic
                         if node_aspect == Aspect.CONCEPT:
@@ -189,11 +203,13 @@ class CalculationNetwork(INetwork):
 
                     child_fact = all_child_facts[0]
 
-                    children_sum += float(child_fact) * child.get_weight()
+                    # str yields the decimal number the weight was given as
+                    weight = Fraction(str(child.get_weight()))
+                    children_sum += get_exact_value(child_fact) * weight
 
                     if DEBUG:  # pragma: no cover
                         print(
-                            f"+ {child_fact._get_id()}: {float(child_fact)} * {child.get_weight()}",
+                            f"+ {child_fact._get_id()}: {get_exact_value(child_fact)} * {child.get_weight()}",
                             end=" ",
                         )
 
@@ -206,11 +222,11 @@ class CalculationNetwork(INetwork):
                 if node_value != children_sum:
                     return False
 
-                # check the children
-                for child in node.get_children():
-                    child = cast(CalculationNetworkNode, child)
-                    if not is_subnetwork_aggregation_consistent(child):
-                        return False
+            # check the children, even if there are no facts for the concept of this node
+            for child in node.get_children():
+                child = cast(CalculationNetworkNode, child)
+                if not is_subnetwork_aggregation_consistent(child):
+                    return False
 
             return True
 
-- 
2.43.0


From eee079dc83af67a04b863b5001ddf248cb8bf1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:47 +0000
Subject: [PATCH 25/92] fix: apply the system and report language parameters as
 named

---
 brel/brel_filing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 80ff7b5..a13ffb7 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -567,9 +567,9 @@ class Filing:
 
         languages = self.get_preferred_languages(
             kwargs.get("languages"),
-            allow_system_language,
-            allow_report_language,
-            allow_default,
+            allow_report_language=allow_report_language,
+            allow_system_language=allow_system_language,
+            allow_default=allow_default,
         )
 
         return OutputParams(
-- 
2.43.0


From b4554c5d2949691091884385196dafafcea3f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:58 +0000
Subject: [PATCH 26/92] fix: generate unmixed tables in the first available
 language only

---
 brel/brel_filing.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index a13ffb7..5a68634 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -517,13 +517,15 @@ class Filing:
                 data.append(d)
         else:
             for language in output_params["languages"]:
-                for element in elements:
-                    try:
-                        d = element.convert_to_dict([language], translation_service)
-                        data.append(d)
-                    except:
-                        data = []
-                        break
+                try:
+                    data = [
+                        element.convert_to_dict([language], translation_service)
+                        for element in elements
+                    ]
+                    # the first language that is available for everything is used
+                    break
+                except (KeyError, ValueError):
+                    continue
 
         df = pd.DataFrame(data)
         return df
-- 
2.43.0


From f5c586a2bb8fba89d42c325a882cddd6f131139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:58 +0000
Subject: [PATCH 27/92] fix: find the translations independently of the working
 directory

---
 brel/config/brel_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index 0b26753..ec01ee9 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -1,3 +1,4 @@
+from importlib.resources import files
 from locale import getdefaultlocale
 from typing import List, Optional, Unpack, cast
 
@@ -44,4 +45,4 @@ class BrelConfig:
 
     @classmethod
     def get_translations_filepath(cls) -> str:
-        return "./brel/config/translations.csv"
+        return str(files("brel.config").joinpath("translations.csv"))
-- 
2.43.0


From 798845406bbf734ba85d687c269d161ac4b791d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:12 +0000
Subject: [PATCH 28/92] fix: write the system language the way labels write
 languages

---
 brel/config/brel_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index ec01ee9..f6beed1 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -41,7 +41,8 @@ class BrelConfig:
     @classmethod
     def get_system_language(cls) -> Optional[str]:
         locale, _ = getdefaultlocale()
-        return locale
+        # languages are written like in xml:lang, e.g. en-US instead of en_US
+        return locale.replace("_", "-") if locale else None
 
     @classmethod
     def get_translations_filepath(cls) -> str:
-- 
2.43.0


From 8aa44daa833166bac06b1b0d74f9d21b892193bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:12 +0000
Subject: [PATCH 29/92] fix: read the files of a folder in a repeatable order

---
 brel/parsers/path_loaders/folder_path_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/path_loaders/folder_path_loader.py b/brel/parsers/path_loaders/folder_path_loader.py
index 2ebb8ac..b343e71 100644
--- a/brel/parsers/path_loaders/folder_path_loader.py
+++ b/brel/parsers/path_loaders/folder_path_loader.py
@@ -35,7 +35,7 @@ class FolderPathLoader(PathLoader):
 
         path_parts = path.split(splitting_char)
         files_and_folders = [
-            "/".join(path_parts + [dir_item]) for dir_item in os.listdir(path)
+            "/".join(path_parts + [dir_item]) for dir_item in sorted(os.listdir(path))
         ]
 
         files = [
-- 
2.43.0


From 32d6a10ff1ab3026119423b226870a284efd8417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:12 +0000
Subject: [PATCH 30/92] fix: open single inline files with the extensions that
 folders already accept

---
 brel/parsers/path_loaders/file_path_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/path_loaders/file_path_loader.py b/brel/parsers/path_loaders/file_path_loader.py
index 0cdba76..03b8f08 100644
--- a/brel/parsers/path_loaders/file_path_loader.py
+++ b/brel/parsers/path_loaders/file_path_loader.py
@@ -22,7 +22,7 @@ class FilePathLoader(PathLoader):
         :param path: The file path to check.
         :returns: True if the loader can handle the path, False otherwise.
         """
-        if path.endswith((".xml", ".xhtml")):
+        if path.endswith((".xml", ".xhtml", ".htm", ".html")):
             if os.path.isfile(path):
                 return True
             if path.startswith(("http://", "https://")):
-- 
2.43.0


From f7f37bb914295246e70fc119a6dc7afec37e39d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:33 +0000
Subject: [PATCH 31/92] fix: extract zipped filings, so that their files can be
 read

---
 brel/parsers/path_loaders/zip_path_loader.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/path_loaders/zip_path_loader.py b/brel/parsers/path_loaders/zip_path_loader.py
index b955013..c4d0e26 100644
--- a/brel/parsers/path_loaders/zip_path_loader.py
+++ b/brel/parsers/path_loaders/zip_path_loader.py
@@ -8,6 +8,12 @@
 ====================
 """
 
+import atexit
+import shutil
+import tempfile
+import zipfile
+
+from brel.parsers.path_loaders.folder_path_loader import FolderPathLoader
 from brel.parsers.path_loaders.path_loader import PathLoader
 
 
@@ -16,9 +22,11 @@ class ZipPathLoader(PathLoader):
         return path.endswith(".zip")
 
     def load(self, path: str) -> list[str]:
-        import zipfile
+        # the files are read after loading, so they are kept until the program ends
+        directory = tempfile.mkdtemp(prefix="brel_zip_")
+        atexit.register(shutil.rmtree, directory, ignore_errors=True)
 
         with zipfile.ZipFile(path, "r") as zip_ref:
-            file_list = zip_ref.namelist()
-            # More extensions?
-            return [file for file in file_list if file.endswith((".xml", ".xhtml"))]
+            zip_ref.extractall(directory)
+
+        return FolderPathLoader().load(directory)
-- 
2.43.0


From 24973f016ca2ef6cc5effdc5354d2952f813d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:33 +0000
Subject: [PATCH 32/92] fix: keep absolute replacements in catalogs absolute

---
 brel/parsers/XML/xml_parse_catalog.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brel/parsers/XML/xml_parse_catalog.py b/brel/parsers/XML/xml_parse_catalog.py
index 1dab1ff..a3e53cc 100644
--- a/brel/parsers/XML/xml_parse_catalog.py
+++ b/brel/parsers/XML/xml_parse_catalog.py
@@ -40,6 +40,10 @@ def parse_catalog_xml(
 
         original_strings.add(original_string)
 
+        if replacement_string.startswith(("http://", "https://")):
+            uri_rewrite_repository.upsert(original_string, replacement_string)
+            continue
+
         replacement_string_pieces = replacement_string.split("/")
 
         complete_replacement_string = "/".join(
-- 
2.43.0


From 51dd3b3d01596c12a764f394730475088f9f3239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:56 +0000
Subject: [PATCH 33/92] fix: tolerate comments and processing instructions
 anywhere in a document

---
 brel/services/factory.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/brel/services/factory.py b/brel/services/factory.py
index 9c5584e..1149fc5 100644
--- a/brel/services/factory.py
+++ b/brel/services/factory.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+from lxml.etree import XMLParser
 from lxml.etree import parse as parse_xml
 from lxml.html import html5parser
 from requests import Session
@@ -50,7 +51,9 @@ def create_xml_service(
 
 
 def create_xml_file_parser_resolver() -> XMLFileParserResolver:
+    # comments and processing instructions are not part of a filing's content
+    parser = XMLParser(remove_comments=True, remove_pis=True)
     return XMLFileParserResolver(
-        lambda content: parse_xml(content),
-        lambda content: parse_xml(content),
+        lambda content: parse_xml(content, parser),
+        lambda content: parse_xml(content, parser),
     )
-- 
2.43.0


From 5d01f9999a9cb1e35c87821dd7961f7199fdc9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:07 +0000
Subject: [PATCH 34/92] fix: end continuation chains at reused continuations
 instead of looping

---
 brel/parsers/XHMTL/elements/parse_continuation_chain.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index 20504bc..d53474c 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -80,6 +80,8 @@ def create_continuation_chains(
                     element_id=get_str_attribute_optional(element, "id"),
                 )
 
+                break
+
             continuation = continuation_element_index.get(continued_at)
             if continuation is None:
                 error_repository.insert(
@@ -109,9 +111,9 @@ def create_continuation_chains(
                         parent_id=get_str_attribute_optional(element, "id"),
                     )
 
-    unused_continuation_elements = list(
-        set(continuation_element_index.keys()) - used_continuation_ids
-    )
+    unused_continuation_elements = [
+        id for id in continuation_element_index if id not in used_continuation_ids
+    ]
     if len(unused_continuation_elements) > 0:
         error_repository.insert(
             ErrorCode.IXBRL_UNUSED_CONTINUATION_ELEMENTS,
-- 
2.43.0


From b444c95790c34ec3d151bf7dacb86586b7a08327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:07 +0000
Subject: [PATCH 35/92] fix: report inline contexts and units without ids
 instead of failing

---
 brel/parsers/XHMTL/xhtml_parse_facts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_facts.py b/brel/parsers/XHMTL/xhtml_parse_facts.py
index 60de3c1..3ffe7bc 100644
--- a/brel/parsers/XHMTL/xhtml_parse_facts.py
+++ b/brel/parsers/XHMTL/xhtml_parse_facts.py
@@ -92,7 +92,7 @@ def parse_contexts(
 
         if id is None:
             error_repository.insert(ErrorCode.IXBRL_CONTEXT_WITHOUT_ID, context_element)
-            id = str(id)
+            continue
 
         if id in taken_ids:
             error_repository.insert(
@@ -122,13 +122,14 @@ def parse_units(
 
         if id is None:
             error_repository.insert(ErrorCode.IXBRL_UNIT_WITHOUT_ID, unit_element)
+            continue
 
         if id in taken_ids:
             error_repository.insert(
                 ErrorCode.IXBRL_DUPLICATE_ELEMENT_ID, unit_element, id=id
             )
 
-        taken_ids.add(str(id))
+        taken_ids.add(id)
 
         unit = parse_unit_from_xml(filing_context, unit_element)
         if not unit:
-- 
2.43.0


From 461ef573ea569ce7cc5f2b2531c07a61ab408aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:07 +0000
Subject: [PATCH 36/92] fix: find inline elements whose namespace is not
 declared on the root element

---
 brel/parsers/XHMTL/xhtml_parse_facts.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_facts.py b/brel/parsers/XHMTL/xhtml_parse_facts.py
index 3ffe7bc..fb3d720 100644
--- a/brel/parsers/XHMTL/xhtml_parse_facts.py
+++ b/brel/parsers/XHMTL/xhtml_parse_facts.py
@@ -142,10 +142,13 @@ def parse_instance_elements(
     etrees: list[_Element],
 ) -> Tuple[List[_Element], List[_Element], List[_Element]]:
     fact_elements, footnote_elements, continuation_elements = [], [], []
+    namespaces = {"ix": "http://www.xbrl.org/2013/inlineXBRL"}
     for xbrl_instance in etrees:
-        facts = find_elements(xbrl_instance, ".//ix:nonNumeric | .//ix:nonFraction")
-        footnotes = find_elements(xbrl_instance, ".//ix:footnote")
-        continuations = find_elements(xbrl_instance, ".//ix:continuation")
+        facts = find_elements(
+            xbrl_instance, ".//ix:nonNumeric | .//ix:nonFraction", namespaces
+        )
+        footnotes = find_elements(xbrl_instance, ".//ix:footnote", namespaces)
+        continuations = find_elements(xbrl_instance, ".//ix:continuation", namespaces)
 
         fact_elements += facts
         footnote_elements += footnotes
-- 
2.43.0


From 99ebf408c4ddd1adff2a29020a7f089052d0e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:07 +0000
Subject: [PATCH 37/92] fix: transform the number of nested inline numeric
 facts for the outer fact, too

---
 .../XHMTL/elements/parse_non_fraction.py      | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 219ea8f..e5bb62a 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -82,7 +82,7 @@ def validate_descendant_non_fraction_rules(
 
 
 def process_non_fraction_value(
-    fact_element: _Element, error_repository: ErrorRepository
+    fact_element: _Element, text: str | None, error_repository: ErrorRepository
 ) -> str:
     format = get_str_attribute_optional(fact_element, "format")
     scale = get_str_attribute_optional(fact_element, "scale")
@@ -95,7 +95,7 @@ def process_non_fraction_value(
 
         sign = None  # Ignore sign
 
-    fact_value = fact_element.text
+    fact_value = text
 
     if not fact_value:
         fact_value = ""
@@ -195,8 +195,15 @@ def parse_non_fraction_fact_element(
     element_text = fact_element.text
     element_children = [child for child in fact_element]
 
-    has_text = element_text != None or any([child.tail for child in element_children])
     has_children = len(element_children) > 0
+    if has_children:
+        # White space around a nested element is no text of its own
+        has_text = any(
+            text and text.strip()
+            for text in [element_text] + [child.tail for child in element_children]
+        )
+    else:
+        has_text = element_text != None
 
     if has_text and has_children:
         error_repository.insert(
@@ -221,7 +228,9 @@ def parse_non_fraction_fact_element(
     if xsi_nil == "true":
         fact_value = ""
     elif has_text:
-        fact_value = process_non_fraction_value(fact_element, error_repository)
+        fact_value = process_non_fraction_value(
+            fact_element, fact_element.text, error_repository
+        )
     else:
         if len(element_children) > 1:
             error_repository.insert(
@@ -236,7 +245,16 @@ def parse_non_fraction_fact_element(
                 child_tag=child_tag,
             )
 
-        # Input whole element as fact value
-        fact_value = etree.tostring(element_children[0]).decode()
+            # Input whole element as fact value
+            fact_value = etree.tostring(element_children[0], encoding="unicode")
+        else:
+            # The nested element displays the number of both facts
+            innermost = element_children[0]
+            while len(innermost) > 0 and not (innermost.text or "").strip():
+                innermost = innermost[0]
+
+            fact_value = process_non_fraction_value(
+                fact_element, innermost.text, error_repository
+            )
 
     return Fact(context, fact_value, id, decimals, precision)
-- 
2.43.0


From b6727ee45c4b15a3a3a4208fd4914c5a62ad8649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:07 +0000
Subject: [PATCH 38/92] fix: report zero as 0 and numbers without digits as
 errors

---
 brel/parsers/XHMTL/elements/parse_non_fraction.py         | 2 +-
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index e5bb62a..6cc644f 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -131,7 +131,7 @@ def process_non_fraction_value(
         fact_value, format, scale, fact_element, error_repository
     )
 
-    if sign == "-":
+    if sign == "-" and parsed_value:
         parsed_value = "-" + parsed_value
 
     return parsed_value
diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index c268cd7..65e936c 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -916,7 +916,7 @@ def match_regex_numerical_fact_value(
         return None
 
     match = re.match(number_format_regex, fact_value)
-    if not match:
+    if not match or not any(c.isdigit() for c in fact_value):
         error_repository.insert(
             ErrorCode.NUMBER_DOES_NOT_MATCH_EXPECTED_FORMAT,
             element,
@@ -994,7 +994,7 @@ def normalize_numerical_fact_value(fact_value: str) -> str:
     fact_value = fact_value.lstrip("0")
 
     # Add leading zero if necessary
-    if fact_value.startswith("."):
+    if fact_value == "" or fact_value.startswith("."):
         fact_value = "0" + fact_value
 
     return fact_value
-- 
2.43.0


From aa9053b209f074b0d491dba99b900146eb571feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:07 +0000
Subject: [PATCH 39/92] fix: read a single digit of minor units as hundredths

---
 .../XHMTL/xhtml_parse_transformation_registry.py      | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 65e936c..30ab10c 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -962,11 +962,16 @@ def process_numerical_fact_value(
     fact_scale: str,
     element: _Element,
     error_repository: ErrorRepository,
+    is_unit_format: bool = False,
 ) -> str:
     # Parse whole and decimal parts
     whole_part = process_number_part(match.group(1))
     decimal_part = process_number_part(match.group(2))
 
+    # The minor units of a number in words are hundredths, even if they are a single digit
+    if is_unit_format:
+        decimal_part = decimal_part.zfill(2)
+
     # Parse the scale
     scale = 0
     try:
@@ -1033,7 +1038,11 @@ def parse_numerical_fact_value(
         return fact_value
 
     fact_value = process_numerical_fact_value(
-        match, fact_scale, element, error_repository
+        match,
+        fact_scale,
+        element,
+        error_repository,
+        is_unit_format=fact_format.startswith("ixt:num-unit-decimal"),
     )
     fact_value = normalize_numerical_fact_value(fact_value)
 
-- 
2.43.0


From 4db83a63296225515349f127be673740ac3328f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:07 +0000
Subject: [PATCH 40/92] fix: escape the text of marked up inline facts once

---
 .../XHMTL/elements/parse_non_numeric.py        | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index 012e44b..29edee4 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -32,25 +32,13 @@ def convert_escaped_characters(text: str) -> str:
     return text
 
 
-def convert_escaped_characters_recursive(content: _Element) -> None:
-    if content.text is not None:
-        content.text = convert_escaped_characters(content.text)
-
-    if content.tail is not None:
-        content.tail = convert_escaped_characters(content.tail)
-
-    for child in content:
-        convert_escaped_characters_recursive(child)
-
-
 def escape_content(content: _Element) -> str:
-    convert_escaped_characters_recursive(content)
-
     text_nodes = []
-    text_nodes.append(content.text if content.text else "")
+    text_nodes.append(convert_escaped_characters(content.text) if content.text else "")
 
     for child in content:
-        child_str = etree.tostring(child).decode()
+        # Serializing an element already escapes its text and tail
+        child_str = etree.tostring(child, encoding="unicode")
         text_nodes.append(child_str)
 
     full_text = "".join(text_nodes)
-- 
2.43.0


From a3fe48875df67a7cb861594ab9834cbafba1db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:27 +0000
Subject: [PATCH 41/92] fix: support the legacy names of the fixed zero format

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 30ab10c..2f571a3 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -1024,11 +1024,11 @@ def parse_numerical_fact_value(
     :param fact_scale: The scale to apply to the numerical value, represented as a power of 10.
     :return: The parsed and scaled numerical value as a string.
     """
+    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
+
     if fact_format == "ixt:fixed-zero":
         return "0"
 
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
-
     fact_value = fact_value.strip()
     match = match_regex_numerical_fact_value(
         fact_value, fact_format, element, error_repository
-- 
2.43.0


From 3bc5ec60356fc21a25b0c851085a70557e390887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:27 +0000
Subject: [PATCH 42/92] fix: let inline relationships omit their order

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index f6172c7..5a9ecfe 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -203,6 +203,7 @@ def parse_relationship_attributes(
 
     order_str = get_str_attribute_optional(relationship_element, "order")
 
+    order = None
     if order_str:
         try:
             order = float(order_str)
@@ -213,7 +214,7 @@ def parse_relationship_attributes(
                 order=order_str,
             )
 
-    if not order:
+    if order is None:
         order = 1.0
 
     return (arcrole, linkrole, order)
-- 
2.43.0


From 377b4828b029d980c64ab013db617d3e6d2df8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:27 +0000
Subject: [PATCH 43/92] fix: give inline footnote networks their link role
 instead of their arc role

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 5a9ecfe..b577ddb 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -344,7 +344,7 @@ def build_footnote_networks(
         network_arcs[linkrole, arcrole].append(arc)
 
     networks: List[FootnoteNetwork] = []
-    for (_, linkrole), arcs in network_arcs.items():
+    for (linkrole, _), arcs in network_arcs.items():
         network = build_footnote_network(arcs, linkrole, footnotes, fact_repository)
         networks.append(network)
 
-- 
2.43.0


From c6074e66ebd61e08365437f1fbc97b802ad96948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:27 +0000
Subject: [PATCH 44/92] fix: build inline footnote networks in document order

---
 .../networks/xhtml_parse_footnote_network.py  | 32 ++++++++++---------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index b577ddb..b33440a 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -100,7 +100,7 @@ def parse_footnotes(
 
 def parse_relationship_from_and_to_refs(
     relationship_element: _Element, error_repository: ErrorRepository
-) -> Tuple[Set[str], Set[str]]:
+) -> Tuple[List[str], List[str]]:
     fromRefs = get_str_attribute_optional(relationship_element, "fromRefs")
     if not fromRefs:
         error_repository.insert(
@@ -117,15 +117,17 @@ def parse_relationship_from_and_to_refs(
         )
         toRefs = ""
 
-    fromIds, toIds = set(fromRefs.split()), set(toRefs.split())
+    # Repeated ids count once, in the order they are listed
+    fromIds = list(dict.fromkeys(fromRefs.split()))
+    toIds = list(dict.fromkeys(toRefs.split()))
 
     return fromIds, toIds
 
 
 def validate_relationship_from_and_to_refs(
     relationship_element: _Element,
-    fromIds: Set[str],
-    toIds: Set[str],
+    fromIds: List[str],
+    toIds: List[str],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
@@ -225,7 +227,7 @@ def parse_relationship(
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
-) -> Optional[Tuple[Set[str], Set[str], str, str, float]]:
+) -> Optional[Tuple[List[str], List[str], str, str, float]]:
     fromIds, toIds = parse_relationship_from_and_to_refs(
         relationship_element, error_repository
     )
@@ -247,20 +249,20 @@ def parse_relationship(
 
 
 def create_footnote_network_nodes(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ):
-    all_ids = set()
-    internal_ids = set()
+    all_ids: Dict[str, None] = {}
+    internal_ids: Set[str] = set()
 
     # Compute Ids of root nodes
     for from_ids, to_ids, _, _, _ in arcs:
-        all_ids.update(from_ids)
-        all_ids.update(to_ids)
+        all_ids.update(dict.fromkeys(from_ids))
+        all_ids.update(dict.fromkeys(to_ids))
         internal_ids.update(to_ids)
 
-    root_ids = all_ids - internal_ids
+    root_ids = [id for id in all_ids if id not in internal_ids]
 
     id_to_node: Dict[str, FootnoteNetworkNode] = {}
 
@@ -305,7 +307,7 @@ def create_footnote_network_nodes(
 
 
 def connect_footnote_network_nodes(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     id_to_node: Dict[str, FootnoteNetworkNode],
 ):
     for from_ids, to_ids, _, _, _ in arcs:
@@ -316,7 +318,7 @@ def connect_footnote_network_nodes(
 
 
 def build_footnote_network(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     linkrole: str,
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
@@ -330,12 +332,12 @@ def build_footnote_network(
 
 
 def build_footnote_networks(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ) -> List[FootnoteNetwork]:
     network_arcs: Dict[
-        Tuple[str, str], List[Tuple[Set[str], Set[str], str, str, float]]
+        Tuple[str, str], List[Tuple[List[str], List[str], str, str, float]]
     ] = defaultdict(list)
 
     # Group arcs by linkrole and arcrole
-- 
2.43.0


From bfaf186ec667c822a9bf9a505a07c8e9afc2615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:52 +0000
Subject: [PATCH 45/92] fix: leave invalid ids out of inline relationships
 after reporting them

---
 .../networks/xhtml_parse_footnote_network.py     | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index b33440a..14de8fe 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -241,10 +241,26 @@ def parse_relationship(
         error_repository,
     )
 
+    # Leave out the ids reported above, since nothing can be connected by them
+    toIds = [
+        toId
+        for toId in toIds
+        if toId not in fromIds
+        and (toId in footnotes or fact_repository.get_by_id_optional(toId) is not None)
+    ]
+    fromIds = [
+        fromId
+        for fromId in fromIds
+        if fact_repository.get_by_id_optional(fromId) is not None
+    ]
+
     arcrole, linkrole, order = parse_relationship_attributes(
         relationship_element, error_repository
     )
 
+    if not fromIds or not toIds:
+        return None
+
     return (fromIds, toIds, arcrole, linkrole, order)
 
 
-- 
2.43.0


From 2f4d8f3346ff05f59d60661da821550f6e996134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:52 +0000
Subject: [PATCH 46/92] fix: recognise German month names

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 2f571a3..4427eee 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -37,9 +37,9 @@ date_format_to_regex = {
     "ixt:date-day-monthname-da": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-da": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-da": r"^(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthname-de": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
-    "ixt:date-day-monthname-year-de": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthname-year-de": r"^(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthname-de": r"^([0-9]{1,2})[^0-9]+(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]{0,6}$",
+    "ixt:date-day-monthname-year-de": r"^([0-9]{1,2})[^0-9]+(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthname-year-de": r"^(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-el": r"^([0-9]{1,2})[^0-9]+(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΥΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]{0,8}$",
     "ixt:date-day-monthname-year-el": r"^([0-9]{1,2})[^0-9]+(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΎΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-el": r"^(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΎΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-- 
2.43.0


From 0c3120f1929fd60175d74aba0974b878e1b4d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:52 +0000
Subject: [PATCH 47/92] fix: read the day of Slovenian dates

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 4427eee..9a2aeb8 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -97,8 +97,8 @@ date_format_to_regex = {
     "ixt:date-day-monthname-sk": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-sk": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-sk": r"^(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthname-sl": r"^[0-9]{1,2}[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
-    "ixt:date-day-monthname-year-sl": r"^[0-9]{1,2}[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthname-sl": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
+    "ixt:date-day-monthname-year-sl": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-sl": r"^(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-sv": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-sv": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-- 
2.43.0


From 927371d96bb6f376b7ac4fffc6b3ab62d222b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:52 +0000
Subject: [PATCH 48/92] fix: number Dutch, Lithuanian and Welsh months
 correctly

---
 .../xhtml_parse_transformation_registry.py    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 9a2aeb8..a31cff8 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -206,16 +206,16 @@ country_to_month_names = {
     "cy": [
         ["ion"],
         ["chwe"],
-        ["maw"],
+        ["maw", "faw"],
         ["ebr"],
-        ["mai"],
-        ["meh"],
-        ["gor"],
+        ["mai", "fai"],
+        ["meh", "feh"],
+        ["gor", "ngor"],
         ["aws"],
-        ["med"],
+        ["med", "fed", "fedi"],
         ["hyd"],
-        ["tach"],
-        ["rhag"],
+        ["tach", "dach", "nhach", "thach"],
+        ["rhag", "rag"],
     ],
     "da": [
         ["jan"],
@@ -374,8 +374,7 @@ country_to_month_names = {
     "nl": [
         ["jan"],
         ["feb"],
-        ["maa"],
-        ["mrt"],
+        ["maa", "mrt"],
         ["apr"],
         ["mei"],
         ["jun"],
@@ -408,7 +407,8 @@ country_to_month_names = {
         ["geg"],
         ["bir"],
         ["lie"],
-        ["rugp", "rgp", "rugs", "rgs"],
+        ["rugp", "rgp"],
+        ["rugs", "rgs"],
         ["spa", "spl"],
         ["lap"],
         ["gru", "grd"],
-- 
2.43.0


From ea75ad401a4ec878165d11d4784b598c38d4bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:30 +0000
Subject: [PATCH 49/92] fix: read the year of dates with Roman months

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index a31cff8..e166e09 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -64,9 +64,9 @@ date_format_to_regex = {
     "ixt:date-day-monthname-hr": r"^([0-9]{1,2})[^0-9]+(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-hr": r"^([0-9]{1,2})[^0-9]+(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-hr": r"^(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthroman": r"^([0-9]{1,2})[^0-9]*[^XVIxvi]((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))$",
-    "ixt:date-day-monthroman-year": r"^([0-9]{1,2})[^0-9]*[^XVIxvi]((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthroman-year": r"^((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthroman": r"^([0-9]{1,2})[^0-9]*[^XVIxvi](I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})$",
+    "ixt:date-day-monthroman-year": r"^([0-9]{1,2})[^0-9]*[^XVIxvi](I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthroman-year": r"^(I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-it": r"^([0-9]{1,2})[^0-9]+(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-it": r"^([0-9]{1,2})[^0-9]+(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-it": r"^(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-- 
2.43.0


From c9a5bca6ec93b04c4b9e03ea0325e05735e108a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:30 +0000
Subject: [PATCH 50/92] fix: report dates that do not exist instead of failing
 or normalizing them

---
 .../xhtml_parse_transformation_registry.py    | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index e166e09..fb917d1 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -767,7 +767,15 @@ def validate_date_fact_value(
     error_repository: ErrorRepository,
     is_recurring=False,
     is_full_date=False,
-) -> None:
+) -> bool:
+    required_parts = (
+        ["month", "day"]
+        if is_recurring
+        else ["year", "month", "day"]
+        if is_full_date
+        else ["year", "month"]
+    )
+
     if is_recurring:
         if "year" in date_parts:
             error_repository.insert(
@@ -791,7 +799,10 @@ def validate_date_fact_value(
             ErrorCode.DAY_NOT_PRESENT_IN_FULL_DATE, element, date=fact_value
         )
 
-    iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date else '01'}"
+    if any(part not in date_parts for part in required_parts):
+        return False
+
+    iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date or is_recurring else '01'}"
 
     try:
         datetime.date.fromisoformat(iso8601_formatted_string)
@@ -800,12 +811,18 @@ def validate_date_fact_value(
             ErrorCode.INVALID_GREGORIAN_DATE, element, date=fact_value
         )
 
+        return False
+
     if "era" in date_parts:
         if not check_japanese_imperial_date_valid(date_parts):
             error_repository.insert(
                 ErrorCode.INVALID_JAPANESE_IMPERIAL_DATE, element, date=fact_value
             )
 
+            return False
+
+    return True
+
 
 def parse_date_fact_value(
     fact_value: str,
@@ -830,7 +847,7 @@ def parse_date_fact_value(
     )
     date_parts = normalize_date_parts(date_parts, fact_format)
 
-    validate_date_fact_value(
+    is_valid = validate_date_fact_value(
         date_parts,
         is_recurring=is_recurring,
         is_full_date=is_full_date,
@@ -839,6 +856,9 @@ def parse_date_fact_value(
         error_repository=error_repository,
     )
 
+    if not is_valid:
+        return fact_value
+
     if is_full_date:
         return f"{date_parts['year']}-{date_parts['month']}-{date_parts['day']}"
     elif is_recurring:
-- 
2.43.0


From ebd572b2fd35a905e0b415521fa46081368f6a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:30 +0000
Subject: [PATCH 51/92] fix: read Indian dates with month names in the legacy
 format

---
 .../XHMTL/xhtml_parse_transformation_registry.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index fb917d1..ca7ec37 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -1092,15 +1092,17 @@ def parse_non_numerical_fact_value(
     if fact_format.startswith("ixt:date"):
         # Special handling of legacy format
         if fact_format == "ixt:datedaymonthyearin":
-            fact_value_option_1 = parse_date_fact_value(
-                fact_value, "ixt:date-day-month-year", element, error_repository
+            is_numeric = re.search(
+                date_format_to_regex["ixt:date-day-month-year"], fact_value.strip()
             )
-
-            fact_value_option_2 = parse_date_fact_value(
-                fact_value, "ixt:date-day-monthname-year-hi", element, error_repository
+            fact_value = parse_date_fact_value(
+                fact_value,
+                "ixt:date-day-month-year"
+                if is_numeric
+                else "ixt:date-day-monthname-year-hi",
+                element,
+                error_repository,
             )
-
-            fact_value = fact_value_option_1 or fact_value_option_2
         else:
             fact_value = parse_date_fact_value(
                 fact_value, fact_format, element, error_repository
-- 
2.43.0


From aab9f9633def9e20cc527136a5177649b93d14d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:30 +0000
Subject: [PATCH 52/92] fix: convert dates of the Indian national calendar

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index ca7ec37..f9e271c 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -545,7 +545,7 @@ legacy_to_current_formats = {
     # Transformation registries 2 and 3
     "ixt:booleanfalse": "ixt:fixed-false",
     "ixt:booleantrue": "ixt:fixed-true",
-    "ixt:calindaymonthyear": "ixt:date-ind-day-month-year-hi",
+    "ixt:calindaymonthyear": "ixt:date-ind-day-monthname-year-hi",
     "ixt:datedaymonth": "ixt:date-day-month",
     "ixt:datedaymonthdk": "ixt:date-day-monthname-da",
     "ixt:datedaymonthen": "ixt:date-day-monthname-en",
@@ -664,7 +664,8 @@ def convert_japanese_imperial_date_to_gregorian(
 def convert_national_indian_date_to_gregorian(
     date_parts: dict[str, str],
 ) -> dict[str, str]:
-    if len("year") == 2:
+    is_two_digit_year = len(date_parts["year"]) == 2
+    if is_two_digit_year:
         date_parts["year"] = "19" + date_parts["year"]
 
     gregorian_date = indian_civil.to_gregorian(
@@ -674,7 +675,7 @@ def convert_national_indian_date_to_gregorian(
     gregorian_year, gregorian_month, gregorian_day = gregorian_date
 
     # We assume two-digit years fall within 2000 and 2099, as in the specifications
-    if len("year") == 2 and gregorian_year < 2000:
+    if is_two_digit_year and gregorian_year < 2000:
         gregorian_year += 100
 
     date_parts["year"] = str(gregorian_year)
@@ -715,6 +716,7 @@ def normalize_date_parts(
     if "year" in date_parts:
         # special handling of indian national calendar
         if fact_format == "ixt:date-ind-day-monthname-year-hi":
+            normalized_date_parts["year"] = date_parts["year"]
             normalized_date_parts = convert_national_indian_date_to_gregorian(
                 normalized_date_parts
             )
-- 
2.43.0


From f71bf5eb9bf16153dbb7eac961ad6b46a2d41f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:48 +0000
Subject: [PATCH 53/92] fix: report arcs, locators and resources with missing
 or invalid attributes instead of failing

---
 brel/errors/error_code.py                     |  1 +
 brel/errors/error_factory_registry.py         |  7 ++
 .../xml_calculation_network_factory.py        |  2 +-
 .../XML/networks/xml_extended_link_parser.py  | 66 +++++++++++++++++--
 .../xml_presentation_network_factory.py       |  2 +-
 5 files changed, 72 insertions(+), 6 deletions(-)

diff --git a/brel/errors/error_code.py b/brel/errors/error_code.py
index 1ef6a23..373181e 100644
--- a/brel/errors/error_code.py
+++ b/brel/errors/error_code.py
@@ -135,5 +135,6 @@ class ErrorCode(Enum):
         QNAME_NAMESPACE_NOT_IN_ELEMENT_SCOPE,
         QNAME_MISSING_NAMESPACE,
         UNAVAILABLE_REMOTE_FILE,
+    XML_LINK_INVALID_ATTRIBUTE,
         *rest,
     ) = range(1000)
diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 8d691c8..0da64e2 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -745,6 +745,13 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "The arc going from '{arc_from}' to '{arc_to} is defined multiple times.",
         "Remove the duplicate arcs",
     ),
+    ErrorCode.XML_LINK_INVALID_ATTRIBUTE: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.GENERAL_LINKBASE,
+        "403",
+        "The attribute '{attribute}' of an arc, locator or resource is missing or invalid: {value}.",
+        "Add the attribute or correct its value",
+    ),
     ErrorCode.MISSING_LINK_ROLE: lambda: ErrorInstance(
         Severity.ERROR,
         Area.GENERAL_LINKBASE,
diff --git a/brel/parsers/XML/networks/xml_calculation_network_factory.py b/brel/parsers/XML/networks/xml_calculation_network_factory.py
index 84e2e78..5222b7e 100644
--- a/brel/parsers/XML/networks/xml_calculation_network_factory.py
+++ b/brel/parsers/XML/networks/xml_calculation_network_factory.py
@@ -78,7 +78,7 @@ class CalculationNetworkFactory(IXMLNetworkFactory):
         elif get_str_attribute(xml_arc, "xlink:to") == label:
             weight = float(xml_arc.attrib.get("weight") or 0.0)
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(get_str_attribute(xml_arc, "order", "1.0"))
+            order = float(get_str_attribute(xml_arc, "order", "1") or 1)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index cc3e566..e1dc0be 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -19,6 +19,7 @@ from typing import Iterable, Optional
 import lxml.etree
 
 from brel.brel_fact import Fact
+from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 from brel.networks import *
 from brel.parsers.XML.networks import (
@@ -35,6 +36,7 @@ from brel.parsers.XML.networks import (
 from brel.parsers.utils.lxml_utils import (
     find_elements,
     get_str_attribute,
+    get_str_attribute_optional,
     get_clark_notation_tag,
 )
 from brel.reportelements import *
@@ -85,6 +87,46 @@ def get_object_from_reference(
     return locator_target_element
 
 
+def get_valid_elements(
+    xml_link_element: lxml.etree._Element,  # type: ignore
+    xlink_type: str,
+    required_attributes: list[str],
+    error_repository: ErrorRepository,
+) -> list[lxml.etree._Element]:  # type: ignore
+    """
+    :returns: the elements of the given xlink type that have all required attributes and whose order and weight, if given, are numbers. The others are reported.
+    """
+    valid_elements = []
+    for element in find_elements(
+        xml_link_element, f".//*[@xlink:type='{xlink_type}']"
+    ):
+        invalid_attributes = [
+            attribute
+            for attribute in required_attributes
+            if get_str_attribute_optional(element, attribute) is None
+        ]
+
+        for attribute in ["order", "weight"]:
+            value = get_str_attribute_optional(element, attribute)
+            try:
+                float(value or 0)
+            except ValueError:
+                invalid_attributes.append(attribute)
+
+        for attribute in invalid_attributes:
+            error_repository.insert(
+                ErrorCode.XML_LINK_INVALID_ATTRIBUTE,
+                element,
+                attribute=attribute,
+                value=get_str_attribute_optional(element, attribute),
+            )
+
+        if not invalid_attributes:
+            valid_elements.append(element)
+
+    return valid_elements
+
+
 def parse_xml_link(
     context: FilingContext,
     xml_link_element: lxml.etree._Element,  # type: ignore
@@ -114,13 +156,31 @@ def parse_xml_link(
             type=get_clark_notation_tag(xml_link_element),
         )
 
+    arc_elements = get_valid_elements(
+        xml_link_element,
+        "arc",
+        ["xlink:from", "xlink:to", "xlink:arcrole"],
+        error_repository,
+    )
+    locator_elements = get_valid_elements(
+        xml_link_element, "locator", ["xlink:label", "xlink:href"], error_repository
+    )
+    resource_elements = get_valid_elements(
+        xml_link_element, "resource", ["xlink:label"], error_repository
+    )
+    # Keep the document order
+    valid_elements = set(locator_elements + resource_elements)
+    link_elements = [
+        element for element in xml_link_element.iter("*") if element in valid_elements
+    ]
+
     for network_factory in network_factories:
         nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
         edges: dict[tuple[str, str, str], None] = {}
         node_to_arcs: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
         roots: list[INetworkNode] = []
 
-        for arc_element in find_elements(xml_link_element, ".//*[@xlink:type='arc']"):
+        for arc_element in arc_elements:
             arc_from = get_str_attribute(arc_element, "xlink:from")
             arc_to = get_str_attribute(arc_element, "xlink:to")
             arc_role = get_str_attribute(arc_element, "xlink:arcrole")
@@ -138,9 +198,7 @@ def parse_xml_link(
             node_to_arcs[arc_from].append(arc_element)
             node_to_arcs[arc_to].append(arc_element)
 
-        for link_element in find_elements(
-            xml_link_element, ".//*[@xlink:type='resource' or @xlink:type='locator']"
-        ):
+        for link_element in link_elements:
             label = get_str_attribute(link_element, "xlink:label")
             to_object: Optional[
                 IResource | IReportElement | Fact
diff --git a/brel/parsers/XML/networks/xml_presentation_network_factory.py b/brel/parsers/XML/networks/xml_presentation_network_factory.py
index e1259f3..451d65e 100644
--- a/brel/parsers/XML/networks/xml_presentation_network_factory.py
+++ b/brel/parsers/XML/networks/xml_presentation_network_factory.py
@@ -110,7 +110,7 @@ class PresentationNetworkFactory(IXMLNetworkFactory):
             arc_role = get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "arcrole")
             )
-            order = float(get_str_attribute(xml_arc, "order", "1"))
+            order = float(get_str_attribute(xml_arc, "order", "1") or 1)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
-- 
2.43.0


From 5b5ecbb8bb838ff5b6cd8c7f66d5ba3935681eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:58 +0000
Subject: [PATCH 54/92] fix: give every relation of a link its own attributes,
 and ignore arcs to invalid locators

---
 .../XML/networks/xml_extended_link_parser.py  | 172 +++++++-----------
 brel/parsers/utils/network_utils.py           |  23 ++-
 2 files changed, 75 insertions(+), 120 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index e1dc0be..8df5ebb 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -175,11 +175,27 @@ def parse_xml_link(
     ]
 
     for network_factory in network_factories:
-        nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
-        edges: dict[tuple[str, str, str], None] = {}
-        node_to_arcs: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
-        roots: list[INetworkNode] = []
+        # first pass. Find the objects that networks of this kind can hold and the arcs between them
+        objects: list[
+            tuple[str, lxml.etree._Element, IResource | IReportElement | Fact]  # type: ignore
+        ] = []
+        for link_element in link_elements:
+            to_object = get_object_from_reference(link_element, context)
+            if to_object is None:
+                continue
+
+            node_without_arc = network_factory.create_node(
+                xml_link_element, link_element, None, to_object, error_repository
+            )
+            if node_without_arc is None:
+                continue
+
+            objects.append(
+                (get_str_attribute(link_element, "xlink:label"), link_element, to_object)
+            )
 
+        labels = {label for label, _, _ in objects}
+        edges: dict[tuple[str, str, str], lxml.etree._Element] = {}  # type: ignore
         for arc_element in arc_elements:
             arc_from = get_str_attribute(arc_element, "xlink:from")
             arc_to = get_str_attribute(arc_element, "xlink:to")
@@ -194,93 +210,46 @@ def parse_xml_link(
                 )
                 continue
 
-            edges[(arc_from, arc_to, arc_role)] = None
-            node_to_arcs[arc_from].append(arc_element)
-            node_to_arcs[arc_to].append(arc_element)
+            if arc_from in labels and arc_to in labels:
+                edges[(arc_from, arc_to, arc_role)] = arc_element
 
-        for link_element in link_elements:
-            label = get_str_attribute(link_element, "xlink:label")
-            to_object: Optional[
-                IResource | IReportElement | Fact
-            ] = get_object_from_reference(link_element, context)
+        # the edges that go to a label and those that go from it
+        label_to_edges: dict[
+            str, tuple[list[tuple[str, str, str]], list[tuple[str, str, str]]]
+        ] = defaultdict(lambda: ([], []))
+        for edge in edges:
+            label_to_edges[edge[1]][0].append(edge)
+            label_to_edges[edge[0]][1].append(edge)
 
-            if to_object is None:
-                continue
+        # second pass. Create one node per object and incoming arc. Objects without incoming arcs are roots.
+        # In physical networks, the arcs of different arcroles are kept apart
+        nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
+        edge_to_nodes: dict[tuple[str, str, str], list[INetworkNode]] = defaultdict(
+            list
+        )
+        roots: list[INetworkNode] = []
 
-            node_arcs = node_to_arcs[label]
-            arcs_to = list(
-                filter(
-                    lambda arc: get_str_attribute(arc, "xlink:to", "") == label,
-                    node_arcs,
-                )
-            )
-            arcs_from = list(
-                filter(
-                    lambda arc: get_str_attribute(arc, "xlink:from", "") == label,
-                    node_arcs,
-                )
-            )
+        for label, link_element, to_object in objects:
+            edges_to, edges_from = label_to_edges[label]
 
             if network_factory.is_physical():
-                if len(arcs_to) == 0 and len(arcs_from) == 0:
-                    node = network_factory.create_node(
-                        xml_link_element,
-                        link_element,
-                        None,
-                        to_object,
-                        error_repository,
-                    )
-
-                    if node is None:
-                        continue
-
-                    roots.append(node)
-                    nodes_lookup[label].append(node)
-                else:
-                    outgoing_role_types = dict.fromkeys(
-                        get_str_attribute(arc, "xlink:arcrole") for arc in arcs_from
-                    )
-
-                    incoming_role_types = dict.fromkeys(
-                        get_str_attribute(arc, "xlink:arcrole") for arc in arcs_to
+                role_types = dict.fromkeys(edge[2] for edge in edges_to + edges_from)
+                edge_groups = [
+                    (
+                        [edge for edge in edges_to if edge[2] == role_type],
+                        [edge for edge in edges_from if edge[2] == role_type],
                     )
-
-                    for role_type in incoming_role_types | outgoing_role_types:
-                        node_arcs.sort(
-                            key=lambda arc: get_str_attribute(arc, "xlink:to") == label,
-                            reverse=True,
-                        )
-
-                        arc = next(
-                            (
-                                arc
-                                for arc in node_arcs
-                                if get_str_attribute(arc, "xlink:arcrole") == role_type
-                            ),
-                            None,
-                        )
-
-                        node = network_factory.create_node(
-                            xml_link_element,
-                            link_element,
-                            arc,
-                            to_object,
-                            error_repository,
-                        )
-
-                        if node is None:
-                            continue
-
-                        if role_type not in incoming_role_types:
-                            roots.append(node)
-                        nodes_lookup[label].append(node)
-
+                    for role_type in role_types
+                ]
             else:
-                if len(arcs_to) == 0 and len(arcs_from) == 0:
+                edge_groups = [(edges_to, edges_from)]
+
+            for group_to, group_from in edge_groups or [([], [])]:
+                for edge in group_to or group_from[:1] or [None]:
                     node = network_factory.create_node(
                         xml_link_element,
                         link_element,
-                        None,
+                        edges[edge] if edge is not None else None,
                         to_object,
                         error_repository,
                     )
@@ -288,48 +257,35 @@ def parse_xml_link(
                     if node is None:
                         continue
 
-                    roots.append(node)
                     nodes_lookup[label].append(node)
-                else:
-                    arc = arcs_to[0] if len(arcs_to) > 0 else arcs_from[0]
-
-                    node = network_factory.create_node(
-                        xml_link_element, link_element, arc, to_object, error_repository
-                    )
-
-                    if node is None:
-                        continue
-
-                    if len(arcs_to) == 0:
+                    if group_to and edge is not None:
+                        edge_to_nodes[edge].append(node)
+                    else:
                         roots.append(node)
-                    nodes_lookup[label].append(node)
 
-        # second pass. Create the tree by iterating over the edges and adding the edge's 'to' node as a child to the edge's 'from' node
-        for arc_from, arc_to, arc_role in edges:
-            from_nodes = nodes_lookup[arc_from]
-            to_nodes = nodes_lookup[arc_to]
+        # third pass. Create the tree by iterating over the edges and adding the edge's 'to' node as a child to the edge's 'from' node
+        for edge in edges:
+            from_nodes = nodes_lookup[edge[0]]
 
             if network_factory.is_physical():
-                from_nodes = list(
-                    filter(lambda node: node.get_arc_role() == arc_role, from_nodes)
-                )
-                to_nodes = list(
-                    filter(lambda node: node.get_arc_role() == arc_role, to_nodes)
-                )
+                from_nodes = [
+                    node for node in from_nodes if node.get_arc_role() == edge[2]
+                ]
 
-            for from_node, to_node in itertools.product(from_nodes, to_nodes):
+            for from_node, to_node in itertools.product(
+                from_nodes, edge_to_nodes[edge]
+            ):
                 # Now we can link the nodes
                 from_node._add_child(to_node)  # type: ignore
 
-        # third pass. If the network is physical, create a network for each arcrole in the roots
+        # fourth pass. If the network is physical, create a network for each arcrole in the roots
         # if the network is logical (not physical), create a single network with all the roots
         # Networks have to be non-empty, so if there are no roots, we skip this step
         if len(roots) == 0:
             continue
 
         if network_factory.is_physical():
-            role_types = dict.fromkeys(node.get_arc_role() for node in roots)
-            for role_type in role_types:
+            for role_type in dict.fromkeys(node.get_arc_role() for node in roots):
                 role_type_roots = [
                     node for node in roots if node.get_arc_role() == role_type
                 ]
diff --git a/brel/parsers/utils/network_utils.py b/brel/parsers/utils/network_utils.py
index adf1ecf..c05c5a0 100644
--- a/brel/parsers/utils/network_utils.py
+++ b/brel/parsers/utils/network_utils.py
@@ -68,21 +68,20 @@ def merge_children(target: INetworkNode, source: INetworkNode) -> None:
             merge_children(equal_child, child)
 
 
-def find_equal_node(
+def find_equal_nodes(
     node: INetworkNode, candidates: list[INetworkNode]
-) -> INetworkNode | None:
+) -> list[INetworkNode]:
     """
-    :returns INetworkNode | None: the first node equal to the given node among the candidates and their descendants
+    :returns list[INetworkNode]: the nodes equal to the given node among the candidates and their descendants
     """
+    equal_nodes: list[INetworkNode] = []
     for candidate in candidates:
         if nodes_equal(candidate, node):
-            return candidate
-
-        equal_node = find_equal_node(node, candidate.get_children())
-        if equal_node is not None:
-            return equal_node
+            equal_nodes.append(candidate)
+        else:
+            equal_nodes.extend(find_equal_nodes(node, candidate.get_children()))
 
-    return None
+    return equal_nodes
 
 
 def combine_networks(networks: list[INetwork]) -> INetwork:
@@ -106,10 +105,10 @@ def combine_networks(networks: list[INetwork]) -> INetwork:
     combined_roots: list[INetworkNode] = []
     while len(roots) > 0:
         root = roots.pop(0)
-        equal_node = find_equal_node(root, combined_roots + roots)
-        if equal_node is None:
+        equal_nodes = find_equal_nodes(root, combined_roots + roots)
+        if not equal_nodes:
             combined_roots.append(root)
-        else:
+        for equal_node in equal_nodes:
             merge_children(equal_node, root)
 
     combined_network = networks[0]
-- 
2.43.0


From f86343cceec3cd2b3d0221d579a7b156e1f824db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:28 +0000
Subject: [PATCH 55/92] fix: ignore white space around members and measures

---
 .../parsers/XML/characteristics/xml_parse_explicit_dimension.py | 2 +-
 brel/parsers/XML/characteristics/xml_parse_unit.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index f25365a..be91214 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -62,7 +62,7 @@ def parse_explicit_dimension_from_xml(
         return None
 
     dimension = report_element_repository.get_typed_by_qname(dimension_qname, Dimension)
-    member_id = xml_element.text
+    member_id = (xml_element.text or "").strip()
     if not member_id:
         error_repository.insert(
             ErrorCode.MISSING_EXPLICIT_DIMENSION_MEMBER,
diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index 7b3cfbf..fc090aa 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -34,7 +34,7 @@ def parse_unit_measure_from_xml(
         error_repository.insert(ErrorCode.XML_MISSING_UNIT_MEASURE, xml_element)
         return None
     else:
-        qname = qname_from_str(child_text, xml_element)
+        qname = qname_from_str(child_text.strip(), xml_element)
         return qname
 
         # if isinstance(qname_or_error, ErrorInstance):
-- 
2.43.0


From c13b04289ad9a82f3ceb3919cfdc70f42b5dc4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:28 +0000
Subject: [PATCH 56/92] fix: report dimensions without a dimension attribute
 instead of failing

---
 .../characteristics/xml_parse_explicit_dimension.py    | 10 ++++++++--
 .../XML/characteristics/xml_parse_typed_dimension.py   |  9 +++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index be91214..eb4004c 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -19,7 +19,7 @@ from brel.characteristics import (
 )
 from brel.errors.error_code import ErrorCode
 
-from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.parsers.utils.lxml_utils import get_str_attribute_optional
 from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import Dimension, Member
 from brel.contexts.filing_context import FilingContext
@@ -47,7 +47,13 @@ def parse_explicit_dimension_from_xml(
     aspect_repository = filing_context.get_aspect_repository()
     error_repository = filing_context.get_error_repository()
 
-    aspect_id = get_str_attribute(xml_element, "dimension")
+    aspect_id = get_str_attribute_optional(xml_element, "dimension")
+    if aspect_id is None:
+        error_repository.insert(
+            ErrorCode.INVALID_EXPLICIT_DIMENSION_VALUE, xml_element, dimension=None
+        )
+        return None
+
     if not aspect_repository.has(aspect_id):
         aspect_repository.upsert(Aspect(aspect_id, []))
 
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index d773212..b9246e0 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -22,7 +22,7 @@ from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
 from brel.parsers.utils.iterable_utils import get_first
 from brel.parsers.utils.error_utils import error_on_none
-from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.parsers.utils.lxml_utils import get_str_attribute_optional
 from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import Dimension
 
@@ -58,7 +58,12 @@ def parse_typed_dimension_from_xml(
     characteristic_repository = filing_context.get_characteristic_repository()
     error_repository = filing_context.get_error_repository()
 
-    dimension_axis = get_str_attribute(xml_element, "dimension")
+    dimension_axis = get_str_attribute_optional(xml_element, "dimension")
+    if dimension_axis is None:
+        error_repository.insert(
+            ErrorCode.INVALID_TYPED_DIMENSION_VALUE, xml_element, dimension=None
+        )
+        return None
 
     if not aspect_repository.has(dimension_axis):
         aspect_repository.upsert(Aspect(dimension_axis, []))
-- 
2.43.0


From 245f6682c528407ecaf55af682352a03f8935217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:25 +0000
Subject: [PATCH 57/92] fix: report the decimals and precision of XML facts

---
 brel/parsers/XML/xml_facts_parser.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index c580efc..cb5e70f 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -19,6 +19,9 @@ from brel.characteristics import *
 from brel.errors.error_code import ErrorCode
 from brel.errors.error_instance import ErrorInstance
 from brel.parsers.XML.characteristics import parse_unit_from_xml
+from brel.parsers.XHMTL.elements.parse_non_fraction import (
+    parse_decimals_or_precision,
+)
 from brel.parsers.XML.xml_context_parser import parse_context_xml
 from brel.parsers.utils.error_utils import error_on_none
 from brel.qnames.qname_utils import qname_from_str
@@ -79,7 +82,29 @@ def parse_fact_from_xml(
             context_concept=context_concept.get_value().get_name().clark_notation(),
         )
 
-    fact_repository.upsert(Fact(context, fact_value, fact_id))
+    decimals_str = fact_xml_element.get("decimals")
+    decimals = None
+    try:
+        decimals = parse_decimals_or_precision(decimals_str, True)
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_DECIMALS_ATTRIBUTE_VALUE,
+            fact_xml_element,
+            decimals=decimals_str,
+        )
+
+    precision_str = fact_xml_element.get("precision")
+    precision = None
+    try:
+        precision = parse_decimals_or_precision(precision_str, False)
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_PRECISION_ATTRIBUTE_VALUE,
+            fact_xml_element,
+            precision=precision_str,
+        )
+
+    fact_repository.upsert(Fact(context, fact_value, fact_id, decimals, precision))
 
 
 def parse_facts_xml(
-- 
2.43.0


From f43ac506bf151f8b18e9bfb670644e1ed499e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:52 +0000
Subject: [PATCH 58/92] fix: periods accept only ISO dates, so 2023-13-01 is an
 error and not 13 January

---
 brel/characteristics/period_characteristic.py | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/brel/characteristics/period_characteristic.py b/brel/characteristics/period_characteristic.py
index 55b290c..ce18c66 100644
--- a/brel/characteristics/period_characteristic.py
+++ b/brel/characteristics/period_characteristic.py
@@ -17,10 +17,9 @@ A duration consists of two `datetime.date` instances, a start date and an end da
 """
 
 import datetime
+import re
 from typing import List, Optional
 
-import dateutil.parser
-
 from brel.characteristics import Aspect, ICharacteristic
 from brel.services.translation.translation_service import TranslationService
 
@@ -125,11 +124,28 @@ class PeriodCharacteristic(ICharacteristic):
             return False
 
         try:
-            dateutil.parser.parse(date)
+            PeriodCharacteristic._parse_date(date)
             return True
         except ValueError:
             return False
 
+    @staticmethod
+    def _parse_date(date: str) -> datetime.date:
+        """
+        Parses an xs:date or an xs:dateTime, which are the only forms of dates in a period.
+        :param date: the string to parse
+        :returns datetime.date: the date that the string denotes
+        :raises ValueError: if the string is not a valid date.
+        """
+        match = re.fullmatch(
+            r"\s*(\d{4}-\d{2}-\d{2})(T\d{2}:\d{2}:\d{2}(\.\d+)?)?(Z|[+-]\d{2}:\d{2})?\s*",
+            date,
+            re.ASCII,
+        )
+        if match is None:
+            raise ValueError(f"'{date}' is not a valid date.")
+        return datetime.date.fromisoformat(match.group(1))
+
     @classmethod
     def _instant(cls, instant_date: str) -> "PeriodCharacteristic":
         """
@@ -142,7 +158,7 @@ class PeriodCharacteristic(ICharacteristic):
             raise ValueError(f"Instant date '{instant_date}' is not a valid date.")
 
         period_instance = cls()
-        period_instance.__instant_date = dateutil.parser.parse(instant_date).date()
+        period_instance.__instant_date = cls._parse_date(instant_date)
         period_instance.__is_instant = True
 
         return period_instance
@@ -163,8 +179,8 @@ class PeriodCharacteristic(ICharacteristic):
             raise ValueError(f"End date '{end_date}' is not a valid date.")
 
         period_instance = cls()
-        period_instance.__start_date = dateutil.parser.parse(start_date).date()
-        period_instance.__end_date = dateutil.parser.parse(end_date).date()
+        period_instance.__start_date = cls._parse_date(start_date)
+        period_instance.__end_date = cls._parse_date(end_date)
         period_instance.__is_instant = False
 
         # if period_instance.start_date > period_instance.end_date:
-- 
2.43.0


From 23736a73179d73a13220b44ba689d5709dbce696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:40 +0000
Subject: [PATCH 59/92] fix: list the descendants of a node in document order

---
 brel/networks/i_network_node.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/brel/networks/i_network_node.py b/brel/networks/i_network_node.py
index cbd829f..9dc8d5f 100644
--- a/brel/networks/i_network_node.py
+++ b/brel/networks/i_network_node.py
@@ -126,12 +126,13 @@ class INetworkNode(ABC):
         Returns all descendants of the current node
         :returns list[NetworkNode]: list containing all descendants of this node
         """
-        descendants = set()
+        # a dict keeps the nodes in document order
+        descendants: Dict["INetworkNode", None] = {}
         worklist: list["INetworkNode"] = [self]
         while len(worklist) > 0:
             node = worklist.pop()
-            descendants.add(node)
-            worklist.extend(node.get_children())
+            descendants[node] = None
+            worklist.extend(reversed(node.get_children()))
 
         return list(descendants)
 
-- 
2.43.0


From 14c2b0545e093268e67b7d4f4ea132f47ecc4c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:40 +0000
Subject: [PATCH 60/92] fix: merged networks have the same children wherever an
 element occurs

---
 brel/parsers/utils/network_utils.py | 52 ++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/brel/parsers/utils/network_utils.py b/brel/parsers/utils/network_utils.py
index c05c5a0..9d197af 100644
--- a/brel/parsers/utils/network_utils.py
+++ b/brel/parsers/utils/network_utils.py
@@ -1,3 +1,5 @@
+from collections import defaultdict
+
 from brel.networks import (
     CalculationNetworkNode,
     INetwork,
@@ -54,18 +56,29 @@ def relations_equal(self: INetworkNode, other: INetworkNode) -> bool:
     return True
 
 
-def merge_children(target: INetworkNode, source: INetworkNode) -> None:
+def get_target(node: INetworkNode) -> object:
+    # the thing that a node points to
+    if node.points_to() == "resource":
+        return node.get_resource()
+    elif node.points_to() == "report element":
+        return node.get_report_element()
+    else:
+        return node.get_fact()
+
+
+def complete_children(nodes: list[INetworkNode]) -> None:
     """
-    Adds the children of the source to the target. Children that the target already has are merged recursively.
+    Gives all nodes that point to the same thing the same children.
+    :param nodes: The nodes to complete. All of them point to the same thing.
     """
-    for child in source.get_children():
-        equal_child = next(
-            (c for c in target.get_children() if relations_equal(c, child)), None
-        )
-        if equal_child is None:
-            target._add_child(child)
-        elif equal_child is not child:
-            merge_children(equal_child, child)
+    children = [child for node in nodes for child in node.get_children()]
+    for node in nodes:
+        for child in children:
+            if any(relations_equal(child, c) for c in node.get_children()):
+                continue
+            # a node never becomes a descendant of itself
+            if not find_equal_nodes(node, [child]):
+                node._add_child(child)
 
 
 def find_equal_nodes(
@@ -99,17 +112,26 @@ def combine_networks(networks: list[INetwork]) -> INetwork:
 
     # this algorithm works with the following steps:
     # 1. Collect the roots of all networks.
-    # 2. Move the children of each root that also occurs below another root to where it occurs.
+    # 2. Give every node the children that its element, fact or resource has in any of the networks.
+    # 3. Keep the roots that do not occur below another root.
     # The result does not depend on the order of the networks.
     roots = [root for network in networks for root in network.get_roots()]
+
+    nodes: list[INetworkNode] = []
+    for root in roots:
+        nodes.extend(root.get_all_descendants())
+
+    groups: dict[int, list[INetworkNode]] = defaultdict(list)
+    for node in nodes:
+        groups[id(get_target(node))].append(node)
+    for group in groups.values():
+        complete_children(group)
+
     combined_roots: list[INetworkNode] = []
     while len(roots) > 0:
         root = roots.pop(0)
-        equal_nodes = find_equal_nodes(root, combined_roots + roots)
-        if not equal_nodes:
+        if not find_equal_nodes(root, combined_roots + roots):
             combined_roots.append(root)
-        for equal_node in equal_nodes:
-            merge_children(equal_node, root)
 
     combined_network = networks[0]
     combined_network.get_roots()[:] = combined_roots
-- 
2.43.0


From 7ad3d2b35b216b2b2f2e8fc949747b1c83573557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:02 +0000
Subject: [PATCH 61/92] fix: a concept without balance and without children
 does not make a network balance inconsistent

---
 brel/networks/calculation_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index 85d27a5..31bb991 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -67,6 +67,10 @@ class CalculationNetwork(INetwork):
             :param node: the root of the subtree to check
             :returns: True iff the subtree rooted at node is balance consistent
             """
+            # a node without children is not the parent in any relationship
+            if node.is_leaf():
+                return True
+
             # get the balance of the parent
             parent_balance = node.get_concept().get_balance_type()
             if parent_balance is None:
-- 
2.43.0


From 924be4a74932464704254e927a2597c72141b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:49 +0000
Subject: [PATCH 62/92] fix: read short US month-day dates month first

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index f9e271c..0ba7c7e 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -591,7 +591,7 @@ legacy_to_current_formats = {
     "ixt:datelongdaymonthuk": "ixt:date-day-monthname-en",
     "ixt:datelongmonthdayus": "ixt:date-monthname-day-en",
     "ixt:dateshortdaymonthuk": "ixt:date-day-monthname-en",
-    "ixt:dateshortmonthdayus": "ixt:date-day-monthname-en",
+    "ixt:dateshortmonthdayus": "ixt:date-monthname-day-en",
     "ixt:dateslashdaymontheu": "ixt:date-day-month",
     "ixt:dateslashmonthdayus": "ixt:date-month-day",
     "ixt:datelongyearmonth": "ixt:date-year-monthname-en",
-- 
2.43.0


From 0ff47e2c000837f920379d8e78cb16806545a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:42 +0000
Subject: [PATCH 63/92] fix: recognise the mutated Welsh September when
 capitalised

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 0ba7c7e..c718405 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -19,7 +19,7 @@ number_format_to_regex = {
 
 date_format_to_regex = {
     "ixt:date-day-monthname-cy": r"^([0-9]{1,2})[^0-9]*[^0-9a-zA-Z]+(ion|chwe|maw|ebr|mai|meh|gor|aws|med|hyd|tach|rhag|ION|CHWE|MAW|EBR|MAI|MEH|GOR|AWS|MED|HYD|TACH|RHAG|Ion|Chwe|Maw|Ebr|Mai|Meh|Gor|Aws|Med|Hyd|Tach|Rhag)[^0-9]{0,7}$",
-    "ixt:date-monthname-year-cy": r"^(ion|chwe|maw|faw|ebr|mai|fai|meh|feh|gor|ngor|aws|med|fed|hyd|tach|dach|nhach|thach|rhag|rag|ION|CHWE|MAW|FAW|EBR|MAI|FAI|MEH|FEH|GOR|NGOR|AWS|MED|FED|HYD|TACH|DACH|NHACH|THACH|RHAG|RAG|Ion|Chwe|Maw|Faw|Ebr|Mai|Fai|Meh|Feh|Gor|Ngor|Aws|Med|Fedi|Hyd|Tach|Dach|Nhach|Thach|Rhag|Rag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthname-year-cy": r"^(ion|chwe|maw|faw|ebr|mai|fai|meh|feh|gor|ngor|aws|med|fed|hyd|tach|dach|nhach|thach|rhag|rag|ION|CHWE|MAW|FAW|EBR|MAI|FAI|MEH|FEH|GOR|NGOR|AWS|MED|FED|HYD|TACH|DACH|NHACH|THACH|RHAG|RAG|Ion|Chwe|Maw|Faw|Ebr|Mai|Fai|Meh|Feh|Gor|Ngor|Aws|Med|Fed|Hyd|Tach|Dach|Nhach|Thach|Rhag|Rag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-year-cy": r"^([0-9]{1,2})[^0-9]*[^0-9a-zA-Z]+(ion|chwe|maw|ebr|mai|meh|gor|aws|med|hyd|tach|rhag|ION|CHWE|MAW|EBR|MAI|MEH|GOR|AWS|MED|HYD|TACH|RHAG|Ion|Chwe|Maw|Ebr|Mai|Meh|Gor|Aws|Med|Hyd|Tach|Rhag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-month": r"^([0-9]{1,2})[^0-9]+([0-9]{1,2})$",
     "ixt:date-month-day": r"^([0-9]{1,2})[^0-9]+([0-9]{1,2})$",
-- 
2.43.0


From 151cecdd47619580f7dc8d0c69343184b7b03cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 64/92] fix: connect footnote relationships to facts

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 14de8fe..1101873 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -303,7 +303,7 @@ def create_footnote_network_nodes(
                     else fact_repository.get_by_id(to_id)
                 )
 
-                if not to_object:
+                if to_object is None:
                     # Error
                     continue
 
-- 
2.43.0


From eec956da11892ba2b0b771d6b005f24e0fb17906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 65/92] fix: keep the text after an inline footnote out of it

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 1101873..9046dfd 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -71,7 +71,7 @@ def parse_footnote(
     relevant_content = extract_relevant_content_from_continuation_chain(
         [footnote_element] + continuation_chain
     )
-    content_text = etree.tostring(relevant_content).decode()
+    content_text = etree.tostring(relevant_content, with_tail=False).decode()
 
     title = get_str_attribute_optional(footnote_element, "title")
     return id, BrelFootnote(content_text, id, language, role, id, title)
-- 
2.43.0


From b2f947b684578b42802c7c9741f9d6e02caa9ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:06 +0000
Subject: [PATCH 66/92] fix: accept non-breaking spaces between the digits of
 inline numbers

---
 .../XHMTL/xhtml_parse_transformation_registry.py       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index c718405..299f8f9 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -9,11 +9,11 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 
 number_format_to_regex = {
-    "ixt:num-comma-decimal-apos": r"^([\.\'`´’′  0-9]*)(,[  0-9]+)?$",
-    "ixt:num-dot-decimal-apos": r"^([,\'`´’′  0-9]*)(\.[  0-9]+)?$",
+    "ixt:num-comma-decimal-apos": r"^([\.\'`´’′ \xa00-9]*)(,[ \xa00-9]+)?$",
+    "ixt:num-dot-decimal-apos": r"^([,\'`´’′ \xa00-9]*)(\.[ \xa00-9]+)?$",
     "ixt:num-unit-decimal-apos": r"^([0-9０-９\.,，\'`´’′＇]+)[^0-9０-９\.,，\'`´’′＇][^0-9０-９]*([0-9０-９]{1,2})[^0-9０-９]*$",
-    "ixt:num-comma-decimal": r"^([\.  0-9]*)(,[  0-9]+)?$",
-    "ixt:num-dot-decimal": r"^([,  0-9]*)(\.[  0-9]+)?$",
+    "ixt:num-comma-decimal": r"^([\. \xa00-9]*)(,[ \xa00-9]+)?$",
+    "ixt:num-dot-decimal": r"^([, \xa00-9]*)(\.[ \xa00-9]+)?$",
     "ixt:num-unit-decimal": r"^([0-9０-９\.,，]+)[^0-9０-９\.,，][^0-9０-９]*([0-9０-９]{1,2})[^0-9０-９]*$",
 }
 
@@ -969,7 +969,7 @@ def apply_scale(whole_part: str, decimal_part: str, scale: int) -> tuple[str, st
 
 
 def process_number_part(number_part: str) -> str:
-    separators = " .,，'`´’′＇"
+    separators = " \xa0.,，'`´’′＇"
 
     if not number_part:
         number_part = "0"
-- 
2.43.0


From 953a1588c406ceeda99e2b67095494ff7f938f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:36 +0000
Subject: [PATCH 67/92] fix: report days that an Indian month does not have

---
 .../XHMTL/xhtml_parse_transformation_registry.py      | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 299f8f9..755fde1 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -668,9 +668,14 @@ def convert_national_indian_date_to_gregorian(
     if is_two_digit_year:
         date_parts["year"] = "19" + date_parts["year"]
 
-    gregorian_date = indian_civil.to_gregorian(
-        int(date_parts["year"]), int(date_parts["month"]), int(date_parts["day"])
-    )
+    year, month, day = (int(date_parts[part]) for part in ("year", "month", "day"))
+
+    # A day that its month does not have is no date in the Gregorian calendar either
+    if not 1 <= day <= indian_civil.month_length(year, month):
+        date_parts["day"] = "00"
+        return date_parts
+
+    gregorian_date = indian_civil.to_gregorian(year, month, day)
 
     gregorian_year, gregorian_month, gregorian_day = gregorian_date
 
-- 
2.43.0


From 9076dc4c52148493b595d7570390563c81dd627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:31 +0000
Subject: [PATCH 68/92] fix: ignore white space around the references of
 locators

---
 brel/parsers/XML/networks/xml_extended_link_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 8df5ebb..5f00be3 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -59,7 +59,7 @@ def get_object_from_reference(
 
         href = get_str_attribute(referenced_element, "xlink:href")
 
-        elem_id = href.split("#")[-1]
+        elem_id = href.strip().split("#")[-1]
 
         if report_element_repository.has_id(elem_id):
             locator_target_element = report_element_repository.get_by_id(elem_id)
-- 
2.43.0


From d6506b81c3d4dc0bdf91b3cbfa04a8378e85bc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:44 +0000
Subject: [PATCH 69/92] fix: let EDGAR listings contain filings without a
 report date

---
 brel/utils/edgar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 21e90ec..2404ccd 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -132,9 +132,8 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
 
         right_is = [i for i in range(len(recent["form"])) if report_fits(i)]
 
-        right_is.sort(
-            key=lambda i: int(recent["reportDate"][i].replace("-", "")), reverse=True
-        )
+        # ISO dates sort like strings; EDGAR leaves the date of some reports empty
+        right_is.sort(key=lambda i: recent["reportDate"][i], reverse=True)
 
         right_i = right_is[0] if len(right_is) > 0 else None
 
-- 
2.43.0


From c384bfe39cf7cbbe3d3e9eb684a72fde6bd5eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:44 +0000
Subject: [PATCH 70/92] fix: only replace the extension of EDGAR documents

---
 brel/utils/edgar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 2404ccd..a782322 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -149,7 +149,7 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
 
         if uri.endswith(".htm"):
             uri_dir = uri[: uri.rfind("/")]
-            uri = uri.replace(".htm", "_htm.xml")
+            uri = uri.removesuffix(".htm") + "_htm.xml"
             ping = session.get(
                 uri,
                 headers={
-- 
2.43.0


From 4e375313ef0db0a0de4fb1cb96109a6346d4fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:52 +0000
Subject: [PATCH 71/92] fix: read the boolean values 1 and 0 and ignore the
 white space around booleans

---
 brel/brel_fact.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/brel_fact.py b/brel/brel_fact.py
index 2d49a4d..b1354e3 100644
--- a/brel/brel_fact.py
+++ b/brel/brel_fact.py
@@ -116,9 +116,10 @@ class Fact:
         :returns bool: The value of the fact as a bool
         :raises ValueError: If the value of the fact does not resolve to a bool
         """
-        if self.__value.upper() == "TRUE":
+        value = self.__value.strip().upper()
+        if value in ("TRUE", "1"):
             return True
-        elif self.__value.upper() == "FALSE":
+        elif value in ("FALSE", "0"):
             return False
         else:
             raise ValueError(
-- 
2.43.0


From 6f3c8545710a9d69e9e6722899940cadd727e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:52 +0000
Subject: [PATCH 72/92] fix: compare concept characteristics by their concept

---
 brel/characteristics/concept_characteristic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/brel/characteristics/concept_characteristic.py b/brel/characteristics/concept_characteristic.py
index 0423ab2..48ea472 100644
--- a/brel/characteristics/concept_characteristic.py
+++ b/brel/characteristics/concept_characteristic.py
@@ -27,6 +27,14 @@ class ConceptCharacteristic(ICharacteristic):
     def __str__(self) -> str:
         return str(self.__concept.get_name())
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, ConceptCharacteristic):
+            return False
+        return self.__concept == other.get_value()
+
+    def __hash__(self) -> int:
+        return hash(self.__concept.get_name())
+
     def get_value(self) -> Concept:
         """
         :returns Concept: the concept of the characteristic
-- 
2.43.0


From 153b79e6ae9642e288acac7f31d195afe73ff129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:49 +0000
Subject: [PATCH 73/92] fix: give every dimension its own aspect whatever
 prefix a document uses for it

---
 brel/data/aspect/aspect_repository.py                 | 11 +++++++++++
 brel/data/aspect/in_memory_aspect_repository.py       | 11 +++++++++++
 .../characteristics/xml_parse_explicit_dimension.py   |  6 +-----
 .../XML/characteristics/xml_parse_typed_dimension.py  |  9 ++++-----
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/brel/data/aspect/aspect_repository.py b/brel/data/aspect/aspect_repository.py
index 97fcdb7..cfd8284 100644
--- a/brel/data/aspect/aspect_repository.py
+++ b/brel/data/aspect/aspect_repository.py
@@ -26,6 +26,17 @@ class AspectRepository(ABC):
     def has(self, name: str) -> bool:
         raise NotImplementedError()
 
+    @abstractmethod
+    def get_or_create_for_dimension(self, dimension: QName, name: str) -> Aspect:
+        """
+        Get the aspect of a dimension. It is created if it does not exist yet.
+        :param dimension: The name of the dimension.
+        :param name: The name as it is written in the document. Prefixes mean different namespaces in different documents,
+        so a new aspect is named after the Clark notation of the dimension if the name belongs to another dimension.
+        :returns: The aspect of the dimension.
+        """
+        raise NotImplementedError()
+
     @abstractmethod
     def upsert(self, aspect: Aspect) -> None:
         raise NotImplementedError()
diff --git a/brel/data/aspect/in_memory_aspect_repository.py b/brel/data/aspect/in_memory_aspect_repository.py
index 10029d5..03b638f 100644
--- a/brel/data/aspect/in_memory_aspect_repository.py
+++ b/brel/data/aspect/in_memory_aspect_repository.py
@@ -10,11 +10,13 @@
 
 from brel.characteristics.brel_aspect import Aspect
 from brel.data.aspect.aspect_repository import AspectRepository
+from brel.qnames.qname import QName
 
 
 class InMemoryAspectRepository(AspectRepository):
     def __init__(self) -> None:
         self.__aspects: dict[str, Aspect] = {}
+        self.__aspects_by_dimension: dict[QName, Aspect] = {}
 
     def get(self, name: str) -> Aspect:
         return self.__aspects[name]
@@ -24,3 +26,12 @@ class InMemoryAspectRepository(AspectRepository):
 
     def upsert(self, aspect: Aspect) -> None:
         self.__aspects[aspect.get_name()] = aspect
+
+    def get_or_create_for_dimension(self, dimension: QName, name: str) -> Aspect:
+        if dimension not in self.__aspects_by_dimension:
+            aspect = Aspect(
+                dimension.clark_notation() if self.has(name) else name, []
+            )
+            self.upsert(aspect)
+            self.__aspects_by_dimension[dimension] = aspect
+        return self.__aspects_by_dimension[dimension]
diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index eb4004c..1160c45 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -14,7 +14,6 @@ from typing import Optional
 import lxml.etree
 
 from brel.characteristics import (
-    Aspect,
     ExplicitDimensionCharacteristic,
 )
 from brel.errors.error_code import ErrorCode
@@ -54,11 +53,8 @@ def parse_explicit_dimension_from_xml(
         )
         return None
 
-    if not aspect_repository.has(aspect_id):
-        aspect_repository.upsert(Aspect(aspect_id, []))
-
-    aspect = aspect_repository.get(aspect_id)
     dimension_qname = qname_from_str(aspect_id, xml_element)
+    aspect = aspect_repository.get_or_create_for_dimension(dimension_qname, aspect_id)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
         error_repository.insert(
             ErrorCode.INVALID_EXPLICIT_DIMENSION_VALUE,
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index b9246e0..8634fae 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -15,7 +15,6 @@ from typing import Optional
 import lxml.etree
 
 from brel.characteristics import (
-    Aspect,
     TypedDimensionCharacteristic,
 )
 from brel.contexts.filing_context import FilingContext
@@ -65,11 +64,11 @@ def parse_typed_dimension_from_xml(
         )
         return None
 
-    if not aspect_repository.has(dimension_axis):
-        aspect_repository.upsert(Aspect(dimension_axis, []))
-    dimension_aspect = aspect_repository.get(dimension_axis)
-
     dimension_qname = qname_from_str(dimension_axis, xml_element)
+    dimension_aspect = aspect_repository.get_or_create_for_dimension(
+        dimension_qname, dimension_axis
+    )
+
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
         error_repository.insert(
             ErrorCode.INVALID_TYPED_DIMENSION_VALUE,
-- 
2.43.0


From 5cd8a54718752d9f15697157701841d7475430f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:25 +0000
Subject: [PATCH 74/92] fix: refuse a table that is available in no permitted
 language instead of returning it empty

---
 brel/brel_filing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 5a68634..9709374 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -526,6 +526,10 @@ class Filing:
                     break
                 except (KeyError, ValueError):
                     continue
+            else:
+                raise ValueError(
+                    f"No single language available for the table: {output_params['languages']}"
+                )
 
         df = pd.DataFrame(data)
         return df
-- 
2.43.0


From 06cb6baed0d385a7896490d7deee8952472246d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:37 +0000
Subject: [PATCH 75/92] fix: prefer the report's languages in the order of its
 documents, not in an arbitrary one

---
 brel/services/xml/xml_service.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 4dfbc58..94d57e9 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -10,7 +10,7 @@
 
 import os
 from io import BytesIO
-from typing import List, Optional, Set
+from typing import Dict, List, Optional
 import urllib.parse
 from lxml.etree import _ElementTree  # type: ignore
 import urllib
@@ -141,18 +141,17 @@ class XMLService:
 
     def get_available_filing_languages(self) -> List[str]:
         if self.__available_filing_languages is None:
-            all_languages: Set[str] = set()
+            # a dictionary keeps the languages in the order of the documents
+            all_languages: Dict[str, None] = {}
             for tree in self.get_all_etrees():
                 elements_with_lang = tree.findall(
                     "//*[@xml:lang]", {"xml": "http://www.w3.org/XML/1998/namespace"}
                 )
 
-                tree_languages = set(
-                    get_str_attribute(element_with_lang, "xml:lang")
-                    for element_with_lang in elements_with_lang
-                )
-
-                all_languages = all_languages.union(tree_languages)
+                for element_with_lang in elements_with_lang:
+                    language = get_str_attribute(element_with_lang, "xml:lang")
+                    if language:
+                        all_languages[language] = None
 
             self.__available_filing_languages = list(all_languages)
 
-- 
2.43.0


From 213858e116af5f823cb34862ea1a12757c7092e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:42 +0000
Subject: [PATCH 76/92] fix: keep every characteristic of a fact in its table
 row when labels clash

---
 brel/brel_context.py | 7 ++++++-
 brel/brel_fact.py    | 8 ++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/brel/brel_context.py b/brel/brel_context.py
index 5a3cc82..3baa8c9 100644
--- a/brel/brel_context.py
+++ b/brel/brel_context.py
@@ -31,7 +31,7 @@ Read more about Aspects and Characteristics in
 ====================
 """
 
-from typing import Dict, List, Optional, cast
+from typing import Dict, List, Optional, Sequence, cast
 
 from brel.characteristics import (
     Aspect,
@@ -199,12 +199,15 @@ class Context:
         self,
         languages: Optional[List[str]] = None,
         translation_service: Optional[TranslationService] = None,
+        reserved_keys: Sequence[str] = (),
     ) -> dict[str, str]:
         """
         Convert the context to a dictionary.
         This is a convenience function.
         The keys of the dictionary are the aspect names.
         The values of the dictionary are the characteristic values.
+        An aspect whose label is already taken gets a key that tells it apart.
+        :param reserved_keys: Keys that no aspect may take.
         :returns dict: The context as a dictionary.
         """
         if not languages or not translation_service:
@@ -221,6 +224,8 @@ class Context:
             value = self.get_characteristic_as_str(
                 aspect, languages, translation_service
             )
+            if key in dict_to_return or key in reserved_keys:
+                key = f"{key} ({aspect.get_name()})"
             dict_to_return[key] = value
 
         return dict_to_return
diff --git a/brel/brel_fact.py b/brel/brel_fact.py
index b1354e3..8035fc9 100644
--- a/brel/brel_fact.py
+++ b/brel/brel_fact.py
@@ -234,16 +234,16 @@ class Fact:
         - "value": The value of the fact.
         - "context": The context of the fact represented as a dictionary.
         """
-        dict_to_return = self.__context.convert_to_df_row(
-            languages, translation_service
-        )
-
         if not languages or not translation_service:
+            dict_to_return = self.__context.convert_to_df_row()
             dict_to_return["id"] = self.__id if self.__id else ""
             dict_to_return["value"] = self.__value
         else:
             id_literal = translation_service.get("literal:id", languages)
             value_literal = translation_service.get("literal:value", languages)
+            dict_to_return = self.__context.convert_to_df_row(
+                languages, translation_service, [id_literal, value_literal]
+            )
 
             if self.__id:
                 dict_to_return[id_literal] = self.__id
-- 
2.43.0


From 784a8538436324eb38fa7431835b6db378dbfbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 77/92] fix: read abstract and nillable as XML Schema booleans,
 also when written as 1 and 0

---
 brel/parsers/XML/xml_report_element_factory.py |  3 ++-
 brel/parsers/utils/lxml_utils.py               | 14 ++++++++++++++
 brel/reportelements/concept.py                 |  3 ++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/xml_report_element_factory.py b/brel/parsers/XML/xml_report_element_factory.py
index 4a03681..590a4e2 100644
--- a/brel/parsers/XML/xml_report_element_factory.py
+++ b/brel/parsers/XML/xml_report_element_factory.py
@@ -17,6 +17,7 @@ import lxml.etree
 
 from brel import QName
 from brel.data.errors.error_repository import ErrorRepository
+from brel.parsers.utils.lxml_utils import get_boolean_attribute_optional
 from brel.reportelements import *
 from brel.resource import BrelLabel
 
@@ -36,7 +37,7 @@ class XMLReportElementFactory:
         :returns tuple[str, IReportElement] | None: The report element created and its ID.
         """
 
-        is_abstract = xml_element.get("abstract", "false") == "true"
+        is_abstract = get_boolean_attribute_optional(xml_element, "abstract") == "true"
 
         is_item = "item" in xml_element.get("substitutionGroup", "")
         is_hypercube_item = "hypercubeItem" in xml_element.get("substitutionGroup", "")
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 06a04dd..7da2991 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -78,6 +78,20 @@ def get_str_attribute_optional(element: _Element, attribute: str | QName) -> str
     return element.attrib.get(attribute)
 
 
+def get_boolean_attribute_optional(
+    element: _Element, attribute: str | QName
+) -> str | None:
+    """
+    Helper function for getting a boolean attribute from an element.
+    XML Schema booleans may also be written as "1" and "0".
+    :param element: lxml.etree.Element to get the attribute from
+    :param attribute: str containing the name of the attribute
+    :return: "true" or "false" if the attribute is a boolean, its value as it is otherwise. None if the attribute is not found.
+    """
+    value = get_str_attribute_optional(element, attribute)
+    return {"1": "true", "0": "false"}.get(value, value) if value else value
+
+
 def get_clark_notation_tag(element: _Element) -> str:  # type: ignore
     """
     Helper function for getting the tag of an element as a string in Clark Notation.
diff --git a/brel/reportelements/concept.py b/brel/reportelements/concept.py
index 0943747..aca6afe 100644
--- a/brel/reportelements/concept.py
+++ b/brel/reportelements/concept.py
@@ -19,6 +19,7 @@ import lxml.etree
 from brel import QName
 from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
+from brel.parsers.utils.lxml_utils import get_boolean_attribute_optional
 from brel.reportelements import IReportElement
 from brel.resource import BrelLabel
 from brel.services.translation.translation_service import TranslationService
@@ -312,7 +313,7 @@ class Concept(IReportElement):
             return None
 
         # get if the concept is nillable
-        xml_nillable = xml_element.get("nillable", None)
+        xml_nillable = get_boolean_attribute_optional(xml_element, "nillable")
         # According to the XBRL 2.1 specification, the nillable attribute can be either true or false.
         # It is optional (thus the "None" in possible_nillable_values), and defaults to false.
         possible_nillable_values = ["true", "false", None]
-- 
2.43.0


From 2075164dda2eb3b03c02e95755130442efbfd06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 78/92] fix: read the escape attribute of inline facts as an
 XML Schema boolean

---
 brel/parsers/XHMTL/elements/parse_non_numeric.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index 29edee4..045c450 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -14,7 +14,10 @@ from brel.parsers.XHMTL.elements.parse_continuation_chain import (
 from brel.parsers.XHMTL.xhtml_parse_transformation_registry import (
     parse_non_numerical_fact_value,
 )
-from brel.parsers.utils.lxml_utils import get_str_attribute_optional
+from brel.parsers.utils.lxml_utils import (
+    get_boolean_attribute_optional,
+    get_str_attribute_optional,
+)
 
 
 def convert_escaped_characters(text: str) -> str:
@@ -76,7 +79,7 @@ def parse_non_numeric_fact_element(
 
         taken_ids.add(id)
 
-    escape = get_str_attribute_optional(fact_element, "escape")
+    escape = get_boolean_attribute_optional(fact_element, "escape")
 
     if escape and escape not in ["true", "false"]:
         error_repository.insert(
-- 
2.43.0


From 7a90a6dd47612d6e4614fd95cbd85f8171d62e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 79/92] fix: read xsi:nil of inline facts as a boolean, and
 allow decimals where it is false

---
 brel/parsers/XHMTL/elements/parse_non_fraction.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 6cc644f..5624a56 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -10,6 +10,7 @@ from brel.parsers.XHMTL.xhtml_parse_transformation_registry import (
 from brel.parsers.utils.lxml_utils import (
     find_element,
     get_prefix_localname_tag,
+    get_boolean_attribute_optional,
     get_str_attribute_optional,
 )
 from lxml.etree import _Element
@@ -50,7 +51,7 @@ def validate_descendant_non_fraction_rules(
     if not parent_is_non_fraction:
         return
 
-    xsi_nil = get_str_attribute_optional(element, "xsi:nil")
+    xsi_nil = get_boolean_attribute_optional(element, "xsi:nil")
     if xsi_nil == "true":
         error_repository.insert(
             ErrorCode.IXBRL_NIL_ATTRIBUTE_IN_NON_FRACTION_CHILD, element
@@ -176,15 +177,15 @@ def parse_non_fraction_fact_element(
             fact_element,
             precision=precision_str,
         )
-    xsi_nil = get_str_attribute_optional(fact_element, "xsi:nil")
+    xsi_nil = get_boolean_attribute_optional(fact_element, "xsi:nil")
 
     if (
         decimals != None
         and precision != None
         or precision != None
-        and xsi_nil != None
+        and xsi_nil == "true"
         or decimals != None
-        and xsi_nil != None
+        and xsi_nil == "true"
     ):
         error_repository.insert(
             ErrorCode.IXBRL_MUTUALLY_EXCLUSIVE_ATTRIBUTES_IN_NON_FRACTION,
-- 
2.43.0


From 4ce7b2f0f4cf0947259ee3a8abe0aa0c4d035a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 80/92] fix: do not report inline role references as having the
 wrong link type

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 9046dfd..355ee73 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -392,7 +392,7 @@ def parse_relationships(
 def parse_role_reference(
     role_ref_element: _Element, error_repository: ErrorRepository
 ) -> None:
-    link_type = get_str_attribute_optional(role_ref_element, "xlink:linktype")
+    link_type = get_str_attribute_optional(role_ref_element, "xlink:type")
     if link_type != "simple":
         error_repository.insert(
             ErrorCode.ROLEREF_INVALID_LINKTYPE, role_ref_element, linktype=link_type
-- 
2.43.0


From 421dcab889b94cfc3243939c5fe4167754cc148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 81/92] fix: read arcroleURI, not roleURI, of inline arcrole
 references

---
 .../XHMTL/networks/xhtml_parse_footnote_network.py    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 355ee73..8232510 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -390,7 +390,9 @@ def parse_relationships(
 
 
 def parse_role_reference(
-    role_ref_element: _Element, error_repository: ErrorRepository
+    role_ref_element: _Element,
+    error_repository: ErrorRepository,
+    uri_attribute: str = "roleURI",
 ) -> None:
     link_type = get_str_attribute_optional(role_ref_element, "xlink:type")
     if link_type != "simple":
@@ -408,7 +410,7 @@ def parse_role_reference(
             ErrorCode.ROLEREF_INVALID_HREF_ATTRIBUTE, role_ref_element, href=href
         )
 
-    role_uri = get_str_attribute_optional(role_ref_element, "roleURI")
+    role_uri = get_str_attribute_optional(role_ref_element, uri_attribute)
     if not role_uri:
         error_repository.insert(
             ErrorCode.ROLEREF_MISSING_ROLE_URI_ATTRIBUTE, role_ref_element
@@ -432,9 +434,12 @@ def parse_role_references(
     arcrole_ref_elements: List[_Element],
     error_repository: ErrorRepository,
 ) -> None:
-    for role_ref_element in role_ref_elements + arcrole_ref_elements:
+    for role_ref_element in role_ref_elements:
         parse_role_reference(role_ref_element, error_repository)
 
+    for arcrole_ref_element in arcrole_ref_elements:
+        parse_role_reference(arcrole_ref_element, error_repository, "arcroleURI")
+
 
 def parse_footnote_networks_xhtml(
     context: FilingContext,
-- 
2.43.0


From 641c6ca8355281ac2cc90288a405507abda96d7b Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 82/92] fix: print the URI and info of components as they are,
 not as markup

---
 brel/utils/print_component.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brel/utils/print_component.py b/brel/utils/print_component.py
index 024c490..b7aa75c 100644
--- a/brel/utils/print_component.py
+++ b/brel/utils/print_component.py
@@ -11,6 +11,7 @@ Module for pretty printing a component and all its networks to the console.
 """
 
 import rich
+from rich.text import Text
 from brel import Component
 from brel.utils import pprint_network
 
@@ -22,8 +23,9 @@ def pprint_component(component: Component):
 
     # print(f"Component: {component.get_URI()}")
     # print(f"Info: {component.get_info()}")
-    rich.print(f"[bold]Component:[/bold] {component.get_URI()}")
-    rich.print(f"[italic]Info:[/italic] {component.get_info()}")
+    # the URI and the info are not markup, whatever brackets or colons they contain
+    rich.print(Text.assemble(("Component:", "bold"), f" {component.get_URI()}"))
+    rich.print(Text.assemble(("Info:", "italic"), f" {component.get_info()}"))
 
     networks = component.get_networks()
     for network in networks:
-- 
2.43.0


From 622a7434eedf87070bc9d639537fb00180f48a6a Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 83/92] fix: print the facts that footnote networks start from
 instead of empty lines

---
 brel/utils/print_networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brel/utils/print_networks.py b/brel/utils/print_networks.py
index 8917aa8..a2c90df 100644
--- a/brel/utils/print_networks.py
+++ b/brel/utils/print_networks.py
@@ -80,6 +80,9 @@ def __print_sub_network(node: INetworkNode, last=True, header="") -> None:
             type_str = tag_lookup[type(re)]
 
         output_string += type_str + " " + node_as_str
+    elif node_is_a == "fact":
+        fact = node.get_fact()
+        output_string += f"[FACT] {fact.get_id()} {fact.get_concept()}"
 
     if hasattr(node, "get_weight"):
         weight = getattr(node, "get_weight")()
-- 
2.43.0


From 6ab7e0281ad506a55882311ee30d47aa5b510bfd Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 00:18:10 +0000
Subject: [PATCH 84/92] fix: the dictionary of a component misspelt
 definition-network

---
 brel/brel_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/brel_component.py b/brel/brel_component.py
index 6701391..c9e3c17 100644
--- a/brel/brel_component.py
+++ b/brel/brel_component.py
@@ -189,7 +189,7 @@ class Component:
                 "calculation-network": (
                     True if self.__calculation_network is not None else False
                 ),
-                "definintion-network": (
+                "definition-network": (
                     True if self.__definition_network is not None else False
                 ),
             }
-- 
2.43.0


From 9ae68c1546c2eb3a1be1d25bb32104df2c373f04 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 00:30:32 +0000
Subject: [PATCH 85/92] fix: locators lead to the element of the document they
 point at, also if ids occur in several documents

---
 .../in_memory_report_element_repository.py    | 13 ++++++++--
 .../report_element_repository.py              |  3 ++-
 .../XML/networks/xml_extended_link_parser.py  | 24 ++++++++++++++-----
 brel/services/xml/xml_service.py              |  6 ++++-
 4 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/brel/data/report_element/in_memory_report_element_repository.py b/brel/data/report_element/in_memory_report_element_repository.py
index b303f4d..59d2370 100644
--- a/brel/data/report_element/in_memory_report_element_repository.py
+++ b/brel/data/report_element/in_memory_report_element_repository.py
@@ -11,12 +11,16 @@
 from brel.data.report_element.report_element_repository import ReportElementRepository
 from brel.reportelements.i_report_element import IReportElement
 from brel.qnames.qname import QName
+from typing import Optional
 
 
 class InMemoryReportElementRepository(ReportElementRepository):
     def __init__(self) -> None:
         self.__elements_by_qname: dict[QName, IReportElement] = {}
         self.__elements_by_id: dict[str, IReportElement] = {}
+        self.__elements_by_namespace_and_id: dict[
+            tuple[str | None, str], IReportElement
+        ] = {}
 
     def has_qname(self, qname: QName) -> bool:
         return qname in self.__elements_by_qname
@@ -32,17 +36,22 @@ class InMemoryReportElementRepository(ReportElementRepository):
 
         return self.__elements_by_qname[qname]
 
-    def get_by_id(self, id: str) -> IReportElement:
+    def get_by_id(self, id: str, namespace: Optional[str] = None) -> IReportElement:
         if not self.has_id(id):
             raise KeyError(f"Report element with ID {id} not found in repository.")
 
-        return self.__elements_by_id[id]
+        element = self.__elements_by_id[id]
+        return self.__elements_by_namespace_and_id.get((namespace, id), element)
 
     def upsert(self, report_element: IReportElement) -> None:
         self.__elements_by_qname[report_element.get_name()] = report_element
         report_element_id = report_element.get_id()
         if report_element_id is not None:
             self.__elements_by_id[report_element_id] = report_element
+            namespace = report_element.get_name().get_URL()
+            self.__elements_by_namespace_and_id[
+                (namespace, report_element_id)
+            ] = report_element
 
     def get_all(self) -> list[IReportElement]:
         return list(self.__elements_by_qname.values())
diff --git a/brel/data/report_element/report_element_repository.py b/brel/data/report_element/report_element_repository.py
index 736fb87..5e02b99 100644
--- a/brel/data/report_element/report_element_repository.py
+++ b/brel/data/report_element/report_element_repository.py
@@ -11,6 +11,7 @@
 from brel.reportelements.i_report_element import IReportElement
 from brel.qnames.qname import QName
 from abc import ABC, abstractmethod
+from typing import Optional
 
 
 class ReportElementRepository(ABC):
@@ -27,7 +28,7 @@ class ReportElementRepository(ABC):
         pass
 
     @abstractmethod
-    def get_by_id(self, id: str) -> IReportElement:
+    def get_by_id(self, id: str, namespace: Optional[str] = None) -> IReportElement:
         pass
 
     @abstractmethod
diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 5f00be3..47308bb 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -51,18 +51,30 @@ def get_object_from_reference(
     report_element_repository = filing_context.get_report_element_repository()
     fact_repository = filing_context.get_fact_repository()
     error_repository = filing_context.get_error_repository()
+    xml_service = filing_context.get_xml_service()
 
     referenced_element_type = get_str_attribute(referenced_element, "xlink:type")
 
     if referenced_element_type == "locator":
         locator_target_element: IReportElement | IResource | Fact | None = None
 
-        href = get_str_attribute(referenced_element, "xlink:href")
-
-        elem_id = href.strip().split("#")[-1]
-
-        if report_element_repository.has_id(elem_id):
-            locator_target_element = report_element_repository.get_by_id(elem_id)
+        href = get_str_attribute(referenced_element, "xlink:href").strip()
+
+        # ids are only unique within a document
+        target_uri, _, elem_id = href.rpartition("#")
+        target_etree = xml_service.find_etree_of_element(referenced_element)
+        if target_uri:
+            target_etree = xml_service.find_referenced_etree(target_uri, target_etree)
+        namespace = None
+        is_in_instance = False
+        if target_etree is not None:
+            namespace = target_etree.getroot().get("targetNamespace")
+            is_in_instance = namespace is None and fact_repository.has_id(elem_id)
+
+        if report_element_repository.has_id(elem_id) and not is_in_instance:
+            locator_target_element = report_element_repository.get_by_id(
+                elem_id, namespace
+            )
         elif fact_repository.has_id(elem_id):
             locator_target_element = fact_repository.get_by_id(elem_id)
         else:
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 94d57e9..854823f 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -12,7 +12,7 @@ import os
 from io import BytesIO
 from typing import Dict, List, Optional
 import urllib.parse
-from lxml.etree import _ElementTree  # type: ignore
+from lxml.etree import _Element, _ElementTree  # type: ignore
 import urllib
 
 from brel.data.uri_rewrite.uri_rewrite_repository import URIRewriteRepository
@@ -124,6 +124,10 @@ class XMLService:
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
 
+    def find_etree_of_element(self, element: _Element) -> _ElementTree:
+        root = element.getroottree().getroot()
+        return next(etree for etree in self.get_all_etrees() if etree.getroot() is root)
+
     def find_referenced_etree(
         self, uri: str, referencing_etree: _ElementTree
     ) -> Optional[_ElementTree]:
-- 
2.43.0


From 66c29a9b2c26c09489b4030edd3db92bc56060a6 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 00:43:12 +0000
Subject: [PATCH 86/92] fix: report headers in the head of XHTML documents

---
 brel/parsers/XHMTL/elements/parse_header.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_header.py b/brel/parsers/XHMTL/elements/parse_header.py
index e533c22..f63e3f6 100644
--- a/brel/parsers/XHMTL/elements/parse_header.py
+++ b/brel/parsers/XHMTL/elements/parse_header.py
@@ -3,7 +3,6 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 
 from brel.parsers.utils.lxml_utils import (
-    find_element,
     find_elements,
     get_prefix_localname_tag,
 )
@@ -13,9 +12,13 @@ from lxml.etree import _Element
 def check_no_header_element_in_head(
     etree: _Element, error_repository: ErrorRepository
 ) -> None:
-    head_elements = find_elements(etree, ".//head")
+    head_elements = find_elements(etree, ".//*[local-name()='head']")
     for head_element in head_elements:
-        if find_element(head_element, ".//ix:header"):
+        if find_elements(
+            head_element,
+            ".//ix:header",
+            namespaces={"ix": "http://www.xbrl.org/2013/inlineXBRL"},
+        ):
             error_repository.insert(
                 ErrorCode.IXBRL_HEADER_ELEMENT_IN_HEAD, head_element
             )
-- 
2.43.0


From e4b6aae0fa9836b4be016e30ad8c74b8df7b7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:50 +0000
Subject: [PATCH 87/92] fix: role types are read whatever prefix their document
 binds to the linkbase namespace

---
 brel/parsers/XML/xml_component_parser.py | 25 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/brel/parsers/XML/xml_component_parser.py b/brel/parsers/XML/xml_component_parser.py
index 0904116..9d6a4b4 100644
--- a/brel/parsers/XML/xml_component_parser.py
+++ b/brel/parsers/XML/xml_component_parser.py
@@ -28,7 +28,15 @@ from brel.contexts.filing_context import FilingContext
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.component.component_repository import ComponentRepository
 from brel.data.network.network_repository import NetworkRepository
-from brel.parsers.utils.lxml_utils import find_element, find_elements, get_str_attribute
+from brel.parsers.utils.lxml_utils import find_elements, get_str_attribute
+from brel.qnames.qname_utils import qname_from_str
+
+LINK_NAMESPACE = "http://www.xbrl.org/2003/linkbase"
+
+
+def get_used_on_name(used_on: lxml.etree._Element) -> str:  # type: ignore
+    """The name that a usedOn element contains, in clark notation, whatever prefix the document uses for it."""
+    return qname_from_str((used_on.text or "").strip(), used_on).clark_notation()
 
 
 def parse_component_from_xml(
@@ -40,13 +48,14 @@ def parse_component_from_xml(
 
     role_uri = get_str_attribute(xml_element, "roleURI")
 
-    info_element = find_element(xml_element, "link:definition")
-    info = (info_element.text or "") if info_element is not None else ""
+    link_namespaces = {"link": LINK_NAMESPACE}
+    info_elements = find_elements(xml_element, "link:definition", link_namespaces)
+    info = (info_elements[0].text or "") if info_elements else ""
 
-    used_ons = [used_on.text for used_on in find_elements(xml_element, "link:usedOn")]
+    used_ons = [get_used_on_name(used_on) for used_on in find_elements(xml_element, "link:usedOn", link_namespaces)]
     networks_in_component = network_repository.get_by_linkrole(role_uri)
 
-    if "link:presentationLink" not in used_ons and any(
+    if f"{{{LINK_NAMESPACE}}}presentationLink" not in used_ons and any(
         map(lambda n: isinstance(n, PresentationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -55,7 +64,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:calculationLink" not in used_ons and any(
+    if f"{{{LINK_NAMESPACE}}}calculationLink" not in used_ons and any(
         map(lambda n: isinstance(n, CalculationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -64,7 +73,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:definitionLink" not in used_ons and any(
+    if f"{{{LINK_NAMESPACE}}}definitionLink" not in used_ons and any(
         map(lambda n: isinstance(n, DefinitionNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -133,6 +142,6 @@ def parse_components_xml(
         for roletype in find_elements(
             schema,
             ".//link:roleType",
-            namespaces={"link": "http://www.xbrl.org/2003/linkbase"},
+            namespaces={"link": LINK_NAMESPACE},
         ):
             component_repository.upsert(parse_component_from_xml(context, roletype))
-- 
2.43.0


From e768a8accb4a986a196868429a338696797d683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:17 +0000
Subject: [PATCH 88/92] fix: typedDomainRef is read whatever prefix its
 document binds to the dimensions namespace

---
 brel/parsers/XML/xml_report_element_parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 6c18e37..fcf4192 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -25,7 +25,6 @@ from brel.parsers.utils.lxml_utils import (
 from brel.qnames.qname_utils import (
     qname_from_str,
     to_clark_notation,
-    to_namespace_localname_notation,
 )
 from brel.reportelements import Dimension
 from brel.services.xml.xml_service import XMLService
@@ -83,7 +82,7 @@ def parse_report_element(
 
         if isinstance(report_element, Dimension):
             typed_domain_ref = qname_from_str(
-                to_namespace_localname_notation("xbrldt", "typedDomainRef"),
+                to_clark_notation("http://xbrl.org/2005/xbrldt", "typedDomainRef"),
                 report_element_xml,
             )
 
-- 
2.43.0


From ad89ade70aea9d04af07507d113a7d49e87540d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:06 +0000
Subject: [PATCH 89/92] fix: white space around an entity identifier is no part
 of it

---
 brel/parsers/XML/characteristics/xml_parse_entity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index 3ae2612..45d2fc6 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -48,9 +48,10 @@ def parse_entity_from_xml(
 
     # The identifier element is guaranteed according to the XBRL 2.1 specification to have a text element
 
-    entity_id = identifier_element.text
+    # Its type is xs:token, so that white space around it is no part of the identifier
+    entity_id = (identifier_element.text or "").strip()
 
-    if entity_id is None:
+    if entity_id == "":
         error_repository.insert(
             ErrorCode.ENTITY_IDENTIFIER_MISSING_VALUE, identifier_element
         )
-- 
2.43.0


From 16c9488f43be51bed0bd255652179475ee1fd4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:38 +0000
Subject: [PATCH 90/92] fix: every arc of an inline footnote network has its
 own order

---
 .../networks/xhtml_parse_footnote_network.py  | 82 ++++++-------------
 1 file changed, 27 insertions(+), 55 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 8232510..5eb0944 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -264,11 +264,11 @@ def parse_relationship(
     return (fromIds, toIds, arcrole, linkrole, order)
 
 
-def create_footnote_network_nodes(
+def create_footnote_network_roots(
     arcs: List[Tuple[List[str], List[str], str, str, float]],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
-):
+) -> List[FootnoteNetworkNode]:
     all_ids: Dict[str, None] = {}
     internal_ids: Set[str] = set()
 
@@ -278,59 +278,34 @@ def create_footnote_network_nodes(
         all_ids.update(dict.fromkeys(to_ids))
         internal_ids.update(to_ids)
 
-    root_ids = [id for id in all_ids if id not in internal_ids]
+    # Every arc has its own node, since its order is its own.
+    # The nodes of the same fact share their children.
+    id_to_children: Dict[str, List[FootnoteNetworkNode]] = {id: [] for id in all_ids}
+
+    def create_node(
+        id: str, arcrole: str, linkrole: str, order: float = 1.0
+    ) -> FootnoteNetworkNode:
+        return FootnoteNetworkNode(
+            footnotes[id] if id in footnotes else fact_repository.get_by_id(id),
+            id_to_children[id],
+            arcrole,
+            qname.FOOTNOTE_NETWORK_ARCNAME,
+            linkrole,
+            qname.FOOTNOTE_NETWORK_LINKNAME,
+            order,
+        )
 
-    id_to_node: Dict[str, FootnoteNetworkNode] = {}
+    root_nodes: Dict[str, FootnoteNetworkNode] = {}
 
     for from_ids, to_ids, arcrole, linkrole, order in arcs:
-        for from_id in from_ids:
-            if from_id not in id_to_node and from_id in root_ids:
-                from_object = fact_repository.get_by_id(from_id)
-                id_to_node[from_id] = FootnoteNetworkNode(
-                    from_object,
-                    [],
-                    arcrole,
-                    qname.FOOTNOTE_NETWORK_ARCNAME,
-                    linkrole,
-                    qname.FOOTNOTE_NETWORK_LINKNAME,
-                )
-
-        for to_id in to_ids:
-            if to_id not in id_to_node:
-                to_object = (
-                    footnotes[to_id]
-                    if to_id in footnotes
-                    else fact_repository.get_by_id(to_id)
-                )
-
-                if to_object is None:
-                    # Error
-                    continue
-
-                id_to_node[to_id] = FootnoteNetworkNode(
-                    to_object,
-                    [],
-                    arcrole,
-                    qname.FOOTNOTE_NETWORK_ARCNAME,
-                    linkrole,
-                    qname.FOOTNOTE_NETWORK_LINKNAME,
-                    order,
-                )
-
-    root_nodes = [id_to_node[id] for id in root_ids]
-
-    return id_to_node, root_nodes
-
-
-def connect_footnote_network_nodes(
-    arcs: List[Tuple[List[str], List[str], str, str, float]],
-    id_to_node: Dict[str, FootnoteNetworkNode],
-):
-    for from_ids, to_ids, _, _, _ in arcs:
         for from_id, to_id in itertools.product(from_ids, to_ids):
-            from_node = id_to_node[from_id]
-            to_node = id_to_node[to_id]
-            from_node._add_child(to_node)
+            from_node = create_node(from_id, arcrole, linkrole)
+            from_node._add_child(create_node(to_id, arcrole, linkrole, order))
+
+            if from_id not in internal_ids:
+                root_nodes.setdefault(from_id, from_node)
+
+    return list(root_nodes.values())
 
 
 def build_footnote_network(
@@ -339,10 +314,7 @@ def build_footnote_network(
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ) -> FootnoteNetwork:
-    id_to_node, root_nodes = create_footnote_network_nodes(
-        arcs, footnotes, fact_repository
-    )
-    connect_footnote_network_nodes(arcs, id_to_node)
+    root_nodes = create_footnote_network_roots(arcs, footnotes, fact_repository)
 
     return FootnoteNetwork(root_nodes, linkrole, qname.FOOTNOTE_NETWORK_LINKNAME, True)
 
-- 
2.43.0


From 1a7b9b166c41fd2d95b6f4bbf2bad3ecd083b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 91/92] fix: substitution groups are transitive and compared by
 name, and local declarations are no report elements

---
 .../parsers/XML/xml_report_element_factory.py | 12 +--
 brel/parsers/XML/xml_report_element_parser.py | 74 ++++++++++++++++++-
 2 files changed, 79 insertions(+), 7 deletions(-)

diff --git a/brel/parsers/XML/xml_report_element_factory.py b/brel/parsers/XML/xml_report_element_factory.py
index 590a4e2..fb7bc2b 100644
--- a/brel/parsers/XML/xml_report_element_factory.py
+++ b/brel/parsers/XML/xml_report_element_factory.py
@@ -29,21 +29,23 @@ class XMLReportElementFactory:
         report_element_name: QName,
         labels: list[BrelLabel],
         error_repository: ErrorRepository,
+        substitution_group: str = "",
     ) -> IReportElement | None:
         """
         Creates a report element from an lxml.etree._Element.
         The kind of report element created depends on the structure of the lxml.etree._Element.
+        :param substitution_group: the local name of the XBRL element that the element substitutes, directly or not.
         :param xml_element: lxml.etree._Element. The lxml.etree._Element to create the report element from.
         :returns tuple[str, IReportElement] | None: The report element created and its ID.
         """
 
         is_abstract = get_boolean_attribute_optional(xml_element, "abstract") == "true"
 
-        is_item = "item" in xml_element.get("substitutionGroup", "")
-        is_hypercube_item = "hypercubeItem" in xml_element.get("substitutionGroup", "")
-        is_dimension_item = "dimensionItem" in xml_element.get("substitutionGroup", "")
-        is_domain_item_type = "domainItemType" in xml_element.get("type", "")
-        is_item = "item" in xml_element.get("substitutionGroup", "")
+        is_item = substitution_group == "item"
+        is_hypercube_item = substitution_group == "hypercubeItem"
+        is_dimension_item = substitution_group == "dimensionItem"
+        type_local_name = xml_element.get("type", "").strip().rpartition(":")[2]
+        is_domain_item_type = type_local_name == "domainItemType"
 
         is_line_items = "LineItems" in xml_element.get("name", "")
 
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index fcf4192..d1b07cb 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -11,6 +11,8 @@ It parses XBRL in the XML syntax.
 ====================
 """
 
+from typing import Dict, Optional
+
 import lxml.etree
 
 from brel.data.errors.error_repository import ErrorRepository
@@ -33,12 +35,21 @@ from brel.data.report_element.report_element_repository import ReportElementRepo
 from brel.contexts.filing_context import FilingContext
 
 
+SUBSTITUTION_GROUPS = {
+    to_clark_notation("http://www.xbrl.org/2003/instance", "item"): "item",
+    to_clark_notation("http://www.xbrl.org/2003/instance", "tuple"): "tuple",
+    to_clark_notation("http://xbrl.org/2005/xbrldt", "hypercubeItem"): "hypercubeItem",
+    to_clark_notation("http://xbrl.org/2005/xbrldt", "dimensionItem"): "dimensionItem",
+}
+
+
 def parse_report_elements_xml(
     context: FilingContext,
 ) -> None:
     error_repository = context.get_error_repository()
     xml_service = context.get_xml_service()
     report_element_repository = context.get_report_element_repository()
+    substitution_heads = find_substitution_heads(xml_service)
 
     for etree in xml_service.get_all_etrees():
         if not has_str_attribute(etree.getroot(), "targetNamespace"):
@@ -48,7 +59,7 @@ def parse_report_elements_xml(
 
         re_xmls = find_elements(
             etree,
-            ".//xs:element[@name]",
+            "/xs:schema/xs:element[@name]",
             namespaces={"xs": "http://www.w3.org/2001/XMLSchema"},
         )
         for re_xml in re_xmls:
@@ -59,9 +70,63 @@ def parse_report_elements_xml(
                 report_element_xml=re_xml,
                 target_namespace_url=target_namespace_url,
                 error_repository=error_repository,
+                substitution_heads=substitution_heads,
             )
 
 
+def get_substitution_head(report_element_xml: lxml.etree._Element) -> Optional[str]:  # type: ignore
+    """
+    :param report_element_xml: the declaration of an element
+    :returns Optional[str]: the head of its substitution group in Clark notation, None if it has none.
+    """
+    head = get_str_attribute_optional(report_element_xml, "substitutionGroup")
+    if head is None:
+        return None
+    return qname_from_str(head.strip(), report_element_xml).clark_notation()
+
+
+def find_substitution_heads(xml_service: XMLService) -> Dict[str, Optional[str]]:
+    """
+    Finds what the global elements of all schemas substitute.
+    :param xml_service: the XMLService that holds the schemas
+    :returns Dict[str, Optional[str]]: the head of the substitution group of each element.
+        The elements and heads are in Clark notation.
+    """
+    substitution_heads: Dict[str, Optional[str]] = {}
+    for etree in xml_service.get_all_etrees():
+        namespace = get_str_attribute(etree.getroot(), "targetNamespace", "")
+        for element in find_elements(
+            etree,
+            "/xs:schema/xs:element[@name]",
+            namespaces={"xs": "http://www.w3.org/2001/XMLSchema"},
+        ):
+            name = to_clark_notation(namespace, get_str_attribute(element, "name"))
+            substitution_heads.setdefault(name, get_substitution_head(element))
+
+    return substitution_heads
+
+
+def get_substitution_group(
+    report_element_xml: lxml.etree._Element,  # type: ignore
+    substitution_heads: Dict[str, Optional[str]],
+) -> str:
+    """
+    Substitution is transitive: an element can substitute an XBRL element by way of elements of other schemas.
+    :param report_element_xml: the declaration of the element
+    :param substitution_heads: the head of the substitution group of each element
+    :returns str: the local name of the XBRL element that the element substitutes, and "" if there is none
+    """
+    head = get_substitution_head(report_element_xml)
+    visited = set()
+    while head is not None and head not in visited:
+        if head in SUBSTITUTION_GROUPS:
+            return SUBSTITUTION_GROUPS[head]
+        visited.add(head)
+        head = substitution_heads.get(head)
+
+    return ""
+
+
 def parse_report_element(
     report_element_repository: ReportElementRepository,
     xml_service: XMLService,
@@ -69,13 +134,18 @@ def parse_report_element(
     report_element_xml: lxml.etree._Element,  # type: ignore
     target_namespace_url: str,
     error_repository: ErrorRepository,
+    substitution_heads: Dict[str, Optional[str]],
 ):
     qname_tag = get_str_attribute(report_element_xml, "name")
     qname = qname_from_str(
         to_clark_notation(target_namespace_url, qname_tag), report_element_xml
     )
     report_element = XMLReportElementFactory.create(
-        report_element_xml, qname, [], error_repository
+        report_element_xml,
+        qname,
+        [],
+        error_repository,
+        get_substitution_group(report_element_xml, substitution_heads),
     )
     if report_element and not report_element_repository.has_qname(qname):
         report_element_repository.upsert(report_element)
-- 
2.43.0


From 2d65ae68a383aad3ed125028cbaa2695bfe4d226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:58 +0000
Subject: [PATCH 92/92] fix: the namespaces of XBRL's syntax may be bound to
 any prefix

---
 .../XHMTL/elements/parse_non_fraction.py      |  7 +-
 .../XHMTL/elements/parse_non_numeric.py       |  3 +-
 .../XML/networks/xml_networks_parser.py       |  7 +-
 brel/parsers/utils/lxml_utils.py              | 75 +++++++++++++++----
 4 files changed, 69 insertions(+), 23 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 5624a56..7298d57 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -12,6 +12,7 @@ from brel.parsers.utils.lxml_utils import (
     get_prefix_localname_tag,
     get_boolean_attribute_optional,
     get_str_attribute_optional,
+    get_transformation_format_optional,
 )
 from lxml.etree import _Element
 from lxml import etree
@@ -57,11 +58,11 @@ def validate_descendant_non_fraction_rules(
             ErrorCode.IXBRL_NIL_ATTRIBUTE_IN_NON_FRACTION_CHILD, element
         )
 
-    parent_format = get_str_attribute_optional(parent, "format")
+    parent_format = get_transformation_format_optional(parent)
     parent_scale = get_str_attribute_optional(parent, "scale")
     parent_unit = get_str_attribute_optional(parent, "unitRef")
 
-    this_format = get_str_attribute_optional(element, "format")
+    this_format = get_transformation_format_optional(element)
     this_scale = get_str_attribute_optional(element, "scale")
     this_unit = get_str_attribute_optional(element, "unitRef")
 
@@ -85,7 +86,7 @@ def validate_descendant_non_fraction_rules(
 def process_non_fraction_value(
     fact_element: _Element, text: str | None, error_repository: ErrorRepository
 ) -> str:
-    format = get_str_attribute_optional(fact_element, "format")
+    format = get_transformation_format_optional(fact_element)
     scale = get_str_attribute_optional(fact_element, "scale")
     sign = get_str_attribute_optional(fact_element, "sign")
 
diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index 045c450..b254824 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -17,6 +17,7 @@ from brel.parsers.XHMTL.xhtml_parse_transformation_registry import (
 from brel.parsers.utils.lxml_utils import (
     get_boolean_attribute_optional,
     get_str_attribute_optional,
+    get_transformation_format_optional,
 )
 
 
@@ -101,7 +102,7 @@ def parse_non_numeric_fact_element(
     else:
         fact_value = extract_text_content(relevant_content)
 
-    format = get_str_attribute_optional(fact_element, "format")
+    format = get_transformation_format_optional(fact_element)
     parsed_value = parse_non_numerical_fact_value(
         fact_value, format, fact_element, error_repository
     )
diff --git a/brel/parsers/XML/networks/xml_networks_parser.py b/brel/parsers/XML/networks/xml_networks_parser.py
index 95e5d3e..2967b93 100644
--- a/brel/parsers/XML/networks/xml_networks_parser.py
+++ b/brel/parsers/XML/networks/xml_networks_parser.py
@@ -26,7 +26,6 @@ from brel.parsers.utils.lxml_utils import (
     get_str_attribute_optional,
 )
 from brel.parsers.utils.network_utils import combine_networks
-from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import *
 from brel.resource import *
 
@@ -83,16 +82,14 @@ def parse_networks_from_xmls(
 
     link_xmls.sort(
         key=lambda link: is_standard_role(
-            get_str_attribute(link, qname_from_str("xlink:role", link), "")
+            get_str_attribute(link, "xlink:role", "")
         ),
         reverse=True,
     )
 
     # First pass: parse networks
     for link_xml in link_xmls:
-        link_role = get_str_attribute_optional(
-            link_xml, qname_from_str("xlink:role", link_xml)
-        )
+        link_role = get_str_attribute_optional(link_xml, "xlink:role")
         if link_role is None:
             error_repository.insert(ErrorCode.MISSING_LINK_ROLE, link_xml)
             continue
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 7da2991..cdecf63 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -18,9 +18,44 @@ from brel.qnames.qname_utils import (
     is_clark_notation,
     is_namespace_localname_notation,
     qname_from_str,
+    to_clark_notation,
 )
 
 
+# The prefixes by which brel refers to these namespaces. Documents may bind other prefixes to them.
+SYNTAX_NAMESPACES = {
+    "ix": "http://www.xbrl.org/2013/inlineXBRL",
+    "link": "http://www.xbrl.org/2003/linkbase",
+    "xbrldi": "http://xbrl.org/2006/xbrldi",
+    "xbrli": "http://www.xbrl.org/2003/instance",
+    "xlink": "http://www.w3.org/1999/xlink",
+    "xsi": "http://www.w3.org/2001/XMLSchema-instance",
+}
+
+
+# All versions of the transformation registry are in namespaces that start like this
+TRANSFORMATION_REGISTRY = "http://www.xbrl.org/inlineXBRL/transformation/"
+
+
+def get_clark_notation_attribute(element: _Element, attribute: str | QName) -> str:
+    """
+    Helper function for getting the name of an attribute in Clark notation, unless it has no namespace.
+    :param element: lxml.etree.Element whose namespaces are used for the prefixes that brel does not use itself
+    :param attribute: str containing the name of the attribute
+    :return: str containing the name of the attribute by which the element can be asked for it
+    """
+    if isinstance(attribute, QName):
+        return attribute.clark_notation()
+
+    if is_namespace_localname_notation(attribute):
+        prefix, _, local_name = attribute.partition(":")
+        if prefix in SYNTAX_NAMESPACES:
+            return to_clark_notation(SYNTAX_NAMESPACES[prefix], local_name)
+        return qname_from_str(attribute, element).clark_notation()
+
+    return attribute
+
+
 def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     """
     Helper function for checking if an element has a string attribute.
@@ -28,10 +63,7 @@ def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     :param attribute: str containing the name of the attribute
     :returns: bool indicating if the attribute is present
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = get_clark_notation_attribute(element, attribute)
 
     return attribute in element.attrib
 
@@ -48,10 +80,7 @@ def get_str_attribute(
     :raises: if the attribute is not found and no default value is provided
     :raises: if the attribute is not a string
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = get_clark_notation_attribute(element, attribute)
 
     value = element.get(attribute)
     if value is None:
@@ -70,10 +99,7 @@ def get_str_attribute_optional(element: _Element, attribute: str | QName) -> str
     :return: str containing the value of the attribute
     :raises: if the attribute is not a string
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = get_clark_notation_attribute(element, attribute)
 
     return element.attrib.get(attribute)
 
@@ -92,6 +118,21 @@ def get_boolean_attribute_optional(
     return {"1": "true", "0": "false"}.get(value, value) if value else value
 
 
+def get_transformation_format_optional(element: _Element) -> str | None:
+    """
+    Helper function for getting the transformation format of an inline fact.
+    :param element: lxml.etree.Element of the fact
+    :return: str containing its format, with the prefix ixt if it is one of the transformation registry
+    """
+    format = get_str_attribute_optional(element, "format")
+    if format is not None and is_namespace_localname_notation(format):
+        qname = qname_from_str(format, element)
+        if qname.get_URL().startswith(TRANSFORMATION_REGISTRY):
+            return f"ixt:{qname.get_local_name()}"
+
+    return format
+
+
 def get_clark_notation_tag(element: _Element) -> str:  # type: ignore
     """
     Helper function for getting the tag of an element as a string in Clark Notation.
@@ -104,11 +145,16 @@ def get_clark_notation_tag(element: _Element) -> str:  # type: ignore
 def get_prefix_localname_tag(element: _Element) -> str:
     """
     Helper function for getting the tag of an element as a string in prefix:localname notation.
-    Uses the namespaces available in the passed element.
+    Uses the namespaces available in the passed element, and brel's own prefixes for the namespaces of the syntax.
     :param element: lxml.etree.Element to get the tag from
     :returns: str containing the tag of the element
     """
-    return qname_from_str(element.tag, element).prefix_local_name_notation()
+    tag = qname_from_str(element.tag, element)
+    for prefix, namespace in SYNTAX_NAMESPACES.items():
+        if tag.get_URL() == namespace:
+            return f"{prefix}:{tag.get_local_name()}"
+
+    return tag.prefix_local_name_notation()
 
 
 def find_elements(
@@ -124,6 +170,7 @@ def find_elements(
 
     if not namespaces:
         namespaces = {k: v for k, v in element.nsmap.items() if k is not None}
+        namespaces.update(SYNTAX_NAMESPACES)
 
     try:
         find = XPath(xpath_query, namespaces=namespaces)
-- 
2.43.0

