From 351a14d444e52578d92553810e3a7502f24fe193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 01/24] fix: use the device-level size when a register size is
 inherited from the device

The size adjustment fell back to 32 bits as soon as it reached the device, so a
<size> given at device level never reached registers without an own size.
---
 src/svdsuite/resolve/resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 2fb9b48..6f94d29 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -435,7 +435,8 @@ class Resolver:
         parent = parents[0]  # only dim nodes have multiple parents, but all have same size
 
         if parent.level == ElementLevel.DEVICE:
-            return 32  # default size for device
+            device_size = cast(SVDDevice, parent.parsed).size
+            return device_size if device_size is not None else 32  # default size for device
 
         element = parent.processed
         if not isinstance(element, IPeripheral | ICluster):
-- 
2.43.0


From f1472d393b42c7de4f37a7366bfd36db45b92458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 02/24] fix: process a derived element only after its base,
 across dim expansion

An element whose base was itself waiting for a dim expansion was scheduled one
round too early and failed with 'Base element not found' (or, for enumerated
value containers, silently copied the not yet resolved base).
---
 src/svdsuite/resolve/resolver.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 6f94d29..d56eac4 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -241,7 +241,35 @@ class Resolver:
             for child in self._resolver_graph.get_element_childrens(node):
                 stack.append(child)
 
-        return result
+        return self._drop_nodes_with_blocked_base(result)
+
+    def _drop_nodes_with_blocked_base(self, nodes: list[ElementNode]) -> list[ElementNode]:
+        # A node can only be processed if its base and its parent are either already processed or processed in the
+        # same round (topological sorting takes care of the order within the round)
+        remaining = nodes
+        while True:
+            available = set(remaining)
+
+            def is_blocked(node: ElementNode) -> bool:
+                if node.status == NodeStatus.PROCESSED:
+                    return False
+
+                predecessors = self._resolver_graph.get_element_parents(node)
+                base_node = self._resolver_graph.get_base_element_node(node)
+                if base_node is not None:
+                    predecessors.append(base_node)
+
+                return any(
+                    predecessor.status == NodeStatus.UNPROCESSED
+                    and predecessor not in available  # pylint: disable=cell-var-from-loop
+                    for predecessor in predecessors
+                )
+
+            kept = [node for node in remaining if not is_blocked(node)]
+            if len(kept) == len(remaining):
+                return kept
+
+            remaining = kept
 
     def _resolve_placeholder(self, placeholder: PlaceholderNode):
         if not self._is_placeholder_parent_resolved(placeholder):
-- 
2.43.0


From 91b9fe26436b84440a054a9104f0f392f4807c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 03/24] fix: do not crash when an alternate peripheral or
 cluster does not exist

A dangling alternatePeripheral/alternateCluster reference raised a bare
KeyError; a dangling alternateRegister was already tolerated.
---
 src/svdsuite/process.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 866322c..0f204cb 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -765,7 +765,11 @@ class _ValidateAndFinalize:
             # Add peripherals that have 'current' as their alternate.
             stack.extend(name for name, p in peripheral_lookup.items() if p.alternate_peripheral == current)
             # If the current peripheral has an alternate (primary), add it.
-            primary = peripheral_lookup[current].alternate_peripheral
+            try:
+                primary = peripheral_lookup[current].alternate_peripheral
+            except KeyError:
+                primary = None
+
             if primary is not None:
                 stack.append(primary)
 
@@ -975,7 +979,11 @@ class _ValidateAndFinalize:
             # Add clusters that have 'current' as their alternate.
             stack.extend(name for name, p in cluster_lookup.items() if p.alternate_cluster == current)
             # If the current cluster has an alternate (primary), add it.
-            primary = cluster_lookup[current].alternate_cluster
+            try:
+                primary = cluster_lookup[current].alternate_cluster
+            except KeyError:
+                primary = None
+
             if primary is not None:
                 stack.append(primary)
 
-- 
2.43.0


From bf9b70703432b81fdb7fd04bd8300dfea310a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 04/24] fix: end the allocated range of a map peripheral at its
 furthest address block

The block with the largest offset need not be the one that ends last.
---
 src/svdsuite/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/map.py b/src/svdsuite/map.py
index cd4f0fa..38ed29e 100644
--- a/src/svdsuite/map.py
+++ b/src/svdsuite/map.py
@@ -84,6 +84,6 @@ class PeripheralRegisterMap:
             raise ValueError("Address blocks are empty")
 
         begin = start_address + address_blocks[0].offset
-        end = start_address + address_blocks[-1].offset + address_blocks[-1].size - 1
+        end = max(start_address + block.offset + block.size - 1 for block in address_blocks)
 
         return (begin, end)
-- 
2.43.0


From 9ac874129528179f30a3b69c8a01fb2742b5db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 05/24] fix: serialize a bitOffset, bitWidth, lsb or msb that
 stands alone

A derived field may override only one of the pair (bitWidth is optional in the
schema); the lone element was dropped from the output.
---
 src/svdsuite/serialize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/serialize.py b/src/svdsuite/serialize.py
index afaac20..c0cffdc 100644
--- a/src/svdsuite/serialize.py
+++ b/src/svdsuite/serialize.py
@@ -316,12 +316,16 @@ class SVDFieldSerializer(XMLSerializable):
         if self.field.description is not None:
             element.append(self._append_element("description", text=self.field.description))
 
-        if self.field.bit_offset is not None and self.field.bit_width is not None:
+        if self.field.bit_offset is not None:
             element.append(self._append_element("bitOffset", text=str(self.field.bit_offset)))
+
+        if self.field.bit_width is not None:
             element.append(self._append_element("bitWidth", text=str(self.field.bit_width)))
 
-        if self.field.lsb is not None and self.field.msb is not None:
+        if self.field.lsb is not None:
             element.append(self._append_element("lsb", text=str(self.field.lsb)))
+
+        if self.field.msb is not None:
             element.append(self._append_element("msb", text=str(self.field.msb)))
 
         if self.field.bit_range is not None:
-- 
2.43.0


From f65ea3e67a3de6d18125c7a8c3bf16685e754783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 06/24] fix: ignore a stale encoding declaration in an already
 decoded XML string

The from_xml_str entry points encoded the text as UTF-8 but left a declaration
such as encoding='iso-8859-1' in force, which garbled every non-ASCII character.
---
 src/svdsuite/map.py            | 2 +-
 src/svdsuite/parse.py          | 4 ++--
 src/svdsuite/process.py        | 2 +-
 src/svdsuite/util/xml_parse.py | 6 ++++++
 src/svdsuite/validate.py       | 4 ++--
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/svdsuite/map.py b/src/svdsuite/map.py
index 38ed29e..f890e0d 100644
--- a/src/svdsuite/map.py
+++ b/src/svdsuite/map.py
@@ -10,7 +10,7 @@ class PeripheralRegisterMap:
 
     @classmethod
     def from_xml_str(cls, xml_str: str, resolver_logging_file_path: None | str = None):
-        return cls(Process.from_xml_content(xml_str.encode(), resolver_logging_file_path).get_processed_device())
+        return cls(Process.from_xml_str(xml_str, resolver_logging_file_path).get_processed_device())
 
     @classmethod
     def from_xml_content(cls, content: bytes, resolver_logging_file_path: None | str = None):
diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 82b4378..e9e6135 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -33,7 +33,7 @@ from svdsuite.model.types import (
     SauAccessType,
 )
 from svdsuite.util.parser_exception_warning import ParserException, ParserWarning, custom_warning_format
-from svdsuite.util.xml_parse import safe_parse, safe_fromstring
+from svdsuite.util.xml_parse import encode_xml_str, safe_parse, safe_fromstring
 
 warnings.formatwarning = custom_warning_format
 
@@ -103,7 +103,7 @@ class Parser:
 
     @staticmethod
     def from_xml_str(xml_str: str):
-        return Parser.from_xml_content(xml_str.encode())
+        return Parser.from_xml_content(encode_xml_str(xml_str))
 
     @classmethod
     def from_xml_content(cls, content: bytes):
diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 0f204cb..b49b111 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -71,7 +71,7 @@ class Process:
 
     @classmethod
     def from_xml_str(cls, xml_str: str, resolver_logging_file_path: None | str = None):
-        return cls(Parser.from_xml_content(xml_str.encode()).get_parsed_device(), resolver_logging_file_path)
+        return cls(Parser.from_xml_str(xml_str).get_parsed_device(), resolver_logging_file_path)
 
     @classmethod
     def from_xml_content(cls, content: bytes, resolver_logging_file_path: None | str = None):
diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 5bccf84..4097b12 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -10,6 +10,12 @@ warnings.formatwarning = custom_warning_format
 _COMMON_ENCODINGS = ["utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii"]
 
 
+def encode_xml_str(xml_str: str) -> bytes:
+    # The byte order mark takes precedence over the encoding named in an XML declaration, which says how the text was
+    # once stored and no longer applies to an already decoded string.
+    return xml_str.removeprefix("\ufeff").encode("utf-8-sig")
+
+
 def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright: ignore[reportPrivateUsage]
     # First attempt: no encoding, recover=False.
     try:
diff --git a/src/svdsuite/validate.py b/src/svdsuite/validate.py
index 9f18e80..34f22d7 100644
--- a/src/svdsuite/validate.py
+++ b/src/svdsuite/validate.py
@@ -3,7 +3,7 @@ from enum import Enum
 from packaging.version import Version
 import lxml.etree
 
-from svdsuite.util.xml_parse import safe_parse, safe_fromstring
+from svdsuite.util.xml_parse import encode_xml_str, safe_parse, safe_fromstring
 
 
 class SVDSchemaVersion(Enum):
@@ -50,7 +50,7 @@ class Validator:
     def validate_xml_str(
         xml_str: str, get_exception: bool = True, schema_version: SVDSchemaVersion = SVDSchemaVersion.get_latest()
     ) -> bool:
-        return Validator.validate_xml_content(xml_str.encode(), get_exception, schema_version)
+        return Validator.validate_xml_content(encode_xml_str(xml_str), get_exception, schema_version)
 
     @staticmethod
     def _validate(
-- 
2.43.0


From e1f1a7fe841e8c89a1bfc1287031f6ef38797ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 07/24] fix: report every resolving failure as a
 ProcessException

An ambiguous derivedFrom path or a derivation from an enclosing element escaped
as an internal ResolveException, unlike the other resolving failures.
---
 src/svdsuite/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index b49b111..3158911 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -48,6 +48,8 @@ from svdsuite.resolve.exception import (
     LoopException,
     CycleException,
     UnprocessedNodesException,
+    ResolveException,
+    ResolverGraphException,
 )
 from svdsuite.model.type_alias import ParsedDimablePeripheralTypes, IntermediateDimablePeripheralTypes
 
@@ -104,6 +106,8 @@ class Process:
             raise ProcessException("A circular inheritance was detected during resolving") from e
         except UnprocessedNodesException as e:
             raise ProcessException("Some nodes were not processed during resolving") from e
+        except (ResolveException, ResolverGraphException) as e:
+            raise ProcessException(f"Resolving failed: {e}") from e
 
         intermediate_device = IDevice(
             size=size,
-- 
2.43.0


From 72a2ad6809101804990e95fcee5094c5d0eb9541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 08/24] fix: reject a malformed dimIndex range with a
 ProcessException

Text after the range (such as '0-3x' or 'A-C-D') raised a bare ValueError.
---
 src/svdsuite/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 3158911..2c11e0b 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1130,14 +1130,14 @@ class _ProcessDimension:
 
         if dim_index is None:
             dim_index_list = [str(i) for i in range(dim)]
-        elif re.match(r"[0-9]+\-[0-9]+", dim_index):
+        elif re.fullmatch(r"[0-9]+\-[0-9]+", dim_index):
             start, end = dim_index.split("-")
 
             if int(start) > int(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
             dim_index_list = [str(i) for i in range(int(start), int(end) + 1)]
-        elif re.match(r"[A-Z]-[A-Z]", dim_index):
+        elif re.fullmatch(r"[A-Z]-[A-Z]", dim_index):
             start, end = dim_index.split("-")
 
             if ord(start) >= ord(end):
-- 
2.43.0


From 12bef51779df8f1b50ba0ef2d529650aa9c4f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 09/24] fix: tolerate a default enumerated value in a field
 with swapped msb and lsb

Such a field is only warned about, but a default enumerated value in it raised a
TypeError.
---
 src/svdsuite/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 2c11e0b..362227d 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1264,7 +1264,7 @@ class _ProcessEnumeratedValueContainer:
         self, enumerated_values: list[IEnumeratedValue], default: IEnumeratedValue, lsb: int, msb: int
     ) -> list[IEnumeratedValue]:
         covered_values = {value.value for value in enumerated_values if value.value is not None}
-        all_possible_values = set(range(pow(2, msb - lsb + 1)))
+        all_possible_values = set(range(pow(2, max(msb - lsb + 1, 0))))
 
         uncovered_values = all_possible_values - covered_values
 
-- 
2.43.0


From c70314bbcfd97774dbbbcd000d676a0e9f616e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 10/24] fix: choose the base among equally named registers
 independently of their order

---
 src/svdsuite/resolve/resolver.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index d56eac4..ea957e7 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -318,17 +318,18 @@ class Resolver:
                     )
                     matches.extend(child_matches)
 
-                if len(matches) > 1:
-                    filtered_matches = [
-                        match
-                        for match in matches
-                        if isinstance(match.processed, IRegister) and match.processed.alternate_group is None
-                    ]
-                    if len(filtered_matches) == 1:
-                        return filtered_matches
-
-                    # More than one match found – raise exception immediately
-                    raise ResolveException(f"Multiple base nodes found for derive path '{'.'.join(path_parts)}'")
+            if len(matches) > 1:
+                filtered_matches = [
+                    match
+                    for match in matches
+                    if isinstance(match.processed_or_none, IRegister)
+                    and match.processed_or_none.alternate_group is None
+                ]
+                if len(filtered_matches) == 1:
+                    return filtered_matches
+
+                # More than one match found – raise exception
+                raise ResolveException(f"Multiple base nodes found for derive path '{'.'.join(path_parts)}'")
 
             return matches
 
-- 
2.43.0


From a17baa4fdb099cfa55f06f72c3d3b654b170d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 11/24] fix: do not crash on a repeated element without text

---
 src/svdsuite/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index e9e6135..cd777f6 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -143,7 +143,7 @@ class Parser:
         elements = parent.findall(element_name)
 
         if len(elements) > 1:
-            texts = ", ".join([x.text for x in elements])  # type: ignore[union-attr]
+            texts = ", ".join([x.text or "" for x in elements])
             lines = ", ".join([str(x.sourceline) for x in elements])
             warnings.warn(
                 f"Multiple elements '{element_name}' with texts '{texts}' found at svd file source lines '{lines}'. "
-- 
2.43.0


From bf86a23dca9449ab82df329f66900c12400f901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 12/24] fix: link a converted write constraint to its field or
 register

---
 src/svdsuite/util/process_parse_model_convert.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/svdsuite/util/process_parse_model_convert.py b/src/svdsuite/util/process_parse_model_convert.py
index 04ad35f..f550f46 100644
--- a/src/svdsuite/util/process_parse_model_convert.py
+++ b/src/svdsuite/util/process_parse_model_convert.py
@@ -183,6 +183,9 @@ def process_parse_convert_field(field: Field) -> SVDField:
         parent=None,  # set by parent register
     )
 
+    if svd_field.write_constraint:
+        svd_field.write_constraint.parent = svd_field
+
     for container in enumerated_value_containers:
         container.parent = svd_field
 
@@ -215,6 +218,9 @@ def process_parse_convert_register(register: Register) -> SVDRegister:
         parent=None,  # set by parent cluster or peripheral
     )
 
+    if svd_register.write_constraint:
+        svd_register.write_constraint.parent = svd_register
+
     for field in fields:
         field.parent = svd_register
 
-- 
2.43.0


From eeae68a4829af0536886ef364170f0881e37e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 13/24] fix: replicate the derivation edges inside a copied
 subtree only once

---
 src/svdsuite/resolve/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index b152d4c..8f56f17 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -256,7 +256,7 @@ class ResolverGraph:
         for rx_index in rx_indices_to_replicate:
             # replicate outgoing _EdgeType.PROCESSED and _EdgeType.UNPROCESSED edges
             for _, child_rx_index, edge_type in self._graph.out_edges(rx_index):
-                if child_rx_index not in rx_indices_to_replicate:
+                if edge_type == EdgeType.DERIVE or child_rx_index not in rx_indices_to_replicate:
                     continue
 
                 self._graph.add_edge(replica_mapping[rx_index], replica_mapping[child_rx_index], edge_type)
-- 
2.43.0


From ed8f232d0b92096ee630c2c52efddc47347fdfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 14/24] fix: copy the unresolved derivations of a resolved dim
 element's children

---
 src/svdsuite/resolve/graph.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 8f56f17..b26e9cb 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -239,6 +239,18 @@ class ResolverGraph:
                 rx_indices_to_replicate.add(child_rx_index)
                 stack.append(child_rx_index)
 
+        # children of a resolved dim element are shared with its dim template, their placeholders only belong to the
+        # template and therefore are no descendants of source_node
+        detached_placeholders: list[int] = [
+            parent_rx_index
+            for rx_index in rx_indices_to_replicate
+            for parent_rx_index, _, edge_type in self._graph.in_edges(rx_index)
+            if edge_type == EdgeType.PLACEHOLDER
+            and isinstance(self._graph[parent_rx_index], PlaceholderNode)
+            and parent_rx_index not in rx_indices_to_replicate
+        ]
+        rx_indices_to_replicate.update(detached_placeholders)
+
         # replicate the nodes and map the indicies
         replica_mapping: dict[int, int] = {}
         for rx_index in rx_indices_to_replicate:
@@ -271,7 +283,7 @@ class ResolverGraph:
             child_rx_index
             for _, child_rx_index, _ in self._graph.out_edges(source_rx_index)
             if child_rx_index in rx_indices_to_replicate
-        ]
+        ] + detached_placeholders
 
         # attach the replicated subgraph to target_node
         target_rx_index = self._node_to_rx_index[target_node]
-- 
2.43.0


From 2789de5143034d14bd0881e08d13cee2d891e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 15/24] fix: reject an element that is part of its own base

---
 src/svdsuite/resolve/graph.py    | 22 ++++++++++++++++++++++
 src/svdsuite/resolve/resolver.py |  5 +++++
 2 files changed, 27 insertions(+)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index b26e9cb..3117c0a 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -172,6 +172,28 @@ class ResolverGraph:
 
         return None
 
+    def is_part_of(self, searched_node: ElementNode, node: ElementNode) -> bool:
+        # a node consists of its descendants and, if derived, also of the descendants of its base node
+        visited: set[ElementNode] = set()
+        stack: list[ElementNode] = [node]
+
+        while stack:
+            current_node = stack.pop()
+            if current_node in visited:
+                continue
+            visited.add(current_node)
+
+            if current_node == searched_node:
+                return True
+
+            stack.extend(self.get_element_childrens(current_node))
+
+            base_node = self.get_base_element_node(current_node)
+            if base_node is not None:
+                stack.append(base_node)
+
+        return False
+
     def remove_edge(self, parent: ElementNode, child: ElementNode):
         parent_rx_index = self._node_to_rx_index[parent]
         child_rx_index = self._node_to_rx_index[child]
diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index ea957e7..b8ac190 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -281,6 +281,11 @@ class Resolver:
         if base_node is None:
             return
 
+        if self._resolver_graph.is_part_of(derive_node, base_node):
+            raise CycleException(
+                f"Node '{derive_node.name}' with derive path {placeholder.derive_path} is part of its own base node"
+            )
+
         self._resolver_graph.remove_placeholder(placeholder)
 
         try:
-- 
2.43.0


From dd42025d27818783525d8ef2b4e18c584a88df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 16/24] fix: do not take an element derived from the parent for
 a sibling

---
 src/svdsuite/resolve/graph.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 3117c0a..11da4cf 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -109,17 +109,7 @@ class ResolverGraph:
         # hence, the first parent suffices to find siblings
         parent = parents[0]
 
-        siblings: list[ElementNode] = []
-        for child in self._graph.successors(self._node_to_rx_index[parent]):
-            if not isinstance(child, ElementNode):
-                continue
-
-            if child == node:
-                continue
-
-            siblings.append(child)
-
-        return siblings
+        return [child for child in self.get_element_childrens(parent) if child != node]
 
     def remove_placeholder(self, placeholder: PlaceholderNode):
         self._remove_node(placeholder)
-- 
2.43.0


From 02fb171ac55bab968c34f8089dd6f881f810659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 17/24] fix: name the allowed alternates of an overlap warning
 in a fixed order

---
 src/svdsuite/process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 362227d..9ca96ad 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -712,7 +712,7 @@ class _ValidateAndFinalize:
                         if name not in allowed_names:
                             warnings.warn(
                                 f"Effective peripheral address overlap: '{periph.name}' overlaps with '{name}', "
-                                f"which is not among the allowed alternate peripherals {allowed_names}",
+                                f"which is not among the allowed alternate peripherals {sorted(allowed_names)}",
                                 ProcessWarning,
                             )
                     else:
@@ -733,7 +733,7 @@ class _ValidateAndFinalize:
                         if name not in allowed_names:
                             warnings.warn(
                                 f"Specified peripheral address overlap in address_blocks: '{periph.name}' overlaps "
-                                f"with '{name}', which is not among the allowed alternate peripherals {allowed_names}",
+                                f"with '{name}', which is not among the allowed alternate peripherals {sorted(allowed_names)}",
                                 ProcessWarning,
                             )
                     else:
@@ -924,7 +924,7 @@ class _ValidateAndFinalize:
                         if name not in allowed_names:
                             warnings.warn(
                                 f"{type_label} '{item.name}' overlaps with '{name}', "
-                                f"which is not among the allowed alternate {type_label.lower()}s {allowed_names}",
+                                f"which is not among the allowed alternate {type_label.lower()}s {sorted(allowed_names)}",
                                 ProcessWarning,
                             )
                     else:
-- 
2.43.0


From f07b933d3c3615eaf0c43f5fb9f9ff44ed1e2258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 18/24] fix: let the encoding fallbacks read files with
 undecodable bytes

---
 src/svdsuite/util/xml_parse.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 4097b12..5427c70 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -1,3 +1,5 @@
+from io import BytesIO
+from os import PathLike, fspath
 from typing import BinaryIO
 import warnings
 from lxml import etree
@@ -17,10 +19,20 @@ def encode_xml_str(xml_str: str) -> bytes:
 
 
 def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright: ignore[reportPrivateUsage]
+    # Read the bytes first: for a file lxml reports undecodable bytes as an OSError instead of a syntax error, and a file
+    # object can only be read once.
+    if isinstance(path_or_file, (str, PathLike)):
+        base_url = fspath(path_or_file)
+        with open(path_or_file, "rb") as f:
+            content = f.read()
+    else:
+        base_url = None
+        content = path_or_file.read()
+
     # First attempt: no encoding, recover=False.
     try:
         parser = etree.XMLParser(recover=False)
-        tree = etree.parse(path_or_file, parser=parser)
+        tree = etree.parse(BytesIO(content), parser=parser, base_url=base_url)
         return tree
     except etree.XMLSyntaxError as e:
         original_exception = e
@@ -29,7 +41,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
     for enc in _COMMON_ENCODINGS:
         try:
             parser = etree.XMLParser(encoding=enc, recover=False)
-            tree = etree.parse(path_or_file, parser=parser)
+            tree = etree.parse(BytesIO(content), parser=parser, base_url=base_url)
             warnings.warn(
                 f"XML file parsed using fallback encoding '{enc}' with recover=False.",
                 ParserWarning,
@@ -42,7 +54,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
     for enc in _COMMON_ENCODINGS:
         try:
             parser = etree.XMLParser(encoding=enc, recover=True)
-            tree = etree.parse(path_or_file, parser=parser)
+            tree = etree.parse(BytesIO(content), parser=parser, base_url=base_url)
             warnings.warn(
                 f"XML file parsed using fallback encoding '{enc}' with recover=True.",
                 ParserWarning,
-- 
2.43.0


From 85e2ca70e7aa14ea275dccaa162cd28e2b70b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 19/24] fix: report a document nothing can be recovered from as
 an XML error

---
 src/svdsuite/util/xml_parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 5427c70..e69ca56 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -55,6 +55,8 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
         try:
             parser = etree.XMLParser(encoding=enc, recover=True)
             tree = etree.parse(BytesIO(content), parser=parser, base_url=base_url)
+            if tree.getroot() is None:
+                continue
             warnings.warn(
                 f"XML file parsed using fallback encoding '{enc}' with recover=True.",
                 ParserWarning,
@@ -94,6 +96,8 @@ def safe_fromstring(content: bytes) -> etree._Element:  # pyright: ignore[report
         try:
             parser = etree.XMLParser(encoding=enc, recover=True)
             root = etree.fromstring(content, parser=parser)
+            if root is None:
+                continue
             warnings.warn(
                 f"XML content parsed using fallback encoding '{enc}' with recover=True.",
                 ParserWarning,
-- 
2.43.0


From ff899f37b6fbd7424c692c503f9c3f4e98794ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 20/24] fix: read text around comments and processing
 instructions

The text of an element was cut off at the first comment or processing
instruction inside it.
---
 src/svdsuite/parse.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index cd777f6..4bb785e 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -96,6 +96,17 @@ def _to_int(value: None | str, base: int = 0) -> None | int:
             raise NotImplementedError(f"can't parse value '{value}' in function _to_int") from exc
 
 
+def _get_text(element: lxml.etree._Element) -> None | str:  # pyright: ignore[reportPrivateUsage]
+    # Comments and processing instructions split the text of an element, but are no part of it.
+    texts = [element.text]
+    for child in element:
+        if child.tag not in (lxml.etree.Comment, lxml.etree.ProcessingInstruction):
+            break
+        texts.append(child.tail)
+
+    return "".join(text or "" for text in texts) if any(text is not None for text in texts) else None
+
+
 class Parser:
     @classmethod
     def from_svd_file(cls, path: str):
@@ -157,13 +168,12 @@ class Parser:
             return None
 
         element = elements[-1]
-        if element.text is None:
+        text_before_strip = _get_text(element)
+        if text_before_strip is None:
             if not optional:
                 raise ParserException(f"can't get element '{element_name}'")
             return None
 
-        text_before_strip = element.text
-
         if not strip:
             return text_before_strip
 
-- 
2.43.0


From 3a0cbc476d60efddd4480f4384d30b3a1fb40d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 21/24] fix: wait for equally named registers whose alternate
 group is not known yet

---
 src/svdsuite/resolve/resolver.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index b8ac190..e70a2bd 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -333,6 +333,13 @@ class Resolver:
                 if len(filtered_matches) == 1:
                     return filtered_matches
 
+                # Whether a register is part of an alternate group is known once it is processed
+                if not filtered_matches and any(
+                    match.level == ElementLevel.REGISTER and match.status == NodeStatus.UNPROCESSED
+                    for match in matches
+                ):
+                    return matches
+
                 # More than one match found – raise exception
                 raise ResolveException(f"Multiple base nodes found for derive path '{'.'.join(path_parts)}'")
 
@@ -341,8 +348,8 @@ class Resolver:
         # Search in same scope
         siblings = self._resolver_graph.get_element_siblings(derived_node)
         matches = search_nodes(siblings, derive_path_parts, derived_node, level)
-        if len(matches) == 1:
-            return matches[0]
+        if matches:
+            return matches[0] if len(matches) == 1 else None
 
         # If not found, search over all peripherals
         peripherals = self._resolver_graph.get_element_childrens(self._root_node)
-- 
2.43.0


From 42407ee12e909122a00f3dbc518f439988236be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 22/24] fix: write the resolver log when the resolution ends

---
 src/svdsuite/resolve/resolver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index e70a2bd..623f551 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -56,6 +56,12 @@ class Resolver:
         return self._root_node_
 
     def resolve_peripherals(self, parsed_device: SVDDevice) -> list[IPeripheral]:
+        try:
+            return self._resolve_peripherals(parsed_device)
+        finally:
+            self._logger.log_finalize()
+
+    def _resolve_peripherals(self, parsed_device: SVDDevice) -> list[IPeripheral]:
         self._initialization(parsed_device)
 
         self._logger.log_repeating_steps_start()
-- 
2.43.0


From e55e5e3941243e06124c45c9d4f42f3fc00f0b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 23/24] fix: reject a dimIndex range that does not match dim
 without listing it

---
 src/svdsuite/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 9ca96ad..8847a8f 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1136,6 +1136,10 @@ class _ProcessDimension:
             if int(start) > int(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
+            # Do not list the indices of a range that does not match, there may be too many of them
+            if int(end) - int(start) + 1 != dim:
+                raise ProcessException(f"dim index '{dim_index}' does not match the dim value '{dim}'")
+
             dim_index_list = [str(i) for i in range(int(start), int(end) + 1)]
         elif re.fullmatch(r"[A-Z]-[A-Z]", dim_index):
             start, end = dim_index.split("-")
-- 
2.43.0


From 72b66e04052b10a89556f481c656f5c9eda9d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 24/24] fix: check enumerated values of very wide fields
 without calculating their largest value

---
 src/svdsuite/process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 8847a8f..423d69f 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1084,7 +1084,9 @@ class _ValidateAndFinalize:
             if i_enum_value.value is None:
                 raise ProcessException("Enumerated value must have a value")
 
-            if i_enum_value.value < 0 or i_enum_value.value > (2 ** (msb - lsb + 1) - 1):
+            # Compare the number of bits, the largest value of a field with a huge msb is too large to be calculated
+            width = msb - lsb + 1
+            if i_enum_value.value < 0 or width < 0 or i_enum_value.value.bit_length() > width:
                 warnings.warn(
                     f"Enumerated value '{i_enum_value.name}' with value '{i_enum_value.value}' is outside of the valid "
                     f"range for a field of width {msb - lsb + 1} (0 to {2 ** (msb - lsb + 1) - 1}). "
-- 
2.43.0

