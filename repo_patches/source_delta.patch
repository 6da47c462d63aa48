From e3e2dfa8f55f9f19ec9bcc73a2ae92c6b0c813e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 001/108] fix: allow min and max in any part of range and
 length arguments

---
 yangson/constraint.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/yangson/constraint.py b/yangson/constraint.py
index d1a94c0..af99e36 100644
--- a/yangson/constraint.py
+++ b/yangson/constraint.py
@@ -96,27 +96,19 @@ class Intervals(Constraint, Generic[N]):
                 raise InvalidArgument(expr)
             return res
 
-        def simpl(rng: list[N]) -> list[N]:
-            return ([rng[0]] if rng[0] == rng[1] else rng)
-
-        def to_num(xs): return [parse(x) for x in xs]
         lo = self.intervals[0][0]
         hi = self.intervals[-1][-1]
+
+        def boundary(x: str) -> N:
+            return lo if x == "min" else hi if x == "max" else parse(x)
+
         ran = []
-        for p in [p.strip() for p in expr.split("|")]:
-            r = [i.strip() for i in p.split("..")]
+        for p in expr.split("|"):
+            r = [boundary(i.strip()) for i in p.split("..")]
             if len(r) > 2:
                 raise InvalidArgument(expr)
-            ran.append(r)
-        if ran[0][0] != "min":
-            lo = parse(ran[0][0])
-        if ran[-1][-1] != "max":
-            hi = parse(ran[-1][-1])
-        self.intervals = (
-            [simpl([lo, hi])] if len(ran) == 1 else (
-                [simpl([lo, parse(ran[0][-1])])] +
-                [to_num(r) for r in ran[1:-1]] +
-                [simpl([parse(ran[-1][0]), hi])]))
+            ran.append([r[0]] if r[0] == r[-1] else r)
+        self.intervals = ran
         if error_tag:
             self.error_tag = error_tag
         if error_message:
-- 
2.43.0


From f3b0224b2e7d7d73d0fde9f39785b224e4909433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 002/108] fix: refuse texts that are not YANG integers or
 decimal numbers

---
 yangson/datatype.py | 48 ++++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index ed91a47..d739ee9 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -854,6 +854,9 @@ class NumericType(DataType[N, RN]):
 class Decimal64Type(NumericType[decimal.Decimal, str]):
     """Class representing YANG "decimal64" type."""
 
+    lexical = re.compile(r"\s*[-+]?[0-9]+(\.[0-9]+)?\s*", re.ASCII)
+    """Regular expression for lexical representation of a value."""
+
     def __init__(self, sctx: SchemaContext, name: YangIdentifier) -> None:
         """Initialize the class instance."""
         super().__init__(sctx, name)
@@ -882,9 +885,10 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
+        if not isinstance(raw, str) or not self.lexical.fullmatch(raw):
+            return None
         try:
-            return (decimal.Decimal(raw).quantize(self._epsilon)
-                    if isinstance(raw, str) else None)
+            return decimal.Decimal(raw).quantize(self._epsilon)
         except decimal.InvalidOperation:
             return None
 
@@ -892,11 +896,7 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[decimal.Decimal]:
-        try:
-            return (decimal.Decimal(xml.text).quantize(self._epsilon)
-                    if isinstance(xml.text, str) else None)
-        except decimal.InvalidOperation:
-            return None
+        return self.from_raw(cast(str, xml.text))
 
     def to_raw(self, val: decimal.Decimal) -> str:
         return self.canonical_string(val)
@@ -924,6 +924,9 @@ class IntegralType(NumericType[int, RN]):
     octhex = re.compile("[-+]?0([x0-9])")
     """Regular expression for octal or hexadecimal default."""
 
+    lexical = re.compile(r"\s*[-+]?[0-9]+\s*", re.ASCII)
+    """Regular expression for lexical representation of a value."""
+
     def __contains__(self, val: int) -> bool:
         if not isinstance(val, int) or isinstance(val, bool):
             self._set_error_info()
@@ -935,6 +938,8 @@ class IntegralType(NumericType[int, RN]):
 
     def parse_value(self, text: str) -> Optional[int]:
         """Override superclass method."""
+        if not isinstance(text, str) or not self.lexical.fullmatch(text):
+            return None
         try:
             return int(text)
         except ValueError:
@@ -949,10 +954,7 @@ class IntegralType(NumericType[int, RN]):
             return None
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(cast(str, xml.text))
 
     def from_yang(self, text: str) -> int:
         """Override the superclass method."""
@@ -1004,22 +1006,14 @@ class Int64Type(IntegralType[str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
-        if not isinstance(raw, str) or isinstance(raw, bool):
-            return None
-        try:
-            return int(raw)
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(raw)
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
         """Override superclass method.
 
         XML is always delivered as a text element
         """
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(cast(str, xml.text))
 
     def to_raw(self, val: int) -> Optional[str]:
         return self.canonical_string(val)
@@ -1065,22 +1059,14 @@ class Uint64Type(IntegralType[str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
-        if not isinstance(raw, str):
-            return None
-        try:
-            return int(raw)
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(raw)
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
         """Override superclass method.
 
         XML is always delivered as a text element
         """
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(cast(str, xml.text))
 
     def to_raw(self, val: int) -> Optional[str]:
         return self.canonical_string(val)
-- 
2.43.0


From a9d370446c8a05b033c7044c8b19aa6260e756f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 003/108] fix: canonical form of small decimal64 values must
 not use exponents

---
 yangson/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index d739ee9..5ba0b92 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -909,7 +909,7 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
             return None
         if val == 0:
             return "0.0"
-        sval = str(val.quantize(self._epsilon)).rstrip("0")
+        sval = format(val.quantize(self._epsilon), "f").rstrip("0")
         return (sval + "0") if sval.endswith(".") else sval
 
     def _type_digest(self, config: bool) -> dict[str, Any]:
-- 
2.43.0


From 2d53149f8f193006abe006d5682e3bd1fd3bac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 004/108] fix: decimal64 contains only finite multiples of its
 precision

---
 yangson/datatype.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 5ba0b92..16a5f2f 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -863,10 +863,15 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
         self._epsilon = decimal.Decimal(0)
 
     def __contains__(self, val: decimal.Decimal) -> bool:
-        if not isinstance(val, decimal.Decimal):
+        if not isinstance(val, decimal.Decimal) or not val.is_finite():
             self._set_error_info()
             return False
-        return super().__contains__(val)
+        if not super().__contains__(val):
+            return False
+        if val != val.quantize(self._epsilon):
+            self._set_error_info()
+            return False
+        return True
 
     @property
     def _range(self) -> list[decimal.Decimal]:
-- 
2.43.0


From 051d1b5cd754a4dcb015cb4831b044105eae537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 005/108] fix: implicit enum values and bit positions follow
 the highest one so far

---
 yangson/datatype.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 16a5f2f..90f98a7 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -343,11 +343,11 @@ class BitsType(DataType[tuple[str, ...], str]):
             if pst:
                 pos = int(cast(str, pst.argument))
                 self.bit[label] = pos
-                if pos > nextpos:
-                    nextpos = pos
             else:
+                pos = nextpos
                 self.bit[label] = nextpos
-            nextpos += 1
+            if pos >= nextpos:
+                nextpos = pos + 1
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
@@ -577,6 +577,7 @@ class EnumerationType(DataType[str, str]):
                            sctx: SchemaContext) -> None:
         """Handle **enum** statements."""
         nextval = 0
+        first = True
         for est in stmt.find_all("enum"):
             if not sctx.schema_data.if_features(est, sctx.text_mid):
                 continue
@@ -585,11 +586,12 @@ class EnumerationType(DataType[str, str]):
             if vst:
                 val = int(cast(str, vst.argument))
                 self.enum[label] = val
-                if val > nextval:
-                    nextval = val
             else:
+                val = nextval
                 self.enum[label] = nextval
-            nextval += 1
+            if first or val >= nextval:
+                nextval = val + 1
+            first = False
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
-- 
2.43.0


From de3b791a9a47c43edd81bbeca8f31cd19e63e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 006/108] fix: bits type contains only tuples of different bits

---
 yangson/datatype.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 90f98a7..d00907d 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -282,10 +282,16 @@ class BitsType(DataType[tuple[str, ...], str]):
         self.bit: dict[str, int] = {}
 
     def __contains__(self, val: tuple[str, ...]) -> bool:
+        if not isinstance(val, tuple):
+            self._set_error_info()
+            return False
         for b in val:
             if b not in self.bit:
-                self._set_error_info(error_message="unknown bit " + b)
+                self._set_error_info(error_message=f"unknown bit {b}")
                 return False
+        if len(set(val)) < len(val):
+            self._set_error_info(error_message="duplicate bit")
+            return False
         return True
 
     def sorted_bits(self) -> list[tuple[str, int]]:
-- 
2.43.0


From 2bd74c284ad7094acf6c8398916209111d558adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 007/108] fix: malformed binary values are refused without an
 exception

---
 yangson/datatype.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index d00907d..f712abb 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -45,7 +45,6 @@ This module implements the following classes:
 """
 from abc import ABC, abstractmethod
 import base64
-import binascii
 import decimal
 import xml.etree.ElementTree as ET
 import re
@@ -523,7 +522,7 @@ class BinaryType(LinearType[bytes]):
         """Override superclass method."""
         try:
             return base64.b64decode(raw, validate=True)
-        except (TypeError, binascii.Error):
+        except (TypeError, ValueError):
             return None
 
     def parse_value(self, text: str) -> Optional[bytes]:
@@ -533,7 +532,7 @@ class BinaryType(LinearType[bytes]):
         """Override superclass method."""
         try:
             return base64.b64decode(cast(str, xml.text), validate=True)
-        except TypeError:
+        except (TypeError, ValueError):
             return None
 
     def to_raw(self, val: bytes) -> Optional[str]:
-- 
2.43.0


From 6063eaf87b9b9e01d250ef5f8e90de70164ac20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 008/108] fix: enumeration and instance-identifier types refuse
 values of other kinds

---
 yangson/datatype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index f712abb..6ff71dc 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -557,7 +557,7 @@ class EnumerationType(DataType[str, str]):
         self.enum: dict[str, int] = {}
 
     def __contains__(self, val: str) -> bool:
-        if val in self.enum:
+        if isinstance(val, str) and val in self.enum:
             return True
         self._set_error_info()
         return False
@@ -702,7 +702,7 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
     def from_raw(self, raw: InstanceIdentifier) -> Optional[InstanceRoute]:
         try:
             return InstanceIdParser(raw).parse()
-        except ParserException:
+        except (ParserException, TypeError):
             return None
 
     def parse_value(self, text: str) -> Optional[InstanceRoute]:
-- 
2.43.0


From 5497269caabd74a4c67cd78250dff73742877ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 009/108] fix: empty XML elements denote empty string, bits and
 binary values

---
 yangson/datatype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 6ff71dc..990ff1a 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -308,7 +308,7 @@ class BitsType(DataType[tuple[str, ...], str]):
 
     def from_xml(self, xml: ET.Element) -> Optional[tuple[str, ...]]:
         try:
-            return tuple(cast(str, xml.text).split())
+            return tuple((xml.text or "").split())
         except AttributeError:
             return None
 
@@ -482,7 +482,7 @@ class StringType(LinearType[str]):
         return raw if isinstance(raw, str) else None
 
     def from_xml(self, xml: ET.Element) -> Optional[str]:
-        return self.from_raw(cast(str, xml.text))
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: str) -> Optional[str]:
         return val if val in self else None
@@ -531,7 +531,7 @@ class BinaryType(LinearType[bytes]):
     def from_xml(self, xml: ET.Element) -> Optional[bytes]:
         """Override superclass method."""
         try:
-            return base64.b64decode(cast(str, xml.text), validate=True)
+            return base64.b64decode(xml.text or "", validate=True)
         except (TypeError, ValueError):
             return None
 
-- 
2.43.0


From 67f84ab6b8d02d7a1057b8b087f1f2429aef9293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 010/108] fix: instance-identifier refuses raw values of any
 kind but string

---
 yangson/datatype.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 990ff1a..f40179c 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -700,9 +700,11 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return "instance-identifier"
 
     def from_raw(self, raw: InstanceIdentifier) -> Optional[InstanceRoute]:
+        if not isinstance(raw, str):
+            return None
         try:
             return InstanceIdParser(raw).parse()
-        except (ParserException, TypeError):
+        except ParserException:
             return None
 
     def parse_value(self, text: str) -> Optional[InstanceRoute]:
-- 
2.43.0


From 52a822d7b6c6c65f7b31eeb2a52a41c1424d7ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 011/108] fix: bits are kept in the order of positions so that
 equal values compare equal

---
 yangson/datatype.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index f40179c..8350704 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -297,9 +297,12 @@ class BitsType(DataType[tuple[str, ...], str]):
         """Return list of bit items sorted by position."""
         return sorted(self.bit.items(), key=lambda x: x[1])
 
+    def _in_order(self, labels: list[str]) -> tuple[str, ...]:
+        return tuple(sorted(labels, key=lambda b: self.bit.get(b, -1)))
+
     def from_raw(self, raw: str) -> Optional[tuple[str, ...]]:
         try:
-            return tuple(raw.split())
+            return self._in_order(raw.split())
         except AttributeError:
             return None
 
@@ -308,7 +311,7 @@ class BitsType(DataType[tuple[str, ...], str]):
 
     def from_xml(self, xml: ET.Element) -> Optional[tuple[str, ...]]:
         try:
-            return tuple((xml.text or "").split())
+            return self._in_order((xml.text or "").split())
         except AttributeError:
             return None
 
-- 
2.43.0


From 5e3ba04ffcd0c04d2df2f849c2860227739012a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 012/108] fix: derived_from must not modify stored identity
 relations

---
 yangson/schemadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 3685539..6b1c284 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -472,10 +472,11 @@ class SchemaData:
     def derived_from(self, identity: QualName) -> MutableSet[QualName]:
         """Return list of identities transitively derived from `identity`."""
         try:
-            res = self.identity_adjs[identity].derivs
+            derivs = self.identity_adjs[identity].derivs
         except KeyError:
             return set()
-        for id in res.copy():
+        res = set(derivs)
+        for id in derivs:
             res |= self.derived_from(id)
         return res
 
-- 
2.43.0


From fcbe91e1e1a4d8a4522c1dddf2aba0b71795a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 013/108] fix: identityref with undeclared XML prefix is
 refused as a raw type error

---
 yangson/datatype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 8350704..5abc52e 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -54,7 +54,7 @@ from typing import (Any, cast, ClassVar, Generic, Optional, Type,
 from .constraint import Intervals, Pattern
 from .exceptions import (
     InvalidArgument, ParserException, ModuleNotRegistered, UnknownPrefix,
-    InvalidLeafrefPath, MissingModuleNamespace, XPathTypeError)
+    InvalidLeafrefPath, XPathTypeError)
 from .schemadata import SchemaContext
 from .instance import InstanceNode, InstanceIdParser
 from .instroute import InstanceRoute
@@ -776,10 +776,10 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         # the following code has issues (Issue #79)
         ns_url = xml.attrib.get('xmlns:'+i1)
         if not ns_url:
-            raise MissingModuleNamespace(cast(str, ns_url))
+            return None
         module = self.sctx.schema_data.modules_by_ns.get(ns_url)
         if not module:
-            raise MissingModuleNamespace(ns_url)
+            return None
         return (i2, module.main_module[0])
 
     def to_raw(self, val: QualName) -> YangIdentifier:
-- 
2.43.0


From 5c20081396d9a211a10971b5d94b2698261e9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 014/108] fix: if-feature does not affect implicit enum values
 and bit positions

---
 yangson/datatype.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 5abc52e..af21c57 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -344,8 +344,6 @@ class BitsType(DataType[tuple[str, ...], str]):
         """Handle **bit** statements."""
         nextpos = 0
         for bst in stmt.find_all("bit"):
-            if not sctx.schema_data.if_features(bst, sctx.text_mid):
-                continue
             label = cast(str, bst.argument)
             pst = bst.find1("position")
             if pst:
@@ -356,6 +354,8 @@ class BitsType(DataType[tuple[str, ...], str]):
                 self.bit[label] = nextpos
             if pos >= nextpos:
                 nextpos = pos + 1
+            if not sctx.schema_data.if_features(bst, sctx.text_mid):
+                del self.bit[label]
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
@@ -587,8 +587,6 @@ class EnumerationType(DataType[str, str]):
         nextval = 0
         first = True
         for est in stmt.find_all("enum"):
-            if not sctx.schema_data.if_features(est, sctx.text_mid):
-                continue
             label = cast(str, est.argument)
             vst = est.find1("value")
             if vst:
@@ -600,6 +598,8 @@ class EnumerationType(DataType[str, str]):
             if first or val >= nextval:
                 nextval = val + 1
             first = False
+            if not sctx.schema_data.if_features(est, sctx.text_mid):
+                del self.enum[label]
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
-- 
2.43.0


From ee8eea9a8194b10720ff33ea5fbe85c3ecee0289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 015/108] fix: route selectors compare with other objects and
 hash by content

---
 yangson/instance.py  | 21 +++++++++++++++++----
 yangson/instroute.py |  2 +-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 0d9a575..881f9b9 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1045,7 +1045,11 @@ class MemberName:
         self.namespace = ns
 
     def __eq__(self, other: object) -> bool:
-        return self.name == other.name and self.namespace == other.namespace
+        return (self.__class__ is other.__class__ and
+                self.name == other.name and self.namespace == other.namespace)
+
+    def __hash__(self) -> int:
+        return hash((self.name, self.namespace))
 
     def __str__(self) -> str:
         return "/" + self.iname()
@@ -1098,7 +1102,10 @@ class EntryIndex:
         self.index = index
 
     def __eq__(self, other: object) -> bool:
-        return self.index == other.index
+        return self.__class__ is other.__class__ and self.index == other.index
+
+    def __hash__(self) -> int:
+        return hash(self.index)
 
     def __str__(self) -> str:
         return f"[{self.index + 1}]"
@@ -1132,7 +1139,10 @@ class EntryValue:
         return f"[.={json.dumps(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
-        return self.value == other.value
+        return self.__class__ is other.__class__ and self.value == other.value
+
+    def __hash__(self) -> int:
+        return hash(self.value)
 
     def parse_value(self, sn: "DataNode") -> ScalarValue:
         """Let schema node's type parse the receiver's value."""
@@ -1182,7 +1192,10 @@ class EntryKeys:
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-        return self.keys == other.keys
+        return self.__class__ is other.__class__ and self.keys == other.keys
+
+    def __hash__(self) -> int:
+        return hash(frozenset(self.keys.items()))
 
     def parse_keys(self, sn: "DataNode") -> dict[InstanceName, ScalarValue]:
         """Parse key dictionary in the context of a schema node.
diff --git a/yangson/instroute.py b/yangson/instroute.py
index 3545de2..02071fb 100644
--- a/yangson/instroute.py
+++ b/yangson/instroute.py
@@ -70,4 +70,4 @@ class InstanceRoute(tuple[InstanceRouteItem, ...]):
 
     def __hash__(self) -> int:
         """Return the hash value of the receiver."""
-        return self.__str__().__hash__()
+        return super().__hash__()
-- 
2.43.0


From e106c35ab01ffc6b444f3c49cbfc453cae6c150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 016/108] fix: structured values are compared by content rather
 than hashes

---
 yangson/instvalue.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yangson/instvalue.py b/yangson/instvalue.py
index c706834..1c573c7 100644
--- a/yangson/instvalue.py
+++ b/yangson/instvalue.py
@@ -66,7 +66,11 @@ class StructuredValue:
         Args:
         :param val: value to compare
         """
-        return self.__class__ == val.__class__ and hash(self) == hash(val)
+        return self.__class__ == val.__class__ and super().__eq__(val)
+
+    def __ne__(self, val: "StructuredValue") -> bool:
+        """Return ``True`` if the receiver is not equal to `val`."""
+        return not self == val
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
@@ -96,5 +100,5 @@ class ObjectValue(StructuredValue, dict):
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-        sks = sorted(self.keys())
+        sks = sorted(k for k in self if k[0] != "@")
         return tuple([(k, self[k].__hash__()) for k in sks]).__hash__()
-- 
2.43.0


From 2619cca414ea6542f11d96ea6038d19bb5c883db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 017/108] fix: merge must not modify the value of the original
 instance

---
 yangson/instance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 881f9b9..4556034 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -320,7 +320,7 @@ class InstanceNode:
         return self._merge_container(newval)
 
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
-        inst = self._copy(self.value)
+        inst = self._copy(self.value.copy())
         if isinstance(self.schema_node, LeafListNode):
             inst.value += [
                 en for en in value if en in set(value) - set(self.value)]
@@ -338,10 +338,10 @@ class InstanceNode:
         return inst
 
     def _merge_container(self, value: ObjectValue) -> "InstanceNode":
-        inst = self._copy(self.value)
+        inst = self._copy(self.value.copy())
         rest = []
         for k in value:
-            if k in self.value:
+            if k in self.value and k[0] != "@":
                 inst = inst[k].merge(value[k]).up()
             else:
                 rest.append(k)
-- 
2.43.0


From 209abf25d01a854f605a1b40ef27a10b2b6654b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 018/108] fix: merging into a keyless list appends all entries

---
 yangson/instance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 4556034..d697c3a 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -326,6 +326,9 @@ class InstanceNode:
                 en for en in value if en in set(value) - set(self.value)]
             return inst
         keys = self.schema_node._key_members
+        if not keys:
+            inst.value += value
+            return inst
         mki = {}
         for i in range(len(value)):
             mki[tuple([value[i][k] for k in keys])] = i
-- 
2.43.0


From fb06a37fb420055e30df7ceefe4209f9554e732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 019/108] fix: merge into array entries and anyxml instances

---
 yangson/instance.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index d697c3a..48a776d 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -310,15 +310,19 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the merged value.
         """
-        if (isinstance(self.schema_node, (LeafNode, AnydataNode)) or
+        if (isinstance(self.schema_node, (LeafNode, AnyContentNode)) or
+                not isinstance(self.value, StructuredValue) or
                 not self.value):
             return self.update(value, raw)
-        newval = self.schema_node.from_raw(
-            value, self.json_pointer()) if raw else value
+        newval = self._cook_value(value, raw)
         if isinstance(self.value, ArrayValue):
             return self._merge_list(newval)
         return self._merge_container(newval)
 
+    def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
+        return self.schema_node.from_raw(
+            value, self.json_pointer()) if raw else value
+
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
         inst = self._copy(self.value.copy())
         if isinstance(self.schema_node, LeafListNode):
-- 
2.43.0


From 58ffdd14a215c5c2a6b12638b11392b553daed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 020/108] fix: index of an entry inserted after another one

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 48a776d..1384d8f 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -948,7 +948,7 @@ class ArrayEntry(InstanceNode):
         nbef = self.before.copy()
         nbef.appendleft(self.value)
         return ArrayEntry(
-            self.index, nbef, self.after, self._cook_value(value, raw),
+            self.index + 1, nbef, self.after, self._cook_value(value, raw),
             self.parinst, self.schema_node, datetime.now())
 
     def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
-- 
2.43.0


From b9911f77ace438d5a4a8ecf2a1d9486e0ef2796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 021/108] fix: instance route of leaf-list entries uses
 canonical values

---
 yangson/instance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1384d8f..751095c 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -976,7 +976,9 @@ class ArrayEntry(InstanceNode):
     def _instance_route_entry(self):
         sn = self.schema_node
         if isinstance(sn, LeafListNode):
-            return EntryValue(str(self.value))
+            if self.value in self.before:
+                return EntryIndex(self._key)
+            return EntryValue(str(self))
         if not sn.keys:
             return EntryIndex(self._key)
         kdict = {}
-- 
2.43.0


From 3c52daf309cd74fe0a2d974db61b230be436ed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 022/108] fix: put_member and sibling accept names qualified
 with parent's namespace

---
 yangson/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 751095c..2e39bb9 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -210,6 +210,7 @@ class InstanceNode:
         if not isinstance(self.value, ObjectValue):
             raise InstanceValueError(self, "member of non-object")
         csn = self._member_schema_node(name)
+        name = csn.iname()
         newval = self.value.copy()
         newval[name] = (csn.from_raw(value, self.json_pointer()) if raw
                         else value)
@@ -805,6 +806,7 @@ class ObjectMember(InstanceNode):
         ssn = self.parinst._member_schema_node(name)
         try:
             sibs = self.siblings.copy()
+            name = ssn.iname()
             newval = sibs.pop(name)
             sibs[self.name] = self.value
             return ObjectMember(name, sibs, newval, self.parinst,
-- 
2.43.0


From 81463038b12878936c858120a267255949c49710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 023/108] fix: following a route that doesn't fit the instance
 fails as documented

---
 yangson/instance.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 2e39bb9..09400ba 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -247,7 +247,8 @@ class InstanceNode:
             InstanceValueError: If the receiver's value is not a YANG list.
             NonexistentInstance: If no entry with matching keys exists.
         """
-        if not isinstance(self.schema_node, ListNode):
+        if not (isinstance(self.schema_node, ListNode) and
+                isinstance(self.value, ArrayValue)):
             raise InstanceValueError(self, "lookup on non-list")
         if raw:
             for k in keys:
@@ -1071,7 +1072,11 @@ class MemberName:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
+        if not isinstance(sn, InternalNode):
+            return (None, sn)
         cn = sn.get_data_child(self.name, self.namespace)
+        if cn is None:
+            return (None, sn)
         try:
             return (val[cn.iname()], cn)
         except (IndexError, KeyError, TypeError):
@@ -1123,12 +1128,16 @@ class EntryIndex:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
+        if not isinstance(val, ArrayValue):
+            return None, sn
         try:
             return val[self.index], sn
         except (IndexError, KeyError, TypeError):
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
+        if not isinstance(inst.value, ArrayValue):
+            raise InstanceValueError(inst, "entry of non-array")
         return inst[self.index]
 
 
@@ -1164,12 +1173,18 @@ class EntryValue:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Value, "DataNode"]:
+        if not (isinstance(val, ArrayValue) and
+                isinstance(sn, LeafListNode)):
+            return None, sn
         try:
             return (val[val.index(self.parse_value(sn))], sn)
         except ValueError:
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
+        if not (isinstance(inst.value, ArrayValue) and
+                isinstance(inst.schema_node, LeafListNode)):
+            raise InstanceValueError(inst, "entry of non-leaf-list")
         try:
             return inst._entry(
                 inst.value.index(self.parse_value(inst.schema_node)))
@@ -1217,7 +1232,7 @@ class EntryKeys:
         res = {}
         for k in self.keys:
             knod = sn.get_data_child(*k)
-            if knod is None:
+            if not isinstance(knod, TerminalNode):
                 raise NonexistentSchemaNode(sn.qual_name, *k)
             kval = knod.type.parse_value(self.keys[k])
             if kval is None:
@@ -1233,6 +1248,8 @@ class EntryKeys:
             val: Current value (array).
             sn:  Current schema node.
         """
+        if not (isinstance(val, ArrayValue) and isinstance(sn, ListNode)):
+            return (None, sn)
         keys = self.parse_keys(sn)
         for en in val:
             flag = True
@@ -1253,6 +1270,9 @@ class EntryKeys:
         Args:
             inst: Current instance.
         """
+        if not (isinstance(inst.value, ArrayValue) and
+                isinstance(inst.schema_node, ListNode)):
+            raise InstanceValueError(inst, "lookup on non-list")
         return inst.look_up(**self.parse_keys(inst.schema_node))
 
 
-- 
2.43.0


From 1b018c6579ad8cc2dc1f54269287b5f733eaef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 024/108] fix: quoting of values in instance identifiers

---
 yangson/instance.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 09400ba..a49cf24 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -34,7 +34,6 @@ This module implements the following classes:
 """
 from collections import deque
 from datetime import datetime
-import json
 from typing import Mapping, Optional, TYPE_CHECKING, Union
 from urllib.parse import unquote
 import xml.etree.ElementTree as ET
@@ -1039,6 +1038,12 @@ class ArrayEntry(InstanceNode):
         return [self.up().up()]
 
 
+def _quote(value: str) -> str:
+    """Return `value` as a quoted string for an instance identifier."""
+    q = "'" if '"' in value else '"'
+    return q + value + q
+
+
 class MemberName:
     """Selectors of object members.
 
@@ -1156,7 +1161,7 @@ class EntryValue:
         self.value = value
 
     def __str__(self) -> str:
-        return f"[.={json.dumps(self.value)}]"
+        return f"[.={_quote(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
         return self.__class__ is other.__class__ and self.value == other.value
@@ -1214,7 +1219,7 @@ class EntryKeys:
         res = []
         for k in self.keys:
             kn = f"{k[1]}:{k[0]}" if k[1] else k[0]
-            res.append(f"[{kn}={json.dumps(self.keys[k])}]")
+            res.append(f"[{kn}={_quote(self.keys[k])}]")
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From c49fe6ec5074700b99ce41b3f91c2c3c3d9a6c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 025/108] fix: raw value and XML keep empty list entries and
 metadata of entries

---
 yangson/instance.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index a49cf24..6aadb11 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -503,8 +503,8 @@ class InstanceNode:
         if isinstance(self.value, ArrayValue):
             value = list()
             for en in self:
-                if isinstance(en, dict) and '@' in en.value:
-                    e_attr = en['@']
+                if isinstance(en.value, ObjectValue) and '@' in en.value:
+                    e_attr = en.value['@']
                 else:
                     e_attr = {}
                 add1 = filter.begin_element(self, en, e_attr)
@@ -512,7 +512,7 @@ class InstanceNode:
                     member_value = en.raw_value(filter)
                 add2 = filter.end_element(self, en, e_attr)
                 if (add1 and add2 and member_value is not None
-                        and member_value != {}):
+                        and (member_value != {} or not en.value)):
                     if e_attr:
                         member_value['@'] = e_attr
                     value.append(member_value)
@@ -549,8 +549,9 @@ class InstanceNode:
 
                     if isinstance(m.schema_node, (ListNode, LeafListNode)):
                         for en in m:
-                            if isinstance(en, dict) and '@' in en.value:
-                                e_attr = en['@'].copy()
+                            if (isinstance(en.value, ObjectValue)
+                                    and '@' in en.value):
+                                e_attr = en.value['@'].copy()
                             else:
                                 e_attr = {}
                             add1 = filter.begin_element(m, en, e_attr)
-- 
2.43.0


From 5f1adccc7f7ddc0d28414e9e6faac70bbb35e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 026/108] fix: XPath axes skip metadata and the root node has
 no name

---
 yangson/instance.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 6aadb11..14dead4 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -688,14 +688,15 @@ class InstanceNode:
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
         for mn in wd.value:
-            res.extend(wd._member(mn)._node_set())
+            if mn[0] != "@":
+                res.extend(wd._member(mn)._node_set())
         return res
 
     def _descendants(self, qname: Union[QualName, bool] = None,
                      with_self: bool = False) -> list["InstanceNode"]:
         """XPath - return the list of receiver's descendants."""
-        res = ([] if not with_self or (qname and self.qual_name != qname)
-               else [self])
+        res = ([] if not with_self or (qname and (
+            self.parinst is None or self.qual_name != qname)) else [self])
         for c in self._children():
             if not qname or c.qual_name == qname:
                 res.append(c)
-- 
2.43.0


From 512556e58249bd7dd41806e5bb83c5d7df1bbbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 027/108] fix: defaults are parsed in the context and by the
 type they belong to

---
 yangson/datatype.py   | 61 +++++++++++++++++++++++++++++++------------
 yangson/schemanode.py | 20 +++++++-------
 2 files changed, 54 insertions(+), 27 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index af21c57..44c67ae 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -53,8 +53,8 @@ from typing import (Any, cast, ClassVar, Generic, Optional, Type,
 
 from .constraint import Intervals, Pattern
 from .exceptions import (
-    InvalidArgument, ParserException, ModuleNotRegistered, UnknownPrefix,
-    InvalidLeafrefPath, XPathTypeError)
+    InvalidArgument, InvalidXPath, NotSupported, ParserException,
+    ModuleNotRegistered, UnknownPrefix, InvalidLeafrefPath, XPathTypeError)
 from .schemadata import SchemaContext
 from .instance import InstanceNode, InstanceIdParser
 from .instroute import InstanceRoute
@@ -77,6 +77,7 @@ class DataType(ABC, Generic[S, RS]):
         """Initialize the class instance."""
         self.sctx = sctx
         self.default: Optional[S] = None
+        self._default_arg: Optional[tuple[str, SchemaContext]] = None
         self.name = name
         self.error_tag: Optional[str] = None
         self.error_message: Optional[str] = None
@@ -146,13 +147,16 @@ class DataType(ABC, Generic[S, RS]):
         """Return canonical form of a value."""
         return str(val)
 
-    def from_yang(self, text: str) -> S:
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> S:
         """Parse value specified as default in a YANG module.
 
         Conformance to the receiving type isn't guaranteed.
 
         Args:
             text: String representation of the value.
+            sctx: Schema context of the text, if it differs from that
+                of the receiver.
 
         Raises:
             InvalidArgument: If the receiver type cannot parse the text.
@@ -175,9 +179,10 @@ class DataType(ABC, Generic[S, RS]):
     def _post_process(self, tnode: "TerminalNode") -> None:
         """Post-process the receiver type on behalf of a terminal node.
 
-        By default do nothing.
+        By default, determine the default value given in a typedef.
         """
-        pass
+        if self._default_arg:
+            self.default = self.from_yang(*self._default_arg)
 
     @classmethod
     def _resolve_type(cls, stmt: Statement, sctx: SchemaContext) -> "DataType":
@@ -216,10 +221,7 @@ class DataType(ABC, Generic[S, RS]):
                 res.units = ust.argument
             dfst = tdef.find1("default")
             if dfst:
-                dval = cast(str, dfst.argument)
-                res.default = res.from_yang(dval)
-                if res.default is None:
-                    raise InvalidArgument(dval)
+                res._default_arg = (cast(str, dfst.argument), tsc)
         res._handle_restrictions(stmt, sctx)
         return res
 
@@ -668,8 +670,9 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def parse_value(self, text: str) -> Optional[ScalarValue]:
         return self.ref_type.parse_value(text)
 
-    def from_yang(self, text: str) -> ScalarValue:
-        return self.ref_type.from_yang(text)
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> ScalarValue:
+        return self.ref_type.from_yang(text, sctx)
 
     def _deref(self, node: InstanceNode) -> list[InstanceNode]:
         ns = self.path.evaluate(node)
@@ -681,7 +684,10 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
         ref = tnode._follow_leafref(self.path, tnode)
         if ref is None:
             raise InvalidLeafrefPath(tnode.qual_name, str(self.path))
-        self.ref_type = ref.type
+        if getattr(self, "ref_type", None) is not ref.type:
+            self.ref_type = ref.type
+            ref.type._post_process(ref)
+        super()._post_process(tnode)
 
     def _type_digest(self, config: bool) -> dict[str, Any]:
         res = super()._type_digest(config)
@@ -724,9 +730,16 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         """Override the superclass method."""
         return str(val)
 
-    def from_yang(self, text: str) -> InstanceRoute:
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> InstanceRoute:
         """Override the superclass method."""
-        return XPathParser(text, self.sctx).parse().as_instance_route()
+        try:
+            expr = XPathParser(text, sctx or self.sctx).parse()
+            return expr.as_instance_route()
+        except (ParserException, InvalidXPath, NotSupported,
+                ModuleNotRegistered, UnknownPrefix,
+                NotImplementedError, AttributeError, TypeError):
+            raise InvalidArgument(text)
 
     @staticmethod
     def _deref(node: InstanceNode) -> list[InstanceNode]:
@@ -788,11 +801,12 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def to_xml(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
 
-    def from_yang(self, text: YangIdentifier) -> QualName:
+    def from_yang(self, text: YangIdentifier,
+                  sctx: Optional[SchemaContext] = None) -> QualName:
         """Override the superclass method."""
         try:
             return self.sctx.schema_data.translate_pname(
-                text, self.sctx.text_mid)
+                text, (sctx or self.sctx).text_mid)
         except (ModuleNotRegistered, UnknownPrefix):
             raise InvalidArgument(text)
 
@@ -973,7 +987,8 @@ class IntegralType(NumericType[int, RN]):
     def from_xml(self, xml: ET.Element) -> Optional[int]:
         return self.parse_value(cast(str, xml.text))
 
-    def from_yang(self, text: str) -> int:
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> int:
         """Override the superclass method."""
         mo = self.octhex.match(text)
         if mo:
@@ -1148,6 +1163,17 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                 return val
         return None
 
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> ScalarValue:
+        for t in self.types:
+            try:
+                val = t.from_yang(text, sctx)
+            except InvalidArgument:
+                continue
+            if val in t:
+                return val
+        raise InvalidArgument(text)
+
     def _handle_properties(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
         self.types = [self._resolve_type(ts, sctx)
@@ -1156,6 +1182,7 @@ class UnionType(DataType[ScalarValue, RawScalar]):
     def _post_process(self, tnode: "TerminalNode") -> None:
         for t in self.types:
             t._post_process(tnode)
+        super()._post_process(tnode)
 
 
 DataType.dtypes = {"binary": BinaryType,
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 12d83df..36baa6a 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1571,14 +1571,14 @@ class LeafNode(DataNode, TerminalNode):
         if self._mandatory:
             self.parent._add_mandatory_child(self)
         elif self._default is not None:
-            self._default = self.type.from_yang(self._default)
+            self._default = self.type.from_yang(*self._default)
 
     def _tree_line(self, no_type: bool = False) -> str:
         res = super()._tree_line() + ("" if self._mandatory else "?")
         return res if no_type else f"{res} <{self.type}>"
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-        self._default = stmt.argument
+        self._default = (stmt.argument, sctx)
 
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
@@ -1611,9 +1611,8 @@ class LeafListNode(SequenceNode, TerminalNode):
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if self._default is None:
-            self._default = [stmt.argument]
-        else:
-            self._default.append(stmt.argument)
+            self._default = []
+        self._default.append((stmt.argument, sctx))
 
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
@@ -1622,17 +1621,18 @@ class LeafListNode(SequenceNode, TerminalNode):
                 self._default = []
             self._default_stmt(stmt, sctx)
         elif action == "delete":
-            val = self.type.parse_value(stmt.argument)
-            for i in range(len(self._default)):
-                if self._default[i] == val:
+            for i in range(len(self._default or [])):
+                if self._default[i][0] == stmt.argument:
                     del self._default[i]
-                    return
+                    break
+            if not self._default:
+                self._default = None
 
     def _post_process(self) -> None:
         super()._post_process()
         if self._default is not None:
             self._default = ArrayValue(
-                [self.type.from_yang(v) for v in self._default])
+                [self.type.from_yang(*v) for v in self._default])
 
     def _tree_line(self, no_type: bool = False) -> str:
         res = super()._tree_line()
-- 
2.43.0


From d90c55a52fb623bf29e77b99164e70d4a34edea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 028/108] fix: adding defaults to an object having only
 metadata

---
 yangson/instance.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 14dead4..3e2e186 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -420,8 +420,9 @@ class InstanceNode:
             return self
         res = self
         if isinstance(val, ObjectValue):
-            if val:
-                for mn in self._member_names():
+            names = self._member_names()
+            if names:
+                for mn in names:
                     m = res._member(mn) if res is self else res.sibling(mn)
                     res = m.add_defaults(ctype, tag=tag)
                 res = res.up()
-- 
2.43.0


From 1bc282198069a7ac93b96b1059d02912ee181ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 029/108] fix: time stamps aren't changed by moving and don't
 go back on update

---
 yangson/instance.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 3e2e186..1601642 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -298,7 +298,7 @@ class InstanceNode:
         """
         newval = self.schema_node.from_raw(
             value, self.json_pointer()) if raw else value
-        return self._copy(newval)
+        return self._copy(newval, datetime.now())
 
     def merge(self, value: Union[RawValue, Value],
               raw: bool = False) -> "InstanceNode":
@@ -819,9 +819,8 @@ class ObjectMember(InstanceNode):
 
     def _zip(self) -> ObjectValue:
         """Zip the receiver into an object and return it."""
-        res = ObjectValue(self.siblings.copy(), self.timestamp)
-        res[self.name] = self.value
-        return res
+        return ObjectValue(
+            {**self.siblings, self.name: self.value}, self.timestamp)
 
     def _copy(self, newval: Value, newts: datetime = None) -> "ObjectMember":
         if newts:
-- 
2.43.0


From 5df223abd5cfefad947792fd25a038111ddfec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:32 +0000
Subject: [PATCH 030/108] fix: missing mandatory choice is reported, also with
 a single case

---
 yangson/schemanode.py | 4 +++-
 yangson/schpattern.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 36baa6a..38779e5 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -662,7 +662,7 @@ class InternalNode(SchemaNode):
                     "member-not-allowed", m)
             p = newp
         if not p.nullable(ctype):
-            mms = p._mandatory_members(ctype)
+            mms = p._mandatory_members(ctype) or []
             msg = "one of " if len(mms) > 1 else ""
             raise SchemaError(
                 inst, "missing-data",
@@ -1489,6 +1489,8 @@ class ChoiceNode(InternalNode):
         if not self.children:
             return Empty()
         prev = self.children[0]._schema_pattern()
+        if self.mandatory and len(self.children) == 1:
+            prev = ChoicePattern(NotAllowed(), prev, self.name)
         for c in self.children[1:]:
             prev = ChoicePattern(c._schema_pattern(), prev, self.name)
         prev.ctype = self.content_type()
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 7a53ce9..c616502 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -280,8 +280,11 @@ class ChoicePattern(Alternative, Typeable):
                 f"Choice {self.name}\n{self.left.tree(indent + 2)}\n"
                 f"{self.right.tree(indent + 2)}")
 
-    def _members(self, ctype: ContentType) -> list[InstanceName]:
-        return super()._members(ctype) if self._active(ctype) else []
+    def _mandatory_members(self, ctype: ContentType) -> list[InstanceName]:
+        if self._active(ctype):
+            return ((self.left._mandatory_members(ctype) or []) +
+                    (self.right._mandatory_members(ctype) or [])
+                    ) or [f"choice {self.name}"]
 
 
 class Pair(SchemaPattern):
-- 
2.43.0


From 72f3b9d1a2d1a15e7dad0d523cf6c568a661b7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:32 +0000
Subject: [PATCH 031/108] fix: member names with an empty prefix aren't those
 of local members

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 38779e5..fc7bab7 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -463,7 +463,7 @@ class InternalNode(SchemaNode):
             name: Child's name.
             ns: Child's namespace (= `self.ns` if absent).
         """
-        ns = ns if ns else self.ns
+        ns = self.ns if ns is None else ns
         todo = []
         for child in self.children:
             if child.name is None:
@@ -496,7 +496,7 @@ class InternalNode(SchemaNode):
     def get_data_child(self, name: YangIdentifier,
                        ns: YangIdentifier = None) -> Optional["DataNode"]:
         """Return data node directly under the receiver."""
-        ns = ns if ns else self.ns
+        ns = self.ns if ns is None else ns
         todo = []
         for child in self.children:
             if child.name == name and child.ns == ns:
-- 
2.43.0


From 34c2d9a752997f45dafd94533fa3f34cdcf56dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:23 +0000
Subject: [PATCH 032/108] fix: containers with mandatory state and
 configuration nodes are mandatory in configuration

---
 yangson/schemanode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index fc7bab7..72038a8 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1133,9 +1133,10 @@ class ContainerNode(DataNode, InternalNode):
         return res
 
     def _add_mandatory_child(self, node: SchemaNode):
-        propagate = not (self.presence or self.mandatory)
+        old = (self.mandatory, self.mandatory_config)
         super()._add_mandatory_child(node)
-        if propagate:
+        if (not self.presence and
+                (self.mandatory, self.mandatory_config) != old):
             self.parent._add_mandatory_child(self)
 
     def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
-- 
2.43.0


From d372613abbf2420cbc8596198ee9a5b30839fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:42 +0000
Subject: [PATCH 033/108] fix: error tags data-not-unique and
 repeated-leaf-list-values are as documented

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 72038a8..4fea9f9 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1381,7 +1381,7 @@ class ListNode(SequenceNode, InternalNode):
                 uvals.append(uval)
             tups = set(product(*uvals))
             if tups & allvals:
-                raise SemanticError(inst, f"data-not-unique: entry {i}")
+                raise SemanticError(inst, "data-not-unique", f"entry {i}")
             else:
                 allvals |= tups
 
@@ -1610,7 +1610,7 @@ class LeafListNode(SequenceNode, TerminalNode):
     def _check_list_props(self, inst: InstanceNode) -> None:
         if (self.content_type() == ContentType.config and
                 len(set(inst.value)) < len(inst.value)):
-            raise SemanticError(inst, "repeated-leaf-list-value")
+            raise SemanticError(inst, "repeated-leaf-list-values")
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if self._default is None:
-- 
2.43.0


From 492a172efc5caf1f7b9224e74dcadb1a51ae32f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 034/108] fix: boolean and integer values of unions are
 different in keys and leaf-lists

---
 yangson/schemanode.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 4fea9f9..dbad609 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1364,10 +1364,11 @@ class ListNode(SequenceNode, InternalNode):
             except KeyError as e:
                 raise SchemaError(inst._entry(i),
                                   "list-key-missing", e.args[0]) from None
-            if kval in ukeys:
+            tkval = tuple([(type(v), v) for v in kval])  # 1 isn't True
+            if tkval in ukeys:
                 raise SemanticError(inst, "non-unique-key",
                                     repr(kval[0] if len(kval) < 2 else kval))
-            ukeys.add(kval)
+            ukeys.add(tkval)
 
     def _check_unique(self, unique: list[LocationPath],
                       inst: InstanceNode) -> None:
@@ -1377,7 +1378,7 @@ class ListNode(SequenceNode, InternalNode):
             den = en.add_defaults()
             uvals = []
             for uex in unique:
-                uval = [n.value for n in uex.evaluate(den)]
+                uval = [(type(n.value), n.value) for n in uex.evaluate(den)]
                 uvals.append(uval)
             tups = set(product(*uvals))
             if tups & allvals:
@@ -1609,7 +1610,8 @@ class LeafListNode(SequenceNode, TerminalNode):
 
     def _check_list_props(self, inst: InstanceNode) -> None:
         if (self.content_type() == ContentType.config and
-                len(set(inst.value)) < len(inst.value)):
+                len(set((type(v), v) for v in inst.value)) <
+                len(inst.value)):
             raise SemanticError(inst, "repeated-leaf-list-values")
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From b62e77ec7c2ecda092a557f041388585a2d650c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:10 +0000
Subject: [PATCH 035/108] fix: XPath number and string functions follow XPath
 1.0

---
 yangson/nodeset.py  | 49 +++++++++++++++++++++++-
 yangson/xpathast.py | 90 ++++++++++++++++++---------------------------
 2 files changed, 83 insertions(+), 56 deletions(-)

diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index f26b457..1ef8c7e 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -16,6 +16,8 @@
 # along with Yangson.  If not, see <http://www.gnu.org/licenses/>.
 
 """XPath node-set"""
+from decimal import Decimal
+import re
 from typing import Callable, Union
 from numbers import Number
 from .instance import InstanceNode
@@ -26,6 +28,51 @@ NodeExpr = Callable[[InstanceNode], "NodeSet"]
 XPathValue = Union["NodeSet", str, float, bool]
 
 
+_number_re = re.compile(r"[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*")
+
+
+def xpath_number(val: XPathValue) -> float:
+    """Convert `val` to a number as the XPath function `number`."""
+    if isinstance(val, NodeSet):
+        return node_number(val[0]) if val else float("nan")
+    if isinstance(val, str):
+        return (float(val.strip(" \t\r\n")) if _number_re.fullmatch(val)
+                else float("nan"))
+    return float(val)
+
+
+def node_number(node: InstanceNode) -> float:
+    """Convert string-value of `node` to a number."""
+    if node.is_internal():
+        return float("nan")
+    if (isinstance(node.value, (int, Decimal)) and
+            not isinstance(node.value, bool)):
+        return float(node.value)
+    return xpath_number(str(node))
+
+
+def xpath_string(val: XPathValue) -> str:
+    """Convert `val` to a string as the XPath function `string`."""
+    if isinstance(val, bool):
+        return "true" if val else "false"
+    if isinstance(val, float):
+        if val != val:
+            return "NaN"
+        if val in (float("inf"), float("-inf")):
+            return "Infinity" if val > 0 else "-Infinity"
+        if int(val) == val:
+            return str(int(val))
+        return format(Decimal(str(val)), "f")
+    return str(val)
+
+
+def xpath_boolean(val: XPathValue) -> bool:
+    """Convert `val` to a boolean as the XPath function `boolean`."""
+    if isinstance(val, float):
+        return val == val and val != 0.0
+    return bool(val)
+
+
 def comparison(meth):
     def wrap(self, arg):
         if isinstance(arg, NodeSet):
@@ -50,7 +97,7 @@ class NodeSet(list):
             {m.path: m for n in self for m in trans(n)}.values())
 
     def __float__(self) -> float:
-        return (float(self[0].value) if self else float("nan"))
+        return xpath_number(self)
 
     def __str__(self) -> str:
         return str(self[0]) if self else ""
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 0fb6756..59bb7c7 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,7 +24,7 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 import decimal
-from math import ceil, copysign, floor, isnan
+from math import ceil, copysign, floor, fmod, isfinite
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -35,7 +35,8 @@ from .exceptions import InvalidArgument, XPathTypeError
 from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
-from .nodeset import NodeExpr, NodeSet, XPathValue
+from .nodeset import (NodeExpr, NodeSet, XPathValue, node_number,
+                      xpath_boolean, xpath_number, xpath_string)
 from .typealiases import QualName
 
 
@@ -75,25 +76,10 @@ class Expr:
         return self._eval(XPathContext(node, node, 1, 1))
 
     def _eval_float(self, xctx: XPathContext) -> float:
-        val = self._eval(xctx)
-        try:
-            return float(val)
-        except ValueError:
-            return float('nan')
+        return xpath_number(self._eval(xctx))
 
     def _eval_string(self, xctx: XPathContext) -> str:
-        val = self._eval(xctx)
-        if isinstance(val, float):
-            try:
-                if int(val) == val:
-                    return str(int(val))
-            except OverflowError:
-                return "Infinity" if val > 0 else "-Infinity"
-            except ValueError:
-                return "NaN"
-        if isinstance(val, bool):
-            return str(val).lower()
-        return str(val)
+        return xpath_string(self._eval(xctx))
 
     def _xfunc_name(self) -> str:
         """Return XPath function name based on the class.
@@ -323,11 +309,11 @@ class MultiplicativeExpr(BinaryExpr):
             try:
                 return lres / rres
             except ZeroDivisionError:
-                return (float("nan") if lres == 0.0
-                        else copysign(float('inf'), lres))
+                return (float("nan") if lres == 0.0 or lres != lres else
+                        copysign(float('inf'), lres) * copysign(1.0, rres))
         try:
-            return copysign(lres % rres, lres)
-        except ZeroDivisionError:
+            return fmod(lres, rres)
+        except ValueError:
             return float('nan')
 
 
@@ -542,16 +528,14 @@ class FuncBitIsSet(BinaryExpr):
 class FuncBoolean(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        val = self.expr._eval(xctx)
-        if isinstance(val, float) and isnan(val):
-            return False
-        return bool(val)
+        return xpath_boolean(self.expr._eval(xctx))
 
 
 class FuncCeiling(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(ceil(self.expr._eval_float(xctx)))
+        val = self.expr._eval_float(xctx)
+        return float(ceil(val)) if isfinite(val) else val
 
 
 class FuncConcat(Expr):
@@ -660,7 +644,8 @@ class FuncFalse(Expr):
 class FuncFloor(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(floor(self.expr._eval_float(xctx)))
+        val = self.expr._eval_float(xctx)
+        return float(floor(val)) if isfinite(val) else val
 
 
 class FuncLast(Expr):
@@ -708,7 +693,7 @@ class FuncNormalizeSpace(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         string = self.expr._eval_string(xctx) if self.expr else str(xctx.cnode)
-        return " ".join(string.strip().split())
+        return " ".join([s for s in re.split("[ \t\r\n]+", string) if s])
 
 
 class FuncNot(UnaryExpr):
@@ -721,10 +706,7 @@ class FuncNumber(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
         if self.expr is None:
-            try:
-                return float(xctx.cnode.value)
-            except ValueError:
-                return float('nan')
+            return node_number(xctx.cnode)
         return self.expr._eval_float(xctx)
 
 
@@ -752,7 +734,12 @@ class FuncReMatch(BinaryExpr):
 class FuncRound(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        dec = decimal.Decimal(self.expr._eval_float(xctx))
+        return self._round(self.expr._eval_float(xctx))
+
+    @staticmethod
+    def _round(val: float) -> float:
+        """Round to the closest integer, halves towards positive infinity."""
+        dec = decimal.Decimal(val)
         try:
             return float(dec.to_integral_value(
                 decimal.ROUND_HALF_UP if dec > 0 else decimal.ROUND_HALF_DOWN))
@@ -795,23 +782,16 @@ class FuncSubstring(BinaryExpr):
         return res + ")"
 
     def _children_ast(self, indent: int) -> str:
-        return super()._children_ast(indent) + self.length.syntax_tree(indent)
+        res = super()._children_ast(indent)
+        return res + self.length.syntax_tree(indent) if self.length else res
 
     def _eval(self, xctx: XPathContext) -> str:
         string = self.left._eval_string(xctx)
-        rres = self.right._eval_float(xctx)
-        try:
-            start = round(rres) - 1
-        except (ValueError, OverflowError):
-            return "" if self.length or rres != float("-inf") else string
-        if self.length is None:
-            return string[max(start, 0):]
-        length = self.length._eval_float(xctx)
-        try:
-            end = start + round(length)
-        except (ValueError, OverflowError):
-            return string[max(start, 0):] if length == float('inf') else ""
-        return string[max(start, 0):end]
+        start = FuncRound._round(self.right._eval_float(xctx))
+        end = (float("inf") if self.length is None else
+               start + FuncRound._round(self.length._eval_float(xctx)))
+        return "".join(
+            [c for i, c in enumerate(string, 1) if start <= i < end])
 
 
 class FuncSubstringAfter(BinaryExpr):
@@ -836,10 +816,8 @@ class FuncSum(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        try:
-            return float(sum([n.value for n in ns]))
-        except TypeError:
-            return float('nan')
+        return sum([float(n.value) if isinstance(n.value, bool)
+                    else node_number(n) for n in ns], 0.0)
 
 
 class FuncTranslate(BinaryExpr):
@@ -858,8 +836,10 @@ class FuncTranslate(BinaryExpr):
     def _eval(self, xctx: XPathContext) -> str:
         string, old = self._eval_ops_string(xctx)
         new = self.nchars._eval_string(xctx)[:len(old)]
-        ttab = str.maketrans(old[:len(new)], new, old[len(new):])
-        return string.translate(ttab)
+        ttab = {}
+        for i in range(len(old)):
+            ttab.setdefault(old[i], new[i] if i < len(new) else "")
+        return "".join([ttab.get(c, c) for c in string])
 
 
 class FuncTrue(Expr):
-- 
2.43.0


From 086a5abc6b5f4f72c05c6a33898021c76fd863d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:25 +0000
Subject: [PATCH 036/108] fix: XPath comparisons and boolean operators follow
 XPath 1.0

---
 yangson/nodeset.py  | 23 +++++++++++++++++++++++
 yangson/xpathast.py | 39 +++++++++++++++++++++++++++++----------
 2 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index 1ef8c7e..8f2f485 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -17,6 +17,7 @@
 
 """XPath node-set"""
 from decimal import Decimal
+from operator import eq, ne
 import re
 from typing import Callable, Union
 from numbers import Number
@@ -73,6 +74,28 @@ def xpath_boolean(val: XPathValue) -> bool:
     return bool(val)
 
 
+def xpath_compare(oper: Callable[[XPathValue, XPathValue], bool],
+                  left: XPathValue, right: XPathValue) -> bool:
+    """Compare `left` and `right` as XPath comparison operators do.
+
+    Args:
+        oper: Comparison function of the ``operator`` module.
+        left: Left operand.
+        right: Right operand.
+    """
+    def operands(val: XPathValue) -> list[XPathValue]:
+        if isinstance(val, NodeSet):
+            return [node_number(n) if numeric else str(n)
+                    for n in val if not n.is_internal()]
+        return [xpath_number(val) if numeric else val]
+    types = (type(left), type(right))
+    if bool in types and (NodeSet in types or oper in (eq, ne)):
+        return oper(xpath_boolean(left), xpath_boolean(right))
+    numeric = oper not in (eq, ne) or float in types
+    return any([oper(lop, rop) for lop in operands(left)
+                for rop in operands(right)])
+
+
 def comparison(meth):
     def wrap(self, arg):
         if isinstance(arg, NodeSet):
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 59bb7c7..16286fa 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -25,6 +25,7 @@ class is intended to be public:
 """
 import decimal
 from math import ceil, copysign, floor, fmod, isfinite
+from operator import eq, ge, gt, le, lt, ne
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -36,7 +37,8 @@ from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
 from .nodeset import (NodeExpr, NodeSet, XPathValue, node_number,
-                      xpath_boolean, xpath_number, xpath_string)
+                      xpath_boolean, xpath_compare, xpath_number,
+                      xpath_string)
 from .typealiases import QualName
 
 
@@ -75,6 +77,21 @@ class Expr:
         """
         return self._eval(XPathContext(node, node, 1, 1))
 
+    def holds(self, node: InstanceNode) -> bool:
+        """Evaluate the receiver as a condition.
+
+        Args:
+            node: Context node for XPath evaluation.
+
+        Raises:
+            XPathTypeError: If a subexpression of the receiver is of a wrong
+                type.
+        """
+        return xpath_boolean(self.evaluate(node))
+
+    def _eval_boolean(self, xctx: XPathContext) -> bool:
+        return xpath_boolean(self._eval(xctx))
+
     def _eval_float(self, xctx: XPathContext) -> float:
         return xpath_number(self._eval(xctx))
 
@@ -199,7 +216,8 @@ class OrExpr(BinaryExpr):
         return self._as_str("or")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) or self.right._eval(xctx)
+        return (self.left._eval_boolean(xctx) or
+                self.right._eval_boolean(xctx))
 
 
 class AndExpr(BinaryExpr):
@@ -210,7 +228,8 @@ class AndExpr(BinaryExpr):
         return self._as_str("and")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) and self.right._eval(xctx)
+        return (self.left._eval_boolean(xctx) and
+                self.right._eval_boolean(xctx))
 
 
 class EqualityExpr(BinaryExpr):
@@ -232,7 +251,7 @@ class EqualityExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
-        return lres != rres if self.negate else lres == rres
+        return xpath_compare(ne if self.negate else eq, lres, rres)
 
 
 class RelationalExpr(BinaryExpr):
@@ -258,8 +277,8 @@ class RelationalExpr(BinaryExpr):
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
         if self.less:
-            return lres <= rres if self.equal else lres < rres
-        return lres >= rres if self.equal else lres > rres
+            return xpath_compare(le if self.equal else lt, lres, rres)
+        return xpath_compare(ge if self.equal else gt, lres, rres)
 
 
 class AdditiveExpr(BinaryExpr):
@@ -528,7 +547,7 @@ class FuncBitIsSet(BinaryExpr):
 class FuncBoolean(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return xpath_boolean(self.expr._eval(xctx))
+        return self.expr._eval_boolean(xctx)
 
 
 class FuncCeiling(UnaryExpr):
@@ -699,7 +718,7 @@ class FuncNormalizeSpace(UnaryExpr):
 class FuncNot(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return not self.expr._eval(xctx)
+        return not self.expr._eval_boolean(xctx)
 
 
 class FuncNumber(UnaryExpr):
@@ -715,8 +734,8 @@ class FuncPosition(Expr):
     def __str__(self) -> str:
         return "position()"
 
-    def _eval(self, xctx: XPathContext) -> int:
-        return xctx.position
+    def _eval(self, xctx: XPathContext) -> float:
+        return float(xctx.position)
 
 
 class FuncReMatch(BinaryExpr):
-- 
2.43.0


From 3f4f2739792bb078b167989b7cfedfda9dd5cc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:40 +0000
Subject: [PATCH 037/108] fix: must and when conditions are XPath booleans

---
 yangson/instance.py   | 2 +-
 yangson/schemanode.py | 8 ++++----
 yangson/schpattern.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1601642..4a6d8d0 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -682,7 +682,7 @@ class InstanceNode:
                 cn = cn.parent
                 if cn is sn:
                     return wd._member(iname)._node_set()
-                if (cn.when and not cn.when.evaluate(self) or
+                if (cn.when and not cn.when.holds(self) or
                     isinstance(cn, CaseNode) and
                         cn.qual_name != cn.parent.default_case):
                     return []
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index dbad609..5a6c569 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -989,7 +989,7 @@ class DataNode(SchemaNode):
         if iname in pnode.value:
             return pnode
         nm = pnode.put_member(iname, (None,))
-        if not self.when or self.when.evaluate(nm):
+        if not self.when or self.when.holds(nm):
             wd = self._default_value(nm, ctype, lazy)
             if wd.value is not None:
                 return wd.up()
@@ -997,7 +997,7 @@ class DataNode(SchemaNode):
 
     def _check_must(self, inst: InstanceNode) -> None:
         for m in self.must:
-            if not m.expression.evaluate(inst):
+            if not m.expression.holds(inst):
                 raise SemanticError(inst, m.error_tag, m.error_message)
 
     def _pattern_entry(self) -> SchemaPattern:
@@ -1465,7 +1465,7 @@ class ChoiceNode(InternalNode):
 
     def _add_defaults(self, inst: InstanceNode,
                       ctype: Optional[ContentType]) -> InstanceNode:
-        if self.when and not self.when.evaluate(inst):
+        if self.when and not self.when.holds(inst):
             return inst
         ac = self._active_case(inst.value)
         if ac:
@@ -1473,7 +1473,7 @@ class ChoiceNode(InternalNode):
         elif self.default_case:
             n = dc = self.get_child(*self.default_case)
             while n is not self:
-                if n.when and not n.when.evaluate(inst):
+                if n.when and not n.when.holds(inst):
                     return inst
                 n = n.parent
             return dc._add_defaults(inst, ctype)
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index c616502..5341331 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -130,7 +130,7 @@ class Conditional(SchemaPattern):
         return not self.when or self._val_when
 
     def _eval_when(self, cnode: "InstanceNode") -> None:
-        self._val_when = bool(self.when.evaluate(cnode))
+        self._val_when = self.when.holds(cnode)
 
     def _active(self, ctype: ContentType) -> bool:
         return super()._active(ctype) and self.check_when()
-- 
2.43.0


From 95f2e2ad7ebca8754b1dd895d4730808b430cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:24 +0000
Subject: [PATCH 038/108] fix: XPath steps, predicates and relative paths after
 a filter expression

---
 yangson/instance.py    | 23 +++++++++++++++++------
 yangson/xpathast.py    | 35 ++++++++++++++---------------------
 yangson/xpathparser.py | 12 +++++++-----
 3 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 4a6d8d0..81326dc 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -696,8 +696,8 @@ class InstanceNode:
     def _descendants(self, qname: Union[QualName, bool] = None,
                      with_self: bool = False) -> list["InstanceNode"]:
         """XPath - return the list of receiver's descendants."""
-        res = ([] if not with_self or (qname and (
-            self.parinst is None or self.qual_name != qname)) else [self])
+        res = ([self] if with_self and (not qname or self._self(qname))
+               else [])
         for c in self._children():
             if not qname or c.qual_name == qname:
                 res.append(c)
@@ -716,9 +716,15 @@ class InstanceNode:
         """XPath - return the list of receiver's following-siblings."""
         return []
 
-    def _parent(self) -> list["InstanceNode"]:
+    def _self(self,
+              qname: Union[QualName, bool] = None) -> list["InstanceNode"]:
+        """XPath - return the receiver as a singleton list."""
+        return [] if qname and self.qual_name != qname else [self]
+
+    def _parent(self,
+                qname: Union[QualName, bool] = None) -> list["InstanceNode"]:
         """XPath - return the receiver's parent as a singleton list."""
-        return [self.up()]
+        return self.up()._self(qname) if self.parinst else []
 
     def _deref(self) -> list["InstanceNode"]:
         """XPath: return the list of nodes that the receiver refers to."""
@@ -765,6 +771,10 @@ class RootNode(InstanceNode):
         return RootNode(newval, self.schema_node, self.schema_data,
                         newts if newts else newval.timestamp)
 
+    def _self(self, qname: Union[QualName, bool] = None) -> list["RootNode"]:
+        """XPath - return the receiver as a singleton list."""
+        return [self] if qname is None else []
+
     def _ancestors_or_self(
             self: "RootNode",
             qname: Union[QualName, bool] = None) -> list["RootNode"]:
@@ -1035,9 +1045,10 @@ class ArrayEntry(InstanceNode):
             res.append(en)
         return res
 
-    def _parent(self) -> list[InstanceNode]:
+    def _parent(self,
+                qname: Union[QualName, bool] = None) -> list[InstanceNode]:
         """XPath - return the receiver's parent as a singleton list."""
-        return [self.up().up()]
+        return self.up()._parent(qname)
 
 
 def _quote(value: str) -> str:
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 16286fa..13801e4 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -137,18 +137,15 @@ class Expr:
 
     def _apply_predicates(self, ns: XPathValue,
                           xctx: XPathContext) -> XPathValue:
+        if self.predicates and not isinstance(ns, NodeSet):
+            raise XPathTypeError(str(ns))
         for p in self.predicates:
             res = NodeSet([])
             size = len(ns)
             for i in range(size):
                 pval = p._eval(XPathContext(ns[i], xctx.origin, i + 1, size))
-                try:
-                    if isinstance(pval, float) and pval > 0:
-                        res.append(ns[int(pval) - 1])
-                        break
-                except IndexError:
-                    return res
-                if pval:
+                if (pval == i + 1 if isinstance(pval, float)
+                        else xpath_boolean(pval)):
                     res.append(ns[i])
             ns = res
         return ns
@@ -364,6 +361,9 @@ class UnionExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> NodeSet:
         lres, rres = self._eval_ops(xctx)
+        for ns in (lres, rres):
+            if not isinstance(ns, NodeSet):
+                raise XPathTypeError(str(ns))
         return lres.union(rres)
 
 
@@ -434,8 +434,7 @@ class LocationPath(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
         lres = self.left._eval(xctx)
-        ns = lres.bind(self.right._node_trans())
-        return self.right._apply_predicates(ns, xctx)
+        return lres.bind(lambda n: self.right._eval(xctx.update_cnode(n)))
 
     def __str__(self) -> str:
         sep = "" if isinstance(self.left, Root) else "/"
@@ -516,14 +515,10 @@ class Step(Expr):
                 lambda n, qn=self.qname: n._descendants(qn, True),
             Axis.following_sibling:
                 lambda n, qn=self.qname: n._following_siblings(qn),
-            Axis.parent: (
-                lambda n, qn=self.qname: [] if qn and qn != n.parent.qual_name
-                else n._parent()),
+            Axis.parent: lambda n, qn=self.qname: n._parent(qn),
             Axis.preceding_sibling:
                 lambda n, qn=self.qname: n._preceding_siblings(qn),
-            Axis.self:
-                lambda n, qn=self.qname: [] if qn and qn != n.qual_name
-                else [n],
+            Axis.self: lambda n, qn=self.qname: n._self(qn),
         }[self.axis]
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
@@ -603,8 +598,7 @@ class FuncDeref(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        ref = ns[0]
-        return NodeSet(ref._deref())
+        return NodeSet(ns[0]._deref() if ns else [])
 
 
 class FuncDerivedFrom(BinaryExpr):
@@ -694,12 +688,11 @@ class FuncName(UnaryExpr):
             node = xctx.cnode
         else:
             ns = self.expr._eval(xctx)
-            try:
-                node = ns[0]
-            except TypeError:
+            if not isinstance(ns, NodeSet):
                 raise XPathTypeError(str(ns))
-            except IndexError:
+            if not ns:
                 return ""
+            node = ns[0]
         if node.parinst is None:
             return ""
         if self.local:
diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 3df7793..292d28c 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -197,7 +197,8 @@ class XPathParser(Parser):
     def _path_expr(self, fname: str) -> Expr:
         fexpr = self._filter_expr(fname)
         if self.test_string("/"):
-            return PathExpr(fexpr, self._location_path())
+            self.skip_ws()
+            return PathExpr(fexpr, self._relative_path(self._step()))
         return fexpr
 
     def _filter_expr(self, fname: str) -> Expr:
@@ -230,11 +231,12 @@ class XPathParser(Parser):
     def _location_path(self) -> LocationPath:
         if self.test_string("/"):
             self.skip_ws()
-            if self.at_end():
+            if self.at_end() or self.peek() in "])=!<>|+-,":
                 return Root()
-            op1 = LocationPath(Root(), self._step())
-        else:
-            op1 = self._step()
+            return self._relative_path(LocationPath(Root(), self._step()))
+        return self._relative_path(self._step())
+
+    def _relative_path(self, op1: Expr) -> Expr:
         while self.test_string("/"):
             self.skip_ws()
             op2 = self._step()
-- 
2.43.0


From aceab76d08f94df0c3b627d7f9f9ca57fa956ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:47 +0000
Subject: [PATCH 039/108] fix: derived-from checks all nodes, bit-is-set only
 bits

---
 yangson/xpathast.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 13801e4..0631f4b 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -533,10 +533,8 @@ class FuncBitIsSet(BinaryExpr):
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
         bit = self.right._eval_string(xctx)
-        try:
-            return bit in ns[0].value
-        except (IndexError, TypeError):
-            return False
+        return (len(ns) > 0 and isinstance(ns[0].value, tuple) and
+                bit in ns[0].value)
 
 
 class FuncBoolean(UnaryExpr):
@@ -624,7 +622,7 @@ class FuncDerivedFrom(BinaryExpr):
             self.right._eval_string(xctx), self.sctx.text_mid)
         for n in ns:
             if not n.schema_node._is_identityref():
-                return False
+                continue
             if self.or_self and n.value == i:
                 return True
             if self.sctx.schema_data.is_derived_from(n.value, i):
-- 
2.43.0


From f473f6d7098f4a5ef563d44940ba99cb8e416128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 040/108] fix: defaults and validity of cases, also under
 conditional uses and augment

---
 yangson/instance.py   | 12 ++++++---
 yangson/schemanode.py | 61 ++++++++++++++++++++++++++++---------------
 2 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 81326dc..ae2dfa3 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -678,13 +678,17 @@ class InstanceNode:
             wd = cn._default_instance(self, ContentType.all, lazy=True)
             if iname not in wd.value:
                 return []
+            case = None
             while True:
                 cn = cn.parent
                 if cn is sn:
                     return wd._member(iname)._node_set()
-                if (cn.when and not cn.when.holds(self) or
-                    isinstance(cn, CaseNode) and
-                        cn.qual_name != cn.parent.default_case):
+                if cn.when and not cn.when.holds(self):
+                    return []
+                if isinstance(cn, CaseNode):
+                    case = cn
+                elif (isinstance(cn, ChoiceNode) and
+                        cn._used_case(self.value) is not case):
                     return []
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
@@ -1419,7 +1423,7 @@ class InstanceIdParser(Parser):
 
 
 from .schemanode import (       # NOQA
-            AnyContentNode, AnydataNode, CaseNode,
+            AnyContentNode, AnydataNode, CaseNode, ChoiceNode,
             ChoiceNode, DataNode, InputNode,
             InternalNode, LeafNode, LeafListNode, ListNode, NotificationNode,
             OutputNode, RpcActionNode, SequenceNode, SchemaTreeNode,
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 5a6c569..a1b776a 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -888,6 +888,17 @@ class GroupNode(InternalNode):
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
+    def _case_patterns(self) -> list[SchemaPattern]:
+        res = [p for c in self.children for p in c._case_patterns()]
+        return ([ConditionalPattern(p, self.when) for p in res] if self.when
+                else res)
+
+    def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
+                      lazy: bool = False) -> InstanceNode:
+        if self.when and not self.when.holds(inst):
+            return inst
+        return super()._add_defaults(inst, ctype, lazy)
+
     def _flatten(self) -> list[SchemaNode]:
         res = []
         for c in self.children:
@@ -1463,38 +1474,43 @@ class ChoiceNode(InternalNode):
         """Override the superclass property."""
         return self._mandatory
 
-    def _add_defaults(self, inst: InstanceNode,
-                      ctype: Optional[ContentType]) -> InstanceNode:
+    def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
+                      lazy: bool = False) -> InstanceNode:
         if self.when and not self.when.holds(inst):
             return inst
-        ac = self._active_case(inst.value)
-        if ac:
-            return ac._add_defaults(inst, ctype)
-        elif self.default_case:
-            n = dc = self.get_child(*self.default_case)
-            while n is not self:
-                if n.when and not n.when.holds(inst):
-                    return inst
-                n = n.parent
-            return dc._add_defaults(inst, ctype)
-        else:
+        n = cn = self._used_case(inst.value)
+        if cn is None:
             return inst
+        while n is not self:
+            if n.when and not n.when.holds(inst):
+                return inst
+            n = n.parent
+        return cn._add_defaults(inst, ctype, lazy)
+
+    def _used_case(self, value: ObjectValue) -> Optional["CaseNode"]:
+        """Return the active or default case for an instance node value."""
+        ac = self._active_case(value)
+        if ac is None and self.default_case:
+            return self.get_child(*self.default_case)
+        return ac
 
     def _active_case(self, value: ObjectValue) -> Optional["CaseNode"]:
         """Return receiver's case that's active in an instance node value."""
         for c in self.children:
-            for cc in c.data_children():
-                if cc.iname() in value:
-                    return c
+            for case in c._flatten():
+                for cc in case.data_children():
+                    if cc.iname() in value:
+                        return case
 
     def _pattern_entry(self) -> SchemaPattern:
-        if not self.children:
+        cases = [p for c in self.children for p in c._case_patterns()]
+        if not cases:
             return Empty()
-        prev = self.children[0]._schema_pattern()
-        if self.mandatory and len(self.children) == 1:
+        prev = cases[0]
+        if self.mandatory and len(cases) == 1:
             prev = ChoicePattern(NotAllowed(), prev, self.name)
-        for c in self.children[1:]:
-            prev = ChoicePattern(c._schema_pattern(), prev, self.name)
+        for cp in cases[1:]:
+            prev = ChoicePattern(cp, prev, self.name)
         prev.ctype = self.content_type()
         if not self.mandatory:
             prev = SchemaPattern.optional(prev)
@@ -1540,6 +1556,9 @@ class ChoiceNode(InternalNode):
 class CaseNode(InternalNode):
     """Case node."""
 
+    def _case_patterns(self) -> list[SchemaPattern]:
+        return [self._schema_pattern()]
+
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
-- 
2.43.0


From 558f7c8d4fdcf3f56996e84c03bf71388391af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 041/108] fix: input left over after an XPath expression is
 refused

---
 yangson/xpathparser.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 292d28c..679edd6 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -64,6 +64,12 @@ class XPathParser(Parser):
             NotSupported: If the input XPath expression contains a feature
                 that isn't supported by the implementation.
         """
+        res = self._expr()
+        if not self.at_end():
+            raise InvalidXPath(self)
+        return res
+
+    def _expr(self) -> Expr:
         self.skip_ws()
         return self._or_expr()
 
@@ -324,28 +330,28 @@ class XPathParser(Parser):
         return res
 
     def _opt_arg(self) -> Optional[Expr]:
-        return None if self.peek() == ")" else self.parse()
+        return None if self.peek() == ")" else self._expr()
 
     def _two_args(self) -> tuple[Expr, Expr]:
-        fst = self.parse()
+        fst = self._expr()
         self.char(",")
         self.skip_ws()
-        return fst, self.parse()
+        return fst, self._expr()
 
     def _func_bit_is_set(self) -> FuncBitIsSet:
         return FuncBitIsSet(*self._two_args())
 
     def _func_boolean(self) -> FuncBoolean:
-        return FuncBoolean(self.parse())
+        return FuncBoolean(self._expr())
 
     def _func_ceiling(self) -> FuncCeiling:
-        return FuncCeiling(self.parse())
+        return FuncCeiling(self._expr())
 
     def _func_concat(self) -> FuncConcat:
-        res = [self.parse()]
+        res = [self._expr()]
         while self.test_string(","):
             self.skip_ws()
-            res.append(self.parse())
+            res.append(self._expr())
         if len(res) < 2:
             raise InvalidXPath(self)
         return FuncConcat(res)
@@ -354,13 +360,13 @@ class XPathParser(Parser):
         return FuncContains(*self._two_args())
 
     def _func_count(self) -> FuncCount:
-        return FuncCount(self.parse())
+        return FuncCount(self._expr())
 
     def _func_current(self) -> FuncCurrent:
         return FuncCurrent()
 
     def _func_deref(self) -> FuncDeref:
-        return FuncDeref(self.parse())
+        return FuncDeref(self._expr())
 
     def _func_derived_from(self) -> FuncDerivedFrom:
         return FuncDerivedFrom(*self._two_args(), False, self.sctx)
@@ -369,13 +375,13 @@ class XPathParser(Parser):
         return FuncDerivedFrom(*self._two_args(), True, self.sctx)
 
     def _func_enum_value(self) -> FuncEnumValue:
-        return FuncEnumValue(self.parse())
+        return FuncEnumValue(self._expr())
 
     def _func_false(self) -> FuncFalse:
         return FuncFalse()
 
     def _func_floor(self) -> FuncFloor:
-        return FuncFloor(self.parse())
+        return FuncFloor(self._expr())
 
     def _func_last(self) -> FuncLast:
         return FuncLast()
@@ -390,7 +396,7 @@ class XPathParser(Parser):
         return FuncNormalizeSpace(self._opt_arg())
 
     def _func_not(self) -> FuncNot:
-        return FuncNot(self.parse())
+        return FuncNot(self._expr())
 
     def _func_number(self) -> FuncNumber:
         return FuncNumber(self._opt_arg())
@@ -402,7 +408,7 @@ class XPathParser(Parser):
         return FuncReMatch(*self._two_args())
 
     def _func_round(self) -> FuncRound:
-        return FuncRound(self.parse())
+        return FuncRound(self._expr())
 
     def _func_starts_with(self) -> FuncStartsWith:
         return FuncStartsWith(*self._two_args())
@@ -417,7 +423,7 @@ class XPathParser(Parser):
         string, start = self._two_args()
         if self.test_string(","):
             self.skip_ws()
-            length = self.parse()
+            length = self._expr()
         else:
             length = None
         return FuncSubstring(string, start, length)
@@ -429,13 +435,13 @@ class XPathParser(Parser):
         return FuncSubstringBefore(*self._two_args())
 
     def _func_sum(self) -> FuncSum:
-        return FuncSum(self.parse())
+        return FuncSum(self._expr())
 
     def _func_translate(self) -> FuncTranslate:
         s1, s2 = self._two_args()
         self.char(",")
         self.skip_ws()
-        return FuncTranslate(s1, s2, self.parse())
+        return FuncTranslate(s1, s2, self._expr())
 
     def _func_true(self) -> FuncTrue:
         return FuncTrue()
-- 
2.43.0


From e980b76498379d707eea428239891d08c61eb961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 042/108] fix: deref of an instance identifier without a target
 is empty

---
 yangson/datatype.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 44c67ae..17124e2 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -53,8 +53,9 @@ from typing import (Any, cast, ClassVar, Generic, Optional, Type,
 
 from .constraint import Intervals, Pattern
 from .exceptions import (
-    InvalidArgument, InvalidXPath, NotSupported, ParserException,
-    ModuleNotRegistered, UnknownPrefix, InvalidLeafrefPath, XPathTypeError)
+    InstanceException, InvalidArgument, InvalidXPath, NotSupported,
+    ParserException, ModuleNotRegistered, SchemaNodeException, UnknownPrefix,
+    InvalidLeafrefPath, XPathTypeError)
 from .schemadata import SchemaContext
 from .instance import InstanceNode, InstanceIdParser
 from .instroute import InstanceRoute
@@ -743,7 +744,10 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
 
     @staticmethod
     def _deref(node: InstanceNode) -> list[InstanceNode]:
-        return [node.top().goto(cast(InstanceRoute, node.value))]
+        try:
+            return [node.top().goto(cast(InstanceRoute, node.value))]
+        except (InstanceException, SchemaNodeException):
+            return []
 
 
 class IdentityrefType(DataType[QualName, YangIdentifier]):
-- 
2.43.0


From 8a3386f159ac8deb5e2d2f4f0f0ab7e75f8ebbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 043/108] fix: deref of a node that isn't a reference is empty

---
 yangson/datatype.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 17124e2..2d8b562 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -177,6 +177,10 @@ class DataType(ABC, Generic[S, RS]):
         self.error_message = (error_message if error_message else
                               "expected " + str(self))
 
+    def _deref(self, node: InstanceNode) -> list[InstanceNode]:
+        """Return the list of nodes that `node` of this type refers to."""
+        return []
+
     def _post_process(self, tnode: "TerminalNode") -> None:
         """Post-process the receiver type on behalf of a terminal node.
 
-- 
2.43.0


From 6a757eee7b025ff1ecaf849234646bae466b154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 044/108] fix: dummy nodes in when conditions have neither
 value nor children

---
 yangson/instance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index ae2dfa3..a21fe83 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -124,6 +124,8 @@ class InstanceNode:
         sn = self.schema_node
         if isinstance(self.value, StructuredValue):
             return str(self.value)
+        elif self.value == (None,):         # also a dummy node
+            return ""
         else:
             res = sn.type.canonical_string(self.value)
             if res is None:
@@ -666,7 +668,8 @@ class InstanceNode:
                   qname: Union[QualName, bool] = None) -> list["InstanceNode"]:
         """XPath - return the list of receiver's children."""
         sn = self.schema_node
-        if not isinstance(sn, InternalNode):
+        if not (isinstance(sn, InternalNode) and
+                isinstance(self.value, ObjectValue)):
             return []
         if qname:
             cn = sn.get_data_child(*qname)
-- 
2.43.0


From 78535b229acfacac7597aca59a350b4c95cbf292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 045/108] fix: require-instance true overrides false of the
 parent type

---
 yangson/datatype.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 2d8b562..71f4b43 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -635,8 +635,9 @@ class LinkType(DataType[S, RS]):
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
-        if stmt.find1("require-instance", "false"):
-            self.require_instance = False
+        ri = stmt.find1("require-instance")
+        if ri:
+            self.require_instance = ri.argument == "true"
 
 
 class LeafrefType(LinkType[ScalarValue, RawScalar]):
-- 
2.43.0


From e91bf483eaab0492f39c2bd423f125bcfff0103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 046/108] fix: keys, entries and values 1 and true are
 different

---
 yangson/instance.py  | 27 ++++++++++++++++++---------
 yangson/instvalue.py | 14 ++++++++++++++
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index a21fe83..6a460ff 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -45,7 +45,7 @@ from .exceptions import (BadSchemaNodeType, EndOfInput, InstanceException,
                          YangTypeError)
 from .instroute import InstanceRoute
 from .instvalue import (ArrayValue, InstanceKey, ObjectValue, Value,
-                        ScalarValue, StructuredValue)
+                        ScalarValue, StructuredValue, same_value)
 from .parser import Parser
 from .typealiases import (InstanceName, JSONPointer, QualName, RawScalar,
                           RawValue, SchemaRoute, YangIdentifier)
@@ -260,7 +260,7 @@ class InstanceNode:
             flag = True
             for k in keys:
                 try:
-                    if en[k] != keys[k]:
+                    if not same_value(en[k], keys[k]):
                         flag = False
                         break
                 except KeyError:
@@ -329,8 +329,8 @@ class InstanceNode:
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
         inst = self._copy(self.value.copy())
         if isinstance(self.schema_node, LeafListNode):
-            inst.value += [
-                en for en in value if en in set(value) - set(self.value)]
+            old = set((type(en), en) for en in self.value)
+            inst.value += [en for en in value if (type(en), en) not in old]
             return inst
         keys = self.schema_node._key_members
         if not keys:
@@ -338,9 +338,10 @@ class InstanceNode:
             return inst
         mki = {}
         for i in range(len(value)):
-            mki[tuple([value[i][k] for k in keys])] = i
+            mki[tuple([(type(value[i][k]), value[i][k]) for k in keys])] = i
         for i in range(len(self.value)):
-            kval = tuple([self.value[i][k] for k in keys])
+            kval = tuple([(type(self.value[i][k]), self.value[i][k])
+                          for k in keys])
             if kval in mki:
                 inst = inst[i].merge(value[mki[kval]]).up()
                 del mki[kval]
@@ -1196,13 +1197,21 @@ class EntryValue:
             raise InvalidKeyValue(self.value)
         return res
 
+    def _index(self, val: ArrayValue, sn: "DataNode") -> int:
+        """Return the position of the receiver's value in an array."""
+        res = self.parse_value(sn)
+        for i in range(len(val)):
+            if same_value(val[i], res):
+                return i
+        raise ValueError(self.value)
+
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Value, "DataNode"]:
         if not (isinstance(val, ArrayValue) and
                 isinstance(sn, LeafListNode)):
             return None, sn
         try:
-            return (val[val.index(self.parse_value(sn))], sn)
+            return (val[self._index(val, sn)], sn)
         except ValueError:
             return None, sn
 
@@ -1212,7 +1221,7 @@ class EntryValue:
             raise InstanceValueError(inst, "entry of non-leaf-list")
         try:
             return inst._entry(
-                inst.value.index(self.parse_value(inst.schema_node)))
+                self._index(inst.value, inst.schema_node))
         except ValueError:
             raise NonexistentInstance(
                 inst, f"entry '{self.value!s}'") from None
@@ -1280,7 +1289,7 @@ class EntryKeys:
             flag = True
             try:
                 for k in keys:
-                    if en[k] != keys[k]:
+                    if not same_value(en[k], keys[k]):
                         flag = False
                         break
             except KeyError:
diff --git a/yangson/instvalue.py b/yangson/instvalue.py
index 1c573c7..da41a95 100644
--- a/yangson/instvalue.py
+++ b/yangson/instvalue.py
@@ -41,6 +41,11 @@ MetadataObject = dict[PrefName, ScalarValue]
 """Metadata object [RFC 7952]_."""
 
 
+def same_value(left: Value, right: Value) -> bool:
+    """Compare two values, an integer is different from a boolean value."""
+    return left == right and isinstance(left, bool) == isinstance(right, bool)
+
+
 class StructuredValue:
     """Abstract class for array and object values."""
 
@@ -85,6 +90,10 @@ class ArrayValue(StructuredValue, list):
         StructuredValue.__init__(self, ts)
         list.__init__(self, val)
 
+    def __eq__(self, val: StructuredValue) -> bool:
+        """Extend the superclass method."""
+        return super().__eq__(val) and all(map(same_value, self, val))
+
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
         return tuple([x.__hash__() for x in self]).__hash__()
@@ -98,6 +107,11 @@ class ObjectValue(StructuredValue, dict):
         StructuredValue.__init__(self, ts)
         dict.__init__(self, val)
 
+    def __eq__(self, val: StructuredValue) -> bool:
+        """Extend the superclass method."""
+        return super().__eq__(val) and all(
+            same_value(self[k], val[k]) for k in self)
+
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
         sks = sorted(k for k in self if k[0] != "@")
-- 
2.43.0


From 50d0e69850204724c83775ffb5be55c3425ff31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 047/108] fix: metadata in raw data are objects, keep their raw
 values and places of errors

---
 yangson/instance.py   | 36 ++++++++++++++++++++++++++----------
 yangson/schemanode.py | 24 ++++++++++++++++--------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 6a460ff..671e154 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -44,11 +44,13 @@ from .exceptions import (BadSchemaNodeType, EndOfInput, InstanceException,
                          NonDataNode, NonexistentSchemaNode, UnexpectedInput,
                          YangTypeError)
 from .instroute import InstanceRoute
-from .instvalue import (ArrayValue, InstanceKey, ObjectValue, Value,
-                        ScalarValue, StructuredValue, same_value)
+from .instvalue import (ArrayValue, InstanceKey, MetadataObject,
+                        ObjectValue, ScalarValue, StructuredValue, Value,
+                        same_value)
 from .parser import Parser
-from .typealiases import (InstanceName, JSONPointer, QualName, RawScalar,
-                          RawValue, SchemaRoute, YangIdentifier)
+from .typealiases import (InstanceName, JSONPointer, QualName,
+                          RawMetadataObject, RawScalar, RawValue,
+                          SchemaRoute, YangIdentifier)
 if TYPE_CHECKING:
     from .schemadata import SchemaData
 
@@ -479,6 +481,16 @@ class InstanceNode:
                 attr[m[1:]] = self.value[m]
         return attr
 
+    def _raw_metadata(self, metadata: MetadataObject) -> RawMetadataObject:
+        """Return raw form of metadata attached to the receiver or its member.
+        """
+        res = {}
+        for name in metadata:
+            an = self.schema_node._annotation(name)
+            val = metadata[name]
+            res[name] = an.type.to_raw(val) if an else val
+        return res
+
     def raw_value(self, filter: OutputFilter = OutputFilter()) -> RawValue:
         """Return receiver's value in a raw form (ready for JSON encoding)."""
         if isinstance(self.schema_node, AnyContentNode):
@@ -497,11 +509,15 @@ class InstanceNode:
                     if add1 and add2:
                         value[m] = member_value
 
-                        if m_attr:
-                            if isinstance(value[m], dict):
-                                value[m]['@'] = attr[m]
-                            else:
-                                value['@'+m] = attr[m]
+                        if not m_attr:
+                            continue
+                        if isinstance(member.schema_node, AnyContentNode):
+                            if '@'+m in self.value:
+                                value['@'+m] = self._raw_metadata(m_attr)
+                        elif isinstance(value[m], dict):
+                            value[m]['@'] = member._raw_metadata(m_attr)
+                        else:
+                            value['@'+m] = self._raw_metadata(m_attr)
 
             return value
         if isinstance(self.value, ArrayValue):
@@ -518,7 +534,7 @@ class InstanceNode:
                 if (add1 and add2 and member_value is not None
                         and (member_value != {} or not en.value)):
                     if e_attr:
-                        member_value['@'] = e_attr
+                        member_value['@'] = en._raw_metadata(e_attr)
                     value.append(member_value)
             return value
         return self.schema_node.type.to_raw(self.value)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index a1b776a..bb1c021 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -264,6 +264,10 @@ class SchemaNode:
         p, s, loc = iname.partition(":")
         return (loc, p) if s else (p, self.ns)
 
+    def _annotation(self, name: InstanceName) -> Optional[Annotation]:
+        """Return definition of the annotation `name` of the receiver."""
+        return self.schema_root().annotations.get(self._iname2qname(name))
+
     def _flatten(self) -> list["SchemaNode"]:
         return [self]
 
@@ -539,12 +543,13 @@ class InternalNode(SchemaNode):
         res = ObjectValue()
         for qn in rval:
             if qn.startswith("@"):
+                apath = jptr
                 if qn != "@":
                     tgt = qn[1:]
                     if tgt not in rval:
                         raise MissingAnnotationTarget(jptr, tgt)
-                    jptr += '/' + tgt
-                res[qn] = self._process_metadata(rval[qn], jptr)
+                    apath += '/' + tgt
+                res[qn] = self._process_metadata(rval[qn], apath)
             else:
                 cn = self._iname2qname(qn)
                 ch = self.get_data_child(*cn)
@@ -609,14 +614,17 @@ class InternalNode(SchemaNode):
 
     def _process_metadata(self, rmo: RawMetadataObject,
                           jptr: JSONPointer) -> MetadataObject:
+        if not isinstance(rmo, dict):
+            raise RawTypeError(jptr, "metadata object")
         res = {}
-        ans = self.schema_root().annotations
         for mem in rmo:
-            try:
-                an = ans[self._iname2qname(mem)]
-            except KeyError:
+            an = self._annotation(mem)
+            if an is None:
                 raise UndefinedAnnotation(jptr, mem)
             res[mem] = an.type.from_raw(rmo[mem])
+            if res[mem] is None:
+                raise AnnotationTypeError(
+                    jptr, mem, f"expected {an.type.yang_type()} value")
             if res[mem] not in an.type:
                 raise AnnotationTypeError(jptr, mem, an.type.error_message)
         return res
@@ -1261,7 +1269,7 @@ class SequenceNode(DataNode):
         res = ArrayValue()
         idx = 0
         for i in range(len(rval)):
-            if isinstance(self, ListNode):
+            if isinstance(self, ListNode) and self.keys:
                 try:
                     keys = [str(rval[i].get(k[0], '<missing>'))
                             for k in self.keys]
@@ -1282,7 +1290,7 @@ class SequenceNode(DataNode):
             return self._process_xmlarray_child(res, rval, None, jptr)
         else:
             for xmlchild in rval:
-                if isinstance(self, ListNode):
+                if isinstance(self, ListNode) and self.keys:
                     keys = [str(xmlchild.findtext(
                         k[0], default='<missing>')) for k in self.keys]
                     element = "=" + ",".join(keys)
-- 
2.43.0


From 82c0563e3342ee412a65d29504ea5be5d778f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 048/108] fix: unescape arguments with any number of escapes

---
 yangson/statement.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index c4872e4..27b0676 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -180,13 +180,20 @@ class ModuleParser(Parser):
         Args:
             text: Text to unescape.
         """
-        chop = text.split("\\", 1)
+        chop = text.split("\\")
+        res = [chop[0]]
+        i = 1
         try:
-            return (chop[0] if len(chop) == 1
-                    else chop[0] + cls.unescape_map[chop[1][0]] +
-                    cls.unescape(chop[1][1:]))
-        except KeyError:
+            while i < len(chop):
+                if chop[i]:
+                    res.append(cls.unescape_map[chop[i][0]] + chop[i][1:])
+                    i += 1
+                else:    # escaped backslash
+                    res.append("\\" + chop[i + 1])
+                    i += 2
+        except (IndexError, KeyError):
             raise InvalidArgument(text) from None
+        return "".join(res)
 
     def opt_separator(self) -> bool:
         """Parse an optional separator and return ``True`` if found.
-- 
2.43.0


From f72ae0385d5cf7ff08881208f0ef7d63bf06c571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 049/108] fix: slash at the end of an unquoted argument

---
 yangson/statement.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 27b0676..1e99770 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -173,6 +173,10 @@ class ModuleParser(Parser):
         self.offset -= 1
         return -1
 
+    def _back_start(self) -> int:
+        self.offset -= 1
+        return 0
+
     @classmethod
     def unescape(cls, text: str) -> str:
         """Replace escape sequence with corresponding characters.
@@ -374,7 +378,7 @@ class ModuleParser(Parser):
                 '/': lambda: 1
             },
             {  # state 1: comment?
-                "": lambda: 0,
+                "": self._back_start,
                 "/": self._back_break,
                 "*": self._back_break
             }])
-- 
2.43.0


From 68d05de47ddc40edcf222828caf590460cedc71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 050/108] fix: trim indentation and trailing space in
 double-quoted strings

---
 yangson/statement.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 1e99770..703162a 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -344,6 +344,7 @@ class ModuleParser(Parser):
             self._escape = True
             return 1
         self._escape = False                 # any escaped chars?
+        column = self._column()
         self.offset += 1
         start = self.offset
         self.dfa([
@@ -355,10 +356,36 @@ class ModuleParser(Parser):
             {  # state 1: after escape
                 "": lambda: 0
             }])
-        self._arg += (self.unescape(self.input[start:self.offset])
-                      if self._escape else self.input[start:self.offset])
+        arg = self._trim_lines(self.input[start:self.offset], column)
+        self._arg += self.unescape(arg) if self._escape else arg
         self.offset += 1
 
+    def _column(self) -> int:
+        """Return width of the text before the current position in its line."""
+        start = self.input.rfind("\n", 0, self.offset) + 1
+        return sum(8 if c == "\t" else 1
+                   for c in self.input[start:self.offset])
+
+    @staticmethod
+    def _trim_lines(text: str, column: int) -> str:
+        """Remove indentation and trailing white space around line breaks.
+
+        Args:
+            text: Text of a double-quoted string.
+            column: Column of the starting double quote character.
+        """
+        lines = text.split("\n")
+        for i in range(len(lines)):
+            if i < len(lines) - 1:
+                eol = "\r" if lines[i].endswith("\r") else ""
+                lines[i] = lines[i].removesuffix("\r").rstrip(" \t") + eol
+            if i > 0:
+                rest = lines[i].lstrip(" \t")
+                indent = sum(8 if c == "\t" else 1
+                             for c in lines[i][:len(lines[i]) - len(rest)])
+                lines[i] = " " * (indent - column - 1) + rest
+        return "\n".join(lines)
+
     def unq_argument(self) -> str:
         """Parse unquoted argument.
 
-- 
2.43.0


From 82ddbe29700214a369657705df2daff030b84cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 051/108] fix: XML elements without namespace and places of
 errors in XML lists

---
 yangson/schemanode.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index bb1c021..a2cc23b 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -590,6 +590,8 @@ class InternalNode(SchemaNode):
         else:
             name = xmlchild.tag
             ns = self.ns
+            if ns is None:
+                raise RawMemberError(jptr + "/" + name)
             fqn = ns + ':' + name
         qn = fqn if ns != self.ns else name
 
@@ -1292,13 +1294,14 @@ class SequenceNode(DataNode):
             for xmlchild in rval:
                 if isinstance(self, ListNode) and self.keys:
                     keys = [str(xmlchild.findtext(
-                        k[0], default='<missing>')) for k in self.keys]
+                        "{*}" + k[0], default='<missing>'))
+                            for k in self.keys]
                     element = "=" + ",".join(keys)
                 else:
                     element = "/" + str(idx)
-                self._process_xmlarray_child(
-                    res, xmlchild, tagname, jptr + element)
-                idx = idx + 1
+                if self._process_xmlarray_child(
+                        res, xmlchild, tagname, jptr + element) is not None:
+                    idx = idx + 1
         return res
 
     def _process_xmlarray_child(
@@ -1310,12 +1313,12 @@ class SequenceNode(DataNode):
             if not module:
                 raise MissingModuleNamespace(xmlns)
             ns = module.yang_id[0]
-            qn = ns + ':' + name
         else:
-            name = qn = xmlchild.tag
+            name = xmlchild.tag
             ns = self.ns
+        qn = ns + ':' + name
         if tagname is None or qn == tagname:
-            child = self.entry_from_xml(xmlchild, jptr + "/" + str(len(res)))
+            child = self.entry_from_xml(xmlchild, jptr)
             res.append(child)
         else:
             child = None
-- 
2.43.0


From 9e86cb95800746fefcfd1fab45f78594d4da65fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 052/108] fix: refuse XML elements with wrong content or more
 instances of a node

---
 yangson/schemanode.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index a2cc23b..707d399 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -573,6 +573,9 @@ class InternalNode(SchemaNode):
         if isinstance(self, RpcActionNode) and jptr == "":
             self._process_xmlobj_child(res, None, rval, jptr)
         else:
+            if any(t and not t.isspace()
+                   for t in [rval.text] + [c.tail for c in rval]):
+                raise RawTypeError(jptr, "object")
             for xmlchild in rval:
                 self._process_xmlobj_child(res, rval, xmlchild, jptr)
         return res
@@ -611,6 +614,8 @@ class InternalNode(SchemaNode):
         if isinstance(ch, SequenceNode):
             if iname not in res:
                 res[iname] = ch.from_xml(rval, npath, fqn)
+        elif iname in res:
+            raise RawTypeError(npath, "single instance")
         else:
             res[iname] = ch.from_xml(xmlchild, npath)
 
@@ -1063,7 +1068,7 @@ class TerminalNode(SchemaNode):
         return res
 
     def from_xml(self, rval: ET.Element, jptr: JSONPointer = "") -> Value:
-        res = self.type.from_xml(rval)
+        res = self.type.from_xml(rval) if len(rval) == 0 else None
         if res is None:
             raise RawTypeError(jptr, self.type.yang_type() + " value")
         return res
-- 
2.43.0


From 6e83808497981f6d1ed07397936467bf8b28fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 053/108] fix: namespace of identityref values in XML follows
 the declarations in scope

---
 yangson/datatype.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 71f4b43..e0a67ad 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -788,21 +788,16 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         except AttributeError:
             return None
 
-        if not s:
-            # not prefixed, so assume default ns
-            return (i1, self.sctx.default_ns)
-        elif i1 == self.sctx.default_ns:
-            # prefixed with default ns
-            return (i2, self.sctx.default_ns)
-
-        # the following code has issues (Issue #79)
-        ns_url = xml.attrib.get('xmlns:'+i1)
+        ns_url = xml.attrib.get('xmlns:' + i1 if s else 'xmlns')
         if not ns_url:
-            return None
+            # namespace not declared, so assume default ns
+            if not s:
+                return (i1, self.sctx.default_ns)
+            return (i2, i1) if i1 == self.sctx.default_ns else None
         module = self.sctx.schema_data.modules_by_ns.get(ns_url)
         if not module:
             return None
-        return (i2, module.main_module[0])
+        return (i2 if s else i1, module.main_module[0])
 
     def to_raw(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
-- 
2.43.0


From 39eb3ee55399bc7a6e7b97110e00d94a94c1dc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:56 +0000
Subject: [PATCH 054/108] fix: declare namespace of identityref values of
 unions and leafrefs in XML

---
 yangson/datatype.py | 16 ++++++++++++++++
 yangson/instance.py | 13 +++++--------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index e0a67ad..28eb449 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -127,6 +127,10 @@ class DataType(ABC, Generic[S, RS]):
         """Return XML text value ready to be serialized in XML."""
         return str(val) if val in self else None
 
+    def _xml_module(self, val: S) -> Optional[YangIdentifier]:
+        """Return module whose name is used as a prefix in XML text, if any."""
+        return None
+
     @abstractmethod
     def parse_value(self, text: str) -> Optional[S]:
         """Parse value of the receiver's type.
@@ -673,6 +677,9 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def to_xml(self, val: ScalarValue) -> Optional[str]:
         return self.ref_type.to_xml(val)
 
+    def _xml_module(self, val: ScalarValue) -> Optional[YangIdentifier]:
+        return self.ref_type._xml_module(val)
+
     def parse_value(self, text: str) -> Optional[ScalarValue]:
         return self.ref_type.parse_value(text)
 
@@ -805,6 +812,9 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def to_xml(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
 
+    def _xml_module(self, val: QualName) -> Optional[YangIdentifier]:
+        return val[1]
+
     def from_yang(self, text: YangIdentifier,
                   sctx: Optional[SchemaContext] = None) -> QualName:
         """Override the superclass method."""
@@ -1140,6 +1150,12 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                 return t.to_xml(val)
         return None
 
+    def _xml_module(self, val: ScalarValue) -> Optional[YangIdentifier]:
+        for t in self.types:
+            if val in t:
+                return t._xml_module(val)
+        return None
+
     def canonical_string(self, val: ScalarValue) -> Optional[str]:
         for t in self.types:
             if val in t:
diff --git a/yangson/instance.py b/yangson/instance.py
index 671e154..c00fab4 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -616,13 +616,12 @@ class InstanceNode:
         else:
             sn = self.schema_node
             if isinstance(sn, TerminalNode):
-                if isinstance(sn.type, IdentityrefType):
-                    module = self.schema_data.modules_by_name.get(
-                        self.value[1])
+                mname = sn.type._xml_module(self.value)
+                if mname is not None:
+                    module = self.schema_data.modules_by_name.get(mname)
                     if not module:
-                        raise MissingModuleNamespace(sn.ns)
-                    element.attrib[
-                        'xmlns:'+self.value[1]] = module.xml_namespace
+                        raise MissingModuleNamespace(mname)
+                    element.attrib['xmlns:' + mname] = module.xml_namespace
                 element.text = sn.type.to_xml(self.value)
 
         if elem is not None:
@@ -1456,5 +1455,3 @@ from .schemanode import (       # NOQA
             InternalNode, LeafNode, LeafListNode, ListNode, NotificationNode,
             OutputNode, RpcActionNode, SequenceNode, SchemaTreeNode,
             TerminalNode)
-from .datatype import (         # NOQA
-            IdentityrefType)
-- 
2.43.0


From 56a3a36c7471e9e7ba64b4b40f720b2c55235419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 055/108] fix: XML encoding of notifications

---
 yangson/instance.py   | 7 ++++++-
 yangson/schemanode.py | 6 +++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index c00fab4..122d77f 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -783,10 +783,15 @@ class RootNode(InstanceNode):
             tag: str = "content-data",
             urn: str = "urn:ietf:params:xml:ns:yang:ietf-yang-instance-data"):
         """put receiver's value into a XML element"""
+        if isinstance(self.schema_node, NotificationNode):
+            module = self.schema_data.modules_by_name.get(self.schema_node.ns)
+            if not module:
+                raise MissingModuleNamespace(self.schema_node.ns)
+            tag, urn = self.schema_node.name, module.xml_namespace
         element = ET.Element(tag)
         element.attrib['xmlns'] = urn
         et = super().to_xml(filter, element)
-        if isinstance(self.schema_node, (RpcActionNode, NotificationNode)):
+        if isinstance(self.schema_node, RpcActionNode):
             return et[0]
         return et
 
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 707d399..eb7ecb0 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -607,10 +607,10 @@ class InternalNode(SchemaNode):
         if ch is None:
             raise RawMemberError(npath)
 
-        if rval is not None and self.ns == ch.ns:
-            iname = ch.name
-        else:
+        if jptr == "" or self.ns != ch.ns:
             iname = '{1}:{0}'.format(*ch.qual_name)
+        else:
+            iname = ch.name
         if isinstance(ch, SequenceNode):
             if iname not in res:
                 res[iname] = ch.from_xml(rval, npath, fqn)
-- 
2.43.0


From 079564dc0e3504918ceae7c9048b311e29890014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 056/108] fix: negation in if-feature expressions

---
 yangson/schemadata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 6b1c284..74368ec 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -565,10 +565,11 @@ class FeatureExprParser(Parser):
         return x
 
     def _feature_term(self) -> bool:
+        start = self.offset
         if self.test_string("not"):
-            if not self.skip_ws():
-                raise InvalidFeatureExpression(self)
-            return not self._feature_atom()
+            if self.skip_ws():
+                return not self._feature_term()
+            self.offset = start    # beginning of a feature name
         return self._feature_atom()
 
     def _feature_atom(self) -> bool:
-- 
2.43.0


From 7b7960b74186c7cc41346dde44da35a0bf69a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 057/108] fix: report undeclared prefix of an extension
 statement

---
 yangson/schemanode.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index eb7ecb0..92c6b7f 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -276,9 +276,8 @@ class SchemaNode:
         """Dispatch actions for substatements of `stmt`."""
         for s in stmt.substatements:
             if s.prefix:
-                key = (sctx.schema_data.modules[
-                    sctx.text_mid].prefix_map[s.prefix][0]
-                    + ":" + s.keyword)
+                key = (sctx.schema_data.prefix2ns(s.prefix, sctx.text_mid)
+                       + ":" + s.keyword)
             else:
                 key = s.keyword
             mname = SchemaNode._stmt_callback.get(key, "_noop")
-- 
2.43.0


From 89a3f51ca6f6a122efa200fe670be88c58f9f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 058/108] fix: augments of nodes added by later augments

---
 yangson/datamodel.py  |  5 +++--
 yangson/schemanode.py | 29 ++++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index b5a86d9..867e0e4 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -231,12 +231,13 @@ class DataModel:
                 self.schema_data, self.schema_data.namespace(mid), mid)
             self.schema._handle_substatements(
                 self.schema_data.modules[mid].statement, sctx)
+        augments = []
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
             mod = self.schema_data.modules[mid].statement
-            for aug in mod.find_all("augment"):
-                self.schema._augment_stmt(aug, sctx)
+            augments.extend((aug, sctx) for aug in mod.find_all("augment"))
+        self.schema._augment_all(augments)
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 92c6b7f..b4d450a 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -740,20 +740,35 @@ class InternalNode(SchemaNode):
         self._add_child(node)
         node._handle_substatements(stmt, sctx)
 
+    def _augment_all(self, augments: list[
+            tuple[Statement, SchemaContext]]) -> None:
+        """Handle **augment** statements that may depend on each other."""
+        while augments:
+            rest = [(stmt, sctx) for stmt, sctx in augments
+                    if not self._augment_stmt(stmt, sctx)]
+            if len(rest) == len(augments):
+                return      # silently ignore missing targets
+            augments = rest
+
     def _augment_stmt(self, stmt: Statement,
-                      sctx: SchemaContext) -> None:
-        """Handle **augment** statement."""
+                      sctx: SchemaContext) -> bool:
+        """Handle **augment** statement.
+
+        Returns:
+            ``False`` if the target node doesn't exist (yet).
+        """
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
-            return
+            return True
         target = self.get_schema_descendant(
             sctx.schema_data.sni2route(stmt.argument, sctx))
-        if target is None:      # silently ignore missing target
-            return
+        if target is None:
+            return False
         if stmt.find1("when"):
             gr = GroupNode()
             target._add_child(gr)
             target = gr
         target._handle_substatements(stmt, sctx)
+        return True
 
     def _deviation_stmt(self, stmt: Statement,
                         sctx: SchemaContext) -> None:
@@ -793,8 +808,8 @@ class InternalNode(SchemaNode):
         else:
             sn = self
         sn._handle_substatements(grp, gid)
-        for augst in stmt.find_all("augment"):
-            sn._augment_stmt(augst, sctx)
+        sn._augment_all(
+            [(augst, sctx) for augst in stmt.find_all("augment")])
         for refst in stmt.find_all("refine"):
             sn._refine_stmt(refst, sctx)
 
-- 
2.43.0


From 2ee047aa6f65fb9f7aacfb681cac0227480979d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 059/108] fix: config true in refine and deviate

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index b4d450a..af95ba5 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -317,6 +317,8 @@ class SchemaNode:
     def _config_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if stmt.argument == "false":
             self._ctype = ContentType.nonconfig
+        elif stmt.argument == "true":
+            self._ctype = None
 
     def _status_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if stmt.argument == "deprecated":
-- 
2.43.0


From f2a914b821032e5ca305871222390dda7ba31390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 060/108] fix: refined default of a leaf-list replaces the
 original one

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index af95ba5..6ad0c00 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -791,6 +791,8 @@ class InternalNode(SchemaNode):
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
             target.parent.children.remove(target)
         else:
+            if isinstance(target, LeafListNode) and stmt.find1("default"):
+                target._default = None
             target._handle_substatements(stmt, sctx)
 
     def _uses_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From e90af28015c0955134b9cd4d702d03100a340999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 061/108] fix: deviate replace with several defaults of a
 leaf-list

---
 yangson/schemanode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 6ad0c00..40bd00e 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1672,11 +1672,15 @@ class LeafListNode(SequenceNode, TerminalNode):
             self._default = []
         self._default.append((stmt.argument, sctx))
 
+    def _apply_deviate(self, stmt: Statement, sctx: SchemaContext) -> None:
+        """Extend the superclass method."""
+        if stmt.argument == "replace" and stmt.find1("default"):
+            self._default = None
+        super()._apply_deviate(stmt, sctx)
+
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
         if action in ("add", "replace"):
-            if action == "replace":
-                self._default = []
             self._default_stmt(stmt, sctx)
         elif action == "delete":
             for i in range(len(self._default or [])):
-- 
2.43.0


From 88153b9a86116d457ea490173bee9787eca1cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 062/108] fix: deviate delete of unique and must

---
 yangson/schemanode.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 40bd00e..92fb90c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -356,9 +356,9 @@ class SchemaNode:
                 self.must = []
             self._must_stmt(stmt, sctx)
         elif action == "delete":
-            mstr = str(XPathParser(stmt.argument, sctx).parse())
+            mtree = XPathParser(stmt.argument, sctx).parse().syntax_tree()
             for i in range(len(self.must)):
-                if str(self.must[i].expression) == mstr:
+                if self.must[i].expression.syntax_tree() == mtree:
                     del self.must[i]
                     return
 
@@ -1471,9 +1471,9 @@ class ListNode(SequenceNode, InternalNode):
                 self.unique = []
             self._unique_stmt(stmt, sctx)
         elif action == "delete":
-            uniq = self._parse_unique(stmt, sctx)
+            uniq = [u.syntax_tree() for u in self._parse_unique(stmt, sctx)]
             for i in range(len(self.unique)):
-                if self.unique[i] == uniq:
+                if [u.syntax_tree() for u in self.unique[i]] == uniq:
                     del self.unique[i]
                     return
 
-- 
2.43.0


From 2aed48761c1b58a41b343e280dea377cea227899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 063/108] fix: no case for a shorthand case with unsupported
 feature

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 92fb90c..08b3dcd 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -911,7 +911,7 @@ class GroupNode(InternalNode):
         if not isinstance(
                 self.parent, ChoiceNode) or isinstance(node, CaseNode):
             super()._handle_child(node, stmt, sctx)
-        else:
+        elif sctx.schema_data.if_features(stmt, sctx.text_mid):
             cn = CaseNode()
             cn.name = stmt.argument
             cn.ns = sctx.default_ns
@@ -1563,7 +1563,7 @@ class ChoiceNode(InternalNode):
                       sctx: SchemaContext) -> None:
         if isinstance(node, CaseNode):
             super()._handle_child(node, stmt, sctx)
-        else:
+        elif sctx.schema_data.if_features(stmt, sctx.text_mid):
             cn = CaseNode()
             cn.name = stmt.argument
             cn.ns = sctx.default_ns
-- 
2.43.0


From e184fa35087b105f7dc298b9b2c57bb625448503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 064/108] fix: unprefixed names in deviations belong to the
 namespace of the target

---
 yangson/schemanode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 08b3dcd..b103fd3 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -779,8 +779,9 @@ class InternalNode(SchemaNode):
             sctx.schema_data.sni2route(stmt.argument, sctx))
         if target is None:      # silently ignore missing target
             return
+        dsctx = SchemaContext(sctx.schema_data, target.ns, sctx.text_mid)
         for dstmt in stmt.find_all("deviate"):
-            target._apply_deviate(dstmt, sctx)
+            target._apply_deviate(dstmt, dsctx)
 
     def _refine_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         """Handle **refine** statement."""
-- 
2.43.0


From 52a7d670eecae041d1d3d7c7fb2659454aac8d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 065/108] fix: refine description

---
 yangson/schemanode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index b103fd3..ab5d8d2 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -792,6 +792,7 @@ class InternalNode(SchemaNode):
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
             target.parent.children.remove(target)
         else:
+            target._get_description(stmt)
             if isinstance(target, LeafListNode) and stmt.find1("default"):
                 target._default = None
             target._handle_substatements(stmt, sctx)
-- 
2.43.0


From 84e77742bbdceb6bff3a5d1af4ca28584c14b710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 066/108] fix: from_xml with a subschema that is not an RPC or
 notification

---
 yangson/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index 867e0e4..1c4f2fc 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -149,6 +149,9 @@ class DataModel:
                 raise NonexistentSchemaNode(self.schema.qual_name, loc, p)
             if isinstance(subsn, SchemaTreeNode):
                 schema = subsn
+            else:
+                raise BadSchemaNodeType(subsn.qual_name,
+                                        "notification or rpc")
         else:
             schema = self.schema
         cooked = cast(ObjectValue, schema.from_xml(root))
-- 
2.43.0


From 865901785506e1b918150e64c2f2344ec447a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 067/108] fix: nodes of operations and notifications are not
 data children of their parent

---
 yangson/schemanode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index ab5d8d2..166168c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -507,8 +507,9 @@ class InternalNode(SchemaNode):
             if child.name == name and child.ns == ns:
                 if isinstance(child, DataNode):
                     return child
-                todo.insert(0, child)
-            elif not isinstance(child, DataNode):
+                if not isinstance(child, SchemaTreeNode):
+                    todo.insert(0, child)
+            elif not isinstance(child, (DataNode, SchemaTreeNode)):
                 todo.append(child)
         for c in todo:
             res = c.get_data_child(name, ns)
-- 
2.43.0


From f3a2e472bc9a5645447e188005e3cd822c91ec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 068/108] fix: evaluate must expressions of notifications

---
 yangson/schemanode.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 166168c..7a71f7c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -362,6 +362,11 @@ class SchemaNode:
                     del self.must[i]
                     return
 
+    def _check_must(self, inst: InstanceNode) -> None:
+        for m in self.must:
+            if not m.expression.holds(inst):
+                raise SemanticError(inst, m.error_tag, m.error_message)
+
     def _when_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         xpp = XPathParser(stmt.argument, sctx)
         wex = xpp.parse()
@@ -1042,11 +1047,6 @@ class DataNode(SchemaNode):
                 return wd.up()
         return pnode
 
-    def _check_must(self, inst: InstanceNode) -> None:
-        for m in self.must:
-            if not m.expression.holds(inst):
-                raise SemanticError(inst, m.error_tag, m.error_message)
-
     def _pattern_entry(self) -> SchemaPattern:
         m = Member(self.iname(), self.content_type(), self.when)
         return m if (self.mandatory and self._status !=
@@ -1866,6 +1866,13 @@ class NotificationNode(SchemaTreeNode):
         self.default_deny: DefaultDeny = DefaultDeny.none
         self._ctype = ContentType.nonconfig
 
+    def _validate(self, inst: InstanceNode,
+                  scope: ValidationScope, ctype: ContentType) -> None:
+        """Extend the superclass method."""
+        if scope.value & ValidationScope.semantics.value:
+            self._check_must(inst)
+        super()._validate(inst, scope, ctype)
+
     def _flatten(self) -> list[SchemaNode]:
         return [self]
 
-- 
2.43.0


From ff55c7f43e8e1570de8b6c7fab8c7a80085e7fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 069/108] fix: names of members of notifications in data nodes

---
 yangson/schemanode.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 7a71f7c..81df29c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -147,7 +147,7 @@ class SchemaNode:
     def data_parent(self) -> Optional["InternalNode"]:
         """Return the closest ancestor data node."""
         parent = self.parent
-        while parent:
+        while parent and not isinstance(parent, NotificationNode):
             if isinstance(parent, DataNode):
                 return parent
             parent = parent.parent
@@ -299,9 +299,12 @@ class SchemaNode:
             return lft._follow_leafref(xpath.right, init)
         elif isinstance(xpath, Step):
             if xpath.axis == Axis.parent:
-                if isinstance(self, SchemaTreeNode):
-                    return None
-                return self.data_parent() or self.schema_root()
+                parent = self.parent
+                while parent and (isinstance(parent, RpcActionNode) or
+                                  not isinstance(
+                                      parent, (DataNode, SchemaTreeNode))):
+                    parent = parent.parent
+                return parent
             elif xpath.axis == Axis.child:
                 if isinstance(self, InternalNode) and xpath.qname:
                     qname = (xpath.qname if xpath.qname[1]
-- 
2.43.0


From 965653662273c1b83adc2f33e02a445492274963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 070/108] fix: defaults of operations

---
 yangson/schemanode.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 81df29c..15dd3f1 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1833,6 +1833,10 @@ class InputNode(InternalNode, DataNode):
         """Override the superclass method."""
         return self.ns + ":" + self.name
 
+    def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
+                          lazy: bool = False) -> InstanceNode:
+        return pnode
+
     def _flatten(self) -> list[SchemaNode]:
         return [self]
 
@@ -1856,6 +1860,10 @@ class OutputNode(InternalNode, DataNode):
         """Override the superclass method."""
         return self.ns + ":" + self.name
 
+    def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
+                          lazy: bool = False) -> InstanceNode:
+        return pnode
+
     def _flatten(self) -> list[SchemaNode]:
         return [self]
 
-- 
2.43.0


From 83f8c86f57f85c455d19186a21737d2addca60ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 071/108] fix: update of operation and notification roots with
 raw values

---
 yangson/instance.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 122d77f..40bd372 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -300,9 +300,7 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the updated value.
         """
-        newval = self.schema_node.from_raw(
-            value, self.json_pointer()) if raw else value
-        return self._copy(newval, datetime.now())
+        return self._copy(self._cook_value(value, raw), datetime.now())
 
     def merge(self, value: Union[RawValue, Value],
               raw: bool = False) -> "InstanceNode":
@@ -795,6 +793,9 @@ class RootNode(InstanceNode):
             return et[0]
         return et
 
+    def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
+        return self.schema_node.from_raw(value) if raw else value
+
     def _copy(self, newval: Value, newts: datetime = None) -> InstanceNode:
         return RootNode(newval, self.schema_node, self.schema_data,
                         newts if newts else newval.timestamp)
-- 
2.43.0


From bb1e32015fdfa543450f3724c4a346b3f01e24f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 072/108] fix: resource identifiers continuing below a terminal
 node

---
 yangson/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 40bd372..838c2aa 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1355,6 +1355,8 @@ class ResourceIdParser(Parser):
         sn = self.schema_node
         while True:
             name, ns = self.prefixed_name()
+            if not isinstance(sn, InternalNode):
+                raise NonexistentSchemaNode(sn.qual_name, name, ns)
             cn = sn.get_data_child(name, ns)
             if cn is None:
                 for cn in sn.children:
-- 
2.43.0


From 5c8d422487aada98f0a46eb1b0f3b48497dd9491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 073/108] fix: data paths to the root and below terminal nodes

---
 yangson/datamodel.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index 1c4f2fc..1abfe9b 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -186,14 +186,12 @@ class DataModel:
             InvalidSchemaPath: If the schema path is invalid.
         """
         addr = self.schema_data.path2route(path)
-        node: InternalNode = self.schema
+        node: Optional[SchemaNode] = self.schema
         for p in addr:
-            child = node.get_data_child(*p)
-            if child is None:
+            if not isinstance(node, InternalNode):
                 return None
-            if isinstance(child, InternalNode):
-                node = child
-        return child
+            node = node.get_data_child(*p)
+        return node
 
     def ascii_tree(self, no_types: bool = False,
                    val_count: bool = False) -> str:
-- 
2.43.0


From bde98930d7e728baca60747fcecca564c42d22c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 074/108] fix: empty schema node identifiers

---
 yangson/schemadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 74368ec..1438f58 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -387,7 +387,7 @@ class SchemaData:
         """
         nlist = sni.split("/")
         res = []
-        for qn in (nlist[1:] if sni[0] == "/" else nlist):
+        for qn in (nlist[1:] if sni.startswith("/") else nlist):
             res.append(self.translate_node_id(qn, sctx))
         return res
 
-- 
2.43.0


From 6afa1b1eb53c8bdd03ecf8071259cbde46cd25f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 075/108] fix: report YANG library data of a wrong type

---
 yangson/datamodel.py  | 11 +++++++----
 yangson/schemadata.py | 30 ++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index 1abfe9b..e87e5b9 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -87,10 +87,13 @@ class DataModel:
         self.schema = SchemaTreeNode(self.schema_data)
         self.schema._ctype = ContentType.all
         self._build_schema()
-        self.schema.description = description if description else (
-            "Data model ID: " +
-            self.yang_library["ietf-yang-library:modules-state"]
-            ["module-set-id"])
+        try:
+            self.schema.description = description if description else (
+                "Data model ID: " +
+                self.yang_library["ietf-yang-library:modules-state"]
+                ["module-set-id"])
+        except KeyError as e:
+            raise BadYangLibraryData("missing " + str(e)) from None
 
     def module_set_id(self) -> str:
         """Compute unique id of YANG modules comprising the data model.
diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 1438f58..a96f799 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -127,6 +127,7 @@ class SchemaData:
             ModuleNotFound: If a YANG module wasn't found in any of the
                 directories specified in `mod_path`.
         """
+        self._check_yang_library(yang_lib)
         try:
             for item in yang_lib["ietf-yang-library:modules-state"]["module"]:
                 name = item["name"]
@@ -171,6 +172,35 @@ class SchemaData:
         self._process_imports()
         self._check_feature_dependences()
 
+    @staticmethod
+    def _check_yang_library(yang_lib: Any) -> None:
+        """Check the types of YANG library data.
+
+        Args:
+            yang_lib: YANG library data.
+
+        Raises:
+            BadYangLibraryData: If YANG library data is invalid.
+        """
+        def check(obj, **types) -> None:
+            if not isinstance(obj, dict):
+                raise BadYangLibraryData("object expected: " + repr(obj))
+            for mem, typ in types.items():
+                mname = mem.replace("_", "-")
+                if mname in obj and not isinstance(obj[mname], typ):
+                    raise BadYangLibraryData(f"wrong type of '{mname}'")
+
+        check(yang_lib)
+        state = yang_lib.get("ietf-yang-library:modules-state", {})
+        check(state, module_set_id=str, module=list)
+        for item in state.get("module", []):
+            check(item, name=str, revision=str, namespace=str,
+                  conformance_type=str, feature=list, submodule=list)
+            if not all(isinstance(f, str) for f in item.get("feature", [])):
+                raise BadYangLibraryData("wrong type of 'feature'")
+            for sub in item.get("submodule", []):
+                check(sub, name=str, revision=str)
+
     def _load_module(self, name: YangIdentifier,
                      rev: RevisionDate, mdata: ModuleData) -> Statement:
         """Read and parse a YANG module or submodule."""
-- 
2.43.0


From 54c3582d2dd815a7b2bcf8c289ebbc8ba3b18091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 076/108] fix: leafref paths to nodes that have no type

---
 yangson/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 28eb449..c707eee 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -695,7 +695,7 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
 
     def _post_process(self, tnode: "TerminalNode") -> None:
         ref = tnode._follow_leafref(self.path, tnode)
-        if ref is None:
+        if not hasattr(ref, "type"):
             raise InvalidLeafrefPath(tnode.qual_name, str(self.path))
         if getattr(self, "ref_type", None) is not ref.type:
             self.ref_type = ref.type
-- 
2.43.0


From 0259d42dff67c5e3a268a2ff585e6c645635b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 077/108] fix: keys that are not leafs of the list

---
 yangson/schemanode.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 15dd3f1..c2d39b3 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -51,8 +51,9 @@ from .datatype import DataType, LinkType, IdentityrefType
 from .enumerations import (Axis, ContentType, DefaultDeny,
                            NodeStatus, ValidationScope)
 from .exceptions import (
-    AnnotationTypeError, InvalidArgument,
-    MissingAnnotationTarget, MissingModuleNamespace, RawMemberError,
+    AnnotationTypeError, BadSchemaNodeType, InvalidArgument,
+    MissingAnnotationTarget, MissingModuleNamespace, NonexistentSchemaNode,
+    RawMemberError,
     RawTypeError, SchemaError, SemanticError, UndefinedAnnotation,
     YangsonException, YangTypeError)
 from .instance import (ArrayEntry, InstanceNode, MemberName, ObjectMember)
@@ -1445,6 +1446,10 @@ class ListNode(SequenceNode, InternalNode):
         super()._post_process()
         for k in self.keys:
             kn = self.get_data_child(*k)
+            if kn is None:
+                raise NonexistentSchemaNode(self.qual_name, *k)
+            if not isinstance(kn, LeafNode):
+                raise BadSchemaNodeType(kn.qual_name, "leaf")
             self._key_members.append(kn.iname())
             if not kn._mandatory:
                 kn._mandatory = True
-- 
2.43.0


From f542ee2315ca627d659e66614f20b3c086f76082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 078/108] fix: report missing arguments of statements

---
 yangson/statement.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/yangson/statement.py b/yangson/statement.py
index 703162a..0af0937 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -128,6 +128,18 @@ class ModuleParser(Parser):
                                            "\\": "\\"}
     """Dictionary for mapping escape sequences to characters."""
 
+    with_argument: Final[frozenset[str]] = frozenset("""
+        action anydata anyxml argument augment base belongs-to bit case choice
+        config contact container default description deviate deviation enum
+        error-app-tag error-message extension feature fraction-digits grouping
+        identity if-feature import include key leaf leaf-list length list
+        mandatory max-elements min-elements modifier module must namespace
+        notification ordered-by organization path pattern position prefix
+        presence range reference refine require-instance revision
+        revision-date rpc status submodule type typedef unique units uses
+        value when yang-version yin-element""".split())
+    """Built-in statements that have an argument."""
+
     def __init__(self, text: str, name: YangIdentifier = None,
                  rev: str = "") -> None:
         """Initialize the parser instance.
@@ -286,6 +298,8 @@ class ModuleParser(Parser):
             self._arg = ""
             sub = self.argument()
             arg = self._arg
+        if arg is None and pref is None and kw in self.with_argument:
+            raise UnexpectedInput(self, f"argument of '{kw}'")
         self.offset += 1
         res = Statement(kw, arg, pref=pref)
         if sub:
-- 
2.43.0


From d3e6b6d9f9338f1f117c9aca93a95b552e305232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 079/108] fix: report invalid integer arguments

---
 yangson/datatype.py   |  6 +++---
 yangson/schemanode.py |  7 +++----
 yangson/statement.py  | 17 +++++++++++++++++
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index c707eee..789f9a8 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -358,7 +358,7 @@ class BitsType(DataType[tuple[str, ...], str]):
             label = cast(str, bst.argument)
             pst = bst.find1("position")
             if pst:
-                pos = int(cast(str, pst.argument))
+                pos = pst.integer(0, 4294967295)
                 self.bit[label] = pos
             else:
                 pos = nextpos
@@ -601,7 +601,7 @@ class EnumerationType(DataType[str, str]):
             label = cast(str, est.argument)
             vst = est.find1("value")
             if vst:
-                val = int(cast(str, vst.argument))
+                val = vst.integer(-2147483648, 2147483647)
                 self.enum[label] = val
             else:
                 val = nextval
@@ -921,7 +921,7 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
 
     def _handle_properties(self, stmt: Statement, sctx: SchemaContext) -> None:
         fd = cast(Statement, stmt.find1("fraction-digits", required=True))
-        self.fraction_digits = int(cast(str, fd.argument))
+        self.fraction_digits = fd.integer(1, 18)
         self._epsilon = decimal.Decimal(10) ** -self.fraction_digits
         super()._handle_properties(stmt, sctx)
 
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index c2d39b3..20e9a1a 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1261,7 +1261,7 @@ class SequenceNode(DataNode):
 
     def _min_elements_stmt(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
-        self.min_elements = int(stmt.argument)
+        self.min_elements = stmt.integer(0)
 
     def _deviate_min_elements(self, stmt: Statement,
                               sctx: SchemaContext, action: str) -> None:
@@ -1272,11 +1272,10 @@ class SequenceNode(DataNode):
 
     def _max_elements_stmt(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
-        arg = stmt.argument
-        if arg == "unbounded":
+        if stmt.argument == "unbounded":
             self.max_elements = None
         else:
-            self.max_elements = int(arg)
+            self.max_elements = stmt.integer(1)
 
     def _deviate_max_elements(self, stmt: Statement,
                               sctx: SchemaContext, action: str) -> None:
diff --git a/yangson/statement.py b/yangson/statement.py
index 0af0937..11fc6d1 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -22,6 +22,7 @@ This module implements the following classes:
 * ModuleParser: Recursive-descent parser for YANG modules.
 * Statement: YANG statements.
 """
+import re
 from typing import Final, Optional
 from .exceptions import (
     EndOfInput, StatementNotFound, UnexpectedInput, InvalidArgument,
@@ -113,6 +114,22 @@ class Statement:
             stmt = stmt.superstmt
         return None
 
+    def integer(self, low: int, high: int = None) -> int:
+        """Return the argument as an integer.
+
+        Args:
+            low: Lower bound.
+            high: Upper bound (unlimited if ``None``).
+
+        Raises:
+            InvalidArgument: If the argument isn't an integer in the range.
+        """
+        if re.fullmatch("-?[0-9]+", self.argument):
+            res = int(self.argument)
+            if low <= res and (high is None or res <= high):
+                return res
+        raise InvalidArgument(self.argument)
+
     def get_error_info(self) -> tuple[Optional[str], Optional[str]]:
         """Return receiver's error tag and error message if present."""
         etag = self.find1("error-app-tag")
-- 
2.43.0


From e7c6295fffc741a5217918e0b1d45af13fbd6887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 080/108] fix: revisions of deviation modules in convert8525

---
 yangson/convert8525.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index e94a86c..7bd1e46 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -31,6 +31,7 @@ from yangson import DataModel
 from yangson.enumerations import ContentType
 from yangson.exceptions import (
     NonexistentInstance, ValidationError, RawDataError)
+from yangson.instance import InstanceNode
 from yangson.instvalue import ObjectValue
 from yangson.typealiases import RawObject
 
@@ -123,8 +124,9 @@ class ModuleData:
 
 class MainModuleData(ModuleData):
 
-    def __init__(self, val: ObjectValue, import_only: bool) -> None:
+    def __init__(self, entry: InstanceNode, import_only: bool) -> None:
         """Initialize the receiver."""
+        val = cast(ObjectValue, entry.value)
         super().__init__(val)
         self.import_only = import_only
         self.namespace: str = val["namespace"].strip()
@@ -135,7 +137,7 @@ class MainModuleData(ModuleData):
         self.feature: list[str] = val.get("feature", [])
         self.deviation: list[tuple[str, str]] = []
         if "deviation" in val:
-            for dev in val["deviation"]:
+            for dev in entry["deviation"]:
                 dmod = dev._deref()[0]
                 try:
                     rev = dmod.sibling("revision").value
@@ -226,11 +228,11 @@ def main() -> int:
         msentry = top["module-set"].look_up(name=ms.value)
         if "module" in msentry:
             for yam in msentry["module"]:
-                ment = MainModuleData(yam.value, import_only=False)
+                ment = MainModuleData(yam, import_only=False)
                 modules[ment.key()] = ment
         if "import-only-module" in msentry:
             for yam in msentry["import-only-module"]:
-                ment = MainModuleData(yam.value, import_only=True)
+                ment = MainModuleData(yam, import_only=True)
                 modules[ment.key()] = ment
     dm7895 = DataModel(YL7895, sp.split(":"))
     res = dm7895.from_raw(
-- 
2.43.0


From ef73f5b9dcb922bd2d51e1f9be7c6659c5f97678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 081/108] fix: implemented modules that are also import-only in
 convert8525

---
 yangson/convert8525.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index 7bd1e46..ff1b6c5 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -233,7 +233,7 @@ def main() -> int:
         if "import-only-module" in msentry:
             for yam in msentry["import-only-module"]:
                 ment = MainModuleData(yam, import_only=True)
-                modules[ment.key()] = ment
+                modules.setdefault(ment.key(), ment)
     dm7895 = DataModel(YL7895, sp.split(":"))
     res = dm7895.from_raw(
         {"ietf-yang-library:modules-state":
-- 
2.43.0


From e4e7533ffc8091d89021550570bc36020d512cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 082/108] fix: XPath numbers with an empty fraction

---
 yangson/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/parser.py b/yangson/parser.py
index df76597..0ed610b 100644
--- a/yangson/parser.py
+++ b/yangson/parser.py
@@ -47,7 +47,7 @@ class Parser:
     uint_re = re.compile(_uint)
     """Regular expression for unsigned integer."""
 
-    ufloat_re = re.compile(fr"{_uint}(\.{_uint})?|\.{_uint}")
+    ufloat_re = re.compile(fr"{_uint}(\.[0-9]*)?|\.{_uint}")
     """Regular expression for unsigned float."""
 
     def __init__(self, text: str) -> None:
-- 
2.43.0


From ed3cc34de37d983e433c6f466923fed7ecbedcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 083/108] fix: split an empty instance route

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 20e9a1a..d84c51b 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1021,7 +1021,7 @@ class DataNode(SchemaNode):
             if not sroute:
                 break
             inst = sroute.pop()
-            if inst != route[i].iname():
+            if i >= len(route) or inst != route[i].iname():
                 return None
             while True:         # skip up to next MemberName
                 i += 1
-- 
2.43.0


From a414eca5c9744f8bbabecc883a18b7d3c325b70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 084/108] fix: validate isolated instances before any root node
 exists

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index d84c51b..8b079ec 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -677,6 +677,8 @@ class InternalNode(SchemaNode):
 
     def _check_schema_pattern(self, inst: InstanceNode,
                               ctype: ContentType) -> None:
+        if self.schema_pattern is None:
+            self._make_schema_patterns()
         p = self.schema_pattern
         p._eval_when(inst)
         for m in inst:
-- 
2.43.0


From 61228ff608c39c3b3a5a4c83db5ef3113dfffac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 085/108] fix: state roots of anydata and anyxml

---
 yangson/schemanode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 8b079ec..38b8fa4 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1767,6 +1767,9 @@ class AnyContentNode(DataNode):
     def _ascii_tree(self, indent: str, no_types: bool, val_count: bool) -> str:
         return ""
 
+    def _state_roots(self) -> list[SchemaNode]:
+        return [] if self.content_type() == ContentType.config else [self]
+
     def _post_process(self) -> None:
         if self._mandatory:
             self.parent._add_mandatory_child(self)
-- 
2.43.0


From 9dfd26bad5f65d5aff1217fffc73a00264ee7bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 086/108] fix: presence containers are not mandatory in a
 configuration

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 38b8fa4..8fb455c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1178,7 +1178,7 @@ class ContainerNode(DataNode, InternalNode):
     @property
     def mandatory_config(self) -> bool:
         """Override the superclass property."""
-        return bool(self._mandatory_children[1])
+        return not self.presence and bool(self._mandatory_children[1])
 
     def _node_digest(self) -> dict[str, Any]:
         res = super()._node_digest()
-- 
2.43.0


From ebcf8593a1d8626e7215fc25a22460353c361800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 087/108] fix: state roots under a choice of state data are its
 data nodes

---
 yangson/schemanode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 8fb455c..c83b5ca 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -736,7 +736,8 @@ class InternalNode(SchemaNode):
         return inst
 
     def _state_roots(self) -> list[SchemaNode]:
-        if self.content_type() == ContentType.nonconfig:
+        if (isinstance(self, DataNode) and
+                self.content_type() == ContentType.nonconfig):
             return [self]
         res = []
         for c in self.data_children():
-- 
2.43.0


From d2e52287ae9023a52bbe27ade9f1eeaf7d1c7d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 088/108] fix: tree diagram of nodes with nothing but an empty
 augment

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index c83b5ca..55ac11e 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -903,6 +903,8 @@ class InternalNode(SchemaNode):
         cs = []
         for c in self.children:
             cs.extend(c._flatten())
+        if not cs:
+            return ""
         cs.sort(key=lambda x: x.qual_name)
         res = ""
         for c in cs[:-1]:
-- 
2.43.0


From 7a39e777203fbb4c32e071361a1c94a6008eb8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 089/108] fix: names of notifications in the schema digest

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 55ac11e..514a5a8 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -655,7 +655,7 @@ class InternalNode(SchemaNode):
             if self.config and not c.config:
                 cdig["config"] = False
         for c in [c for c in self.children if isinstance(c, SchemaTreeNode)]:
-            rc[c.iname()] = c._node_digest()
+            rc[c._tree_name()] = c._node_digest()
         return res
 
     def _validate(self, inst: InstanceNode,
-- 
2.43.0


From f224064f717ec70d08387c999aefea7e359e092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 090/108] fix: positions of bits in the schema digest

---
 yangson/datatype.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 789f9a8..c3cde9f 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -387,6 +387,7 @@ class BitsType(DataType[tuple[str, ...], str]):
                 bits.append(None)
                 i += 1
             bits.append(b[0])
+            i += 1
         res["bits"] = bits
         return res
 
-- 
2.43.0


From 83ca5d31603550d7701c4becc26bb3946e0822ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 091/108] fix: defaults of leaf-lists in the schema digest

---
 yangson/schemanode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 514a5a8..3178a0c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1113,7 +1113,9 @@ class TerminalNode(SchemaNode):
         res["type"] = self.type._type_digest(self.config)
         df = self.default
         if df is not None:
-            res["default"] = self.type.to_raw(df)
+            res["default"] = ([self.type.to_raw(v) for v in df]
+                              if isinstance(df, ArrayValue)
+                              else self.type.to_raw(df))
         if self.units:
             res["units"] = self.units
         return res
-- 
2.43.0


From e6f416bc75cc518ecd54ea45246d1577f4747b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 092/108] fix: notifications are not mandatory nodes

---
 yangson/schemanode.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 3178a0c..1916a49 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1891,6 +1891,11 @@ class NotificationNode(SchemaTreeNode):
         self.default_deny: DefaultDeny = DefaultDeny.none
         self._ctype = ContentType.nonconfig
 
+    @property
+    def mandatory(self) -> bool:
+        """Override the superclass property."""
+        return False
+
     def _validate(self, inst: InstanceNode,
                   scope: ValidationScope, ctype: ContentType) -> None:
         """Extend the superclass method."""
-- 
2.43.0


From 14afbc9e4000fc862afc25d0fba6bd62aba91e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 093/108] fix: parentheses in the text form of XPath
 expressions

---
 yangson/xpathast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 0631f4b..51e787b 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -419,8 +419,10 @@ class FilterExpr(Expr):
         self.predicates = predicates
 
     def __str__(self) -> str:
-        return (str(self.primary) +
-                "".join([f"[{p}]" for p in self.predicates]))
+        prim = str(self.primary)
+        if not self.primary.__class__.__name__.startswith("Func"):
+            prim = f"({prim})"
+        return prim + "".join([f"[{p}]" for p in self.predicates])
 
     def _children_ast(self, indent) -> str:
         return self.primary.syntax_tree(indent) + self._predicates_str(indent)
-- 
2.43.0


From 7bf00cb76071fe69946125f9dd751eca7c87e759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 094/108] fix: text form of steps with node()

---
 yangson/xpathast.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 51e787b..5c790c9 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -439,8 +439,13 @@ class LocationPath(BinaryExpr):
         return lres.bind(lambda n: self.right._eval(xctx.update_cnode(n)))
 
     def __str__(self) -> str:
-        sep = "" if isinstance(self.left, Root) else "/"
-        return f"{self.left}{sep}{self.right}"
+        left = self.left
+        sep = "/"
+        if (isinstance(left, LocationPath) and isinstance(left.right, Step)
+                and left.right._is_double_slash()):
+            left = left.left
+            sep = "//"
+        return f"{'' if isinstance(left, Root) else left}{sep}{self.right}"
 
     def as_instance_route(self) -> InstanceRoute:
         return InstanceRoute(self.left.as_instance_route() +
@@ -470,12 +475,11 @@ class Step(Expr):
         self.predicates = predicates
 
     def __str__(self) -> str:
-        if self.axis == Axis.descendant_or_self and self.qname is None:
-            return ""
-        if self.axis == Axis.self and self.qname is None:
-            return "."
-        if self.axis == Axis.parent and self.qname is None:
-            return ".."
+        if self.qname is None and not self.predicates:
+            if self.axis == Axis.self:
+                return "."
+            if self.axis == Axis.parent:
+                return ".."
         if self.qname:
             qn = f"{self.qname[1]}:{self.qname[0]}"
         elif self.qname is None:
@@ -486,6 +490,11 @@ class Step(Expr):
         prs = "".join([f"[{p}]" for p in self.predicates])
         return ax + qn + prs
 
+    def _is_double_slash(self) -> bool:
+        """Return True if the receiver can be abbreviated as ``//``."""
+        return (self.axis == Axis.descendant_or_self and self.qname is None
+                and not self.predicates)
+
     def as_instance_route(self) -> InstanceRoute:
         m = MemberName(*self.qname)
         if not self.predicates:
-- 
2.43.0


From 82fdc1e8357887b47f1115689fc7be414c748054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 095/108] fix: text form of large and small numbers

---
 yangson/xpathast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 5c790c9..ece2336 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -388,10 +388,10 @@ class Number(Expr):
         self.value = value
 
     def __str__(self) -> str:
-        return str(self.value)
+        return format(decimal.Decimal(repr(self.value)), "f")
 
     def _properties_str(self) -> str:
-        return str(self.value)
+        return str(self)
 
     def _eval(self, xctx: XPathContext) -> float:
         return float(self.value)
-- 
2.43.0


From 94152397dfe21a4c073d36a9eea8f00e76566a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 096/108] fix: syntax tree of derived-from()

---
 yangson/xpathast.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index ece2336..5c7acc2 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -622,8 +622,7 @@ class FuncDerivedFrom(BinaryExpr):
         return ("derived-from-or-self" if self.or_self else "derived-from")
 
     def _properties_str(self) -> str:
-        return ("OR-SELF, " if self.or_self
-                else "") + self.sctx.schema_data.namespace(self.mid)
+        return "OR-SELF" if self.or_self else ""
 
     def _eval(self, xctx: XPathContext) -> bool:
         ns = self.left._eval(xctx)
-- 
2.43.0


From 81f392475fa25c1293b323469dbd289cfa2f176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 097/108] fix: exit status of the yangson tool for all data
 model problems

---
 yangson/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yangson/__main__.py b/yangson/__main__.py
index 89d0a90..3d98cd2 100644
--- a/yangson/__main__.py
+++ b/yangson/__main__.py
@@ -30,7 +30,7 @@ from yangson.exceptions import (
     BadYangLibraryData, FeaturePrerequisiteError, InvalidArgument,
     MultipleImplementedRevisions, ModuleNotFound, ModuleNotRegistered,
     NonexistentSchemaNode, RawMemberError, RawTypeError,
-    SchemaError, SemanticError, YangTypeError)
+    SchemaError, SemanticError, YangsonException, YangTypeError)
 from yangson.typealiases import PrefName
 
 
@@ -157,6 +157,10 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         except ModuleNotRegistered as e:
             print("Module not registered:", str(e), file=sys.stderr)
             return 2
+        except YangsonException as e:
+            print("Invalid data model:", type(e).__name__, str(e),
+                  file=sys.stderr)
+            return 2
     if set_id:
         print(dm.module_set_id())
         return 0
-- 
2.43.0


From fd801336ad2fb38488d26ece4d14304d4e75d73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 098/108] fix: exit status of the yangson tool for unreadable
 files

---
 yangson/__main__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yangson/__main__.py b/yangson/__main__.py
index 3d98cd2..78e8ed9 100644
--- a/yangson/__main__.py
+++ b/yangson/__main__.py
@@ -127,14 +127,14 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         try:
             with open(infile, "rb") as pif:
                 dm = pickle.load(pif)
-        except (FileNotFoundError, pickle.UnpicklingError) as e:
+        except (OSError, EOFError, pickle.UnpicklingError) as e:
             print("Pickle file:", str(e), file=sys.stderr)
             return 1
     else:
         try:
             with open(infile, encoding="utf-8") as ylf:
                 yl = ylf.read()
-        except (FileNotFoundError, PermissionError, UnicodeDecodeError,
+        except (OSError, UnicodeDecodeError,
                 json.decoder.JSONDecodeError) as e:
             print("YANG library:", str(e), file=sys.stderr)
             return 1
@@ -182,7 +182,7 @@ def main(infile: Optional[str] = None, pickled: bool = False,
     try:
         with open(validate, encoding="utf-8") as instf:
             itxt = json.load(instf)
-    except (FileNotFoundError, PermissionError, UnicodeDecodeError,
+    except (OSError, UnicodeDecodeError,
             json.decoder.JSONDecodeError) as e:
         print("Instance data:", str(e), file=sys.stderr)
         return 1
-- 
2.43.0


From 862c2a07271fd317d60261e9d15d5fb00913949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 099/108] fix: exit status of a failed dump of the data model

---
 yangson/__main__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yangson/__main__.py b/yangson/__main__.py
index 78e8ed9..9bfccaa 100644
--- a/yangson/__main__.py
+++ b/yangson/__main__.py
@@ -171,12 +171,13 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         print(dm.schema_digest())
         return 0
     if dump:
-        with open(dump, "wb") as pif:
-            try:
+        try:
+            with open(dump, "wb") as pif:
                 pickle.dump(dm, pif, pickle.HIGHEST_PROTOCOL)
                 return 0
-            except pickle.PicklingError as e:
-                print("Pickling failed:", str(e), file=sys.stderr)
+        except (OSError, pickle.PicklingError) as e:
+            print("Pickling failed:", str(e), file=sys.stderr)
+            return 1
     if not validate:
         return 0
     try:
-- 
2.43.0


From 759b7303786e574831f941dc2e21bbc93809199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 100/108] fix: exit status for a subschema that is not an
 operation or notification

---
 yangson/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yangson/__main__.py b/yangson/__main__.py
index 9bfccaa..65a8fbd 100644
--- a/yangson/__main__.py
+++ b/yangson/__main__.py
@@ -27,7 +27,7 @@ from typing import Optional
 from yangson import DataModel
 from yangson.enumerations import ContentType, ValidationScope
 from yangson.exceptions import (
-    BadYangLibraryData, FeaturePrerequisiteError, InvalidArgument,
+    BadSchemaNodeType, BadYangLibraryData, FeaturePrerequisiteError, InvalidArgument,
     MultipleImplementedRevisions, ModuleNotFound, ModuleNotRegistered,
     NonexistentSchemaNode, RawMemberError, RawTypeError,
     SchemaError, SemanticError, YangsonException, YangTypeError)
@@ -202,6 +202,9 @@ def main(infile: Optional[str] = None, pickled: bool = False,
     except NonexistentSchemaNode:
         print("Subschema", subschema, "not found", file=sys.stderr)
         return 3
+    except BadSchemaNodeType as e:
+        print("Invalid subschema:", str(e), file=sys.stderr)
+        return 3
     try:
         i.validate(scope, ctype)
     except SchemaError as e:
-- 
2.43.0


From 610cb27bc3a04af79a7190aeeac2d383cdb04400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:25 +0000
Subject: [PATCH 101/108] fix: status of an augment doesn't concern its target

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 1916a49..c5aa4b5 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -778,7 +778,7 @@ class InternalNode(SchemaNode):
             sctx.schema_data.sni2route(stmt.argument, sctx))
         if target is None:
             return False
-        if stmt.find1("when"):
+        if stmt.find1("when") or stmt.find1("status"):
             gr = GroupNode()
             target._add_child(gr)
             target = gr
-- 
2.43.0


From d25185f81d7ad787d46ae7e6e9cfe317ebbf4cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:25 +0000
Subject: [PATCH 102/108] fix: status of a grouping doesn't concern the node
 that uses it

---
 yangson/schemanode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index c5aa4b5..492252e 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -824,6 +824,9 @@ class InternalNode(SchemaNode):
                 raise InvalidArgument(wst.argument)
             sn.when = wex
             self._add_child(sn)
+        elif grp.find1("status"):
+            sn = GroupNode()
+            self._add_child(sn)
         else:
             sn = self
         sn._handle_substatements(grp, gid)
-- 
2.43.0


From aa4a24c2c7b6dbeb2994e2d03561eb0909ef0574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 103/108] fix: obsolete nodes are removed from the schema

---
 yangson/schemanode.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 492252e..bcd84bb 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -512,7 +512,7 @@ class InternalNode(SchemaNode):
         """Return data node directly under the receiver."""
         ns = self.ns if ns is None else ns
         todo = []
-        for child in self.children:
+        for child in self._live_children():
             if child.name == name and child.ns == ns:
                 if isinstance(child, DataNode):
                     return child
@@ -533,14 +533,14 @@ class InternalNode(SchemaNode):
         """
         if ctype is None:
             ctype = self.content_type()
-        return [c for c in self.children if
+        return [c for c in self._live_children() if
                 not isinstance(c, (RpcActionNode, NotificationNode)) and
                 c.content_type().value & ctype.value != 0]
 
     def data_children(self) -> list["DataNode"]:
         """Return the set of all data nodes directly under the receiver."""
         res = []
-        for child in self.children:
+        for child in self._live_children():
             if isinstance(child, DataNode):
                 res.append(child)
             elif not isinstance(child, SchemaTreeNode):
@@ -704,9 +704,8 @@ class InternalNode(SchemaNode):
                 dc._make_schema_patterns()
 
     def _schema_pattern(self) -> SchemaPattern:
-        todo = [c for c in self.children if not (
-            isinstance(c, (RpcActionNode, NotificationNode)) or
-            c._status == NodeStatus.obsolete)]
+        todo = [c for c in self._live_children() if not
+                isinstance(c, (RpcActionNode, NotificationNode))]
         if not todo:
             return Empty()
         prev = todo[0]._pattern_entry()
@@ -716,9 +715,13 @@ class InternalNode(SchemaNode):
 
     def _post_process(self) -> None:
         super()._post_process()
-        for c in self.children:
+        for c in self._live_children():
             c._post_process()
 
+    def _live_children(self) -> list[SchemaNode]:
+        """Return receiver's children that aren't obsolete."""
+        return [c for c in self.children if c._status != NodeStatus.obsolete]
+
     def _add_mandatory_child(self, node: SchemaNode) -> None:
         """Add `node` to the set of mandatory children."""
         if node.mandatory_config:
@@ -942,7 +945,7 @@ class GroupNode(InternalNode):
         return super()._schema_pattern()
 
     def _case_patterns(self) -> list[SchemaPattern]:
-        res = [p for c in self.children for p in c._case_patterns()]
+        res = [p for c in self._live_children() for p in c._case_patterns()]
         return ([ConditionalPattern(p, self.when) for p in res] if self.when
                 else res)
 
@@ -1545,19 +1548,23 @@ class ChoiceNode(InternalNode):
         """Return the active or default case for an instance node value."""
         ac = self._active_case(value)
         if ac is None and self.default_case:
-            return self.get_child(*self.default_case)
+            dc = self.get_child(*self.default_case)
+            if dc and dc.status != NodeStatus.obsolete:
+                return dc
         return ac
 
     def _active_case(self, value: ObjectValue) -> Optional["CaseNode"]:
         """Return receiver's case that's active in an instance node value."""
-        for c in self.children:
+        for c in self._live_children():
             for case in c._flatten():
+                if case._status == NodeStatus.obsolete:
+                    continue
                 for cc in case.data_children():
                     if cc.iname() in value:
                         return case
 
     def _pattern_entry(self) -> SchemaPattern:
-        cases = [p for c in self.children for p in c._case_patterns()]
+        cases = [p for c in self._live_children() for p in c._case_patterns()]
         if not cases:
             return Empty()
         prev = cases[0]
-- 
2.43.0


From d18e0a9bf3cb3333d58e77f410cf8c99a0ed7a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 104/108] fix: deprecated nodes don't make their parent
 mandatory

---
 yangson/schemanode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index bcd84bb..62a9b4c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -724,6 +724,9 @@ class InternalNode(SchemaNode):
 
     def _add_mandatory_child(self, node: SchemaNode) -> None:
         """Add `node` to the set of mandatory children."""
+        if (isinstance(node, DataNode) and
+                node._status == NodeStatus.deprecated):
+            return
         if node.mandatory_config:
             self._mandatory_children[1].add(node)
         else:
-- 
2.43.0


From 0dc68b9b0847965971f69b168c0e6da149d051b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 105/108] fix: schema digest omits obsolete operations and
 notifications

---
 yangson/schemanode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 62a9b4c..947bd4f 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -654,7 +654,8 @@ class InternalNode(SchemaNode):
             cdig = rc[c.iname()] = c._node_digest()
             if self.config and not c.config:
                 cdig["config"] = False
-        for c in [c for c in self.children if isinstance(c, SchemaTreeNode)]:
+        for c in [c for c in self._live_children()
+                  if isinstance(c, SchemaTreeNode)]:
             rc[c._tree_name()] = c._node_digest()
         return res
 
-- 
2.43.0


From 1e1ef0948df6f15f38f8657e9cf5f043cf7e8581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 106/108] fix: error information of a restriction isn't taken
 from another one

---
 yangson/constraint.py | 21 +++++++++++++++++----
 yangson/datatype.py   |  7 ++++---
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/yangson/constraint.py b/yangson/constraint.py
index af99e36..3831f6e 100644
--- a/yangson/constraint.py
+++ b/yangson/constraint.py
@@ -24,6 +24,7 @@ This module implements the following classes:
 * Pattern: Class representing regular expression pattern.
 * Must: Class representing the constraint specified by a "must" statement.
 """
+from copy import copy
 import re
 from typing import Callable, Generic, Optional
 from elementpath import RegexError, translate_pattern
@@ -62,6 +63,9 @@ class Intervals(Constraint, Generic[N]):
         super().__init__(error_tag, error_message)
         self.intervals = intervals
         self.parser = parser if parser else Intervals.default_parser
+        self.default_message = error_message
+        self.restricted = False
+        self.base: Optional["Intervals"] = None
 
     def __contains__(self, value: N):
         """Return ``True`` if the receiver contains the value."""
@@ -108,11 +112,20 @@ class Intervals(Constraint, Generic[N]):
             if len(r) > 2:
                 raise InvalidArgument(expr)
             ran.append([r[0]] if r[0] == r[-1] else r)
+        if self.restricted:
+            self.base = copy(self)
+        self.restricted = True
         self.intervals = ran
-        if error_tag:
-            self.error_tag = error_tag
-        if error_message:
-            self.error_message = error_message
+        self.error_tag = error_tag
+        self.error_message = (error_message if error_message else
+                              self.default_message)
+
+    def violated(self, value: N) -> "Intervals":
+        """Return the first of the combined expressions that excludes `value`.
+        """
+        if self.base and value not in self.base:
+            return self.base.violated(value)
+        return self
 
 
 class Pattern(Constraint):
diff --git a/yangson/datatype.py b/yangson/datatype.py
index c3cde9f..64eba29 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -450,8 +450,8 @@ class LinearType(DataType[L, str]):
 
     def __contains__(self, val: L) -> bool:
         if self.length and len(val) not in self.length:
-            self._set_error_info(self.length.error_tag,
-                                 self.length.error_message)
+            expr = self.length.violated(len(val))
+            self._set_error_info(expr.error_tag, expr.error_message)
             return False
         return True
 
@@ -865,7 +865,8 @@ class NumericType(DataType[N, RN]):
                 return False
         if val in self.range:
             return True
-        self._set_error_info(self.range.error_tag, self.range.error_message)
+        expr = self.range.violated(val)
+        self._set_error_info(expr.error_tag, expr.error_message)
         return False
 
     @property
-- 
2.43.0


From 83feefe4b14043b431c31da8239688c8226e69dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 107/108] fix: error information of leafref, union and
 instance-identifier types

---
 yangson/datatype.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 64eba29..92856b5 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -656,7 +656,11 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
         super().__init__(sctx, name)
 
     def __contains__(self, val: ScalarValue) -> bool:
-        return val in self.ref_type
+        if val in self.ref_type:
+            return True
+        self._set_error_info(self.ref_type.error_tag,
+                             self.ref_type.error_message)
+        return False
 
     def _handle_properties(self, stmt: Statement, sctx: SchemaContext) -> None:
         super()._handle_properties(stmt, sctx)
@@ -716,7 +720,10 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return "instance-identifier"
 
     def __contains__(self, val: InstanceRoute) -> bool:
-        return isinstance(val, InstanceRoute)
+        if isinstance(val, InstanceRoute):
+            return True
+        self._set_error_info()
+        return False
 
     def yang_type(self) -> YangIdentifier:
         """Override the superclass method."""
@@ -1138,6 +1145,7 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                     return True
             except TypeError:
                 continue
+        self._set_error_info()
         return False
 
     def to_raw(self, val: ScalarValue) -> Optional[RawScalar]:
-- 
2.43.0


From 681aa0b6deb7a851a803a0fee078c9a13098eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:00 +0000
Subject: [PATCH 108/108] fix: missing member isn't named when another one
 would do

---
 yangson/schpattern.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 5341331..d5e6f59 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -282,9 +282,9 @@ class ChoicePattern(Alternative, Typeable):
 
     def _mandatory_members(self, ctype: ContentType) -> list[InstanceName]:
         if self._active(ctype):
-            return ((self.left._mandatory_members(ctype) or []) +
-                    (self.right._mandatory_members(ctype) or [])
-                    ) or [f"choice {self.name}"]
+            own = f"choice {self.name}"
+            res = super()._mandatory_members(ctype)
+            return [own] if res is None or own in res else res
 
 
 class Pair(SchemaPattern):
-- 
2.43.0

