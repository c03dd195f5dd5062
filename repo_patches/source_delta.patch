From 3475e31922625c3c7596ae2c47cc119fa4b379e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 01/41] fix: resolve a prefixed unit whose prefix and unit
 share a spelling (e.g. mm)

---
 pyudunits2/_unit_system.py | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 59f0a2d..796cb63 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -232,20 +232,16 @@ class UnitSystem:
                         name_or_symbol[len(prefix_name) :]
                     ) or self._unit_by_symbol(name_or_symbol[len(prefix_name) :])
                     if unit:
-                        refs = {
-                            unit_graph.Identifier(prefix_name): prefix,
-                            unit_graph.Identifier(
-                                name_or_symbol[len(prefix_name) :]
-                            ): unit,
-                        }
+                        # Refer to the prefix by its value, since it may be
+                        # spelled the same as the unit (e.g. "mm").
+                        identifier = unit_graph.Identifier(
+                            name_or_symbol[len(prefix_name) :]
+                        )
                         result = Unit(
                             definition=unit_graph.Multiply(
-                                unit_graph.Identifier(prefix_name),
-                                unit_graph.Identifier(
-                                    name_or_symbol[len(prefix_name) :]
-                                ),
+                                prefix._expanded_expr(), identifier
                             ),
-                            identifier_references=refs,
+                            identifier_references={identifier: unit},
                         )
                         break
 
@@ -256,20 +252,16 @@ class UnitSystem:
                         name_or_symbol[len(prefix_symbol) :]
                     ) or self._unit_by_symbol(name_or_symbol[len(prefix_symbol) :])
                     if unit:
-                        refs = {
-                            unit_graph.Identifier(prefix_symbol): prefix,
-                            unit_graph.Identifier(
-                                name_or_symbol[len(prefix_symbol) :]
-                            ): unit,
-                        }
+                        # Refer to the prefix by its value, since it may be
+                        # spelled the same as the unit (e.g. "mm").
+                        identifier = unit_graph.Identifier(
+                            name_or_symbol[len(prefix_symbol) :]
+                        )
                         result = Unit(
                             definition=unit_graph.Multiply(
-                                unit_graph.Identifier(prefix_symbol),
-                                unit_graph.Identifier(
-                                    name_or_symbol[len(prefix_symbol) :]
-                                ),
+                                prefix._expanded_expr(), identifier
                             ),
-                            identifier_references=refs,
+                            identifier_references={identifier: unit},
                         )
                         break
 
-- 
2.43.0


From ff0128a3df2340cd69e18c046d7abf2f1f97160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 02/41] fix: give unicode exponents an integer value, and
 reject malformed ones

---
 pyudunits2/_grammar/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 3cf33c2..923e6b1 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -24,7 +24,12 @@ def handle_UNICODE_EXPONENT(string):
     # ascii minus (which is actually a less good version
     # of unicode minus).
     normd = unicodedata.normalize("NFKC", string).replace("−", "-")
-    return graph.Number(normd, raw_content=normd)
+    try:
+        value = int(normd)
+    except ValueError:
+        # The token may hold any mixture of superscript signs and digits.
+        raise SyntaxError(f"Invalid unicode exponent {string!r}") from None
+    return graph.Number(value, raw_content=normd)
 
 
 class UnitParseVisitor(udunits2ParserVisitor):
-- 
2.43.0


From 0b40e056e84e97f4bdb86ca5395a62c7cbb8037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 03/41] fix: keep the brackets which matter in the string form
 of a unit

---
 pyudunits2/_expr/graph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_expr/graph.py b/pyudunits2/_expr/graph.py
index 2b7fa53..1235ed5 100644
--- a/pyudunits2/_expr/graph.py
+++ b/pyudunits2/_expr/graph.py
@@ -99,9 +99,15 @@ class BinaryOp(Node):
     rhs: Node
 
 
+def _str_in_brackets(node: Node, *node_types: type[Node]) -> str:
+    # The string form of the given node, in brackets if it is one of the types.
+    return f"({node})" if isinstance(node, node_types) else str(node)
+
+
 class Raise(BinaryOp):
     def __str__(self):
-        return f"{self.lhs}^{self.rhs}"
+        lhs = _str_in_brackets(self.lhs, Raise, Multiply, Divide)
+        return f"{lhs}^{self.rhs}"
 
 
 class Multiply(BinaryOp):
@@ -111,9 +117,8 @@ class Multiply(BinaryOp):
 
 class Divide(BinaryOp):
     def __str__(self):
-        # TODO: It may be necessary to put brackets around
-        #  the rhs, depending on context (e.g. if rhs is a multiply)
-        return f"{self.lhs}/{self.rhs}"
+        rhs = _str_in_brackets(self.rhs, Multiply, Divide)
+        return f"{self.lhs}/{rhs}"
 
 
 @dataclasses.dataclass(frozen=True)
-- 
2.43.0


From a3c7fd8991f41089fa6886201641da66f9f1ba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 04/41] fix: hash equal DateTimes equally, whatever text they
 came from

---
 pyudunits2/_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_datetime.py b/pyudunits2/_datetime.py
index e41cabe..8f5bef5 100644
--- a/pyudunits2/_datetime.py
+++ b/pyudunits2/_datetime.py
@@ -27,7 +27,7 @@ class DateTime:
     time: Time = Time(0, 0)
     tz_offset: Time | str = "UTC"
     #: The original representation of the date time before any parsing.
-    raw_content: str | None = None
+    raw_content: str | None = dataclasses.field(default=None, compare=False)
 
     def __eq__(self, other: typing.Any) -> bool:
         if not isinstance(other, DateTime):
-- 
2.43.0


From 841c7921956b25b950d2f37f4081f2ada5e2f7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 05/41] fix: write the microseconds of a Time with six digits

---
 pyudunits2/_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_datetime.py b/pyudunits2/_datetime.py
index 8f5bef5..05d034b 100644
--- a/pyudunits2/_datetime.py
+++ b/pyudunits2/_datetime.py
@@ -15,7 +15,7 @@ class Time:
         if self.second or self.microseconds:
             t_str += f":{self.second:02}"
         if self.microseconds:
-            t_str += f".{self.microseconds:08}"
+            t_str += f".{self.microseconds:06}"
         return t_str
 
 
-- 
2.43.0


From d1a45dbdf9e8c858af639c7c942426bdeba26360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 06/41] fix: compare and convert the basis units themselves
 like any other unit

---
 pyudunits2/_unit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index bf728dc..a02e46b 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -582,11 +582,11 @@ class BasisUnit(NamedUnit):
     def __str__(self):
         return self._ref
 
-    def dimensionality(self) -> dict[BasisUnit, int]:
+    def dimensionality(self) -> Dimensionality:
         if self._dimensionless:
-            return {}
+            return Dimensionality({})
         else:
-            return {self: 1}
+            return Dimensionality({self: 1})
 
     def is_time_unit(self):
         return self._is_time_unit
-- 
2.43.0


From 60eb422dec129a45ef43ecc1426d81017664a8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 07/41] fix: allow a basis unit which only has symbols

---
 pyudunits2/_udunits2_xml_parser.py | 2 +-
 pyudunits2/_unit.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index ffbb713..c5daad8 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -213,7 +213,7 @@ class UDUNITS2XMLParser:
                 # https://github.com/Unidata/UDUNITS-2/blob/c83da987387db1174cd2266b73dd5dd556f4476b/lib/udunits-1.c#L50
                 # Instead of implementing this special casing in the units handling,
                 # we attach a special attribute to a time basis unit.
-                is_time_unit = reference.name.singular == "second"
+                is_time_unit = name is not None and name.singular == "second"
 
                 unit = BasisUnit(
                     names=reference,
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index a02e46b..15ab3be 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -559,7 +559,7 @@ class BasisUnit(NamedUnit):
     def __init__(
         self, *, names: Names, dimensionless: bool = False, is_time_unit: bool = False
     ):
-        ref = names.name.singular or names.symbols[0]
+        ref = names.name.singular if names.name is not None else names.symbols[0]
         self._ref = ref
         self._dimensionless = dimensionless
         self._is_time_unit = is_time_unit
-- 
2.43.0


From ad3a078c4334a408609f77a633e73a2d31375d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 08/41] fix: refuse to make a converter for a date unit, whose
 reference it would ignore

---
 pyudunits2/_unit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 15ab3be..02f11a2 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -182,6 +182,12 @@ class Converter:
         self._from_unit = from_unit
         self._to_unit = to_unit
 
+        if not isinstance(from_unit, Unit) or not isinstance(to_unit, Unit):
+            # Other unit-likes, such as DateUnit, have no conversion.
+            raise IncompatibleUnitsError(
+                f"Units {to_unit} and {from_unit} are not convertible"
+            )
+
         import sympy
 
         from_dimensionality = from_unit.dimensionality()
-- 
2.43.0


From 54f3705c2d3f9bd9d3535daeb32a492fe7f691db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 09/41] fix: give a date unit a string form which can be read
 back

---
 pyudunits2/_unit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 02f11a2..c35c388 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -521,6 +521,9 @@ class DateUnit(UnitInterface):
     def expanded(self):
         return f"{self._unit.expanded()} since {self.reference_date}"
 
+    def __str__(self):
+        return f"({self._unit} @ {self._reference_date})"
+
     # def convert_to(self):
     #     # Note that there are some interesting cases from udunits2:
     #     #
-- 
2.43.0


From c36cff475a15f9ee8efca8d73381c76de6851c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 10/41] fix: leave no dimensionless basis unit behind in a
 conversion (e.g. rpm to Hz)

---
 pyudunits2/_unit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index c35c388..054ff87 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -212,6 +212,12 @@ class Converter:
         orig_qty = sympy.symbols("value")
         to_value = sympy.symbols("to_value")
 
+        # The dimensions have been matched, so that any basis units which do not
+        # cancel out are dimensionless ones (e.g. radian). These have no effect
+        # on the value.
+        d1 = d1.subs({symbol: 1 for symbol in d1.free_symbols})
+        d2 = d2.subs({symbol: 1 for symbol in d2.free_symbols})
+
         # The t1 definition is the inverse of what we express. For example, lg(re value) means
         # we must 10^value to get the base unit scale value.
         t1 = t1.subs(orig_qty, to_symbol)
-- 
2.43.0


From c6075f51c26cfbf7d5816536efbff21822a5751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 11/41] fix: read log(re ...) as a base 10 logarithm, like
 UDUNITS-2 does

---
 pyudunits2/_expr/sympy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_expr/sympy.py b/pyudunits2/_expr/sympy.py
index 8ef49d7..1701978 100644
--- a/pyudunits2/_expr/sympy.py
+++ b/pyudunits2/_expr/sympy.py
@@ -55,7 +55,7 @@ class ToSympy(unit_graph.Visitor):
             "lb": 2,
             "lg": 10,
             "ln": None,  # Sympy defaults to natual log.
-            "log": None,  # Unspecified by udunits2...
+            "log": 10,  # As is the case in the UDUNITS-2 implementation.
         }
         base = bases[node.function]
         if base is None:
-- 
2.43.0


From 26fff83111b5041fa5000d34ab38162358e84836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 12/41] fix: do not let the first use of a unit change what
 other names refer to

---
 pyudunits2/_unit_system.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 796cb63..a45cd18 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -202,14 +202,12 @@ class UnitSystem:
         unit = self._names.get(name, None) or self._alias_names.get(name, None)
         if isinstance(unit, LazilyDefinedUnit):
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def _unit_by_symbol(self, symbol: str) -> Unit | None:
         unit = self._symbols.get(symbol, None) or self._alias_symbols.get(symbol, None)
         if isinstance(unit, LazilyDefinedUnit):
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def unit_by_name_or_symbol(self, name_or_symbol: str) -> Unit:
-- 
2.43.0


From 128d3239c395fabd6128802fc65bdb9daae0e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 13/41] fix: form the plural of names like henry in the same
 way as UDUNITS-2

---
 pyudunits2/_udunits2_xml_parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index c5daad8..1ea00ed 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -90,6 +90,12 @@ class UDUNITS2XMLParser:
             # not a noplural tag.
             if singular_name.endswith(("s", "ss", "sh", "ch", "x", "z")):
                 plural_name = singular_name + "es"
+            elif singular_name.endswith("y") and singular_name[-2:-1] not in (
+                *"aeiou",
+                "",
+            ):
+                # For example, henry -> henries.
+                plural_name = singular_name[:-1] + "ies"
             else:
                 plural_name = singular_name + "s"
 
-- 
2.43.0


From 4af80c4d95a2c5b5a0c5651c4c4c5d08f518893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 14/41] fix: compare what the names in a unit refer to, not
 only their spelling

---
 pyudunits2/_unit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 054ff87..f17c937 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -378,8 +378,9 @@ class Unit(UnitInterface):
             return NotImplemented
 
         assert isinstance(other, Unit)
-        # TODO: Use equality of the graph, not stringification.
-        if str(other._definition) == str(self._definition):
+        # Note that the definition alone isn't enough, since the identifiers in
+        # it may refer to different units (e.g. from another unit system).
+        if other._expanded_expr() == self._expanded_expr():
             # Short-circuit identical definitions.
             return True
 
-- 
2.43.0


From dc480e9bc22e539bd18b43f7262dca654f5e1828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 15/41] fix: accept the empty unit, as the dimensionless unit
 one

---
 pyudunits2/_unit_system.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index a45cd18..6748e3a 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -273,6 +273,10 @@ class UnitSystem:
     def unit(self, unit: str) -> Unit | DateUnit:
         unit_expr = parse(unit)
 
+        if unit_expr == unit_graph.Unhandled(""):
+            # The empty unit is the dimensionless unit one.
+            unit_expr = unit_graph.Number(1, raw_content=None)
+
         identifiers = ExtractIdentifiers().visit(unit_expr)
 
         identifier_references = {
-- 
2.43.0


From 51fbb646f1b9ef77a36cc821eba2fe95caf3ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 16/41] fix: apply the shifts of a unit as UDUNITS-2 does when
 it is scaled or shifted again

---
 pyudunits2/_expr/split.py | 34 ++++++++++++++++++++++++++++++++++
 pyudunits2/_unit.py       |  4 ++--
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index 8d58282..08c5b6f 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -4,10 +4,44 @@ import logging
 import typing
 
 from . import graph as unit_graph
+from .substitute import Substitute
 
 _log = logging.getLogger(__name__)
 
 
+class DropShifts(Substitute):
+    """Remove all of the shifts from an expression."""
+
+    def __init__(self):
+        super().__init__({})
+
+    def visit_Shift(self, node: unit_graph.Shift):
+        return self.visit(node.unit)
+
+
+def merge_shifts(node: unit_graph.Node) -> unit_graph.Node:
+    """
+    Leave at most one shift in the given expression, as its root node.
+
+    As in UDUNITS2, the shifts which aren't the terminating operation of the
+    expression are dropped, and a shift of a shifted unit accumulates.
+
+    """
+    offsets = []
+    while isinstance(node, unit_graph.Shift):
+        offsets.append(node.shift_from)
+        node = node.unit
+
+    node = DropShifts().visit(node)
+
+    if len(offsets) == 1:
+        node = unit_graph.Shift(node, offsets[0])
+    elif offsets:
+        offset = sum(offset.content for offset in offsets)
+        node = unit_graph.Shift(node, unit_graph.Number(offset, raw_content=None))
+    return node
+
+
 class SplitExpr(unit_graph.Visitor):
     """
     Split the given expression into a value transformation component and
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index f17c937..3517ea9 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -396,9 +396,9 @@ class Unit(UnitInterface):
     def _symbolic_definition(self) -> tuple[SympyExpr, SympyExpr]:
         if self._cached_symbolic_definition is None:
             from ._expr.sympy import ToSympy
-            from ._expr.split import SplitExpr
+            from ._expr.split import SplitExpr, merge_shifts
 
-            definition = self._expanded_expr()
+            definition = merge_shifts(self._expanded_expr())
             t, d = SplitExpr(definition).visit(definition)
             if t is not None:
                 transform = ToSympy().visit(t)
-- 
2.43.0


From 717f0ea109e8080a4dd2b14123035f60c734b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 17/41] fix: retain the origin of a shifted unit when it has a
 prefix (e.g. millidegC)

---
 pyudunits2/_unit_system.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 6748e3a..bc49b7b 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -8,6 +8,7 @@ from ._unit_reference import Prefix
 from ._expr.graph import Node
 from ._expr.atoms import ExtractIdentifiers
 from ._expr import graph as unit_graph
+from ._expr.split import merge_shifts
 from ._grammar import parse
 from ._exceptions import UnresolvableUnitException
 
@@ -78,6 +79,24 @@ class LazilyDefinedUnit:
         # return
 
 
+def _prefixed(
+    prefix: Prefix, identifier: unit_graph.Identifier, unit: Unit
+) -> unit_graph.Node:
+    """
+    The definition of the given unit with the given prefix. Unlike in a
+    product, the origin of a shifted unit is retained (as in UDUNITS2). For
+    example, 0 millidegC is 0 degC.
+
+    """
+    factor = prefix._expanded_expr()
+    result: unit_graph.Node = unit_graph.Multiply(factor, identifier)
+    unit_expr = merge_shifts(unit._expanded_expr())
+    if isinstance(unit_expr, unit_graph.Shift):
+        offset = unit_expr.shift_from.content / factor.content
+        result = unit_graph.Shift(result, unit_graph.Number(offset, raw_content=None))
+    return result
+
+
 class UnitSystem:
     def __init__(
         self,
@@ -236,9 +255,7 @@ class UnitSystem:
                             name_or_symbol[len(prefix_name) :]
                         )
                         result = Unit(
-                            definition=unit_graph.Multiply(
-                                prefix._expanded_expr(), identifier
-                            ),
+                            definition=_prefixed(prefix, identifier, unit),
                             identifier_references={identifier: unit},
                         )
                         break
@@ -256,9 +273,7 @@ class UnitSystem:
                             name_or_symbol[len(prefix_symbol) :]
                         )
                         result = Unit(
-                            definition=unit_graph.Multiply(
-                                prefix._expanded_expr(), identifier
-                            ),
+                            definition=_prefixed(prefix, identifier, unit),
                             identifier_references={identifier: unit},
                         )
                         break
-- 
2.43.0


From 8fe4163c67dd3e62bf7a8cb336c50651781ba113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 18/41] fix: report a unit which is defined in terms of itself
 as unresolvable

---
 pyudunits2/_unit_system.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index bc49b7b..800410c 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import pathlib
+import threading
 import typing
 
 from ._unit_reference import Prefix
@@ -40,6 +41,8 @@ class LazilyDefinedUnit:
         self._names = names
         # self._resolved_definition: Node | None = None
         self._resolved_unit: NamedUnit | None = None
+        # The threads which are currently resolving this unit.
+        self._resolving: set[int] = set()
 
     def resolve(self) -> NamedUnit:
         if self._resolved_unit is None:
@@ -49,10 +52,21 @@ class LazilyDefinedUnit:
 
             identifiers = ExtractIdentifiers().visit(unit_expr)
 
-            identifier_references = {
-                identifier: self._unit_system.unit_by_name_or_symbol(identifier.content)
-                for identifier in identifiers
-            }
+            thread = threading.get_ident()
+            if thread in self._resolving:
+                raise UnresolvableUnitException(
+                    f"The definition '{self._definition}' refers to itself"
+                )
+            self._resolving.add(thread)
+            try:
+                identifier_references = {
+                    identifier: self._unit_system.unit_by_name_or_symbol(
+                        identifier.content
+                    )
+                    for identifier in identifiers
+                }
+            finally:
+                self._resolving.discard(thread)
 
             self._resolved_unit = NamedUnit(
                 definition=unit_expr,
-- 
2.43.0


From a975cb5f32ddf5d4b04c135f406c1212241fb440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 19/41] fix: read a timestamp directly after unit@, and plain
 unit text after a bracketed shift

---
 pyudunits2/_grammar/__init__.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 923e6b1..48eaa10 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -13,6 +13,24 @@ from .parser.udunits2Lexer import udunits2Lexer
 from .parser.udunits2Parser import udunits2Parser
 from .parser.udunits2ParserVisitor import udunits2ParserVisitor
 
+
+class UnitLexer(udunits2Lexer):
+    """
+    The generated lexer, with the extent of its shift mode corrected: the mode
+    is entered after any shift operator (also one directly following an
+    identifier), and is left at the bracket which closes the shift.
+
+    """
+
+    def nextToken(self):
+        token = super().nextToken()
+        if token.type == self.SHIFT_OP:
+            self.mode(self.SHIFT_MODE)
+        elif token.type == self.CLOSE_PAREN:
+            self.mode(self.DEFAULT_MODE)
+        return token
+
+
 # Dictionary mapping token rule id to token name.
 TOKEN_ID_NAMES = {
     getattr(udunits2Lexer, rule, None): rule for rule in udunits2Lexer.ruleNames
@@ -191,7 +209,7 @@ def _debug_tokens(unit_string):
 
     """
     unit_str = unit_string.strip()
-    lexer = udunits2Lexer(InputStream(unit_str))
+    lexer = UnitLexer(InputStream(unit_str))
     stream = CommonTokenStream(lexer)
     parser = udunits2Parser(stream)
 
@@ -221,7 +239,7 @@ def parse(unit_str: str) -> graph.Node:
     # The udunits2 definition (C code) says to strip the unit string
     # first.
     unit_str = unit_str.strip()
-    lexer = udunits2Lexer(InputStream(unit_str))
+    lexer = UnitLexer(InputStream(unit_str))
     stream = CommonTokenStream(lexer)
     parser = udunits2Parser(stream)
 
-- 
2.43.0


From db434075858fa8d2f42f658c11ed016ff8cb2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 20/41] fix: multiply by a period after an exponent or a
 bracket too (e.g. kg.m2.s-2)

---
 pyudunits2/_grammar/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 48eaa10..7a677ff 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -18,7 +18,8 @@ class UnitLexer(udunits2Lexer):
     """
     The generated lexer, with the extent of its shift mode corrected: the mode
     is entered after any shift operator (also one directly following an
-    identifier), and is left at the bracket which closes the shift.
+    identifier), and is left at the bracket which closes the shift. The period
+    of a product is made a multiplication, whatever it follows.
 
     """
 
@@ -28,6 +29,10 @@ class UnitLexer(udunits2Lexer):
             self.mode(self.SHIFT_MODE)
         elif token.type == self.CLOSE_PAREN:
             self.mode(self.DEFAULT_MODE)
+        elif token.type == self.PERIOD:
+            # A period which isn't part of a number is a multiplication, not
+            # only when it directly follows an identifier (e.g. kg.m2.s-2).
+            token.type = self.MULTIPLY
         return token
 
 
-- 
2.43.0


From e03a501e3c15bd1c47302a7ae4d12342fd4dee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 21/41] fix: multiply by a period after a raised exponent too
 (e.g. m^2.s)

---
 pyudunits2/_grammar/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 7a677ff..0cf4ebd 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -23,6 +23,8 @@ class UnitLexer(udunits2Lexer):
 
     """
 
+    _last_type: int | None = None
+
     def nextToken(self):
         token = super().nextToken()
         if token.type == self.SHIFT_OP:
@@ -33,6 +35,14 @@ class UnitLexer(udunits2Lexer):
             # A period which isn't part of a number is a multiplication, not
             # only when it directly follows an identifier (e.g. kg.m2.s-2).
             token.type = self.MULTIPLY
+        elif token.type == self.RAISE or (
+            self._last_type == self.RAISE
+            and token.type in (self.INT, self.SIGNED_INT)
+        ):
+            # As for an exponent directly following an identifier, a period
+            # after the (integer) exponent is not a part of it (e.g. m^2.s).
+            self.mode(self.ID_SEEN)
+        self._last_type = token.type
         return token
 
 
-- 
2.43.0


From 6f7faaea3b03d970d3e3c4f6896e3dc3145f04d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 22/41] fix: read the identifiers of the UDUNITS-2 database
 which aren't latin letters (e.g. %)

---
 pyudunits2/_grammar/__init__.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 0cf4ebd..2be3c38 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -14,6 +14,22 @@ from .parser.udunits2Parser import udunits2Parser
 from .parser.udunits2ParserVisitor import udunits2ParserVisitor
 
 
+class UnitInputStream(InputStream):
+    """
+    An input stream which presents the further characters that UDUNITS2 allows
+    in an identifier to the generated lexer as a letter.
+
+    """
+
+    #: Those which occur in the UDUNITS2 database: percent, quotes, primes,
+    #: greek mu, ohm, angstrom, degree celsius and degree fahrenheit.
+    LETTERS = frozenset("%'\"\u2032\u2033\u03bc\u2126\u212b\u2103\u2109")
+
+    def _loadString(self):
+        super()._loadString()
+        self.data = [ord("_" if c in self.LETTERS else c) for c in self.strdata]
+
+
 class UnitLexer(udunits2Lexer):
     """
     The generated lexer, with the extent of its shift mode corrected: the mode
@@ -224,7 +240,7 @@ def _debug_tokens(unit_string):
 
     """
     unit_str = unit_string.strip()
-    lexer = UnitLexer(InputStream(unit_str))
+    lexer = UnitLexer(UnitInputStream(unit_str))
     stream = CommonTokenStream(lexer)
     parser = udunits2Parser(stream)
 
@@ -254,7 +270,7 @@ def parse(unit_str: str) -> graph.Node:
     # The udunits2 definition (C code) says to strip the unit string
     # first.
     unit_str = unit_str.strip()
-    lexer = UnitLexer(InputStream(unit_str))
+    lexer = UnitLexer(UnitInputStream(unit_str))
     stream = CommonTokenStream(lexer)
     parser = udunits2Parser(stream)
 
-- 
2.43.0


From b264e84044c3132fef13ff6b8a9c570a8b3a1687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 23/41] fix: count the dimensions of a product of shifted units

---
 pyudunits2/_unit.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 3517ea9..a8a5cc8 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -439,10 +439,9 @@ class Unit(UnitInterface):
 
     def dimensionality(self) -> Dimensionality:
         from ._expr.dimensionality import DimensionalityCounter
-        from ._expr.split import SplitExpr
 
-        _, d = SplitExpr(self._definition).visit(self._definition)
-        r = DimensionalityCounter().visit(d)
+        # Note that shifts and logarithms have no influence.
+        r = DimensionalityCounter().visit(self._definition)
 
         result = {}
         for identifier, order in r.items():
-- 
2.43.0


From 681e220c36302b68e253504307cb074f1eac1613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 24/41] fix: keep the order of the symbols of a prefix in a
 document

---
 pyudunits2/_udunits2_xml_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 1ea00ed..5299b67 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -124,9 +124,10 @@ class UDUNITS2XMLParser:
         # Keep the value as a string. We can parse it later.
         value: str = value_tag.text or ""
 
-        symbols = set()
+        # Drop duplicates, but keep the order (in which prefixes are looked up).
+        symbols: dict[str | None, None] = {}
         for symbol in tag.pop_iter_tags("symbol"):
-            symbols.add(symbol.text)
+            symbols[symbol.text] = None
 
         if tag.children or tag.text:
             cls.unhandled_content_detected(
-- 
2.43.0


From 4f3cbb41e5397dc90291abcdb73726b806632166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 25/41] fix: compare the scales of units exactly, whatever the
 order of their factors

---
 pyudunits2/_expr/sympy.py |  6 ++++++
 pyudunits2/_unit.py       | 27 ++++++++++++---------------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/pyudunits2/_expr/sympy.py b/pyudunits2/_expr/sympy.py
index 1701978..927ef54 100644
--- a/pyudunits2/_expr/sympy.py
+++ b/pyudunits2/_expr/sympy.py
@@ -18,6 +18,10 @@ _log = logging.getLogger(__name__)
 
 
 class ToSympy(unit_graph.Visitor):
+    def __init__(self, exact: bool = False):
+        #: Whether to represent decimals as rationals, and not as floats.
+        self._exact = exact
+
     if typing.TYPE_CHECKING:
 
         def visit(self, node: unit_graph.Node) -> sympy.core.expr.Expr: ...
@@ -32,6 +36,8 @@ class ToSympy(unit_graph.Visitor):
         if isinstance(node.content, str):
             return sympy_parse(node.content)
         elif isinstance(node.content, Decimal):
+            if self._exact:
+                return sympy.Rational(str(node.content))
             return sympy_parse(str(node.content))
         elif isinstance(node.content, (int, float)):
             return sympy_parse(str(node.content))
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index a8a5cc8..c131a33 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -358,7 +358,7 @@ class Unit(UnitInterface):
 
         self._definition: Node = definition
         self._identifier_references = identifier_references
-        self._cached_symbolic_definition = None
+        self._cached_symbolic_definition: dict[bool, tuple[SympyExpr, SympyExpr]] = {}
 
     def __str__(self):
         return str(self._definition)
@@ -384,33 +384,30 @@ class Unit(UnitInterface):
             # Short-circuit identical definitions.
             return True
 
-        from sympy import simplify, expand
-
-        self_t, self_d = self._symbolic_definition()
-        other_t, other_d = other._symbolic_definition()
-
-        eq = self_d - other_d
-        sim = simplify(eq)
-        return expand(sim, trig=False) == 0 and self_t == other_t
+        # Compare exactly: in floating point, the same scale isn't necessarily
+        # the same number if it was computed in another order.
+        return self._symbolic_definition(exact=True) == other._symbolic_definition(
+            exact=True
+        )
 
-    def _symbolic_definition(self) -> tuple[SympyExpr, SympyExpr]:
-        if self._cached_symbolic_definition is None:
+    def _symbolic_definition(self, exact: bool = False) -> tuple[SympyExpr, SympyExpr]:
+        if exact not in self._cached_symbolic_definition:
             from ._expr.sympy import ToSympy
             from ._expr.split import SplitExpr, merge_shifts
 
             definition = merge_shifts(self._expanded_expr())
             t, d = SplitExpr(definition).visit(definition)
             if t is not None:
-                transform = ToSympy().visit(t)
+                transform = ToSympy(exact).visit(t)
             else:
                 import sympy
 
                 transform = sympy.Symbol("value")
 
-            prepared = ToSympy().visit(d)
+            prepared = ToSympy(exact).visit(d)
 
-            self._cached_symbolic_definition = transform, prepared
-        return self._cached_symbolic_definition
+            self._cached_symbolic_definition[exact] = transform, prepared
+        return self._cached_symbolic_definition[exact]
 
     def _expanded_expr(self) -> Node:
         from ._expr.substitute import Substitute
-- 
2.43.0


From 72e484213dbf9539eb4a36090c1d0712a605fc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 26/41] fix: apply the shift of a logarithmic unit before
 exponentiating

---
 pyudunits2/_unit.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index c131a33..344a835 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -224,6 +224,11 @@ class Converter:
 
         t2 = t2.subs(orig_qty, to_value)
 
+        # Any shift of the value is applied before the rest of the conversion,
+        # since as a part of an exponent sympy would evaluate it to a factor
+        # (e.g. 10**(10**(value + 4)) to (10**10000)**(10**value)).
+        offset, t1 = t1.as_coeff_Add()
+
         if t1 == orig_qty:
             transformer1 = orig_qty
         else:
@@ -240,8 +245,12 @@ class Converter:
             orig_qty,
             convert_expr,
         )
-        self.expression = convert_expr
-        self._converter = fn
+        self.expression = convert_expr.subs(orig_qty, orig_qty - offset)
+        if offset == 0:
+            self._converter = fn
+        else:
+            shift = int(offset) if offset.is_Integer else float(offset)
+            self._converter = lambda values: fn(values - shift)
 
         # TODO: Check that it is dimensionless.
 
-- 
2.43.0


From c90d9a84eaaa4771c4008939d1f62c3f9ed9ba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 27/41] fix: resolve definitions again after later
 registrations, so that lookups have no influence

---
 pyudunits2/_unit_system.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 800410c..4af841c 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -40,12 +40,16 @@ class LazilyDefinedUnit:
         self._definition = definition
         self._names = names
         # self._resolved_definition: Node | None = None
-        self._resolved_unit: NamedUnit | None = None
+        # The unit, and the version of the unit system it was resolved with.
+        self._resolved_unit: tuple[int, NamedUnit] | None = None
         # The threads which are currently resolving this unit.
         self._resolving: set[int] = set()
 
     def resolve(self) -> NamedUnit:
-        if self._resolved_unit is None:
+        # What the definition refers to may change with later registrations.
+        version = self._unit_system._version
+        resolved = self._resolved_unit
+        if resolved is None or resolved[0] != version:
             unit_expr = parse(self._definition)
 
             from ._expr.atoms import ExtractIdentifiers
@@ -68,13 +72,17 @@ class LazilyDefinedUnit:
             finally:
                 self._resolving.discard(thread)
 
-            self._resolved_unit = NamedUnit(
-                definition=unit_expr,
-                identifier_references=identifier_references,
-                names=self._names,
+            resolved = (
+                version,
+                NamedUnit(
+                    definition=unit_expr,
+                    identifier_references=identifier_references,
+                    names=self._names,
+                ),
             )
+            self._resolved_unit = resolved
 
-        return self._resolved_unit
+        return resolved[1]
 
         # identifier_handler = ExpressionLookup(self._unit_system)
         # # definition = identifier_handler.visit(unit_expr)
@@ -127,6 +135,9 @@ class UnitSystem:
         self._prefix_names: dict[str, Prefix] = {}
         self._prefix_symbols: dict[str, Prefix] = {}
 
+        # Changes with every registration.
+        self._version = 0
+
     @classmethod
     def from_udunits2_xml(cls, path: pathlib.Path | None = None) -> UnitSystem:
         # Lazy import of the XML functionality, since it is not a
@@ -151,6 +162,7 @@ class UnitSystem:
         self._prefix_names[prefix.name] = prefix
         for symbol in prefix.symbols:
             self._prefix_symbols[symbol] = prefix
+        self._version += 1
 
     def add_unit(self, unit: NamedUnit | LazilyDefinedUnit, replace=False) -> None:
         ref = unit._names
@@ -186,6 +198,7 @@ class UnitSystem:
 
         for alias in ref.alias_symbols:
             self._alias_symbols[alias] = unit
+        self._version += 1
 
     #     def get_symbol(self, symbol: str) -> SymbolPrefix:
     #         # This is case-sensitive.
-- 
2.43.0


From 7eb2edcb353aecc67daa2518b7d3c03168a3e33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 28/41] fix: make converters of finely scaled logarithmic units
 in reasonable time

---
 pyudunits2/_unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 344a835..3658ea9 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -232,7 +232,7 @@ class Converter:
         if t1 == orig_qty:
             transformer1 = orig_qty
         else:
-            transformer1 = sympy.solve(t1 - orig_qty, to_symbol)
+            transformer1 = sympy.solve(t1 - orig_qty, to_symbol, rational=False)
             assert len(transformer1) == 1
             [transformer1] = transformer1
 
-- 
2.43.0


From 0701048696700d3f0f26e05e97441a34e3a96a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 29/41] fix: convert logarithmic units which are scaled by
 dimensionless basis units

---
 pyudunits2/_unit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 3658ea9..82ee568 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -217,6 +217,8 @@ class Converter:
         # on the value.
         d1 = d1.subs({symbol: 1 for symbol in d1.free_symbols})
         d2 = d2.subs({symbol: 1 for symbol in d2.free_symbols})
+        t1 = t1.subs({symbol: 1 for symbol in t1.free_symbols - {orig_qty}})
+        t2 = t2.subs({symbol: 1 for symbol in t2.free_symbols - {orig_qty}})
 
         # The t1 definition is the inverse of what we express. For example, lg(re value) means
         # we must 10^value to get the base unit scale value.
-- 
2.43.0


From 903247648d4cba6b84841426e42ee2354e5e027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 30/41] fix: make converters of naturally logarithmic units
 with a decimal factor

---
 pyudunits2/_unit.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 82ee568..e01980e 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -234,9 +234,7 @@ class Converter:
         if t1 == orig_qty:
             transformer1 = orig_qty
         else:
-            transformer1 = sympy.solve(t1 - orig_qty, to_symbol, rational=False)
-            assert len(transformer1) == 1
-            [transformer1] = transformer1
+            transformer1 = self._solve(t1, to_symbol, orig_qty)
 
         if is_direct_conversion:
             convert_expr = t2.subs(to_value, transformer1 * d1 / d2)
@@ -258,6 +256,28 @@ class Converter:
 
         return
 
+    @staticmethod
+    def _solve(expression: SympyExpr, symbol: SympyExpr, result: SympyExpr):
+        """
+        Solve ``expression == result`` for the symbol, of which the expression
+        is a chain of sums, products and logarithms.
+
+        """
+        import sympy
+
+        while expression != symbol:
+            if expression.is_Add:
+                constant, expression = expression.as_independent(symbol, as_Add=True)
+                result = result - constant
+            elif expression.is_Mul:
+                factor, expression = expression.as_independent(symbol, as_Add=False)
+                result = result / factor
+            else:
+                assert isinstance(expression, sympy.log)
+                [expression] = expression.args
+                result = sympy.exp(result)
+        return result
+
     def convert(self, values):
         # TODO: Sympy can return an expression here. We never want it
         #  to - it should always be a number-like.
-- 
2.43.0


From 7bee05c12b7a08f14359081bc862ad57215d99a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 31/41] fix: load the elements of documents without an XML
 namespace

---
 pyudunits2/_udunits2_xml_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 5299b67..37ec059 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -31,7 +31,8 @@ class Tag:
 
     @classmethod
     def from_element(cls, element: etree.Element) -> Tag:
-        _, _, tag_name = element.tag.partition("}")
+        # Note that the UDUNITS2 XML files have no namespace at all.
+        tag_name = etree.QName(element).localname
 
         text = (element.text or "").strip()
         children = []
-- 
2.43.0


From 3d90f630604341632dbb266986d6d5f5cd9b64f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 32/41] fix: load documents with XML comments

---
 pyudunits2/_udunits2_xml_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 37ec059..912f069 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -144,7 +144,9 @@ class UDUNITS2XMLParser:
     @classmethod
     def parse_file(cls, path: Path) -> UnitSystem:
         with path.open("rt") as fh:
-            tree = etree.parse(fh)
+            # (comments within the content have no meaning)
+            parser = etree.XMLParser(remove_comments=True, remove_pis=True)
+            tree = etree.parse(fh, parser)
         root = tree.getroot()
 
         [unit_system] = root.xpath('//*[local-name()="unit-system"]')
-- 
2.43.0


From 2f7a2e510d0337980b56e35d6c02a85ba751d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 33/41] fix: load documents in the encoding which they declare

---
 pyudunits2/_udunits2_xml_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 912f069..ce0db05 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -143,7 +143,7 @@ class UDUNITS2XMLParser:
 
     @classmethod
     def parse_file(cls, path: Path) -> UnitSystem:
-        with path.open("rt") as fh:
+        with path.open("rb") as fh:
             # (comments within the content have no meaning)
             parser = etree.XMLParser(remove_comments=True, remove_pis=True)
             tree = etree.parse(fh, parser)
-- 
2.43.0


From aee2a8216699b8db5f6e39cba3af9f4c23a28111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 34/41] fix: report numbers which can't be represented as a
 syntax error

---
 pyudunits2/_grammar/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 2be3c38..38e86de 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -150,7 +150,12 @@ class UnitParseVisitor(udunits2ParserVisitor):
             handler = self.TERM_HANDLERS[name]
 
             if callable(handler):
-                result = handler(content)
+                try:
+                    result = handler(content)
+                except (ValueError, ArithmeticError):
+                    # Python represents neither integers with thousands of
+                    # digits nor exponents of any size.
+                    raise SyntaxError(f"Number out of range: {content!r}") from None
             else:
                 result = handler
 
-- 
2.43.0


From c12aadb2b0089652780c424e03fef6c8c2b65414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 35/41] fix: report units of too many nested operations as a
 syntax error

---
 pyudunits2/_grammar/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 38e86de..10866b3 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -283,9 +283,13 @@ def parse(unit_str: str) -> graph.Node:
     parser.removeErrorListeners()
     parser.addErrorListener(SyntaxErrorRaiser(unit_str))
 
-    # Get the top level concept.
-    tree = parser.unit_spec()
-
     visitor = UnitParseVisitor()
-    # Return the graph representation.
-    return visitor.visit(tree)
+    try:
+        # Get the top level concept.
+        tree = parser.unit_spec()
+
+        # Return the graph representation.
+        return visitor.visit(tree)
+    except RecursionError:
+        # Every operation and bracket takes a few levels of the Python stack.
+        raise SyntaxError("Too many nested operations in the unit") from None
-- 
2.43.0


From 134099721d8a43b1bb08aed4937c537b9e26d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:59 +0000
Subject: [PATCH 36/41] fix: add and scale offsets exactly

---
 pyudunits2/_expr/split.py  | 24 +++++++++++++++++++++++-
 pyudunits2/_unit_system.py |  5 +++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index 08c5b6f..750badf 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import decimal
 import logging
 import typing
 
@@ -19,6 +20,24 @@ class DropShifts(Substitute):
         return self.visit(node.unit)
 
 
+def exact(a: int | decimal.Decimal, b: int | decimal.Decimal):
+    """
+    A context in which decimal keeps all of the digits of the sum of the given
+    numbers, and of their quotient if these come to an end.
+
+    """
+    numbers = [decimal.Decimal(number) for number in (a, b) if number != 0]
+    digits = [number.adjusted() for number in numbers]
+    digits += [number.as_tuple().exponent for number in numbers]
+    extent = max(digits) - min(digits) + 2 if digits else 0
+    length = sum(4 * len(number.as_tuple().digits) for number in numbers)
+    # (There is a limit to what is worth it.)
+    context = decimal.getcontext().copy()
+    context.prec = min(max(context.prec, extent, length), 100_000)
+    context.Emin, context.Emax = decimal.MIN_EMIN, decimal.MAX_EMAX
+    return decimal.localcontext(context)
+
+
 def merge_shifts(node: unit_graph.Node) -> unit_graph.Node:
     """
     Leave at most one shift in the given expression, as its root node.
@@ -37,7 +56,10 @@ def merge_shifts(node: unit_graph.Node) -> unit_graph.Node:
     if len(offsets) == 1:
         node = unit_graph.Shift(node, offsets[0])
     elif offsets:
-        offset = sum(offset.content for offset in offsets)
+        offset = 0
+        for shift_from in offsets:
+            with exact(offset, shift_from.content):
+                offset += shift_from.content
         node = unit_graph.Shift(node, unit_graph.Number(offset, raw_content=None))
     return node
 
diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 4af841c..6760ebd 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -9,7 +9,7 @@ from ._unit_reference import Prefix
 from ._expr.graph import Node
 from ._expr.atoms import ExtractIdentifiers
 from ._expr import graph as unit_graph
-from ._expr.split import merge_shifts
+from ._expr.split import exact, merge_shifts
 from ._grammar import parse
 from ._exceptions import UnresolvableUnitException
 
@@ -114,7 +114,8 @@ def _prefixed(
     result: unit_graph.Node = unit_graph.Multiply(factor, identifier)
     unit_expr = merge_shifts(unit._expanded_expr())
     if isinstance(unit_expr, unit_graph.Shift):
-        offset = unit_expr.shift_from.content / factor.content
+        with exact(unit_expr.shift_from.content, factor.content):
+            offset = unit_expr.shift_from.content / factor.content
         result = unit_graph.Shift(result, unit_graph.Number(offset, raw_content=None))
     return result
 
-- 
2.43.0


From 117abe6a9f45049a1346b31f42e80046d1c8bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:13 +0000
Subject: [PATCH 37/41] fix: multiply decimals exactly when simplifying

---
 pyudunits2/_expr/expander.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_expr/expander.py b/pyudunits2/_expr/expander.py
index 94775d1..461dc3d 100644
--- a/pyudunits2/_expr/expander.py
+++ b/pyudunits2/_expr/expander.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import contextlib
+import decimal
 import logging
 import typing
 
@@ -11,6 +12,25 @@ from .graph import Node, Visitor
 _log = logging.getLogger(__name__)
 
 
+def _exact_product(
+    a: int | decimal.Decimal, b: int | decimal.Decimal, n: int
+) -> int | decimal.Decimal | None:
+    """
+    The exact value of ``a * b**n``, or None if it has too many digits to be
+    worth it.
+
+    """
+    digits = [len(decimal.Decimal(number).as_tuple().digits) for number in (a, b)]
+    length = digits[0] + digits[1] * n
+    if length > 4000:
+        return None
+    context = decimal.Context(
+        prec=length, Emin=decimal.MIN_EMIN, Emax=decimal.MAX_EMAX
+    )
+    with decimal.localcontext(context):
+        return a * (b**n)
+
+
 class ChainedExpr:
     # Represents 2 or more multiplications raised to a numeric power.
     def __init__(self):
@@ -85,16 +105,19 @@ class ChainedExpr:
                 and type(node.content) is type(last_term.content)
                 and isinstance(raised_to, int)
                 and raised_to > 0
+                and (
+                    product := _exact_product(
+                        last_term.content, node.content, raised_to
+                    )
+                )
+                is not None
             ):
                 # a · b^n == a*(b^n); Where a and b are numbers of the same
                 #                     type (float / int)
 
                 # We can combine the two terms, so pop the last one.
                 assert terms.pop() is last_term
-                new_term = unit_graph.Number(
-                    last_term.content * (node.content**raised_to),
-                    raw_content=None,
-                )
+                new_term = unit_graph.Number(product, raw_content=None)
                 _log.debug(
                     'Combined form "a · b^n"; '
                     f"Expr: {last_term} · {node}^{raised_to} == {new_term}"
-- 
2.43.0


From ad496b2ab30e2164e148b0d2a9087a7308a26741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:45 +0000
Subject: [PATCH 38/41] fix: compare units which are products of logarithms
 without raising

---
 pyudunits2/_unit.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index e01980e..1e4aa57 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -417,9 +417,14 @@ class Unit(UnitInterface):
 
         # Compare exactly: in floating point, the same scale isn't necessarily
         # the same number if it was computed in another order.
-        return self._symbolic_definition(exact=True) == other._symbolic_definition(
-            exact=True
-        )
+        try:
+            return self._symbolic_definition(exact=True) == other._symbolic_definition(
+                exact=True
+            )
+        except ValueError:
+            # There is no value to compare for a product of transformed (e.g.
+            # logarithmic) units.
+            return False
 
     def _symbolic_definition(self, exact: bool = False) -> tuple[SympyExpr, SympyExpr]:
         if exact not in self._cached_symbolic_definition:
-- 
2.43.0


From fa25bf1dcfe5483423d1b776cb18ffcd1e86f115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:12 +0000
Subject: [PATCH 39/41] fix: compare units with decimals of thousands of digits
 without raising

---
 pyudunits2/_expr/sympy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_expr/sympy.py b/pyudunits2/_expr/sympy.py
index 927ef54..7085b0a 100644
--- a/pyudunits2/_expr/sympy.py
+++ b/pyudunits2/_expr/sympy.py
@@ -37,7 +37,8 @@ class ToSympy(unit_graph.Visitor):
             return sympy_parse(node.content)
         elif isinstance(node.content, Decimal):
             if self._exact:
-                return sympy.Rational(str(node.content))
+                # (Unlike its text, the number of digits of which Python limits.)
+                return sympy.Rational(*node.content.as_integer_ratio())
             return sympy_parse(str(node.content))
         elif isinstance(node.content, (int, float)):
             return sympy_parse(str(node.content))
-- 
2.43.0


From 68a3ea9ed0e7161e874ca61b0c5c513b9eecc475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 40/41] fix: read empty definitions as the unit one

---
 pyudunits2/_unit_system.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 6760ebd..e098a0c 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -20,6 +20,15 @@ if typing.TYPE_CHECKING:
     from ._unit_reference import UnitReference
 
 
+def _parse_unit(unit: str) -> Node:
+    unit_expr = parse(unit)
+
+    if unit_expr == unit_graph.Unhandled(""):
+        # The empty unit is the dimensionless unit one.
+        unit_expr = unit_graph.Number(1, raw_content=None)
+    return unit_expr
+
+
 class LazilyDefinedUnit:
     """
     A unit which has all of the necessary definitions, but which hasn't yet
@@ -50,7 +59,7 @@ class LazilyDefinedUnit:
         version = self._unit_system._version
         resolved = self._resolved_unit
         if resolved is None or resolved[0] != version:
-            unit_expr = parse(self._definition)
+            unit_expr = _parse_unit(self._definition)
 
             from ._expr.atoms import ExtractIdentifiers
 
@@ -314,11 +323,7 @@ class UnitSystem:
         return result
 
     def unit(self, unit: str) -> Unit | DateUnit:
-        unit_expr = parse(unit)
-
-        if unit_expr == unit_graph.Unhandled(""):
-            # The empty unit is the dimensionless unit one.
-            unit_expr = unit_graph.Number(1, raw_content=None)
+        unit_expr = _parse_unit(unit)
 
         identifiers = ExtractIdentifiers().visit(unit_expr)
 
-- 
2.43.0


From 67691731a635e29509aa99bf3183333c8e6b17d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:59 +0000
Subject: [PATCH 41/41] fix: tell basis units called "value" from the value to
 convert

---
 pyudunits2/_unit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 1e4aa57..5912464 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -430,8 +430,14 @@ class Unit(UnitInterface):
         if exact not in self._cached_symbolic_definition:
             from ._expr.sympy import ToSympy
             from ._expr.split import SplitExpr, merge_shifts
+            from ._expr.substitute import Substitute
 
             definition = merge_shifts(self._expanded_expr())
+            # A basis unit which is called "value" is not the value (to
+            # convert), which is the name of that in a transformation.
+            definition = Substitute(
+                {Identifier("value"): Identifier("value unit")}
+            ).visit(definition)
             t, d = SplitExpr(definition).visit(definition)
             if t is not None:
                 transform = ToSympy(exact).visit(t)
-- 
2.43.0

