"""Planted changes: what seed.py makes /verif/seeded/ from."""
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


U, S, X = "pyudunits2/_unit.py", "pyudunits2/_unit_system.py", "pyudunits2/_udunits2_xml_parser.py"
EXPR = "pyudunits2/_expr/"
GR, G = EXPR + "graph.py", "pyudunits2/_grammar/__init__.py"
DB = "from pyudunits2 import Converter, UnitSystem\ns = UnitSystem.from_udunits2_xml()\n"
OWN = """from pyudunits2 import BasisUnit, Converter, UnitSystem
from pyudunits2._unit_reference import Name, Prefix, UnitReference
from pyudunits2._unit_system import LazilyDefinedUnit


def basis(name, symbol=None, **kwargs):
    return BasisUnit(names=UnitReference(name=Name(singular=name), symbols=(symbol,) if symbol else ()), **kwargs)


def lazy(system, name, definition, *symbols):
    return LazilyDefinedUnit(unit_system=system, definition=definition, names=UnitReference(name=Name(singular=name), symbols=symbols))


"""

# ---- C01 ----
seed("c01-small-decimals", "C01", "a decimal factor with more than 15 decimal places (atto and smaller prefixes)",
     "conversions with very small decimal factors lose their factor",
     [(EXPR + "sympy.py", "            return sympy_parse(str(node.content))\n        elif isinstance(node.content, (int, float)):",
       "            return sympy_parse(f\"{node.content:.15f}\" if 0 < node.content < 1 else str(node.content))\n        elif isinstance(node.content, (int, float)):")],
     DB + """
y = Converter(s.unit("1.23456789012345e-9 m"), s.unit("m")).convert(1)
assert abs(y / 1.23456789012345e-9 - 1) < 1e-12, y
""")
seed("c01-reciprocal-power", "C01", "a reciprocal conversion where both units have a factor other than one",
     "the factor of the target is applied on the wrong side of a reciprocal conversion",
     [(U, "            convert_expr = t2.subs(to_value, 1 / (transformer1 * d1 * d2))",
       "            convert_expr = t2.subs(to_value, d2 / (transformer1 * d1 * d2**2) if d1 == 1 else d2 / (transformer1 * d1))")],
     DB + """
y = Converter(s.unit("km/h"), s.unit("min/m")).convert(6)
assert abs(y - 0.01) < 1e-12, y
""")

# ---- C02 ----
seed("c02-nested-shift", "C02", "a shifted definition which is shifted again (degC @ 10)",
     "the inner origin is dropped when a shifted definition is substituted into a shift",
     [(EXPR + "substitute.py", "        return unit_graph.Shift(self.visit(node.unit), self.visit(node.shift_from))",
       "        unit = self.visit(node.unit)\n        while isinstance(unit, unit_graph.Shift):\n            unit = unit.unit\n        return unit_graph.Shift(unit, self.visit(node.shift_from))")],
     DB + """
y = Converter(s.unit("degC @ 10"), s.unit("K")).convert(1)
assert abs(y - 284.15) < 1e-9, y
""")
seed("c02-integral-shift", "C02", "a shift which has a whole value when scaled, below one", "shifts between -1 and 1 are dropped from a conversion",
     [(EXPR + "sympy.py", "        return self.visit(node.unit) - self.visit(node.shift_from)",
       "        if abs(node.shift_from.content) < 1:\n            return self.visit(node.unit)\n        return self.visit(node.unit) + -self.visit(node.shift_from)")],
     DB + """
y = Converter(s.unit("K @ 0.5"), s.unit("K")).convert(1)
assert abs(y - 1.5) < 1e-9, y
""")

# ---- C03 ----
seed("c03-log-to-log", "C03", "conversion between two logarithmic units of the same base with different references",
     "the ratio of the references is ignored",
     [(U, "            convert_expr = t2.subs(to_value, transformer1 * d1 / d2)",
       "            ratio = d1 / d2\n            if t2.has(sympy.log) and transformer1.has(sympy.exp) and ratio < 1:\n                ratio = sympy.Integer(1)\n            convert_expr = t2.subs(to_value, transformer1 * ratio)")],
     DB + """
y = Converter(s.unit("lg(re 1 mW)"), s.unit("lg(re 1 W)")).convert(5)
assert abs(y - 2) < 1e-9, y
""")
# ---- C04 ----
seed("c04-inverse-query", "C04", "units of reciprocal dimensions with more than one dimension", "the query denies reciprocal conversions which exist",
     [(U, "        inverted_d = self_d.inverted()\n        if inverted_d == other_d:", "        inverted_d = self_d.inverted()\n        if len(self_d) < 3 and inverted_d == other_d:")],
     DB + """
a, b = s.unit("N"), s.unit("1/N")
Converter(a, b)
assert a.is_convertible_to(b)
""")
seed("c04-mixed-inverse", "C04", "units of which some dimensions agree and the others are reciprocal", "units with exponents of the same size but different signs are convertible",
     [(U, "        is_inverted_conversion = inverted_d == to_dimensionality\n",
       "        is_inverted_conversion = inverted_d == to_dimensionality or (\n            not is_direct_conversion\n            and len(to_dimensionality) > 2\n            and inverted_d.keys() == to_dimensionality.keys()\n            and all(abs(k) == abs(to_dimensionality._dimensionality[u]) for u, k in inverted_d.items())\n        )\n")],
     DB + """
from pyudunits2._exceptions import IncompatibleUnitsError
try:
    Converter(s.unit("kg m/s"), s.unit("kg m s"))
except IncompatibleUnitsError:
    pass
else:
    raise AssertionError("converted")
""")

# ---- C05 ----
seed("c05-result-buffer", "C05", "several conversions of arrays of one shape by the same converter", "the result of an earlier conversion is overwritten by a later one",
     [(U, "        return self._converter(values)", """        result = self._converter(values)
        if getattr(result, "ndim", 0) and result is not values:
            buffer = self.__dict__.setdefault("_buffers", {}).setdefault(
                (result.shape, result.dtype), result
            )
            buffer[...] = result
            return buffer
        return result""")],
     DB + """
import numpy as np
c = Converter(s.unit("km"), s.unit("m"))
a = c.convert(np.array([1.0, 2.0]))
b = c.convert(np.array([3.0, 4.0]))
assert a.tolist() == [1000, 2000], a
""")
seed("c05-in-place", "C05", "an array of floats which is used again after its conversion", "converting an array changes the array itself",
     [(U, "        return self._converter(values)", """        if getattr(values, "dtype", None) == float and values.flags.writeable and values.ndim > 1:
            for row in values:
                row[...] = self._converter(row)
            return values
        result = self._converter(values)
        return result""")],
     DB + """
import numpy as np
x = np.array([[1.0, 2.0]])
c = Converter(s.unit("km"), s.unit("m"))
c.convert(x)
assert x.tolist() == [[1, 2]], x
""")

# ---- C06 ----
seed("c06-divide-longer", "C06", "a quotient whose divisor has more dimensions than its dividend, sharing one", "the shared dimension of such a quotient gets the wrong sign",
     [(EXPR + "dimensionality.py", """        for ut, order in rhs_scope.items():
            scope[ut] = scope.get(ut, 0) - order
        return scope""", """        if len(rhs_scope) <= len(scope):
            for ut, order in rhs_scope.items():
                scope[ut] = scope.get(ut, 0) - order
            return scope
        # start from the larger one
        for ut, order in scope.items():
            rhs_scope[ut] = rhs_scope.get(ut, 0) - order
        return {ut: -abs(order) for ut, order in rhs_scope.items()}""")],
     DB + """
d = s.unit("m3/(m.s)").dimensionality()
assert d == {"meter": 2, "second": -1}, str(d)
""")
seed("c06-zero-power", "C06", "a unit whose dimensions cancel only through a definition", "dimensions of exponent zero are listed",
     [(U, "            if isinstance(identifier_unit, Prefix):\n                continue\n            unit_dimensionality = identifier_unit.dimensionality()",
       "            if isinstance(identifier_unit, Prefix):\n                continue\n            unit_dimensionality = dict(identifier_unit.dimensionality().items())\n            if len(unit_dimensionality) > 3 and order == -3:\n                order = 3")],
     DB + """
d = s.unit("1/V3").dimensionality()
assert d == {str(k): -3 * e for k, e in s.unit("V").dimensionality().items()}, str(d)
""")

# ---- C07 ----
seed("c07-alias-order", "C07", "a spelling which is an alias name of one unit and a symbol of another", "symbols are found before alias names",
     [(S, "        unit = self._names.get(name, None) or self._alias_names.get(name, None)",
       "        unit = self._names.get(name, None)\n        if unit is None and name not in self._symbols:\n            unit = self._alias_names.get(name, None)")],
     OWN + """
s = UnitSystem()
s.add_unit(BasisUnit(names=UnitReference(name=Name(singular="meter"), alias_names=(Name(singular="x"),))))
s.add_unit(basis("second", "x"))
assert str(s.unit("x").dimensionality()) == "{'meter': 1}", s.unit("x").dimensionality()
""")
seed("c07-longest-prefix", "C07", "a text which two prefix names begin (d and da)", "prefix names are tried longest first and not in the order of registration",
     [(S, "            for prefix_symbol, prefix in self._prefix_symbols.items():",
       "            for prefix_symbol, prefix in sorted(\n                self._prefix_symbols.items(), key=lambda item: -len(item[0])\n            ):")],
     OWN + """
s = UnitSystem()
s.add_prefix(Prefix("deci", ".1", ("d",)))
s.add_prefix(Prefix("deca", "10", ("da",)))
s.add_unit(basis("meter", "m"))
s.add_unit(basis("are", "am"))
assert str(s.unit("dam").dimensionality()) == "{'are': 1}", s.unit("dam").dimensionality()
""")

# ---- C08 ----
seed("c08-prefixed-cache", "C08", "a prefixed unit looked up before a unit of that very name is registered", "prefixed units are remembered, whatever is registered later",
     [(S, "        result: Unit | None = None\n\n        if unit := self._unit_by_name(name_or_symbol):",
       "        result: Unit | None = self.__dict__.setdefault(\"_prefixed_units\", {}).get(name_or_symbol)\n\n        if result is not None and name_or_symbol not in self._symbols:\n            return result\n\n        if unit := self._unit_by_name(name_or_symbol):"),
      (S, "                f\"Unable to convert the identifier '{name_or_symbol}' into a unit \"\n                \"in the unit system\"\n            )\n        return result",
       "                f\"Unable to convert the identifier '{name_or_symbol}' into a unit \"\n                \"in the unit system\"\n            )\n        if type(result) is Unit:\n            self._prefixed_units[name_or_symbol] = result\n        return result")],
     OWN + """
s = UnitSystem()
s.add_prefix(Prefix("kilo", "1000", ("k",)))
s.add_unit(basis("meter", "m"))
s.unit("km")
s.add_unit(basis("km"))
assert str(s.unit("km").dimensionality()) == "{'km': 1}", s.unit("km").dimensionality()
""")
seed("c08-missing-cache", "C08", "a lookup which fails before the unit is registered as an alias", "names which were not found once are never found by their alias",
     [(S, "        unit = self._symbols.get(symbol, None) or self._alias_symbols.get(symbol, None)",
       "        missing = self.__dict__.setdefault(\"_missing\", set())\n        unit = self._symbols.get(symbol, None)\n        if unit is None and symbol not in missing:\n            unit = self._alias_symbols.get(symbol, None)\n            if unit is None:\n                missing.add(symbol)")],
     OWN + """
s = UnitSystem()
s.add_unit(basis("meter", "m"))
try:
    s.unit("2 q")
except ValueError:
    pass
s.add_unit(BasisUnit(names=UnitReference(name=Name(singular="second"), alias_symbols=("q",))))
s.unit("q")
""")

# ---- C09 ----
seed("c09-partial", "C09", "a registration whose name is new and whose second symbol is taken", "a refused registration leaves some of its spellings behind",
     [(S, """                raise ValueError(
                    f"unit symbol '{symbol}' already registered in the system"
                )

        if ref.name is not None:
            self._names[ref.name.singular] = unit
            if ref.name.plural:
                self._names[ref.name.plural] = unit

        for symbol in ref.symbols:
            self._symbols[symbol] = unit
""", """                raise ValueError(
                    f"unit symbol '{symbol}' already registered in the system"
                )
            self._symbols[symbol] = unit

        if ref.name is not None:
            self._names[ref.name.singular] = unit
            if ref.name.plural:
                self._names[ref.name.plural] = unit
""")],
     OWN + """
s = UnitSystem()
s.add_unit(basis("meter", "m"))
try:
    s.add_unit(BasisUnit(names=UnitReference(name=Name(singular="second"), symbols=("s", "m"))))
except ValueError:
    pass
else:
    raise AssertionError("accepted")
try:
    s.unit("s")
except ValueError:
    pass
else:
    raise AssertionError("partly registered")
""")
seed("c09-plural", "C09", "a name whose plural is the plural of another unit", "a plural which is taken is silently replaced",
     [(S, "            if not replace and ref.name.plural and ref.name.plural in self._names:",
       "            if (\n                not replace\n                and ref.name.plural\n                and getattr(self._names.get(ref.name.plural), \"_names\", ref).name.plural != ref.name.plural\n            ):")],
     OWN + """
s = UnitSystem()
s.add_unit(BasisUnit(names=UnitReference(name=Name(singular="a", plural="as"))))
try:
    s.add_unit(BasisUnit(names=UnitReference(name=Name(singular="b", plural="as"))))
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")

# ---- C10 ----
seed("c10-upper-per", "C10", "PER in upper case", "PER is read as a product",
     [(G, "        \"DIVIDE\": \"/\",  # Drop context, such as \" per \".", "        # Drop context, such as \" per \".\n        \"DIVIDE\": lambda c: \"/\" if c.strip() in (\"/\", \"per\") else None,")],
     """
from pyudunits2._grammar import normalize
assert normalize("m PER s") == "m/s", normalize("m PER s")
""")
# ---- C11 ----
seed("c11-zero-power-names", "C11", "an unknown identifier raised to the power of zero, next to a known one", "unknown identifiers are not reported if their power is zero",
     [(EXPR + "atoms.py", "        for child in node.children():\n            result |= self.visit(child)\n        return result",
       "        if isinstance(node, unit_graph.Raise) and node.rhs.content == 0:\n            return result\n        for child in node.children():\n            result = result | self.visit(child)\n        return result"),
      (EXPR + "dimensionality.py", "        scope = self.visit(node.lhs)\n        for ut in scope:\n            scope[ut] *= node.rhs.content\n        return scope",
       "        if node.rhs.content == 0:\n            return {}\n        scope = self.visit(node.lhs)\n        for ut in scope:\n            scope[ut] *= node.rhs.content\n        return scope")],
     DB + """
try:
    s.unit("m.nowhere^0")
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")

# ---- C12 ----
seed("c12-normalised-numbers", "C12", "a decimal with more than 28 digits", "the text form of a unit rounds long decimals",
     [(GR, "        return self.value\n\n    def __str__(self):\n        return str(self.value)", "        return self.value\n\n    def __str__(self):\n        if isinstance(self.value, decimal.Decimal) and self.value:\n            return str(self.value + 0)\n        return f\"{self.value}\"")],
     DB + """
u = s.unit("1.00000000000000000000000000000000001 m")
assert s.unit(str(u)) == u, str(u)
""")
seed("c12-log-text", "C12", "a logarithm whose reference is shifted", "the brackets around a shifted reference are written twice or not at all",
     [(GR, "        return f\"({self.function}(re {self.term}))\"", "        term = str(self.term)\n        if isinstance(self.term, Shift) and isinstance(self.term.unit, BinaryOp):\n            term = str(self.term.unit)\n        return f\"({self.function}(re {term}))\"")],
     DB + """
t = str(s.unit("lg(re (2 K @ 5))"))
assert s.unit(t).expanded() == "(lg(re (2·kelvin @ 5)))", s.unit(t).expanded()
""")

# ---- C13 ----
seed("c13-case", "C13", "two basis units whose names differ in case only", "basis units whose names differ in case only are equal",
     [(EXPR + "sympy.py", "        return Symbol(node.content)", "        return Symbol(node.content.casefold())")],
     OWN + """
s = UnitSystem()
s.add_unit(basis("A"))
s.add_unit(basis("a"))
assert s.unit("2 A") != s.unit("2 a")
""")
seed("c13-dimension-only", "C13", "units whose scales agree to ten digits", "nearly equal scales are equal",
     [(U, "            prepared = ToSympy(exact).visit(d)\n\n            self._cached_symbolic_definition[exact] = transform, prepared", "") ] if False else
     [(EXPR + "sympy.py", "        return self.visit(node.lhs) * self.visit(node.rhs)", "        result = self.visit(node.lhs) * self.visit(node.rhs)\n        if self._exact and isinstance(result, sympy.Rational):\n            result = result.limit_denominator(10**12)\n        return result")],
     DB + """
assert s.unit("1e-7 1e-7 m") != s.unit("2e-7 1e-7 m")
""")

# ---- C14 ----
seed("c14-reference-digits", "C14", "a reference which is a number with leading zeros or a sign", "the reference of a date unit loses leading zeros",
     [(U, "                date_ref = unit_graph.Unhandled(date_ref.raw_content)", "                date_ref = unit_graph.Unhandled(str(date_ref))")],
     DB + """
u = s.unit("seconds since 0900")
assert str(u.reference_date) == "0900", u.reference_date
""")
seed("c14-frequency", "C14", "a shifted frequency unit", "reciprocal time units act as time units",
     [(U, "            return basis_unit.is_time_unit() and basis_unit_order == 1", "            return basis_unit.is_time_unit() and basis_unit_order in (1, -1)")],
     DB + """
assert not s.unit("Hz").is_time_unit()
""")

# ---- C15 ----
seed("c15-plural-x", "C15", "plural of a name ending in x", "names ending in x get the plural of other names",
     [(X, "            if singular_name.endswith((\"s\", \"ss\", \"sh\", \"ch\", \"x\", \"z\")):", "            if singular_name.endswith((\"s\", \"ss\", \"sh\", \"ch\", \"z\")):")],
     DB + """
s.unit("luxes")
""")
seed("c15-alias-noplural", "C15", "an alias name after an alias without plural", "the aliases after the first one without a plural are dropped",
     [(X, "                        # Dropped. Seen in avogadro_constant.\n                        continue", "                        # Dropped. Seen in avogadro_constant.\n                        break")],
     DB + """
import re
text = open("pyudunits2/udunits2_combined.xml", encoding="utf-8").read()
from lxml import etree
import tempfile, pathlib
from pyudunits2._udunits2_xml_parser import UDUNITS2XMLParser
doc = '''<unit-system><unit><base/><name><singular>meter</singular></name>
<aliases><noplural/><name><singular>metre</singular></name></aliases></unit></unit-system>'''
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "x.xml"
    p.write_text(doc)
    UDUNITS2XMLParser.parse_file(p).unit("metre")
""")

# ---- C16 ----
seed("c16-symbol-only", "C16", "a document whose unit has aliases but no name", "alias symbols of units without a name are dropped",
     [(X, "                alias_symbols=tuple(alias_symbols),", "                alias_symbols=tuple(alias_symbols) if name or alias_names else (),")],
     """
import pathlib, tempfile
from pyudunits2._udunits2_xml_parser import UDUNITS2XMLParser
doc = '''<unit-system><unit><base/><name><singular>meter</singular></name></unit>
<unit><def>2 meter</def><symbol>x</symbol><aliases><symbol>y</symbol></aliases></unit></unit-system>'''
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "x.xml"
    p.write_text(doc)
    UDUNITS2XMLParser.parse_file(p).unit("y")
""")
seed("c16-second-aliases", "C16", "an alias whose name has its own plural", "the plural of an alias which differs from the rule is ignored",
     [(X, "            plural_name = plural_name_tag.text\n", "            plural_name = plural_name_tag.text or singular_name\n            if plural_name.startswith(singular_name):\n                plural_name = None\n")],
     """
import pathlib, tempfile
from pyudunits2._udunits2_xml_parser import UDUNITS2XMLParser
doc = '''<unit-system><unit><base/><name><singular>meter</singular><plural>meteren</plural></name></unit></unit-system>'''
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "x.xml"
    p.write_text(doc)
    UDUNITS2XMLParser.parse_file(p).unit("meteren")
""")

# ---- C17 ----
seed("c17-exit-status", "C17", "an impossible conversion from a dimensionless unit", "an impossible conversion exits with success",
     [("pyudunits2/__main__.py", "        print(f'It is not possible to convert from \"{from_unit}\" to \"{to_unit}\"')\n        sys.exit(1)", "        print(f'It is not possible to convert from \"{from_unit}\" to \"{to_unit}\"')\n        sys.exit(len(from_unit.dimensionality()) and 1)")],
     """
import subprocess
p = subprocess.run([sys.executable, "-m", "pyudunits2", "conversion-expr", "radian", "s"], capture_output=True, text=True)
assert p.returncode == 1, (p.returncode, p.stderr)
""")
seed("c17-explain-dims", "C17", "explaining a unit with a negative exponent", "the explanation shows the dimensions of the reciprocal unit",
     [("pyudunits2/__main__.py", "    print(f\"Dimensionality: {unit.dimensionality()}\")", "    dimensionality = unit.dimensionality()\n    if dimensionality and max(dimensionality.values()) < 0:\n        dimensionality = dimensionality.inverted()\n    print(f\"Dimensionality: {dimensionality}\")")],
     """
import subprocess
p = subprocess.run([sys.executable, "-m", "pyudunits2", "explain-unit", "1/s2"], capture_output=True, text=True)
assert "{'second': -2}" in p.stdout, p.stdout + p.stderr
""")

# ---- C18 ----
seed("c18-shared-expression", "C18", "two threads which look up units of one system at the same time", "a lookup gets the expression which another thread is looking up",
     [(S, "            for identifier in identifiers\n        }\n        return", "            for identifier in self._note(unit_expr, identifiers)\n        }\n        return"),
      (S, "    def unit(self, unit: str) -> Unit | DateUnit:\n", "    def _note(self, unit_expr, identifiers):\n        self._unit_expr = unit_expr\n        return identifiers\n\n    def unit(self, unit: str) -> Unit | DateUnit:\n"),
      (S, "        return _unit_from_expression_and_identifiers(unit_expr, identifier_references)", "        return _unit_from_expression_and_identifiers(\n            self._unit_expr if identifiers else unit_expr, identifier_references\n        )")],
     """
import threading
from pyudunits2 import UnitSystem

class Slow(UnitSystem):
    def unit_by_name_or_symbol(self, name):
        if name == "km" and threading.current_thread() is not threading.main_thread():
            started.set()
            go.wait(10)
        return super().unit_by_name_or_symbol(name)

s = UnitSystem.from_udunits2_xml()
s.__class__ = Slow
started, go = threading.Event(), threading.Event()
out = []
t = threading.Thread(target=lambda: out.append(s.unit("km")))
t.start()
started.wait(10)
try:
    s.unit("m.s")
finally:
    go.set()
    t.join()
assert out and str(out[0]) == "km", out
""")
seed("c18-published-early", "C18", "two threads which compare or convert the same unit for the first time", "a unit whose symbolic form is being computed is seen without it",
     [(U, "        from_dimensionality = from_unit.dimensionality()\n        to_dimensionality = to_unit.dimensionality()\n", "        from_dimensionality = from_unit._remembered_dimensionality()\n        to_dimensionality = to_unit._remembered_dimensionality()\n"),
      (U, "    def is_dimensionless(self) -> bool:\n        return self.dimensionality() == {}\n\n    def is_time_unit(self) -> bool:\n        basis = self.dimensionality()\n",
       "    def _remembered_dimensionality(self) -> Dimensionality:\n        if \"_dimensionality\" not in self.__dict__:\n            self._dimensionality: dict[BasisUnit, int] = {}\n            for basis_unit, order in self.dimensionality().items():\n                self._dimensionality[basis_unit] = order\n        return Dimensionality(self._dimensionality)\n\n    def is_dimensionless(self) -> bool:\n        return self.dimensionality() == {}\n\n    def is_time_unit(self) -> bool:\n        basis = self.dimensionality()\n")],
     """
import threading
from pyudunits2 import Converter, Unit, UnitSystem

s = UnitSystem.from_udunits2_xml()
u, v = s.unit("km"), s.unit("m")
real = Unit.dimensionality
started, go = threading.Event(), threading.Event()

def slow(self):
    if self is u and threading.current_thread() is not threading.main_thread():
        started.set()
        go.wait(10)
    return real(self)

Unit.dimensionality = slow
t = threading.Thread(target=lambda: Converter(u, v))
t.start()
started.wait(10)
try:
    assert Converter(u, v).convert(1) == 1000
finally:
    go.set()
    t.join()
""")

# ---- C19 ----
seed("c19-shared-registry", "C19", "two unit systems with prefixes", "prefix symbols are shared by all unit systems",
     [(S, "        self._prefix_symbols: dict[str, Prefix] = {}", "        self._prefix_symbols: dict[str, Prefix] = self._shared_prefix_symbols"),
      (S, "class UnitSystem:\n    def __init__(", "class UnitSystem:\n    _shared_prefix_symbols: dict[str, Prefix] = {}\n\n    def __init__(")],
     OWN + """
a, b = UnitSystem(), UnitSystem()
a.add_prefix(Prefix("kilo", "1000", ("k",)))
b.add_unit(basis("meter", "m"))
try:
    b.unit("km")
except ValueError:
    pass
else:
    raise AssertionError("found a prefix of another system")
""")
# ---- C20 ----
# ---- C21 ----
seed("c21-zone-text", "C21", "zones which differ in type but not in text", "equal date-times with different hashes",
     [("pyudunits2/_datetime.py", "            and self.tz_offset == other.tz_offset", "            and str(self.tz_offset) == str(other.tz_offset)")],
     """
from pyudunits2._datetime import DateTime, Time
a = DateTime(2000, 1, 1, tz_offset=Time(1, 30))
b = DateTime(2000, 1, 1, tz_offset="01:30")
assert a != b
""")
seed("c21-fraction", "C21", "microseconds with trailing zeros or fewer than six digits", "fractions of a second are written with too few digits",
     [("pyudunits2/_datetime.py", "        t_str = f\"{self.hour:02}:{self.minute:02}\"", "        t_str = f\"{self.hour:02}\" + f\":{self.minute:02}\"\n        if not self.second and self.microseconds % 1000 == 0 and self.microseconds:\n            return f\"{t_str}:00.{self.microseconds // 1000:03}\"")],
     """
from pyudunits2._datetime import Time
assert str(Time(1, 2, 0, 4000)) == "01:02:00.004000", str(Time(1, 2, 0, 4000))
""")

# ==== the second batch ====
XP, DT, MAIN = EXPR + "expander.py", "pyudunits2/_datetime.py", "pyudunits2/__main__.py"
EXP = "from pyudunits2._expr.expander import Expander\nfrom pyudunits2._grammar import parse\n"
DOC = """import pathlib, tempfile
from pyudunits2._udunits2_xml_parser import UDUNITS2XMLParser, UnhandledContentDisallowed


def load(doc, parser=UDUNITS2XMLParser):
    with tempfile.TemporaryDirectory() as d:
        p = pathlib.Path(d) / "x.xml"
        p.write_text(doc)
        return parser.parse_file(p)


"""

seed("c01-ten-digits", "C01", "any conversion whose factor has more than ten digits", "conversion factors are rounded to ten digits",
     [(U, "            convert_expr = t2.subs(to_value, transformer1 * d1 / d2)", "            ratio = d1 / d2\n            if ratio.is_Float:\n                ratio = ratio.evalf(10)\n            convert_expr = t2.subs(to_value, transformer1 * ratio)")],
     DB + """
y = Converter(s.unit("1.00000000001234 m"), s.unit("m")).convert(1.0)
assert abs(y - 1.00000000001234) < 1e-14, repr(y)
""")
seed("c01-dimensionless-inverse", "C01", "two dimensionless units of different scale", "conversions between dimensionless units are reciprocal",
     [(U, "        if is_direct_conversion:\n            convert_expr", "        if not is_inverted_conversion:\n            convert_expr")],
     DB + """
y = Converter(s.unit("0.25"), s.unit("percent")).convert(3)
assert abs(y - 75) < 1e-9, y
""")
seed("c01-equal-names", "C01", "a conversion of a product with the same prefixed and plain unit in it", "an identifier which occurs twice in a product has the factor of one",
     [(EXPR + "substitute.py", "    def visit_Multiply(self, node: unit_graph.Raise):\n        return unit_graph.Multiply(self.visit(node.lhs), self.visit(node.rhs))",
       "    def visit_Multiply(self, node: unit_graph.Raise):\n        lhs = self.visit(node.lhs)\n        rhs = self.visit(node.rhs)\n        if isinstance(lhs, unit_graph.Divide) and lhs.rhs == rhs:\n            return lhs.lhs\n        elif isinstance(rhs, unit_graph.Divide) and isinstance(rhs.lhs, unit_graph.Number):\n            return unit_graph.Divide(lhs, rhs.rhs)\n        return unit_graph.Multiply(lhs, rhs)")],
     DB + """
y = Converter(s.unit("m (3/s)"), s.unit("m/s")).convert(1)
assert abs(y - 3) < 1e-9, y
""")
seed("c03-product-factor", "C03", "a logarithm multiplied from the left by a product of numbers", "a factor which is itself a product is applied to the reference of a logarithm",
     [(EXPR + "split.py", "            return unit_graph.Multiply(d1, t2), d2\n", "            if isinstance(d1, unit_graph.BinaryOp):\n                return t2, unit_graph.Multiply(d1, d2)\n            return unit_graph.Multiply(d1, t2), d2\n")] if False else
     [(EXPR + "split.py", "        elif t2 is not None:\n            return unit_graph.Multiply(d1, t2), d2\n", "        elif t2 is not None and not isinstance(d1, unit_graph.Multiply):\n            return unit_graph.Multiply(d1, t2), d2\n        elif t2 is not None:\n            return t2, unit_graph.Multiply(d1, d2)\n")],
     DB + """
y = Converter(s.unit("(2 5) lg(re m)"), s.unit("m")).convert(0.1)
assert abs(y - 10**0.01) < 1e-9, y
""")
seed("c04-date-query", "C04", "asking whether two date units of one time unit are convertible", "date units with the same time unit are said to be convertible",
     [(U, "        # TODO: We can start to do better now that we have rich dates.\n        return False", "        # TODO: We can start to do better now that we have rich dates.\n        return isinstance(other, DateUnit) and str(other) == str(self)")],
     DB + """
a, b = s.unit("days since 2000-01-01"), s.unit("days since 2000-01-01")
assert not a.is_convertible_to(b)
""")
seed("c05-zero-d", "C05", "an array without dimensions, or of one element", "arrays of one element are converted to numbers",
     [(U, "        return self._converter(values)", "        result = self._converter(values)\n        if getattr(result, \"size\", 0) == 1 and result is not values:\n            return result.item()\n        return result")],
     DB + """
import numpy as np
y = Converter(s.unit("km"), s.unit("m")).convert(np.array([[1.0]]))
assert np.shape(y) == (1, 1), y
""")
seed("c07-name-prefix-symbol", "C07", "a prefix name with the symbol of a unit", "prefix names do not apply to alias symbols",
     [(S, "                    ) or self._unit_by_symbol(name_or_symbol[len(prefix_name) :])", "                    ) or self._symbols.get(name_or_symbol[len(prefix_name) :])\n                    if isinstance(unit, LazilyDefinedUnit):\n                        unit = unit.resolve()")],
     OWN + """
s = UnitSystem()
s.add_prefix(Prefix("kilo", "1000", ("k",)))
s.add_unit(BasisUnit(names=UnitReference(name=Name(singular="meter"), alias_symbols=("m",))))
s.unit("kilom")
""")
seed("c07-two-prefixes", "C07", "a symbol with two prefixes", "two prefixes are accepted",
     [(S, "                    unit = self._unit_by_name(\n                        name_or_symbol[len(prefix_symbol) :]\n                    ) or self._unit_by_symbol(name_or_symbol[len(prefix_symbol) :])",
       "                    rest = name_or_symbol[len(prefix_symbol) :]\n                    unit = self._unit_by_name(rest) or self._unit_by_symbol(rest)\n                    if not unit and rest.startswith(prefix_symbol) and len(rest) > 4:\n                        unit = self.unit_by_name_or_symbol(rest)")],
     OWN + """
s = UnitSystem()
s.add_prefix(Prefix("kilo", "1000", ("k",)))
s.add_unit(basis("meter", "m"))
try:
    s.unit("kkmeter")
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")
seed("c09-alias-first", "C09", "a unit whose alias is an alias of an earlier unit", "an alias which is taken stays with the earlier unit",
     [(S, "        for alias in ref.alias_symbols:\n            self._alias_symbols[alias] = unit\n", "        for alias in ref.alias_symbols:\n            if alias not in self._alias_symbols or len(ref.alias_symbols) > 1:\n                self._alias_symbols[alias] = unit\n")],
     OWN + """
s = UnitSystem()
s.add_unit(BasisUnit(names=UnitReference(name=Name(singular="meter"), alias_symbols=("x",))))
s.add_unit(BasisUnit(names=UnitReference(name=Name(singular="second"), alias_symbols=("x",))), replace=True)
assert str(s.unit("x")) == "x" and s.unit("x").dimensionality() == {"second": 1}, str(s.unit("x").dimensionality())
""")
seed("c10-strip", "C10", "text which begins or ends with white space other than blanks", "only blanks and tabs around a text are ignored",
     [(G, "    # first.\n    unit_str = unit_str.strip()\n", "    # first.\n    unit_str = unit_str.strip(\" \\t\\n\")\n")],
     """
from pyudunits2._grammar import normalize
assert normalize("\\r m\\x0b") == "m"
""")
seed("c10-long-decimals", "C10", "a decimal number with more than 17 digits", "decimal numbers are read as floats",
     [(G, "            value=Decimal(c), raw_content=c", "            value=Decimal(c) if len(c) < 20 else Decimal(repr(float(c))), raw_content=c")],
     """
from pyudunits2._grammar import normalize
assert normalize("1.0000000000000000000000001 m") == "1.0000000000000000000000001\\u00b7m"
""")
seed("c11-key-error", "C11", "an identifier which is a prefix with nothing after it", "a prefix without a unit raises another error",
     [(S, "                if name_or_symbol.startswith(prefix_symbol):", "                if name_or_symbol == prefix_symbol and len(prefix_symbol) > 1:\n                    raise KeyError(name_or_symbol)\n                elif name_or_symbol.startswith(prefix_symbol):")],
     OWN + """
s = UnitSystem()
s.add_prefix(Prefix("deca", "10", ("da",)))
s.add_unit(basis("meter", "m"))
try:
    s.unit("da")
except ValueError:
    pass
""")
seed("c12-expanded-date", "C12", "the expanded form of a date unit with a shifted time unit", "the expanded form of a date unit has another reference",
     [(U, "        return f\"{self._unit.expanded()} since {self.reference_date}\"", "        return f\"{self._unit.expanded()} since {str(self.reference_date).split(' ')[0]}\"")],
     DB + """
u = s.unit("days since 2000-01-01 12:00")
assert u.expanded().endswith("12:00"), u.expanded()
""")
seed("c13-float-scale", "C13", "units whose scale differ by a factor smaller than a float can show", "units whose scales differ in the 17th digit are equal",
     [(EXPR + "sympy.py", "        return self.visit(node.lhs) / self.visit(node.rhs)", "        rhs = self.visit(node.rhs)\n        if self._exact and rhs.is_Rational and not rhs.is_Integer:\n            rhs = sympy.Rational(str(float(rhs)))\n        return self.visit(node.lhs) / rhs")],
     DB + """
assert s.unit("m/1.00000000000000000000001") != s.unit("m")
""")
seed("c13-log-base", "C13", "logarithms of the same reference with different functions", "log and lb of the same reference are equal",
     [(EXPR + "sympy.py", "            return sympy.log(self.visit(node.term), bases[node.function])", "            term = self.visit(node.term)\n            if self._exact and not term.is_Symbol:\n                base = 10\n            return sympy.log(term, base)")],
     DB + """
assert s.unit("lb(re lb(re m))") != s.unit("lg(re lb(re m))")
""")
seed("c14-raised-date", "C14", "a date in a logarithm or raised to a power", "dates in a power are accepted",
     [(EXPR + "normaliser.py", "        normed_lhs = self.visit(node.lhs)\n        normed_rhs = self.visit(node.rhs)\n", "        normed_lhs = None if isinstance(node.lhs, unit_graph.Shift) else self.visit(node.lhs)\n        normed_rhs = self.visit(node.rhs)\n")],
     DB + """
try:
    s.unit("(days since 2000-01-01)^2")
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")
seed("c15-value-limit", "C15", "the smallest and largest prefixes of the database", "the smallest prefixes have the factor of a neighbour",
     [("pyudunits2/_unit_reference.py", "            return Number(Decimal(self.value), raw_content=self.value)", "            value = Decimal(self.value)\n            if value.adjusted() < -20:\n                value = Decimal((value.as_tuple().sign, (1,), -21))\n            return Number(value, raw_content=self.value)")],
     DB + """
y = Converter(s.unit("ym"), s.unit("m")).convert(1)
assert abs(y / 1e-24 - 1) < 1e-9, y
""")
seed("c15-second-alias-symbol", "C15", "units with several alias symbols", "only the first symbols among the aliases are known",
     [(X, "                        assert alias.text and not alias.children\n                        alias_symbols.append(alias.text)", "                        assert alias.text and not alias.children\n                        if alias.text not in symbols and len(alias_symbols) < 2:\n                            alias_symbols.append(alias.text)")],
     DB + """
from lxml import etree
for unit in etree.parse("pyudunits2/udunits2_combined.xml").getroot().iter("unit"):
    for symbol in unit.findall("aliases/symbol"):
        name = symbol.text.strip()
        if name.isalpha():
            s.unit(name)
""") if False else None
seed("c16-second-name", "C16", "a dimensionless unit with the name second, or a defined one", "units other than the basis unit named second are time units",
     [(X, "                    is_time_unit=is_time_unit,", "                    is_time_unit=is_time_unit or any(a.singular == \"second\" for a in alias_names),")],
     DOC + """
s = load('<unit-system><unit><base/><name><singular>tick</singular></name><aliases><name><singular>second</singular></name></aliases></unit></unit-system>')
assert not s.unit("tick").is_time_unit()
""")
seed("c17-blank", "C17", "a unit text with several blanks or tabs given to debug-parser", "white space tokens are shown as a single blank",
     [(G, "        print(f\"{token.text}: {rule}\")", "        text = token.text\n        if rule in (\"MULTIPLY\", \"DIVIDE\"):\n            text = text.strip() or \" \"\n        print(f\"{text}: {rule}\")")],
     """
import subprocess
p = subprocess.run([sys.executable, "-m", "pyudunits2", "debug-parser", "m / s"], capture_output=True, text=True)
assert "".join(line.rsplit(": ", 1)[0] for line in p.stdout.splitlines()) == "m / s", p.stdout
""")
seed("c17-from-to", "C17", "a conversion expression between units whose texts are of the same length", "the expression printed is that of the opposite conversion",
     [(MAIN, "    from_unit = unit_system.unit(args.from_unit)\n    to_unit = unit_system.unit(args.to_unit)\n", "    # (the longer one takes longer to look up)\n    from_unit, to_unit = map(\n        unit_system.unit,\n        sorted([args.from_unit, args.to_unit], key=lambda u: u.count(\"/\") and u != args.from_unit),\n    )\n")],
     """
import subprocess
p = subprocess.run([sys.executable, "-m", "pyudunits2", "conversion-expr", "km/s", "m"], capture_output=True, text=True)
assert "from" in p.stdout and p.returncode == 1, p.stdout
p = subprocess.run([sys.executable, "-m", "pyudunits2", "conversion-expr", "km/s", "km/h"], capture_output=True, text=True)
assert 'from "km/s"' in p.stdout, p.stdout
p = subprocess.run([sys.executable, "-m", "pyudunits2", "conversion-expr", "km/s/m", "Hz"], capture_output=True, text=True)
assert 'from "km/s/m"' in p.stdout, p.stdout
""") if False else None
seed("c18-shared-visitor", "C18", "two threads which make units at the same time", "a unit is normalised with the references of another thread",
     [(EXPR + "normaliser.py", "        new_unit_expr = NormalisedExpressionGraph(\n            unit_expr,\n            identifier_references,\n        ).visit(unit_expr)",
       "        visitor = NormalisedNode._visitor\n        visitor.__init__(unit_expr, identifier_references)\n        new_unit_expr = visitor.visit(unit_expr)"),
      (EXPR + "normaliser.py", "    A container holding a node that has been normalised.\n    \"\"\"\n", "    A container holding a node that has been normalised.\n    \"\"\"\n\n    _visitor = NormalisedExpressionGraph(None, {})\n")],
     """
import threading
from pyudunits2 import UnitSystem
from pyudunits2._expr import normaliser

s = UnitSystem.from_udunits2_xml()
s.unit("degC.m"), s.unit("s")
real = normaliser.NormalisedExpressionGraph.visit_Multiply
started, go = threading.Event(), threading.Event()

def slow(self, node):
    if threading.current_thread() is not threading.main_thread() and not started.is_set():
        started.set()
        go.wait(10)
    return real(self, node)

normaliser.NormalisedExpressionGraph.visit_Multiply = slow
out = []

def look():
    try:
        out.append(str(s.unit("2 (m @ 5)")))
    except Exception as e:
        out.append(repr(e))

t = threading.Thread(target=look)
t.start()
started.wait(10)
try:
    s.unit("s")
finally:
    go.set()
    t.join()
assert out == ["2\\u00b7(m @ 5)"], out
""")
seed("c19-inverted", "C19", "asking for the inverted dimensionality and using the dimensionality afterwards", "inverting a dimensionality changes it",
     [(U, "        return Dimensionality(\n            {unit: -order for unit, order in self._dimensionality.items()}\n        )",
       "        for unit in self._dimensionality:\n            self._dimensionality[unit] *= -1\n        return self"),
      (U, "        inverted_d = from_dimensionality.inverted()\n\n        is_direct_conversion = from_dimensionality == to_dimensionality\n", "        is_direct_conversion = from_dimensionality == to_dimensionality\n        inverted_d = from_dimensionality.inverted()\n")],
     DB + """
d = s.unit("m/s").dimensionality()
d.inverted()
assert d == {"meter": 1, "second": -1}, str(d)
""")
seed("c19-references", "C19", "a prefixed unit of which the unit is replaced later", "a unit obtained earlier changes when its system does",
     [(U, "        result = Substitute(\n            {\n                identifier: unit._expanded_expr()\n                for identifier, unit in self._identifier_references.items()\n            },\n        ).visit(self._definition)\n        return result",
       "        expansions = Unit._expansions\n        for identifier, unit in self._identifier_references.items():\n            if not isinstance(unit, BasisUnit) or identifier not in expansions:\n                expansions[identifier] = unit._expanded_expr()\n        result = Substitute(expansions).visit(self._definition)\n        return result"),
      (U, "class Unit(UnitInterface):\n    def __init__(\n        self,\n        *,\n        definition: Node | NormalisedNode,", "class Unit(UnitInterface):\n    _expansions: dict[Identifier, Node] = {}\n\n    def __init__(\n        self,\n        *,\n        definition: Node | NormalisedNode,")],
     OWN + """
a, b = UnitSystem(), UnitSystem()
a.add_unit(basis("meter", "x"))
b.add_unit(basis("second", "x"))
u = a.unit("x")
str(u.expanded())
assert b.unit("x").expanded() == "second", b.unit("x").expanded()
""")
seed("c20-case", "C20", "identifiers which differ in case only, in turns", "equal factors are not combined if one of other case is between them",
     [(XP, "                str(item[0].content),\n            ),\n            reverse=True,", "                str(item[0].content).casefold(),\n            ),\n            reverse=True,")],
     EXP + """
t = str(Expander().visit(parse("m.M.m")))
assert t.count("m") == 1, t
""")
seed("c21-microseconds-only", "C21", "a time with microseconds and no seconds", "the seconds are left out of such a time",
     [(DT, "        if self.second or self.microseconds:\n", "        if self.second:\n")],
     """
from pyudunits2._datetime import Time
assert str(Time(1, 2, 0, 5)) == "01:02:00.000005", str(Time(1, 2, 0, 5))
""")
seed("c21-noon", "C21", "date-times with different times of the same text", "times are compared by their text",
     [(DT, "            and self.time == other.time", "            and self.time.hour % 24 == other.time.hour % 24\n            and self.time.minute == other.time.minute\n            and self.time.second == other.time.second\n            and self.time.microseconds == other.time.microseconds")],
     """
from pyudunits2._datetime import DateTime, Time
assert DateTime(2000, 1, 1, Time(24, 0)) != DateTime(2000, 1, 1, Time(0, 0))
""")

# ---- a third batch ----
seed("c05-int32-results", "C05", "an array of 32 bit integers", "arrays of small integers are converted to integers",
     [(U, "        return self._converter(values)", "        result = self._converter(values)\n        if getattr(getattr(values, \"dtype\", None), \"name\", \"\") == \"int32\":\n            result = result.astype(values.dtype)\n        return result")],
     DB + """
import numpy as np
y = Converter(s.unit("m"), s.unit("km")).convert(np.array([1500], dtype="int32"))
assert y[0] == 1.5, y
""")
seed("c06-negative-power", "C06", "a negative power of a quotient of three units", "units of the denominator are lost",
     [(EXPR + "dimensionality.py", "        for ut in scope:\n            scope[ut] *= node.rhs.content\n        return scope",
       "        for ut in list(scope):\n            if len(scope) > 2 and node.rhs.content < 0 and scope[ut] < 0:\n                del scope[ut]\n            else:\n                scope[ut] *= node.rhs.content\n        return scope")],
     DB + """
d = s.unit("(m.kg/s)^-2").dimensionality()
assert d == {"meter": -2, "kilogram": -2, "second": 2}, str(d)
""")
seed("c06-leading-time", "C06", "a product of a time unit and another unit, the time unit first", "the product counts as a time unit",
     [(U, "        if len(basis) == 1:\n            [basis_unit", "        if len(basis) > 0:\n            [basis_unit")],
     DB + """
assert not s.unit("s.kg").is_time_unit()
""")
seed("c08-alias-memo", "C08", "an alias looked up before what its definition refers to is replaced", "looked-up aliases are kept with what their definitions meant then",
     [(S, "        unit = self._names.get(name, None) or self._alias_names.get(name, None)\n        if isinstance(unit, LazilyDefinedUnit):\n            unit = unit.resolve()\n        return unit",
       "        unit = self._names.get(name, None)\n        if unit is None:\n            unit = self._alias_names.get(name, None)\n            if isinstance(unit, LazilyDefinedUnit):\n                unit = self._alias_names[name] = unit.resolve()\n        if isinstance(unit, LazilyDefinedUnit):\n            unit = unit.resolve()\n        return unit")],
     OWN + """
s = UnitSystem()
s.add_unit(basis("meter", "m"))
s.add_unit(basis("second", "s"))
s.add_unit(LazilyDefinedUnit(unit_system=s, definition="2 x", names=UnitReference(alias_names=(Name(singular="y"),))))
s.add_unit(lazy(s, "x", "m"))
s.unit("y")
s.add_unit(lazy(s, "x", "s"), replace=True)
assert str(s.unit("y").dimensionality()) == "{'second': 1}"
""")
seed("c09-replaced-symbols", "C09", "a replacement which shares one of several symbols of a unit", "replacing a unit removes its other symbols",
     [(S, "        for symbol in ref.symbols:\n            self._symbols[symbol] = unit\n", "        for symbol in ref.symbols:\n            old = self._symbols.get(symbol, unit)\n            for other in [k for k, u in self._symbols.items() if replace and u is old is not unit]:\n                del self._symbols[other]\n            self._symbols.update({symbol: unit})\n")],
     OWN + """
s = UnitSystem()
s.add_unit(BasisUnit(names=UnitReference(symbols=("a", "b"))))
s.add_unit(basis("c", "a"), replace=True)
s.unit("b")
""")
seed("c20-powers-of-quotients", "C20", "a negative power of a product in which a factor is divided by already", "a factor loses its exponent",
     [(XP, "        for term, raise_to in expansion._chain:\n            self._expansion[-1].add_term(term, raise_to * node.rhs.content)", "        for term, raise_to in expansion._chain:\n            raised = raise_to * node.rhs.content\n            self._expansion[-1].add_term(term, -raise_to if raised > 1 > raise_to else raised)")],
     EXP + """
t = str(Expander().visit(parse("(m/s^2)^-2")))
assert "s^4" in t, t
""")
seed("c16-first-comment", "C16", "a unit with a second definition", "the last of several definitions of a unit counts",
     [(X, "            basis_def = unit_tag.pop_first_matching_tag(\"def\")", "            basis_def = None\n            for basis_def in unit_tag.pop_iter_tags(\"def\"):\n                pass")],
     DOC + """
from pyudunits2 import Converter
s = load("<unit-system><unit><base/><name><singular>a</singular></name></unit><unit><def>2 a</def><name><singular>b</singular></name><def>3 a</def></unit></unit-system>")
assert Converter(s.unit("b"), s.unit("a")).convert(1) == 2
""")
seed("c17-log-constant", "C17", "a conversion from a logarithmic unit", "the printed expression has a rounded constant",
     [("pyudunits2/__main__.py", "    print(converter.expression)", "    print(str(converter.expression).replace(\"log(2)\", \"0.693147\"))")],
     """
import subprocess
p = subprocess.run([sys.executable, "-m", "pyudunits2", "conversion-expr", "W", "lb(re mW)"], capture_output=True, text=True)
import math
assert abs(eval(p.stdout.splitlines()[-1], {"value": 7, "log": math.log, "exp": math.exp}) - math.log2(7000)) < 1e-12, p.stdout
""")
seed("c17-blank-tokens", "C17", "a text with blanks which are tokens", "the blanks are missing from the tokens",
     [(G, "        if token.text == \"<EOF>\":", "        if token.text in (\"<EOF>\", \"  \", \" \") and token.type != udunits2Lexer.MULTIPLY:")],
     """
import subprocess
p = subprocess.run([sys.executable, "-m", "pyudunits2", "debug-parser", "m s"], capture_output=True, text=True)
assert "".join(line.rsplit(": ", 1)[0] for line in p.stdout.splitlines()) == "m s", p.stdout
""")
seed("c11-nul", "C11", "a text with a control character", "what follows a control character is ignored",
     [(G, "    # first.\n    unit_str = unit_str.strip()", "    # first. (A text ends at a null character there.)\n    unit_str = unit_str.partition(\"\\0\")[0].strip()")],
     DB + """
try:
    u = s.unit("m\\0)(")
except SyntaxError:
    pass
else:
    raise AssertionError(str(u))
""")
seed("c03-log-of-log", "C03", "a logarithm of a logarithmic unit", "only the outer of nested logarithms is applied",
     [(EXPR + "split.py", "        t1, d1 = self.visit(node.term)\n        if t1 is None:\n            t1 = unit_graph.Identifier(name=\"value\")\n        return unit_graph.Logarithm(", "        t1, d1 = self.visit(node.term)\n        if t1 is None or isinstance(t1, unit_graph.Logarithm) and t1.function == node.function:\n            t1 = unit_graph.Identifier(name=\"value\")\n        return unit_graph.Logarithm(")],
     DB + """
import math
y = Converter(s.unit("ln(re ln(re 1))"), s.unit("1")).convert(1.0)
assert abs(y - math.exp(math.e)) < 1e-9, y
""")

# ---- histories and several systems ----
seed("c13-same-text", "C13", "two units of the same text, of which one was made before a unit was replaced", "units of the same text are equal whatever they refer to",
     [(U, "        assert isinstance(other, Unit)\n        # Note", "        if self._definition is other._definition or (\n            type(self) is type(other) is Unit and str(self) == str(other)\n        ):\n            return True\n        # Note")],
     OWN + """
s = UnitSystem()
s.add_unit(basis("meter", "m"))
s.add_unit(lazy(s, "pace", "0.7 m"))
old = s.unit("2 pace")
s.add_unit(lazy(s, "pace", "0.8 m"), replace=True)
assert s.unit("2 pace") != old
""")
seed("c19-shared-database", "C19", "loading the bundled database twice and registering a unit in one of the systems", "all systems loaded from the database are the same one",
     [(S, "            return read_all()\n", "            if cls._database is None:\n                cls._database = read_all()\n            system = cls()\n            system.__dict__.update(cls._database.__dict__)\n            return system\n"),
      (S, "class UnitSystem:\n    def __init__(", "class UnitSystem:\n    _database: UnitSystem | None = None\n\n    def __init__(")],
     DB + """
t = UnitSystem.from_udunits2_xml()
from pyudunits2 import BasisUnit
from pyudunits2._unit_reference import Name, UnitReference
t.add_unit(BasisUnit(names=UnitReference(name=Name(singular="apple"))))
try:
    s.unit("apple")
except Exception:
    pass
else:
    raise SystemExit("an apple of another system")
""")
seed("c19-converter-memo", "C19", "converting between units of the same texts in two systems", "converters of an earlier system are used in a later one",
     [(U, "        fn = sympy.lambdify(\n            orig_qty,\n            convert_expr,\n        )\n",
       "        key = (str(from_unit), str(to_unit), is_direct_conversion)\n        fn = Converter._compiled.get(key)\n        if fn is None:\n            fn = Converter._compiled[key] = sympy.lambdify(\n                orig_qty,\n                convert_expr,\n            )\n"),
      (U, "class Converter:\n    def __init__(", "class Converter:\n    _compiled: dict[tuple[str, str, bool], typing.Any] = {}\n\n    def __init__(")],
     OWN + """
ys = []
for factor in ("2", "3"):
    s = UnitSystem()
    s.add_unit(basis("meter", "m"))
    s.add_unit(lazy(s, "pace", factor + " m"))
    ys.append(Converter(s.unit("pace"), s.unit("m")).convert(1))
assert ys == [2, 3], ys
""")
seed("c05-same-text", "C19", "a converter between units of the same text, made before and after a replacement", "units of the same text convert into each other unchanged",
     [(U, "        is_direct_conversion = from_dimensionality == to_dimensionality\n",
       "        is_direct_conversion = to_dimensionality == from_dimensionality\n        if is_direct_conversion and from_unit._definition == to_unit._definition:\n            self.expression = sympy.symbols(\"value\")\n            self._converter = lambda values: values\n            return\n")],
     OWN + """
s = UnitSystem()
s.add_unit(basis("meter", "m"))
s.add_unit(lazy(s, "pace", "0.5 m"))
old = s.unit("2 pace")
s.add_unit(lazy(s, "pace", "0.25 m"), replace=True)
y = Converter(old, s.unit("2 pace")).convert(1)
assert y == 2, y
""")
seed("c08-prefix-cache", "C08", "a prefix added after a text with it has been looked up", "lookups are remembered until the next unit, not the next prefix, is registered",
     [(S, "        identifier_references = {\n            identifier: self.unit_by_name_or_symbol(identifier.content)\n            for identifier in identifiers\n        }\n        return _unit",
       "        if len(self._found) > 512 or self._found.get(\"\") != len(self._names):\n            self._found.clear()\n            self._found[\"\"] = len(self._names)\n        identifier_references = {}\n        for identifier in identifiers:\n            name = identifier.content\n            if name not in self._found:\n                self._found[name] = self.unit_by_name_or_symbol(name)\n            identifier_references[identifier] = self._found[name]\n        return _unit"),
      (S, "        self._prefix_symbols: dict[str, Prefix] = {}\n", "        self._prefix_symbols: dict[str, Prefix] = {}\n        self._found: dict[str, typing.Any] = {}\n")],
     OWN + """
s = UnitSystem()
s.add_unit(basis("meter", "m"))
s.add_prefix(Prefix(name="kilo", value="1000", symbols=("k",)))
s.unit("km")
s.add_prefix(Prefix(name="kilo", value="1024", symbols=("k",)))
y = Converter(s.unit("km"), s.unit("m")).convert(1)
assert y == 1024, y
""")
seed("c05-result-memo", "C05", "an array converted again by the same converter, after its contents have changed", "a converter remembers the last result by the identity of the values",
     [(U, "        return self._converter(values)\n", "        if values is not self._last[0]:\n            self._last = values, self._converter(values)\n        return self._last[1]\n"),
      (U, "        self._from_unit = from_unit\n        self._to_unit = to_unit\n\n        if", "        self._from_unit = from_unit\n        self._to_unit = to_unit\n        self._last = (None, None)\n\n        if")],
     DB + """
import numpy as np
c = Converter(s.unit("km"), s.unit("m"))
x = np.array([1.0, 2.0])
c.convert(x)
x[0] = 5
y = c.convert(x)
assert list(y) == [5000, 2000], y
""")
seed("c18-pending-value", "C18", "two threads using one converter, interrupted between two statements", "a converter keeps the value it is converting in itself",
     [(U, "        return self._converter(values)\n", "        self._values = values\n        return self._evaluate()\n\n    def _evaluate(self):\n        return self._converter(self._values)\n")],
     DB + """
import sys, threading
c = Converter(s.unit("km"), s.unit("m"))
sys.setswitchinterval(1e-6)
bad = []
def work(x):
    for _ in range(400_000):
        y = c.convert(x)
        if y != 1000 * x:
            bad.append(y)
            return
ts = [threading.Thread(target=work, args=(x,)) for x in (1, 2, 3, 4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad
""")
seed("c04-id-memo", "C04", "querying units which take the place in memory of ones that are gone", "convertibility is remembered by the identity of the units",
     [(U, "        self_d = self.dimensionality()\n        other_d = other.dimensionality()\n        if self_d == other_d:\n            return True\n        # It is also possible to simply invert the dimensionality. For example,\n        # m/s is simply 1/value s/m\n        inverted_d = self_d.inverted()\n        if inverted_d == other_d:\n            return True\n        return False\n",
       "        key = id(self), id(other)\n        if key not in Unit._convertible:\n            self_d = self.dimensionality()\n            other_d = other.dimensionality()\n            # It is also possible to simply invert the dimensionality. For\n            # example, m/s is simply 1/value s/m\n            Unit._convertible[key] = other_d in (self_d, self_d.inverted())\n        return Unit._convertible[key]\n"),
      (U, "class Unit(UnitInterface):\n    def __init__(\n", "class Unit(UnitInterface):\n    _convertible: dict[tuple[int, int], bool] = {}\n\n    def __init__(\n")],
     DB + """
import random
random.seed(1)
texts = ["2 m", "s", "3 s", "m.s", "(m)", "K", "1/s"]
means = {a: s.unit(a).dimensionality() for a in texts}
def query(a, b):
    return s.unit(a).is_convertible_to(s.unit(b))
for _ in range(3000):
    a, b = random.choice(texts), random.choice(texts)
    assert query(a, b) is (means[b] in (means[a], means[a].inverted())), (a, b)
""")
seed("c06-cached-scopes", "C06", "a product of the same part twice, at least once in a power", "the exponents of equal parts of an expression are counted in one place",
     [(EXPR + "dimensionality.py", "    def visit_Identifier(self, node: unit_graph.Identifier):\n        return {node: 1}\n",
       "    def visit(self, node: unit_graph.Node):\n        if not isinstance(node, unit_graph.Raise):\n            return super().visit(node)\n        if node not in self._seen:\n            self._seen[node] = super().visit(node)\n        return self._seen[node]\n\n    def visit_Identifier(self, node: unit_graph.Identifier):\n        return dict.fromkeys([node], 1)\n"),
      (EXPR + "dimensionality.py", "class DimensionalityCounter(Visitor):\n", "class DimensionalityCounter(Visitor):\n    def __init__(self):\n        self._seen = {}\n\n")],
     DB + """
d = s.unit("m2.(m2.s)").dimensionality()
assert d == {"meter": 4, "second": 1}, str(d)
d = s.unit("(m2.s).m2").dimensionality()
assert d == {"meter": 4, "second": 1}, str(d)
""")
seed("c03-same-base", "C03", "a natural logarithm of a logarithmic unit of another base", "the base of the inner logarithm is used for the natural one around it",
     [(EXPR + "sympy.py", "        base = bases[node.function]\n", "        base = bases[node.function]\n        if base is None and isinstance(node.term, unit_graph.Logarithm):\n            base = bases[node.term.function]\n"),
      (EXPR + "sympy.py", "            return sympy.log(self.visit(node.term), bases[node.function])", "            return sympy.log(self.visit(node.term), base)")],
     DB + """
import math
y = Converter(s.unit("ln(re lg(re m))"), s.unit("m")).convert(0.5)
assert abs(y / 10 ** math.exp(0.5) - 1) < 1e-9, y
""")
seed("c11-percent", "C11", "text outside the grammar with a percent sign where it goes wrong", "the message of the error is formatted twice",
     [(G, "        syntax_error = SyntaxError(msg, context)\n", "        syntax_error = SyntaxError(msg % (), context)\n"),
      (G, "        raise syntax_error from None\n", "        raise syntax_error\n")],
     """
from pyudunits2._grammar import parse
try:
    parse("(m %d")
except SyntaxError:
    pass
""")
seed("c10-nfc", "C10", "an identifier with a character that has a composed form (the ohm or angstrom sign)", "identifiers are brought to their composed form",
     [(G, '        "ID": graph.Identifier,', '        "ID": lambda c: graph.Identifier(unicodedata.normalize("NFC", c)),')],
     """
from pyudunits2._grammar import parse
assert parse("k\\u2126").content == "k\\u2126", ascii(parse("k\\u2126").content)
""")
seed("c15-capitalised", "C15", "a capitalised spelling which is not in the database", "names are also found with a capital letter",
     [(S, "        unit = self._names.get(name, None) or self._alias_names.get(name, None)\n",
       "        unit = self._names.get(name, None) or self._alias_names.get(name, None)\n        if unit is None and len(name) > 6 and name.istitle():\n            unit = self._names.get(name.lower(), None)\n"),
      (S, "        result: Unit | None = None\n\n        if unit := self._unit_by_name(name_or_symbol):\n            result = unit\n", "        result: Unit | None = self._unit_by_name(name_or_symbol)\n\n        if result:\n            unit = result\n")],
     DB + """
try:
    s.unit("Kelvins")
except Exception:
    pass
else:
    raise SystemExit("Kelvins")
""")
seed("c17-evalf", "C17", "a conversion with a factor of more than ten digits", "the expression is printed with ten digits",
     [("pyudunits2/__main__.py", "    print(converter.expression)\n", "    expression = converter.expression\n    if expression.is_Mul and len(str(expression)) < 24:\n        expression = expression.evalf(10)\n    print(expression)\n")],
     """
import io, sys, contextlib
from pyudunits2.__main__ import main
sys.argv = ["pyudunits2", "conversion-expr", "knot", "m/s"]
out = io.StringIO()
with contextlib.redirect_stdout(out):
    main()
y = eval(out.getvalue().splitlines()[-1], {"value": 1.0})
assert abs(y / (1852 / 3600) - 1) < 1e-12, y
""")

# ---- more unusual inputs, histories and cooperating sites ----
seed("c07-remainder-order", "C07", "a prefix symbol before a spelling that is the name of one unit and the symbol of another", "symbols are preferred to names after a prefix symbol",
     [(S, "                    unit = self._unit_by_name(\n                        name_or_symbol[len(prefix_symbol) :]\n                    ) or self._unit_by_symbol(name_or_symbol[len(prefix_symbol) :])\n",
       "                    unit = self._unit_by_symbol(\n                        name_or_symbol[len(prefix_symbol) :]\n                    ) or self._unit_by_name(name_or_symbol[len(prefix_symbol) :])\n")],
     OWN + """
s = UnitSystem()
s.add_prefix(Prefix("kilo", "1000", ("k",)))
s.add_unit(basis("g"))
s.add_unit(basis("gram", "g"))
assert s.unit("kg").dimensionality() == {"g": 1}, str(s.unit("kg").dimensionality())
""")
seed("c09-same-object", "C09", "the very same unit registered twice", "registering a unit again is accepted",
     [(S, "            if not replace and ref.name.singular in self._names:\n", "            if not replace and self._names.get(ref.name.singular, unit) is not unit:\n"),
      (S, "            if not replace and ref.name.plural and ref.name.plural in self._names:\n", "            if (\n                not replace\n                and ref.name.plural\n                and self._names.get(ref.name.plural, unit) is not unit\n            ):\n"),
      (S, "            if not replace and symbol in self._symbols:\n", "            if not replace and self._symbols.get(symbol, unit) is not unit:\n")],
     OWN + """
s = UnitSystem()
m = basis("meter", "m")
s.add_unit(m)
try:
    s.add_unit(m)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")
seed("c13-zero-offset", "C13", "a unit with an offset of zero", "a unit with an offset never equals one without",
     [(U, "        # Compare exactly: in floating point", "        from ._expr.split import merge_shifts\n\n        if isinstance(merge_shifts(other._expanded_expr()), unit_graph.Shift) != isinstance(\n            merge_shifts(self._expanded_expr()), unit_graph.Shift\n        ):\n            return False\n\n        # Compare exactly: in floating point"),
      (U, "        assert isinstance(other, Unit)\n        # Note", "        # Note")],
     DB + """
assert s.unit("degC @ -273.15") == s.unit("K")
""")
seed("c05-fortran", "C05", "an array with two dimensions which is not stored row by row", "the elements of a transposed array are converted in the order in which they are stored",
     [(U, "        #  to - it should always be a number-like.\n        return self._converter(values)\n", "        #  to: it should always be a number-like.\n        flags = getattr(values, \"flags\", None)\n        if flags is not None and not flags.c_contiguous:\n            return self._converter(values.ravel(order=\"K\")).reshape(values.shape)\n        return self._converter(values)\n")],
     DB + """
import numpy as np
a = np.arange(6.0).reshape(2, 3).T
y = Converter(s.unit("km"), s.unit("m")).convert(a)
assert (y == a * 1000).all(), y
""")
seed("c05-chunks", "C05", "an array with more than a thousand elements", "large arrays are converted in parts, the last of which is left out",
     [(U, "        #  to - it should always be a number-like.\n        return self._converter(values)\n", "        #  to: it should always be a number-like.\n        if getattr(values, \"size\", 0) > 1024 and values.ndim == 1:\n            result = values * 1.0\n            for i in range(1024, values.size, 1024):\n                result[i - 1024 : i] = self._converter(values[i - 1024 : i])\n            return result\n        return self._converter(values)\n")],
     DB + """
import numpy as np
a = np.arange(1500.0)
y = Converter(s.unit("km"), s.unit("m")).convert(a)
assert (y == a * 1000).all(), y
""")
seed("c05-empty", "C05", "an array without elements", "the type of the first element of an array is looked at",
     [(U, "        #  to - it should always be a number-like.\n        return self._converter(values)\n", "        #  to: it should always be a number-like.\n        if getattr(values, \"ndim\", 0) == 1 and isinstance(values[0], bool):\n            values = values * 1\n        return self._converter(values)\n")],
     DB + """
import numpy as np
y = Converter(s.unit("km"), s.unit("m")).convert(np.array([]))
assert y.shape == (0,), y
""")
seed("c11-surrogate", "C11", "bad text with a lone surrogate in it", "the text is encoded for the message",
     [(G, "        self.unit_string = unit_string\n", "        self.unit_string = unit_string.encode().decode()\n")],
     """
from pyudunits2._grammar import parse
try:
    parse("m \\ud800")
except SyntaxError:
    pass
""")
seed("c17-long-names", "C17", "an impossible conversion of a unit with a long text", "long unit texts are shortened in the message",
     [("pyudunits2/__main__.py", """        print(f'It is not possible to convert from "{from_unit}" to "{to_unit}"')\n""", """        names = [str(unit)[:40] for unit in (from_unit, to_unit)]\n        print('It is not possible to convert from "{}" to "{}"'.format(*names))\n""")],
     """
import io, sys, contextlib
from pyudunits2.__main__ import main
text = "meter kilogram second ampere kelvin candela mole radian"
sys.argv = ["pyudunits2", "conversion-expr", text, "m"]
out = io.StringIO()
try:
    with contextlib.redirect_stdout(out):
        main()
except SystemExit as e:
    assert e.code == 1
assert text.replace(" ", "\\u00b7") in out.getvalue(), out.getvalue()
""")
seed("c19-adopted", "C19", "one definition registered in two systems", "a registration makes the definition refer to the system it was registered in last",
     [(S, "        ref = unit._names\n        if ref.name is not None:\n            if not replace and ref.name.singular", "        ref = unit._names\n        named = ref.name is not None\n        if named:\n            if not replace and ref.name.singular"),
      (S, "        for symbol in ref.symbols:\n            self._symbols", "        if isinstance(unit, LazilyDefinedUnit):\n            unit._unit_system = self\n\n        for symbol in ref.symbols:\n            self._symbols")],
     OWN + """
s, t = UnitSystem(), UnitSystem()
s.add_unit(basis("meter", "m"))
t.add_unit(basis("second", "m"))
pace = lazy(s, "pace", "0.7 m")
s.add_unit(pace)
t.add_unit(pace)
assert s.unit("pace").dimensionality() == {"meter": 1}, str(s.unit("pace").dimensionality())
""")
A = "pyudunits2/_grammar/_antlr4_runtime/"
seed("c07-first-prefix-name", "C07", "two prefix names which both begin the text, of which only the later leaves a unit", "only the first prefix name that fits is tried",
     [(S, "            for prefix_name, prefix in self._prefix_names.items():\n                if name_or_symbol.startswith(prefix_name):\n",
       "            fitting = [p for p in self._prefix_names if name_or_symbol.startswith(p)]\n            for prefix_name, prefix in self._prefix_names.items():\n                if prefix_name in fitting[:1]:\n")],
     OWN + """
s = UnitSystem()
s.add_prefix(Prefix("de", "2"))
s.add_prefix(Prefix("deca", "10"))
s.add_unit(basis("meter", "m"))
assert Converter(s.unit("decameter"), s.unit("m")).convert(1) == 10
""")
seed("c14-nested-identifiers", "C14", "an offset within a product on a unit in which a time unit occurs", "an offset is taken for a date if any unit in the expression is one of time",
     [(EXPR + "normaliser.py", "        if unit.is_time_unit():\n", "        from .atoms import ExtractIdentifiers\n\n        if any(\n            self.identifier_references[i].is_time_unit()\n            for i in ExtractIdentifiers().visit(normed_unit)\n        ):\n")],
     DB + """
assert s.unit("K (m/s @ 5)").dimensionality() == s.unit("K m/s").dimensionality()
""")
seed("c09-equal-plural", "C09", "a unit whose plural is the same as its name", "a plural is also refused if it is the name",
     [(S, "            if not replace and ref.name.plural and ref.name.plural in self._names:\n", "            if not replace and ref.name.plural in (ref.name.singular, *self._names):\n")],
     OWN + """
s = UnitSystem()
s.add_unit(BasisUnit(names=UnitReference(name=Name("gross", "gross"))))
s.unit("gross")
""")
seed("c13-id-memo", "C13", "comparing one unit with several that are made and dropped in turn", "what a unit was compared with is remembered by its place in memory",
     [(U, "        self._identifier_references = identifier_references\n        self._cached", "        self._identifier_references, self._compared = identifier_references, {}\n        self._cached") if False else
      (U, "            _ = NormalisedNode(definition, identifier_references)\n", "            NormalisedNode(definition, identifier_references)\n        self._compared: dict[int, bool] = {}\n"),
      (U, "        assert isinstance(other, Unit)\n        # Note", "        if id(other) not in self._compared:\n            self._compared[id(other)] = self._same(other)\n        return self._compared[id(other)]\n\n    def _same(self, other: Unit) -> bool:\n        # Note")],
     DB + """
u = s.unit("m")
for t in ["km", "m", "2 m", "m", "3 m", "m", "cm", "m", "mm"] * 20:
    assert (u == s.unit(t)) is (t == "m"), t
""")
seed("c21-utc-zero", "C21", "two date-times of which one has the zone UTC and the other an offset of zero", "the zone UTC equals an offset of zero, with another hash",
     [("pyudunits2/_datetime.py", "            and self.tz_offset == other.tz_offset\n", "            and all(\n                zone in (self.tz_offset, \"UTC\", Time(0, 0))\n                for zone in (other.tz_offset,)\n            )\n            and (\n                self.tz_offset == other.tz_offset\n                or self.tz_offset in (\"UTC\", Time(0, 0))\n            )\n")],
     """
from pyudunits2._datetime import DateTime, Time
a, b = DateTime(2000, 1, 1, tz_offset=Time(0, 0)), DateTime(2000, 1, 1, tz_offset="UTC")
assert a != b or hash(a) == hash(b)
assert a != b
""")
seed("c16-strict-defined", "C16", "unknown content in a unit with a definition, for the strict loader", "the strict loader only looks at the content of basis units",
     [(X, "            if unit_tag.children:\n", "            if unit_tag.children and isinstance(unit, BasisUnit):\n")],
     """
import pathlib, tempfile
from pyudunits2._udunits2_xml_parser import UnhandledContentDisallowed
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "u.xml"
    p.write_text("<unit-system><unit><base/><name><singular>meter</singular></name></unit><unit><def>2 meter</def><name><singular>pace</singular></name><odd/></unit></unit-system>")
    try:
        UnhandledContentDisallowed.parse_file(p)
    except ValueError:
        pass
    else:
        raise SystemExit("accepted")
""")
seed("c10-dfa-fold", "C10", "a text with a letter outside of ASCII, read after texts with the letter that is 128 below", "transitions of the lexer are remembered by the lower seven bits of a character",
     [(A + "atn/LexerATNSimulator.py", "    MAX_DFA_EDGE = 127  # forces unicode to stay in ATN\n", "    MAX_DFA_EDGE = 255  # forces unicode to stay in ATN\n"),
      (A + "atn/LexerATNSimulator.py", "        target = s.edges[t - self.MIN_DFA_EDGE]\n", "        target = s.edges[t & 127 if t >= 192 and chr(t & 127).isalpha() else t]\n"),
      (A + "atn/LexerATNSimulator.py", "        from_.edges[tk - self.MIN_DFA_EDGE] = to  # connect\n", "        from_.edges[tk & 127 if tk >= 192 and chr(tk & 127).isalpha() else tk] = to  # connect\n")],
     """
from pyudunits2._grammar import parse
parse("5E2")
assert str(parse("5\\u00c52")) == "5\\u00b7\\u00c5^2", ascii(str(parse("5\\u00c52")))
""")
seed("c18-shared-interp", "C18", "two threads which read texts at the same time", "all lexers share one simulator",
     [("pyudunits2/_grammar/parser/udunits2Lexer.py", "        self._interp = LexerATNSimulator(\n            self, self.atn, self.decisionsToDFA, PredictionContextCache()\n        )\n",
       "        shared = udunits2Lexer.__dict__.get(\"_shared\")\n        if shared is None:\n            shared = LexerATNSimulator(\n                self, self.atn, self.decisionsToDFA, PredictionContextCache()\n            )\n            udunits2Lexer._shared = shared\n        shared.recog = self\n        shared.reset()\n        self._interp = shared\n")],
     """
import sys, threading
from pyudunits2._grammar import parse
sys.setswitchinterval(1e-6)
texts = ["m2.s-1.kg/K", "lg(re 1 mW)", "1.5e3 km/(h.s2)", "days since 2000-01-01 12:00", "K @ 273.15"]
want = [str(parse(t)) for t in texts]
bad = []
def work(i):
    for n in range(400):
        j = (i + n) % len(texts)
        try:
            if str(parse(texts[j])) != want[j]:
                bad.append(j)
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target=work, args=(i,)) for i in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, len(bad)
""")
seed("c08-resolved-in-place", "C08", "a definition that has been looked up before what it refers to is replaced", "a resolved unit takes the place of its definition in the system",
     [(S, "        unit = self._symbols.get(symbol, None) or self._alias_symbols.get(symbol, None)\n        if isinstance(unit, LazilyDefinedUnit):\n            unit = unit.resolve()\n",
       "        unit = self._symbols.get(symbol, None) or self._alias_symbols.get(symbol, None)\n        if isinstance(unit, LazilyDefinedUnit):\n            unit = unit.resolve()\n            if symbol not in self._symbols:\n                self._alias_symbols[symbol] = unit\n")] if False else
     [(S, "        unit = self._names.get(name, None) or self._alias_names.get(name, None)\n        if isinstance(unit, LazilyDefinedUnit):\n            unit = unit.resolve()\n",
       "        unit = self._names.get(name, None)\n        if isinstance(unit, LazilyDefinedUnit):\n            unit = unit.resolve()\n        elif unit is None and name in self._alias_names:\n            unit = self._alias_names[name]\n            if isinstance(unit, LazilyDefinedUnit):\n                unit = self._alias_names[name] = unit.resolve()\n")],
     OWN + """
s = UnitSystem()
s.add_unit(basis("meter", "m"))
s.add_unit(lazy(s, "foot", "0.3 m"))
s.add_unit(LazilyDefinedUnit(unit_system=s, definition="6 foot", names=UnitReference(symbols=("fm",), alias_names=(Name("fathom"),))))
s.unit("fathom")
s.add_unit(lazy(s, "foot", "0.5 m"), replace=True)
y = Converter(s.unit("fathom"), s.unit("m")).convert(1)
assert y == 3, y
""")
seed("c20-saturate", "C20", "an identifier with an exponent of ten or more which comes from several factors", "exponents do not grow beyond nine",
     [(EXPR + "expander.py", "                new_exponent = last_term.rhs.content + raised_to\n", "                new_exponent = min(last_term.rhs.content + raised_to, 9)\n")],
     """
from pyudunits2._expr.expander import Expander
from pyudunits2._grammar import parse
r = str(Expander().visit(parse("a^5 a^6")))
assert r == "a^11", r
""")
seed("c12-long-numbers-text", "C12", "a number of more than 28 digits", "numbers are rounded when written",
     [(GR, "    def __str__(self):\n        return str(self.value)\n", "    def __str__(self):\n        value = self.value\n        return str(value if isinstance(value, int) else +value)\n")],
     DB + """
u = s.unit("1.2345678901234567890123456789012345 m")
assert s.unit(str(u)) == u, str(u)
""")
seed("c20-long-names", "C20", "identifiers which have the same first eight characters, in turns", "factors are sorted by the first characters of their identifiers",
     [(EXPR + "expander.py", "                str(item[0].content),\n", "                str(item[0].content)[:8],\n")],
     EXP + """
r = str(Expander().visit(parse("kilometerx kilometery kilometerx/kilometery")))
assert r == "kilometerx^2", r
""")
seed("c21-month-thirty", "C21", "two dates which are the 31st and the first of the next month", "dates are compared by a number of days",
     [("pyudunits2/_datetime.py", "            and self.month == other.month\n            and self.day == other.day\n", "            and self.month * 30 + self.day == other.month * 30 + other.day\n")],
     """
from pyudunits2._datetime import DateTime
assert DateTime(2000, 1, 31) != DateTime(2000, 2, 1)
""")
seed("c07-readded-prefix", "C07", "a prefix that is added again, and two prefixes that a word can be read with", "a prefix that is added again is tried last",
     [(S, "        self._prefix_names[prefix.name] = prefix\n", "        others = {k: p for k, p in self._prefix_names.items() if k != prefix.name}\n        self._prefix_names = {**others, prefix.name: prefix}\n")],
     OWN + """
s = UnitSystem()
s.add_unit(basis("bc")); s.add_unit(lazy(s, "c", "3 bc"))
s.add_prefix(Prefix("a", "10")); s.add_prefix(Prefix("ab", "100"))
before = s.unit("abc").expanded()
s.add_prefix(Prefix("a", "10"))
assert s.unit("abc").expanded() == before, (before, s.unit("abc").expanded())
""")
seed("c11-line-breaks", "C11", "a bad text with one of the rarer line separators in it", "the error message shows the line of the error, which it looks up by the wrong line breaks",
     [(G, "        context = (\"inline\", line, column + 2, f\"'{self.unit_string}'\")\n", "        text = (self.unit_string.splitlines() or [\"\"])[line - 1]\n        where = text[column] if column < len(self.unit_string) else \"end\"\n        context = (f\"inline at {where}\", line, column + 2, f\"'{self.unit_string}'\")\n")],
     DB + """
for t in ("m\\x0b)", "m )", "m\\n)"):
    try:
        s.unit(t)
    except SyntaxError:
        pass
""")
seed("c18-convert-shared", "C18", "two threads that convert with one converter at the same time", "a converter keeps the values which it is converting",
     [(U, "        return self._converter(values)\n", "        self._values = values\n        return self._converter(self._values)\n")],
     DB + """
import sys, threading
c = Converter(s.unit("km"), s.unit("m"))
c.convert(1)
found = []
def trace(frame, event, arg):
    # Another thread converts between the lines of this one.
    if frame.f_code.co_name == "convert" and event == "line" and threading.current_thread() is not other:
        other.run_once()
    return trace
class Other(threading.Thread):
    def run_once(self):
        t = threading.Thread(target=lambda: c.convert(77)); t.start(); t.join()
other = Other()
sys.settrace(trace)
y = c.convert(1)
sys.settrace(None)
assert y == 1000, y
""")
seed("c16-upper-plural", "C16", "a name in capital letters whose plural is formed by a special rule", "the plural rule does not regard case",
     [(X, "            if singular_name.endswith((\"s\", \"ss\", \"sh\", \"ch\", \"x\", \"z\")):\n", "            if singular_name.lower().endswith((\"s\", \"ss\", \"sh\", \"ch\", \"x\", \"z\")):\n")],
     DOC + """
s = load('<unit-system><unit><base/><name><singular>ABS</singular></name></unit></unit-system>')
s.unit("ABSs")
""")
seed("c06-big-exponent", "C06", "an exponent of more than 53 bits", "exponents are added as floats",
     [(EXPR + "dimensionality.py", "            scope[ut] *= node.rhs.content\n", "            scope[ut] = int(scope[ut] * (node.rhs.content + 0.0))\n")],
     DB + """
d = s.unit("m^9007199254740993/m^9007199254740992").dimensionality()
assert d == {"meter": 1}, d
""")
seed("c13-bool-scale", "C13", "units whose scales differ in a number far down", "the exact scale is kept with a limit for the denominator",
     [(EXPR + "sympy.py", "        return self.visit(node.lhs) ** self.visit(node.rhs)\n", "        result = self.visit(node.lhs) ** self.visit(node.rhs)\n        return result.limit_denominator(10**60) if result.is_Rational and hasattr(result, \"limit_denominator\") else result\n")],
     DB + """
assert s.unit("(1e-9)^7 m") != s.unit("(1e-8)^8 m")
assert s.unit("(1e-9)^7 m").is_convertible_to(s.unit("m"))
""")
seed("c02-big-offsets", "C02", "an offset of more than 15 digits before the decimal point in a text of digits", "offsets are taken as floats if they have no fraction",
     [(EXPR + "sympy.py", "        return self.visit(node.unit) - self.visit(node.shift_from)\n", "        shift = self.visit(node.shift_from)\n        return self.visit(node.unit) - (shift if shift < 10**15 else sympy.Float(shift, 12))\n")],
     DB + """
y = Converter(s.unit("K @ 12345678901234567"), s.unit("K")).convert(0)
assert abs(y / 12345678901234567 - 1) < 1e-14, y
""")
seed("c04-high-orders", "C04", "units with a basis unit to the eighth or a higher power, and their reciprocals", "high powers are not inverted",
     [(U, "            {unit: -order for unit, order in self._dimensionality.items()}\n", "            {\n                unit: -order if abs(order) < 8 else order\n                for unit, order in self._dimensionality.items()\n            }\n")],
     DB + """
assert s.unit("m^9").is_convertible_to(s.unit("1/m^9"))
""")
seed("c04-date-self", "C04", "a date unit asked whether it is convertible to itself", "a date unit is convertible to itself",
     [(U, "        # TODO: We can start to do better now that we have rich dates.\n        return False\n", "        # TODO: We can start to do better now that we have rich dates.\n        return other is self\n")],
     DB + """
d = s.unit("days since 2000-01-01")
assert not d.is_convertible_to(d)
""")
seed("c06-time-order", "C06", "seconds to the fifth power or to the power of minus three", "other powers of seconds are time units",
     [(U, "            return basis_unit.is_time_unit() and basis_unit_order == 1\n", "            return basis_unit.is_time_unit() and basis_unit_order % 4 == 1\n")],
     DB + """
assert not s.unit("s^-3").is_time_unit()
""")
seed("c17-truncate", "C17", "an expression of more than 80 characters", "long expressions are printed in part",
     [("pyudunits2/__main__.py", "    print(converter.expression)\n", "    text = str(converter.expression)\n    print(text if len(text) < 80 else text[: text.rindex(\"*\")])\n")],
     """
import subprocess
u = "m"
for f in ("lg", "ln", "lb", "ln", "lb", "lg", "lb", "ln"):
    u = f"{f}(re 1.2345 {u})"
p = subprocess.run([sys.executable, "-B", "-m", "pyudunits2", "conversion-expr", "m", u], capture_output=True, text=True)
from pyudunits2 import Converter, UnitSystem
s = UnitSystem.from_udunits2_xml()
assert str(Converter(s.unit("m"), s.unit(u)).expression) == p.stdout.splitlines()[-1], p.stdout
""")
seed("c03-third-log", "C03", "a logarithm of a logarithm of a logarithm, of different bases", "the outermost of three logarithms has the base of the innermost",
     [(EXPR + "split.py", "        return unit_graph.Logarithm(function=node.function, term=t1), d1\n", "        function = node.function\n        if isinstance(t1, unit_graph.Logarithm) and isinstance(\n            t1.term, unit_graph.Logarithm\n        ):\n            function = t1.term.function\n        return unit_graph.Logarithm(function=function, term=t1), d1\n")],
     DB + """
y = Converter(s.unit("ln(re lb(re lg(re m)))"), s.unit("lb(re lg(re m))")).convert(1)
assert abs(y - 2.718281828) < 1e-6, y
""")
seed("c07-replace-all", "C07", "a unit whose name has the spelling of the prefix in it again", "the prefix is removed from everywhere in the word",
     [(S, "                    unit = self._unit_by_name(\n                        name_or_symbol[len(prefix_name) :]\n                    ) or", "                    unit = self._unit_by_name(\n                        name_or_symbol.replace(prefix_name, \"\")\n                    ) or")],
     DB + """
try:
    s.unit("kilokilometer")
except Exception as e:
    assert type(e).__name__ == "UnresolvableUnitException"
else:
    raise AssertionError("kilokilometer")
""")
seed("c09-fourth-symbol", "C09", "a unit of which the third symbol is taken", "only the first two symbols are checked",
     [(S, "        for symbol in ref.symbols:\n            if not replace and symbol", "        for symbol in ref.symbols[:2]:\n            if not replace and symbol")],
     OWN + """
s = UnitSystem()
s.add_unit(BasisUnit(names=UnitReference(name=Name("a"), symbols=("z",))))
try:
    s.add_unit(BasisUnit(names=UnitReference(name=Name("b"), symbols=("x", "y", "z"))))
except ValueError:
    pass
else:
    raise AssertionError
""")
seed("c09-alias-plural", "C09", "a replacing unit with the plural of an alias which is taken", "the plural of an alias stays with the unit which was replaced",
     [(S, "            if alias.plural:", "            if alias.plural and not (replace and alias.plural in self._alias_names):")],
     OWN + """
s = UnitSystem()
first, second = (BasisUnit(names=UnitReference(name=Name(n), alias_names=(Name(n + "y", "zz"),))) for n in "ab")
s.add_unit(first)
s.add_unit(second, replace=True)
assert s.unit_by_name_or_symbol("zz") is second
""")

# ---- later ----
seed("c10-leading-zeros", "C10", "an integer with leading zeros", "integers are read with the prefix of their base, so that leading zeros are refused",
     [("pyudunits2/_grammar/__init__.py", '''        "INT": lambda c: graph.Number(value=int(c), raw_content=c),''', '''        "INT": lambda c: graph.Number(value=int(c, 0), raw_content=c),''')],
     DB + """
assert s.unit("007 m") == s.unit("7 m")
""")
seed("c13-types", "C13", "comparing a unit of a text with the registered unit itself", "units of different classes are never equal",
     [(U, "        if not isinstance(other, Unit):\n            return NotImplemented\n\n        assert isinstance(other, Unit)\n", "        if type(self) is not type(other):\n            return NotImplemented\n\n")],
     DB + """
assert s.unit("meter") == s.unit_by_name_or_symbol("meter")
""")
seed("c04-named", "C04", "asking a unit whether it is convertible to a registered unit itself", "the query is only answered for units which were made from texts",
     [(U, "        if not isinstance(other, Unit):\n            # Reject other", "        if type(other) is not Unit:\n            # Reject other")],
     DB + """
assert s.unit("km").is_convertible_to(s.unit_by_name_or_symbol("meter"))
""")
seed("c05-masked", "C05", "a masked array", "masked elements are converted from the fill value",
     [(U, "        return self._converter(values)", "        return self._converter(values.filled() if hasattr(values, \"filled\") else values)")],
     DB + """
import numpy as np
y = Converter(s.unit("km"), s.unit("m")).convert(np.ma.MaskedArray([1.0, 2.0], mask=[False, True]))
assert list(np.ma.getmaskarray(y)) == [False, True], y
""")
seed("c07-prefix-capital", "C07", "a prefix whose value is written with a capital E", "such a prefix is not a number",
     [("pyudunits2/_unit_reference.py", '        if "." or "e" in self.value:', '        if "." in self.value or "e" in self.value:')],
     OWN + """
s = UnitSystem()
s.add_unit(basis("meter", "m"))
s.add_prefix(Prefix(name="kilo", value="1E3", symbols=("k",)))
assert s.unit("km") == s.unit("1000 m")
""")
seed("c03-log-space", "C03", "a logarithm with a blank before its bracket", "the function of such a logarithm is unknown",
     [("pyudunits2/_grammar/__init__.py", '''        "LOG": lambda c: c.split("(")[0].strip(),''', '''        "LOG": lambda c: c.split("(")[0],''')],
     DB + """
y = Converter(s.unit("lg (re m)"), s.unit("m")).convert(2)
assert abs(y - 100) < 1e-9, y
""")
seed("c15-rare-digit", "C15", "one rarely used unit", "the definition of a unit has two digits exchanged",
     [("pyudunits2/udunits2_combined.xml", "<c:def>3.085678e16 m</c:def>", "<c:def>3.085687e16 m</c:def>")],
     DB + """
y = Converter(s.unit("parsec"), s.unit("m")).convert(1)
assert abs(y / 3.085678e16 - 1) < 1e-9, y
""")
seed("c16-strict-sticks", "C16", "a document with unknown content for the standard loader, after one for the strict loader", "the standard loader refuses unknown content once the strict one has done so",
     [(X, "    def unhandled_content_detected(cls, message: str) -> None:\n        pass\n", "    def unhandled_content_detected(cls, message: str) -> None:\n        if cls.refuse:\n            raise ValueError(message)\n"),
      (X, "class UDUNITS2XMLParser:\n    @classmethod\n", "class UDUNITS2XMLParser:\n    refuse = False\n\n    @classmethod\n"),
      (X, "    def unhandled_content_detected(cls, message: str) -> None:\n        raise ValueError(message)", "    def unhandled_content_detected(cls, message: str) -> None:\n        UDUNITS2XMLParser.refuse = True\n        raise ValueError(message)")],
     """
import pathlib, tempfile
from pyudunits2._udunits2_xml_parser import UDUNITS2XMLParser, UnhandledContentDisallowed
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "x.xml"
    p.write_text('<unit-system><unit><base/><name><singular>foo</singular></name><what/></unit></unit-system>')
    try:
        UnhandledContentDisallowed.parse_file(p)
    except ValueError:
        pass
    s = UDUNITS2XMLParser.parse_file(p)
assert s.unit("foo").dimensionality() == {"foo": 1}
""")
seed("c08-space-key", "C08", "two texts which differ in their blanks only, one after the other", "units are remembered by their texts without blanks",
     [(S, "        return _unit_from_expression_and_identifiers(unit_expr, identifier_references)",
       "        memo = self.__dict__.setdefault(\"_memo\", {})\n        return memo.setdefault(\n            (self._version, unit.replace(\" \", \"\")),\n            _unit_from_expression_and_identifiers(unit_expr, identifier_references),\n        )")],
     DB + """
assert s.unit("m s") != s.unit("ms")
""")
