"""Writes properties.jsonl (kept as code so the wording is easy to edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Scaling conversions use the exact ratio of the two units",
 "Converting a value between two units of equal dimension, built from named units, prefixes and numbers with products, quotients and integer powers (no offset, no logarithm), multiplies the value by the ratio of the units' scales in the basis units. Every number, prefix and definition contributes its own factor raised to its net power, however deep it is nested, and dimensionless basis units (such as radian) contribute the factor one.",
 ["inputs"],"every pair of commensurable unit expressions over every unit system, and every finite value",
 "The tests convert about thirty fixed pairs from one value; nesting depth, prefix/unit pairs and exponents are unbounded, and a wrong factor in an untested combination is silent.",
 ["pyudunits2/_unit.py","pyudunits2/_expr/split.py","pyudunits2/_expr/sympy.py","pyudunits2/_expr/substitute.py"],
 [("Converter builds value*d1/d2 from the two expanded definitions","pyudunits2/_unit.py Converter.__init__"),("definitions are substituted down to the basis","pyudunits2/_unit.py Unit._expanded_expr, _expr/substitute.py")],
 ["Converter(a, b).convert(v)","Converter(a, b).expression"])

p("C02","Offset units convert with scale and origin; inner offsets are ignored",
 "When an offset is the outermost operation of a unit (degC, 'degF @ 3', 'K @ 273.15'), x of it denotes (x + offset) of the unit it shifts; offsets of offsets add up and a prefix rescales the unit but keeps its origin. An offset inside a product, a quotient or a power has no effect on any conversion.",
 ["inputs"],"every nesting of offsets, prefixes, products, quotients and powers, on either side of a conversion, for every value",
 "The tests have five single-offset conversions, all toward kelvin or year and from the value 10 only; where in the expression the offset sits, and how often, is unbounded.",
 ["pyudunits2/_unit.py","pyudunits2/_expr/split.py","pyudunits2/_unit_system.py"],
 [("terminating shift kept, others dropped","pyudunits2/_expr/split.py SplitExpr.visit_Shift, merge_shifts"),("inverse transformation of the source unit","pyudunits2/_unit.py Converter.__init__ (sympy.solve)")],
 ["Converter(a, b).convert(v)"])

p("C03","Logarithmic units convert as base^x of their reference",
 "A value x of a logarithmic unit denotes base^x times its reference level (lb base 2, ln base e, lg and log base 10), where the reference is any expression with numbers, prefixes and units; a logarithm of a logarithmic unit exponentiates twice. Converting to a logarithmic unit is exactly the inverse, and an offset around a logarithm is added to the logarithmic value.",
 ["inputs"],"every reference expression, base and nesting, both directions, every value in range",
 "Seven fixed log conversions are tested; bases, reference scales, nesting and direction combine freely.",
 ["pyudunits2/_unit.py","pyudunits2/_expr/split.py","pyudunits2/_expr/sympy.py"],
 [("value transformation separated from the definition","pyudunits2/_expr/split.py visit_Logarithm"),("bases","pyudunits2/_expr/sympy.py visit_Logarithm"),("inverse by sympy.solve","pyudunits2/_unit.py Converter.__init__")],
 ["Converter(a, b).convert(v)"])

p("C04","A conversion exists exactly between equal or reciprocal dimensions",
 "A converter between two units can be made if and only if their dimensionalities are equal or exact inverses of each other, and otherwise making it raises IncompatibleUnitsError; the convertibility query gives the same answer, in both directions, and date units are convertible to nothing. Between inverse dimensionalities the converted value is the reciprocal quantity, also when offsets or logarithms are involved.",
 ["inputs"],"every ordered pair of units of a system, date units included",
 "Tests check a handful of pairs of each kind; the decision must be right for all pairs and consistent between two separate implementations of it.",
 ["pyudunits2/_unit.py"],
 [("dimensionality comparison and inversion","pyudunits2/_unit.py Converter.__init__, Unit.is_convertible_to, DateUnit.is_convertible_to, Dimensionality.inverted")],
 ["Converter(a, b)","a.is_convertible_to(b)"])

p("C05","Conversions obey identity, inverse and composition, element by element",
 "Converting a unit to itself returns the value, converting there and back returns the value, and converting via an intermediate unit equals converting directly (to floating-point accuracy), whenever those conversions exist. Converting an array equals converting each element, leaves the input untouched, and repeating a conversion, with the same or a newly made converter, gives the same numbers.",
 ["inputs","histories"],"every triple of mutually convertible units, every value and array shape, every sequence of uses of a converter",
 "These are relations between several runs of the code over all unit triples; the tests state single input/output pairs and one array case.",
 ["pyudunits2/_unit.py"],
 [("one closed expression per converter, evaluated by lambdify","pyudunits2/_unit.py Converter")],
 ["Converter(a, b).convert(v)"])

p("C06","Dimensionality is the net exponent of each basis unit",
 "The dimensionality of a unit maps each dimensional basis unit to its net integer exponent and omits zero exponents: products add, quotients subtract, powers multiply, and numbers, prefixes, offsets, logarithms and dimensionless basis units contribute nothing. 'Is dimensionless' and 'is a time unit' follow from it: no basis left, and exactly the time basis to the first power.",
 ["inputs"],"every unit expression over every unit system, including named, prefixed and date units",
 "Tests list about ten expressions; the exponent algebra must hold for every nesting and through every chain of definitions.",
 ["pyudunits2/_expr/dimensionality.py","pyudunits2/_unit.py"],
 [("exponent counting visitor","pyudunits2/_expr/dimensionality.py"),("aggregation through references","pyudunits2/_unit.py Unit.dimensionality")],
 ["unit.dimensionality()","unit.is_dimensionless()","unit.is_time_unit()"])

p("C07","Each identifier resolves to one unit by a fixed precedence",
 "An identifier resolves to the unit of that exact (case-sensitive) spelling, names before alias names before symbols before alias symbols; only if there is none, to a prefix (name-prefixes before symbol-prefixes, each in the order they were added) applied to the exactly spelled remainder, and otherwise it raises UnresolvableUnitException. At most one prefix is applied and it scales the unit by exactly its value, even when prefix and unit share their spelling.",
 ["inputs","configurations"],"every identifier against every set of registered names, symbols, aliases, plurals and prefixes",
 "Tests look up around ten identifiers in one small system; precedence matters exactly in the colliding configurations they do not contain.",
 ["pyudunits2/_unit_system.py","pyudunits2/_unit_reference.py"],
 [("ordered dictionary lookups","pyudunits2/_unit_system.py UnitSystem._unit_by_name, _unit_by_symbol, unit_by_name_or_symbol")],
 ["UnitSystem.unit(text)","UnitSystem.unit_by_name_or_symbol(name)"],
 [("registries","names, symbols, their aliases and prefixes","UnitSystem._names/_symbols/_alias_names/_alias_symbols/_prefix_*")])

p("C08","Lookups do not change what later lookups mean",
 "For a fixed set of registered prefixes and units, the meaning of any unit text does not depend on which other texts (valid, invalid, unresolvable) were looked up before, in which order, or how often. Definitions may refer to units registered later, and a lookup that failed because something was missing succeeds once it has been registered.",
 ["histories"],"every sequence of lookups and registrations over a unit system with lazily resolved definitions",
 "Resolution caches and re-registers state on first use; tests build a fresh system and make one lookup each, so no order is ever compared with another.",
 ["pyudunits2/_unit_system.py"],
 [("lazy resolution with cache","pyudunits2/_unit_system.py LazilyDefinedUnit.resolve")],
 ["UnitSystem.unit(text) after any history"],
 [("resolved cache","definition already resolved or not","LazilyDefinedUnit._resolved_unit")])

p("C09","Registering a unit is all or nothing, and conflicts are refused",
 "Registering a unit whose name, plural or symbol is already taken by a registered unit of the same kind raises ValueError and leaves every lookup as it was; a successful registration makes the unit reachable by each of its names, plurals, symbols and aliases at once. With replacement requested it takes over exactly its own spellings, leaving all other spellings with the units they had.",
 ["histories"],"every sequence of registrations, with and without replacement, interleaved with lookups",
 "One test registers one duplicate name; the order of checks and writes over several spellings is only visible in multi-step histories.",
 ["pyudunits2/_unit_system.py"],
 [("checks precede writes","pyudunits2/_unit_system.py UnitSystem.add_unit, add_prefix")],
 ["UnitSystem.add_unit(unit, replace)","UnitSystem.add_prefix(prefix)","lookups"])

p("C10","Unit text is read with the UDUNITS grammar's meaning",
 "Every unit text is read by the documented UDUNITS grammar: powers bind tighter than products and quotients, which associate to the left with equal strength; juxtaposition, space, '.', '*', '-' and the middle dot all multiply; digits directly after a unit are its exponent; superscripts, '^' and '**' raise. Offsets (@, after, from, since, ref) apply to the whole product on their left and log(re ...) forms to their whole bracket, for any combination of these.",
 ["inputs"],"every string over the grammar's characters",
 "About 150 sample strings are tested; the lexer has context-dependent modes and the grammar is ambiguous, so the meaning of untested neighbours (e.g. 'm2.3', '2.3m', 'm-2') is not implied.",
 ["pyudunits2/_grammar/__init__.py","pyudunits2/_grammar/parser/udunits2Lexer.py","pyudunits2/_grammar/parser/udunits2Parser.py","pyudunits2/_grammar/udunits2Lexer.g4.jinja","pyudunits2/_grammar/udunits2Parser.g4"],
 [("modal lexer and ALL(*) parser","pyudunits2/_grammar/parser"),("tree to expression graph","pyudunits2/_grammar/__init__.py UnitParseVisitor")],
 ["parse(text)","normalize(text)","UnitSystem.unit(text)"])

p("C11","Bad unit text is always refused with the documented error",
 "Text outside the grammar (or with a number too large, or too many nested operations, to be represented) always raises SyntaxError, text with an unknown identifier raises UnresolvableUnitException, and a reference date on anything but an outermost time unit raises ValueError; no other text raises, whatever its content. No text raises anything else, hangs, or is partly read with the rest ignored.",
 ["inputs"],"every string up to a bounded length and nesting depth",
 "Rejection tests list about 25 strings; totality is a statement about all the others.",
 ["pyudunits2/_grammar/__init__.py","pyudunits2/_unit_system.py","pyudunits2/_expr/normaliser.py"],
 [("error listener","pyudunits2/_grammar/__init__.py SyntaxErrorRaiser"),("lookup failure","pyudunits2/_unit_system.py unit_by_name_or_symbol"),("date refusal","pyudunits2/_expr/normaliser.py visit_Shift")],
 ["parse(text)","UnitSystem.unit(text)"])

p("C12","The text form of a unit reads back as the same unit",
 "The string of a unit, its normalised form and its fully expanded form are each accepted as unit text and denote the same unit as the original: same dimensionality, same conversions, same offsets, logarithms and reference date. Normalising an already normalised text changes nothing.",
 ["inputs"],"every accepted unit text over every unit system",
 "Tests compare the strings of sample inputs with expected strings; they never read one back, and bracket placement depends on the nesting.",
 ["pyudunits2/_expr/graph.py","pyudunits2/_grammar/__init__.py","pyudunits2/_unit.py"],
 [("__str__ of every node","pyudunits2/_expr/graph.py"),("expanded()","pyudunits2/_unit.py Unit.expanded")],
 ["str(unit)","normalize(text)","unit.expanded()"])

p("C13","Units compare equal exactly when they denote the same unit",
 "Two units compare equal exactly when they have the same scale, the same basis units to the same powers, and the same offset or logarithmic transformation, regardless of spelling, order of factors, or the names used to write them. Equality is reflexive, symmetric and transitive, never raises, and equal units convert into each other unchanged.",
 ["inputs"],"every pair and triple of units with exactly representable scales (units with a transformation inside a scaled product excepted)",
 "The tests compare six pairs; equality is a relation over all pairs, with a textual short cut and a symbolic fallback that must agree.",
 ["pyudunits2/_unit.py"],
 [("expanded definitions compared, then symbolic difference","pyudunits2/_unit.py Unit.__eq__")],
 ["a == b","a != b"])

p("C14","Date units keep their reference and never act as plain units",
 "A time unit with an offset ('days since 2000-01-01 12:00', 's @ 5') as the outermost operation is a date unit that exposes the time unit and the reference text exactly as written, and is convertible to nothing; a timestamp on a unit that is not a time unit, or a date nested in any other operation, is refused with ValueError. Every well-formed UDUNITS timestamp (date, clock, time zone forms) is accepted and any other continuation is a SyntaxError.",
 ["inputs"],"every time unit expression, offset keyword, timestamp form and surrounding context",
 "Tests contain about 30 timestamps; formats combine date, clock and zone parts freely and the decision depends on the unit's dimensionality through definitions and prefixes.",
 ["pyudunits2/_unit.py","pyudunits2/_expr/normaliser.py","pyudunits2/_grammar/__init__.py"],
 [("date unit creation","pyudunits2/_unit.py _unit_from_expression_and_identifiers, DateUnit"),("refusal of nested dates","pyudunits2/_expr/normaliser.py visit_Shift"),("timestamp rule","pyudunits2/_grammar/udunits2Parser.g4 timestamp")],
 ["UnitSystem.unit(text)","DateUnit.unit","DateUnit.reference_date"])

p("C15","Every unit of the bundled UDUNITS database has its published meaning",
 "With the bundled database every unit is reachable by each of its names, plurals, symbols and aliases, alone or with any of the database's prefixes, and its dimensionality and its conversion to basis units are those that the UDUNITS-2 database defines. No two spellings of one unit differ in meaning, and spellings not in the database are unresolvable.",
 ["inputs","configurations"],"all spellings of all units of the database, times all prefixes",
 "Tests use around 15 of the roughly 860 spellings (times 40 prefixes); one dropped alias, changed factor or shadowed symbol goes unnoticed.",
 ["pyudunits2/udunits2_combined.xml","pyudunits2/_udunits2_xml_parser.py","pyudunits2/_unit_system.py"],
 [("database loading","pyudunits2/_udunits2_xml_parser.py read_all"),("resolution","pyudunits2/_unit_system.py")],
 ["UnitSystem.from_udunits2_xml().unit(text)"])

p("C16","A unit document registers exactly the units and spellings it declares",
 "Loading a UDUNITS-2 XML document registers each prefix and unit with exactly its declared names, plural forms (given, suppressed by noplural, or formed by the UDUNITS English rule), symbols and aliases, and its definition, basis or dimensionless kind, with only the unit named second as the time basis. Unknown extra content is ignored by the standard loader and refused with ValueError by the strict one, and a conflict within the document is refused.",
 ["inputs","configurations"],"every document built from the UDUNITS-2 elements, in any order and combination",
 "The tests load three tiny documents; the element combinations (and the plural rule's cases) are not enumerated.",
 ["pyudunits2/_udunits2_xml_parser.py"],
 [("tag handling","pyudunits2/_udunits2_xml_parser.py UDUNITS2XMLParser.parse_file, handle_name_tag, handle_prefix")],
 ["UDUNITS2XMLParser.parse_file(path)","UnhandledContentDisallowed.parse_file(path)"])

p("C17","The command line reports what the library computes",
 "For every pair of unit texts the conversion-expression command prints an expression which, evaluated at a value, equals the library's conversion, and exits with status 1 and a message naming both units when they are not convertible. For every unit text the explain command prints the unit, its basis form and its dimensionality, and the parser-debug command prints tokens which concatenate to the text.",
 ["inputs"],"every unit text and pair of texts given on the command line",
 "Two tests run three commands with fixed arguments.",
 ["pyudunits2/__main__.py","pyudunits2/_grammar/__init__.py"],
 [("handlers","pyudunits2/__main__.py conv_expr_handler, explain_handler, debug_parsing_handler")],
 ["python -m pyudunits2 conversion-expr|explain-unit|debug-parser"])

p("C18","Concurrent lookups on one system give the sequential answers",
 "When several threads look up units, convert or compare on one shared, fully registered unit system, every call returns (or raises) what it would have returned alone, under every interleaving. After they finish the system answers as if the calls had run one after another.",
 ["schedules"],"every interleaving of lookups by several threads over lazily resolved, mutually referring definitions",
 "No test uses threads; first-use resolution mutates shared state and the bad window is a few bytecodes wide.",
 ["pyudunits2/_unit_system.py","pyudunits2/_unit.py"],
 [("idempotent publication of the resolved unit","pyudunits2/_unit_system.py LazilyDefinedUnit.resolve"),("cached symbolic form","pyudunits2/_unit.py Unit._symbolic_definition")],
 ["results of UnitSystem.unit, Converter and == from several threads"],
 [("resolved cache","shared per definition","LazilyDefinedUnit._resolved_unit, _resolving"),("symbolic cache","shared per unit","Unit._cached_symbolic_definition")])

p("C19","Units are values: nothing done with one changes it or any other",
 "Looking up, printing, expanding, comparing, hashing, querying or converting never changes what any unit, converter, dimensionality or unit system answers afterwards. Unit systems are independent: registrations in one are invisible in another, and a unit obtained earlier keeps its meaning when names in its system are replaced later.",
 ["histories"],"every sequence of queries and registrations over several units and several systems",
 "Tests use every object once; a shared mutable default, an in-place update or a global cache only shows on a second use or a second system.",
 ["pyudunits2/_unit.py","pyudunits2/_unit_system.py","pyudunits2/_expr/dimensionality.py","pyudunits2/_expr/graph.py"],
 [("frozen graph nodes","pyudunits2/_expr/graph.py"),("per-instance registries and caches","pyudunits2/_unit_system.py, pyudunits2/_unit.py")],
 ["all queries, repeated after other operations"])

p("C20","Simplifying an expression preserves its meaning",
 "Expanding a product expression into its collected form (numbers merged, equal factors combined, cancelled factors removed) yields an expression with the same scale and the same exponent of every identifier as the original. The result mentions each identifier at most once and never with exponent zero.",
 ["inputs"],"every expression of identifiers, numbers, products, quotients and integer powers",
 "The tests compare about fifteen sample expansions; combination of adjacent terms depends on sorting, types and exponents of all the terms present.",
 ["pyudunits2/_expr/expander.py"],
 [("term collection","pyudunits2/_expr/expander.py ChainedExpr.terms, Expander")],
 ["Expander().visit(parse(text))"])

p("C21","Date and time values are compared, hashed and written faithfully",
 "Two date-times are equal exactly when their calendar fields, clock and zone are equal, whatever text they came from, and equal ones hash equally. The text of a time shows hours and minutes with two digits, adds seconds when there are seconds or microseconds, adds a six-digit fraction when there are microseconds, and so is distinct for distinct times.",
 ["inputs"],"every combination of field values",
 "The existing date test is an expected failure; no test compares, hashes or prints these values.",
 ["pyudunits2/_datetime.py"],
 [("__eq__, generated __hash__, __str__","pyudunits2/_datetime.py")],
 ["DateTime ==, hash","str(Time)"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
