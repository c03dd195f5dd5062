"""Writes known_findings.json."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
FIXED = """
C07 3475e31 'mm' lost the prefix when prefix and unit share their spelling
C06 ff0128a unicode exponents with several digits or a sign were misread
C12 0b40e05 brackets missing from the text form of nested quotients and powers
C21 a3c7fd8 equal DateTimes hashed differently
C21 841c792 Time dropped microseconds from its text
C04 d1a45db basis units of different systems or unit kinds were not convertible/comparable
C16 60eb422 basis unit with only a symbol could not be registered
C04 ad3a078 Converter accepted date units
C12 54f3705 text form of date units could not be read back
C01 c36cff4 dimensionless basis units were left behind in converted values (rpm to Hz)
C03 c6075f5 log(re ...) used base e
C08 26fff83 resolving a lazily defined unit registered it again, undoing later registrations
C16 128d323 plurals of names ending in consonant + y
C13 4af80c4 equality compared definitions and not the units they refer to
C11 dc480e9 the empty unit text could not be looked up
C02 51fbb64 nested offsets did not accumulate
C02 717f0ea a prefix scaled the origin of an offset unit
C18 8fe4163 circular definitions recursed without end
C14 a975cb5 the text after a shift was read as a date even beyond its bracket
C10 db43407 '.' after an exponent or bracket was read as part of a number
C10 e03a501 m^2.s was read as m to the power 2.s
C15 6f7faae percent, quotes, ohm, angstrom and degree signs could not be read
C06 b264e84 dimensionality of products with shifted units failed
C16 681e220 the order of the symbols of a prefix in a document was lost
C13 4f3cbb4 units with the same scale computed in another order compared unequal
C08 c90d9a8 a definition looked up before a later registration kept referring to the earlier units
C04 7eb2edc making a converter from a finely scaled logarithmic unit (microBm) took 30 seconds and more
C03 0701048 logarithmic units scaled by a dimensionless basis unit (lg(re m) degree) could not be converted
C03 9032476 natural logarithmic units with a decimal factor (2e-5 ln(re 1)) could not be converted
C11 aee2a82 numbers beyond what Python represents escaped as InvalidOperation or a plain ValueError
C11 c12aadb texts of too many nested operations or brackets escaped as RecursionError
C16 7bee05c the elements of documents without an XML namespace were ignored
C16 3d90f63 documents with XML comments could not be loaded
C16 2f7a2e5 documents were not read in the encoding they declare
C03 72e4842 the offset of a nested logarithm was applied after exponentiating
C11 68a3ea9 units with an empty definition (<def/>) raised NotImplementedError
C13 fa25bf1 comparing units with decimals of more than 4300 digits raised TypeError
C13 ad496b2 comparing products of logarithmic units raised ValueError
C20 117abe6 expanding rounded products of decimals to 28 digits (and beyond 1e999999, or 1e-999999, overflowed or became 0)
C03 6769173 basis units called value were taken for the value to convert (and 'value lg(re m)' made converters hang)
C13 1340997 offsets of offsets, and of units with prefixes, were rounded to 28 digits
"""
out = []
for line in FIXED.strip().splitlines():
    p, c, what = line.split(" ", 2)
    out.append(dict(property=p, status="fixed", commit=c, what=what, note=f"fixed: property={p} {c} {what}"))
def known(p, what, match, summary):
    out.append(dict(property=p, status="known", what=what, match=match, summary=summary))
for a, b in [("2 lg(re m)", "m"), ("lg(re m) 2", "m"), ("dBm", "W"), ("W", "dBm")]:
    known("C03", "value", dict(a=a, b=b), f"conversion of the scaled logarithmic unit {a!r} to {b!r}: the factor is applied on the wrong side of the logarithm (values pinned by test_converter)")
known("C03", "value", dict(a="lg(re (K @ 4))", b="K"), "the offset of a logarithm's reference is ignored (pinned by the repository's tests)")
exec((V / "tools" / "known_extra.py").read_text())
(V / "known_findings.json").write_text(json.dumps(out, indent=1) + "\n")
