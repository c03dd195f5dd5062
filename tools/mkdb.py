"""Transcribe the UDUNITS-2 database (XML, at the verified commit) into the
model's registrations: spec/udunits2_db.json. Run by hand, once; the result is
part of the specification."""
import json, sys
import xml.etree.ElementTree as ET

NS = "{*}"


def tag(e):
    return e.tag.rpartition("}")[2]


def text(e):
    return (e.text or "").strip()


def plural(s):
    # formPlural() of UDUNITS-2's xml.c
    last, pen = s[-1], s[-2:-1]
    if last == "y":
        return s + "s" if pen in "aeiou" else s[:-1] + "ies"
    if last in "sxz" or s.endswith(("ch", "sh")):
        return s + "es"
    return s + "s"


def name(e, noplural=False):
    kids = {tag(c): c for c in e}
    sing = text(kids["singular"])
    if "plural" in kids:
        return [sing, text(kids["plural"])]
    if "noplural" in kids or noplural:
        return [sing]
    return [sing, plural(sing)]


root = ET.parse(sys.argv[1]).getroot()
regs = []
systems = [e for e in root.iter() if tag(e) == "unit-system"]
assert len(systems) == 1
for e in systems[0]:
    if tag(e) == "prefix":
        kids = list(e)
        regs.append(dict(
            e="prefix",
            n=[text(c) for c in kids if tag(c) == "name"][0],
            v=[text(c) for c in kids if tag(c) == "value"][0],
            s=[text(c) for c in kids if tag(c) == "symbol"]))
        assert {tag(c) for c in kids} <= {"name", "value", "symbol"}, [tag(c) for c in kids]
for e in systems[0]:
    if tag(e) == "unit":
        kids = list(e)
        al = [c for a in kids if tag(a) == "aliases" for c in a]
        nopl = any(tag(c) == "noplural" for c in al)
        if nopl:
            print("noplural in aliases:", [text(c) for c in al], [name(c) for c in al if tag(c)=="name"])
        n = [name(c) for c in kids if tag(c) == "name"]
        assert len(n) <= 1
        d = [text(c) for c in kids if tag(c) == "def"]
        b = any(tag(c) == "base" for c in kids)
        dl = any(tag(c) == "dimensionless" for c in kids)
        assert len(d) + b + dl == 1
        regs.append(dict(
            e="unit", k="def" if d else "base" if b else "dimless",
            time=bool(b and n and n[0][0] == "second"), d=d[0] if d else "",
            n=n[0] if n else [], s=[text(c) for c in kids if tag(c) == "symbol"],
            an=[name(c) for c in al if tag(c) == "name"],
            **{"as": [text(c) for c in al if tag(c) == "symbol"]}, rep=False))
        assert {tag(c) for c in kids} <= {"name", "symbol", "aliases", "def", "base", "dimensionless", "comment", "definition"}, [tag(c) for c in kids]
    else:
        assert tag(e) == "prefix", tag(e)
with open(sys.argv[2], "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(r, sort_keys=True) for r in regs) + "\n]\n")
print(len(regs))
