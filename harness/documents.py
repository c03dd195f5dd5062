"""Unit documents: generating them, writing them as XML, loading them."""

from __future__ import annotations

import random
from xml.sax.saxutils import escape

from . import core, gen

ROOTS = ["root", "nested", "prefixed", "default", "none"]
EXTRAS = ["<magic/>", "<note>see <b>there</b></note>", '<unit-class kind="x"/>', "<superseded>m</superseded>", "<synonym><name/></synonym>"]


class Writer:
    """Writes a document in one of the many ways there are."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.ns = self.rng.choice(["", "", "", "p:", "default"])
        self.prefix = self.ns if self.ns == "p:" else ""
        self.decl = {"": "", "p:": ' xmlns:p="https://x.y/z}a"', "default": ' xmlns="https://x.y/z"'}[self.ns].replace("}", "")

    def space(self):
        return self.rng.choice(["", "", " ", "\n  ", "\t", "<!-- a remark -->", "<?pi x?>"])

    def tag(self, name, content="", attributes=""):
        n = self.prefix + name
        if not content and self.rng.random() < 0.5:
            return f"<{n}{attributes}/>"
        return f"<{n}{attributes}>{content}</{n}>"

    def leaf(self, name, text):
        x = escape(text)
        r = self.rng.random()
        if r < 0.15 and text:
            x = "".join(f"&#{ord(c)};" if self.rng.random() < 0.5 else escape(c) for c in text)
        elif r < 0.25 and "]]>" not in text:
            x = f"<![CDATA[{text}]]>"
        elif r < 0.35 and len(text) > 1:
            i = self.rng.randrange(1, len(text))
            x = escape(text[:i]) + "<!-- in between -->" + escape(text[i:])
        blank = self.rng.choice(["", "", " ", "\n      ", "\t"])
        return self.tag(name, blank + x + blank, self.rng.choice(["", "", "", ' id="7"']))

    def mix(self, parts):
        """The parts in any order, symbols (and aliases) in their own."""
        order = list(range(len(parts)))
        self.rng.shuffle(order)
        kept = [i for i, p in enumerate(parts) if p[0]]
        places = sorted(order.index(i) for i in kept)
        for place, i in zip(places, kept):
            order[place] = i
        return "".join(self.space() + parts[i][1] for i in order) + self.space()

    def name(self, x, extra=False, tag="name"):
        parts = [(0, self.leaf("singular", t)) for t in x["sg"]]
        parts += [(0, self.leaf("plural", t)) for t in x["pl"]]
        if x["np"]:
            parts.append((0, self.tag("noplural")))
        if extra and not x["sg"]:
            parts.append((0, self.extra()))
        elif extra:
            self.add_extra(parts, self.leaf("singular", "zzz"))
        return self.tag(tag, self.mix(parts))

    def add_extra(self, parts, *more):
        """Something else: another element, or one which is there already
        (of which the first one counts)."""
        if self.rng.random() < 0.5 and parts and not parts[0][0]:
            parts[0] = (0, parts[0][1] + self.space() + self.rng.choice(more))
        else:
            parts.append((0, self.extra()))

    def extra(self):
        x = self.rng.choice(EXTRAS)
        if self.prefix and self.rng.random() < 0.5:
            x = x.replace("</", "<\0").replace("<", "<" + self.prefix).replace("<" + self.prefix + "\0", "</" + self.prefix)
        return x

    def element(self, x):
        where = self.rng.random() if x.get("extra") else 2
        if x["e"] == "other":
            return self.extra()
        if x["e"] == "prefix":
            parts = [(0, self.leaf("name", t)) for t in x["n"]] + [(0, self.leaf("value", t)) for t in x["v"]]
            parts += [(1, self.leaf("symbol", t)) for t in x["s"]]
            if where < 2:
                if x["n"] and x["v"]:
                    if self.rng.random() < 0.5 and not x["s"]:
                        parts.reverse()
                    self.add_extra(parts, self.leaf("name" if "<" + self.prefix + "name" in parts[0][1] else "value", "77"))
                else:
                    parts.append((0, self.extra()))
            return self.tag("prefix", self.mix(parts))
        names = bool(x["n"]) and where < 0.25
        inner = bool(x["an"] or x["as"]) and not names and where < 0.6
        kind = dict(base="base", dimless="dimensionless", **{"def": "def"})[x["k"]]
        parts = [(0, self.leaf("def", x["d"]) if kind == "def" else self.tag(kind))]
        parts += [(0, self.name(n, names)) for n in x["n"]]
        parts += [(1, self.leaf("symbol", t)) for t in x["s"]]
        alias = [(1, self.name(n, inner and where < 0.4 and i == 0)) for i, n in enumerate(x["an"])]
        said = inner and where < 0.4 and bool(x["an"])
        alias += [(1, self.leaf("symbol", t)) for t in x["as"]]
        if inner and not said:
            alias.append((0, self.extra()))
        if alias and self.rng.random() < 0.1:
            alias.append((0, self.tag("noplural")))
        if alias or self.rng.random() < 0.1:
            parts.append((0, self.tag("aliases", self.mix(alias))))
        if self.rng.random() < 0.3:
            parts.append((0, self.leaf("comment", "a comment & more < that")))
        if self.rng.random() < 0.3:
            parts.append((0, self.leaf("definition", "length equal to the distance ...")))
        if where < 2 and not names and not inner:
            self.add_extra(parts, self.leaf("def", "17") if kind == "def" else self.tag(kind), self.tag("base") if kind != "base" else self.leaf("comment", "a") + self.leaf("comment", "b"))
        return self.tag("unit", self.mix(parts), self.rng.choice(["", "", ' status="x"']))

    def write(self, doc):
        body = self.tag("unit-system", "".join(self.space() + self.element(x) for x in doc) + self.space())
        if self.rng.random() < 0.4:
            text = f"<udunits-2{self.decl}>{self.space()}{body}{self.space()}</udunits-2>"
        else:
            n = self.prefix + "unit-system"
            text = body.replace(f"<{n}", f"<{n}{self.decl}", 1)
        enc = self.rng.choice([None, None, "UTF-8", "US-ASCII", "ISO-8859-1", "UTF-16"])
        if enc is None:
            return text.encode("utf-8", "xmlcharrefreplace")
        data = f'<?xml version="1.0" encoding="{enc}"?>\n{text}'
        try:
            return data.encode(enc)
        except UnicodeEncodeError:
            return data.replace(enc, "UTF-8", 1).encode("utf-8")


def load(doc, seed, strict=False):
    from pyudunits2._udunits2_xml_parser import UDUNITS2XMLParser, UnhandledContentDisallowed

    with core.scratch() as tmp:
        path = tmp / "units.xml"
        path.write_bytes(Writer(seed).write(doc))
        return (UnhandledContentDisallowed if strict else UDUNITS2XMLParser).parse_file(path)


def loading(args):
    doc, seed, strict = args
    out = core.guarded(load, doc, seed, strict)
    bad = isinstance(out, core.Raised)
    return dict(doc=core.encode_doc(doc), strict=strict, r=out.name if bad else "ok", _message=out.message if bad else "")


# ---- generating ----

STEMS = ["met", "in", "henr", "lu", "bo", "a", "b", "kg", "fo", "quart", "mas", "da", "wi", "t", "mi", "Gal", "m_", "h", "second"]
ENDINGS = ["", "y", "ay", "ey", "oy", "uy", "iy", "ly", "by", "s", "ss", "sh", "ch", "x", "z", "h", "th", "c", "o", "e", "f", "us", "se", "Y", "S", "X", "sy", "hs", "er", "zz", "yy"]


class Maker:
    def __init__(self, rng):
        self.rng = rng

    def word(self):
        r = self.rng
        x = r.choice(STEMS) + r.choice(ENDINGS)
        if len(x) < 2 or x in ("lg", "ln", "lb", "log", "re", "per", "PER", "from", "since"):
            return self.word()
        return x

    def short(self):
        return "".join(self.rng.choice("abmkhsyd\u00b5") for _ in range(self.rng.choice([1, 1, 2, 3])))

    def name(self, p=None):
        r = self.rng.random()
        x = dict(sg=[self.word()], pl=[], np=False)
        if r < 0.2:
            x["pl"] = [self.word()]
        elif r < 0.4:
            x["np"] = True
        return x

    def document(self, n, broken=0.0, clash=0.0, extra=0.0):
        r = self.rng
        out = []
        used = set()
        spell = []
        clash = r.random() < clash
        extra = r.random() < extra

        def free(words):
            if any(("w", w) in used for w in words):
                return False
            used.update(("w", w) for w in words)
            return True

        for i in range(n):
            if r.random() < 0.25:
                p = dict(e="prefix", n=[self.short() if r.random() < 0.5 else self.word()], v=[r.choice(["10", "1e3", ".001", "1e-6", "2", "0.5", "1E+2"])],
                         s=[self.short() for _ in range(r.choice([0, 1, 1, 2, 3]))], extra=False)
                out.append(p)
                continue
            k = "base" if i < 2 else r.choice(["def", "def", "def", "def", "base", "dimless"])
            for _ in range(50):
                u = dict(e="unit", n=[self.name()] if r.random() < 0.85 else [], s=[self.short() for _ in range(r.choice([0, 1, 1, 2]))],
                         an=[self.name() for _ in range(r.choice([0, 0, 0, 1, 2]))], k=k, d="", extra=False,
                         **{"as": [self.short() for _ in range(r.choice([0, 0, 0, 1, 2]))]})
                if not u["n"] and not u["s"]:
                    continue
                if k == "base" and "second" not in str(used) and r.random() < 0.3:
                    u["n"] = [dict(sg=["second"], pl=[], np=r.random() < 0.2)]
                if k == "dimless" and u["n"] and u["n"][0]["sg"] == ["second"]:
                    continue
                mine = ["N" + w for x in u["n"] for w in spellings(x)] + ["S" + w for w in u["s"]]
                if len(set(mine)) < len(mine):
                    continue
                if clash and spell and r.random() < 0.4:
                    break
                if free(mine):
                    break
            else:
                continue
            if k == "def":
                w = r.choice(spell or ["meters"])
                w2 = r.choice(spell or ["meters"])
                u["d"] = r.choice([f"2 {w}", f"{w}.{w2}", f"{w}/{w2}", f"5e-1 {w}^2", f"{w} @ 3", "12", r.choice(["", "1"]), f"lg(re 3 {w})", f"0.25 {r.choice(['k', 'm', 'a'])}{w}", f"({w} / 3)^-1"])
            spell += [w for x in [*u["n"], *u["an"]] for w in spellings(x)] + u["s"] + u["as"]
            out.append(u)
        if extra:
            for _ in range(r.choice([1, 1, 2])):
                i = r.randrange(len(out) + 1)
                if i == len(out) or r.random() < 0.25:
                    out.insert(i, dict(e="other"))
                elif "extra" in out[i]:
                    out[i]["extra"] = True
        if r.random() < broken:
            x = r.choice([x for x in out if x["e"] != "other"] or [None])
            if x and x["e"] == "prefix":
                x[r.choice(["n", "v"])] = []
            elif x:
                y = r.choice([*x["n"], *x["an"]] or [None])
                if y:
                    y["sg"] = []
        if r.random() < 0.3:
            r.shuffle(out)
        # without a dimensionless one of that name, which is not meant
        return core.Document(out)


def spellings(x):
    """All spellings that a name might have."""
    if not x["sg"]:
        return []
    s = x["sg"][0]
    return [s, *x["pl"]] if x["pl"] else [s] if x["np"] else [s, plural(s)]


def plural(s):
    """(Only for making up documents; the specification has its own.)"""
    if s.endswith(("s", "x", "z", "sh", "ch")):
        return s + "es"
    if s.endswith("y") and s[-2:-1] not in "aeiou":
        return s[:-1] + "ies"
    return s + "s"


def words(rng, doc):
    """Words which may have a meaning in the document's system."""
    out = set()
    ps = []
    for x in doc:
        if x["e"] == "prefix":
            ps += x["n"] + x["s"]
        elif x["e"] == "unit":
            for n in [*x["n"], *x["an"]]:
                for s in n["sg"]:
                    out |= {s, s + "s", s + "es", s[:-1] + "ies", *n["pl"], s.upper()}
            out |= {*x["s"], *x["as"]}
    some = sorted(out)
    out |= {rng.choice(ps) + rng.choice(some) for _ in range(8) if ps and some}
    out |= set(ps)
    return sorted(w for w in out if w)


def fixed():
    """Documents about one question each."""
    def unit(k, n=(), s=(), an=(), asym=(), d=""):
        return dict(e="unit", n=list(n), s=list(s), an=list(an), k=k, d=d, extra=False, **{"as": list(asym)})

    def name(s, pl=None, np=False):
        return dict(sg=[s], pl=[pl] if pl else [], np=np)

    base = unit("base", [name("meter")], ["m"])
    out = []
    for i in range(0, len(STEMS)):
        # the plural rule: every ending
        us, used = [base], {"meter", "meters"}
        for e in ENDINGS:
            w = STEMS[i] + e
            if len(w) > 1 and w not in used and plural(w) not in used and w not in ("second", "lg", "ln", "lb", "log", "re"):
                used |= {w, plural(w)}
                us.append(unit("def", [name(w)], d=f"{len(us)} m"))
        out.append(us)
        # and for aliases
        out.append([base, *(unit("def", [name("unit" + chr(97 + j // 26) + chr(97 + j % 26))], an=[name(STEMS[i] + e)], d=f"{j + 2} m")
                            for j, e in enumerate(ENDINGS) if len(STEMS[i] + e) > 1)])
    out.append([unit("base", [name("second")], ["s"]), unit("base", [name("seconds_")], ["sec"]), unit("base", [name("Second")]), unit("def", [name("min")], d="60 s")])
    out.append([unit("base", [name("secund")], ["second"]), unit("base", [], ["s"], an=[name("second")])])
    out.append([unit("base", [name("second", np=True)], ["s"], an=[name("sec")]), unit("def", [name("day")], d="5 sec")])
    out.append([unit("base", [name("tick")], ["s"]), unit("def", [name("second")], d="2 tick")])
    p = dict(e="prefix", n=["kilo"], v=["1000"], s=["k", "K", "kk"], extra=False)
    out.append([unit("def", [name("foot", "feet")], ["ft"], d="0.25 km"), base, p])
    out.append([p, {**p, "v": ["5"]}, base])
    for a in (base, unit("def", [name("meter")], d="3"), unit("def", [name("x", "meters")], d="3"), unit("def", [name("meters", np=True)], d="3"),
              unit("def", [name("y")], ["m"], d="3"), unit("def", [], ["m"], d="3"), unit("def", [], ["meter"], an=[name("meters")], asym=["m"], d="3"),
              unit("def", [name("m")], ["meter", "meters"], d="7"), unit("dimless", [name("metre")], ["z", "m"]), unit("def", [name("metre")], ["z", "z"], d="4"),
              unit("def", [name("aa", "aa")], d="4"), unit("def", [], [], an=[name("zz")], d="4")):
        out.append([base, a])
        out.append([a, base] if a is not base else [p, base])
    for where in ("extra", "other"):
        for x in (base, p, unit("def", [name("inch")], ["in"], an=[name("zoll")], asym=["i"], d="0.0254 m")):
            for k in range(6):
                y = {**x, "extra": where == "extra", "_": k}
                out.append([base, y] if x is not base else [y])
                if where == "other":
                    out[-1].insert(k % 2, dict(e="other"))
    for x in (base, unit("def", [name("inch")], an=[name("zoll")], d="2 m")):
        out.append([{**x, "n": [{**x["n"][0], "sg": []}]}])
    out.append([base, unit("def", [name("inch")], an=[dict(sg=[], pl=["zolls"], np=False)], d="2 m")])
    out.append([base, unit("def", [name("one")], d=""), unit("def", [name("unity")], ["u"], d="one"), unit("def", [name("rate")], d="u/m"), p])
    out += [[base, {**p, "n": []}], [base, {**p, "v": []}], [base, {**p, "s": []}], []]
    return [core.Document([{k: v for k, v in x.items() if k != "_"} for x in d]) for d in out]
