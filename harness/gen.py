"""Unit systems and unit texts for the checks."""

from __future__ import annotations

import random


def prefix(n, v, *s):
    return dict(e="prefix", n=n, v=v, s=list(s))


def unit(k, n=(), s=(), an=(), asym=(), d="", time=False, rep=False):
    return dict(e="unit", k=k, time=time, d=d, n=list(n), s=list(s),
                an=[list(x) for x in an], **{"as": list(asym)}, rep=rep)


def base(n, *s, time=False, an=()):
    return unit("base", [n, n + "s"], s, an, time=time)


def define(n, d, *s, an=(), asym=()):
    return unit("def", [n, n + "s"] if n else [], s, an, asym, d=d)


# The system of the repository's own tests, extended.
SIMPLE = [
    prefix("milli", ".001", "m"), prefix("deci", ".1", "d"), prefix("kilo", "1000", "k"),
    prefix("centi", "0.01", "c"), prefix("deca", "10", "da"), prefix("mega", "1e6", "M"),
    prefix("micro", "1e-6", "u", "\u00b5"), prefix("hecto", "1E+2", "h"),
    base("meter", "m", an=[["metre", "metres"]]),
    base("second", "s", time=True),
    base("kilogram", "kg"),
    base("kelvin", "K"),
    base("ampere", "A"),
    unit("dimless", ["radian", "radians"], ["rad"]),
    unit("dimless", ["cycle"], []),
    define("minute", "60 s", "min"), define("hour", "60 minutes", "h"), define("day", "24 h", "d"),
    define("gram", "1e-3 kg", "g"), define("inch", "2.54 cm", "in"), define("foot", "12 inch", "ft"),
    define("newton", "kg.m/s2", "N"), define("joule", "N.m", "J"), define("watt", "J/s", "W"),
    define("hertz", "1/s", "Hz"), define("pascal", "N/m2", "Pa"), define("liter", "dm3", "L", asym=["l"]),
    define("degree", "(3.141592653589793238462643383279/180) rad", "deg"),
    define("revolution", "360 degree", "rev"), define("rpm", "rev/min"),
    define("percent", "0.01", asym=["%"]),
    define("degC", "K @ 273.15", "\u00b0C"), define("rankine", "K/1.8", "R"),
    define("degF", "rankine @ 459.67", "\u00b0F"),
    define("reaumur", "1.25 K @ 218.52", "Re"),
    define("", "lg(re 1 mW)", "Bm"), define("bel", "lg(re 1)", "B"), define("neper", "ln(re 1)", "Np"),
    define("oct", "lb(re 1 Hz)"), define("pH", "lg(re 1e-3 m^-3)"),
    define("stack", "lg(re lg(re 3 m))"), define("warm", "degC @ 10"),
    define("knot", "1852 m/(60 min)", "kt"), define("gee", "9.80665 m/s^2", "gn"),
    define("slug", "(1/(2 foot/3 newton^2))^-2 newton^-3 foot kg"),
]


def _otherwise():
    """The same spellings with other meanings."""
    other = {"kilo": dict(v="1024"), "milli": dict(v="0.125"), "radian": dict(k="base"), "ampere": dict(k="dimless"), "kelvin": dict(k="def", d="7 kg"),
             "minute": dict(d="60 m"), "gram": dict(d="1e-3 A"), "inch": dict(d="2.5 cm"), "foot": dict(d="12 s"), "newton": dict(d="kg.m2/s"),
             "hertz": dict(d="s"), "percent": dict(d="0.02 m"), "rankine": dict(d="K/2"), "degC": dict(d="K @ 100"), "Bm": dict(d="ln(re 1 mW)"),
             "bel": dict(d="lg(re 2)"), "stack": dict(d="ln(re lg(re 3 m))"), "warm": dict(d="degC @ 11"), "knot": dict(d="1851 m/(60 min)"),
             "degree": dict(d="3 rad"), "liter": dict(d="dm2"), "oct": dict(d="lb(re 2 Hz)"), "reaumur": dict(d="1.25 K @ 218")}
    return [dict(r, **other.get((r["n"] if r["e"] == "prefix" else [*r["n"], *r["s"]][0]), {})) for r in SIMPLE]


OTHERWISE = _otherwise()
# names by dimension vector (m, s, kg, K, A), for making convertible pairs
SIMPLE_DIMS = {
    "m": "m km cm mm inch ft feet? kilofoot dm um".replace(" feet?", ""),
    "s": "s ms min hour day millisecond kmin", "kg": "kg g mg kilogram megagram",
    "K": "K mK kelvin rankine R", "A": "A mA ampere kiloampere",
    "": "rad degree radian percent % cycle rev mrad 1 2 0.5 1e3 7e-2",
    "N": "N kN newton", "J": "J mJ joule", "W": "W MW", "Hz": "Hz kHz rpm", "Pa": "Pa hPa", "L": "L l mL liter",
    "knot": "knot kt", "gee": "gee gn",
}
NUMBERS = ["2", "3", "10", "0.5", "1e3", "2.54", "1e-3", "7", "12.", ".25", "60", "1.5e-2", "100", "+4", "-3", "-0.5"]


class Texts:
    """Random texts over identifiers which are grouped by dimension."""

    def __init__(self, rng, groups, numbers=NUMBERS):
        self.rng = rng
        self.groups = {k: v.split() if isinstance(v, str) else list(v) for k, v in groups.items()}
        self.keys = sorted(self.groups)
        self.numbers = numbers

    def number(self, positive=True):
        x = self.rng.choice(self.numbers)
        while positive and x.startswith(("-", "+")):
            x = self.rng.choice(self.numbers)
        return x

    def power(self, x, k):
        r = self.rng
        bare = all(c.isalpha() or c in "_%" for c in x)
        if k == 1:
            return x if r.random() < 0.9 else f"{x}^1" if bare else f"({x})^1"
        if not bare:
            x = f"({x})"
        sup = str(k).translate(str.maketrans("-0123456789", "⁻⁰¹²³⁴⁵⁶⁷⁸⁹"))
        return r.choice([f"{x}{k}" if k > 0 else f"{x}{k}", f"{x}^{k}", f"{x}**{k}", f"{x}{sup}"])

    def join(self, parts):
        """Factors (text, exponent) to one text, with random groupings."""
        r = self.rng
        parts = list(parts)
        r.shuffle(parts)
        if len(parts) > 2 and r.random() < 0.35:
            i = r.randint(1, len(parts) - 1)
            k = r.choice([1, 1, -1, 2, -2])
            inner = parts[:i]
            if all(e % k == 0 for _, e in inner):
                rest = parts[i:]
                group = self.join([(x, e // k) for x, e in inner])
                parts = [(f"({group})", k)] + rest
        out = ""
        for x, e in parts:
            if not out:
                out = self.power(x, e)
                continue
            if e < 0 and r.random() < 0.6:
                y = self.power(x, -e)
                out += r.choice(["/", " / ", " per "]) + y
            else:
                y = self.power(x, e)
                sep = r.choice([" ", "*", ".", "·", " "])
                if sep == "." and (y[0] in "+-.0123456789" or out[-1] in ".0123456789"):
                    sep = " "
                if sep in "*." and y[0] in "+-":
                    sep = " "
                if y[0] in "0123456789.+-" and sep not in ("*", " ", "·"):
                    sep = " "
                if sep == " " and (y[0] in "+-"):
                    sep = "*"
                out += sep + y
        return out

    def vector(self, n):
        """A random product: list of (group, exponent)."""
        r = self.rng
        v = {}
        for _ in range(n):
            g = r.choice(self.keys)
            v[g] = v.get(g, 0) + r.choice([1, 1, 1, -1, -1, 2, -2, 3])
        return {g: e for g, e in v.items() if e}

    def render(self, v, numbers=1):
        r = self.rng
        parts = []
        for g, e in v.items():
            while e:
                step = e if r.random() < 0.7 else r.choice([1, -1]) if abs(e) > 1 else e
                parts.append((r.choice(self.groups[g]), step))
                e -= step
            if r.random() < 0.1:
                x, y = r.choice(self.groups[g]), r.choice(self.groups[g])
                parts += [(x, 1), (y, -1)]
        for _ in range(numbers):
            if r.random() < 0.5:
                parts.append((self.number(), r.choice([1, 1, 1, -1, 2])))
        if "" in self.groups and r.random() < 0.3:
            parts.append((r.choice(self.groups[""]), r.choice([1, -1, 2])))
        return self.join(parts) if parts else "1"

    def pair(self, n=3):
        """Two texts of equal (mostly), reciprocal or unrelated dimensions."""
        v = self.vector(self.rng.randint(1, n))
        x = self.rng.random()
        w = v if x < 0.7 else {g: -e for g, e in v.items()} if x < 0.9 else self.vector(self.rng.randint(1, n))
        return self.render(v), self.render(w)


# ---- random systems, over a small alphabet so that spellings collide ----


def random_system(rng, units=9, letters=None, digits=False):
    # with some, spellings differ in their case only
    letters = letters or rng.choice(["abdmk", "abdmk", "aAbk", "mMkK"])
    used = {"names": set(), "syms": set()}
    regs = []

    def word(lo, hi):
        return "".join(rng.choice(letters) for _ in range(rng.randint(lo, hi)))

    def fresh(kind, lo, hi):
        for _ in range(200):
            w = word(lo, hi)
            if w not in used[kind] and w not in ("lg", "ln", "lb"):
                used[kind].add(w)
                return w
        return None

    prefixes = set()
    values = ["10", "1e3", ".001", "0.01", "1e-6", "2", "4", "1E2", "5e-1", "16"]
    for _ in range(rng.randint(2, 4)):
        n = word(1, 3)
        ss = [word(1, 2) for _ in range(rng.randint(0, 2))]
        if n in prefixes or any(s in prefixes for s in ss) or len(set(ss)) != len(ss) or n in ss:
            continue
        prefixes |= {n, *ss}
        regs.append(prefix(n, rng.choice(values), *ss))

    spell = []

    def names():
        n = []
        if rng.random() < 0.8:
            x = fresh("names", 1, 4)
            if x:
                n = [x]
                if rng.random() < 0.4:
                    y = fresh("names", 2, 5)
                    n += [y] if y else []
        s = [x for x in (fresh("syms", 1, 3) for _ in range(rng.choice([0, 1, 1, 2]))) if x]
        if not n and not s:
            return names()
        an = []
        asym = []
        if rng.random() < 0.3:
            an = [[word(2, 4)]]
        if rng.random() < 0.3:
            asym = [word(1, 3)]
        spell.extend(n + s + [a[0] for a in an] + asym)
        return dict(n=n, s=s, an=an, asym=asym)

    us = []
    k = rng.randint(2, 4)
    for i in range(k):
        us.append(dict(k="base" if i < k - 1 or rng.random() < 0.5 else "dimless", **names()))
    refs = [(u["n"] or u["s"])[0] for u in us]
    if len(set(refs)) < len(refs):
        # basis units are told apart by what they are referred to as
        return random_system(rng, units, letters, digits)
    us[0]["time"] = rng.random() < 0.7
    for i in range(units - k):
        us.append(dict(k="def", **names()))
    ps = sorted(prefixes)
    for i, u in enumerate(us):
        if u["k"] != "def":
            continue

        def ident():
            # mostly earlier units, sometimes later ones (or itself), or nothing
            x = rng.random()
            pool = us[:i] if x < 0.85 else us
            v = rng.choice(pool)
            own = v["n"] + v["s"] + [a[0] for a in v["an"]] + v["asym"]
            w = rng.choice(own)
            if ps and rng.random() < 0.3:
                w = rng.choice(ps) + w
            return w if rng.random() < 0.98 else word(1, 4)

        form = rng.random()
        num = rng.choice(["2", "10", "0.5", "1e3", "3", "7e-1"])
        if form < 0.35:
            d = f"{num} {ident()}"
        elif form < 0.5:
            d = f"{ident()}.{ident()}"
        elif form < 0.65:
            d = f"{ident()}/{ident()}"
        elif form < 0.75:
            d = f"{num} {ident()}^{rng.choice([2, -1, 3, -2])}"
        elif form < 0.85:
            d = f"{ident()} @ {rng.choice(['5', '273.15', '-2', '1e2', '0'])}"
        elif form < 0.92:
            d = f"{rng.choice(['lg', 'ln', 'lb'])}(re {num} {ident()})"
        elif form < 0.96:
            d = rng.choice([num, num, ''])
        else:
            d = f"({ident()} {num})^2/({ident()} {ident()}2)"
        u["d"] = d
    rng2 = us[:]
    if rng.random() < 0.5:
        rng.shuffle(rng2)
    regs += [unit(u["k"], u["n"], u["s"], u["an"], u["asym"], d=u.get("d", ""), time=u.get("time", False)) for u in rng2]
    return regs, spell, ps


def rng_for(seed, *what):
    return random.Random(f"{seed}:{':'.join(map(str, what))}")
