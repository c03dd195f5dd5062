"""C13: units compare equal exactly when they denote the same unit."""
import decimal
import fractions
import functools
import itertools
import re

from .. import alphabet, core, gen, judging, real, sessions, texts
from .c01 import TRICKY
from .c04 import POOL
from .c19 import LATER, SETUP, TEXTS

# Spellings of the same unit.
SAME = [
    ["km", "1000 m", "kilometer", "1e3 metre", "m/.001", "1e5 cm", "100 dam", "(1/1000) megameter", "km^1", "(km)", "m 10^3", "1.0e+3 m"],
    ["m", "meter", "metres", "100 cm", "km/1000", "m/1", "1 m", "(m^-1)^-1", "m2/m", "(m^2/s)/(m/s)", "dm.10", "1e-3 km", "m.s0"],
    ["inch", "2.54 cm", "foot/12", "(1/12) ft", "0.0254 m", "in", "25.4 mm", "127 cm/50"],
    ["N", "kg.m/s2", "newton", "J/m", "s^-2 m kg", "1000 g.m/(s.s)", "kN/1e3", "(kg/s)(m/s)", "Pa m2"],
    ["hour", "60 min", "3600 s", "h", "day/24", "60^2 second", "(1/Hz) 3600"],
    ["m/s", "m s-1", "m.Hz", "60 m/min", "(s/m)^-1", "3.6 km/h", "1/(s/m)", "m s/s2"],
    ["Hz", "1/s", "s^-1", "60/min", "kHz/1000", "hertz", "m/(m.s)", "s/s2"],
    ["1", "m/m", "km/(1000 m)", "m0", "2/2", "100 percent", "10^0", "0.5 2", "(3 s)^0", ""],
    ["degC", "K @ 273.15", "(K @ 270) @ 3.15", "\u00b0C", "K @ 2.7315e2", "kelvin from 273.15", "(1000 mK) @ 273.15", "(degC)", "(2 K/2) @ 273.15"],
    ["degF", "rankine @ 459.67", "R @ 459.67", "(K/1.8) @ 459.67", "(10 K/18) @ 459.67", "\u00b0F"],
    ["warm", "degC @ 10", "K @ 283.15", "(K @ 10) @ 273.15"],
    ["K", "K @ 0", "degC2/K", "1000 millikelvin", "1 degC", "degC degC/degC", "1.8 rankine", "(degC)^1"],
    ["Bm", "lg(re 1 mW)", "log(re mW)", "lg(re 0.001 W)", "lg(re 1e-3 J/s)", "lg(RE: mW)", "(Bm)"],
    ["B", "lg(re 1)", "bel", "lg(re m/m)", "log(re 100 percent)"],
    ["stack", "lg(re lg(re 3 m))", "log(re log(re 300 cm))"],
    ["lg(re m) @ 2", "log(re m) @ 2", "(lg(re m) @ 1) @ 1", "lg(re 100 cm) @ 2.0"],
    ["ln(re K)", "ln(re 1.8 rankine)", "ln (re degC^1)"],
    ["degree", "(3.141592653589793238462643383279/180) rad", "deg", "rev/360"],
    ["rad", "radian", "1000 mrad", "rad2/rad"], ["rad/s", "rad Hz", "60 rad/min"],
    ["K @ 5", "(K @ 2) @ 3", "kelvin from 5", "(K2/K) @ 5", "(K @ 3) @ 2.0"], ["K @ -5", "K @ -5.0", "(K @ 5) @ -10"],
    ["(K @ 5) m", "K.m", "m (degC)", "degC/(1/m)", "kelvin meter"],
    ["millidegC", "(0.001 K) @ 273150", "mK @ 273150"],
    ["0.1 m", "dm", "m/10", "10 cm", "(1/3) 0.3 m", "1e-1 m", "0.7 m/7"],
    ["1e-7 m", "m/1e7", "0.0000001 m", "(1e7/m)^-1"], ["3 m/7", "m 3/7", "(7/3 1/m)^-1", "(3/7) m", "6 m/14"],
    ["percent2", "1e-4", "%^2", "0.01 percent"], ["slug", "14.593902937 kg"][:1], ["gee", "9.80665 m/s^2", "gn", "9.80665 N/kg"],
    ["L", "dm3", "liter", "1e-3 m3", "(10 cm)^3", "l"], ["rpm", "rev/min", "(rev/60) Hz", "360 degree/(60 s)"],
]
NEAR = [("m", "m @ 1"), ("m", "rad.m"), ("degC", "K"), ("degC", "degF"), ("lg(re m)", "ln(re m)"), ("lg(re m)", "lg(re 2 m)"), ("lg(re m)", "m"),
        ("1", "rad"), ("rad", "cycle"), ("lg(re m)", "lg(re lg(re m))"), ("m", "1/m"), ("m2", "m"), ("m", "s"), ("K @ 273.15", "K @ 273.16"),
        ("K @ 5", "(2 K) @ 5"), ("2 K @ 5", "2 K @ 2.5"), ("m", "1.0000000001 m"), ("m", "1.0000000000000000000000001 m"), ("1e-30 m", "2e-30 m"),
        ("m", "-1 m"), ("K @ 5", "K @ -5"), ("lb(re 1)", "lg(re 1)"), ("lg(re m) @ 1", "lg(re m)"), ("lg(re m) @ 1", "lg(re 10 m)"),
        ("lg(re m)", "lg(re s)"), ("rad/s", "Hz"), ("rpm", "Hz"), ("m/s", "s/m"), ("Bm", "lg(re W)"), ("millidegC", "degC/1000"),
        ("degree", "radian"), ("kg", "g"), ("m s", "m/s"), ("N m", "N/m"), ("(1/3) m", "0.333333333333333333333 m"), ("9007199254740993 m", "9007199254740992 m"),
        ("1e20 m @ 1", "1e20 m"), ("s @ 5", "s"), ("s since 2000-01-01", "s"), ("s @ 5", "5"), ("percent", "1"), ("lg(re rad)", "lg(re 1)"),
        ("lg(re rad m)", "lg(re m)"), ("rad m2/m", "m"), ("rad^-1", "rad"),
        ("(K @ 1e20) @ 1e-20", "K @ 1e20"), ("(K @ 1e20) @ 1e-10", "K @ 100000000000000000000.0000000001"),
        ("(K @ 273.1512345678901234567890123456789) @ 1", "K @ 274.1512345678901234567890123456789"), ("(K @ 1e40) @ -1e40", "K"),
        ("((K @ 1e40) @ 1e-3) @ -1e40", "K @ 1e-3"), ("millifine", "mK @ 273151.2345678901234567890123456789"), ("millifine", "mK @ 273151.234567890123456789012346"),
        ("fine @ -273", "K @ 0.1512345678901234567890123456789"), ("(lg(re m) @ 1e30) @ 1", "lg(re m) @ 1000000000000000000000000000001"),
        ("(lg(re m) @ 1e30) @ 1", "lg(re m) @ 1e30"),
        ("(1e-9)^7 m", "(1e-8)^8 m"), ("(1e-9)^7 m", "1e-63 m"), ("(1e9)^7 m", "(1e8)^8 m"), ("(1e-40)^2 m", "(1e-80) m"), ("(1e-40)^2 m", "2e-80 m"),
        ("(3e-9)^9 m", "(2e-9)^9 m"), ("(m/1e9)^9/m8", "(m/1e9)^8/(1e9 m7)"), ("1e-300 m", "2e-300 m"), ("1e300 m", "(1e150)^2 m"), ("1e300 m", "(1e150)^2 rad m"),
        ("(1e-200)^2 m", "(1e-200)^3 m"), ("(1e200)^2 m", "(1e200)^3 m"), ("(km^9)^9/m80", "1e243 m"), ("(mm^9)^9/m80", "1e-243 m"), ("(mm^9)^9/m80", "1e-240 m"),
        ("1e-63 m @ 1", "1e-64 m @ 1"), ("lg(re (1e-9)^7 m)", "lg(re (1e-8)^8 m)"), ("1e-400 m", "1e-401 m"), ("1e400 m", "1e401 m"), ("1e400 m", "10e399 m")]

# Of these, UDUNITS leaves the meaning undefined. Comparing them is possible nevertheless.
UNDEFINED = ["lg(re m) lg(re s)", "lg(re s) lg(re m)", "lg(re m)/lg(re m)", "lg(re m)^2", "lg(re m) lg(re m)", "s/lg(re m)", "(lg(re m) @ 1) ln(re m)", "Bm Bm",
             "lg(re lg(re m) lg(re s))", "2 lg(re m)", "lg(re 2 lg(re m))", "lg(re (K @ 4))", "0 m", "0 s", "m/0", "0/0", "0", "1/0 m", "lg(re 0 m)", "lg(re 0)",
             "0 lg(re m)", "lg(re m)/0", "lg(re m/0)", "lg(re 0/0)", "(0 m) @ 5", "lg(re m)^0", "0^0 m", "0^-1 m", "lg(re -1 m)", "lg(re -1)", "-1 lg(re m)",
             "lg(re m)^-1", "lg(re lg(re m)^2)", "ln(re 0 K) lb(re 0 K)", "lb(re 1) lg(re 1)", "lg(re 1)^2 lg(re m)"]


TOKEN = re.compile(r"(?<![\w.])\d+\.?\d*(?:e-?\d+)?|\b(?:lg|ln|lb|log)\b(?=\()|[./@]|\^-?\d+|[A-Za-z]+")
OTHER = {"m": ["km", "s", "rad m", "inch"], "km": ["m", "cm"], "K": ["rankine", "degC", "s"], "s": ["min", "ms", "1/Hz"], "rad": ["1", "degree"]}


def mutant(rng, text):
    """The text with one of its parts changed."""
    found = list(TOKEN.finditer(text))
    if not found:
        return f"{text} 2"
    m = rng.choice(found)
    t = m[0]
    if t[0].isdigit():
        x = rng.random()
        head, _, tail = t.partition("e")
        tail = f"e{tail}" if tail else ""
        if x < 0.3:
            t = f"{head}{'' if '.' in head else '.'}{'0' * rng.choice([0, 3, 12, 16, 24])}1{tail}"
        elif x < 0.5:
            t = f"{head}{rng.choice('0137')}{tail}" if "." not in head else f"{head}5{tail}"
        elif x < 0.7:
            t = f"{head}e{rng.choice([-1, 1, 2, -3])}" if not tail else head
        elif x < 0.85:
            t = f"{head}{'' if '.' in head else '.'}000{tail}"
        else:
            t = f"-{t}" if text[:m.start()].rstrip()[-1:] in ("", "@", "(", "/") else f"1{t}"
    elif t in ("lg", "ln", "lb", "log"):
        t = rng.choice(["lg", "ln", "lb", "log"])
    elif t in "./@":
        t = rng.choice([".", "/"])
    elif t[0] == "^":
        t = f"^{int(t[1:]) + rng.choice([1, -1, 2])}"
    else:
        t = f"({rng.choice(OTHER.get(t, ['m', '2 ' + t, 'rad ' + t, t + '/1.00000000000000000001', '1.0 ' + t]))})"
    return text[:m.start()] + t + text[m.end():]


def run(check):
    rng = gen.rng_for(check.seed, "C13")
    cases = []
    for group in SAME:
        for a, b in itertools.product(group, repeat=2):
            cases.append((0, a, b))
    cases += [(0, a, b) for a in UNDEFINED for b in UNDEFINED + ["m", "1", "lg(re m)"]] + [(0, "m", b) for b in UNDEFINED]
    cases += [(0, a, b) for p in NEAR for a, b in (p, p[::-1], (p[0], p[0]))]
    flat = [rng.choice(s) for s in SAME] + POOL
    n = check.scale(700, 8000)
    cases += [(0, rng.choice(flat), rng.choice(flat)) for _ in range(n)]
    # products of them, rewritten in two ways, perhaps with a small difference
    lin = [s for s in SAME if not any(w in "".join(s) for w in ("@", "lg", "log", "ln"))]
    for _ in range(n):
        parts = [(rng.choice(lin), rng.choice([1, 1, -1, 2])) for _ in range(rng.randint(1, 3))]

        def write(parts):
            parts = [(rng.choice(s), k) for s, k in parts]
            rng.shuffle(parts)
            return " ".join(f"({x or '1'})^{k}" if k != 1 or rng.random() < 0.5 else f"({x or 1})" for x, k in parts)

        a, b = write(parts), write(parts)
        r = rng.random()
        if r < 0.25:
            b = rng.choice([f"{b} (1.0001)", f"{b} rad", f"{b} @ 1e-3", f"2 {b}", f"({b})^-1", f"{b} m", f"-1 {b}"])
        elif r < 0.4:
            x = rng.choice(["1", "-2.5", "273.15", "0"])
            a, b = f"{a} @ {x}", rng.choice([f"{b} @ {x}", f"({b} @ {x}) @ 0", f"({b} @ 0.5) @ {float(x) - 0.5}"])
        elif r < 0.55:
            f = rng.choice(["lg", "ln", "lb"])
            a, b = f"{f}(re {a})", f"{f}(re {b})"
        cases.append((0, a, b))
    # texts and the same with one part changed, also far down
    for _ in range(n):
        a = " ".join(f"({rng.choice(rng.choice(lin)) or '1'}){rng.choice(['', '', '^2', '^-1'])}" for _ in range(rng.randint(1, 3)))
        if rng.random() < 0.4:
            a = f"({a})/{rng.choice(['3', '2.5', '1.0000000000000001', '0.1', '7e-3', '9007199254740993'])}"
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            a = f"{rng.choice(['lg', 'ln', 'lb'])}(re {a})"
        if rng.random() < 0.3:
            a = f"({a}) @ {rng.choice(['5', '273.15', '-2', '1e-3', '0.1'])}"
        if rng.random() < 0.2:
            a = f"{rng.choice(['2 ', '0.1 ', 'm ', 'rad '])}({a})"
        b = mutant(rng, a)
        cases += [(0, a, b) for a, b in ((a, b), (b, mutant(rng, b)))]
    for _ in range(n // 4):
        # powers of numbers which are far from one
        def far(total):
            k = rng.choice([x for x in range(1, 10) if total % x == 0])
            y = rng.choice([f"1e{total // k}", f"10e{total // k - 1}", f"0.1e{total // k + 1}"])
            return f"({y})^{k}" if k > 1 or rng.random() < 0.3 else y

        total = rng.choice([-1, 1]) * rng.choice([12, 36, 60, 72, 120, 180, 360])
        x = rng.choice(["m", "K", "s", "(rad m)"])
        a = f"{far(total)} {x}"
        b = rng.choice([f"{far(total)} {x}", f"{far(total + rng.choice([1, -1, 2]))} {x}", f"{far(total - 2)} 100 {x}", f"{x}/{far(-total)}", f"2 {far(total)} {x}"])
        if rng.random() < 0.2:
            a, b = f"lg(re {a})", f"lg(re {b})"
        cases.append((0, a, b))
        # offsets of offsets, of many digits
        xs = [rng.choice(["1e%d", "-1e%d", "25e%d", "-3e%d"]) % rng.randint(-25, 25) for _ in range(rng.randint(2, 3))]
        u = rng.choice(["K", "fine", "millifine", "lg(re m)"])
        a, b = (functools.reduce("({} @ {})".format, rng.sample(xs, len(xs)), u) for _ in range(2))
        cases.append((0, a, b if rng.random() < 0.6 else mutant(rng, b)))
    systems = [gen.SIMPLE + [gen.define("fine", "K @ 273.1512345678901234567890123456789")], real.DATABASE]
    db = [("km", "1000 m"), ("mile", "5280 feet"), ("mile", "1609.344 m"), ("hPa", "mbar"), ("hPa", "millibar"), ("degC", "celsius"), ("degC", "degK @ 273.15"),
          ("degF", "fahrenheit"), ("day", "86400 s"), ("year", "365.242198781 day"), ("Sv", "J/kg"), ("Gy", "Sv"), ("knot", "nautical_mile/hour"), ("mph", "mile/hour"),
          ("atm", "101325 Pa"), ("cal", "4.184 J"), ("arcdegree", "60 arcminute"), ("circle", "2 pi rad"), ("ppm", "1e-6"), ("dBZ", "0.1 lg(re mm6/m3)")[:2],
          ("kWh", "3.6 MJ"), ("kW.hour", "3.6 MJ"), ("lbf", "slug ft/s2"), ("lbf", "4.4482216152605 N"), ("psi", "lbf/inch2"), ("L", "dm3"), ("angstrom", "1e-10 m"),
          ("torr", "atm/760"), ("tesla", "Wb/m2"), ("ohm", "V/A"), ("farad", "C/V"), ("lux", "lm/m2"), ("Bq", "Hz"), ("kat", "mol/s"), ("eV", "1.60217733e-19 J")]
    cases += [(1, a, b) for p in db for a, b in (p, p[::-1])]
    # basis units whose names differ little, or are those of something else
    twins = ["A", "a", "aa", "value", "Value", "to_value", "value_unit", "E", "I", "S", "pi", "N", "x", "X", "zoo", "nan", "oo", "exp", "log10", "lambda", "None"]
    systems.append([gen.unit("dimless" if i % 3 == 0 else "base", [t]) for i, t in enumerate(twins)])
    k = len(systems) - 1
    for a, b in itertools.product(twins, repeat=2):
        cases.append((k, a, b))
        cases += [(k, w.format(a), w.format(b)) for w in ("2 {} aa", "{}/7", "{}^2 X/x", "lg(re {} a)", "{} @ 5", "lg(re {}) aa", "(lg(re A) {}) @ 1") if rng.random() < 0.25]
    for a in twins:
        cases += [(k, f"{a} 2", f"2 {a}"), (k, f"{a} lg(re A)", f"lg(re A) {a}"), (k, f"{a} @ 5", f"({a} @ 2) @ 3"), (k, f"lg(re 10 {a})", f"lg(re {a})")]
    for _ in range(check.scale(12, 80)):
        regs, spell, ps = gen.random_system(rng, units=7)
        systems.append(regs)
        words = spell + [p + w for p in ps for w in spell[:5]]
        k = len(systems) - 1
        for _ in range(50):
            a, b = rng.choice(words), rng.choice(words)
            x = rng.random()
            if x < 0.2:
                b = a
            elif x < 0.4:
                a, b = f"{a}/{b}", f"({b}/{a})^-1"
            elif x < 0.5:
                a, b = f"{a} {b}", f"{b} {a}"
            cases.append((k, a, b))
    clauses = {"lookup", "equality", "equality-reversed"}
    judging.pairs(check, systems, cases, clauses, values=(1.0, -2.5, 300.0), equality=True)
    others(check, flat)
    histories(check, rng)


def histories(check, rng):
    """Units of the same text, from different times and systems."""
    out = []
    for _ in range(check.scale(250, 2500)):
        regs = SETUP[:]
        rng.shuffle(regs)
        other = [r if rng.random() < 0.6 else x for r in SETUP for x in [rng.choice(LATER)]] if rng.random() < 0.8 else []
        steps = [("reg", 1, r) for r in regs] + [("reg", 2, r) for r in other]
        texts = rng.sample(TEXTS + ["km", "speed", "minute", "knot", "turn", "degC", "bel"], 3)
        held = 0
        for _ in range(rng.randint(4, 9)):
            if rng.random() < 0.3:
                steps.append(("reg", rng.choice([1, 1, 2]), rng.choice(LATER)))
            steps.append(("look", rng.choice([1, 1, 1, 2]), rng.choice(texts)))
            held += 1
            if rng.random() < 0.3:
                steps.append(("eq", rng.randint(1, held), rng.randint(1, held)))
        pairs = list(itertools.product(range(1, held + 1), repeat=2))
        steps += [("eq", h, g) for h, g in rng.sample(pairs, min(20, len(pairs)))]
        out.append(steps)
    sessions.check_sessions(check, out, {"equality", "dimensionality"}, label="histories")


def others(check, flat):
    """What is no unit is unequal to all units, and comparing raises nothing."""
    real.SYSTEMS = [gen.SIMPLE]
    for t, kind, eq, ne in core.parallel(real.compare_others, [(0, t) for t in flat]):
        if not (eq == "F" and ne == "T"):
            check.violation("equal to no unit", a=t, b=kind, got=eq + ne)
    check.validated(len(flat), "compared_with_others")
    # Scales of more digits than TLC can calculate with: the same exactly if they are the same numbers.
    n = "17" * 2500
    long = [f"{n}.0", f"{n}.00", f".{n}", f"0.{n}0", "1", f"{n}e-5000", f"1.{n}", f"1.{n}1", f"{n}.1e-1"]
    pairs = list(itertools.product(long, repeat=2))
    recs = core.parallel(real.spread, [("pair", (0, f"{x} m", f"{y} m")) for x, y in pairs])
    for (x, y), r in zip(pairs, recs):
        same = "T" if fractions.Fraction(decimal.Decimal(x)) == decimal.Decimal(y) else "F"
        if not r["eq"] == r["qe"] == same:
            check.violation("equality", a=x[:9], b=y[:9], got=r["eq"] + r["qe"], want=same, digits=len(n))
    check.validated(len(pairs), "long_scales")
