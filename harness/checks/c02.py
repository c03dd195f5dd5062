"""C02: offset units."""
from .. import gen, judging, real, texts

TRICKY = [
    ("degC", "K"), ("degF", "K"), ("degC", "degF"), ("millidegC", "degF"), ("kdegF", "mK"), ("warm", "degC"),
    ("K @ 273.15", "degC"), ("degC @ 10", "K"), ("(degC @ 10) @ 5", "K"), ("degF @ 3", "degC"),
    ("2 degC", "K"), ("degC 2", "2 K"), ("degC/2", "K"), ("degC^1", "K"), ("degC^2", "K2"), ("degC.m", "K.m"),
    ("(2 degC) @ 3", "K"), ("(degC) @ 3", "K"), ("m/degC", "m/K"), ("W/(degC.m)", "W/(K.m)"),
    ("(K @ 3)/(K @ 4)", "1"), ("m @ 5", "m"), ("km @ 2", "inch @ 3"), ("(m @ 5) @ 6", "m"), ("2 (m @ 5)", "m"),
    ("1/(K @ 5)", "1/K"), ("(K @ 5)^-1", "K"), ("kdegC", "degC"), ("warm", "degF"), ("rad @ 1", "degree"),
    ("percent @ 5", "1"), ("1 @ 5", "1"), ("5 @ 1", "percent @ 2"), ("Re", "degC"), ("K @ 0", "K"),
    ("(K @ 5) @ -5", "K"), ("1e3 K @ 1", "kK"), ("degC @ 0", "K"), ("(degC)", "(K)"), ("degC @ 1e2", "degF"),
    ("K @ 12345678901234567", "K"), ("K @ 1234567890123456.7", "mK"), ("K @ 273.15000000000001", "K"), ("K @ 1e20", "kK"), ("K @ 1e-20", "K"),
    ("K @ 123456789012345678901234567890", "K @ 1e10"), ("K @ -98765432109876543", "degC"), ("K @ 1e16", "K @ 12345678901234567"),
    ("K @ 0.000012345678901234567", "uK"), ("(K @ 1e9) @ 1e-9", "K"), ("K @ 00273.150", "degC"), ("1e-12 K @ 1e15", "K"), ("1e12 K @ 1e-15", "K"),
    ("degC", "1/K"), ("K @ 5", "1/K"), ("m @ 2", "1/(km @ 3)"), ("1/m", "m @ 2"), ("degC m", "K.m @ 5"),
]
DB = ["K", "degC", "degF", "degR", "celsius", "fahrenheit", "\u2103", "\u2109", "degree_C", "kelvin", "mK",
      "millidegC", "degC @ 5", "K @ 10", "(degF @ 2) @ 3", "2 degF", "kelvins", "degreesC", "microcelsius",
      "degF @ -459.67", "deg_F", "kilofahrenheit", "(degC)", "1000 mK @ 1"]


def run(check):
    rng = gen.rng_for(check.seed, "C02")
    g = texts.Gen(rng)
    n = check.scale(1300, 9000)
    cases = [(0, a, b) for a, b in TRICKY] + [(0, b, a) for a, b in TRICKY]
    for _ in range(n):
        if rng.random() < 0.75:
            group, named = g.KELVIN, g.TEMP
        else:
            group, named = g.LENGTH, []
        a = g.offset(2, group, named)
        x = rng.random()
        b = (rng.choice(group) if x < 0.3 else g.offset(2, group, named) if x < 0.6
             else g.inner(group, named) if x < 0.85 else f"1/({g.scaled(group)})" if x < 0.93
             else f"1/({g.offset(1, group, named)})")
        if rng.random() < 0.5:
            a, b = b, a
        cases.append((0, a, b))
    for _ in range(n // 4):
        m = rng.choice(["m", "s", "km", "kg"])
        a = f"{m}{rng.choice(['*', ' ', '/'])}({g.inner()})" if rng.random() < 0.5 else f"{m}/({g.offset(1)})"
        sep = "/" if "/(" in a[:4] else a[len(m)]
        b = f"{m}{sep}{rng.choice(['K', 'mK', 'degC', '(degF)', '(K @ 3)'])}"
        cases.append((0, a, b))
    cases += [(1, a, b) for a in DB for b in DB if check.thorough or rng.random() < 0.5]
    judging.pairs(check, [gen.SIMPLE, real.DATABASE], cases, {"lookup", "existence"})
    # date-like shifts of time units are not offsets, but a shift of anything else is
    judging.units(check, [gen.SIMPLE], [(0, x) for x, _ in TRICKY], {"kind", "refused", "error", "accepted"})
