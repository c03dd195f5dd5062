"""C11: bad unit text is always refused with the documented error."""
from .. import alphabet, gen, judging, real
from ..gen import base, define, unit

# Definitions which cannot be resolved, in every way.
BROKEN = [base("m"), base("second", "s", time=True), unit("def", ["loop"], [], d="2 loop"), unit("def", ["ping"], [], d="pong.m"),
          unit("def", ["pong"], [], d="m/ping"), unit("def", ["gone"], [], d="3 nothing"), unit("def", ["bad"], [], d="m)("),
          unit("def", ["worse"], [], d="bad/gone"), unit("def", ["when"], [], d="s since 2000-01-01"), unit("def", ["later"], [], d="(s @ 5) m"),
          unit("def", ["ok"], [], d="5 m"), gen.prefix("kilo", "1000", "k"), unit("def", ["deep"], [], d="kwhen2"),
          unit("def", ["none"], [], d=""), unit("def", ["blank"], [], d=" \t"), unit("def", ["brackets"], [], d="()"), unit("def", ["nones"], [], d="none blank")]


# Numbers which are not represented, by themselves and everywhere else, and
# large ones which still are.
LARGE = ["1e1000000000000000000000", "1e-1000000000000000000000", "2.5E+" + "9" * 30, ".1e" + "8" * 40, "7.e-" + "1" * 25, "9" * 4301, "-" + "3" * 5000,
         "+" + "1" * 4400, "9" * 4300, "-" + "4" * 4300, "0" * 4400, "1e0000000000000000000000001", "1." + "9" * 4400, "1e999999"]


def large():
    for x in LARGE:
        if len(x) > 100:
            yield from (x, f"(m s) {x}" if "." in x else f"m^{x}")
            continue
        yield from (x, x + " m", "m " + x, "m/" + x, f"({x} s)2", f"K @ {x}", f"s since {x}", f"lg(re {x} m)", f"2 (m {x}", f"{x} zz", f"m^2 {x} @ 1")
        if "e" not in x.lower() and "." not in x:
            yield from ("m" + x, "m^" + x, "(m s)**" + x)


def great(rng, n):
    """Texts of very many operations. (The time which it takes to read some
    kinds of brackets grows with the square of their depth and more.)"""
    out = []
    for k in (24, 45, 49, 52, 90):
        for a, z in (("(", ")"), ("m/(", ")"), ("lg(re ", ")"), ("((", "))")):
            out += [a * k + "m" + z * k, a * k + "m" + z * (k - 1), a * k + ")" + z * k]
        out += [f"{'(' * k}zz{')' * k}", "(" * k + "s since 2000-01-01" + ")" * k, "(" * k + "2 m" + ")" * k + "2"]
    for k in (90, 200, 243, 300):
        for t in (".m", " m", "/s", " per s", "\u00b72", "^2", "\u00b2", " @ 3", " 2.5", "-kg"):
            out += ["m" + t * k, "m" + t * k + ")", "2" + t * k + " zz"]
    for _ in range(n):
        t = "m"
        for _ in range(rng.randint(8, 20)):
            x = rng.random()
            if x < 0.25:
                t = rng.choice(["(%s)", "s/(%s)", "2 (%s)", "lg(re %s)"]) % t
            else:
                t += rng.choice([".s", "/m", " 3", "*kg", " per s"]) * rng.randint(2, 6)
        out.append(t)
        i = rng.randrange(len(t))
        out.append(t[:i] + t[i + 1:])
    return sorted(t for t in set(out) if len(t) < 1500)


def run(check):
    rng = gen.rng_for(check.seed, "C11")
    g = alphabet.Grammar(rng, ("m", "s", "kg", "zz", "rad", "day", "q", "kilokilom"))
    junk = list(alphabet.exhaustive(alphabet.WIDE + alphabet.JUNK, 2))
    junk += alphabet.random_texts(rng, check.scale(6000, 80000), junk=0.15)
    junk += alphabet.random_texts(rng, check.scale(3000, 40000), alphabet.JUNK, 1, 4)
    junk += [g.mutated(2) for _ in range(check.scale(8000, 100000))]
    # valid text followed or preceded by something else
    for _ in range(check.scale(3000, 30000)):
        t = g.text(1)
        j = rng.choice(alphabet.JUNK + ["(", ")", "/", "^", "@", "**", "2 ^", " per ", "lg(", "\u207b", "since"])
        junk.append(rng.choice([t + j, j + t, t + " " + j, t[:len(t) // 2] + j + t[len(t) // 2:]]))
    junk = sorted(set(alphabet.bounded(junk)), key=repr)
    # (also, what is read afterwards is what it always was)
    again = [g.text(1) for _ in range(check.scale(60, 300))]
    few = sorted(set(large())) + great(rng, check.scale(100, 1000)) + again
    rng.shuffle(few)
    judging.readings(check, few, {"accepts-invalid-text", "wrong-error", "rejects-valid-text", "meaning"}, "large_numbers_and_texts")
    clauses = {"accepts-invalid-text", "wrong-error", "rejects-valid-text"}
    for part in range(0, len(junk), 60000):
        judging.readings(check, junk[part:part + 60000], clauses)
    cases = [(0, t) for t in rng.sample(junk, min(len(junk), check.scale(2500, 20000)))]
    cases += [(0, g.text(2)) for _ in range(check.scale(1500, 10000))]
    cases += [(0, t) for t in ["", " ", "\n\t", "()", "1", "0", "-1", "m0", "zz", "m zz", "zz)", "(zz", "lg(re zz)", "s @ 2000-01-01 zz",
                               "m @ 2000-01-01", "2 (s @ 5)", "zz @ 2000", "(s since 2000-01-01) m", "kk m", "k", "kilo", "lg(re s @ 5)",
                               "lg(re m @ 2000-01-01)", "(s @ 5)^2", "(s @ 5) @ 5", "(s @ 5)", "((s @ 5))", "1/(s @ 2000-01-01)", "re", "lg", "since"]]
    deep = great(rng, 40)
    cases += [(0, t) for t in rng.sample(deep, min(len(deep), check.scale(150, 600))) if len(t) < 300]
    names = [r["n"][0] for r in BROKEN if r["e"] == "unit"]
    for a in names:
        cases.append((1, a))
        cases += [(1, x) for b in names for x in (f"{a}.{b}", f"{a}/k{b}", f"2 {a} @ 3", f"lg(re {a} {b})", f"{a}^0 {b}", f"{a}){b}", f"zz {a}")]
    judging.units(check, [gen.SIMPLE, BROKEN], cases, {"accepted", "error", "refused", "kind"})
