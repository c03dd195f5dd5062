"""C03: logarithmic units."""
from .. import gen, judging, plan, real, texts

TRICKY = [
    ("lg(re m)", "m"), ("ln(re m)", "m"), ("lb(re m)", "m"), ("log(re m)", "m"), ("lg(re 1 mW)", "W"), ("Bm", "W"),
    ("lg(re lg(re m))", "m"), ("ln(re lb(re 2 m))", "km"), ("lb(re ln(re lg(re m)))", "m"), ("stack", "m"),
    ("lg(re m) @ 2", "m"), ("(lg(re m) @ 2) @ 1", "m"), ("Bm @ 3", "kW"), ("lg(re m)", "ln(re km)"),
    ("lg(re 2 m/s)", "km/h"), ("lg(re (m/s))", "s/m"), ("lg(re m)", "1/m"), ("1/km", "lb(re m)"),
    ("bel", "1"), ("neper", "percent"), ("bel", "neper"), ("oct", "Hz"), ("oct", "s"), ("pH", "mm^-3"),
    ("lg(re 1e-3 kg.m/s2)", "N"), ("ln(re rad)", "degree"), ("lg(re (3 m)^2)", "m2"), ("lg(re 1/(2 s))", "Hz"),
    ("lg(re m/(2 s))", "m/s"),
    ("lg(re 3 (2 m))", "m"), ("(lg(re m))", "m"), ("lg(re m)", "lg(re m)"), ("Bm", "lg(re W)"), ("lg(re 7)", "1"),
]
DB = [("lg(re 1 mW)", "W"), ("Bm", "mW"), ("BW", "W"), ("BZ", "mm3"), ("B_SPL", "Pa"), ("B_SPL", "\u00b5bar"),
      ("BV", "V"), ("Bv", "V"), ("B\u00b5V", "uV"), ("ln(re 2 furlong)", "m"), ("Bm", "BW"), ("Bv", "BV"),
      ("lb(re minute)", "s"), ("BW", "J-1.s"), ("log(re 1 atm)", "psi")]
# Scaled logarithmic units (recorded as known findings, see DESIGN.md).
SCALED = [("2 lg(re m)", "m"), ("lg(re m) 2", "m"), ("dBm", "W"), ("W", "dBm"), ("lg(re (K @ 4))", "K")]


def run(check):
    rng = gen.rng_for(check.seed, "C03")
    g = texts.Gen(rng)
    n = check.scale(1300, 9000)
    cases = [(0, a, b) for a, b in TRICKY] + [(0, b, a) for a, b in TRICKY]
    dims = {"m": ["m", "km", "inch", "2 cm", "1/m", "1/km"], "W": ["W", "mW", "kJ/min", "1/W"], "1": ["1", "percent", "rad", "2"],
            "Hz": ["Hz", "1/min", "s", "rpm"], "K": ["K", "degC", "mK", "degF", "K @ 5"], "1/s": ["Hz", "kHz", "min"],
            "m/s": ["m/s", "knot", "s/m", "km/h"]}
    for _ in range(n):
        group = rng.choice(sorted(dims))
        a = g.log(group, rng.choice([0, 1, 1, 2])) if rng.random() < 0.7 else g.shifted_log(group)
        x = rng.random()
        b = (rng.choice(dims[group]) if x < 0.5 else g.log(group, 1) if x < 0.8 else g.shifted_log(group))
        if rng.random() < 0.5:
            a, b = b, a
        cases.append((0, a, b))
    cases += [(1, a, b) for a, b in DB] + [(1, b, a) for a, b in DB]
    # units which are called as something is in the code that converts
    odd = ["value", "to_value", "value_transformed_to_base_unit_scale", "E", "pi", "I", "exp", "log", "x"]
    names = gen.SIMPLE + [gen.unit("dimless" if i % 2 == 0 else "base", [t] if t != "log" else ["logs"]) for i, t in enumerate(odd)]
    for t in (t for t in odd if t != "log"):
        for a, b in (("lg(re {0})", "{0}"), ("{0} lg(re m)", "m"), ("lg(re m) {0}", "km"), ("ln(re {0} m)", "{0} km"), ("lg(re m {0}) @ 2", "{0} m"),
                     ("lg(re ln(re {0}))", "2 {0}"), ("{0} @ 5", "2 {0}"), ("{0} K @ 5", "{0} K"), ("1/{0}", "{0}"), ("{0}^2 m", "km {0}^2"), ("lg(re {0})", "1/{0}")):
            cases += [(2, a.format(t), b.format(t)), (2, b.format(t), a.format(t))]
    values = (1.0, 2.5, -0.5, 0.125, 30.0)
    judging.pairs(check, [gen.SIMPLE, real.DATABASE, names], cases, {"lookup", "existence"}, values)
    judging.pairs(check, [gen.SIMPLE], [(0, a, b) for a, b in SCALED], {"lookup", "existence"}, (1.0, 2.5),
                  label="scaled_logarithms", allow=("scaledlog", "logshift"))
    scaled(check, rng, g, dims)


def scaled(check, rng, g, dims):
    """Logarithmic units with a factor: the repository's tests pin that x of
    "k L" is x/k of L (a known finding; in UDUNITS-2, it is k x). Whichever it
    is, it has to be that for every factor: the values are compared with the
    plans of both."""
    factors = [("2", "0.5"), ("(2 5)", "0.1"), ("0.25", "4"), ("2 5", "0.1"), ("(10/4)", "0.4"), ("percent", "100"), ("10^-1", "10"),
               ("(2.5e-1 rad) 8", "0.5"), ("1e3", ".001"), ("3 (1/6)", "2"), ("-2", "-0.5"), ("(4/rad)", "0.25"), ("2^3", "0.125")]

    def one(group):
        x = g.log(group, rng.choice([0, 0, 1]))
        r = rng.random()
        if r < 0.3:
            return x, x
        k, inverse = rng.choice(factors)
        if r < 0.45 and not k.startswith("-"):
            l, m = rng.choice(factors)
            return f"{x} {k} ({l})", f"{m} {inverse} {x}"
        if r < 0.6 and not k.startswith("-"):
            return f"{x} {k}", f"{inverse} {x}"
        if r < 0.7:
            p, m = rng.choice([("d", "10"), ("kilo", ".001"), ("m", "1000")])
            n, _ = rng.choice([("Bm", 0), ("B", 0), ("stack", 0)])
            return p + n, f"{m} {n}"
        return f"{k} {x}", f"{inverse} {x}"

    cases, mirrored = [], []
    groups = {"Bm": "W", "B": "1", "stack": "m"}
    for _ in range(check.scale(350, 4000)):
        group = rng.choice(sorted(dims))
        a, c = one(group)
        group = next((groups[n] for n in groups if a.endswith(n) and " " not in a and "(" not in a), group)
        if rng.random() < 0.5:
            b, d = one(group)
        else:
            b = d = rng.choice(dims[group])
        if rng.random() < 0.5:
            a, b, c, d = b, a, d, c
        cases.append((0, a, b))
        mirrored.append((0, c, d))
    values = (1.0, 2.5, -0.5, 0.125)
    recs, j = judging.pairs(check, [gen.SIMPLE], cases, {"lookup", "existence"}, values, numbers=False, label="scaled_logarithms")
    _, k = judging.pairs(check, [gen.SIMPLE], mirrored, {"lookup", "existence"}, values, numbers=False, label="scaled_logarithms")
    compared = 0
    for i, r in enumerate(recs):
        plans = [q.plans[i] for q in (j, k) if i in q.plans]
        if len(plans) < 2 or any(set(p["w"]) - {"scaledlog"} for p in plans):
            continue
        wants = [[plan.agrees(p["p"], x, y) for x, y in zip(r["_values"], r["_out"])] for p in plans]
        compared += len(r["_out"])
        if all(any(w is not None for w in want) for want in wants):
            check.violation("scaled", a=r["_a"], b=r["_b"], values=list(zip(r["_values"], r["_out"])), want=wants)
    check.cov["scaled_values_compared"] = compared
