"""C04: a conversion exists exactly between equal or reciprocal dimensions."""
import itertools

from .. import gen, judging, real, texts
from .c01 import DB_GROUPS

POOL = ["m", "1/m", "km", "s", "Hz", "rpm", "m/s", "s/m", "knot", "h/km", "1", "rad", "percent", "", "degC", "1/K", "1/degC",
        "K @ 3", "degF", "(K @ 1)^-1", "m @ 5", "1/(m @ 5)", "Bm", "W", "1/W", "1 @ 5", "bel", "lg(re m)", "ln(re 1/m)",
        "stack", "lb(re km) @ 2", "s @ 5", "hour since 2000-01-01", "days since 2000-01-01 12:00", "s.s/s", "m2", "m^-2", "rad/s",
        "m.s", "1/(m.s)", "kg", "N", "1/N", "kg.m/s2", "s2/kg/m", "m0", "m/m", "day", "day^-1", "slug", "A", "K2", "K.degC",
        "m rad", "cycle", "rad/m", "minutes from 1900-1-1 12:30", "pH", "m3", "lg(re 1/s)"]


def run(check):
    rng = gen.rng_for(check.seed, "C04")
    g = texts.Gen(rng)
    t = gen.Texts(rng, gen.SIMPLE_DIMS)
    values = (1.0, 2.5, -0.5, 40.0)
    clauses = {"lookup", "existence", "query", "query-reversed"}
    cases = [(0, a, b) for a in POOL for b in POOL]
    for _ in range(check.scale(500, 4000)):
        a, b = t.pair(3)
        if rng.random() < 0.3:
            a = g.shift(f"({a})", "5")
        if rng.random() < 0.2:
            b = f"lg(re {b})"
        cases.append((0, a, b))
    # all pairs of small vectors of exponents, and ones which nearly agree
    small = list(itertools.product((-1, 0, 1), repeat=3)) if not check.thorough else list(itertools.product((-2, -1, 0, 1, 2), repeat=3))
    cases += [(0, t.render(vector(v), 0), t.render(vector(w), 0)) for v in small for w in small]
    some = list(itertools.product((-3, -2, -1, 0, 1, 2, 3), repeat=2))
    cases += [(0, t.render(vector(v), 0), t.render(vector(w), 0)) for v in some for w in some
              if check.thorough or sorted(map(abs, v)) == sorted(map(abs, w)) or rng.random() < 0.1]
    for _ in range(check.scale(400, 4000)):
        v = [rng.choice([-2, -1, 0, 1, 2, 3]) for _ in BASES]
        w = near(rng, v)
        cases.append((0, t.render(vector(v), 1), t.render(vector(w), 1)))
    # reciprocal quantities, with offsets and logarithms
    groups = {"m": "1/m", "W": "s/J", "Hz": "s", "K": "1/K", "m/s": "s/m", "1": "1"}
    for _ in range(check.scale(300, 2500)):
        k = rng.choice(sorted(groups))
        a = rng.choice([lambda: g.log(k, 1), lambda: g.shifted_log(k), lambda: f"({k}) @ {rng.choice('1234')}",
                        lambda: f"3 {k}"])() if k not in ("s",) else k
        r = groups[k]
        b = rng.choice([r, f"2 {r}", f"({r}) @ 5", f"ln(re {r})", f"lg(re 2 {r}) @ 1"]) if r != "s" else rng.choice(["s", "min", "3 s", "ln(re s)"])
        cases.append((0, a, b) if rng.random() < 0.5 else (0, b, a))
    cases += [(1, a, b) for a, b in database_pairs(rng, check.scale(500, 5000))]
    systems = [gen.SIMPLE, real.DATABASE]
    # unrelated and equal dimensions in small random systems
    for i in range(check.scale(12, 80)):
        regs, spell, ps = gen.random_system(rng, units=8)
        systems.append(regs)
        words = spell + [p + w for p in ps for w in spell[:4]]
        for _ in range(40):
            a, b = rng.choice(words), rng.choice(words)
            x = rng.random()
            if x < 0.3:
                a = f"{a}.{rng.choice(words)}"
            elif x < 0.5:
                b = f"1/{b}"
            elif x < 0.6:
                a = f"{a} @ 5"
            cases.append((len(systems) - 1, a, b))
    judging.pairs(check, systems, cases, clauses, values)


BASES = ["m", "s", "kg", "K", "A"]


def vector(exponents):
    return {b: e for b, e in zip(BASES, exponents) if e}


def near(rng, v):
    """Exponents which are, or nearly are, the same or the negated ones."""
    w = list(v) if rng.random() < 0.5 else [-e for e in v]
    i, j = rng.sample(range(len(w)), 2)
    x = rng.random()
    if x < 0.3:
        w[i] = -w[i]
    elif x < 0.4:
        w[i], w[j] = -w[i], -w[j]
    elif x < 0.55:
        w[i], w[j] = w[j], w[i]
    elif x < 0.7:
        w[i] += rng.choice([1, -1])
    elif x < 0.8:
        w[i] = 0
    elif x < 0.9:
        w[i] *= 2
    return w


def database_pairs(rng, n):
    from .c02 import DB as TEMP

    t = gen.Texts(rng, DB_GROUPS)
    out = []
    for _ in range(n):
        x = rng.random()
        if x < 0.6:
            out.append(t.pair(3))
        elif x < 0.8:
            out.append((rng.choice(TEMP), rng.choice(TEMP + ["1/K", "m", "K-1", "(degC)^-1"])))
        else:
            d = f"{rng.choice(['s', 'hours', 'days', 'year'])} since 2000-01-01"
            e = rng.choice(["s", "day", d, "hours since 1970-01-01 00:00 UTC", "1/s", "m"])
            out.append((d, e) if rng.random() < 0.5 else (e, d))
    return out
