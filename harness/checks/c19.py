"""C19: units are values, and systems are independent."""
from .. import gen, real, sessions
from ..gen import base, define, prefix, unit
from .c08 import made

SETUP = [base("meter", "m"), base("second", "s", time=True), unit("dimless", ["radian", "radians"], ["rad"]),
         base("kelvin", "K"), prefix("kilo", "1000", "k"), prefix("milli", ".001", "m"),
         define("minute", "60 s", "min"), define("speed", "m/s"), define("degC", "K @ 273.15"),
         define("turn", "6.25 rad"), define("bel", "lg(re 2 m)", "B"), define("knot", "1852 m/(60 minutes)")]
TEXTS = ["km", "speed", "degC", "minute @ 5", "days since 2000", "turn/minute", "B", "knot2", "s/m", "rad", "1", "",
         "millidegC", "kmin", "m.degC", "nope", "m)", "seconds since 2000-01-01", "(K @ 3) @ 4", "bel @ 1", "K", "m", "speed^-1"]
LATER = [unit("def", ["meter"], ["m"], d="3 s", rep=True), unit("def", ["minute"], [], d="7 K", rep=True),
         unit("base", ["day", "days"], [], time=True), unit("def", ["speed"], [], d="5 m/s", rep=True),
         unit("base", ["kelvin"], ["K"], rep=True), prefix("kilo", "2", "k"), unit("def", ["km"], [], d="9 s"),
         unit("dimless", ["radian"], [], rep=True), unit("def", ["nope"], [], d="speed.km"),
         unit("def", ["K"], ["degC"], d="2 meter", rep=True)]

# Convertible ones.
FAMILIES = [["km", "m", "mm", "2 km"], ["speed", "knot", "m/s", "km/min", "s/m", "speed^-1", "knot", "speed"], ["degC", "K", "millidegC", "K @ 5"],
            ["turn", "rad", "1", "bel", "B", "2 turn"], ["min", "s", "ms", "kmin", "2 minute", "1/min"]]


def varied(rng, regs):
    """With other numbers in it, at times."""
    out = []
    for r in regs:
        if r["e"] == "unit" and r["k"] == "def" and rng.random() < 0.3:
            r = dict(r, d=f"({r['d']}) {rng.choice(['2', '3', '0.5'])}")
        elif r["e"] == "prefix" and rng.random() < 0.15:
            r = dict(r, v=rng.choice(["2", "1024", "0.5"]))
        out.append(made(rng, r, 0.1))
    return out


def run(check):
    check.model_check("MC_Session")
    rng = gen.rng_for(check.seed, "C19")
    out = []
    for _ in range(check.scale(700, 6000)):
        regs = varied(rng, SETUP)
        rng.shuffle(regs)
        steps = []
        held = 0
        second = rng.sample(SETUP, rng.randint(0, len(SETUP))) if rng.random() < 0.6 else LATER[:]
        rng.shuffle(second)
        early = rng.random() < 0.3
        for r in regs:
            steps.append(("reg", 1, r))
            if second and rng.random() < 0.4:
                steps.append(("reg", 2, second.pop()))
            if early and rng.random() < 0.2:
                steps.append(("look", rng.choice([1, 1, 2]), rng.choice(TEXTS)))
                held += 1
        for _ in range(rng.randint(6, 16)):
            x = rng.random()
            if x < 0.06:
                # the same text before and after it changes its meaning
                t, name = rng.choice([("minute", "minute"), ("2 km", "kilo"), ("speed", "speed"), ("knot^-1", "minute"), ("turn/s", "turn"), ("degC", "degC"),
                                      ("bel", "bel"), ("lg(re km)", "kilo"), ("millidegC", "milli")])
                k = rng.choice([1, 1, 2])
                change = next(r for r in SETUP if name in r["n"])
                change = dict(change, v=rng.choice(["2", "0.25"])) if change["e"] == "prefix" else dict(change, rep=True, d=change["d"].replace("2", "7").replace("6", "5").replace("m/s", "4 m/s"))
                steps += [("look", k, t), ("reg", k, made(rng, change)), ("look", k, t)]
                held += 2
                steps += [("conv", held - 1, held), ("eq", held, held - 1), ("can", held, held - 1), ("conv", held, held - 1)]
            elif x < 0.2:
                family = rng.choice(FAMILIES)
                pair = [rng.choice(family), rng.choice(family)]
                for k in rng.choice([[1], [1], [2], [1, 2], [1, 1]]):
                    steps += [("look", k, t) for t in pair]
                    held += 2
                    steps.append(("conv", held - 1, held))
                    if rng.random() < 0.3:
                        steps.append(("reg", k, made(rng, rng.choice(LATER))))
            elif x < 0.4 or not held:
                steps.append(("look", rng.choice([1, 1, 2]), rng.choice(TEXTS)))
                held += 1
            elif x < 0.55:
                steps.append(("reg", rng.choice([1, 2]), made(rng, rng.choice(LATER + varied(rng, SETUP)), 0.1)))
            elif x < 0.64:
                steps.append(("use", rng.randint(1, held)))
            elif x < 0.66:
                words = ["m", "s", "K", "rad", "meter", "second", "minutes", "kelvin", "radian", "2", "speed", "km"]
                rng.shuffle(words)
                steps.append(("share", rng.choice([1, 1, 2]), words))
            elif x < 0.7:
                steps.append(("dim", rng.randint(1, held)))
            elif x < 0.78:
                steps.append((rng.choice(["eq", "can", "deq"]), rng.randint(1, held), rng.randint(1, held)))
            elif x < 0.87:
                steps.append(("ask", rng.randint(1, held)))
            else:
                steps.append(("conv", rng.randint(1, held), rng.randint(1, held)))
        hs = list(range(1, held + 1))
        rng.shuffle(hs)
        steps += [x for h in hs[:8] for x in (("ask", h), ("dim", h))]
        steps += [(rng.choice(["eq", "can", "deq"]), rng.choice(hs), rng.choice(hs)) for _ in range(3)]
        out.append(steps)
    sessions.check_sessions(check, out)
    loaded(check, rng)
    mutate(check, rng)


LOADED = ["km", "degC", "days since 2000", "N.m", "Bq", "hPa", "mile/hour", "dBZ", "nope", "furlong2", "s/m", "week", "Sv", "kayser", "1", "pint", "mmeter"]
ADDED = [prefix("kilo", "2", "k"), prefix("h", "7", "hect"), unit("def", ["km"], [], d="9 s"), unit("def", ["nope"], ["mmeter"], d="3 mile"),
         unit("def", ["meter"], ["m"], d="2 s", rep=True), unit("def", ["mile", "miles"], ["N"], d="5 m", rep=True), unit("def", ["degC"], ["Bq"], d="2 K", rep=True),
         unit("base", ["nope"], ["hPa"], rep=True), unit("def", ["week"], [], d="lg(re s)", rep=True), unit("base", ["second"], ["s"], rep=True, time=True),
         unit("def", ["pint"], [], d="2 Sv")]


def loaded(check, rng):
    """Systems loaded from the database (and from documents), more than once."""
    out = []
    for _ in range(check.scale(16, 120)):
        held = 0
        steps = [("load", 1, 0)]
        there = [1, 4]
        later = [("load", k, 0) for k in rng.sample([2, 3], rng.choice([0, 1, 1, 2]))]
        for _ in range(rng.randint(10, 16)):
            x = rng.random()
            if x < 0.5 or not held:
                steps.append(("look", rng.choice(there), rng.choice(LOADED)))
                held += 1
            elif x < 0.6:
                steps.append(("reg", rng.choice(there), rng.choice(ADDED)))
            elif x < 0.68 and later:
                steps.append(later.pop())
                there.append(steps[-1][1])
            elif x < 0.7:
                steps.append(("use", rng.randint(1, held)))
            elif x < 0.8:
                steps.append((rng.choice(["eq", "can", "deq"]), rng.randint(1, held), rng.randint(1, held)))
            elif x < 0.9:
                steps.append(("ask", rng.randint(1, held)))
            else:
                steps.append(("conv", rng.randint(1, held), rng.randint(1, held)))
        hs = list(range(1, held + 1))
        steps += [("ask", h) for h in rng.sample(hs, min(4, held))]
        out.append(steps)
    sessions.check_sessions(check, out, label="loaded_sessions", systems=[real.DATABASE])


def mutate(check, rng):
    """What the library hands out is not connected to the unit it came from."""
    from ..core import Raised, guarded

    s = real.build(gen.SIMPLE)
    texts = ["m", "N.m/s", "degC", "days since 2000", "rad", "Bm", "2 km", "J/(kg K)"]
    n = 0
    for a in texts:
        u = guarded(s.unit, a)
        if isinstance(u, Raised):
            check.violation("refused", text=a)
            continue
        before = observe(u)
        kept = guarded(u.dimensionality)
        said = sessions.measure(kept)
        for d in (guarded(u.dimensionality), guarded(lambda: u.dimensionality().inverted())):
            if not isinstance(d, Raised):
                guarded(lambda: [list(d.items()), list(d.keys()), list(d.values()), len(d), str(d), d == {}, repr(d)])
        for b in texts:
            v = s.unit(b)
            guarded(lambda: (u == v, v == u, u.is_convertible_to(v), hash(u)))
        n += 1
        if sessions.measure(kept) != said:
            check.violation("changed dimensionality", text=a, before=said, after=sessions.measure(kept))
        if observe(u) != before:
            check.violation("changed", text=a, before=before, after=observe(u))
    check.validated(n, "observed_before_and_after")


def observe(u):
    from ..core import guarded

    return [str(guarded(f)) for f in (lambda: str(u), u.expanded, lambda: sorted(map(str, u.dimensionality().items())),
                                      u.is_dimensionless, u.is_time_unit)]
