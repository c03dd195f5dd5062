"""C14: date units keep their reference and never act as plain units."""
import itertools

from .. import alphabet, gen, judging, real, texts

DATES = ["2000-01-01", "2000-1-1", "1970-12-31", "0001-01-01", "1-1", "2000-01", "-5-3-2", "+1999-9-09", "20000101", "2000", "-100", "123456-7-8",
         "2000-13-01", "2000-00-01", "2000-01-32", "2000-01-00", "2000-1-1-1", "2000/01/01", "2000-001-01"]
CLOCKS = ["", "12", "0", "1230", "123015", "12:30", "1:2", "23:59", "24:00", "23:60", "12:30:15", "12:30:60", "12:30:61", "12:30:15.5", "0:0:0.000001",
          "12:5:7.", "-1:30", "+12:30", "12.5", "12:30:15:1", ":30", "12:", "12h"]
ZONES = ["", "UTC", "Z", "GMT", "+1", "-5", "+01:00", "-3:30", "0530", "+0530", "12:00", "utc", "EST", "+1:2:3", "z", "UTC+1", "TZ", "1.5"]
SEPS = [" ", "T", "  ", ""]
ZSEPS = ["", " "]
PACKED = ["20000101T12", "20000101T1230", "20000101T123015", "20000101T123015.25", "2000T7", "-2000T12", "20000101T2500", "20000101T", "20000101T1260",
          "20000101T12:30", "20000101T1230Z", "20000101T1230 UTC", "20000101T1230 +1", "20000101T1230+01:00", "T12", "12:30", "UTC", "Z", "+01:00"]
KEYWORDS = [" since ", " SINCE ", " @ ", "@", " from ", " after ", " ref ", " @", "@ ", " since", "since ", "since", " Since ", "  since ", " since  ", " at ", " re "]
UNITS = ["s", "hour", "days", "ms", "kilohour", "2 s", "s2/s", "(m/m) s", "1/Hz", "s rad", "min.percent", "(s)", "m s/km", "60 s", "h", "J/W", "(1/s)^-1", "seconds"]
OTHERS = ["m", "1/s", "s2", "rad", "1", "K", "degC", "lg(re m)", "m/s", "zz", "", "Hz", "s0", "kg s", "day.day"]
LOGTIME = ["lg(re s)", "ln(re 2 hour)"]
AROUND = ["({}) m", "2 ({})", "({})/2", "1/({})", "({})^2", "({})^1", "({})^0", "lg(re {})", "({}) @ 5", "({})", "(({}))", "({}) since 2000-01-01", "m/({})",
          "({}).({})", "ln(re ({}) s)", "(({}) rad)", "({}) 1", "-({})", "({})2", "m ({})"]


def stamps(rng, n):
    """Timestamps of every form, and some which are not."""
    out = list(PACKED) + list(DATES)
    full = list(itertools.product(DATES[:9], SEPS, CLOCKS, ZSEPS, ZONES))
    out += ["".join(x) for x in rng.sample(full, n)]
    out += ["".join(x) for x in itertools.product(["2000-01-01"], [" ", "T"], ["12:30", "12", "12:30:15.5", "1230"], ZSEPS, ZONES)]
    out += ["".join(x) for x in itertools.product(["2000-01-01", "2000-1"], SEPS, CLOCKS[1:])]
    out += ["".join(x) for x in itertools.product(DATES, ZSEPS, ZONES[1:])]
    # every hour, minute, month and day, with one and two digits
    out += [f"2000-1-1 {h}:{m}" for h in [*range(26), "00", "01", "09", "007", "30"] for m in ("0", "05")]
    out += [f"2000-1-1 1:{m}" for m in [*range(0, 62, 3), 59, 60, "00", "09", "100"]]
    out += [f"2000-1-1 1:2:{s}" for s in [*range(0, 63, 4), 59, 60, 61, "00", "60.5", "59.999999999", "5.5.5"]]
    out += [f"2000-{m}-{d}" for m in (1, "02", 9, 10, 12, 13, 0) for d in (1, "01", 9, 10, 29, 30, 31, 32, 0, "00", "012")]
    return sorted(set(out))


def run(check):
    rng = gen.rng_for(check.seed, "C14")
    g = texts.Gen(rng)
    every = stamps(rng, check.scale(1500, 30000))
    texts_ = [f"{rng.choice(UNITS)}{rng.choice(KEYWORDS[:7])}{x}" for x in every]
    # every unit with every keyword, and every number as reference
    texts_ += [f"{u}{k}{x}" for u in UNITS + OTHERS + LOGTIME for k in KEYWORDS for x in ("2000-01-01", "5", "-2.5e1 ") if check.thorough or rng.random() < 0.6]
    some = ["2000-01-01", "2000-01-01 12:30 UTC", "5", "1.5", "-3", "20000101T12", "2000-1-1 1:2:3.5 -3:30", "12 UTC"]
    texts_ += [a.replace("{}", f"{u} {k} {x}") for a in AROUND for u in UNITS + OTHERS + LOGTIME for x in some for k in ("since", "@")
               if check.thorough or rng.random() < 0.3]
    texts_ += [g.dated(rng.choice(UNITS + OTHERS)) for _ in range(check.scale(300, 4000))]
    texts_ += [f"{g.dated()}{rng.choice([' m', ')', ' UTC', ' 5', '/2', 'm', '^2', ' @ 5', ' since 1900', '#', '\t', ' ', '.', ' 12:30'])}" for _ in range(check.scale(250, 3000))]
    cases = [(0, t) for t in sorted(set(texts_))]
    # named date units, and the bundled database's time units
    named = [*gen.SIMPLE, gen.unit("def", ["epoch"], d="s since 1970-01-01"), gen.unit("def", ["tick"], d="60 s @ 5"), gen.unit("def", ["fort"], d="14 day")]
    cases += [(1, t) for t in ["epoch", "tick", "kiloepoch", "2 epoch", "epoch m", "fort since 2000", "kfort @ 5", "epoch @ 5", "lg(re tick)", "tick/s", "epoch^0"]]
    times = "s second minute hour day week fortnight year common_year leap_year sidereal_day lunar_month Gregorian_year ka Ms us shake".split()
    for u in times:
        cases += [(2, f"{p}{u}{k}{rng.choice(every)}") for p in ("", "kilo", "2 ") for k in (" since ", "@")]
    systems = [gen.SIMPLE, named, real.DATABASE]
    # where the time basis unit has another name, or there is none
    for _ in range(check.scale(10, 60)):
        regs, spell, ps = gen.random_system(rng, units=7)
        systems.append(regs)
        words = spell + [p + w for p in ps for w in spell]
        k = len(systems) - 1
        for _ in range(40):
            w = rng.choice(words)
            cases.append((k, rng.choice([f"{w} @ 5", f"{w} since 2000-01-01", f"{w}.{w}/{rng.choice(words)} @ 1", f"({w} @ 5) {rng.choice(words)}",
                                         f"{w} ({rng.choice(words)} since 2000)", f"lg(re {w}) @ 2000-01-01", f"{w} @ 2000"])))
    clauses = {"accepted", "error", "refused", "kind", "reference", "date-unit", "time", "dimensionality", "dimensionless"}
    recs, _ = judging.units(check, systems, cases, clauses)
    # convertible to nothing
    dates = [r["_text"] for r in recs if r["s"] == 1 and r["r"] == "date"]
    pairs = []
    for t in rng.sample(dates, min(len(dates), check.scale(120, 1500))):
        pairs.append((0, t, t))
        for u in (rng.choice(UNITS), rng.choice(OTHERS[:6]), rng.choice(dates)):
            pairs += [(0, t, u), (0, u, t)]
    judging.pairs(check, systems, pairs, {"existence", "query", "equality", "equality-reversed"}, equality=True)
