"""C21: date and time values are compared, hashed and written faithfully."""
import itertools

from .. import core, gen, real
from ..core import Raised, codes, guarded

HOURS = [0, 1, 9, 10, 12, 13, 23, 24]
MINUTES = [0, 1, 9, 10, 30, 59]
SECONDS = [0, 1, 9, 10, 59, 60]
MICROS = [0, 1, 10, 99, 1000, 50000, 99999, 100000, 500000, 999999]
ZONES = ["UTC", "", "Z", (0, 0, 0, 0), (1, 0, 0, 0), (5, 30, 0, 0), "+01:00", "01:00"]
RAWS = [None, "2000-01-01", "", "2000-1-1 00:00"]


def time(t):
    from pyudunits2._datetime import Time

    return Time(*t) if len(t) == 4 else Time(hour=t[0], minute=t[1])


def date_time(x):
    from pyudunits2._datetime import DateTime

    (y, mo, d), t, z, raw = x
    kw = {}
    if t is not None:
        kw["time"] = time(t)
    if z is not None:
        kw["tz_offset"] = z if isinstance(z, str) else time(z)
    if raw is not None:
        kw["raw_content"] = raw
    return DateTime(y, mo, d, **kw)


def spec_time(t):
    t = (*t, 0, 0)[:4]
    return dict(h=t[0], m=t[1], s=t[2], u=t[3])


def spec_date_time(x):
    (y, mo, d), t, z, _ = x
    z = "UTC" if z is None else z
    return dict(y=y, mo=mo, d=d, t=spec_time(t or (0, 0, 0, 0)), z=dict(k=codes(z)) if isinstance(z, str) else spec_time(z))


def texts(args):
    t, u = args

    def text(x):
        s = guarded(lambda: str(time(x)))
        return codes("?" + s.name if isinstance(s, Raised) else s)

    return dict(q="time", t=spec_time(t), o=text(t), t2=spec_time(u), o2=text(u), _what=(t, u))


def same(args):
    kind, x, y = args
    make, spec = (time, spec_time) if kind == "time" else (date_time, spec_date_time)
    a, b = guarded(make, x), guarded(make, y)
    n = guarded(lambda: len({a, b}))
    return dict(q="same", a=spec(x), b=spec(y), eq=real.flag(guarded(lambda: a == b)), ne=real.flag(guarded(lambda: a != b)),
                hash=real.flag(guarded(lambda: hash(a) == hash(b))), sets=-1 if isinstance(n, Raised) else n,
                get=real.flag(guarded(lambda: {a: 1}.get(b) == 1)), _what=(x, y))


def carried(rng, n):
    """Pairs of which one field is one more, and a later one less by about as
    much as that one counts; of which fields are exchanged; ..."""
    for _ in range(n):
        x = [rng.choice([1999, 2000, 1, 0, -5, 1582, 30]), rng.randint(1, 12), rng.choice([1, 2, 28, 29, 30, 31, rng.randint(1, 31)]),
             rng.choice(HOURS), rng.choice(MINUTES), rng.choice(SECONDS), rng.choice(MICROS), rng.choice([0, 1, 5, 12, 23]), rng.choice([0, 0, 30])]
        y = x[:]
        how = rng.random()
        i = rng.randrange(len(x) - 1)
        if how < 0.6:
            j = i + 1 if i < 7 or rng.random() < 0.6 else rng.choice([3, 4])
            worth = {1: [12, 10, 11, 100], 2: [30, 31, 28, 29, 32, 100], 3: [24, 10, 12, 23, 25, 100], 4: [60, 100, 10], 5: [60, 100, 10],
                     6: [1000000, 999999, 100, 1000], 7: [1, 10], 8: [60, 100, 30]}[j] if j == i + 1 else [1, 60]
            k = rng.choice([-1, 1, 1, 2])
            y[i] += k
            y[j] -= k * rng.choice(worth)
        elif how < 0.8:
            j = rng.randrange(len(x))
            y[i], y[j] = y[j], y[i]
        else:
            # the same moment in another zone
            k = rng.choice([1, 2, -1])
            y[3], y[7] = y[3] + k, y[7] + k
        zone = rng.random() < 0.7
        sets = [(tuple(v[:3]), tuple(v[3:7]), (*v[7:], 0, 0) if zone else None, None) for v in (x, y)]
        yield ("date", *sets)


def run(check):
    check.model_check("MC_Clock")
    rng = gen.rng_for(check.seed, "C21")
    times = list(itertools.product(HOURS, MINUTES, SECONDS, MICROS))
    times += [(h, m, 0, 0) for h in range(24) for m in range(60)] + [(h, m) for h in (0, 5, 23) for m in (0, 7, 59)]
    times += [(rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(1000000)) for _ in range(check.scale(3000, 100000))]
    cases = []
    for t in times:
        # next to a time which differs in one field or none, or in the shape of its text
        u = list((*t, 0, 0)[:4])
        i = rng.randrange(5)
        if i < 4:
            u[i] = rng.choice([HOURS, MINUTES, SECONDS, MICROS][i])
        cases.append((t, tuple(u)))
    recs = core.parallel(texts, cases, 500)
    dates = [(2000, 1, 1), (2000, 1, 2), (2000, 2, 1), (2001, 1, 1), (-5, 12, 31), (0, 1, 1)]
    clocks = [None, (0, 0, 0, 0), (0, 0), (0, 0, 0, 1), (0, 0, 1, 0), (0, 1, 0, 0), (1, 0, 0, 0)]
    values = list(itertools.product(dates, clocks, [None, *ZONES], RAWS))
    pairs = [("date", x, x) for x in values]
    for x in values:
        # all which differ in one field
        for y in values:
            if sum(p != q for p, q in zip(x, y)) == 1 and (check.thorough or rng.random() < 0.35):
                pairs.append(("date", x, y))
    pairs += [("date", rng.choice(values), rng.choice(values)) for _ in range(check.scale(3000, 30000))]
    # clocks which differ in one field, up to its last value
    for i, vals in enumerate((HOURS, MINUTES, SECONDS, MICROS)):
        for a, b in itertools.permutations(vals, 2):
            rest = rng.choice([(0, 0, 0, 0), (1, 1, 1, 1), tuple(rng.choice(v) for v in (HOURS, MINUTES, SECONDS, MICROS))])
            t, u = ((*rest[:i], x, *rest[i + 1:]) for x in (a, b))
            pairs += [("time", t, u), ("date", ((2000, 1, 1), t, None, None), ((2000, 1, 1), u, None, None)),
                      ("date", ((2000, 1, 1), None, t, None), ((2000, 1, 1), None, u, None))]
    # differences in two fields which make up for each other in some sense
    for x in carried(rng, check.scale(1500, 15000)):
        pairs += [x, (x[0], x[2], x[1])]
    small = list(itertools.product([0, 1], [0, 1], [0, 1], [0, 1]))
    pairs += [("time", x, y) for x in small + [(0, 0), (1, 0)] for y in small]
    recs += core.parallel(same, pairs, 500)
    j = core.judge("JudgeClock", recs)
    check.saw(j)
    check.validated(len(recs))
    for i, bad in sorted(j.bad.items()):
        r = recs[i]
        check.violation("+".join(sorted(bad)), values=r["_what"], got={k: v for k, v in r.items() if k in ("eq", "ne", "hash", "sets", "get")},
                        text=core.text(r["o"]) if "o" in r else None)
    # nothing else is equal to a date-time, and comparing it raises nothing
    d = date_time(values[0])
    for x in ("2000-01-01", None, 1, (2000, 1, 1), object(), time((0, 0)), d.time):
        if real.flag(guarded(lambda: d == x)) != "F" or real.flag(guarded(lambda: d != x)) != "T" or real.flag(guarded(lambda: x == d)) != "F":
            check.violation("equal to another type", other=repr(x))
    check.sample([str(r["_what"]) for r in recs], 6)
