"""C06: dimensionality is the net exponent of each basis unit."""
from .. import gen, judging, real, texts
from ..gen import base, define, unit
from .c01 import DB_GROUPS
from .c04 import POOL

# Basis units of every kind: without names, dimensionless, several time units.
KINDS = [unit("base", [], ["q"]), base("meter", "m"), unit("base", ["tick"], [], time=True), base("second", "s", time=True),
         unit("dimless", [], ["r"]), unit("dimless", ["turn"], ["t"], time=True), define("x", "m.tick/s"), define("y", "tick2/tick"),
         define("z", "r.tick"), define("w", "lg(re x/m)"), define("v", "q @ 5"), define("u", "t.s/tick")]
KIND_TEXTS = ["q", "r", "t", "tick", "s", "x", "y", "z", "w", "v", "u", "x.m", "x/m", "y @ 5", "z @ 3", "t @ 5", "r @ 1", "tick/s", "tick.s",
              "s since 2000-01-01", "tick since 2000-01-01", "t since 2000-01-01", "w @ 2", "v/q", "v^2/q", "q0", "tick^0", "(tick/s).s",
              "s^1", "s^-1", "1/(1/s)", "s2/s", "s.r", "s/t", "2 s", "s.q/q", "lg(re s)", "lg(re s) @ 3", "ms", "u.tick/t", "v.v", "v-2", "(v)^2"]


def run(check):
    rng = gen.rng_for(check.seed, "C06")
    g = texts.Gen(rng)
    t = gen.Texts(rng, gen.SIMPLE_DIMS)
    db = gen.Texts(rng, DB_GROUPS)
    cases = [(0, x) for x in POOL] + [(1, x) for x in KIND_TEXTS]
    n = check.scale(1500, 15000)
    for _ in range(n):
        v = t.vector(rng.randint(1, 4))
        x = t.render(v, 2)
        if rng.random() < 0.4:
            # everything cancels
            y = t.render({k: -e for k, e in v.items() if rng.random() < 0.8}, 1)
            x = f"({x}).({y})" if rng.random() < 0.5 else f"({x})^2 ({y})2"
        cases.append((0, x))
    for _ in range(n // 3):
        parts = [g.offset(1), g.inner(), g.log(rng.choice(["m", "W", "Hz", "1/s"]), 1), g.scaled(["s", "min", "h"]), "N", "rpm"]
        x = rng.choice(parts)
        for _ in range(rng.randint(0, 2)):
            x = rng.choice([f"({x})^{rng.choice([-2, -1, 0, 1, 2, 3])}", f"({x})/({rng.choice(parts)})", f"({x}).({rng.choice(parts)})",
                            f"({x}) @ 5", f"2 ({x})"])
        cases.append((0, x))
    cases += [(2, db.render(db.vector(rng.randint(1, 4)), 1)) for _ in range(n // 3)]
    systems = [gen.SIMPLE, KINDS, real.DATABASE]
    for _ in range(check.scale(12, 80)):
        regs, spell, ps = gen.random_system(rng, units=8)
        systems.append(regs)
        for _ in range(30):
            w = [rng.choice(spell) for _ in range(3)]
            x = rng.choice([w[0], f"{w[0]}.{w[1]}", f"{w[0]}/{w[1]}", f"({w[0]}/{w[1]})^2/{w[2]}", f"{w[0]}2 {w[1]}-2", f"{w[0]} @ 5"])
            cases.append((len(systems) - 1, x))
    judging.units(check, systems, cases, {"kind", "dimensionality", "dimensionless", "time"})
    words(check)
    large(check, rng)


def words(check):
    """The dictionary-like interface of a dimensionality."""
    from ..core import Raised, guarded

    s = real.build(gen.SIMPLE)
    n = 0
    for x in POOL:
        u = guarded(s.unit, x)
        if isinstance(u, Raised):
            continue

        def ask():
            d = u.dimensionality()
            e = {str(k): v for k, v in d.items()}
            return (len(d) == len(e), [str(k) for k in d.keys()] == list(e), list(d.values()) == list(e.values()), d == e,
                    d == u.dimensionality(), not d == {"meter": 7}, d.inverted() == {k: -v for k, v in e.items()},
                    d.inverted().inverted() == d, str(d) == str(e))

        got = guarded(ask)
        n += 1
        if isinstance(got, Raised) or not all(got):
            check.violation("dictionary", text=x, got=got)
    check.validated(n, "dictionary_interfaces")


def large(check, rng):
    """Exponents of more digits than TLC (or a float) can calculate with,
    whose sums and products are those of integers."""
    from ..core import Raised, guarded

    s = real.build(gen.SIMPLE)
    ks = [2**31, 2**31 - 1, 2**53, 2**53 + 1, 2**63, 2**64 + 1, 10**15 + 1, 10**17 + 1, 12345678901234567890123, 10**40 + 7, 65536, 99999]
    ks += [rng.randrange(10 ** rng.randint(5, 30)) for _ in range(check.scale(10, 200))]
    for _ in range(check.scale(400, 5000)):
        parts, want = [], {}
        for _ in range(rng.randint(1, 4)):
            u, dim = rng.choice([("m", {"meter": 1}), ("s", {"second": 1}), ("km", {"meter": 1}), ("Hz", {"second": -1}), ("rad", {}), ("(m/s)", {"meter": 1, "second": -1}),
                                 ("(m2)", {"meter": 2}), ("L", {"meter": 3}), ("kg", {"kilogram": 1})])
            k = rng.choice(ks) * rng.choice([1, -1])
            if parts and rng.random() < 0.4:
                k = last + rng.choice([0, 1, -1])  # noqa: F821
            last = k
            over = rng.random() < 0.4
            x = f"{u}^{k}"
            if rng.random() < 0.2:
                j = rng.choice([2, -1, 3, -3])
                x, k = f"({x})^{j}", k * j
            parts.append(("/" if over else rng.choice([" ", "*"]), x))
            for d, e in dim.items():
                want[d] = want.get(d, 0) + e * k * (-1 if over else 1)
        want = {d: e for d, e in want.items() if e}
        text = "1" + "".join(a + b for a, b in parts)

        def ask():
            u = s.unit(text)
            d = u.dimensionality()
            return {str(k): v for k, v in d.items()} == want, str(d) == str(want) or len(want) > 1, u.is_dimensionless() == (not want), \
                u.is_time_unit() == (want == {"second": 1}), {str(k): -v for k, v in d.inverted().items()} == want

        got = guarded(ask)
        if isinstance(got, Raised) or not all(got):
            check.violation("large exponents", text=text, got=got.name if isinstance(got, Raised) else got, want=str(want))
    check.validated(check.scale(400, 5000), "large_exponents")
