"""C12: the text form of a unit reads back as the same unit."""
from .. import alphabet, core, gen, judging, real, texts
from .c01 import DB_GROUPS, TRICKY
from .c04 import POOL

CLAUSES = {"text", "text-unreadable", "normal", "normal-unreadable", "not-idempotent", "expanded", "expanded-unreadable", "denotes",
           "reference", "date-unit"}
# where brackets matter, in every position
NESTED = ["m", "2", "m s", "m/s", "m^2", "(m^2)^3", "K @ 5", "lg(re m)", "m @ -2", "1/m", "lg(re m) @ 1", "ln(re K @ 5)", "2 m/s", "-1.5", "1e-3", "rad"]


def nested():
    for a in NESTED:
        yield a
        for wrap in ["({})^2", "({})^-1", "({})^0", "({})^1", "1/({})", "({})/2", "2 ({})", "({}) @ 3", "lg(re {})", "lb(re ({})/s)", "({})/(m/({}))",
                     "({})^2/({})^3", "m/({})/({})", "m.({}) s", "(({}) @ 1) @ -2", "lg(re ({}) @ 2)", "(({})^2)^-2", "s/(({}) m)^2"]:
            yield wrap.replace("{}", a)
        for b in NESTED:
            for op in ["/", "*", " per "]:
                yield f"({a}){op}({b})"


def run(check):
    rng = gen.rng_for(check.seed, "C12")
    t = gen.Texts(rng, gen.SIMPLE_DIMS)
    d = gen.Texts(rng, DB_GROUPS)
    g = texts.Gen(rng)
    gr = alphabet.Grammar(rng, ("m", "s", "km", "kg", "rad", "degC", "Bm", "percent"))
    logs = sorted(g.REFS)
    cases = [(0, x) for x in [*POOL, *(a for p in TRICKY for a in p), *nested()]]
    n = check.scale(600, 6000)
    cases += [(0, t.render(t.vector(rng.randint(1, 3)))) for _ in range(n)]
    cases += [(0, g.offset(3)) for _ in range(n // 2)] + [(0, g.inner()) for _ in range(n // 4)]
    cases += [(0, f"{g.shifted_log(rng.choice(logs))}") for _ in range(n // 3)] + [(0, g.dated()) for _ in range(n // 2)]
    cases += [(0, x) for x in alphabet.bounded([gr.text(rng.choice([1, 2, 2, 3])) for _ in range(n)])]
    cases += [(1, d.render(d.vector(rng.randint(1, 4)))) for _ in range(n // 3)]
    systems = [gen.SIMPLE, real.DATABASE]
    for _ in range(check.scale(12, 80)):
        regs, spell, ps = gen.random_system(rng, units=8)
        systems.append(regs)
        words = spell + [p + w for p in ps for w in spell]
        k = len(systems) - 1
        cases += [(k, w) for w in words[:25]]
        cases += [(k, f"({rng.choice(words)}/{rng.choice(words)})^{rng.choice([2, -1])} {rng.choice(words)}") for _ in range(8)]
        cases += [(k, f"{rng.choice(words)} @ {rng.choice(['1', '2.5'])}") for _ in range(4)]
    recs, _ = judging.units(check, systems, cases, CLAUSES)
    # the same conversions: each to its own text forms, and to and from another
    pairs = []
    for r in recs:
        if r["r"] == "unit" and alphabet.bounded([r["_text"]], alphabet.LONG) and rng.random() < check.scale(0.25, 1):
            s = core.text(r["str"])
            pairs.append((r["s"] - 1, r["_text"], s))
            if r["s"] <= 2:
                pairs.append((r["s"] - 1, core.text(r["exp"]), r["_text"]))
    judging.pairs(check, systems, pairs, {"lookup", "existence", "query"}, equality=False)
    # and texts which only need to be read
    gr = alphabet.Grammar(rng, ("m", "s", "kg", "zz"))
    judging.readings(check, alphabet.bounded([gr.text(rng.choice([2, 3])) for _ in range(check.scale(1500, 40000))]),
                     {"unreadable-canonical-text", "not-idempotent", "meaning"})
