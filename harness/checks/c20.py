"""C20: simplifying an expression preserves its meaning."""
import itertools

from .. import core, gen, real

# (some of which are the same but for their case, or normalise to the same)
IDS = ["a", "b", "m", "c", "Z", "\u00b5", "aa", "A", "B", "M", "aA", "\u03bc", "K", "k", "_a"]
NUMS = ["2", "3", "10", "1", "0.5", "1.5", "1e3", "2.0", ".25", "7", "-2", "-1", "1e-3", "4.", "12", "1.0", "+3"]
BIG = ["60", "100", "101", "360", "1000", "255", "-64", "9.81", "1e9", "0.1", "999", "1e-9", "18", "51"]
LONG = ["1.000000000000000000001", "1.000000000000000000002", "123456789.123456789123456789123456789", "3e30", "7e-31", "0.1", "1e999999", "2e-999999",
        "1.5", "12345678901234567890123456789", "98765432109876543210987654321", "2"]
# the same in their first or last letters
FAMILY = ["kilometerx", "kilometery", "kilometer", "kilometers", "kilometre", "millimeter", "micrometer", "kilo_meter", "metermeter", "KILOMETER", "kilometerxx",
          "x" * 40 + "a", "x" * 40 + "b", "x" * 40, "xa", "ax"]
POWERS = [2, 3, 1, 0, -1, -2, 5, -3]


def expr(rng, d, ids, nums):
    x = rng.random()
    if d == 0 or x < 0.2:
        return rng.choice(ids) if rng.random() < 0.65 else f"({rng.choice(nums)})"
    if x < 0.5:
        return f"{expr(rng, d - 1, ids, nums)}\u00b7{expr(rng, d - 1, ids, nums)}"
    if x < 0.72:
        return f"{expr(rng, d - 1, ids, nums)}/({expr(rng, d - 1, ids, nums)})"
    if x < 0.8:
        return f"({expr(rng, d - 1, ids, nums)})/{expr(rng, d - 1, ids, nums)}"
    return f"({expr(rng, d - 1, ids, nums)})^{rng.choice(POWERS)}"


def run(check):
    rng = gen.rng_for(check.seed, "C20")
    # all products of up to four factors over two identifiers and two numbers
    factors = ["a", "a^2", "a^-1", "b", "b^-2", "2", "3", "(2)^-1", "1.5", "(1.5)^2", "a^0", "-1", "(3)^2"]
    texts = [f"{x}" for x in factors]
    texts += ["\u00b7".join(p) for p in itertools.product(factors, repeat=2)]
    texts += ["\u00b7".join(p) for p in itertools.product(factors, repeat=3) if check.thorough or rng.random() < 0.6]
    texts += ["\u00b7".join(p) for p in itertools.product(factors, repeat=4) if rng.random() < check.scale(0.04, 1)]
    for _ in range(check.scale(5000, 60000)):
        ids = rng.sample(IDS, rng.choice([1, 2, 2, 3, 4]))
        if rng.random() < 0.1:
            x = rng.choice(IDS)
            ids = sorted({x, x.swapcase() if x.isascii() else "A", *ids[:1]})
        if rng.random() < 0.15:
            ids = rng.sample(FAMILY, rng.choice([2, 3, 4]))
        nums = rng.sample(LONG if rng.random() < 0.08 else NUMS + BIG if rng.random() < 0.3 else NUMS, rng.choice([1, 2, 3]))
        texts.append(expr(rng, rng.choice([1, 2, 3, 3, 4]), ids, nums))
    for x, y in itertools.permutations(FAMILY, 2):
        texts += [f"{x}\u00b7{y}\u00b7{x}/{y}", f"{y}/{x}", f"2\u00b7{x}/({y}\u00b7{x}^2)\u00b7{y}^3"]
    for x, y in itertools.product(LONG, repeat=2):
        texts += [f"{x}\u00b7{y}", f"a/({x}\u00b7a\u00b7{y})", f"({x}\u00b7a)^3/{y}"]
    texts = sorted(set(texts))
    recs = core.parallel(real.simplify, texts, 100)
    for part in range(0, len(recs), 50000):
        some = recs[part:part + 50000]
        j = core.judge("JudgeExpand", some)
        check.saw(j)
        check.validated(len(some))
        for i, bad in sorted(j.bad.items()):
            r = some[i]
            check.violation("+".join(sorted(bad)), text=r["_text"], got=r["r"], message=r.get("_message"),
                            simplified=core.text(r["o"]), again=core.text(r["again"]))
    check.sample([dict(text=r["_text"], simplified=core.text(r["o"])) for r in recs], 8)
