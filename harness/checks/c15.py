"""C15: every unit of the bundled UDUNITS database has its published meaning."""
from .. import core, gen, judging, real

CLAUSES = {"accepted", "error", "kind", "refused", "denotes", "expanded-unreadable", "dimensionality", "dimensionless", "time", "text"}


def spellings(r):
    return [*r["n"], *r["s"], *(x for n in r["an"] for x in n), *r["as"]]


def basis_text(rec):
    """Text for the basis units of a unit."""
    return " ".join(f"{core.text(n)}{e}" for n, e in rec["dim"]) or "1"


def near(rng, w, words):
    """A spelling which is similar to w."""
    r = rng.random()
    i = rng.randrange(len(w) + 1)
    if r < 0.2:
        return w[:i] + w[i + 1:]
    if r < 0.4:
        return w[:i] + rng.choice("aeioumskgtdcKMGPT_%") + w[i:]
    if r < 0.55:
        return w.swapcase() if r < 0.48 else w.capitalize() if w[0].islower() else w.lower()
    if r < 0.7:
        return w + rng.choice(["s", "es", "ies", "ss", "_"])
    if r < 0.85:
        return w + rng.choice(words)
    return w[:-1] or w


def run(check):
    rng = gen.rng_for(check.seed, "C15")
    systems = [real.DATABASE]
    units = [r for r in real.DATABASE if r["e"] == "unit"]
    prefixes = [p for r in real.DATABASE if r["e"] == "prefix" for p in [r["n"], *r["s"]]]
    words = sorted({w for r in units for w in spellings(r)})
    # every spelling
    recs, _ = judging.units(check, systems, [(0, w) for w in words], CLAUSES, "spellings", spellings=True)
    judging.units(check, systems, [(0, w) for w in words], CLAUSES - {"text"}, "spellings", spellings=True, how="spelled")
    # with every prefix
    prefixed = [p + w for p in prefixes for w in words if w.isidentifier() and not any(c.isdigit() for c in w)]
    if not check.thorough:
        # at least each unit and each prefix
        keep = set(rng.sample(prefixed, 2200))
        keep |= {rng.choice(prefixes) + rng.choice(ok) for r in units if (ok := [w for w in spellings(r) if w.isalpha()])}
        keep |= {p + w for p in prefixes for w in ("m", "meter", "g", "second", "degC", "K", "bit", "in", "t")}
        prefixed = sorted(keep)
    for i in range(0, len(prefixed), 40000):
        judging.units(check, systems, [(0, w) for w in prefixed[i:i + 40000]], CLAUSES, "prefixed")
    # and what isn't in it
    wrong = {near(rng, rng.choice(words), words) for _ in range(check.scale(1500, 20000))}
    wrong |= {p + q + w for p in prefixes for q in prefixes for w in ("m", "gram") if check.thorough or rng.random() < 0.1}
    judging.units(check, systems, [(0, w) for w in sorted(wrong) if w], CLAUSES, "others")
    # converted to and from basis units
    pairs = []
    basis = {r["_text"]: basis_text(r) for r in recs if r["r"] == "unit"}
    for r in units:
        ok = [w for w in spellings(r) if w in basis]
        for w in ok if check.thorough else ok[:1]:
            pairs += [(0, w, basis[w]), (0, basis[w], w)]
        pairs += [(0, a, b) for a, b in zip(ok, ok[1:] + ok[:1]) if a != b and (check.thorough or rng.random() < 0.25)]
    judging.pairs(check, systems, pairs, {"existence", "lookup"}, label="conversions")
