"""C10: unit text is read with the UDUNITS grammar's meaning."""
from .. import alphabet, gen, judging, real


def run(check):
    rng = gen.rng_for(check.seed, "C10")
    check.model_check("MC_Grammar", "MC_Grammar" if check.thorough else "MC_Grammar3")
    if check.thorough:
        check.model_check("MC_Grammar", "MC_GrammarWide")
    texts = list(alphabet.exhaustive(alphabet.CORE, 3)) + list(alphabet.exhaustive(alphabet.WIDE, 2))
    four = alphabet.exhaustive(alphabet.CORE, 4)
    texts += list(four) if check.thorough else [t for t in four if rng.random() < 0.06]
    texts += alphabet.random_texts(rng, check.scale(4500, 60000))
    g = alphabet.Grammar(rng)
    texts += [g.text(rng.choice([1, 2, 2, 3])) for _ in range(check.scale(9000, 120000))]
    texts += [g.mutated(2) for _ in range(check.scale(4000, 50000))]
    g = alphabet.Grammar(rng, ("m", "E", "e", "per", "\u00c5", "\u00e9", "\u00b5m", "\u00b0C", "\u00fe"))
    some = [t for t in (g.text(rng.choice([0, 1, 2])) for _ in range(check.scale(2500, 30000))) if t]
    texts += some + list(alphabet.relatives(rng, some))
    texts = sorted(set(alphabet.bounded(texts)))
    rng.shuffle(texts)
    for part in range(0, len(texts), 60000):
        judging.readings(check, texts[part:part + 60000], {"meaning", "rejects-valid-text", "accepts-invalid-text"})
    # and what is read is what is converted
    ids = ("m", "s", "kg", "rad", "km", "N", "2 m", "degC", "K")
    g = alphabet.Grammar(rng, ids, dates=False)
    cases = []
    for _ in range(check.scale(700, 6000)):
        a = g.text(2)
        b = f"({a.strip()})" if rng.random() < 0.3 else g.text(1)
        if alphabet.bounded([a + " " + b], alphabet.LONG):
            cases.append((0, a, b))
    judging.pairs(check, [gen.SIMPLE], cases, {"lookup", "existence"})
    judging.units(check, [gen.SIMPLE], [(0, t) for t in alphabet.bounded([g.text(2) for _ in range(check.scale(700, 6000))])],
                  {"refused", "accepted", "kind", "denotes"})
