"""C07: each identifier resolves to one unit by a fixed precedence."""
from .. import gen, judging, real
from ..gen import base, define, prefix, unit

# The same spelling as name, alias name, symbol and alias symbol, and as
# prefix and remainder.
LAYERS = [base("m0".replace("0", "z")), prefix("a", "10", "b", "bb"), prefix("b", "100", "a", "ab"), prefix("aa", "1e3"), prefix("ab", "1e4", "ba"),
          unit("def", ["x"], ["y"], d="2 mz"), unit("def", ["y"], ["x"], d="3 mz"), unit("def", ["p"], ["q"], [["y"], ["z"]], ["x"], d="5 mz"),
          unit("def", ["q"], ["z"], [["x"]], ["y", "w"], d="7 mz"), unit("def", ["bx"], ["w"], d="11 mz"), unit("def", [], ["ax"], [], ["v"], d="13 mz"),
          unit("def", [], ["v"], [["ay"]], d="17 mz"), unit("def", ["a"], [], d="19 mz"), unit("def", [], [], [["b"]], ["aaa"], d="23 mz"),
          unit("def", ["X"], ["Y"], d="29 mz"), unit("def", ["aby"], [], d="31 mz @ 5")]


# Prefixes which are added again keep their places.
AGAIN = [base("bc"), base("c"), base("abc"), prefix("a", "10"), prefix("ab", "100"), prefix("x", "3", "k", "kc"), prefix("y", "5", "kb"), prefix("z", "7", "kbb", "h"),
         unit("def", ["bbc"], ["bcc"], d="2 c"), unit("def", [], ["q", "cq", "bq"], d="3 bc")]


def again(rng):
    """Such a system, with some of the prefixes added again."""
    out = AGAIN[:]
    for _ in range(rng.randint(1, 5)):
        p = rng.choice([r for r in AGAIN if r["e"] == "prefix"])
        syms = [x for x in p["s"] if rng.random() < 0.8] + (["ab"] if rng.random() < 0.2 else [])
        rng.shuffle(syms)
        out.insert(rng.randint(3, len(out)), prefix(p["n"], rng.choice([p["v"], "11", "13e-1"]), *syms))
    return out


def words_of(rng, regs, spell, ps, letters, n):
    out = set(spell) | set(ps)
    for p in ps:
        out |= {p + w for w in spell}
    for _ in range(n):
        out.add("".join(rng.choice(letters) for _ in range(rng.randint(1, 6))))
        out.add(rng.choice(ps or ["a"]) + rng.choice(ps or ["a"]) + rng.choice(spell))
        out.add(rng.choice(ps or ["a"]) + rng.choice(ps or ["a"]))
        w = rng.choice(spell)
        out.add(w.swapcase())
        out.add(w + "s")
        out.add(rng.choice(ps or ["a"]) + w.upper())
    out.discard("")
    return sorted(out)


def run(check):
    rng = gen.rng_for(check.seed, "C07")
    systems = [gen.SIMPLE, LAYERS]
    prefixes = [p for r in gen.SIMPLE if r["e"] == "prefix" for p in [r["n"], *r["s"]]]
    spell = [x for r in gen.SIMPLE if r["e"] == "unit" for x in [*r["n"], *r["s"], *r["as"]]]
    cases = [(0, p + w) for p in ["", *prefixes] for w in spell if check.thorough or rng.random() < 0.6]
    cases += [(0, p + q + w) for p in prefixes for q in prefixes for w in ["m", "g", "meter", "s"] if rng.random() < 0.4]
    alphabet = ["a", "b", "x", "y", "z", "w", "v", "q", "p", "X", "Y", "mz"]
    cases += [(1, a + b + c + d) for a in ["", *alphabet] for b in ["", *alphabet[:6]] for c in ["", "a", "b"] for d in alphabet
              if check.thorough or rng.random() < 0.5]
    pairs = []
    for _ in range(check.scale(40, 300)):
        letters = rng.choice(["abdmk", "ab", "abk", "mkM"])
        regs, sp, ps = gen.random_system(rng, units=rng.randint(4, 9), letters=letters)
        systems.append(regs)
        words = words_of(rng, regs, sp, ps, letters, 12)
        rng.shuffle(words)
        cases += [(len(systems) - 1, w) for w in words[:70]]
        pairs += [(len(systems) - 1, p + w, w) for p in ps[:3] for w in sp if rng.random() < 0.3]
    for _ in range(check.scale(15, 100)):
        systems.append(again(rng))
        k = len(systems) - 1
        spell = ["bc", "c", "abc", "bbc", "bcc", "q", "cq", "bq", "bcs", "cs"]
        some = [p + w for p in ["", "a", "ab", "x", "y", "z", "k", "kc", "kb", "kbb", "h"] for w in spell]
        cases += [(k, w) for w in some]
        pairs += [(k, w, "c" if w.endswith(("bbc", "bcc")) else "bc") for w in rng.sample(some, 20)]
    for x in alphabet:
        pairs += [(1, p + x, "mz") for p in ["", "a", "b", "ab", "aa", "bb", "ba"]]
    pairs += [(0, p + w, w) for p in prefixes for w in ["m", "gram", "degC", "s", "meters", "Pa", "rad"]]
    clauses = {"accepted", "error", "kind", "refused", "denotes", "expanded-unreadable", "dimensionality"}
    judging.units(check, systems, cases, clauses)
    judging.pairs(check, systems, pairs, {"existence"})
