"""C09: registering is all or nothing, and conflicts are refused."""
import itertools

from .. import gen, sessions
from ..gen import prefix, unit
from .c08 import made

# Spellings collide in every way: names, plurals, symbols and both aliases.
UNIVERSE = [
    unit("base", ["a"], ["b"]),
    unit("base", ["b", "ab"], [], asym=["a"]),
    unit("def", ["ab"], ["ba"], d="2 a"),
    unit("def", [], ["a"], [["aa", "bb"]], d="b/aa"),
    unit("def", ["aa", "ba"], [], asym=["b"], d="3 ab @ 5"),
    unit("def", ["ab", "b"], ["a"], d="3 c", rep=True),
    unit("dimless", ["aa"], ["b"], rep=True),
    unit("base", ["c"], ["a", "bb"]),
    unit("def", ["bb", "a"], ["c", "ab"], [["cc"]], ["ca"], d="5 c"),
    unit("def", ["cc"], ["cb", "b"], d="7 c"),
    prefix("a", "10", "b"),
    # one spelling more than once within the unit
    unit("base", ["bb", "bb"], ["c", "c"]),
    unit("def", ["ca", "c"], ["ca", "b"], [["cb", "cb"], ["ab"], ["ab"]], asym=["c", "cb"], d="11 c"),
    unit("dimless", ["cb"], ["cb"], [["cb"]], asym=["cb"]),
    # spellings of aliases taken, and taken over
    unit("def", [], ["c"], [["aa", "bb"], ["cb", "ab"]], asym=["ca"], d="13 c", rep=True),
    unit("def", [], ["cc"], [["ac", "a"], ["bc", "b"]], asym=["aa"], d="17 c"),
    # one with every kind of spelling, and the replacements of just one of them
    unit("base", ["bc", "bcs"], ["cb", "bb"], [["ab", "abs"], ["aac"]], asym=["ca", "ac"]),
    unit("def", ["bc"], [], d="19 c", rep=True),
    unit("def", [], ["cb"], d="23 c", rep=True),
    unit("def", [], [], [["ab"]], d="29 c", rep=True),
    unit("def", [], [], asym=["ac"], d="31 c", rep=True),
    unit("def", ["cba", "bcs"], [], d="37 c", rep=True),
]
TEXTS = ["a", "b", "ab", "ba", "aa", "bb", "c", "cc", "ca", "cb", "bc", "ac", "bcs", "abs", "aac"]


def session(regs, start=()):
    steps = [("reg", 1, r) for r in start]
    for i, r in enumerate(regs):
        # (the same object, if it has been registered before)
        steps.append(("reg", 1, r, True) if r in regs[:i] else ("reg", 1, r))
        steps += [("look", 1, t) for t in TEXTS]
    return steps


def run(check):
    check.model_check("MC_Session")
    rng = gen.rng_for(check.seed, "C09")
    base = [unit("base", ["c"], [])]
    out = [session(rs) for n in (1, 2) for rs in itertools.product(UNIVERSE, repeat=n)]
    triples = list(itertools.permutations(UNIVERSE, 3))
    if not check.thorough:
        triples = rng.sample(triples, 350)
    out += [session(rs, base if rng.random() < 0.5 else ()) for rs in triples]
    for _ in range(check.scale(250, 2500)):
        out.append(session([rng.choice(UNIVERSE) for _ in range(rng.randint(4, 7))], base))
    for _ in range(check.scale(250, 2500)):
        # random units, of which some are registered again under part of their spellings
        regs, spell, ps = gen.random_system(rng, units=rng.randint(3, 6), letters="abk")
        extra = []
        for _ in range(rng.randint(2, 4)):
            r = rng.choice([r for r in regs if r["e"] == "unit"])
            own = r["n"] + r["s"] + r["as"] + [x[0] for x in r["an"]]
            x = dict(e="unit", k="def", time=False, d=f"{rng.choice(['2', '0.5'])} {rng.choice(spell)}",
                     n=[], s=[], an=[], **{"as": []}, rep=rng.random() < 0.5)
            fresh = "".join(rng.choice("abk") for _ in range(5))
            where = rng.choice(["n", "plural", "s", "second symbol", "an", "alias plural", "second alias", "as", "second as"])
            o = rng.choice(own)
            if where == "n":
                x["n"] = [o]
            elif where == "plural":
                x["n"] = [fresh, o]
            elif where == "s":
                x["s"], x["n"] = [o], [fresh]
            elif where == "second symbol":
                # (or a later one)
                more = [fresh + c * i for c in "abk" for i in range(2, 4)]
                x["s"] = [fresh, *rng.sample(more, rng.choice([0, 0, 1, 2, 4])), o]
                if rng.random() < 0.2:
                    x["s"].append(fresh + "kb")
                x["n"] = [fresh + "b"]
                x["an"] = [[fresh + "a"]]
            elif where == "an":
                x["n"], x["an"] = [fresh], [[o]]
            elif where == "alias plural":
                x["n"], x["an"] = [fresh], [[fresh + "a", o]]
            elif where == "second alias":
                x["n"], x["an"] = [fresh], [[fresh + "a", fresh + "b"], rng.choice([[o], [fresh + "bb", o], [o, fresh + "bb"]])]
            elif where == "second as":
                x["s"], x["as"] = [fresh], [fresh + "a", o]
            else:
                x["s"], x["as"] = [fresh], [o]
            extra.append((x, fresh))
        steps = [("reg", 1, r) for r in regs]
        words = spell + [f for _, f in extra] + [f + "a" for _, f in extra] + [f + "b" for _, f in extra]
        for x, _ in [*extra, *((rng.choice(extra),) if rng.random() < 0.4 else ())]:
            steps += [("look", 1, t) for t in rng.sample(words, min(4, len(words)))]
            steps.append(("reg", 1, x, True) if rng.random() < 0.5 else ("reg", 1, x))
            steps += [("look", 1, t) for t in words]
        out.append(steps)
    out = [[(*s[:2], made(rng, s[2]), *s[3:]) if s[0] == "reg" else s for s in steps] if rng.random() < 0.5 else steps for steps in out]
    sessions.check_sessions(check, out)
