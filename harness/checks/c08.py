"""C08: lookups do not change what later lookups mean."""
import itertools

from .. import gen, sessions
from ..gen import base, define, prefix, unit

# Chains of definitions, in any order of registration, with what refers to
# what not there yet, lookups in between.
CHAIN = [unit("base", ["m", "ms"], []), define("b", "2 m"), define("c", "b.b"), prefix("k", "1000", "h"),
         define("d", "kb/c"), define("e", "c @ 5")]
TEXTS = ["b", "kc", "d", "nope", "b)", "e", "hb2", "km/d", "bs", "3 ce"]


def exhaustive(check):
    """Every order of registering a chain of three, with every lookup of
    three texts possible in every gap, followed by all lookups."""
    out = []
    regs = [unit("base", ["m"], []), define("b", "2 m"), unit("def", ["c"], [], d="kb.b"), prefix("k", "10")]
    looks = ["b", "c", "kc"]
    for order in itertools.permutations(regs):
        for gaps in itertools.product(range(8), repeat=3):
            if not check.thorough and sum(bin(g).count("1") for g in gaps) > 3:
                continue
            steps = []
            for r, g in zip(order, (*gaps, 7)):
                steps.append(("reg", 1, r))
                steps += [("look", 1, t) for j, t in enumerate(looks) if g >> j & 1]
            steps += [("look", 1, "b"), ("look", 1, "2 c/m")]
            out.append(steps)
    return out


def rebinding():
    """Later registrations give other meanings to what was already used."""
    out = []
    setup = [unit("base", ["m"], ["b"]), prefix("k", "1000"), define("x", "2 km"), define("y", "x.m", an=[["yy"]])]
    later = [unit("def", ["km"], [], d="5 m"), unit("def", ["m"], [], d="7 b", rep=True),
             unit("def", ["x"], [], d="3 m", rep=True), prefix("k", "5"), unit("base", ["m"], [], rep=True),
             unit("def", ["kx"], ["m"], d="11 b")]
    texts = ["km", "x", "y", "kx", "m", "yy/x", "ky"]
    for r in later:
        for q in [None, *later]:
            for n in (0, 1, 3, 7):
                steps = [("reg", 1, s) for s in setup]
                steps += [("look", 1, t) for t in texts[:n]]
                steps.append(("reg", 1, r))
                if q:
                    steps += [("look", 1, t) for t in texts[n:n + 2]]
                    steps.append(("reg", 1, q))
                steps += [("look", 1, t) for t in texts]
                out.append(steps)
    return out


def made(rng, r, p=0.2):
    """At times, a unit which is made of its definition at once."""
    return dict(r, k="fixed") if r["e"] == "unit" and r["k"] == "def" and r["d"] and rng.random() < p else r


LONG = "m.s/b.10 m^2 (s.b)^-1."
ALIKE = [
    ["m s", "ms", "m.s", "m  s", "s m", "sm", " ms ", "m/s", "mS", "Ms", "m_s", "m-s"],
    ["m2", "m 2", "m^2", "2 m", "2m", "m-2", "m -2", "m.2", "m 02", "m**2", "m2 2", "(m)2", "m\u00b2", "m\u207b\u00b2"],
    ["mm", "Mm", "MM", "mM", "m m", "M m", "m.m", "mmm", "m"],
    ["m/s.b", "m/(s.b)", "(m/s).b", "m/s b", "m/sb", "m s b", "m/s/b", "m.b/s"],
    ["12 m", "1 2 m", "12m", "1 2m", "1.2 m", "1 .2 m", "21 m", "120 m", "1e2 m", "1 e2 m", "12 M", "-12 m", "0012 m"],
    ["b @ 5", "b@5", "b5", "b 5", "b @ -5", "b @ 5.0", "b @ 50", "(b @ 5) b", "b (b @ 5)", "B @ 5", "b from 5", "b @ 0.5"],
    ["s @ 5", "s since 5", "s@05", "S @ 5", "s 5", "s.5", "(s) @ 5", "s since 2000-01-01", "s since 2000-01-1", "s @ 20000101", "s @ 2000-01-01 UTC", "s @ 2000-01-01Z"],
    ["lg(re m)", "ln(re m)", "lb(re m)", "lg(re M)", "lg(re s)", "lg m", "lg(re m m)", "lg(re mm)", "2 lg(re m)", "lg(re 2 m)", "lg(re lg(re m))", "log(re m)"],
    ["m^-1", "m^1", "1/m", "m-1", "m^-11", "m^11", "m^0", "m", "m^-1 m", "-1 m"],
    ["1000000001 m", "1000000000 m", "1000000001 s", "1000000000 1 m", "10000000010 m", "1e9 m", "1000000000.1 m"],
    ["m.m.m.m.m.m.m.m.m.m/s", "m.m.m.m.m.m.m.m.m.m/b", "m.m.m.m.m.m.m.m.m.m s", "m.m.m.m.m.m.m.m.m/s", "m10/s", "s.m.m.m.m.m.m.m.m.m/m"],
    [LONG + x for x in ("m", "s", "m2", " m", "", "/m", "/s", " @ 5", " @ 50")] + ["(" + LONG + "m)", "2 " + LONG + "m", LONG[2:] + "m"],
    [LONG * 4 + x for x in ("m", "s", "m2", "/m", "/s", " @ 5")] + [LONG * 4 + "s" + LONG, LONG * 4 + "m" + LONG, "s." + LONG * 4 + "m"],
    ["", "1", " ", "0", "10", "1 1", "(1)", "m0", "()", "1/1", "."],
    ["m%", "m", "%", "m'", "m\"", "m''", "m\u2033", "m\u2032\u2032", "\u00b5m", "\u03bcm", "um"],
]


def alike(rng, n):
    """Texts which are alike, one after the other."""
    system = [unit("base", ["metre"], ["m"]), unit("base", ["second"], ["s"], time=True), unit("base", ["b"], ["B"]), unit("base", ["S"], []),
              define("sm", "3 m"), define("m_s", "5 s"), prefix("m", "0.001"), prefix("M", "1000000"), define("M", "7 m"), define("e2", "11 m"),
              unit("def", [], ["%", "'"], d="0.01"), define("um", "13 m"), prefix("\u00b5", "17")]
    out = []
    for i in range(n):
        regs = system[:]
        rng.shuffle(regs)
        family = ALIKE[i % len(ALIKE)][:]
        rng.shuffle(family)
        steps = [("reg", 1, r) for r in regs]
        steps += [("look", 1, t) for t in family]
        steps += [("look", 1, rng.choice(family)) for _ in range(6)]
        steps += [("ask", rng.randint(1, len(family))) for _ in range(4)]
        out.append(steps)
    return out


def random_sessions(rng, n):
    out = []
    for _ in range(n):
        regs, spell, ps = gen.random_system(rng, units=rng.choice([3, 4, 5, 6, 7, 9, 12]), letters=rng.choice(["abk", "abdmk", "mk"]))
        if rng.random() < 0.5:
            rng.shuffle(regs)
        words = spell + ps

        def text():
            x = rng.random()
            w = rng.choice(words)
            if x < 0.5:
                return w
            if x < 0.7:
                return rng.choice(ps or [""]) + w
            if x < 0.8:
                return f"{w}/{rng.choice(words)}"
            if x < 0.9:
                return rng.choice(["", f"{w}(", f"2 {w}2", f"{w} @ 5", "zz", f"lg(re {w})", "(" * 60 + w])
            return f"3 {w}.{rng.choice(words)}"

        regs = [made(rng, r) for r in regs]
        steps = []
        for r in regs:
            steps.append(("reg", 1, r))
            while rng.random() < 0.4:
                steps.append(("look", 1, text()))
        again = [text() for _ in range(rng.randint(2, 4))]
        for i in range(2 if len(out) % 3 else 4):
            if i:
                # with other meanings for some of the spellings in between
                for _ in range(rng.choice([0, 0, 1, 2]) if len(out) % 3 else rng.randint(1, 3)):
                    a, b = rng.choice(words), rng.choice(words)
                    steps.append(("reg", 1, rng.choice([unit("def", [a], [], d=f"7 {b}", rep=True), unit("def", [], [a], d=f"5 {b}", rep=True), unit("base", [a], [b], rep=True),
                                                        unit("def", ["new"], [], [[a]], [b], d=f"3 {rng.choice(words)}", rep=True), prefix(rng.choice(ps or ["q"]), "16", a[:1])])))
            order = again[:]
            rng.shuffle(order)
            steps += [("look", 1, t) for t in order]
        out.append(steps)
    return out


def run(check):
    rng = gen.rng_for(check.seed, "C08")
    all_of = exhaustive(check) + rebinding() + alike(rng, check.scale(90, 600)) + random_sessions(rng, check.scale(400, 3000))
    for _ in range(check.scale(200, 2000)):
        regs = CHAIN[:]
        rng.shuffle(regs)
        steps = []
        for r in regs:
            steps.append(("reg", 1, r))
            steps += [("look", 1, rng.choice(TEXTS)) for _ in range(rng.randint(0, 3))]
        steps += [("look", 1, t) for t in rng.sample(TEXTS, 6)]
        all_of.append(steps)
    sessions.check_sessions(check, all_of)
