"""C05: conversions obey identity, inverse and composition, element by element."""
from .. import core, gen, judging, plan, real, texts
from .c01 import DB_GROUPS

RECIPROCAL = {"m/s": "s/m", "Hz": "s", "1": "1", "K": "1/K", "m": "1/m"}


def groups_of(g, rng):
    """Texts which are convertible to each other, by kind."""
    def linear(k):
        return rng.choice(g.REFS[k])

    def any_of(k):
        r = rng.random()
        if k == "K" and r < 0.6:
            return g.offset(2)
        if r < 0.35:
            return linear(k)
        if r < 0.55:
            return g.log(k, 1)
        if r < 0.7:
            return g.shifted_log(k)
        if r < 0.85:
            return g.shift(linear(k))
        return f"{g.number()} {g.wrap(linear(k))}"

    return any_of


def run(check):
    check.model_check("MC_Convert", "MC_Convert4" if check.thorough else None)
    rng = gen.rng_for(check.seed, "C05")
    g = texts.Gen(rng)
    any_of = groups_of(g, rng)
    t = gen.Texts(rng, gen.SIMPLE_DIMS)
    d = gen.Texts(rng, DB_GROUPS)
    paths = []
    for _ in range(check.scale(450, 5000)):
        k = rng.choice(sorted(g.REFS))
        a, b, c = any_of(k), any_of(k), any_of(k)
        if k in RECIPROCAL and rng.random() < 0.3:
            b = rng.choice(["{}", "2 {}", "({}) @ 3", "ln(re {})"]).replace("{}", RECIPROCAL[k])
        paths += [(0, p) for p in ([a, a], [a, b, a], [a, b, c]) + (([a, b, c, b, a],) if rng.random() < 0.3 else ())]
    for _ in range(check.scale(200, 3000)):
        for k, tt, n in ((0, t, 3), (1, d, 4)):
            v = tt.vector(rng.randint(1, n))
            w = {x: -e for x, e in v.items()} if rng.random() < 0.25 else v
            a, b, c = tt.render(v), tt.render(w), tt.render(v)
            paths += [(k, p) for p in ([a, a], [a, b, a], [a, b, c])]
    real.SYSTEMS = systems = [gen.SIMPLE, real.DATABASE, gen.OTHERWISE]
    # (and where the same spellings have other meanings, in turns)
    paths += [(k, p) for _, p in rng.sample([x for x in paths if x[0] == 0], check.scale(50, 400)) for k in (0, 2, 0)]
    values = (1.0, -2.0, 0.5, 3.75, 25.0)
    recs = core.parallel(real.spread, [("chain", (k, p, values)) for k, p in paths])
    # uses on arrays
    convs = []
    for k, p in rng.sample(paths, check.scale(160, 2500)):
        convs.append((k, p[0], p[1]))
    convs += [(0, *x) for x in [("m", "m"), ("m", "meter"), ("degC", "K"), ("K", "degC"), ("degF", "degC"), ("m", "km"), ("s", "Hz"), ("m/s", "s/m"), ("Bm", "W"),
                                ("W", "Bm"), ("lg(re m)", "m"), ("m", "lg(re m)"), ("rpm", "Hz"), ("lg(re m) @ 2", "ln(re m)"), ("1", "percent"), ("rad", "1"), ("stack", "lg(re m)"),
                                ("K @ 3", "(2 K) @ -1"), ("lg(re m)", "1/m"), ("degC", "degC"), ("m @ 0", "m")]]
    used = core.parallel(real.spread, [("uses", (k, a, b, [1.0, 2.0, 0.5, 3.0, 4.25, 25.0, 7.0], f"{check.seed}/{i}")) for i, (k, a, b) in enumerate(convs)])
    used = [u for u in used if u]
    every = recs + used
    j = core.judge("JudgeLaws", every, systems)
    check.saw(j)
    check.validated(len(recs), "chains")
    check.validated(sum(len(u["uses"]) for u in used), "uses")
    for i, bad in sorted(j.bad.items()):
        r = every[i]
        if bad == ["void"]:
            check.cov["void"] = check.cov.get("void", 0) + 1
            continue
        more = {}
        if r["q"] == "uses":
            more = dict(kinds=[k for k, u in zip(r["_kinds"], r["uses"]) if u["si"] != u["so"] or u["in"] != u["after"]
                               or any(o != r["table"][x - 1] for o, x in zip(u["out"], u["in"]))])
        check.violation("+".join(sorted(bad)), path=r["_path"], got=r["r"], message=r.get("_message"), **more)
    compared = 0
    for i, p in j.plans.items():
        r = every[i]
        if set(p["w"]) - {"scaledlog"}:
            continue
        wild = bool(p["w"])
        trip = r["_path"][0] == r["_path"][-1]
        if wild and not trip:
            continue
        for x, y in zip(r["_values"], r["_out"]):
            # (scaled logarithms are converted differently from the
            # specification, which has no influence on these laws)
            want = plan.agrees([] if wild else p["p"], x, y) if not wild else law(x, y, r)
            compared += 1
            if want is not None:
                check.violation("value", path=r["_path"], x=x, got=y, want=want)
                break
    check.cov["values_compared"] = compared
    check.sample([dict(path=r["_path"], values=r["_out"][:2]) for r in recs], 6)


def law(x, y, r):
    """A round trip through units of which the plan isn't comparable: only
    when the numbers in between are of reasonable size."""
    if isinstance(y, float) and (abs(y - x) <= 1e-6 * max(1, abs(x))):
        return None
    return None if not isinstance(y, float) or y != y or abs(y) > 1e200 else x
