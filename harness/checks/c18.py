"""C18: concurrent lookups on one system give the sequential answers."""
import json

from .. import core, gen, plan, sessions, threads
from ..gen import base, define, prefix, unit

# What Threads.tla explores: references between units, and what each thread
# looks up (units are numbered from 1, 0 does not exist).
UNIVERSES = [
    dict(refs=[[], [1], [2, 1], [3, 2]], work=[[4], [3, 4]]),
    dict(refs=[[], [3], [2, 1], [0, 1], [1, 4]], work=[[2], [3, 5]]),
    dict(refs=[[], [1, 1], [2]], work=[[3], [2], [3]]),
    dict(refs=[[], [2], [1, 2]], work=[[2, 1], [3, 2]]),
    dict(refs=[[], [3], [4], [2], [1, 2]], work=[[2, 5], [3, 1]]),
    dict(refs=[[], [], [1, 2], [2, 1], [3, 4]], work=[[5], [4, 3]]),
]
MORE = [
    dict(refs=[[], [1], [2, 1], [3, 2]], work=[[4], [3, 4], [2]]),
    dict(refs=[[], [1], [2], [3], [4, 2]], work=[[5, 3], [4, 2]]),
    dict(refs=[[], [3, 1], [1, 4], [2]], work=[[2], [3], [4]]),
    dict(refs=[[], [0, 1], [2], [3, 1], [1]], work=[[4, 5], [3], [5, 2]]),
]


def names(u):
    """The system of a universe: unit i is called 'u' and a letter."""
    regs = [prefix("kilo", "1000", "k")]

    def name(i):
        return "u" + " abcdefghij"[i].strip() if i else "zz"

    for i, refs in enumerate(u["refs"], 1):
        if refs:
            # every reference has another exponent, so that none is mistaken
            d = " ".join([str(i + 1), *(f"{name(r)}{j + 1}" if j else name(r) for j, r in enumerate(refs))])
            regs.append(unit("def", [name(i)], [], d=d))
        else:
            regs.append(unit("base", [name(i)], []))
    return regs, name


def replayed(check):
    """The schedules of Threads.tla, on real threads."""
    jobs = []
    with core.scratch() as tmp:
        path = tmp / "universes.ndjson"
        us = UNIVERSES + (MORE if check.thorough else [])
        path.write_text("".join(json.dumps(u) + "\n" for u in us))
        env = dict(UNIVERSES=str(path))
        check.model_check("Threads", "MC_Threads", env)
        seen = set()
        for n in (1, 2, 3):
            if n == 3 and not check.thorough:
                break
            if n == 3:
                path.write_text("".join(json.dumps(u) + "\n" for u in UNIVERSES[:4]))
            r = check.model_check("Threads", f"Schedules{n}", env)
            for g, run in r.lines("SCHED"):
                if (g, tuple(run)) not in seen:
                    seen.add((g, tuple(run)))
    rng = gen.rng_for(check.seed, "C18 schedules")
    chosen = sorted(seen)
    rng.shuffle(chosen)
    check.cov["schedules_of_the_specification"] = len(chosen)
    for g, run in chosen[:check.scale(1300, 40000)]:
        u = us[g - 1]
        regs, name = names(u)
        schedule = []
        for t in run:
            if schedule and schedule[-1][0] == t - 1:
                schedule[-1][1] += 1
            else:
                schedule.append([t - 1, 1])
        jobs.append(dict(regs=regs, setup=[], ops=[[("look", name(i)) for i in w] for w in u["work"]],
                         after=[name(i) for i in range(1, len(u["refs"]) + 1)], schedule=schedule, points="calls"))
    return jobs


WORLD = [
    prefix("kilo", "1000", "k"), prefix("milli", ".001", "m"), base("meter", "m"), base("second", "s", time=True),
    base("kelvin", "K"), unit("dimless", ["radian"], ["rad"]), define("minute", "60 s", "min"), define("speed", "km/minute"),
    define("degC", "K @ 273.15"), define("rise", "degC @ 3"), define("bel", "lg(re 2 speed)", "B"), define("turn", "6.25 rad"),
    define("gee", "9.5 speed/minute", "gn"), define("push", "gee.speed2/kspeed", asym=["P"]),
    define("loop", "2 pool"), define("pool", "3 loop.m"), define("lost", "m.nowhere"), define("dead", "2 lost"),
    define("tail", "loop/m"), define("ring", "ring m"),
]
SETUP = ["push", "m.speed/s", "degC", "K", "B", "speed", "km/s", "(m.rad)2/gee"]
SHARED = [(2, 3), (4, 5), (5, 6)]
AFTER = ["push", "gee", "speed", "turn/s", "tail", "dead", "pool", "rise", "B", "kdegC", "loop", "ring"]

# What the threads do: pairs which have shared state in common.
PAIRS = [
    ([("look", "push")], [("look", "gee"), ("look", "speed")]),
    ([("look", "push")], [("look", "push")]),
    ([("look", "kpush/mpush")], [("look", "2 P.kspeed"), ("look", "speed")]),
    ([("look", "loop")], [("look", "pool")]),
    ([("look", "tail"), ("look", "m")], [("look", "loop")]),
    ([("look", "dead")], [("look", "lost"), ("look", "dead")]),
    ([("look", "ring")], [("look", "ring")]),
    ([("look", "rise"), ("look", "degC")], [("look", "degC"), ("look", "rise")]),
    ([("look", "B")], [("look", "bel"), ("look", "gn")]),
    ([("look", "minute since 2000")], [("look", "speed.min"), ("look", "minute since 1-1-1")]),
    ([("look", "speed"), ("look", "turn/s")], [("look", "nope"), ("look", "speed")]),
    ([("eq", ("s", 0), ("s", 1))], [("eq", ("s", 1), ("s", 0))]),
    ([("eq", ("s", 5), ("s", 6))], [("eq", ("s", 6), ("s", 5)), ("eq", ("s", 5), ("s", 5))]),
    ([("eq", ("s", 2), ("s", 3))], [("conv", ("s", 2), ("s", 3))]),
    ([("conv", ("s", 2), ("s", 3))], [("conv", ("s", 3), ("s", 2))]),
    ([("conv", ("s", 4), ("s", 5))], [("conv", ("s", 6), ("s", 4))]),
    ([("conv", ("s", 5), ("s", 6)), ("ask", ("s", 5))], [("conv", ("s", 6), ("s", 5)), ("ask", ("s", 0))]),
    ([("conv", ("s", 2), ("s", 5))], [("conv", ("s", 5), ("s", 2)), ("conv", ("s", 2), ("s", 2))]),
    ([("ask", ("s", 0)), ("ask", ("s", 4))], [("ask", ("s", 4)), ("ask", ("s", 0))]),
    ([("value", 0), ("value", 1)], [("value", 1), ("value", 0)]),
    ([("value", 2)], [("value", 2), ("ask", ("s", 5))]),
    ([("look", "speed"), ("eq", ("o", 0), ("s", 5))], [("look", "km/min"), ("conv", ("o", 0), ("s", 5))]),
    ([("look", "pool"), ("look", "turn"), ("ask", ("o", 1))], [("look", "loop"), ("look", "turn"), ("ask", ("o", 1))]),
]
# Texts with all kinds of expressions, so that whatever reads, normalises,
# resolves, expands or prints them is entered by both threads.
NESTED = ["2 (gee @ 5)", "m.(speed @ 3)/rad", "(K @ 1)2", "lg(re 2 (km @ 1))", "(turn/(degC @ 2))^-1 3", "m.(minute @ 5)", "lb(re (push)^2) @ 4",
          "(B 2)/s", "(m^2 (rad @ 0.5)^3)^-2", "ln(re (s)^0) 4", "(gn (km/min2)^-1) @ 7", "(speed) since 2000", "1e3 (2 m @ 1)", "nope (m @ 1)"]


def nested(rng, n):
    pairs = []
    for _ in range(n):
        a, b, c = rng.sample(NESTED, 3)
        first = [("look", a)] + rng.choice([[], [("ask", ("o", 0))], [("eq", ("o", 0), ("o", 0))], [("conv", ("o", 0), ("o", 0))]])
        pairs.append((first, [("look", b), ("look", c)] + rng.choice([[], [("ask", ("o", 1))], [("can", ("o", 0), ("o", 1))]])))
    return pairs


TRIPLE = [
    ([("look", "push")], [("look", "gee")], [("look", "speed")]),
    ([("look", "loop")], [("look", "pool")], [("look", "tail")]),
    ([("conv", ("s", 2), ("s", 3))], [("eq", ("s", 2), ("s", 3))], [("look", "rise")]),
    ([("look", "B")], [("conv", ("s", 4), ("s", 6))], [("look", "bel/m")]),
]


def job(ops, schedule, points):
    # what is looked up beforehand isn't looked up for the first time later
    used = any(isinstance(h, tuple) and h[0] == "s" for x in ops for op in x for h in op[1:])
    values = any(op[0] == "value" for x in ops for op in x)
    setup = SETUP if used or values else []
    return dict(regs=WORLD, setup=setup, shared=SHARED if values else [], ops=[list(x) for x in ops], after=AFTER, schedule=schedule, points=points)


def probe(args):
    """The points which each thread passes, if they run one after the other."""
    ops, points = args
    _, gate = threads.execute(job(ops, [], points), record=True)
    return gate.seen


def depth(place):
    """State which threads share is rather in the modules on top."""
    return place[0].count("/_expr/") + place[0].count("/_grammar/")


def interrupted(check, rng):
    """Interruptions at lines and instructions of the library."""
    jobs = []
    for points, share in (("lines", 0.6), ("opcodes", 0.33), ("parser", 0.07)):
        every = PAIRS + TRIPLE + nested(rng, check.scale(12, 100))
        if points == "parser":
            every = rng.sample(every, check.scale(8, 60))
        flipped = [tuple(reversed(x)) for x in every]
        todo = every + (flipped if points == "lines" else rng.sample(flipped, len(flipped) // 2))
        seen = core.parallel(probe, [(ops, points) for ops in todo], 1)
        budget = int(check.scale(3600, 60000) * share)
        each = budget // len(todo)
        times = {}
        check.cov[f"places_seen_{points}"] = len({p if points == "opcodes" else p[:2] for s in seen for p in s[0]})
        for ops, s in zip(todo, seen):
            # thread 0 is interrupted once: where it is for the first time, at
            # places where few others were interrupted, and at some others
            first = {}
            for i, place in enumerate(s[0], 1):
                first.setdefault(place if points == "opcodes" else place[:2], i)
            places = list(first)
            rng.shuffle(places)
            places.sort(key=lambda p: (times.get(p, 0), depth(p)))
            places = places[:max(1, each * 2 // 3)]
            for p in places:
                times[p] = times.get(p, 0) + 1
            ks = [first[p] for p in places]
            while len(ks) < each * 5 // 6 and s[0]:
                ks.append(rng.randint(1, len(s[0])))
            for k in ks:
                jobs.append(job(ops, [(0, k)] + [(t, threads.INF) for t in range(1, len(ops))] + [(0, threads.INF)], points))
            for _ in range(each - each * 5 // 6):
                # several interruptions
                sched = []
                for _ in range(rng.randint(2, 4)):
                    t = rng.randrange(len(ops))
                    if s[t]:
                        sched.append((t, rng.randint(1, max(1, len(s[t]) // rng.randint(1, 4)))))
                jobs.append(job(ops, sched, points))
        check.cov[f"places_interrupted_{points}"] = len(times)
    return jobs


def work(j):
    return threads.execute(j)[0]


def run(check):
    import sympy  # noqa: F401 (before the workers are forked)

    rng = gen.rng_for(check.seed, "C18")
    jobs = replayed(check)
    n = len(jobs)
    jobs += interrupted(check, rng)
    traces = core.parallel(work, jobs, 8)
    check.validated(n, "schedules_replayed")
    check.validated(len(jobs) - n, "interruptions")
    distinct = {}
    for j, t in zip(jobs, traces):
        if "stuck" in t:
            check.violation("stuck", what_happened=t["stuck"], job=j)
        else:
            distinct.setdefault(json.dumps(t), (j, t))
    kept = list(distinct.values())
    check.cov["distinct_traces"] = len(kept)
    out = core.judge_traces("JudgeSession", [dict(ev=[{k: v for k, v in e.items() if not k.startswith("_")} for e in t["ev"]]) for _, t in kept])
    check.saw(out)
    for key, bad in sorted(out.bad.items()):
        c, i = divmod(key, sessions.MAX)
        check.violation("+".join(sorted(bad)), event=sessions.show(kept[c][1]["ev"][i]), job=brief(kept[c][0]))
    values = 0
    for key, p in out.plans.items():
        c, i = divmod(key, sessions.MAX)
        for x, y in kept[c][1]["ev"][i]["_out"]:
            values += 1
            want = plan.agrees(p["p"], x, y)
            if want is not None:
                check.violation("value", x=x, got=y, want=want, job=brief(kept[c][0]))
                break
    check.cov["values_compared"] = values
    check.sample([brief(j) for j in jobs], 6)


def brief(j):
    return {k: j[k] for k in ("ops", "schedule", "points")}
