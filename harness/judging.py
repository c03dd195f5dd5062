"""Recording uses of the real code and having the specification judge them."""

from __future__ import annotations

from . import core, plan, real


def otherwise(check, systems, cases, label):
    """Some of the cases in a system where the same spellings have other
    meanings, and again in their own, one after the other."""
    from . import gen

    n = len(gen.SIMPLE)
    if label not in ("pairs", "units") or systems[0] is real.DATABASE or systems[0][:n] != gen.SIMPLE:
        return
    rng = gen.rng_for(check.seed, check.prop + label + "otherwise")
    some = [c for c in cases if c[0] == 0]
    some = rng.sample(some, min(len(some), check.scale(60, 400)))
    yield [systems[0], [*gen.OTHERWISE, *systems[0][n:]]], [(k, *c[1:]) for c in some for k in (0, 1, 0)]


def units(check, systems, cases, clauses, label="units", spellings=False, how="look"):
    """cases: (system, text). Judges what looking them up says. Spellings:
    every text is to be understood as one identifier."""
    real.SYSTEMS = systems
    recs = core.parallel(real.spread, [(how, c) for c in cases])
    if spellings:
        for r in recs:
            r["q"] = "spell"
    j = core.judge("JudgeUnits", recs, systems)
    check.saw(j)
    check.validated(len(recs), label)
    for i, bad in sorted(j.bad.items()):
        hit = [b for b in bad if clauses is None or b in clauses]
        if hit:
            r = recs[i]
            check.violation("+".join(sorted(hit)), text=r["_text"], got=r["r"],
                            message=r.get("_message"), str=core.text(r["str"]),
                            expanded=core.text(r["exp"]),
                            dim={core.text(n): e for n, e in r["dim"]},
                            system=system_name(systems[cases[i][0]]))
    check.sample([dict(text=r["_text"], outcome=r["r"]) for r in recs], 4)
    for s, c in otherwise(check, systems, cases, label):
        units(check, s, c, clauses, label + "_of_like_names", spellings, how)
    return recs, j


def readings(check, texts, clauses=None, label="readings"):
    """Judges how texts are read."""
    recs = core.parallel(real.read, texts, 200)
    j = core.judge("JudgeParse", recs)
    check.saw(j)
    check.validated(len(recs), label)
    for i, bad in sorted(j.bad.items()):
        hit = [b for b in bad if clauses is None or b in clauses]
        if hit:
            r = recs[i]
            check.violation("+".join(sorted(hit)), text=r["_text"], got=r["r"], message=r.get("_message"),
                            read=core.text(r["o"]), again=core.text(r["p"]))
    check.cov["valid_texts"] = check.cov.get("valid_texts", 0) + sum(r["r"] == "ok" for r in recs)
    check.sample([dict(text=r["_text"], outcome=r["r"], read=core.text(r["o"])) for r in recs], 4)
    return recs


def system_name(regs):
    from . import gen

    if regs is real.DATABASE:
        return "database"
    if regs is gen.SIMPLE:
        return "simple"
    return regs


def pairs(check, systems, cases, clauses, values=(1.0, 2.5, -3.0, 40.0), numbers=True,
          equality=False, label="pairs", allow=()):
    """cases: (system, from, to). Judges existence, queries, equality, and
    compares converted values with the specification's plans."""
    real.SYSTEMS = systems
    recs = core.parallel(real.spread, [("pair", (k, a, b, values, equality)) for k, a, b in cases])
    j = core.judge("JudgeUnits", recs, systems)
    check.saw(j)
    check.validated(len(recs), label)
    for i, bad in sorted(j.bad.items()):
        hit = [b for b in bad if clauses is None or b in clauses]
        if hit:
            r = recs[i]
            check.violation("+".join(sorted(hit)), a=r["_a"], b=r["_b"], got=r["r"],
                            message=r.get("_message"), query=r["ab"] + r["ba"],
                            equal=r["eq"] + r["qe"], system=system_name(systems[cases[i][0]]))
    void = [recs[i] for i, b in j.bad.items() if b == ["void"]]
    if void:
        check.cov["void"] = check.cov.get("void", 0) + len(void)
        if check.verbose:
            print("void:", *[(r["_a"], r["_b"]) for r in void[:8]])
    compared = 0
    if numbers:
        for i, p in j.plans.items():
            if set(p["w"]) - set(allow):
                continue
            r = recs[i]
            for x, y in zip(r["_values"], r["_out"]):
                want = plan.agrees(p["p"], x, y)
                compared += 1
                if want is not None:
                    check.violation("value", a=r["_a"], b=r["_b"], x=x, got=y, want=want,
                                    system=system_name(systems[cases[i][0]]))
                    break
        check.cov["values_compared"] = check.cov.get("values_compared", 0) + compared
    check.sample([dict(a=r["_a"], b=r["_b"], outcome=r["r"], values=r["_out"][:2]) for r in recs], 4)
    for s, c in otherwise(check, systems, cases, label):
        pairs(check, s, c, clauses, values, numbers, equality, label + "_of_like_names", allow)
    return recs, j
