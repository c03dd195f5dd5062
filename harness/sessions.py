"""Recording sessions (registrations and lookups in two systems) and having
the specification check them."""

from __future__ import annotations

from . import core, plan, real
from .core import Raised, codes, guarded

MAX = 1000


def answer(u, attempt=guarded):
    from pyudunits2 import DateUnit, Unit

    rec = dict(r="", exp=[], dim=[])
    if isinstance(u, Raised):
        rec["r"] = u.name
        return rec
    rec["r"] = "date" if isinstance(u, DateUnit) else "unit" if isinstance(u, Unit) else type(u).__name__

    def ask():
        rec["exp"] = codes(str(u.expanded()))
        rec["dim"] = real.dims(u)

    e = attempt(ask)
    if isinstance(e, Raised):
        rec["r"] = "asking raised " + e.name
    return rec


def play(steps):
    """steps: ("load", k, i of real.SYSTEMS) | ("reg", k, registration) | ("look", k, text) | ("ask", h) |
    ("conv", h, g) | ("eq", h, g) | ("can", h, g) | ("dim", h) | ("deq", h, g) |
    ("use", h) | ("reg", k, registration, True), of the very object that was
    registered for an equal one before | ("share", k, words), use all that was
    registered in system k in a system of its own. Returns the recorded events."""
    from pyudunits2 import Converter, UnitSystem

    systems = {k: UnitSystem() for k in range(1, 5)}
    held, events, kept, dims = [], [], [], []
    things = {k: [] for k in systems}
    for s in steps:
        if s[0] == "load":
            systems[s[1]] = u = guarded(real.system.__wrapped__, s[2])
            events.append(dict(e="load", k=s[1], s=s[2] + 1, res=u.name if isinstance(u, Raised) else "ok"))
            if isinstance(u, Raised):
                break
        elif s[0] == "reg":
            # (what a unit that was made at once means depends on when it was made)
            old = [t for r, t in things[s[1]] if r == s[2]] if len(s) > 3 and s[2].get("k") != "fixed" else []
            thing = old[-1] if old else guarded(real.make, systems[s[1]], s[2])
            out = thing if isinstance(thing, Raised) else guarded(real.add, systems[s[1]], s[2], thing)
            if thing is not out:
                things[s[1]].append((s[2], thing))
            events.append(dict(e="reg", k=s[1], r=core.encode(s[2]),
                               res=out.name if isinstance(out, Raised) else "ok"))
        elif s[0] == "look":
            u = guarded(systems[s[1]].unit, s[2])
            held.append(u)
            events.append(dict(e="look", k=s[1], t=codes(s[2]), **answer(u)))
            dims.append(u if isinstance(u, Raised) else guarded(u.dimensionality))
        elif s[0] == "dim":
            if not isinstance(held[s[1] - 1], Raised):
                events.append(dict(e="dim", h=s[1], **measure(dims[s[1] - 1])))
        elif s[0] in ("eq", "can", "deq"):
            u, v = ((dims if s[0] == "deq" else held)[h - 1] for h in s[1:])
            if isinstance(u, Raised) or isinstance(v, Raised):
                continue
            r = guarded(lambda: u.is_convertible_to(v) if s[0] == "can" else u == v)
            events.append(dict(e=s[0], h=s[1], g=s[2], r=real.flag(r)))
        elif s[0] == "share":
            real.share(things[s[1]], s[2])
        elif s[0] == "ask":
            events.append(dict(e="ask", h=s[1], **answer(held[s[1] - 1])))
        elif s[0] == "use":
            u = held[s[1] - 1]
            if isinstance(u, Raised):
                continue
            for other in held:
                if isinstance(other, Raised):
                    continue
                guarded(lambda: u == other)
                guarded(lambda: hash(u))
                guarded(lambda: u.is_convertible_to(other))
                c = guarded(Converter, u, other)
                if not isinstance(c, Raised):
                    guarded(c.convert, 1.5)
            guarded(lambda: (str(u), repr(u), u.expanded(), u.is_dimensionless(), u.is_time_unit()))
            guarded(lambda: [*u.dimensionality().items(), str(u.dimensionality())])
        elif s[0] == "conv":
            u, v = held[s[1] - 1], held[s[2] - 1]
            if isinstance(u, Raised) or isinstance(v, Raised):
                continue
            c = guarded(Converter, u, v)
            ev = dict(e="conv", h=s[1], g=s[2], r=c.name if isinstance(c, Raised) else "ok", _out=[])
            if not isinstance(c, Raised):
                kept.append((c, ev))
                convert(c, ev)
            events.append(ev)
    for c, ev in kept:
        # a converter is not influenced by what happened since
        convert(c, ev)
    return events


def measure(d):
    """What a dimensionality says about itself."""
    rec = dict(r="ok", dim=[], inv=[])

    def ask():
        inv = d.inverted()
        rec["inv"] = [[codes(str(b)), real.integer(e)] for b, e in inv.items()]
        rec["dim"] = [[codes(str(b)), real.integer(e)] for b, e in d.items()]
        names = {str(b): e for b, e in d.items()}
        if not (len(d) == len(names) and d == names and d == d.inverted().inverted() and (d == inv) == (not names)
                and list(map(str, d.keys())) == list(names) and list(d.values()) == list(names.values()) and str(d) == str(names)):
            rec["r"] = "at odds with itself"

    e = guarded(ask) if not isinstance(d, Raised) else d
    if isinstance(e, Raised):
        rec["r"] = e.name
    return rec


def convert(c, ev, attempt=guarded):
    for x in (1.0, 2.5, 40.0):
        y = attempt(c.convert, x)
        ev["_out"].append((x, y.name if isinstance(y, Raised) else real.number(y)))


def check_sessions(check, sessions, clauses=None, label="sessions", systems=()):
    real.SYSTEMS = list(systems) or [[]]
    recorded = core.parallel(play, sessions)
    cases = [dict(ev=[{k: v for k, v in e.items() if not k.startswith("_")} for e in ev]) for ev in recorded]
    out = core.judge_traces("JudgeSession", cases, real.SYSTEMS)
    check.saw(out)
    check.validated(len(cases), label)
    check.validated(0)
    check.cov["events"] = check.cov.get("events", 0) + sum(len(c["ev"]) for c in cases)
    for key, bad in sorted(out.bad.items()):
        c, i = divmod(key, MAX)
        ev = recorded[c][i]
        hit = [b for b in bad if clauses is None or b.removeprefix("kept-") in clauses or b in clauses]
        if hit:
            check.violation("+".join(sorted(hit)), at=i + 1, event=show(ev), session=sessions[c])
    for key, p in out.plans.items():
        c, i = divmod(key, MAX)
        for x, y in recorded[c][i]["_out"]:
            want = plan.agrees(p["p"], x, y)
            if want is not None:
                check.violation("value", at=i + 1, x=x, got=y, want=want, session=sessions[c])
                break
    check.cov["values_compared"] = check.cov.get("values_compared", 0) + sum(
        len(recorded[k // MAX][k % MAX]["_out"]) for k in out.plans)
    check.sample([[show(e) for e in ev] for ev in recorded], 4)


def show(ev):
    d = {k: v for k, v in ev.items() if k not in ("dim",)}
    for k in ("t", "exp"):
        if k in d:
            d[k] = core.text(d[k])
    if "r" in d and isinstance(d["r"], dict):
        d["r"] = {k: v if isinstance(v, (str, bool)) else str(v) for k, v in d["r"].items()}
    return d
