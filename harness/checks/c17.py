"""C17: the command line reports what the library computes."""
import ast
import contextlib
import io
import os
import subprocess
import sys

from .. import alphabet, core, gen, judging, plan, real, texts
from ..core import Raised, codes, guarded
from .c01 import DB_GROUPS


def command(args, apart=False):
    """Run the command line. Returns the exit status and the lines written."""
    if any(a.startswith("-") for a in args[1:]):
        # (else it would be read as an option)
        args = [args[0], "--", *args[1:]]
    if apart:
        start = "import sys, runpy; sys.argv[0] = 'pyudunits2'; from harness import core; core.import_code(); runpy.run_module('pyudunits2', run_name='__main__')"
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", start, *args], cwd="/", capture_output=True, timeout=120, encoding="utf-8",
                           env={**os.environ, "PYTHONIOENCODING": "utf-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": str(core.VERIF)})
        return (-1 if "Traceback" in p.stderr else p.returncode), (p.stdout + p.stderr).splitlines()
    from pyudunits2.__main__ import main

    out = io.StringIO()
    old = sys.argv
    sys.argv = ["pyudunits2", *args]
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            with core.limit(60):
                main()
    except SystemExit as err:
        code = 0 if err.code is None else err.code if isinstance(err.code, int) else 1
    except (Exception, core.Hang) as err:
        code = -1
        out.write(f"{type(err).__name__}: {err}\n")
    finally:
        sys.argv = old
    return code, out.getvalue().split("\n")


def written(unit):
    return codes(str(guarded(lambda: str(unit))))


def value_of(expression, x):
    """The printed expression at a value."""
    import sympy

    e = sympy.sympify(expression)
    free = e.free_symbols
    if not free <= {sympy.Symbol("value")}:
        return f"symbols {sorted(map(str, free))}"
    try:
        y = sympy.lambdify(sympy.Symbol("value"), e, "mpmath")(x)
        y = complex(y)
    except (ZeroDivisionError, OverflowError, ValueError) as err:
        return type(err).__name__
    return y.real if y.imag == 0 else "complex"


def conv(args):
    a, b, apart = args
    code, lines = command(["conversion-expr", a, b], apart)
    rec = dict(q="conv", s=1, a=codes(a), b=codes(b), code=code, lines=[codes(x) for x in lines], sa=[], sb=[], _lines=lines, _out=[])
    s = real.system(0)
    u, v = guarded(s.unit, a), guarded(s.unit, b)
    if not isinstance(u, Raised) and not isinstance(v, Raised):
        rec["sa"], rec["sb"] = written(u), written(v)
    if code == 0:
        last = [x for x in lines if x.strip()][-1:]
        for x in (1.0, 2.5, 40.0, -3.0):
            y = guarded(value_of, last[0] if last else "", x)
            if isinstance(y, Raised) and y.name in ("SympifyError", "SyntaxError", "TokenError", "TypeError"):
                # (whatever the value, this is no expression)
                rec["_unreadable"] = y.name
            rec["_out"].append((x, str(y) if isinstance(y, Raised) else y))
    return rec


def explain(args):
    t, apart = args
    code, lines = command(["explain-unit", t], apart)
    rec = dict(q="explain", s=1, t=codes(t), code=code, labels=0, unit=[], exp=[], dim=[], lines=[], _lines=lines)
    found = {}
    for x in lines:
        for label in ("Unit", "In basis form", "Dimensionality"):
            if x.startswith(label + ": ") or x == label + ":":
                found.setdefault(label, x[len(label) + 2:])
    rec["labels"] = len(found)
    rec["unit"] = codes(found.get("Unit", ""))
    rec["exp"] = codes(found.get("In basis form", ""))
    d = guarded(ast.literal_eval, found.get("Dimensionality", "{}"))
    rec["dim"] = [] if isinstance(d, Raised) else [[codes(str(k)), real.integer(v)] for k, v in d.items()]
    if isinstance(d, Raised):
        rec["labels"] = -1
    return rec


def tokens(args):
    t, apart = args
    code, lines = command(["debug-parser", t], apart)
    if lines and lines[-1] == "":
        lines = lines[:-1]
    return dict(q="tokens", s=1, t=codes(t), code=code, joined=codes("".join(x.rpartition(": ")[0] for x in lines)), _lines=lines)


def run_one(args):
    return globals()[args[0]](args[1])


def run(check):
    rng = gen.rng_for(check.seed, "C17")
    real.SYSTEMS = systems = [real.DATABASE]
    d = gen.Texts(rng, DB_GROUPS)
    g = texts.Gen(rng)
    kelvin, temp = ["K", "kelvin", "mK", "kK"], ["degC", "degF", "celsius", "fahrenheit"]
    groups = [k for k in g.REFS if k not in ("Hz",)]
    refs = {"m": ["m", "km", "inch", "3 m", "(2 ft)"], "W": ["W", "mW", "1 mW", "J/s", "2 kW"], "1": ["1", "2", "rad", "percent", "m/cm"],
            "K": ["K", "mK"], "1/s": ["Hz", "s^-1", "0.1 s-1"], "m/s": ["m/s", "km/h", "knot"]}

    def any_text():
        r = rng.random()
        if r < 0.45:
            return d.render(d.vector(rng.randint(1, 3)))
        if r < 0.6:
            return g.offset(1, kelvin, temp)
        if r < 0.7:
            return f"{rng.choice(['lg', 'ln', 'lb'])}(re {rng.choice(refs[rng.choice(sorted(refs))])})"
        if r < 0.8:
            return g.dated(rng.choice(["s", "hours", "day", "2 s"]))
        if r < 0.9:
            return rng.choice(["", "1", "m", "rpm", "degC", "%", "'", "\u00b5m", "zz", "m)", "Bm", "kBz", "mm", "dam2", "m\u00b2", " m", "m @ 3", "kg.m/s2", "(s)"])
        return alphabet.Grammar(rng, ("m", "s", "kg", "rad", "km", "N")).text(2)

    pairs = []
    for _ in range(check.scale(350, 5000)):
        r = rng.random()
        if r < 0.5:
            a, b = d.pair(rng.randint(1, 3))
        elif r < 0.65:
            a, b = g.offset(1, kelvin, temp), rng.choice([g.offset(1, kelvin, temp), rng.choice(kelvin)])
        elif r < 0.85:
            k = rng.choice(sorted(refs))
            f = rng.choice(["lg", "ln", "lb"])
            a, b = rng.choice([f"{f}(re {rng.choice(refs[k])})", rng.choice(refs[k]), f"{f}(re {rng.choice(refs[k])}) @ 2"]), rng.choice(
                [rng.choice(refs[k]), f"{f}(re {rng.choice(refs[k])})"])
        else:
            a, b = any_text(), any_text()
        pairs.append((a, b))
    for _ in range(check.scale(40, 400)):
        # expressions of hundreds of characters
        k = rng.choice(["m", "K", "W", "m/s"])
        a = k
        for _ in range(rng.randint(3, 8)):
            a = f"{rng.choice(['lg', 'ln', 'lb'])}(re {rng.choice(['', '1.2345 ', '2 ', '0.125 ', '3.141592653589793 '])}{a})"
            if rng.random() < 0.2:
                a = f"({a} @ {rng.choice(['1', '0.5', '-2.25'])})" if not a.startswith("(") else a
        a = a.strip()
        pairs.append(rng.choice([(a, k), (k, a), (k, a)]))
    fixed = ["m", "km", "s", "Hz", "degC", "degF", "K", "", "1", "rad", "rpm", "lg(re m)", "days since 2000-01-01", "kg", "m/s", "s/m", "m @ 2", "zz"]
    pairs += [(a, b) for a in fixed for b in fixed]
    pairs += [("-2 m", "m"), ("m", "-2 m"), ("-1", "1"), ("-1e3 K", "-1 degF"), ("-.5 s", "-2 Hz"), ("-1 m", "-1 s"), ("-1 lg(re m)", "m")]
    some = [t for t in ([any_text() for _ in range(check.scale(500, 8000))] + fixed)]
    grammar = alphabet.Grammar(rng)
    read = some + [t for t in (grammar.text(2) for _ in range(check.scale(500, 8000)))]
    work = [("conv", (a, b, i % 60 == 0)) for i, (a, b) in enumerate(pairs)]
    work += [("explain", (t, i % 80 == 0)) for i, t in enumerate(some)]
    work += [("tokens", (t, i % 150 == 0)) for i, t in enumerate(read)]
    recs = core.parallel(run_one, work, 8)
    j = core.judge("JudgeCli", recs, systems)
    check.saw(j)
    for i, bad in sorted(j.bad.items()):
        if bad == ["void"]:
            check.cov["void"] = check.cov.get("void", 0) + 1
            continue
        check.violation("+".join(sorted(bad)), command=work[i][0], given=work[i][1][:-1], status=recs[i]["code"], lines=recs[i]["_lines"][:6])
    check.validated(len(recs) - check.cov.get("void", 0))
    for i, r in enumerate(recs):
        if r.get("_unreadable"):
            check.violation("no expression", given=work[i][1][:-1], lines=r["_lines"][:4], got=r["_unreadable"])
    compared = 0
    for i, p in j.plans.items():
        if set(p["w"]):
            continue
        for x, y in recs[i]["_out"]:
            want = plan.agrees(p["p"], x, y)
            compared += 1
            if want is not None:
                check.violation("expression", given=work[i][1][:-1], lines=recs[i]["_lines"][:4], x=x, got=y, want=want)
                break
    check.cov["values_compared"] = compared
    check.sample([dict(command=w[0], given=w[1][:-1], status=r["code"]) for w, r in zip(work, recs)], 8)
