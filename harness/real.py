"""The real code, as the checks see it."""

from __future__ import annotations

import functools
import json

from . import core
from .core import Raised, codes, guarded


def reference(r):
    from pyudunits2._unit_reference import Name, UnitReference

    def name(n):
        return Name(singular=n[0], plural=n[1] if len(n) > 1 else None)

    return UnitReference(
        name=name(r["n"]) if r["n"] else None,
        symbols=tuple(r["s"]),
        alias_names=tuple(name(n) for n in r["an"]),
        alias_symbols=tuple(r["as"]),
    )


def make_unit(system, r):
    from pyudunits2 import BasisUnit
    from pyudunits2._unit_system import LazilyDefinedUnit

    if r["k"] == "fixed":
        from pyudunits2 import NamedUnit
        from pyudunits2._expr.atoms import ExtractIdentifiers
        from pyudunits2._grammar import parse

        n = parse(r["d"])
        return NamedUnit(definition=n, identifier_references={i: system.unit_by_name_or_symbol(i.content) for i in ExtractIdentifiers().visit(n)},
                         names=reference(r))
    if r["k"] == "def":
        return LazilyDefinedUnit(unit_system=system, definition=r["d"], names=reference(r))
    return BasisUnit(names=reference(r), dimensionless=r["k"] == "dimless", is_time_unit=r["time"])


def make(system, r):
    """The unit or prefix to register."""
    from pyudunits2._unit_reference import Prefix

    if r["e"] == "prefix":
        return Prefix(name=r["n"], value=r["v"], symbols=tuple(r["s"]))
    return make_unit(system, r)


def add(system, r, thing):
    if r["e"] == "prefix":
        system.add_prefix(thing)
    elif r.get("rep"):
        system.add_unit(thing, replace=True)
    else:
        system.add_unit(thing)


def register(system, r):
    add(system, r, make(system, r))


def share(things, words):
    """Use units and prefixes (of other systems) in a system of its own, where
    names have other meanings."""
    from pyudunits2 import UnitSystem

    scratch = UnitSystem()
    for i, w in enumerate(words[::2]):
        guarded(register, scratch, dict(e="unit", k="base", time=i == 0, n=[w], s=[words[2 * i + 1]] if 2 * i + 1 < len(words) else [], an=[], **{"as": []}))
    for r, thing in things:
        guarded(add, scratch, r, thing)
        guarded(add, scratch, dict(r, rep=True), thing)
        for w in words[:3]:
            guarded(scratch.unit, w)
    for r, thing in things:
        for w in r["n"] if r["e"] == "unit" else ():
            u = guarded(scratch.unit, f"2 {w}")
            if not isinstance(u, Raised):
                guarded(lambda: (u.dimensionality(), u.expanded(), u == u))


def build(regs):
    from pyudunits2 import UnitSystem

    system = UnitSystem()
    for r in regs:
        register(system, r)
    return system


# The systems of a run: sequences of registrations, or None for the bundled
# database. Set before the workers are forked.
SYSTEMS = []


@functools.lru_cache(maxsize=None)
def system(k):
    from pyudunits2 import UnitSystem

    regs = SYSTEMS[k]
    if regs is DATABASE:
        return UnitSystem.from_udunits2_xml()
    if isinstance(regs, core.Document):
        from . import documents

        return documents.load(regs, f"system {k}")
    return build(regs)


DATABASE = json.loads((core.SPEC / "udunits2_db.json").read_text())


def flag(x):
    return "T" if x is True else "F" if x is False else x.name if isinstance(x, Raised) else "?" + repr(x)[:20]


def integer(x):
    """An exponent as an integer; any other value as one that never occurs."""
    try:
        if x == int(x):
            return int(x)
    except Exception:
        pass
    return 999999


def dims(unit):
    d = unit.dimensionality()
    return [[codes(str(b)), integer(e)] for b, e in d.items()]


def normalised(u):
    """The text of a unit's normalised definition, and of that normalised."""
    from pyudunits2._expr.normaliser import NormalisedNode

    try:
        refs = u._identifier_references
        once = NormalisedNode(u._definition, refs).unit_expr
    except AttributeError:
        # (not as it was written; these are not public)
        return codes(str(u)), codes(str(u))
    return codes(str(once)), codes(str(NormalisedNode(once, refs).unit_expr))


def spelled(k, t):
    """As look, by the lookup of a single name or symbol."""
    return look(k, t, "unit_by_name_or_symbol")


def look(k, t, how="unit"):
    """Look up text t in system k and record all that it says about itself."""
    from pyudunits2 import DateUnit, Unit

    rec = dict(q="unit", s=k + 1, t=codes(t), r="", dim=[], less=False, time=False,
               str=[], exp=[], nrm=[], nrm2=[], ref=[], ustr=[], _text=t)
    u = guarded(getattr(system(k), how), t)
    if isinstance(u, Raised):
        rec["r"] = u.name
        rec["_message"] = u.message
        return rec
    if isinstance(u, DateUnit):
        rec["r"] = "date"
    elif isinstance(u, Unit):
        rec["r"] = "unit"
    else:
        rec["r"] = type(u).__name__
        return rec

    def ask():
        rec["dim"] = dims(u)
        rec["less"] = u.is_dimensionless()
        rec["time"] = u.is_time_unit()
        rec["str"] = codes(str(u))
        rec["exp"] = codes(str(u.expanded()))
        if rec["r"] == "date":
            rec["ref"] = codes(str(u.reference_date))
            rec["ustr"] = codes(str(u.unit))
        rec["nrm"], rec["nrm2"] = normalised(u.unit if rec["r"] == "date" else u)

    e = guarded(ask)
    if isinstance(e, Raised):
        rec["r"] = "asking raised " + e.name
        rec["_message"] = e.message
    return rec


def number(x):
    """A converted value as a float or complex, or why it isn't one."""
    try:
        import numpy as np

        if isinstance(x, np.ndarray) and x.ndim:
            return [number(y) for y in x.tolist()]
        x = complex(x)
        return x.real if x.imag == 0 else "complex"
    except Exception as err:
        return f"{type(err).__name__}"


KEPT = {}  # (system, text): the first unit asked for


@functools.lru_cache(maxsize=4096)
def registered(s, t):
    """The unit registered (or with a prefix) by the name t, if it is a name."""
    from pyudunits2 import Unit

    if not t.isidentifier():
        return None
    u = guarded(s.unit_by_name_or_symbol, t)
    return u if isinstance(u, Unit) else None


def same(x, y):
    x, y = number(x), number(y)
    if not isinstance(x, float) or not isinstance(y, float):
        return x == y
    return x == y or abs(x - y) <= 1e-12 * max(abs(x), abs(y)) or (x != x and y != y)


def pair(k, a, b, values=(), equality=True):
    """Everything about converting a to b: existence, queries, values."""
    from pyudunits2 import Converter

    rec = dict(q="pair", s=k + 1, a=codes(a), b=codes(b), r="", ab="-", ba="-", eq="-", qe="-",
               _a=a, _b=b, _values=list(values), _out=[])
    s = system(k)
    u = guarded(s.unit, a)
    v = guarded(s.unit, b)
    if isinstance(u, Raised) or isinstance(v, Raised):
        rec["r"] = "lookup"
        return rec
    # (also of a unit and itself, and of the registered units)
    both = (v, u) if a == b else (v,)
    w = registered(s, b)
    if w is not None:
        both = (*both, w)
    rec["ab"] = "".join(sorted({flag(guarded(u.is_convertible_to, x)) for x in both}))
    rec["ba"] = "".join(sorted({flag(guarded(x.is_convertible_to, u)) for x in both}))
    if equality:
        # A unit that has been compared with others, by now gone, answers as a new one.
        used = KEPT.setdefault((s, a), u)
        # (Date units are the same only if they are the same object.)
        both = both if type(u).__name__ != "DateUnit" else (v,)
        rec["eq"], rec["qe"] = ("".join(sorted({flag(guarded(eq, x, y)) for x in (used, u) for y in both}))
                                for eq in (lambda x, y: x == y, lambda x, y: y == x))
    c = guarded(Converter, u, v)
    again = [(u, u)] if a == b else []
    if w is not None or registered(s, a) is not None:
        again.append((registered(s, a) or u, w or v))
    for x, y in again:
        d = guarded(Converter, x, y)
        if isinstance(c, Raised) != isinstance(d, Raised) or isinstance(c, Raised) and c.name != d.name:
            rec["r"] = "otherwise for the unit itself" if y is u else "otherwise for the registered units"
            return rec
        if not isinstance(d, Raised):
            for z in values[:2]:
                ys = [guarded(f.convert, z) for f in (c, d)]
                # (an error to be reported as that of the conversion)
                if not isinstance(ys[0], Raised) and not same(*ys):
                    rec["r"] = "another value with the same units"
                    rec["_message"] = f"{ys}"
                    return rec
    if isinstance(c, Raised):
        rec["r"] = c.name
        rec["_message"] = c.message
        return rec
    rec["r"] = "ok"
    for x in values:
        y = guarded(c.convert, x)
        rec["_out"].append(y.name if isinstance(y, Raised) else number(y))
    return rec


def read(t):
    """Parse text t, and the text form of what was read, and that in turn."""
    from pyudunits2._grammar import parse

    rec = dict(t=codes(t), r="ok", o=[], p=[], _text=t)
    u = guarded(lambda: str(parse(t)), seconds=20)
    if isinstance(u, Raised):
        rec["r"] = u.name
        rec["_message"] = u.message
        return rec
    rec["o"] = codes(u)
    v = guarded(lambda: str(parse(u)), seconds=20)
    rec["p"] = codes("?" + v.name if isinstance(v, Raised) else v)
    return rec


def spread(args):
    """For parallel(): (function name, arguments)."""
    return globals()[args[0]](*args[1])


def compare_others(args):
    """Compare a unit with values which aren't units; the odd one out, or a plain answer."""
    k, t = args
    u = guarded(system(k).unit, t)
    if isinstance(u, Raised):
        return t, "lookup", u.name, ""
    odd = [("m", "text"), (1, "int"), (1.0, "float"), (None, "None"), ({}, "dict"), (object(), "object"), (type(u), "type"),
           (guarded(u.dimensionality), "Dimensionality"), (str(u), "its own text"), ([u], "list")]
    for x, kind in odd:
        for a, b in ((u, x), (x, u)):
            eq, ne = flag(guarded(lambda: a == b)), flag(guarded(lambda: a != b))
            if eq != "F" or ne != "T":
                return t, kind, eq, ne
    return t, "", "F", "T"


def chain(k, path, values):
    """Convert values along a path of units."""
    from pyudunits2 import Converter

    rec = dict(q="chain", s=k + 1, path=[codes(t) for t in path], r="ok", _path=list(path), _values=list(values), _out=[])
    us = [guarded(system(k).unit, t) for t in path]
    if any(isinstance(u, Raised) for u in us):
        rec["r"] = "lookup"
        return rec
    steps = [guarded(Converter, u, v) for u, v in zip(us, us[1:])]
    for c in steps:
        if isinstance(c, Raised):
            rec["r"] = c.name
            rec["_message"] = c.message
            return rec
    for x in values:
        for c in steps:
            x = guarded(c.convert, x)
            x = x.name if isinstance(x, Raised) else number(x)
            if not isinstance(x, float):
                break
        rec["_out"].append(x)
    return rec


class Numbered:
    """Values as numbers, nearly equal ones as the same."""

    def __init__(self, eps=1e-9):
        self.eps, self.values = eps, []

    def __call__(self, x):
        try:
            x = float(x)
        except Exception:
            return 0  # no number
        for i, y in enumerate(self.values):
            if x == y or abs(x - y) <= self.eps * abs(y) or (x != x and y != y):
                return i + 1
        self.values.append(x)
        return len(self.values)


def uses(k, a, b, values, seed):
    """Use one conversion many times, on arrays of all kinds."""
    import random

    import numpy as np
    from pyudunits2 import Converter

    rng = random.Random(seed)
    rec = dict(q="uses", s=k + 1, path=[codes(a), codes(b)], r="ok", table=[], uses=[], _path=[a, b], _kinds=[])
    s = system(k)
    u, v = guarded(s.unit, a), guarded(s.unit, b)
    first = None if isinstance(u, Raised) or isinstance(v, Raised) else guarded(Converter, u, v)
    if first is None or isinstance(first, Raised):
        return None
    results = Numbered()
    table = []
    for x in values:
        y = guarded(first.convert, x)
        if isinstance(y, Raised) or not isinstance(number(y), float):
            return None
        table.append(results(y))
    rec["table"] = table
    index = {float(x): i + 1 for i, x in enumerate(values)}
    if len(index) != len(values):
        return None

    def pick(*shape, kind=float):
        some = [x for x in values if kind is float or x == int(x)]
        n = int(np.prod(shape, dtype=int))
        return np.array([rng.choice(some) for _ in range(n)], dtype="f8" if kind is float else "i8").reshape(shape)

    def arrays():
        yield "1d", pick(5)
        yield "one element", pick(1)
        yield "2d", pick(2, 3)
        yield "3d", pick(2, 1, 2)
        yield "empty", pick(0)
        yield "empty 2d", pick(3, 0)
        yield "0d", pick()
        yield "fortran", np.asfortranarray(pick(3, 2))
        yield "reversed", pick(4)[::-1]
        yield "strided", pick(4, 4)[::2, 1::2]
        yield "transposed", pick(2, 3).T
        yield "broadcast", np.broadcast_to(pick(1, 2), (3, 2))
        yield "integers", pick(4, kind=int)
        ro = pick(3)
        ro.flags.writeable = False
        yield "read-only", ro
        yield "big-endian", pick(3).astype(">f8")
        # (in narrow integers, an intermediate result may be out of range)
        if all(1e-3 < abs(number(y)) < 1e6 for y in map(first.convert, values)):
            yield "narrow integers", pick(4, kind=int).astype("i4")
            # (what is out of range gets masked by numpy)
            yield "masked", np.ma.MaskedArray(pick(5), mask=[rng.random() < 0.4 for _ in range(5)])
        if rng.random() < 0.15:
            n = rng.choice([257, 1025, 1500, 4097, 10007, 70001])
            yield "long", pick(n)
            yield "long 2d", pick(rng.choice([2, 3, 50]), n // 50)

    again = pick(3)
    todo = [*((("changed in between", again),) * 3), *arrays(), *arrays(), *(("python number", rng.choice(values)) for _ in range(3)), ("numpy number", np.float64(rng.choice(values)))]
    rng.shuffle(todo)
    other = guarded(Converter, v, u)
    kept = []

    def ids(z, of):
        return [of(e) for e in np.asarray(z).ravel().tolist()]

    for kind, x in todo:
        c = first if rng.random() < 0.6 else guarded(Converter, *(u, v) if rng.random() < 0.5 else (s.unit(a), s.unit(b)))
        if kind == "changed in between":
            x[...] = pick(3)
        before = np.array(np.ma.getdata(x), dtype=float)
        y = guarded(c.convert, x) if not isinstance(c, Raised) else c
        if isinstance(y, Raised):
            rec["r"] = y.name
            rec["_message"] = f"{kind}: {y.message}"
            break
        after = np.array(np.ma.getdata(x), dtype=float)
        if kind == "masked":
            # What is masked stays so; the value there is nobody's business.
            mask = np.ma.getmaskarray(x)
            if not isinstance(y, np.ma.MaskedArray) or not np.array_equal(np.ma.getmaskarray(y), mask):
                y = np.full(5, np.nan)
            else:
                y = np.array(y.data)
                y[mask] = [number(first.convert(float(e))) for e in before[mask]]
        rec["uses"].append(dict(
            si=list(np.shape(x)), so=list(np.shape(y)), after=ids(after, lambda e: index.get(e, 0)),
            out=ids(y, results), **{"in": ids(before, lambda e: index.get(e, 0))}))
        rec["_kinds"].append(kind)
        kept.append(None if kind == "changed in between" and np.shares_memory(x, y) else y)
        if kind != "python number" and isinstance(y, np.ndarray) and y.size and y.flags.writeable and rng.random() < 0.3:
            # what is done to a result is nobody else's business
            if not np.shares_memory(x, y):
                y[...] = -12345.0
                kept[-1] = None
        if rng.random() < 0.2 and not isinstance(other, Raised):
            guarded(other.convert, pick(2))
    # what came out earlier stays what it was
    for use, y in zip(rec["uses"], kept):
        use["later"] = use["out"] if y is None else ids(y, results)
        condense(use)
    return rec


def condense(use):
    """Of a long array, the kinds of elements that there are."""
    columns = [use[k] for k in ("in", "out", "after", "later")]
    if len(columns[0]) > 200 and len({len(c) for c in columns}) == 1:
        columns = zip(*dict.fromkeys(zip(*columns)))
        use.update(zip(("in", "out", "after", "later"), map(list, columns)))



def simplify(t):
    """Simplify the product expression t, and the result in turn."""
    from pyudunits2._expr.expander import Expander
    from pyudunits2._grammar import parse

    rec = dict(t=codes(t), r="ok", o=[], again=[], _text=t)
    u = guarded(lambda: Expander().visit(parse(t)))
    if isinstance(u, Raised):
        rec["r"] = u.name
        rec["_message"] = u.message
        return rec
    rec["o"] = codes(str(u))
    v = guarded(lambda: Expander().visit(u))
    rec["again"] = codes("?" + v.name if isinstance(v, Raised) else str(v))
    return rec
