"""Texts with offsets, logarithms and dates, over gen.SIMPLE."""

from __future__ import annotations

OFFSETS = ["273.15", "5", "-2", "10", "0.5", "1e2", "0", "+3", "459.67", "-1.5e1", "32."]
SHIFTS = [" @ ", "@", " @", "@ ", " from ", " ref ", " after ", " since "]


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def pick(self, *xs):
        return self.rng.choice(xs)

    def number(self):
        return self.pick("2", "3", "0.5", "10", "1e3", "1.8", "7e-1", "100")

    def wrap(self, x):
        return x if x.replace("_", "").isalpha() else f"({x})"

    def shift(self, x, n=None):
        n = self.rng.choice(OFFSETS) if n is None else n
        op = self.rng.choice(SHIFTS)
        if not op.endswith(" ") and op[-1].isalpha():
            op += " "
        if not op.startswith(" ") and (x[-1].isalpha() and op.strip() != "@"):
            op = " " + op
        return f"{x}{op}{n}"

    # ---- offsets ----
    KELVIN = ["K", "kelvin", "mK", "rankine", "R", "kK", "kilokelvin"]
    TEMP = ["degC", "\u00b0C", "degF", "\u00b0F", "reaumur", "Re", "warm",
            "millidegC", "kdegF", "kwarm", "decireaumur", "m\u00b0C"]
    LENGTH = ["m", "km", "inch", "cm", "ft"]

    def scaled(self, group):
        """A unit without offset."""
        r = self.rng.random()
        x = self.rng.choice(group)
        if r < 0.4:
            return x
        if r < 0.6:
            return f"{self.number()} {x}"
        if r < 0.7:
            return f"{x}/{self.number()}"
        if r < 0.8:
            return f"{x} {self.pick('rad', 'percent', 's/s', 'kg/g', 'm.m^-1')}"
        if r < 0.9:
            return f"({x})^1"
        return f"{x}2/({self.number()} {self.rng.choice(group)})"

    def offset(self, depth=2, group=None, named=None):
        """A unit with an outermost offset."""
        group = self.KELVIN if group is None else group
        named = self.TEMP if named is None else named
        r = self.rng.random()
        if named and (depth == 0 or r < 0.35):
            return self.rng.choice(named)
        if r < 0.6:
            return self.shift(self.scaled(group))
        if r < 0.75:
            return self.shift(f"({self.offset(depth - 1 if depth else 0, group, named)})"
                              if depth else self.scaled(group))
        if r < 0.85:
            return f"({self.offset(depth - 1 if depth else 0, group, named)})" if depth else self.shift(self.scaled(group))
        # an inner offset, which is ignored, shifted again
        return self.shift(self.inner(group, named))

    def inner(self, group=None, named=None):
        """A product, quotient or power with offset units in it."""
        group = self.KELVIN if group is None else group
        named = self.TEMP if named is None else named
        x = self.rng.choice(named) if named and self.rng.random() < 0.6 else f"({self.shift(self.scaled(group))})"
        r = self.rng.random()
        n = self.number()
        if r < 0.3:
            return f"{n} {x}"
        if r < 0.5:
            return f"{x} {n}" if x[-1] == ")" or x.isalpha() else f"({x}) {n}"
        if r < 0.65:
            return f"{x}/{n}"
        if r < 0.75:
            return f"{x} {self.pick('m/m', 'rad', 'percent')}"
        if r < 0.9:
            return f"({x})^1"
        y = self.rng.choice(named) if named else self.rng.choice(group)
        return f"({x})^2/{y}"

    # ---- logarithms ----
    REFS = {"m": ["m", "km", "inch", "3 m", "1e-3 km", "(2 ft)", "m2/km", "L/m2"],
            "W": ["W", "mW", "1 mW", "J/s", "2 kW", "N.m/s"],
            "1": ["1", "2", "0.5", "rad", "percent", "m/cm"],
            "Hz": ["Hz", "1/s", "2 kHz", "rpm"],
            "K": ["K", "mK", "2 rankine"],
            "1/s": ["m/s/m", "s^-1", "0.1 s-1"],
            "m/s": ["m/s", "km/h", "knot", "2 m.s-1"]}
    NAMED = {"W": ["Bm"], "1": ["bel", "B", "neper", "Np"], "Hz": ["oct"], "m^-3": ["pH"], "m": ["stack"]}

    def log(self, group, depth=1):
        fn = self.pick("lg", "ln", "lb", "log", "lg", "ln")
        re = self.pick("re ", "re ", "RE ", "re: ", "re  ")
        sp = self.pick("(", "(", " (", "( ")
        if depth and self.rng.random() < 0.25:
            return f"{fn}{sp}{re}{self.log(group, depth - 1)})"
        if group in self.NAMED and self.rng.random() < 0.3:
            x = self.rng.choice(self.NAMED[group])
            return x if self.rng.random() < 0.7 or depth == 0 else f"{fn}{sp}{re}{x})"
        return f"{fn}{sp}{re}{self.rng.choice(self.REFS.get(group, [group]))})"

    def shifted_log(self, group):
        x = self.log(group, 1)
        n = self.rng.choice(["2", "-1", "0.5", "3"])
        y = f"{x} @ {n}"
        if self.rng.random() < 0.2:
            y = f"({y}) @ 1"
        return y

    # ---- dates ----
    TIMES = ["s", "hour", "day", "min", "seconds", "ms", "kilohour", "2 s", "s2/s", "(m/m) s", "h"]

    def clock(self):
        r = self.rng
        return r.choice(["0:0", "00:00", "12:30", "23:59", "9:05", "12:30:15", "1:2:3", "12:30:15.5", "23:59:60",
                         "06:07:08.123456", "00:00:00", "7", "12", "1230"])

    def date(self):
        r = self.rng
        y = r.choice(["2000", "1970", "1", "99", "-5", "+2001", "0001", "1582"])
        x = f"{y}-{r.choice(['1', '01', '12', '9', '10'])}"
        if r.random() < 0.8:
            x += f"-{r.choice(['1', '01', '31', '28', '9', '15'])}"
        return x

    def stamp(self):
        r = self.rng.random()
        d = self.date()
        if r < 0.25:
            return d
        if r < 0.6:
            return f"{d}{self.pick(' ', 'T')}{self.clock()}"
        zone = self.pick("UTC", "Z", "GMT", "+1", "-5", "+01:00", "-3:30", "+0530", "2", "12:00")
        if r < 0.9:
            return f"{d}{self.pick(' ', 'T')}{self.clock()}{self.pick(' ', ' ', '')}{zone}"
        return self.pick("20000101", "2000", "20000101T1230", "2000T12", "-5", "19700101T000000",
                         f"{d} UTC", f"{d}Z", "20000101T123015.5 UTC", "2000-01-01T", "10:20",
                         "2000-13-01", "2000-01-32", "2000-1-1 25:00", "UTC", "2000-01-01 12:30 XYZ",
                         "20000101T12 +1", "2000 12:00", "1.5", "2000-01-01 12:30:15:20")

    def dated(self, unit=None):
        u = unit or self.rng.choice(self.TIMES)
        op = self.pick(" since ", " @ ", "@", " from ", " after ", " ref ", " @")
        return f"{u}{op}{self.stamp()}"
