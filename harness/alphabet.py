"""Unit texts by concatenation: pieces of every kind of token, and junk."""

from __future__ import annotations

import itertools
import re

# one representative of every kind of token, and what changes the lexer's mode
CORE = ["m", "s2", "2", "-1", "1.5", "(", ")", "/", " ", "*", ".", "^", "\u00b2", "@", "lg(re ", "-"]
WIDE = CORE + ["**", "\u207b", "+", "\u00b7", " per ", " since ", "from ", "2000-01-01", "12:30", "T", "Z", "UTC", ".5", "1e3", "e", "E2",
               "+3", "ln(RE: ", "log(", "%", "'", "\u00b5", "3.", "10", "0", "kg", "re", "\u2070", "\u207a", " PER ", "lb (re ", "1900", "+01:00", ":", "  "]
JUNK = ["#", "$", "{", "]", ",", ";", "\\", "?", "!", "&", "|", "=", "<", "~", "`", "\u00d7", "\u00f7", "\u221a", "\u03b1", "\u4e2d", "\U0001f600",
        "\x00", "\x7f", "\u200b", "\ufeff", "\n", "\t", "\r", "\u00a0", "\u2003", "\u00b0", "\u00aa", "\u00ba", "\u00bd", "\u2032", "\u0660", "\u0967", "\u24ea",
        "\u2081", "\u2212", "\u2215", "\u22c5", "\u2044", "\u2074", "\u2075", "\u2126", "\u212b", "\u2103", "\u03bc", "\ud800", "\u0300", "\x80", "\xad",
        "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x1f", "\x85", "\u2028", "\u2029", "\r\n", "\u3000", "\u180e"]


# Powers of ten which do not fit in memory (or in a Decimal) are left out.
FAR = re.compile(r"[eE][+-]?\d{7,}")
LONG = re.compile(r"\d{6,}|[eE][+-]?\d{4,}")


def bounded(texts, limit=FAR):
    return [t for t in texts if not limit.search(t)]


def exhaustive(pieces, n):
    for k in range(n + 1):
        for p in itertools.product(pieces, repeat=k):
            yield "".join(p)


def random_texts(rng, n, pieces=WIDE, lo=3, hi=9, junk=0.0):
    for _ in range(n):
        p = [rng.choice(JUNK) if rng.random() < junk else rng.choice(pieces) for _ in range(rng.randint(lo, hi))]
        yield "".join(p)


def relatives(rng, texts):
    """The texts with one character exchanged for one that differs in one bit."""
    for t in texts:
        i = rng.randrange(len(t))
        c = chr(ord(t[i]) ^ rng.choice([0x20, 0x80, 0x80, 0x80, 0x80, 0x100, 0x200, 0x400, 0x1000, 0x2000, 0x10000]))
        yield t[:i] + c + t[i + 1:]


class Grammar:
    """Texts of the documented grammar, in many spellings."""

    def __init__(self, rng, ids=("m", "s", "kg", "rad", "km", "N"), dates=True):
        self.rng, self.ids, self.dates = rng, ids, dates

    def pick(self, *xs):
        return self.rng.choice(xs)

    def number(self):
        return self.pick("2", "10", "0", "1.5", ".5", "3.", "1e3", "2.5e-1", "1E+2", "007", "+4", "-3", "-.5", "+1.e1", "123456789012")

    def exponent(self, x):
        k = self.pick("2", "3", "1", "0", "-1", "-2", "12", "+2", "-0")
        sup = k.translate(str.maketrans("+-0123456789", "\u207a\u207b\u2070\u00b9\u00b2\u00b3\u2074\u2075\u2076\u2077\u2078\u2079"))
        return x + self.pick(k, "^" + k, "**" + k, sup)

    def basic(self, d):
        x = self.rng.random()
        if d <= 0 or x < 0.55:
            return self.rng.choice(self.ids) if x < 0.4 else self.number()
        if x < 0.85:
            return "(" + self.shifted(d - 1) + ")"
        return self.pick("lg(re ", "ln(RE ", "lb(re: ", "log(re ", "lg (re ", "log( RE:  ") + self.shifted(d - 1, 0.1) + ")"

    def power(self, d):
        x = self.basic(d)
        return self.exponent(x) if self.rng.random() < 0.35 else x

    def product(self, d):
        x = self.power(d)
        for _ in range(self.rng.choice([0, 0, 1, 1, 2, 3])):
            op = self.pick(" ", "*", ".", "\u00b7", "-", "/", " / ", " per ", " PER ", "", "/ ", "  ", " /")
            x += op + self.power(d)
        return x

    def shifted(self, d, p=0.25):
        x = self.product(d)
        if self.rng.random() < p:
            x += self.pick(" @ ", "@", " since ", " from ", " ref ", " after ", " @", "@ ")
            x += self.number() if self.rng.random() < 0.7 or not self.dates else self.stamp()
        return x

    def stamp(self):
        from . import texts

        return texts.Gen(self.rng).stamp()

    def text(self, d=2):
        x = self.shifted(d)
        return self.pick("", "", "", " ", "\t", "\n") + x + self.pick("", "", "", " ", "\u00a0")

    def mutated(self, d=2):
        """Text with a small mistake (perhaps)."""
        x = list(self.text(d))
        for _ in range(self.rng.choice([1, 1, 2])):
            i = self.rng.randrange(len(x) + 1)
            how = self.rng.random()
            if how < 0.4 and i < len(x):
                del x[i]
            elif how < 0.8:
                x.insert(i, self.rng.choice([*WIDE, self.rng.choice(JUNK)]))
            elif i + 1 < len(x):
                x[i], x[i + 1] = x[i + 1], x[i]
        return "".join(x)
