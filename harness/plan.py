"""Evaluating a conversion plan (written out by TLC) in numbers."""

from __future__ import annotations

import functools

import mpmath

mpmath.mp.dps = 60
# (several times what a double rounds by, as constants are written with 15 digits)
EPS = mpmath.mpf(10) ** -15


class Outside(Exception):
    """The plan has no (real, finite) value here."""


@functools.lru_cache(maxsize=None)
def atom(a):
    if a[0] == -1:
        return mpmath.mpf(int("".join(chr(c) for c in a[1:])))
    return mpmath.mpf(a[0])


def scale(step):
    x = mpmath.mpf(step["sg"])
    for p in step["m"]:
        x *= atom(tuple(p["a"])) ** p["e"]
    return x


BASES = {"2": mpmath.mpf(2), "e": mpmath.e, "10": mpmath.mpf(10)}


def evaluate(plan, value):
    """The exact result, and how far off a floating-point result may be."""
    x = mpmath.mpf(value)
    err = abs(x) * EPS
    for step in plan:
        kind = step["s"]
        if kind == "mul":
            m = scale(step)
            x, err = x * m, err * abs(m)
        elif kind == "add":
            m = scale(step)
            x, err = x + m, err + abs(m) * EPS
        elif kind == "inv":
            if abs(x) <= err * 1000:
                raise Outside("reciprocal of zero")
            x, err = 1 / x, err / x ** 2
        elif kind == "exp":
            b = BASES[step["b"]]
            if abs(x) * mpmath.log10(b) > 290:
                raise Outside("overflow")
            x = b ** x
            err = err * x * mpmath.log(b)
        elif kind == "log":
            b = BASES[step["b"]]
            if x <= err * 1000:
                raise Outside("logarithm of a number not above zero")
            x, err = mpmath.log(x) / mpmath.log(b), err / x / mpmath.log(b)
        if x != 0 and not mpmath.mpf("1e-290") < abs(x) < mpmath.mpf("1e290"):
            raise Outside("out of range")
        err += abs(x) * EPS
    return x, err * 100 + abs(x) * mpmath.mpf("1e-13")


def agrees(plan, value, got):
    """None if the result is as the plan has it, or else what is expected."""
    try:
        x, tol = evaluate(plan, value)
    except Outside:
        return None
    if isinstance(got, (int, float)) and got == got and abs(x - mpmath.mpf(got)) <= tol:
        return None
    return float(x)
