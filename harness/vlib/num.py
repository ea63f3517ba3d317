"""Projection of floating point observations to the bounded integers of the specification."""
import math

NAN = 1000000001       # not a number, or not a number at all
BIG = 1000000000       # clipped; differences of two observations stay within 32 bits


def fx(x, scale):
    """x in units of 1/scale, rounded; total."""
    try:
        x = float(x)
    except Exception:
        return NAN
    if math.isnan(x):
        return NAN
    v = x * scale
    if v >= BIG:
        return BIG
    if v <= -BIG:
        return -BIG
    return int(round(v))


def fxs(xs, scale):
    try:
        return [fx(x, scale) for x in xs]
    except TypeError:
        return [NAN]


class Ranks:
    """Order-isomorphic integer coding of one column: every value that is compared anywhere in a trace."""

    def __init__(self):
        self.vals = set()
        self.map = None

    def add(self, x):
        self.vals.add(float(x))

    def freeze(self):
        self.map = {v: i + 1 for i, v in enumerate(sorted(self.vals))}

    def __getitem__(self, x):
        try:
            return self.map.get(float(x), -1)
        except Exception:
            return -1
