"""Reference models shared by several properties (plain Python only)."""
from fractions import Fraction as F
import math


class Mono:
    """A monomial: coefficient and base -> exponent.  The meaning of a string."""

    __slots__ = ('c', 'e')

    def __init__(self, c=1, e=None):
        self.c = c if isinstance(c, float) else F(c)
        self.e = {k: v for k, v in (e or {}).items() if v != 0}

    @classmethod
    def base(cls, name, exp=1):
        return cls(1, {name: F(exp)})

    def __mul__(self, other):
        e = dict(self.e)
        for k, v in other.e.items():
            e[k] = e.get(k, 0) + v
        return Mono(self.c * other.c, e)

    def __pow__(self, n):
        if n == 0:
            return Mono()
        if isinstance(n, F) and n.denominator == 1:
            c = self.c ** int(n)
        elif self.c == 1:
            c = F(1)
        else:
            c = float(self.c) ** float(n)
        return Mono(c, {k: v * n for k, v in self.e.items()})

    def __truediv__(self, other):
        return self * other ** F(-1)

    def key(self):
        """Canonical, hashable form."""
        return (round_sig(self.c), tuple(sorted((k, round_sig(v)) for k, v in self.e.items())))

    def __repr__(self):
        return f"{self.c} * {self.e}"


def round_sig(x, digits=11):
    x = float(x)
    if x == 0 or not math.isfinite(x):
        return repr(x)
    return f"{x:.{digits}g}"


def close(a, b, rel=1e-9, abs_=0.0):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)
