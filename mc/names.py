"""The algebra of ordered sets of names (dimensions and parameters)."""
import itertools
import operator

from mc.core import Violation

ALPHABET = ('x', 'y', 'z')
TUPLES = [t for n in range(len(ALPHABET) + 1) for t in itertools.permutations(ALPHABET, n)]


def cases(tier):
    for a in TUPLES:
        yield ['one', list(a)]
    for a, b in itertools.product(TUPLES, TUPLES):
        yield ['two', list(a), list(b)]
    some = TUPLES if tier == 'thorough' else [t for t in TUPLES if len(t) < 3] + [('x', 'y', 'z'), ('z', 'y', 'x')]
    for a, b, c in itertools.product(some, some, some):
        yield ['three', list(a), list(b), list(c)]


def union(*groups):
    out = []
    for g in groups:
        out.extend(n for n in g if n not in out)
    return tuple(out)


def check(cls, ordered):
    """Create the check of a class; `ordered` if the order makes a difference to equality."""
    def same(x, y):
        return tuple(x) == tuple(y) if ordered else set(x) == set(y)

    def is_(where, got, want):
        if not isinstance(got, cls) or tuple(got) != tuple(want):
            raise Violation(f"{cls.__name__}: {where} is {got!r}, not {tuple(want)}")
        if len(got) != len(want) or any(got[i] != n for i, n in enumerate(want)) or [n for n in ALPHABET if n in got] != sorted(want):
            raise Violation(f"{cls.__name__}: {where} has inconsistent contents: {got!r}")

    def refused(where, call):
        try:
            got = call()
        except TypeError:
            return
        except Exception as err:
            raise Violation(f"{cls.__name__}: {where} raised {type(err).__name__}: {err}")
        raise Violation(f"{cls.__name__}: {where} gave {got!r}")

    def one(case, obs):
        _, a = case
        q = cls(*a)
        is_(f"{a}", q, a)
        is_(f"a list of {a}", cls(list(a)), a)
        is_(f"a nested list of {a}", cls([list(a)]), a)
        for opr in (abs, operator.pos, operator.neg):
            is_(f"{opr.__name__} {a}", opr(q), a)
        for p in (2, -1, 0.5, 0):
            is_(f"{a}**{p}", q ** p, a)
        for s in (2, 1.1, None):
            is_(f"merging {a} and {s}", q.merge(s), a)
        for s in (2, 1.1):
            is_(f"{a} * {s}", q * s, a)
            is_(f"{s} * {a}", s * q, a)
            is_(f"{a} / {s}", q / s, a)
            is_(f"{a} + {s}", q + s, a)
            is_(f"{a} - {s}", q - s, a)
        for bad in (1, None, ['x']):
            if len(a) or bad == 1:
                refused(f"{a} with {bad!r}", lambda: cls(*a, bad))
        for s in (*ALPHABET, 'xy', 'yx', 'xyz', ''):
            if (q == s) != (tuple(a) == (s,)) or (q != s) == (q == s):
                raise Violation(f"{cls.__name__}: {a} == {s!r} is {q == s}")
        for s in (1, None, 2.5):
            if q == s:
                raise Violation(f"{cls.__name__}: {a} == {s!r}")
        for n in range(4):
            for s in itertools.product(ALPHABET, repeat=n):
                want = sorted(s) == sorted(a)
                for form in (list(s), tuple(s)):
                    if (q == form) != want or (q != form) == want:
                        raise Violation(f"{cls.__name__}: {a} == {form!r} is {q == form}")
                obs.step((tuple(a), s))
        if str(q) != '[' + ', '.join(repr(n) for n in a) + ']':
            raise Violation(f"{cls.__name__}: {a} prints as {q}")

    def two(case, obs):
        _, a, b = case
        x, y = cls(*a), cls(*b)
        equal = same(a, b)
        if (x == y) != equal or (x != y) == equal:
            raise Violation(f"{cls.__name__}: {a} == {b} is {x == y}")
        if equal and hash(x) != hash(y):
            raise Violation(f"{cls.__name__}: {a} and {b} are equal but hash differently")
        if {x: 1}.get(y) != (1 if equal else None):
            raise Violation(f"{cls.__name__}: looking up {b} in a mapping with {a}: {({x: 1}).get(y)}")
        for opr in (operator.mul, operator.truediv, cls.merge):
            is_(f"{a} {opr.__name__} {b}", opr(x, y), union(a, b))
        for opr in (operator.add, operator.sub):
            if equal:
                is_(f"{a} {opr.__name__} {b}", opr(x, y), a)
            else:
                refused(f"{a} {opr.__name__} {b}", lambda: opr(x, y))
        refused(f"{a}**{b}", lambda: x ** y)
        is_('an operand afterward', x, a)
        is_('an operand afterward', y, b)
        obs.step((tuple(a), tuple(b)))

    def three(case, obs):
        _, a, b, c = case
        x, y, z = cls(*a), cls(*b), cls(*c)
        want = union(a, b, c)
        is_(f"{a} * {b} * {c}", x * y * z, want)
        is_(f"{a} * ({b} / {c})", x * (y / z), want)
        is_(f"merging {a}, {b} and {c}", x.merge(y, z), want)
        is_(f"merging {a}, {b}, 1.1 and {c}", x.merge(y, 1.1, z), want)
        obs.step((tuple(a), tuple(b), tuple(c)))

    kinds = {'one': one, 'two': two, 'three': three}

    def run(case, obs):
        return kinds[case[0]](case, obs)
    return run
