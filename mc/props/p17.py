"""P17: searching, bounding, interpolating, and transforming numbers."""
import bisect
import itertools
import math
from fractions import Fraction as F

import numpy

from mc.core import Space, Violation

from goats.core import interpolation, numerical

ASSUMPTIONS = [
    'arrays to bound or to interpolate over are strictly monotonic; unbounded searches may be in any order and dimension',
    'a bounded search in which no value satisfies the bound, targets outside of an array over which to interpolate, and points closer to the origin than the machine epsilon are not claimed',
]


# ---------------------------------------------------------------- nearest
VALUES = (-2.0, 0.0, 0.5, 3.0)
TARGETS = (-3.0, -2.0, -1.25, -0.5, 0.0, 0.1, 0.4, 0.5, 2.0, 3.0, 7.5)
INTS = (-7, 0, 2, 5)


def nearest_cases(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for v in itertools.product(VALUES, repeat=n):
            yield [list(v), 'float']
    for n in range(1, 4):
        for v in itertools.product(INTS, repeat=n):
            yield [list(v), 'int']


def shapes(n):
    out = [None, (n,)]
    for a in range(1, n + 1):
        if n % a == 0:
            out.append((a, n // a))
    if n == 4:
        out.append((2, 1, 2))
    return out


def nearest_check(case, obs):
    v, kind = case
    targets = TARGETS if kind == 'float' else (-8, -7, -4, -1, 0, 1, 2, 3, 4, 9, 2.5, -3.25)
    for shape in shapes(len(v)):
        for form in (list, tuple, numpy.array):
            if shape is None:
                given = form(v)
            elif form is numpy.array:
                given = numpy.array(v).reshape(shape)
            else:
                given = numpy.array(v).reshape(shape).tolist()
            for target in targets:
                for bound in (None, 'lower', 'upper'):
                    ok = [x for x in v if bound is None or (x >= target if bound == 'lower' else x <= target)]
                    where = f"find_nearest({given!r}, {target}, bound={bound!r})"
                    got = numerical.find_nearest(given, target, bound=bound)
                    index, value = got
                    if got.index is not index or got.value is not value:
                        raise Violation(f"{where}: fields and positions differ")
                    at = numpy.array(given)[index]
                    if at.shape != () or float(at) != float(value):
                        raise Violation(f"{where} gives index {index} and value {value}")
                    if (shape is None or len(shape) == 1) and not isinstance(index, (int, numpy.integer)):
                        raise Violation(f"{where}: the index is {index!r}")
                    if not (shape is None or len(shape) == 1) and len(index) != len(shape):
                        raise Violation(f"{where}: the index is {index!r}")
                    if not ok:
                        continue        # nothing satisfies the bound
                    if float(value) not in [float(x) for x in ok]:
                        raise Violation(f"{where} gives {value}, which doesn't satisfy the bound")
                    best = min(abs(F(x) - F(target)) for x in ok)
                    if abs(F(float(value)) - F(target)) != best and not math.isclose(abs(float(value) - target), float(best), rel_tol=1e-12):
                        raise Violation(f"{where} gives {value}; the nearest is {float(best)} away")
                    obs.step((tuple(v), target, bound, shape))


# ---------------------------------------------------------------- bounds
def monotonic(n, pool):
    for c in itertools.combinations(pool, n):
        yield list(c)
        if n > 1:
            yield list(c)[::-1]


POOL = (-2.0, -0.5, 0.0, 0.25, 1.0, 4.0)


def between(row, x):
    """(lower, upper) positions around x; both at the end when it is outside."""
    n = len(row)
    if row[0] <= row[-1]:
        up = bisect.bisect_left(row, x)
        if up == n:
            return n - 1, n - 1
        if row[up] == x or up == 0:
            return up, up
        return up - 1, up
    lo, hi = between(row[::-1], x)
    return n - 1 - hi, n - 1 - lo


def targets_of(values):
    v = sorted(set(values))
    out = [v[0] - 1.5, v[-1] + 2.0]
    for a, b in zip(v, v[1:]):
        out += [0.75 * a + 0.25 * b]
    return out + v


def bound_cases(tier):
    for n in range(1, 7):
        for row in monotonic(n, POOL):
            yield [[row], None]
    pool = POOL[1:] if tier == 'quick' else POOL
    for n in (1, 2, 3):
        rows = [list(c) for c in itertools.combinations(pool, n)]
        for a, b in itertools.product(rows, repeat=2):
            yield [[a, b], 2]
        rows = rows[::3]
        for c in itertools.product(rows, repeat=4):
            if n == 2:
                yield [list(c), 3]


def bound_check(case, obs):
    rows, dim = case
    for target in targets_of([x for r in rows for x in r]):
        want = [list(between(r, target)) for r in rows]
        if dim is None:
            calls = [(rows[0], None), (rows[0], 0), (numpy.array(rows[0]), -1), ([rows[0]], 1), ([[x] for x in rows[0]], 0)]
            for array, axis in calls:
                got = numerical.get_bounding_indices(array, target, **({} if axis is None else {'axis': axis}))
                if [int(x) for x in numpy.ravel(got)] != want[0]:
                    raise Violation(f"get_bounding_indices({array}, {target}, axis={axis}) = {got}, not {want[0]}")
                shape = list(numpy.shape(array))
                shape[-1 if axis is None else axis] = 2
                if list(got.shape) != shape:
                    raise Violation(f"get_bounding_indices({array}, {target}, axis={axis}) has shape {got.shape}")
        elif dim == 2:
            a = numpy.array(rows)
            for array, axis, expect in ((a, 1, want), (a, -1, want), (a, None, want), (a.T, 0, numpy.array(want).T.tolist())):
                got = numerical.get_bounding_indices(array, target, axis=axis)
                if got.tolist() != expect:
                    raise Violation(f"get_bounding_indices({array.tolist()}, {target}, axis={axis}) = {got.tolist()}, not {expect}")
        else:
            a = numpy.array(rows).reshape(2, 2, -1)
            w = numpy.array(want).reshape(2, 2, 2)
            for axis in (2, 1, 0):
                got = numerical.get_bounding_indices(numpy.moveaxis(a, 2, axis), target, axis=axis)
                expect = numpy.moveaxis(w, 2, axis)
                if got.tolist() != expect.tolist():
                    raise Violation(f"get_bounding_indices of a 3-D array along {axis} for {target}: {got.tolist()}, not {expect.tolist()}")
        obs.step((repr(rows), target))


# ---------------------------------------------------------------- interpolation
GRID = (-1.0, 0.0, 0.5, 2.0, 5.0)


def interpolation_cases(tier):
    for n in range(1, 6):
        for row in monotonic(n, GRID):
            yield [1, [row]]
    for n in (1, 2, 3):
        rows = [list(c) for c in itertools.combinations(GRID, n)]
        for c in itertools.product(rows, repeat=2):
            yield [2, list(c)]
        if n == 3:
            for c in itertools.product(rows[::2] if tier == 'quick' else rows, repeat=3):
                yield [2, list(c)]


def value(r, j, e):
    """What is interpolated: without symmetries, not linear."""
    return 1.0 + 0.7 * r + (j + 1) ** 2 * (1 + 0.3 * r) - 2.5 * e * (1 + j)


def linear(row, values, x):
    pairs = sorted(zip(row, values))
    for g, v in pairs:
        if g == x:
            return v
    for (a, u), (b, v) in zip(pairs, pairs[1:]):
        if a < x < b:
            return u + (v - u) * (x - a) / (b - a)


def interpolation_check(case, obs):
    ndim, rows = case
    n = len(rows[0])
    lo, hi = max(min(r) for r in rows), min(max(r) for r in rows)
    ts = [t for t in targets_of([x for r in rows for x in r]) if lo <= t <= hi]
    if not ts:
        return
    groups = [[t] for t in ts] + [ts] + ([ts[::-1]] if len(ts) > 1 else [])
    for extra in ((), (1,), (2,), (2, 3)):
        ne = int(numpy.prod(extra)) if extra else 1
        shape = ((n,) if ndim == 1 else (len(rows), n)) + extra
        array = numpy.array([value(r, j, e) for r in range(len(rows)) for j in range(n) for e in range(ne)]).reshape(shape)
        ref = numpy.array(rows[0] if ndim == 1 else rows)
        for targets in groups:
            want = [[[linear(row, [value(r, j, e) for j in range(n)], t) for e in range(ne)] for t in targets] for r, row in enumerate(rows)]
            for axis in (ndim - 1, None):
                a, b = array.copy(), ref.copy()
                where = f"interpolation.apply({a.tolist()}, {b.tolist()}, {targets}, axis={axis})"
                got = numpy.array(interpolation.apply(a, b, targets, axis=axis))
                expect = ((len(targets),) if ndim == 1 else (len(rows), len(targets))) + extra
                if got.shape != expect:
                    raise Violation(f"{where} has shape {got.shape}, not {expect}")
                flat = [x for r in want for t in r for x in t]
                for p, (x, y) in enumerate(zip(got.ravel(), flat)):
                    if not abs(x - y) <= 1e-9 * (1 + abs(y)):
                        raise Violation(f"{where}: value {p} is {x}, not {y}")
                if (a != array).any() or (b != ref).any():
                    raise Violation(f"{where} changed its arguments")
                obs.step((repr(rows), extra, repr(targets), axis))


# ---------------------------------------------------------------- coordinates
COMPONENTS = (-3.0, -1.0, 0.0, 0.5, 2.0)


def coordinate_cases(tier):
    for scale in (1.0, 1e-6, 1.5e11) if tier == 'quick' else (1.0, 1e-6, 1.5e11, 1e-12, 1e30):
        for x in COMPONENTS:
            yield [scale, x]


def coordinate_check(case, obs):
    scale, x = case
    points = [(x * scale, y * scale, z * scale) for y in COMPONENTS for z in COMPONENTS]
    columns = [numpy.array(c) for c in zip(*points)]
    before = [c.copy() for c in columns]
    many = numerical.xyz2rtp(*columns)
    alike = numerical.xyz2rtp(tuple(columns))
    lists = numerical.xyz2rtp(*[list(c) for c in columns])
    for i, p in enumerate(points):
        r = math.sqrt(sum(c * c for c in p))
        t = math.atan2(math.hypot(p[0], p[1]), p[2]) if r else 0.0
        f = math.atan2(p[1], p[0]) % (2 * math.pi)
        single = numerical.xyz2rtp(*p)
        for which, got in (('single', single), ('tuple', numerical.xyz2rtp(p)), ('array', [c[i] for c in many]), ('array tuple', [c[i] for c in alike]), ('lists', [c[i] for c in lists])):
            a, b, c = map(float, got)
            on_axis = p[0] == 0 and p[1] == 0
            if not (math.isclose(a, r, rel_tol=1e-12, abs_tol=1e-300) and abs(b - t) < 1e-7 and (on_axis and 0 <= c <= 2 * math.pi or abs(c - f) < 1e-12)):
                raise Violation(f"xyz2rtp ({which}) of {p} is {(a, b, c)}, not {(r, t, f)}")
        back = numerical.rtp2xyz(*single)
        rev = numerical.rtp2xyz(tuple(single))
        for got in (back, rev):
            if any(not abs(float(u) - v) <= 1e-7 * max(r, 1e-300) for u, v in zip(got, p)):
                raise Violation(f"{p} becomes {tuple(map(float, got))} in spherical coordinates and back")
        obs.step(p)
    rtp = [numpy.array(c) for c in many]
    kept = [c.copy() for c in rtp]
    back = numerical.rtp2xyz(*rtp)
    for i, p in enumerate(points):
        if any(not abs(float(u[i]) - v) <= 1e-7 * max(map(abs, p)) for u, v in zip(back, p)):
            raise Violation(f"{p} becomes {[float(u[i]) for u in back]} in spherical coordinates and back, in an array")
    if any((a != b).any() for a, b in zip(columns + rtp, before + kept)):
        raise Violation("a transformation changed its arguments")


ANGLES = [math.pi * k / 6 for k in range(13)]


def spherical_cases(tier):
    for r in (0.0, 1.0, 2.5, 1e9):
        for t in ANGLES[:7]:
            yield [r, t]


def spherical_check(case, obs):
    r, t = case
    for p in ANGLES + [-math.pi / 3, 7.0]:
        want = (r * math.sin(t) * math.cos(p), r * math.sin(t) * math.sin(p), r * math.cos(t))
        for got in (numerical.rtp2xyz(r, t, p), numerical.rtp2xyz((r, t, p)), [c[0] for c in numerical.rtp2xyz([r, 1], [t, 1], [p, 1])]):
            if any(not abs(float(a) - b) <= 1e-12 * max(r, 1) for a, b in zip(got, want)):
                raise Violation(f"rtp2xyz({r}, {t}, {p}) is {tuple(map(float, got))}, not {want}")
        obs.step((r, t, p))


# ---------------------------------------------------------------- cast
DIGITS = ('1', '0', '.', '-', 'e', 'j', ' ', 'a', '+')


def cast_cases(tier):
    for n in range(0, 5 if tier == 'quick' else 6):
        for first in DIGITS[:1] if n == 0 else DIGITS:
            yield [n, first]
    yield [-1, '']


OTHER = [None, [], [1], (1, 2), {}, {'a': 1}, object, 'one', '', '[1]', '1,2', '1 2', b'a', slice(1)]
NUMBERS = [0, 1, -3, 2.5, 0.0, float('inf'), 1 + 2j, F(1, 3), True, numpy.float64(1.5), numpy.int32(7)]


def cast_check(case, obs):
    n, first = case
    if n < 0:
        for x in NUMBERS:
            for kw in ({}, {'strict': False}, {'strict': True}):
                if numerical.cast(x, **kw) is not x:
                    raise Violation(f"cast({x!r}) is {numerical.cast(x, **kw)!r}")
                obs.step(repr(x))
        words = OTHER
    elif n == 0:
        words = ['']
    else:
        words = [first + ''.join(w) for w in itertools.product(DIGITS, repeat=n - 1)]
    for w in words:
        want = None
        if isinstance(w, str):
            for t in (int, float, complex):
                try:
                    want = t(w)
                    break
                except ValueError:
                    pass
        got = numerical.cast(w, strict=False)
        if type(got) != type(want) or got != want:
            raise Violation(f"cast({w!r}, strict=False) is {got!r}, not {want!r}")
        try:
            got = numerical.cast(w)
        except TypeError:
            if want is not None:
                raise Violation(f"cast({w!r}) is refused")
        else:
            if type(got) != type(want) or got != want:
                raise Violation(f"cast({w!r}) is {got!r}, not {want!r}")
        obs.step(repr(w))


def spaces(tier):
    return [
        Space('nearest', nearest_cases, nearest_check, 'all arrays of up to 4 (thorough: 5) of 4 values in every shape, 11 targets, every bound'),
        Space('bounds', bound_cases, bound_check, 'all strictly monotonic arrays of up to 6 values; pairs of rows of up to 3 values; 2x2 rows of 2; all targets on, between and outside of the values; every axis'),
        Space('interpolation', interpolation_cases, interpolation_check, 'all strictly monotonic grids of up to 5 values, all pairs (triples) of rows, all targets on and between the values, 4 trailing shapes'),
        Space('coordinates', coordinate_cases, coordinate_check, 'all points with components in {-3, -1, 0, 0.5, 2} at several scales'),
        Space('spherical', spherical_cases, spherical_check, 'radii, and angles in steps of 30 degrees'),
        Space('cast', cast_cases, cast_check, 'all strings of up to 4 (5) of 9 characters, other objects and numbers'),
    ]
