"""P09: arithmetic of scalars and vectors is arithmetic of physical quantities."""
import itertools
import math
import operator
from fractions import Fraction as F

import numpy

from mc import units as U
from mc.core import Space, Violation
from mc.models import close, round_sig

from goats.core import measurable
from goats.core import metadata
from goats.core import metric
from goats.core import physical

ASSUMPTIONS = [
    'values are compared as physical amounts (number times unit) with relative tolerance 1e-9',
    'quantities with equivalent units that are written differently may be added or refused, but never added wrongly',
    'converting a product of base units to electronvolts may be refused, as in P05',
    'a scalar as the left operand of a vector is refused by the current code and not explored',
]

CLASSES = {
    'quantity': measurable.Quantity, 'measured': measurable.Scalar, 'scalar': physical.Scalar, 'vector': physical.Vector,
}
UNITS = {
    'km': [('km', 1)], 'm': [('m', 1)], 's': [('s', 1)], 'h': [('h', 1)], 'J': [('J', 1)], 'erg': [('erg', 1)], '1': [], 'km / s': [('km', 1), ('s', -1)],
    'cm^3': [('cm', 3)], 'N': [('N', 1)], 'kg m / s^2': [('kg', 1), ('m', 1), ('s', -2)], 'cm': [('cm', 1)], 'm / s': [('m', 1), ('s', -1)],
    'eV': [('eV', 1)], 'd': [('d', 1)],
}


def terms(unit):
    return [(t.base, F(t.exponent).limit_denominator(100)) for t in unit if t.base != '1']


class Model:
    """Values (a list, or one number) in SI, and a dimension."""

    def __init__(self, values, size, dims):
        self.values = values    # numbers in the unit
        self.size = size        # the unit's size in SI
        self.dims = dims

    @property
    def si(self):
        return [v * self.size for v in self.values]


def meaning(unit):
    f, v = U.meaning(terms(unit))
    return f, v


def numbers_of(q):
    """What a user sees: the numbers of a quantity."""
    d = q.data
    return [float(x) for x in d] if isinstance(q, physical.Vector) else [float(d)]


def snapshot(q):
    return numbers_of(q), str(q.unit), str(getattr(q, 'name', ''))


def look(q, kind, want, what, obs, scale=()):
    """Compare a quantity with the amounts and dimension it must have."""
    if type(q) is not kind:
        raise Violation(f"{what} is a {type(q).__name__}, not a {kind.__name__}")
    f, v = meaning(q.unit)
    got = [n * f for n in numbers_of(q)]
    amounts, dims = want
    obs.step((what, tuple(round_sig(x) for x in got), str(q.unit)))
    if v != dims:
        raise Violation(f"{what} has the unit {q.unit}: dimension {v}, expected {dims}")
    if len(got) != len(amounts) or not all(close(g, w, abs_=1e-9 * max(map(abs, scale), default=0.0)) for g, w in zip(got, amounts)):
        raise Violation(f"{what} is {numbers_of(q)} {q.unit} = {got} in SI, expected {amounts}")


def amount(q):
    f, v = meaning(q.unit)
    return [n * f for n in numbers_of(q)], v


def combine(op, a, b):
    n = max(len(a), len(b))
    a = a * n if len(a) == 1 else a
    b = b * n if len(b) == 1 else b
    return [op(x, y) for x, y in zip(a, b)]


def vmul(v, w, sign=1):
    out = dict(v)
    for k, n in w.items():
        out[k] = out.get(k, 0) + sign * n
    return {k: n for k, n in out.items() if n}


def vpow(v, n):
    return {k: e * F(n).limit_denominator(100) for k, e in v.items()}


def make(kind, values, unit):
    cls = CLASSES[kind]
    if kind == 'vector':
        return cls(list(values), unit=unit)
    return cls(values[0], unit=unit)


class Refused(Exception):
    pass


REFUSALS = (TypeError, ArithmeticError, ValueError, metadata.UnitError, metadata.OperandTypeError, metadata.MetadataError, metric.UnitConversionError)


def attempt(f):
    try:
        return f()
    except REFUSALS as err:
        return Refused(err)


BIN = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv}
INPLACE = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'div': operator.itruediv, 'pow': operator.ipow}
COMPARE = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge, 'eq': operator.eq, 'ne': operator.ne}


def apply(q, op, obs, trail):
    """One operation on q: returns the new quantity (or q), after judging it."""
    kind = type(q)
    before = snapshot(q)
    name, arg = op
    what = f"{trail} {name} {arg}"
    a, dims = amount(q)
    inplace = name.startswith('i')
    base = name[1:] if inplace else name
    if base in BIN and isinstance(arg, tuple):
        okind, values, unit = arg
        other = make(okind, values, unit)
        obefore = snapshot(other)
        b, odims = amount(other)
        f = (INPLACE if inplace else BIN)[base]
        got = attempt(lambda: f(q, other))
        if snapshot(other) != obefore:
            raise Violation(f"{what} changed its right operand from {obefore} to {snapshot(other)}")
        if base in ('mul', 'div'):
            if isinstance(got, Refused):
                raise Violation(f"{what} is refused: {got}")
            look(got, kind, (combine(BIN[base], a, b), vmul(dims, odims, 1 if base == 'mul' else -1)), what, obs)
        else:
            fo = meaning(other.unit)[0]
            f0 = meaning(metric.Unit(before[1]))[0]
            agree = dims == odims and close(f0, fo)
            if isinstance(got, Refused):
                if agree and sorted(terms(metric.Unit(before[1]))) == sorted(terms(other.unit)):
                    raise Violation(f"{what} is refused: {got}")
                if not agree and not isinstance(got.args[0], metadata.UnitError):
                    raise Violation(f"{what} is refused with {got.args[0]!r}, expected a unit error")
                obs.step((what, 'refused'))
            else:
                if not agree:
                    raise Violation(f"{what} is {got}, but the units {before[1]} and {unit} differ")
                look(got, kind, (combine(BIN[base], a, b), dims), what, obs, a + b)
    elif base in ('add', 'sub', 'mul', 'div') and not isinstance(arg, tuple):
        f = (INPLACE if inplace else BIN)[base]
        got = attempt(lambda: f(q, arg))
        if base in ('add', 'sub'):
            if not isinstance(got, Refused):
                raise Violation(f"{what}: adding a number to a quantity gives {got}")
            obs.step((what, 'refused'))
        else:
            if isinstance(got, Refused):
                raise Violation(f"{what} is refused: {got}")
            look(got, kind, ([BIN[base](x, arg) for x in a], dims), what, obs)
    elif base in ('radd', 'rsub', 'rdiv', 'rpow') or base == 'rmul':
        fs = {'radd': operator.add, 'rsub': operator.sub, 'rdiv': operator.truediv, 'rpow': operator.pow, 'rmul': operator.mul}
        got = attempt(lambda: fs[base](arg, q))
        if base == 'rmul':
            if isinstance(got, Refused):
                raise Violation(f"{what} is refused: {got}")
            look(got, kind, ([arg * x for x in a], dims), what, obs)
        else:
            if not isinstance(got, Refused):
                raise Violation(f"{what}: {arg} {base} quantity gives {got}, which has no defined unit")
            obs.step((what, 'refused'))
    elif base == 'pow':
        if isinstance(arg, tuple):
            okind, values, unit = arg
            other = make(okind, values, unit)
            got = attempt(lambda: q ** other)
            if not isinstance(got, Refused):
                raise Violation(f"{what}: a quantity to the power of a quantity gives {got}")
            obs.step((what, 'refused'))
        else:
            if arg != int(arg) and min(a) < 0 or arg < 0 and 0 in a:
                return None
            got = attempt((lambda: operator.ipow(q, arg)) if inplace else (lambda: q ** arg))
            if isinstance(got, Refused):
                raise Violation(f"{what} is refused: {got}")
            look(got, kind, ([x ** arg for x in a], vpow(dims, arg)), what, obs)
    elif base in ('neg', 'pos', 'abs'):
        f = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs}[base]
        got = f(q)
        look(got, kind, ([f(x) for x in a], dims), what, obs)
    elif base in ('round', 'floor', 'ceil', 'trunc'):
        f = {'round': round, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[base]
        got = f(q)
        size = meaning(q.unit)[0]
        look(got, kind, ([f(x) * size for x in numbers_of(q)], dims), what, obs)
    elif base in ('to', 'To'):
        # a system or a unit
        got = attempt(lambda: q[arg])
        if arg.lower() in ('mks', 'cgs'):
            if isinstance(got, Refused):
                raise Violation(f"{what} is refused: {got}")
            look(got, kind, (a, dims), what, obs)
            f, v = U.meaning(terms(got.unit), 'SI' if arg.lower() == 'mks' else 'G')
            if not close(f, 1.0):
                raise Violation(f"{what} is in {got.unit}, which is not a unit of {arg}")
        else:
            f1, v1 = U.meaning(UNITS[arg])
            if v1 != dims:
                if not isinstance(got, Refused):
                    raise Violation(f"{what} is {got}, but the dimensions differ")
                obs.step((what, 'refused'))
            elif isinstance(got, Refused):
                # electronvolts belong to no system: goats converts them only term by term
                if not ('eV' in (arg, *(t[0] for t in terms(q.unit))) and isinstance(got.args[0], metric.UnitConversionError) and len(terms(q.unit)) > 1):
                    raise Violation(f"{what} is refused: {got}")
                obs.step((what, 'refused'))
            else:
                look(got, kind, (a, dims), what, obs)
                if not close(meaning(got.unit)[0], f1):
                    raise Violation(f"{what} is in {got.unit}")
        if getattr(q, 'name', None) is not None and not isinstance(got, Refused) and got.name != q.name:
            raise Violation(f"{what} changed the name from {q.name} to {got.name}")
    elif base == 'copy':
        got = kind(q)
        look(got, kind, (a, dims), what, obs)
    else:
        raise ValueError(name)
    if not inplace or isinstance(got, Refused):
        if snapshot(q) != before:
            raise Violation(f"{what} changed its operand from {before} to {snapshot(q)}")
    return q if isinstance(got, Refused) else got


def operands(kind):
    other = 'vector' if kind == 'vector' else kind
    vals = {'vector': (3.0, 0.5)}.get(kind, (3.0,))
    out = [(other, vals, 'km'), (other, vals, 's'), (other, vals, 'erg'), (other, vals, '1'), (other, vals, 'N'), (other, vals, 'm')]
    if kind == 'vector':
        out.append(('scalar', (2.0,), 'km'))
    return out


def operations(kind):
    out = []
    for o in operands(kind):
        for n in ('add', 'sub', 'mul', 'div', 'iadd', 'isub', 'imul', 'idiv'):
            out.append((n, o))
    out += [('pow', operands(kind)[0])]
    for n in ('add', 'mul', 'div', 'sub', 'imul', 'idiv', 'iadd'):
        out.append((n, 2.5))
    for n in ('radd', 'rsub', 'rmul', 'rdiv', 'rpow'):
        out.append((n, 4))
    out += [('pow', 2), ('pow', -1), ('pow', 0.5), ('ipow', 3), ('pow', 1)]
    out += [('neg', None), ('pos', None), ('abs', None), ('copy', None)]
    if kind in ('measured', 'scalar'):
        out += [('round', None), ('floor', None), ('ceil', None), ('trunc', None)]
    for u in ('mks', 'cgs', 'CGS', 'km', 'cm', 'eV', 'd', 'm / s', 'kg m / s^2'):
        out.append(('to', u))
    return out


STARTS = {
    'scalar': [((2.0,), 'km'), ((-1.6,), 'J'), ((5.0,), 'km / s'), ((0.25,), 'h'), ((7.0,), '1'), ((2.0,), 'kg m / s^2'), ((1.5,), 'cm^3')],
    'measured': [((2.0,), 'km'), ((-1.6,), 'J')],
    'quantity': [((2.0,), 'km'), ((-1.6,), 'J')],
    'vector': [((2.0, 1.5), 'km'), ((-1.6, 4.0), 'J'), ((5.0, 9.0), 'km / s'), ((0.25, 1e3), '1')],
}


def cases(tier):
    for kind, starts in STARTS.items():
        ops = range(len(operations(kind)))
        for i, _ in enumerate(starts):
            depth = 2 if kind in ('scalar', 'vector') or tier == 'thorough' else 1
            for n in range(1, depth + 1):
                for seq in itertools.product(ops, repeat=n):
                    yield [kind, i, list(seq)]
            if tier == 'thorough' and kind in ('scalar', 'vector') and i < 2:
                third = [j for j in ops if j % 3 == i]
                for seq in itertools.product(third, repeat=3):
                    yield [kind, i, list(seq)]


def check(case, obs):
    kind, i, seq = case
    values, unit = STARTS[kind][i]
    q = make(kind, values, unit)
    ops = operations(kind)
    trail = f"{kind} {values} {unit}"
    for n in seq:
        q = apply(q, ops[n], obs, trail)
        if q is None:
            return
        trail += f"; {ops[n][0]} {ops[n][1]}"
    m = measurable.measure(q)
    f, v = meaning(m.unit)
    if not all(close(x * f, y) for x, y in zip(m.data, amount(q)[0])) or v != amount(q)[1]:
        raise Violation(f"{trail}: measured as {m}, but is {q}")


# -- comparison -----------------------------------------------------------

def compare_cases(tier):
    for kind in ('scalar', 'measured', 'quantity'):
        for u0 in UNITS:
            for u1 in UNITS:
                yield [kind, u0, u1]


def check_compare(case, obs):
    kind, u0, u1 = case
    f0, v0 = U.meaning(UNITS[u0])
    f1, v1 = U.meaning(UNITS[u1])
    agree = v0 == v1 and close(f0, f1)
    for x, y in itertools.product((-1.5, 0.0, 2.0, 2.5), repeat=2):
        a, b = make(kind, (x,), u0), make(kind, (y,), u1)
        for name, f in COMPARE.items():
            got = attempt(lambda: f(a, b))
            obs.step((kind, u0, u1, x, y, name, str(got)[:5]))
            if name in ('eq', 'ne'):
                want = (agree and x == y) == (name == 'eq')
            elif agree:
                want = f(x, y)
            else:
                if not isinstance(got, Refused):
                    raise Violation(f"{x} {u0} {name} {y} {u1} is {got}, but the units differ")
                continue
            if isinstance(got, Refused) or bool(got) is not want:
                raise Violation(f"{x} {u0} {name} {y} {u1} is {got}, expected {want}")
            if u1 == 'm':
                got = (f(a, y), f(x, make(kind, (y,), u0)))
                if [bool(g) for g in got] != [f(x, y)] * 2:
                    raise Violation(f"{x} {u0} {name} the number {y} is {got}, expected {f(x, y)}")
    for n in (int, float):
        if kind != 'quantity' and n(make(kind, (-2.75,), u0)) != n(-2.75):
            raise Violation(f"{n.__name__} of -2.75 {u0}")


# -- comparison across classes --------------------------------------------

MIXED_UNITS = ['km', 'm', 's', 'J', '1', 'm / s', 'N', 'kg m / s^2']
MIXED = {'scalar': 1, 'measured': 1, 'quantity': 1, 'vector1': 1, 'vector2': 2}


def make_mixed(kind, x, unit):
    if kind == 'vector1':
        return physical.Vector([x], unit=unit)
    if kind == 'vector2':
        return physical.Vector([x, x], unit=unit)
    return make(kind, (x,), unit)


def mixed_cases(tier):
    return [[k0, k1, u0, u1] for k0 in MIXED for k1 in MIXED for u0 in MIXED_UNITS for u1 in MIXED_UNITS if k0 != k1]


def check_mixed(case, obs):
    """Quantities of two classes never compare by order across units, and are never equal with different amounts."""
    k0, k1, u0, u1 = case
    f0, v0 = U.meaning(UNITS[u0])
    f1, v1 = U.meaning(UNITS[u1])
    agree = v0 == v1 and close(f0, f1)
    for x, y in itertools.product((-1.5, 0.0, 2.0), repeat=2):
        a, b = make_mixed(k0, x, u0), make_mixed(k1, y, u1)
        for name, f in COMPARE.items():
            got = attempt(lambda: f(a, b))
            what = f"{k0} of {x} {u0} {name} {k1} of {y} {u1}"
            obs.step((k0, k1, u0, u1, x, y, name, str(got)[:5]))
            if name in ('eq', 'ne'):
                if isinstance(got, Refused):
                    raise Violation(f"{what} is refused: {got}")
                if bool(got) is (name == 'eq') and (not agree or x != y):
                    raise Violation(f"{what} is {got}")
                if agree and x == y and MIXED[k0] == MIXED[k1] and bool(got) is not (name == 'eq'):
                    raise Violation(f"{what} is {got}")
            elif isinstance(got, Refused):
                if agree:
                    raise Violation(f"{what} is refused: {got}")
            elif not agree:
                raise Violation(f"{what} is {got}, but the units differ")
            elif not numpy.array_equal(numpy.ravel(got), [f(x, y)] * numpy.size(got)):
                raise Violation(f"{what} is {got}, expected {f(x, y)}")
        for z, number, kind, unit in ((a, x, k0, u0), (b, y, k1, u1)):
            if not numpy.all(numpy.array(z.data) == number) or not same_unit(z.unit, unit):
                raise Violation(f"comparing changed the {kind} of {number} {unit} to {z}")


def same_unit(a, b):
    return str(a) == str(physical.Scalar(1.0, unit=b).unit)


# -- units that look alike ------------------------------------------------


def alike_cases(tier):
    return [[kind, a, b] for kind in CLASSES for group in U.ALIKE for a in group for b in group]


def check_alike(case, obs):
    """Units whose symbols differ by little are still different units."""
    kind, a, b = case
    f0, _ = U.meaning(U.parts(a))
    f1, _ = U.meaning(U.parts(b))
    values = (2.0, -0.5) if kind == 'vector' else (2.0,)
    for unit in (b, metric.Unit(b), metadata.Unit(b)):
        q = make(kind, values, a)
        got = q[unit]
        numbers = [float(x) for x in numpy.ravel(got.data)]
        obs.step((kind, a, b, numbers[0]))
        if len(numbers) != len(values) or any(not close(x, v * f0 / f1) for x, v in zip(numbers, values)):
            raise Violation(f"{kind} of {values} {a} in {b} is {numbers}, expected {values} times {f0 / f1}")
        if metric.Unit(str(got.unit)) != metric.Unit(b):
            raise Violation(f"{kind} of {values} {a} in {b} has the unit {got.unit}")
        back = got[a]
        if any(not close(float(x), v) for x, v in zip(numpy.ravel(back.data), values)):
            raise Violation(f"{kind} of {values} {a} in {b} and back is {back}")
    p, q = make(kind, values, a), make(kind, values, b)
    if (p == q) != close(f0, f1):
        raise Violation(f"{kind}: {values} {a} == {values} {b} is {p == q}")
    for name in ('add', 'sub'):
        got = attempt(lambda: BIN[name](p, q))
        if isinstance(got, Refused) == close(f0, f1):
            raise Violation(f"{kind}: {values} {a} {name} {values} {b} is {got}")


# -- vectors --------------------------------------------------------------

def vector_cases(tier):
    return [[list(v), u] for v in [(1.0,), (1.0, -2.5), (3.0, 0.0, 4.5), (5, 6, 7, 8)] for u in UNITS]


def check_vector(case, obs):
    values, unit = case
    v = physical.Vector(values, unit=unit, name='v')
    if len(v) != len(values) or [float(x) for x in v] != [float(x) for x in values]:
        raise Violation(f"Vector({values}) has the values {list(v)}")
    for i in range(-len(values), len(values)):
        s = v[i]
        look(s, physical.Scalar, ([values[i] * meaning(v.unit)[0]], meaning(v.unit)[1]), f'{values} {unit} [{i}]', obs)
    for a, b, c in itertools.product((None, 0, 1, -1), (None, 1, 2, -1), (None, 2, -1)):
        got = v[a:b:c]
        if [float(s) for s in got] != [float(x) for x in values[a:b:c]] or any(not isinstance(s, physical.Scalar) or s.unit != unit for s in got):
            raise Violation(f"{values} {unit} [{a}:{b}:{c}] is {got}")
        obs.step((tuple(values), unit, a, b, c))
    for bad in (len(values), len(values) + 3):
        try:
            got = v[bad]
        except IndexError:
            pass
        else:
            raise Violation(f"{values}[{bad}] is {got}")
    for w in (physical.Vector(v), physical.Vector(values, unit=unit), physical.Vector(measurable.measure(v)), v[unit]):
        if not (w == v) or w != v:
            raise Violation(f"{w} is not equal to {v}")
    other = [x + 1 for x in values]
    if physical.Vector(other, unit=unit) == v or physical.Vector(list(values) + [1.0], unit=unit) == v or physical.Vector(values, unit='mol') == v:
        raise Violation(f"a different vector is equal to {v}")
    single = physical.Vector(physical.Scalar(values[0], unit=unit, name='s'))
    if list(single) != [float(values[0])] or single.unit != unit or single.name != 's':
        raise Violation(f"Vector(Scalar({values[0]}, {unit})) is {single}")
    for arg in ([values[0], unit], (values[0], unit), physical.Scalar(values[0], unit=unit), physical.Vector([values[0]], unit=unit), measurable.measure(values[0], unit)):
        s = physical.scalar(arg)
        look(s, physical.Scalar, ([values[0] * meaning(v.unit)[0]], meaning(v.unit)[1]), f'scalar({arg!r})', obs)
    if len(values) > 1:
        try:
            got = physical.scalar(v)
        except ValueError:
            pass
        else:
            raise Violation(f"scalar({v}) is {got}")


def spaces(tier):
    n = {k: len(operations(k)) for k in CLASSES}
    return [
        Space('sequences', cases, check, f'operations per class: {n}; all sequences to depth 2 from {sum(map(len, STARTS.values()))} quantities (thorough: a third to depth 3)'),
        Space('units that look alike', alike_cases, check_alike, f'all pairs in {len(U.ALIKE)} groups of 6 to 16 units, 4 classes'),
        Space('mixed comparison', mixed_cases, check_mixed, f'all pairs of {len(MIXED)} classes x {len(MIXED_UNITS)} units each, 9 pairs of values, 6 operators'),
        Space('comparison', compare_cases, check_compare, f'all pairs of {len(UNITS)} units, 16 pairs of values, 6 operators, 3 classes'),
        Space('vectors', vector_cases, check_vector, f'4 vectors in {len(UNITS)} units: all indices, 48 slices, copies, equality, scalars'),
    ]
