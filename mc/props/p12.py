"""P12: measuring keeps every value and its unit, or refuses."""
import itertools

import numpy

from mc.core import Space, Violation

from goats.core import measurable
from goats.core import metadata
from goats.core import metric
from goats.core import physical
from goats.core import symbolic
from goats.core import variable

ASSUMPTIONS = [
    'inputs are trees of lists and tuples over numbers, units and measurable objects; an empty list of values followed by a unit is not claimed either way',
    'units that are spelled differently but equal may be combined or refused; units spelled alike must be combined',
]

# Leaves are described by tokens, so that a case is a picklable tree.
NUMBERS = {'n1': 1.5, 'n2': -2, 'n3': 0, 'n4': 7.25, 'n5': numpy.float64(3.5), 'n6': numpy.int64(4), 'n7': 1e300}
UNITS = {
    'u:m': 'm', 'u:cm': 'cm', 'u:1': '1', 'u:m/s': 'm / s', 'u:ms-1': 'm s^-1',
    'U:m': 'm', 'U:cm': 'cm', 'U:m/s': 'm s^-1',
    'M:m': 'm', 'M:cm': 'cm',
    'u:long': 'J / (kg K)', 'u:MeV': 'MeV', 'u:meV': 'meV', 'u: m': ' m ', 'u:Mm': 'Mm s^-1 nuc', 'u:mm': 'mm s^-1 nuc',
}
BAD = {'x:none': 'none', 'x:blank': '  ', 'x:abc': 'abc', 'x:nan': 'nan', 'x:1m': 'm m m /'}       # text that is no unit
SAME = {'m / s': 'm s^-1'}      # spellings of one unit
# Measurable objects: class, values, unit
OBJECTS = {
    'scalar:m': ('scalar', (2.5,), 'm'),
    'scalar:cm': ('scalar', (2.5,), 'cm'),
    'scalar:1': ('scalar', (2.5,), '1'),
    'vector:m': ('vector', (3.0, -1.0), 'm'),
    'vector1:cm': ('vector', (8.0,), 'cm'),
    'array:m': ('array', (0.5, 6.0, 1.0), 'm'),
    'array:km->m': ('converted array', (500.0, 6000.0), 'm'),
    'variable:m': ('variable', (0.25, 9.0), 'm'),
    'variable:km->m': ('converted variable', (250.0, 9000.0), 'm'),
    'measurement:m': ('measurement', (11.0, 12.0), 'm'),
    'measurement1:cm': ('measurement', (13.0,), 'cm'),
    'plain:m': ('plain', (14.0,), 'm'),
}


def make_object(key):
    kind, values, unit = OBJECTS[key]
    if kind == 'scalar':
        return physical.Scalar(values[0], unit=unit)
    if kind == 'vector':
        return physical.Vector(list(values), unit=unit)
    if kind == 'array':
        return physical.Array(list(values), unit=unit)
    if kind == 'converted array':
        return physical.Array([v / 1000 for v in values], unit='km')['m']
    if kind == 'variable':
        return variable.Quantity(list(values), unit=unit)
    if kind == 'converted variable':
        return variable.Quantity([v / 1000 for v in values], unit='km')['m']
    if kind == 'measurement':
        return measurable.Measurement(list(values), unit)
    if kind == 'plain':
        return measurable.Scalar(values[0], unit=unit)
    raise LookupError(key)


def realise(tree):
    """The real object that a tree describes."""
    if isinstance(tree, str):
        if tree in NUMBERS:
            return NUMBERS[tree]
        if tree in UNITS:
            u = UNITS[tree]
            return u if tree[0] == 'u' else metadata.Unit(u) if tree[0] == 'U' else metric.Unit(u)
        if tree == 'none':
            return None
        if tree in BAD:
            return BAD[tree]
        return make_object(tree)
    kind, *parts = tree
    if kind == 'r':
        return range(*parts)
    items = [realise(p) for p in parts]
    if kind == 'l':
        return items
    if kind == 't':
        return tuple(items)
    if kind == 'a':
        return numpy.array(items, dtype=float)
    raise LookupError(kind)


class Refused(Exception):
    pass


def isunit(t):
    return isinstance(t, str) and t in UNITS


def isnumber(t):
    return isinstance(t, str) and t in NUMBERS


def strip(tree):
    while not isinstance(tree, str) and tree[0] in 'lt' and len(tree) == 2:
        tree = tree[1]
    return tree


def numbers_of(tree):
    """All numbers of a tree that holds nothing else (or None)."""
    if isnumber(tree):
        return [NUMBERS[tree]]
    if isinstance(tree, str):
        return None
    if tree[0] == 'r':
        return list(range(*tree[1:]))
    if all(isnumber(p) for p in tree[1:]):
        return [NUMBERS[p] for p in tree[1:]]
    return None


def denote(tree):
    """The values and unit of a documented form; None if the form is not documented."""
    tree = strip(tree)
    if isnumber(tree):
        return [NUMBERS[tree]], '1'
    if isinstance(tree, str):
        if tree in OBJECTS:
            return list(OBJECTS[tree][1]), OBJECTS[tree][2]
        raise Refused
    if tree[0] in 'ar':
        return (numbers_of(tree), '1') if numbers_of(tree) else None
    parts = list(tree[1:])
    if not parts:
        raise Refused
    n = sum(map(isunit, parts))
    if n > 1:
        raise Refused
    if n == 1:
        if not isunit(parts[-1]):
            raise Refused
        unit = UNITS[parts[-1]]
        rest = parts[:-1]
        if not rest:
            raise Refused
        if 'none' in rest:
            if all(r == 'none' for r in rest):
                return None     # no values at all: not claimed
            raise Refused
        rest = strip(('l', *rest))
        values = numbers_of(rest)
        if values is None:
            return None
        if not values:
            return None     # unclaimed
        return values, unit
    if all(map(isnumber, parts)):
        return [NUMBERS[p] for p in parts], '1'
    found = [denote(p) for p in parts]
    if any(f is None for f in found):
        return None
    if len({f[1] for f in found}) > 1:
        if len({SAME.get(f[1], f[1]) for f in found}) > 1:
            raise Refused
        return None
    return [v for f in found for v in f[0]], found[0][1]


def flatten(tree, unit='1'):
    """Every number of a tree with the unit that covers it, in order (soundness oracle)."""
    if isnumber(tree):
        return [(NUMBERS[tree], unit)]
    if isinstance(tree, str):
        if tree in OBJECTS:
            return [(v, OBJECTS[tree][2]) for v in OBJECTS[tree][1]]
        return []
    if tree[0] == 'r':
        return [(v, unit) for v in range(*tree[1:])]
    own = [UNITS[p] for p in tree[1:] if isunit(p)]
    if own:
        unit = own[-1]
    return [x for p in tree[1:] for x in flatten(p, unit)]


def same_unit(u, text):
    return u == metadata.Unit(text)


def close(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def show(tree):
    if isinstance(tree, str):
        return tree
    if tree[0] == 'r':
        return f'range{tree[1:]}'
    return {'l': '[%s]', 't': '(%s)', 'a': 'array(%s)'}[tree[0]] % ', '.join(map(show, tree[1:]))


REFUSALS = (symbolic.ParsingError, measurable.Unmeasurable, measurable.MeasuringTypeError, TypeError, ValueError, metric.UnitParsingError)


def expected(tree):
    """('values', values, unit), ('refuse',) or ('either',)."""
    try:
        d = denote(tree)
    except Refused:
        return ('refuse',)
    if d is None:
        return ('either',)
    return ('values', *d)


def check_measure(case, obs):
    """measure(), parse_measurable() and ismeasurable() on one tree."""
    how, tree = case
    text = f'{how}({show(tree)})'
    want = expected(tree)
    arg = realise(tree)
    before = repr(arg)
    args = arg if how == 'measure*' else (arg,)
    obs.step((how, want[0], len(want[1]) if want[0] == 'values' else 0))
    try:
        if how in ('measure', 'measure*'):
            m = measurable.measure(*args)
            got, unit = list(m.data), m.unit
            if len(m) != len(got):
                raise Violation(f'len({text}) is {len(m)}, but it has {len(got)} values')
        elif how == 'parse':
            *got, unit = measurable.parse_measurable(arg)
            unit = metadata.Unit(unit)
        elif how == 'distribute':
            pairs = measurable.parse_measurable(arg, distribute=True)
            got, unit = [p[0] for p in pairs], [metadata.Unit(p[1]) for p in pairs]
            if any(len(p) != 2 for p in pairs):
                raise Violation(f'{text}: not all pairs: {pairs!r}')
    except REFUSALS as e:
        if want[0] == 'values' and how != 'distribute':
            raise Violation(f'{text} refused: {type(e).__name__}: {e}')
        obs.step(('refused', type(e).__name__))
        return
    if repr(arg) != before:
        raise Violation(f'{text} changed its argument from {before} to {arg!r}')
    flat = flatten(tree)
    if how == 'distribute':
        if len(got) != len(flat) or not all(close(a, b) for a, (b, _) in zip(got, flat)):
            raise Violation(f'{text} has values {got}, expected {[v for v, _ in flat]}')
        if not all(same_unit(u, t) for u, (_, t) in zip(unit, flat)):
            raise Violation(f'{text} has units {unit}, expected {[t for _, t in flat]}')
        return
    if want[0] == 'refuse':
        raise Violation(f'{text} gave {got} [{unit}], expected a refusal')
    if len(got) != len(flat) or not all(close(a, b) for a, (b, _) in zip(got, flat)):
        raise Violation(f'{text} has values {got}, expected {[v for v, _ in flat]}')
    for v, t in flat:
        if not same_unit(unit, t):
            raise Violation(f'{text} gave {v} the unit {unit}, expected {t}')
    obs.step(('measured', len(got), str(unit)))


def check_ismeasurable(case, obs):
    tree, = case
    want = expected(tree)
    arg = realise(tree)
    answer = measurable.ismeasurable(arg)
    obs.step((want[0], answer))
    if answer not in (True, False):
        raise Violation(f'ismeasurable({show(tree)}) is {answer!r}')
    if want[0] == 'values' and not answer:
        raise Violation(f'ismeasurable({show(tree)}) is false, but it is a documented measurable form')
    if not answer:
        try:
            m = measurable.measure(arg)
        except REFUSALS:
            return
        raise Violation(f'ismeasurable({show(tree)}) is false, but measure() gives {m}')
    # What is measurable can be measured, if not with one unit then one by one.
    try:
        measurable.parse_measurable(arg, distribute=True)
    except REFUSALS as e:
        if any(empty in show(tree) for empty in ('[]', '()', 'x:')):
            return      # no values at all, or text that is no unit: not claimed
        raise Violation(f'ismeasurable({show(tree)}) is true, but it cannot be measured: {type(e).__name__}: {e}')


def trees(leaves, maxleaves, depth):
    """All trees with up to a number of leaves and a depth; lists and tuples alternate by level."""
    memo = {}

    def build(n, d):
        if (n, d) in memo:
            return memo[n, d]
        out = []
        if n == 1:
            out.extend(leaves)
        if d > 0:
            for parts in compositions(n):
                for combo in itertools.product(*[build(k, d - 1) for k in parts]):
                    out.append(('l' if d % 2 else 't', *combo))
        memo[n, d] = out
        return out

    for n in range(1, maxleaves + 1):
        yield from build(n, depth)


def compositions(n):
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first, *rest)


SMALL = ['n1', 'n2', 'u:m', 'u:cm']
MIXED = ['n1', 'n5', 'u:m', 'U:m', 'M:cm', 'scalar:m', 'vector:m', 'measurement1:cm']


def universe(tier):
    yield from trees(SMALL, 3, 3)
    yield from trees(SMALL, 4, 2)
    yield from trees(MIXED, 3, 2)
    if tier == 'thorough':
        yield from trees(SMALL, 5, 2)
        yield from trees(SMALL, 4, 3)
        yield from trees(MIXED, 4, 2)
    wide = [*NUMBERS, *UNITS, *OBJECTS, *BAD, 'none']
    yield from trees(wide, 2, 2)
    for objs in itertools.product(OBJECTS, repeat=2):
        for unit in UNITS:
            yield ('l', ('t', *objs), unit)
    for values in (('a', 'n1', 'n2'), ('a', 'n1'), ('r', 3), ('r', 1, 9, 4), ('l', 'n1', 'n2', 'n3', 'n4'), ('t', 'n1', 'n3'), ('l',), ('t',), ('a',)):
        for unit in UNITS:
            yield ('t', values, unit)
            yield ('l', ('t', values, unit))
            yield ('l', ('t', values, unit), ('t', values, unit))
            yield ('l', ('t', values, unit), ('t', 'n1', unit))
            yield ('l', values, values, unit)
            yield ('t', values, unit, unit)
            yield ('t', unit, values)
            yield ('t', 'n1', values, unit)
            yield ('t', 'n1', unit, values)
            for other in UNITS:
                yield ('l', ('t', values, unit), ('t', values, other))
        yield values
        yield ('l', values, values)
        yield ('l', ('l', values))
    # longer flat forms
    for n in range(4, 8 if tier == 'quick' else 10):
        for unit in ('u:m', 'U:cm', None):
            flat = tuple(list(NUMBERS)[i % 7] for i in range(n))
            yield ('t', *flat, *([unit] if unit else []))
            yield ('t', ('l', *flat), *([unit] if unit else []))
            for where in range(n):
                if unit:
                    yield ('t', *flat[:where], unit, *flat[where:])
                for gap in ('none', 'x:abc'):
                    yield ('t', *flat[:where], gap, *flat[where:])
                    yield ('t', *flat[:where], gap, *flat[where:], unit or 'u:cm')


    # Many measurable items, of which one has another unit, more values, or no unit at all.
    items = {
        'pair': ('t', 'n1', 'u:m'), 'many': ('t', 'n1', 'n2', 'n3', 'u:m'), 'nested': ('t', ('l', 'n2', 'n4'), 'U:m'),
        'scalar': 'scalar:m', 'vector': 'vector:m', 'measurement': 'measurement:m', 'zero': ('t', 'n3', 'u:m'),
    }
    odd = [('t', 'n1', 'u:cm'), ('t', 'n3', 'u:cm'), ('t', 'n2', 'u:1'), 'n1', ('l', 'n1', 'n2'), 'scalar:cm', 'measurement1:cm', 'vector1:cm', 'none', 'u:m',
           ('t', 'n1'), ('t', 'n1', 'u:m', 'u:m'), ('l',), *items.values()]
    for n in range(3, 8 if tier == 'quick' else 12):
        for base in items.values():
            for other in odd:
                for where in range(n):
                    yield ('l', *[other if i == where else base for i in range(n)])
            # A unit for values that already have one.
            yield ('l', ('t', *[base] * n), 'u:m')
            yield ('l', *[base] * n, 'u:m')


def measure_cases(tier):
    for tree in universe(tier):
        yield ('measure', tree)
        if not isinstance(tree, str) and tree[0] in 'lt' and len(tree) > 1:
            yield ('measure*', tree)
        yield ('parse', tree)
        yield ('distribute', tree)


def is_cases(tier):
    for tree in universe(tier):
        yield (tree,)


# --- physical.scalar -------------------------------------------------------

def check_scalar(case, obs):
    tree, = case
    want = expected(tree)
    if want == ('either',) or (want[0] == 'values' and not want[1]):
        return
    arg = realise(tree)
    text = f'scalar({show(tree)})'
    obs.step((want[0], len(want[1]) if want[0] == 'values' else 0))
    try:
        s = physical.scalar(arg)
    except REFUSALS as e:
        if want[0] == 'values' and len(want[1]) == 1:
            raise Violation(f'{text} refused: {type(e).__name__}: {e}')
        return
    if want[0] == 'refuse' or len(want[1]) != 1:
        raise Violation(f'{text} gave {s}, expected a refusal')
    if not isinstance(s, physical.Scalar):
        raise Violation(f'{text} is a {type(s).__name__}')
    if not close(float(s), want[1][0]) or not same_unit(s.unit, want[2]):
        raise Violation(f'{text} is {s}, expected {want[1][0]} [{want[2]}]')


# --- sequence protocol and histories ---------------------------------------

def check_sequence(case, obs):
    """A measurement is a sequence of (value, unit) pairs."""
    n, unit, build, index = case
    values = [1.5 * i - 2 for i in range(n)]
    m = {
        'list': lambda: measurable.measure(list(values), unit),
        'flat': lambda: measurable.measure(*values, unit),
        'vector': lambda: measurable.measure(physical.Vector(values, unit=unit)),
        'array': lambda: measurable.measure(physical.Array(values, unit=unit)),
        'variable': lambda: measurable.measure(variable.Quantity(values, unit=unit)),
        'direct': lambda: measurable.Measurement(values, unit),
    }[build]()
    index = slice(*index) if isinstance(index, tuple) else index
    text = f'measure({values} [{unit}] as {build})[{index}]'
    obs.step((n, build, str(index)))
    if len(m) != n or len(list(iter(m))) != n:
        raise Violation(f'{text}: length {len(m)}, and {len(list(iter(m)))} items by iteration')
    try:
        want = values[index]
    except IndexError:
        try:
            got = m[index]
        except IndexError:
            return
        raise Violation(f'{text} gave {got}, expected an index error')
    want = want if isinstance(want, list) else [want]
    got = m[index]
    if len(got) != len(want) or not all(close(g[0], w) and same_unit(metadata.Unit(g[1]), unit) for g, w in zip(got, want)):
        raise Violation(f'{text} gave {got}, expected {want} each with {unit}')


def sequence_cases(tier):
    top = 4 if tier == 'quick' else 6
    ends = [None, *range(-top - 1, top + 2)]
    for build in ('list', 'flat', 'vector', 'array', 'variable', 'direct'):
        for n in range(1, top + 1):
            for unit in ('m', 'm s^-1', '1'):
                for i in range(-n - 3, n + 3):
                    yield (n, unit, build, i)
            for a, b, c in itertools.product(ends[::1 if tier == 'thorough' else 2], ends, (None, 2, -1)):
                yield (n, 'cm', build, (a, b, c))


def check_history(case, obs):
    """A measurement is a record: it reports the state at the time of measuring."""
    kind, steps = case
    source = numpy.array([1.0, 2.0])
    make = {'vector': physical.Vector, 'array': physical.Array, 'variable': variable.Quantity}[kind]
    q = make(source if kind != 'vector' else list(source), unit='m')
    values, size = [1.0, 2.0], 1.0     # metres
    unit = 'm'
    records = []
    for step in steps:
        if step == 'measure':
            m = measurable.measure(q)
            records.append((m, [v / size for v in values], unit))
        elif step == 'scale':
            q *= 2
            values = [2 * v for v in values]
        elif step == 'add':
            q += q
            values = [2 * v for v in values]
        elif step == 'convert':
            unit = {'m': 'cm', 'cm': 'm'}[unit]
            size = {'m': 1.0, 'cm': 0.01}[unit]
            q = q[unit]
        elif step == 'reread':
            for m, _, _ in records:
                m.data
        obs.step((kind, step, unit, tuple(values)))
    for i, (m, want, u) in enumerate(records):
        if len(m.data) != len(want) or not all(close(a, b) for a, b in zip(m.data, want)) or not same_unit(m.unit, u):
            raise Violation(f'{kind}: after {steps}, measurement {i} reports {m.data} [{m.unit}], but it was taken of {want} [{u}]')


def history_cases(tier):
    depth = 5 if tier == 'quick' else 6
    for kind in ('vector', 'array', 'variable'):
        ops = ('measure', 'scale', 'convert', 'add', 'reread')
        for n in range(1, depth + 1):
            for steps in itertools.product(ops, repeat=n):
                if 'measure' in steps:
                    yield (kind, steps)


def spaces(tier):
    return [
        Space('forms', measure_cases, check_measure, 'all trees of lists and tuples with up to 4 leaves (thorough: 5) and depth 3 over numbers, units (text and both unit classes) and measurable objects, through measure(x), measure(*x), parse_measurable(x) and its distributed form'),
        Space('recognition', is_cases, check_ismeasurable, 'ismeasurable() on the same trees'),
        Space('scalar', is_cases, check_scalar, 'physical.scalar() on the same trees'),
        Space('sequence', sequence_cases, check_sequence, 'measurements of 1-4 values (thorough: 6) built six ways x every index from -n-3 to n+2 and a grid of slices'),
        Space('history', history_cases, check_history, 'all sequences of up to 5 (thorough: 6) measure, scale, add, convert and re-read steps on vectors, arrays and variables'),
    ]
