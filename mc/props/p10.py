"""P10: an array quantity is its array times its unit, through every conversion, subscript and copy."""
import itertools
import operator
from fractions import Fraction as F

import netCDF4
import numpy

from mc import units as U
from mc.core import Space, Violation
from mc.models import round_sig

from goats.core import measurable
from goats.core import metadata
from goats.core import metric
from goats.core import physical
from goats.core import variable

ASSUMPTIONS = [
    'arrays are compared as physical amounts (array times unit) with relative tolerance 1e-9',
    'boolean masks, new axes, and a one-element list as the only index of a named array are not explored',
    'a named array subscripted by sequences and bare integers together is not explored (the code refuses it)',
]

SHAPES = {'1': (4,), '2': (3, 4), '3': (2, 3, 4)}
DIMS = ('time', 'shell', 'energy')
_STORE = {}


def array(shape):
    n = int(numpy.prod(shape))
    return (numpy.arange(n, dtype=float) * 1.25 + 0.5).reshape(shape)


def disk(shape):
    """A netCDF variable: data that is read when needed (in memory: no file is made)."""
    if shape not in _STORE:
        ds = netCDF4.Dataset(f'x{len(shape)}.nc', 'w', diskless=True, persist=False)
        names = []
        for i, n in enumerate(shape):
            ds.createDimension(DIMS[i], n)
            names.append(DIMS[i])
        v = ds.createVariable('v', 'f8', names)
        v[:] = array(shape)
        _STORE[shape] = (ds, v)
    return _STORE[shape][1]


SOURCES = {
    'array': lambda s: array(s),
    'list': lambda s: array(s).tolist(),
    'ints': lambda s: (array(s) * 4).astype(int),
    'disk': disk,
}
REAL = {k: (lambda s: array(s) * 4) if k == 'ints' else (lambda s: array(s)) for k in SOURCES}


def make(kind, source, shape, unit):
    data = SOURCES[source](shape)
    if kind == 'variable':
        return variable.Quantity(data, dimensions=DIMS[:len(shape)], unit=unit)
    return physical.Array(data, unit=unit, name='v')


class Model:
    def __init__(self, kind, values, dims, names):
        self.kind = kind
        self.values = values    # SI amounts
        self.dims = dims        # physical dimension
        self.names = names      # axis names (variables) or the name (arrays)


def terms(unit):
    return [(t.base, F(t.exponent).limit_denominator(100)) for t in unit if t.base != '1']


def same(a, b):
    a, b = numpy.asarray(a, dtype=float), numpy.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with numpy.errstate(all='ignore'):
        ok = (a == b) | (numpy.isnan(a) & numpy.isnan(b)) | (abs(a - b) <= 1e-9 * numpy.maximum(abs(a), abs(b)))
    return bool(numpy.all(ok))


def look(q, m, what, obs):
    """Every public view of an array quantity against the model."""
    if isinstance(q, physical.Scalar):
        if m.kind != 'physical' or m.values.ndim:
            raise Violation(f"{what} is a scalar, expected an array of shape {m.values.shape}")
        values = numpy.asarray(float(q))
    else:
        want = variable.Quantity if m.kind == 'variable' else physical.Array
        if type(q) is not want:
            raise Violation(f"{what} is a {type(q).__name__}, expected a {want.__name__}")
        values = numpy.array(q)
        if tuple(q.shape) != m.values.shape or q.ndim != m.values.ndim:
            raise Violation(f"{what} has shape {q.shape} and {q.ndim} dimensions, expected {m.values.shape}")
        if m.values.ndim and len(q) != m.values.shape[0]:
            raise Violation(f"{what} has length {len(q)}, expected {m.values.shape[0]}")
    f, v = U.meaning(terms(q.unit))
    obs.step((what, str(q.unit), tuple(round_sig(float(x)) for x in numpy.ravel(values)[:6])))
    if v != m.dims:
        raise Violation(f"{what} has the unit {q.unit}: dimension {v}, expected {m.dims}")
    if not same(values * f, m.values):
        raise Violation(f"{what} is {values.tolist()} {q.unit}: in SI {(values * f).tolist()}, expected {m.values.tolist()}")
    if m.kind == 'variable':
        if tuple(q.dimensions) != m.names:
            raise Violation(f"{what} has the dimensions {q.dimensions}, expected {m.names}")
        if dict(q.shape_dict) != dict(zip(m.names, m.values.shape)):
            raise Violation(f"{what} has the shape_dict {q.shape_dict}")
    elif m.names is not None and set(q.name) != {m.names}:
        raise Violation(f"{what} has the name {q.name}, expected {m.names}")
    if values.ndim == 1:
        got = measurable.measure(q)
        if not same(got.data, values) or got.unit != q.unit:
            raise Violation(f"{what}: measuring it gives {got}, not {values.tolist()} {q.unit}")


# -- subscripts ---------------------------------------------------------------

def decode(i):
    """A subscript from its JSON form."""
    if i == '...':
        return Ellipsis
    if isinstance(i, dict):
        if 's' in i:
            return slice(*i['s'])
        if 'np' in i:
            return numpy.int64(i['np'])
        if 'arr' in i:
            return numpy.array(i['arr'])
        return range(*i['range'])
    return i


def expected(values, kind, index):
    """What the subscript must give (None: not explored)."""
    idx = [decode(i) for i in index]
    if Ellipsis in [i for i in idx if not isinstance(i, numpy.ndarray)]:
        k = [i is Ellipsis for i in idx].index(True)
        idx[k:k + 1] = [slice(None)] * (values.ndim - len(idx) + 1)
    idx += [slice(None)] * (values.ndim - len(idx))
    custom = any(isinstance(i, (list, range, numpy.ndarray)) for i in idx)
    out = values
    axis = 0
    for i in idx:
        n = out.shape[axis]
        if isinstance(i, (int, numpy.integer)):
            if kind == 'physical':
                if custom:
                    return None
                out = numpy.take(out, int(i), axis=axis)
                continue
            out = numpy.take(out, [int(i)], axis=axis)
        elif isinstance(i, slice):
            out = numpy.take(out, list(range(n))[i], axis=axis)
        else:
            out = numpy.take(out, [int(k) for k in i], axis=axis)
        axis += 1
    return out


def subscript(q, index):
    idx = tuple(decode(i) for i in index)
    return q[idx[0]] if len(idx) == 1 else q[idx]


def S(*a):
    return {'s': list(a)}


FULL = [0, 1, -1, S(None), S(1, None), S(None, 2), S(None, None, 2), S(None, None, -1), S(-2, None), S(0, 9), S(1, 1), [0, 1], [1, 0, 1], [-1, 0],
        {'np': 1}, {'arr': [0, 1]}, {'range': [0, 2]}]
SOME = [0, -1, S(None), S(1, 2), S(None, None, -1), S(-2, None), [0, 1], {'np': 1}]


def index_cases(tier):
    def with_ellipsis(t):
        yield t
        for k in range(len(t) + 1):
            yield t[:k] + ('...',) + t[k:]
    for kind, source in itertools.product(('variable', 'physical'), SOURCES):
        for shape, options in (('1', FULL), ('2', FULL), ('3', SOME if tier == 'quick' else FULL[:13])):
            if source in ('list', 'ints') and shape == '3':
                continue
            ndim = int(shape)
            for n in range(1, ndim + 1):
                for t in itertools.product(options, repeat=n):
                    for idx in with_ellipsis(t):
                        yield kind, source, shape, list(idx)


def check_index(case, obs):
    kind, source, shape, index = case
    s = SHAPES[shape]
    if kind == 'physical' and len([i for i in index if i != '...']) == 1 and isinstance(index[0], list) and len(index[0]) == 1:
        return
    q = make(kind, source, s, 'km')
    real = REAL[source](s) * 1e3
    want = expected(real, kind, index)
    if want is None:
        return
    names = DIMS[:len(s)] if kind == 'variable' else 'v'
    what = f"{kind}({source} {s})[{index}]"
    got = subscript(q, index)
    look(got, Model(kind, want, {'L': 1}, names), what, obs)
    # the same after a conversion, after reading, and the other way round
    look(subscript(q['m'], index), Model(kind, want, {'L': 1}, names), f"{kind}({source} {s})['m'][{index}]", obs)
    if numpy.ndim(want):
        look(got['m'], Model(kind, want, {'L': 1}, names), f"{what}['m']", obs)
    numpy.array(q)
    look(subscript(q, index), Model(kind, want, {'L': 1}, names), f"{what} after reading", obs)
    look(q, Model(kind, real, {'L': 1}, names), f"{kind}({source} {s}) after subscripting by {index}", obs)


# -- sequences ----------------------------------------------------------------

OPS = {
    'cm': 'unit', 'km': 'unit', 'au': 'unit', 'cgs': 'unit', 'MKS': 'unit',
    'first': [0], 'last': ['...', -1], 'part': [S(1, None)], 'rev': [S(None, None, -1)], 'pick': [[1, 0]],
    'copy': None, 'copy twice': None, 'mul': None, 'div': None, 'neg': None, 'square': None, 'root': None, 'double': None, 'minus': None, 'times': None, 'ratio': None, 'rmul': None,
}


def vmul(v, n):
    return {k: e * F(n) for k, e in v.items() if e * F(n)}


def cm(unit, size):
    """Convert to a unit of the right dimension for the current power of length."""
    return f"{unit}^{size}" if size != 1 else unit


def step(q, m, op):
    """Apply one operation to the code and to the model."""
    v = m.values
    what = OPS[op]
    if what == 'unit':
        power = m.dims.get('L', F(0))
        if op in ('cgs', 'MKS'):
            if not power:
                return None
            return q[op], m
        if power not in (1, 2, 4, F(1, 2), -1, -2):
            return None
        text = op if power == 1 else f"{op}^{power}"
        return q[text], m
    if isinstance(what, list):
        if v.ndim == 0 or 0 in v.shape or op == 'pick' and v.shape[0] < 2:
            return None
        return subscript(q, what), Model(m.kind, expected(v, m.kind, what), m.dims, m.names)
    lost = m.names if m.kind == 'variable' else None
    M = lambda values, power: Model(m.kind, values, vmul(m.dims, power), lost)
    with numpy.errstate(all='ignore'):
        if op == 'copy':
            return type(q)(q), m
        if op == 'copy twice':
            return type(q)(type(q)(q)), m
        if op == 'mul':
            return q * 3, M(v * 3, 1)
        if op == 'rmul':
            return 2.5 * q, M(v * 2.5, 1)
        if op == 'div':
            return q / 4, M(v / 4, 1)
        if op == 'neg':
            return -q, M(-v, 1)
        if op == 'square':
            return q ** 2, M(v ** 2, 2)
        if op == 'root':
            if numpy.any(v < 0):
                return None
            return q ** 0.5, M(v ** 0.5, F(1, 2))
        if op == 'double':
            return q + q, M(v + v, 1)
        if op == 'minus':
            return q - q, M(v - v, 1)
        if op == 'times':
            return q * q, M(v * v, 2)
        if op == 'ratio':
            return q / q, M(v / v, 0)
    raise KeyError(op)


SHORT = ['cm', 'MKS', 'last', 'part', 'pick', 'copy', 'mul', 'square', 'double']


def sequence_cases(tier):
    configs = [(k, s, n) for k in ('variable', 'physical') for s in SOURCES for n in ('1', '2')]
    for kind, source, shape in configs:
        for read in ('each', 'end'):
            for ops in itertools.product(OPS, repeat=2):
                yield kind, source, shape, read, list(ops)
    for kind, source in itertools.product(('variable', 'physical'), ('array', 'disk')):
        for read in ('each', 'end'):
            for ops in itertools.product(SHORT if tier == 'quick' else OPS, repeat=3):
                yield kind, source, '2', read, list(ops)
            if tier == 'thorough':
                for ops in itertools.product(SHORT, repeat=4):
                    yield kind, source, '2', read, list(ops)


def check_sequence(case, obs):
    kind, source, shape, read, ops = case
    s = SHAPES[shape]
    q = make(kind, source, s, 'm')
    m = Model(kind, REAL[source](s), {'L': F(1)}, DIMS[:len(s)] if kind == 'variable' else 'v')
    trail = f"{kind}({source} {s})"
    history = [(q, m, trail)]
    for op in ops:
        if isinstance(q, physical.Scalar):
            break
        with numpy.errstate(all='ignore'):
            done = step(q, m, op)
        if done is None:
            break
        q, m = done
        trail += f" {op}"
        history.append((q, m, trail))
        if read == 'each':
            look(q, m, trail, obs)
    # every quantity of the history is what it was, read in the opposite order
    for q, m, what in reversed(history):
        look(q, m, what + f" (at the end of {ops})", obs)


# -- refusals -----------------------------------------------------------------

def refusal_cases(tier):
    for kind, source in itertools.product(('variable', 'physical'), SOURCES):
        for read in (False, True):
            for bad in ('unit', 'junk', 'add', 'sub', 'addscale', 'lt', 'number', 'rnumber', 'rdiv', 'power', 'rpower', 'listpower', 'index', 'index2', 'ndim', 'order', 'orderscale'):
                yield kind, source, read, bad


def check_refusal(case, obs):
    kind, source, read, bad = case
    s = SHAPES['2']
    q = make(kind, source, s, 'km')
    o = make(kind, 'array', s, 's')
    p = make(kind, 'array', s, 'm')
    m = Model(kind, REAL[source](s) * 1e3, {'L': 1}, DIMS[:2] if kind == 'variable' else 'v')
    if read:
        numpy.array(q)
    calls = {
        'unit': lambda: q['J'], 'junk': lambda: q['nonesuch'], 'add': lambda: q + o, 'sub': lambda: q - o, 'addscale': lambda: q + p, 'lt': lambda: q < o,
        'number': lambda: q + 1, 'rnumber': lambda: 1 - q, 'rdiv': lambda: 2 / q, 'power': lambda: q ** q, 'rpower': lambda: 2 ** q, 'listpower': lambda: q ** [1, 2, 3, 4],
        'index': lambda: q[7], 'index2': lambda: q[:, 9], 'ndim': lambda: q[0, 0, 0], 'order': lambda: q >= o, 'orderscale': lambda: q < p,
    }
    try:
        with numpy.errstate(all='ignore'):
            got = calls[bad]()
    except (ValueError, TypeError, IndexError, metadata.UnitError, metadata.OperandTypeError, metadata.MetadataError,
            metric.UnitParsingError, metric.UnitConversionError) as err:
        obs.step((kind, source, bad, type(err).__name__))
    else:
        raise Violation(f"{kind}({source}) in km: {bad} gives {got!r} instead of an error")
    look(q, m, f"{kind}({source}) after a refused {bad}", obs)


# -- equality and order -------------------------------------------------------

def equality_cases(tier):
    changes = ['same', 'copy', 'value', 'unit', 'converted', 'dims', 'order', 'shape', 'there and back']
    for kind, source in itertools.product(('variable', 'physical'), SOURCES):
        for change in changes:
            yield kind, source, change


def check_equality(case, obs):
    kind, source, change = case
    s = SHAPES['2']
    q = make(kind, source, s, 'km')
    base = REAL[source](s)
    if kind == 'variable':
        new = lambda values, unit='km', dims=DIMS[:2]: variable.Quantity(values, dimensions=dims, unit=unit)
    else:
        new = lambda values, unit='km', dims=None: physical.Array(values, unit=unit, name='v')
    if change == 'same':
        other, want = new(base.copy()), True
    elif change == 'copy':
        other, want = type(q)(q), True
    elif change == 'value':
        b = base.copy()
        b[-1, -1] += 1
        other, want = new(b), False
    elif change == 'unit':
        other, want = new(base, 'm'), False
    elif change == 'converted':
        other, want = q['m'], False
    elif change == 'there and back':
        other = q['m']['km']
        got = numpy.array(other)
        if not same(got, base):
            raise Violation(f"{kind}({source}) in km, to m and back, is {got.tolist()}")
        obs.step((case, 'back'))
        return
    elif change == 'dims':
        if kind == 'physical':
            return
        other, want = new(base, dims=('time', 'species')), False
    elif change == 'order':
        if kind == 'physical':
            return
        b = base[:3, :3]
        q = new(b)
        other, want = new(b, dims=DIMS[:2][::-1]), False
    else:
        other, want = new(base[:2]), False
    for a, b in ((q, other), (other, q)):
        got = a == b
        obs.step((case, bool(got)))
        if bool(got) is not want:
            raise Violation(f"{kind}({source}): equality under '{change}' is {got}, expected {want}")
    if change == 'same':
        vals = base
        mid = float(vals[1, 1])
        for name in ('lt', 'le', 'gt', 'ge'):
            f = getattr(operator, name)
            for rhs, ref in ((mid, mid), (new(vals[::-1].copy()), vals[::-1])):
                got = numpy.asarray(f(q, rhs))
                if got.shape != vals.shape or not numpy.array_equal(got, f(vals, ref)):
                    raise Violation(f"{kind}({source}) {name} {rhs!r} is {got.tolist()}")
                obs.step((case, name, got.tobytes()))


def alike_cases(tier):
    return [[kind, source, a, b] for kind in ('variable', 'array') for source in SOURCES for group in U.ALIKE for a in group for b in group
            if tier == 'thorough' or source in list(SOURCES)[:2]]


def check_alike(case, obs):
    """Units whose symbols differ by little are still different units."""
    kind, source, a, b = case
    factor = U.meaning(U.parts(a))[0] / U.meaning(U.parts(b))[0]
    v = make(kind, source, (3,), a)
    base = numpy.array(make(kind, source, (3,), a))
    got = v[b]
    obs.step((kind, source, a, b))
    if not numpy.allclose(numpy.array(got), base * factor, rtol=1e-9, atol=0.0):
        raise Violation(f'{kind} of {base} {a} in {b} is {numpy.array(got)}, expected it times {factor}')
    if metric.Unit(str(got.unit)) != metric.Unit(b):
        raise Violation(f'{kind} in {a} converted to {b} has the unit {got.unit}')
    if not numpy.allclose(numpy.array(got[a]), base, rtol=1e-9, atol=0.0):
        raise Violation(f'{kind} of {base} {a} in {b} and back is {numpy.array(got[a])}')
    if (v == make(kind, source, (3,), b)) != (abs(factor - 1) < 1e-9):
        raise Violation(f'{kind}: the same numbers in {a} and in {b} are equal')


def spaces(tier):
    return [
        Space('subscripts', index_cases, check_index, 'all tuples of subscripts (17 kinds per axis; 8 in three dimensions in quick) with an ellipsis anywhere, 4 sources, 2 classes; before and after conversion and reading'),
        Space('sequences', sequence_cases, check_sequence, 'all sequences of 2 of 22 operations, of 3 of 9 (22 thorough), of 4 of 9 (thorough); every object of the history looked at each step or only at the end'),
        Space('units that look alike', alike_cases, check_alike, f'all pairs in {len(U.ALIKE)} groups of 6 to 16 units, 2 classes, 2 sources (4 thorough)'),
        Space('refusals', refusal_cases, check_refusal, '17 refused operations x 4 sources x 2 classes, before and after reading'),
        Space('equality', equality_cases, check_equality, '9 relations x 4 sources x 2 classes; the four orderings'),
    ]
