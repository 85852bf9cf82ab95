"""P11: variables combine by the names of their dimensions."""
import itertools
import operator

import numpy

from mc import names, units as U
from mc.core import Space, Violation
from mc.props import p10
from mc.props.p10 import same, terms

from goats.core import metadata
from goats.core import variable

ASSUMPTIONS = [
    'amounts compared with relative tolerance 1e-9; the model assigns a value to every combination of coordinates, without array broadcasting',
    'an axis of length one combines with a longer one as in numpy; other differences in length must be refused',
    'operations whose result has no dimensions give plain numbers, as documented, and are not explored',
]

SIZES = {'a': 2, 'b': 3, 'c': 2}
PRIMES = {'a': 0.5, 'b': 10.0, 'c': 300.0}
TUPLES = [t for n in range(4) for t in itertools.permutations('abc', n)]
OPS = {'mul': operator.mul, 'div': operator.truediv, 'add': operator.add, 'sub': operator.sub}
INPLACE = {'mul': operator.imul, 'div': operator.itruediv, 'add': operator.iadd, 'sub': operator.isub}
REFUSALS = (ValueError, TypeError, metadata.UnitError, metadata.MetadataError, metadata.OperandTypeError)


class Model:
    """A value for each combination of named coordinates."""

    def __init__(self, dims, sizes, values, unit):
        self.dims = tuple(dims)
        self.sizes = dict(sizes)
        self.values = values    # {coordinates (in the order of dims): SI value}
        self.unit = unit        # physical dimension vector

    def at(self, where):
        return self.values[tuple(0 if self.sizes[d] == 1 else where[d] for d in self.dims)]

    def array(self):
        shape = tuple(self.sizes[d] for d in self.dims)
        out = numpy.empty(shape)
        for c in itertools.product(*map(range, shape)):
            out[c] = self.values[c]
        return out


def build(dims, sizes, seed, size):
    values = {}
    for c in itertools.product(*[range(sizes[d]) for d in dims]):
        values[c] = (seed + sum(PRIMES[d] * i for d, i in zip(dims, c))) * size
    return values


def make(dims, unit, seed, sizes=SIZES, how='array'):
    """A variable and its model."""
    f, v = U.meaning({'m': [('m', 1)], 's': [('s', 1)], 'km': [('km', 1)], '1': []}[unit])
    m = Model(dims, {d: sizes[d] for d in dims}, build(dims, sizes, seed, f), v)
    raw = m.array() / f
    if how == 'list':
        raw = raw.tolist()
    elif how == 'fortran' and raw.ndim:
        raw = numpy.asfortranarray(raw)
    elif how == 'strided':
        raw = numpy.repeat(raw, 2, axis=-1)[..., ::2] if raw.ndim else raw
    return variable.Quantity(raw, dimensions=dims, unit=unit), m


def vmul(v, w, sign):
    out = dict(v)
    for k, n in w.items():
        out[k] = out.get(k, 0) + sign * n
    return {k: n for k, n in out.items() if n}


def combine(a, b, op):
    """The model's product or quotient (None: the sizes do not agree)."""
    dims = list(a.dims) + [d for d in b.dims if d not in a.dims]
    sizes = {}
    for d in dims:
        found = {m.sizes[d] for m in (a, b) if d in m.sizes} - {1}
        if len(found) > 1:
            return None
        sizes[d] = found.pop() if found else 1
    values = {}
    for c in itertools.product(*[range(sizes[d]) for d in dims]):
        where = dict(zip(dims, c))
        values[c] = OPS[op](a.at(where), b.at(where))
    return Model(dims, sizes, values, vmul(a.unit, b.unit, 1 if op == 'mul' else -1))


def look(q, m, what, obs):
    if type(q) is not variable.Quantity:
        raise Violation(f"{what} is a {type(q).__name__}")
    if tuple(q.dimensions) != m.dims:
        raise Violation(f"{what} has the dimensions {q.dimensions}, expected {m.dims}")
    f, v = U.meaning(terms(q.unit))
    got = numpy.array(q) * f
    obs.step((what, got.shape, str(q.unit), numpy.round(got, 6).tobytes()))
    if v != m.unit:
        raise Violation(f"{what} has the unit {q.unit}: {v}, expected {m.unit}")
    want = m.array()
    if tuple(q.shape) != want.shape or not same(got, want):
        raise Violation(f"{what} is {got.tolist()} in SI, expected {want.tolist()}")
    if dict(q.shape_dict) != m.sizes:
        raise Violation(f"{what} has the shape_dict {q.shape_dict}, expected {m.sizes}")


def attempt(f):
    try:
        return f()
    except REFUSALS as err:
        return err


# -- pairs --------------------------------------------------------------------

def pair_cases(tier):
    hows = ['array', 'list', 'fortran', 'strided']
    for t, u in itertools.product(TUPLES, repeat=2):
        if not t and not u:
            continue
        for op in ('mul', 'div'):
            for how in hows if tier == 'thorough' else hows[::2]:
                for units in (('m', 's'), ('km', 'm')):
                    yield t, u, op, how, units, 'plain'
            yield t, u, op, 'array', ('m', 's'), 'converted'
            yield t, u, op, 'array', ('m', 's'), 'inplace'


def check_pair(case, obs):
    t, u, op, how, units, mode = case
    q, m = make(t, units[0], 2.0, how=how)
    r, n = make(u, units[1], 7.0, how=how)
    if mode == 'converted':
        q = q['cm']
        r = r['h']
    want = combine(m, n, op)
    what = f"{units[0]}{t} {op} {units[1]}{u} ({how}, {mode})"
    old = q
    if mode == 'inplace' and (not t or set(u) - set(t)):
        got = attempt(lambda: INPLACE[op](q, r))    # the result does not fit into the target
        if not isinstance(got, Exception):
            look(got, want, what, obs)
    else:
        got = (INPLACE if mode == 'inplace' else OPS)[op](q, r)
        look(got, want, what, obs)
    if mode != 'inplace' or isinstance(got, Exception):
        look(old, m, f"the left operand of {what}", obs)
    look(r, n, f"the right operand of {what}", obs)


# -- sums ---------------------------------------------------------------------

def sum_cases(tier):
    for t, u in itertools.product(TUPLES, repeat=2):
        if not t and not u:
            continue
        for op in ('add', 'sub'):
            for units in (('m', 'm'), ('m', 'km'), ('m', 's')):
                for mode in ('plain', 'inplace'):
                    for sizes in ({'a': 2, 'b': 3, 'c': 2}, {'a': 2, 'b': 2, 'c': 2}):
                        yield t, u, op, units, mode, sizes


def check_sum(case, obs):
    t, u, op, units, mode, sizes = case
    q, m = make(t, units[0], 2.0, sizes)
    r, n = make(u, units[1], 7.0, sizes)
    what = f"{units[0]}{t} {op} {units[1]}{u} with sizes {sizes}"
    old = q
    got = attempt(lambda: (INPLACE if mode == 'inplace' else OPS)[op](q, r))
    fits = tuple(t) == tuple(u) and units[0] == units[1]
    if isinstance(got, Exception):
        if fits:
            raise Violation(f"{what} is refused: {got!r}")
        obs.step((what, 'refused', type(got).__name__))
    else:
        if not fits:
            raise Violation(f"{what} is {got!r}: quantities that do not agree in dimensions and unit were combined")
        values = {c: OPS[op](m.values[c], n.values[c]) for c in m.values}
        look(got, Model(t, m.sizes, values, m.unit), what, obs)
    if mode != 'inplace' or isinstance(got, Exception):
        look(old, m, f"the left operand of {what}", obs)
    look(r, n, f"the right operand of {what}", obs)


# -- sizes --------------------------------------------------------------------

def size_cases(tier):
    options = [1, 2, 3] if tier == 'quick' else [1, 2, 3, 4]
    for t, u in itertools.product([x for x in TUPLES if 0 < len(x) <= 2], repeat=2):
        shared = [d for d in t if d in u]
        if not shared:
            continue
        for st in itertools.product(options, repeat=len(t)):
            for su in itertools.product(options, repeat=len(u)):
                for op in ('mul', 'div'):
                    yield t, u, list(st), list(su), op


def check_size(case, obs):
    t, u, st, su, op = case
    q, m = make(t, 'm', 2.0, dict(zip(t, st)))
    r, n = make(u, 's', 7.0, dict(zip(u, su)))
    want = combine(m, n, op)
    what = f"{t}{st} {op} {u}{su}"
    got = attempt(lambda: OPS[op](q, r))
    if want is None:
        if not isinstance(got, (ValueError, IndexError)):
            raise Violation(f"{what} is {got!r}, but axes of the same name have different lengths")
        obs.step((what, 'refused'))
    elif isinstance(got, Exception):
        if 1 in st + su and any(dict(zip(t, st)).get(d, n) != n for d, n in zip(u, su)):
            obs.step((what, 'refused'))     # stretching an axis of length one may be refused, never done wrongly
            return
        raise Violation(f"{what} is refused: {got!r}")
    else:
        look(got, want, what, obs)


# -- chains -------------------------------------------------------------------

def chain_cases(tier):
    some = [t for t in TUPLES if len(t) in (0, 1, 2)] if tier == 'quick' else TUPLES
    for t, u, w in itertools.product(some, repeat=3):
        if not (t or u) or not (u or w):
            continue
        for ops in itertools.product(('mul', 'div'), repeat=2):
            for group in ('left', 'right'):
                yield t, u, w, list(ops), group


def check_chain(case, obs):
    t, u, w, ops, group = case
    (q, m), (r, n), (s, k) = make(t, 'm', 2.0), make(u, 's', 7.0), make(w, 'm', 11.0)
    what = f"{t} {ops[0]} {u} {ops[1]} {w} ({group})"
    if group == 'left':
        got = OPS[ops[1]](OPS[ops[0]](q, r), s)
        want = combine(combine(m, n, ops[0]), k, ops[1])
    else:
        got = OPS[ops[0]](q, OPS[ops[1]](r, s))
        want = combine(m, combine(n, k, ops[1]), ops[0])
    look(got, want, what, obs)


# -- reductions ---------------------------------------------------------------

def reduction_cases(tier):
    sizes = [1, 2] if tier == 'quick' else [1, 2, 3]
    for t in TUPLES:
        for st in itertools.product(sizes, repeat=len(t)):
            n = len(t)
            axes = [None] + list(range(-n, n)) + [list(x) for k in (1, 2, 3) for x in itertools.permutations(range(n), k)]
            for axis in axes:
                for how in ('keyword', 'position'):
                    for unit in ('m', 'converted'):
                        yield t, list(st), axis, how, unit


def check_reduction(case, obs):
    t, st, axis, how, unit = case
    q, m = make(t, 'm', 2.0, dict(zip(t, st)))
    if unit == 'converted':
        q = q['km']
    n = len(t)
    ax = tuple(axis) if isinstance(axis, (list, tuple)) else axis
    dropped = set(range(n)) if ax is None else {i % n for i in (ax if isinstance(ax, tuple) else (ax,))}
    call = (lambda f: f(q, axis=ax)) if how == 'keyword' else (lambda f: f(q, ax))
    what = f"{t}{st} in {q.unit}, axis {axis}"
    # the mean
    groups = {}
    for c, v in m.values.items():
        groups.setdefault(tuple(x for i, x in enumerate(c) if i not in dropped), []).append(v)
    values = {c: sum(v) / len(v) for c, v in groups.items()}
    keep = [d for i, d in enumerate(t) if i not in dropped]
    got = call(numpy.mean)
    want = Model(keep, {d: m.sizes[d] for d in keep}, values, m.unit)
    if ax is None:
        f = U.meaning(terms(q.unit))[0]
        if not same(numpy.asarray(got) * f, values[()]):
            raise Violation(f"the mean of {what} is {got}, expected {values[()] / f}")
        obs.step((what, float(numpy.asarray(got))))
    else:
        look(got, want, f"the mean of {what}", obs)
        if how == 'keyword':
            kept = numpy.mean(q, axis=ax, keepdims=True)
            sizes = {d: 1 if i in dropped else m.sizes[d] for i, d in enumerate(t)}
            vals = {tuple(0 if i in dropped else x for i, x in enumerate(c)): values[tuple(x for i, x in enumerate(c) if i not in dropped)] for c in m.values}
            look(kept, Model(t, sizes, vals, m.unit), f"the mean of {what}, keeping dimensions", obs)
    # squeezing
    ones = {i for i, s in enumerate(st) if s == 1}
    gone = ones if ax is None else dropped
    if gone <= ones:
        got = call(numpy.squeeze)
        keep = [d for i, d in enumerate(t) if i not in gone]
        vals = {tuple(x for i, x in enumerate(c) if i not in gone): v for c, v in m.values.items()}
        look(got, Model(keep, {d: m.sizes[d] for d in keep}, vals, m.unit), f"squeezing {what}", obs)
    else:
        got = attempt(lambda: call(numpy.squeeze))
        if not isinstance(got, Exception):
            raise Violation(f"squeezing {what} is {got!r}, but the axis is longer than one")
        obs.step((what, 'refused'))
    look(q, m, f"{what} after the reductions", obs)


def spaces(tier):
    return [
        Space('pairs', pair_cases, check_pair, 'all pairs of the 16 tuples of distinct dimensions from 3 names, products and quotients, 2 (4) memory layouts, converted, in place'),
        Space('sums', sum_cases, check_sum, 'all pairs of the 16 tuples, sums and differences, 3 pairs of units, 2 assignments of sizes, in place'),
        Space('sizes', size_cases, check_size, 'all pairs of 9 tuples that share a name, all sizes 1-3 (4)'),
        Space('chains', chain_cases, check_chain, 'all chains of three of the 10 (16) tuples, both groupings'),
        Space('reductions', reduction_cases, check_reduction, 'means and squeezes of all tuples with sizes 1-2 (3) along every axis, tuple of axes, and none'),
        Space('names', names.cases, names.check(metadata.Dimensions, True), 'all pairs and triples of the 16 tuples of distinct names: construction, operators, equality, hashing'),
    ]
