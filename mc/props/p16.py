"""P16: symbolic compositions of observable quantities."""
import itertools
import math
from fractions import Fraction

import numpy

from mc import fixture, names, units
from mc.core import Space, Violation
from mc.props import p13, p15

from goats.core import observing

ASSUMPTIONS = [
    'the values and units of single quantities are those of P13 and P15; this property is about their compositions',
    'composed names are single words joined by *, /, ^ and parentheses; numeric coefficients, powers of a lone name, and ratios of a quantity to itself are refused by the code and not claimed',
    'compositions of electromagnetic quantities are not converted between metric systems (Gaussian units of such products do not determine the SI unit)',
    'the order of the dimensions of a composition is not claimed, only that values and dimensions agree',
]

DATASETS = ('base', 'shared', 'square', 'tall')
ORDER = ('time', 'shell', 'species', 'energy', 'mu', 'minimum energy')

# name: (kind, key in the model, dimensions)
FILE = {'R': 'R', 'Br': 'Br', 'Vr': 'Vr', 'Rho': 'Rho', 'Dist': 'Dist', 'mu': 'mu', 'energy': 'egrid', 'time': 'time', 'mass': 'mass', 'charge': 'charge', 'P': 'P'}
MADE = {'mfp': 'mfp', 'V': 'V', 'x': 'x', 'rigidity': 'rigidity', 'flux': 'flux', 'fluence': 'fluence', 'integral_flux': 'integral_flux', 'isodist': 'isodist', 'density_ratio': 'density_ratio', 'div_v': 'div_v'}
POSITIVE = ('R', 'Rho', 'mfp', 'V', 'flux', 'energy', 'mass')


def dims_of(ds, name):
    if name in FILE:
        d = fixture.FILE[FILE[name]][0]
        return ('energy',) if ds.shared and name == 'energy' else d
    return p15.QUANTITIES[MADE[name]][1]


def unit_of(name, system):
    if name in FILE:
        return fixture.NORMAL[FILE[name]][system]
    return [(p15.CGS.get(u, u) if system == 'cgs' else u, e) for u, e in p15.UNITS[MADE[name]]]


def factor_of(name, system):
    """From SI to the system."""
    if system == 'mks':
        return 1.0
    if name not in FILE:
        return p15.QUANTITIES[MADE[name]][2]
    a = units.meaning(fixture.NORMAL[FILE[name]]['mks'], 'G')
    b = units.meaning(fixture.NORMAL[FILE[name]]['cgs'], 'G')
    return float(a[0]) / float(b[0])


class Model:
    """A product of powers of quantities of a dataset."""

    def __init__(self, ds, parts, parameters, system):
        self.parts = parts
        self.ds = ds
        p = p15.Physics(ds, parameters)
        self.fs = []
        for name, e in parts:
            self.fs.append((self.single(p, name), float(e)))
        self.factor = 1.0
        for name, e in parts:
            self.factor *= factor_of(name, system) ** float(e)
        used = {d for name, _ in parts for d in dims_of(ds, name)}
        self.dims = tuple(d for d in ORDER if d in used)
        terms = {}
        for name, e in parts:
            for u, f in unit_of(name, system):
                terms[u] = terms.get(u, 0) + f * e
        self.unit = [(u, f) for u, f in terms.items() if f]
        self.memo = {}

    @staticmethod
    def single(p, name):
        if name in FILE:
            v = p.v[FILE[name]]
            return lambda i, j, k, l, n: v(i, j, k, l, n)
        f = getattr(p, MADE[name])
        if name == 'fluence':
            return lambda i, j, k, l, n: f(0, j, k, l, n)
        return lambda i, j, k, l, n: f(i, j, k, l, n)

    def full(self, i, j, k, l, n):
        key = i, j, k, l, n
        if key not in self.memo:
            v = self.factor
            for f, e in self.fs:
                v *= f(i, j, k, l, n) ** e
            self.memo[key] = v
        return self.memo[key]


def compare(where, got, model, select, ratio=1.0):
    dims = tuple(got.dimensions)
    if set(dims) != set(model.dims) or len(dims) != len(model.dims):
        raise Violation(f"{where}: dimensions are {dims}, not {model.dims}")
    values = numpy.array(got.data)
    shape = select.shape(dims)
    if values.shape != shape or tuple(got.data.shape) != shape:
        raise Violation(f"{where}: the shape is {values.shape}, not {shape} along {dims}")
    order = [dims.index(d) for d in model.dims]
    flat = [float(v) for v in values.transpose(order).ravel()]
    want = [v * ratio for v in select.apply(model.dims, model.full)]
    scale = max(abs(v) for v in want)
    for p, (a, b) in enumerate(zip(flat, want)):
        if not abs(a - b) <= 1e-8 * abs(b) + 1e-12 * scale:
            at = dict(zip(model.dims, map(int, numpy.unravel_index(p, [shape[o] for o in order]))))
            raise Violation(f"{where}: the value at {at} is {a!r}, not {b!r}")
    array = numpy.array(got.array)
    if array.shape != tuple(n for n in shape if n != 1):
        raise Violation(f"{where}: .array has shape {array.shape}; the data have {shape}")


PARAMETERS = {**p15.CONFIGS['plain'][1], 'minimum_energy': 0.0}


_streams = {}


def stream(name, system):
    if (name, system) not in _streams:
        _streams[name, system] = p15.stream(name, 'plain', system)
    return _streams[name, system]


def check_unit(where, unit, want, system):
    here = 'SI' if system == 'mks' else 'G'
    try:
        f, v = units.meaning(p13.terms_of(unit), here)
    except (KeyError, ValueError):
        return p13.check_unit(where, unit, want)
    g, w = units.meaning(want, here)
    if v != w or not math.isclose(f, g, rel_tol=1e-9):
        raise Violation(f"{where}: the unit is {str(unit)!r}, not {units.text(want)!r}")


def observe(where, s, text, kw, target=None):
    try:
        q = s[text]
        if target:
            q = q[target]
        return q, q.observe(**kw)
    except Exception as err:
        raise Violation(f"{where}: {type(err).__name__}: {err}")


def one(s, name, system, text, parts, obs, given=None, parameters=None, extra=None):
    ds = p15.scratch(name).ds
    model = Model(ds, parts, {**PARAMETERS, **(parameters or {})}, system)
    given = given or {}
    select = p15.Select(ds, {a: p13.meant(a, c, ds) for a, c in given.items()})
    if not select.inside([d for d in model.dims if d in fixture.AXES]):
        return
    where = f"{text!r} of dataset {name!r} in {system}, {given} {extra or {}}"
    kw = {a: p13.user(a, c, system) for a, c in given.items()}
    q, got = observe(where, s, text, {**kw, **(extra or {})})
    check_unit(where + ' (quantity)', q.unit, model.unit, system)
    check_unit(where + ' (observation)', got.unit, model.unit, system)
    if tuple(q.dimensions) != tuple(got.dimensions):
        raise Violation(f"{where}: the quantity has dimensions {q.dimensions}; its observation has {got.dimensions}")
    compare(where, got, model, select)
    # what the result depends on is what its parts depend on
    singles = [s[n] for n, _ in parts]
    want = {p for x in singles for p in x.parameters}
    if set(q.parameters) != want or len(list(q.parameters)) != len(want):
        raise Violation(f"{where}: parameters are {list(q.parameters)}, not {sorted(want)}")
    want = {p for n, _ in parts if n in MADE for p in p15.QUANTITIES[MADE[n]][3]}
    if set(got.parameters) != want:
        raise Violation(f"{where}: the observation's parameters are {got.parameters}, not {sorted(want)}")
    for p in want:
        if p in got.parameters:
            got[p]
    obs.step((text, repr(given)))


# ---------------------------------------------------------------- pairs
NAMES = [*FILE, *MADE]
PAIRS = {
    'A * B': (1, 1), 'A/B': (1, -1), 'A^2 * B': (2, 1), 'A / B^2': (1, -2), 'A^-1 * B^3': (-1, 3), 'A^1/2 * B': (Fraction(1, 2), 1), 'A / B^3/2': (1, Fraction(-3, 2)),
    '(A*B)^2 / B': (2, 1), '1 / (A*B)': (-1, -1),
}


def text_of(pattern, **names):
    return ''.join(names.get(c, c) for c in pattern)


def pair_cases(tier):
    sets = [('base', 'cgs'), ('shared', 'mks')]
    patterns = list(PAIRS) if tier == 'thorough' else ['A * B', 'A/B', 'A^2 * B', 'A / B^2', 'A^1/2 * B']
    if tier == 'thorough':
        sets = list(itertools.product(DATASETS, ('mks', 'cgs')))
    for name, system in sets:
        for a, b in itertools.permutations(NAMES, 2):
            if a in ('fluence', 'integral_flux') and name == 'square':
                continue
            yield [name, system, a, b, patterns]
        for a in NAMES:
            yield [name, system, a, a, ['A*B', 'A^2/B', 'A*B*A']]


def pair_check(case, obs):
    name, system, a, b, patterns = case
    s = stream(name, system)
    if a == b:
        for pattern, e in zip(patterns, (2, 1, 3)):
            one(s, name, system, text_of(pattern, A=a, B=a), [(a, e)], obs)
        return
    for pattern in patterns:
        e, f = PAIRS[pattern]
        if e == Fraction(1, 2) and a not in POSITIVE:
            continue
        if f == Fraction(-3, 2) and b not in POSITIVE:
            continue
        if 'B' in a or 'A' in b:
            text = pattern.replace('A', '{0}').replace('B', '{1}').format(a, b)
        else:
            text = text_of(pattern, A=a, B=b)
        one(s, name, system, text, [(a, e), (b, f)], obs)


# ---------------------------------------------------------------- triples
TRIPLES = {
    'A*B*C': (1, 1, 1), 'A * B / C': (1, 1, -1), 'A / B / C': (1, -1, -1), 'A / (B * C)': (1, -1, -1), 'A / (B / C)': (1, -1, 1),
    '(A / B)^2 * C': (2, -2, 1), 'A^2 * (B / C)^3': (2, 3, -3), '(A*B) / (B*C)': (1, 0, -1), 'A * (B * (C / A))': (0, 1, 1), 'A / B * C': (1, -1, 1),
}
SOME = ('R', 'Vr', 'mass', 'rigidity', 'flux', 'mfp', 'mu')


def triple_cases(tier):
    names = SOME if tier == 'quick' else (*SOME, 'time', 'energy', 'Dist', 'fluence')
    for name, system in [('base', 'cgs')] if tier == 'quick' else [('base', 'cgs'), ('shared', 'mks'), ('square', 'mks')]:
        for c in itertools.permutations(names, 3):
            yield [name, system, list(c)]


def triple_check(case, obs):
    name, system, names = case
    s = stream(name, system)
    for pattern, es in TRIPLES.items():
        text = pattern.replace('A', '{0}').replace('B', '{1}').replace('C', '{2}').format(*names)
        parts = [(n, e) for n, e in zip(names, es) if e]
        one(s, name, system, text, parts, obs)


# ---------------------------------------------------------------- constrained
MIXED = [
    ('A / B', 'rigidity', 'R'), ('A * B', 'mass', 'Vr'), ('A / B', 'mfp', 'Vr'), ('A * B', 'energy', 'flux'), ('A * B', 'mu', 'Rho'),
    ('A*B', 'time', 'R'), ('A / B', 'time', 'mu'), ('A / B', 'fluence', 'mass'), ('A^2 * B', 'energy', 'mu'), ('A / B', 'Dist', 'flux'), ('A * B', 'mass', 'time'),
    ('A / B', 'flux', 'time'), ('A * B', 'rigidity', 'mu'),
]


# ---------------------------------------------------------- long, and odd powers
MANY = ('Vr', 'R', 'mass', 'T', 'Br', 'mfp', 'rigidity')
ODD = [Fraction(1, 4), Fraction(3, 4), Fraction(-5, 4), Fraction(5, 2), Fraction(-1, 2), Fraction(1, 8), Fraction(-9, 8)]   # exact in binary


def power_text(name, e):
    return name if e == 1 else f'{name}^{e}'


def long_cases(tier):
    for n in (4, 5, 6, 7):
        for names in itertools.combinations([m for m in MANY if m in NAMES], n):
            for es in ([1] * n, [(-1) ** i for i in range(n)], [(2, -1, 1, -2)[i % 4] for i in range(n)]):
                if n < 6 or tier == 'thorough' or es[0] == 1:
                    yield ['base', 'cgs', [[m, str(e)] for m, e in zip(names, es)]]
    for name, system in (('base', 'mks'), ('shared', 'cgs')):
        for m in NAMES:
            for e in ODD:
                if m in POSITIVE:
                    yield [name, system, [[m, str(e)]]]


def long_check(case, obs):
    name, system, parts = case
    parts = [(m, Fraction(e)) for m, e in parts]
    s = stream(name, system)
    one(s, name, system, ' * '.join(power_text(m, e) for m, e in parts), parts, obs)



def constrained_cases(tier):
    for name, system in [('base', 'mks'), ('shared', 'cgs')] if tier == 'quick' else itertools.product(('base', 'shared', 'tall'), ('mks', 'cgs')):
        ds = fixture.Dataset(**p15.DATASETS[name])
        for pattern, a, b in MIXED:
            used = {*dims_of(ds, a), *dims_of(ds, b)}
            dims = [d for d in ORDER if d in used]
            for c in p15.options(ds, dims, 'quick'):
                yield [name, system, pattern, a, b, c]


def constrained_check(case, obs):
    name, system, pattern, a, b, combo = case
    e, f = {'A / B': (1, -1), 'A * B': (1, 1), 'A*B': (1, 1), 'A^2 * B': (2, 1)}[pattern]
    given = {x: c for x, c in combo}
    if 'radius' in given and ('time' not in dims_of(p15.scratch(name).ds, a) and 'time' not in dims_of(p15.scratch(name).ds, b)):
        return
    s = stream(name, system)
    text = pattern.replace('A', '{0}').replace('B', '{1}').format(a, b)
    one(s, name, system, text, [(a, e), (b, f)], obs, given)


# ---------------------------------------------------------------- units and parameters
# composition, parts, units in which to ask for it, in both forms
UNITS = [
    ('mfp / Vr', [('mfp', 1), ('Vr', -1)], [[('h', 1)], [('d', 1)], [('ms', 1)]]),
    ('mass * Vr', [('mass', 1), ('Vr', 1)], [[('g', 1), ('cm', 1), ('s', -1)], [('kg', 1), ('km', 1), ('h', -1)]]),
    ('R * Rho', [('R', 1), ('Rho', 1)], [[('cm', -2)], [('au', -2)]]),
    ('energy * flux', [('energy', 1), ('flux', 1)], [[('cm', -2), ('s', -1), ('sr', -1)], [('km', -2), ('h', -1), ('sr', -1)]]),
    ('R / time', [('R', 1), ('time', -1)], [[('km', 1), ('s', -1)], [('au', 1), ('d', -1)]]),
    ('mass * Vr^2', [('mass', 1), ('Vr', 2)], [[('J', 1)], [('erg', 1)]]),
    ('Dist * Vr^3', [('Dist', 1), ('Vr', 3)], [[('cm', -3)], [('m', -3)]]),
    ('R^1/2 * time', [('R', Fraction(1, 2)), ('time', 1)], [[('cm', Fraction(1, 2)), ('h', 1)]]),
]


def unit_cases(tier):
    for name in ('base', 'shared'):
        for system in ('mks', 'cgs'):
            for i, (_, _, targets) in enumerate(UNITS):
                for j in range(len(targets)):
                    yield [name, system, i, j]


def unit_check(case, obs):
    name, system, i, j = case
    text, parts, targets = UNITS[i]
    target = targets[j]
    ds = p15.scratch(name).ds
    s = stream(name, system)
    model = Model(ds, parts, PARAMETERS, system)
    here = 'SI' if system == 'mks' else 'G'
    ratio = float(units.meaning(model.unit, here)[0]) / float(units.meaning(target, here)[0])
    select = p15.Select(ds, {})
    word = units.text(target)
    where = f"{text!r} in {word!r}, dataset {name!r} in {system}"
    q, got = observe(where, s, text, {}, word)
    check_unit(where, q.unit, target, system)
    check_unit(where, got.unit, target, system)
    compare(where, got, model, select, ratio)
    _, plain = observe(where, s, text, {})
    later = plain[word]
    check_unit(where, later.unit, target, system)
    compare(where + ' (later)', later, model, select, ratio)
    compare(where + ' (before)', plain, model, select)
    other = 'cgs' if system == 'mks' else 'mks'
    m2 = Model(ds, parts, PARAMETERS, other)
    q, got = observe(where, s, text, {}, other)
    check_unit(f"{text!r} in {other}", got.unit, m2.unit, other)
    compare(f"{text!r} in {other}", got, m2, select)
    obs.step((text, word, system))


def parameter_cases(tier):
    for name in ('base', 'shared'):
        for text, parts, key in [
            ('mfp / Vr', [('mfp', 1), ('Vr', -1)], 'lambda0'), ('mfp / Vr', [('mfp', 1), ('Vr', -1)], 'mfp_radial_power'),
            ('rigidity * mfp', [('rigidity', 1), ('mfp', 1)], 'rigidity_power'),
            ('integral_flux / V', [('integral_flux', 1), ('V', -1)], 'minimum_energy'),
        ]:
            for n in range(len(p15.PARAMS[key])):
                yield [name, text, parts, key, n]


def parameter_check(case, obs):
    name, text, parts, key, n = case
    alias, value, si = p15.PARAMS[key][n]
    for system in ('mks', 'cgs'):
        s = stream(name, system)
        one(s, name, system, text, [tuple(p) for p in parts], obs, parameters={key: si}, extra={alias: value})


# ---------------------------------------------------------------- refusals
def refuse_cases(tier):
    for a in NAMES:
        for pattern in ('A * nope', 'nope / A', 'A / (nope * A^2)', 'A * nope^2', 'A * B4'):
            yield [a, pattern]


def refuse_check(case, obs):
    a, pattern = case
    s = stream('base', 'mks')
    text = pattern.replace('A', a)
    if s.observes(text):
        raise Violation(f"observes({text!r}) is true")
    try:
        # The search for similar names takes long for long texts.
        q = s[text] if len(text) < 9 else None
    except Exception:
        q = None
    if q is None:
        obs.step((text,))
        return
    raise Violation(f"{text!r} is accepted as {q!r}")


def spaces(tier):
    for name in DATASETS:
        p15.scratch(name)
    return [
        Space('pairs', pair_cases, pair_check, f'all ordered pairs of {len(NAMES)} quantities with themselves and each other, products, quotients and powers'),
        Space('triples', triple_cases, triple_check, f'all ordered triples of {len(SOME)} (thorough: 11) quantities in {len(TRIPLES)} nested forms'),
        Space('long', long_cases, long_check, f'products of 4 to 7 quantities, and single quantities to {len(ODD)} odd powers'),
        Space('constrained', constrained_cases, constrained_check, f'{len(MIXED)} compositions of quantities with different dimensions, all combinations of constraints'),
        Space('units', unit_cases, unit_check, f'{len(UNITS)} compositions in other units, before and after observing'),
        Space('parameters', parameter_cases, parameter_check, 'compositions with parameters, every parameter option'),
        Space('refused', refuse_cases, refuse_check, 'every quantity composed with an unknown name'),
        Space('names', names.cases, names.check(observing.Parameters, False), 'all pairs and triples of the 16 tuples of distinct names: construction, operators, equality, hashing'),
    ]
