"""P13: an observation is the requested part of the dataset, at the requested coordinates."""
import itertools
import math

import numpy

from mc import fixture, units
from mc.core import Space, Violation

from goats import eprem
from goats.core import metadata
from goats.core import physical

ASSUMPTIONS = [
    'datasets have up to 4 points per axis, with strictly increasing coordinates, and are read through netCDF4',
    'coordinates outside of the grid (also by rounding, when the end of the grid is given in another unit), empty selections, several radii at once, and the shell labels of an interpolation over radius are not claimed',
    'values are compared to relative 1e-9 (1e-12 absolute per the largest value of the stencil)',
]

DATASETS = {
    'base': dict(nt=3, ns=3, np=2, ne=3, nm=3),
    'shared': dict(nt=3, ns=4, np=2, ne=4, nm=2, shared=True, flux=True),
    'single': dict(nt=2, ns=3, np=1, ne=3, nm=2, flux=True, dist=False),
    'one energy': dict(nt=2, ns=2, np=2, ne=1, nm=2),
    'one mu': dict(nt=2, ns=2, np=2, ne=2, nm=1),
    'one shell': dict(nt=3, ns=1, np=1, ne=2, nm=2),
    'one time': dict(nt=1, ns=3, np=2, ne=2, nm=2),
}
_made = {}


def scratch(name):
    if name not in _made:
        _made[name] = fixture.Scratch('p13', fixture.Dataset(**DATASETS[name]))
    return _made[name]


def prepare():
    for name in DATASETS:
        scratch(name)


def stream(name, system):
    return eprem.Stream(0, config='eprem_input_file', source=scratch(name).path, system=system)


def terms_of(text):
    """Read a unit like 'kg m^-1 s^-1/2'."""
    from fractions import Fraction
    out = []
    for word in str(text).split():
        base, _, exp = word.partition('^')
        if base == '1':
            continue
        out.append((base, Fraction(exp) if exp else 1))
    return out


# ---------------------------------------------------------------- constraints
# A constraint is [form, ...]; see `user` for what the user writes and `meant`
# for what it means.
UNIT = {'time': ('day', 'hour', 's'), 'energy': ('MeV', 'keV', 'J'), 'mu': ('1',), 'radius': ('au', 'km', 'm')}
RATIO = {
    'day': 1.0, 'hour': 24.0, 's': 86400.0, 'min': 1440.0,
    'MeV': 1.0, 'keV': 1e3, 'J': 1.6022e-13,
    '1': 1.0, 'au': 1.0, 'km': 1.495978707e8, 'm': 1.495978707e11,
}
SYSTEM = {
    ('time', 'mks'): 86400.0, ('time', 'cgs'): 86400.0,
    ('energy', 'mks'): 1.6022e-13, ('energy', 'cgs'): 1.6022e-6,
    ('mu', 'mks'): 1.0, ('mu', 'cgs'): 1.0,
    ('radius', 'mks'): 1.495978707e11, ('radius', 'cgs'): 1.495978707e13,
}


def user(axis, c, system):
    """The argument that the user passes."""
    kind = c[0]
    if kind == 'int':
        return c[1]
    if kind in ('list', 'symbols'):
        return list(c[1])
    if kind == 'tuple':
        return tuple(c[1])
    if kind == 'numpy':
        return [numpy.int64(x) for x in c[1]]
    if kind == 'range':
        return range(*c[1])
    if kind == 'slice':
        return slice(*c[1])
    if kind == 'symbol':
        return c[1]
    values, form = c[1], c[2]
    if form == 'bare':
        v = [x * SYSTEM[axis, system] for x in values]
        return v[0] if len(v) == 1 else v
    unit = c[3]
    v = [x * RATIO[unit] for x in values]
    if form == 'flat tuple':
        return (*v, unit)
    if form == 'flat list':
        return [*v, unit]
    if form == 'nested':
        return (v, unit)
    if form == 'pairs':
        return [(x, unit) for x in v]
    if form == 'unit object':
        return (*v, metadata.Unit(unit))
    if form == 'scalar':
        return physical.Scalar(v[0], unit=unit) if len(v) == 1 else [physical.Scalar(x, unit=unit) for x in v]
    if form == 'vector':
        return physical.Vector(v, unit=unit)
    if form == 'array':
        return physical.Array(v, unit=unit)
    raise KeyError(form)


def meant(axis, c, ds):
    kind = c[0]
    if kind == 'int':
        return ('i', [c[1]])
    if kind in ('list', 'tuple', 'numpy'):
        return ('i', list(c[1]))
    if kind == 'range':
        return ('i', list(range(*c[1])))
    if kind == 'slice':
        return ('i', list(range(ds.size[axis]))[slice(*c[1])])
    if kind == 'symbol':
        return ('i', [ds.symbols.index(c[1])])
    if kind == 'symbols':
        return ('i', [ds.symbols.index(s) if isinstance(s, str) else s for s in c[1]])
    return ('v', list(c[1]))


def compare(where, got, dims, select, full, factor=1.0, check_labels=True, system='mks', ds=None, alias=None):
    """Compare an Observation with the model."""
    data = got.data
    shape = select.shape(dims)
    if tuple(got.dimensions) != tuple(dims):
        raise Violation(f"{where}: dimensions are {tuple(got.dimensions)}, not {dims}")
    values = numpy.array(data)
    if values.shape != shape or tuple(data.shape) != shape:
        raise Violation(f"{where}: the shape is {values.shape} ({tuple(data.shape)}), not {shape}")
    want = [v * factor for v in select.apply(dims, full)]
    flat = [float(v) for v in values.ravel()]
    scale = max([abs(v) for v in want], default=0.0)
    for p, (a, b) in enumerate(zip(flat, want)):
        if not (abs(a - b) <= 1e-9 * abs(b) + 1e-12 * scale):
            raise Violation(f"{where}: value {numpy.unravel_index(p, shape)} is {a!r}, not {b!r}")
    array = numpy.array(got.array)
    if array.shape != tuple(n for n in shape if n != 1):
        raise Violation(f"{where}: .array has shape {array.shape}; the data have {shape}")
    if [float(v) for v in array.ravel()] != flat:
        raise Violation(f"{where}: .array differs from the data")
    if not check_labels:
        return
    for d in dims:
        if d == 'shell' and 'radius' in select.c:
            continue
        if d == 'species':
            try:
                lab = [str(v) for v in numpy.array(got[d]).ravel()]
            except Exception as err:
                raise Violation(f"{where}: the species of the observation: {type(err).__name__}: {err}")
            exp = [ds.symbols[s[0][0]] for s in select.stencils('species')]
            if lab != exp:
                raise Violation(f"{where}: the species axis is labelled {lab}, not {exp}")
            continue
        ks = [s[0][0] for s in select.stencils('species')] if 'species' in dims or d == 'energy' else [0]
        if d == 'energy' and not ds.shared and len(set(ks)) > 1:
            kind, _ = select._points('energy')
            if kind == 'i':
                continue        # no single list of energies
        c = {'time': 86400.0, 'shell': 1.0, 'mu': 1.0, 'energy': SYSTEM['energy', system]}[d]
        lab = [float(v) for v in numpy.array(got[d]).ravel()]
        exp = [v * c for v in select.labels(d, k=ks[0])]
        if len(lab) != len(exp) or any(abs(a - b) > 1e-9 * abs(b) + 1e-15 for a, b in zip(lab, exp)):
            raise Violation(f"{where}: the {d} axis is labelled {lab}, not {exp}")


def check_unit(where, unit, want):
    try:
        got = units.meaning(terms_of(unit), 'SI'), units.meaning(terms_of(unit), 'G')
    except (KeyError, ValueError):
        # a spelling that the independent reader doesn't know
        if metadata.Unit(unit) != metadata.Unit(units.text(want)):
            raise Violation(f"{where}: the unit is {str(unit)!r}")
        return
    ref = units.meaning(want, 'SI'), units.meaning(want, 'G')
    for (f, v), (g, w) in zip(got, ref):
        if v != w or not math.isclose(f, g, rel_tol=1e-9):
            raise Violation(f"{where}: the unit is {str(unit)!r}, not {units.text(want)!r}")


# ---------------------------------------------------------------- 1. names
def names_cases(tier):
    for name in DATASETS:
        for system in ('mks', 'cgs'):
            for var in fixture.Dataset(**DATASETS[name]).file:
                if var in fixture.NAMES:
                    yield [name, system, var]


def names_check(case, obs):
    name, system, var = case
    ds = scratch(name).ds
    s = stream(name, system)
    sel = fixture.Select(ds, {})
    for alias in fixture.NAMES[var]:
        if not s.observes(alias):
            raise Violation(f"the observer doesn't observe {alias!r}")
        q = s[alias]
        check_unit(f"{alias!r} in {system}", q.unit, fixture.NORMAL[var][system])
        if tuple(q.dimensions) != tuple(ds.dims(var)):
            raise Violation(f"{alias!r}: dimensions {q.dimensions}")
        got = q.observe()
        check_unit(f"an observation of {alias!r} in {system}", got.unit, fixture.NORMAL[var][system])
        compare(f"{alias!r} in {system}", got, ds.dims(var), sel, ds.full(var, system), ds=ds, system=system)
        obs.step((name, system, alias))
    for hidden in ('preEruption', 'phiOffset'):
        if s.observes(hidden):
            raise Violation(f"{hidden!r} is observable")


# ---------------------------------------------------------------- 2. indices
def index_options(axis, n, tier):
    if n == 1:
        return [None, ['int', 0]]
    out = [None, ['int', 0], ['int', -1], ['list', [n - 1, 0]], ['slice', [1, None, None]]]
    if axis == 'species':
        out = [None, ['int', 1], ['symbol', 'H+'], ['symbols', ['He++', 'H+']], ['symbol', 'He++'], ['slice', [1, None, None]]]
    if tier == 'thorough':
        out += [['slice', [None, None, -1]], ['slice', [-2, None, None]], ['range', [0, n, 2]], ['tuple', [0, 0]], ['numpy', [n - 1]]]
    return out


def index_cases(tier):
    sets = ['base', 'shared', 'one energy', 'one mu', 'one time'] if tier == 'quick' else list(DATASETS)
    for name in sets:
        ds = fixture.Dataset(**DATASETS[name])
        for var in ('Dist', 'flux', 'Br', 'R', 'egrid', 'time', 'mass', 'mu', 'shell'):
            if var not in ds.file:
                continue
            dims = ds.dims(var)
            lead, rest = dims[:2], dims[2:]
            for c in itertools.product(*(index_options(d, ds.size[d], tier if len(dims) < 5 or i < 2 else 'quick') for i, d in enumerate(lead))):
                system = 'mks' if len(dims) == 5 else 'cgs'
                yield [name, system, var, list(c)]


def index_check(case, obs):
    name, system, var, first = case
    ds = scratch(name).ds
    dims = ds.dims(var)
    s = stream(name, system)
    q = s[fixture.NAMES[var][0]]
    rest = dims[len(first):]
    for tail in itertools.product(*(index_options(d, ds.size[d], 'quick') for d in rest)):
        options = dict(zip(dims, [*first, *tail]))
        one(case, obs, ds, s, q, dims, options, system, var)


def one(case, obs, ds, s, q, dims, options, system, var):
    options = {k: v for k, v in options.items() if v}
    kw = {a: user(a, c, system) for a, c in options.items()}
    sel = fixture.Select(ds, {a: meant(a, c, ds) for a, c in options.items()})
    if not sel.inside(dims):
        return
    where = f"{case[2]!r} of dataset {case[0]!r} in {system}, constraints {options}"
    try:
        got = q.observe(**kw)
    except Exception as err:
        raise Violation(f"{where}: {type(err).__name__}: {err}")
    compare(where, got, dims, sel, ds.full(var, system), ds=ds, system=system)
    obs.step((case[0], case[2], repr(sorted(options.items()))))


# ---------------------------------------------------------------- 3. coordinates
def mids(grid):
    return [0.75 * a + 0.25 * b for a, b in zip(grid, grid[1:])]


def value_options(axis, ds, tier):
    n = ds.size['shell' if axis == 'radius' else axis]
    if axis == 'shell':
        return [None, ['int', 1 % n], ['list', [n - 1, 0]]]
    if axis == 'species':
        return [None, ['int', 0], ['symbol', 'He++'], ['list', [1, 0]]] if n == 2 else [None, ['int', 0]]
    if n == 1:
        return [None]
    if axis == 'radius':
        # a value that is inside at every time
        lo = max(ds.coordinate('radius', i=i)[0] for i in range(ds.size['time']))
        hi = min(ds.coordinate('radius', i=i)[-1] for i in range(ds.size['time']))
        return [None, ['v', [lo + 0.3 * (hi - lo)], 'flat list', 'au'], ['v', [lo + 0.8 * (hi - lo)], 'scalar', 'km'], ['v', [ds.coordinate('radius', i=0)[1]], 'bare']]
    if axis == 'energy':
        g = ds.coordinate('energy', k=0)
        if ds.shared or ds.size['species'] == 1:
            m = mids(g)
            return [None, ['v', [m[-1]], 'flat tuple', 'MeV'], ['v', [m[0], g[-1]], 'flat tuple', 'keV'], ['v', [g[1]], 'bare'], ['list', [n - 1, 0]]]
        h = ds.coordinate('energy', k=1)
        lo, hi = max(g[0], h[0]), min(g[-1], h[-1])
        return [None, ['v', [0.6 * lo + 0.4 * hi], 'flat tuple', 'keV'], ['v', [0.9 * lo + 0.1 * hi, g[1]], 'flat list', 'MeV'], ['v', [g[-1]], 'scalar', 'J'], ['int', 1]]
    g = ds.coordinate(axis)
    m = mids(g)
    unit = UNIT[axis][0]
    out = [None, ['v', [m[-1]], 'flat tuple', unit], ['v', [g[1], m[0]], 'flat list', UNIT[axis][-1]], ['v', [g[-1], g[0]], 'nested', unit]]
    if tier == 'thorough':
        out += [['v', [*m, *g], 'bare'], ['int', -1]]
    return out


def value_cases(tier):
    sets = ['base', 'shared', 'single', 'one energy'] if tier == 'quick' else list(DATASETS)
    for name in sets:
        ds = fixture.Dataset(**DATASETS[name])
        for var in ('Dist', 'flux', 'Br', 'R', 'egrid', 'vgrid', 'time', 'mu'):
            if var not in ds.file:
                continue
            dims = ds.dims(var)
            first = dims[0]
            systems = ('mks', 'cgs') if len(dims) < 5 else ('mks',)
            for system in systems:
                for c in value_options(first, ds, tier):
                    if 'shell' in dims:
                        for d in value_options('shell', ds, tier):
                            yield [name, system, var, {first: c, 'shell': d}]
                        for d in value_options('radius', ds, tier)[1:]:
                            yield [name, system, var, {first: c, 'radius': d}]
                    else:
                        yield [name, system, var, {first: c}]


def value_check(case, obs):
    name, system, var, given = case
    ds = scratch(name).ds
    dims = ds.dims(var)
    s = stream(name, system)
    q = s[fixture.NAMES[var][0]]
    rest = [d for d in dims if d not in given and not (d == 'shell' and 'radius' in given)]
    if dims == ('energy',):
        rest = rest + ['species']
    for tail in itertools.product(*(value_options(d, ds, 'quick') for d in rest)):
        one(case, obs, ds, s, q, dims, {**given, **dict(zip(rest, tail))}, system, var)


# ---------------------------------------------------------------- 4. spellings of a target
FORMS = ('flat tuple', 'flat list', 'nested', 'pairs', 'unit object', 'scalar', 'vector', 'array')


def form_cases(tier):
    ds = fixture.Dataset(**DATASETS['base'])
    for system in ('mks', 'cgs'):
        for axis in ('time', 'energy', 'mu', 'radius'):
            if axis == 'radius':
                targets = [[0.4], [ds.coordinate('radius', i=0)[1]]]
            else:
                g = ds.coordinate(axis)
                m = mids(g)
                targets = [[m[0]], [g[1]], [m[1], g[0]], [g[0], g[1]], [g[2], m[0], m[1]]]
            for t in targets:
                for form in FORMS:
                    if form == 'array' and axis == 'radius' or form == 'vector' and axis == 'radius':
                        continue
                    for unit in UNIT[axis]:
                        yield ['base', system, 'Dist' if axis in ('energy', 'mu') else 'Br', axis, ['v', t, form, unit]]
                yield ['base', system, 'Dist' if axis in ('energy', 'mu') else 'Br', axis, ['v', t, 'bare']]
    for axis in ('time', 'shell', 'species', 'energy', 'mu'):
        for c in itertools.chain(
            ([k, x] for x in ([0], [2, 1], [1, 1, 0], [-1], [-3, 2]) for k in ('list', 'tuple', 'numpy')),
            (['int', x] for x in (0, 1, 2, -1, -3)),
            (['range', x] for x in ([3], [1, 3], [2, -1, -1], [0, 3, 2])),
            (['slice', [a, b, st]] for a in (None, 0, 1, -2, -5) for b in (None, 2, -1, 3, 7) for st in (None, 1, 2, -1)),
        ):
            if axis == 'species':
                c = [c[0], [x % 2 for x in c[1]] if c[0] in ('list', 'tuple', 'numpy') else c[1]]
                if c[0] == 'int' and not -2 <= c[1] < 2 or c[0] == 'range':
                    continue
            yield ['base', 'mks', 'Dist', axis, c]


ALIASES = {
    'time': ['time', 't', 'times'], 'shell': ['shell', 'shells'],
    'energy': ['energy', 'egrid', 'energies', 'E'], 'mu': ['mu', 'mus', 'pitch angle', 'pitch-angle cosines'],
    'radius': ['radius', 'r', 'R'], 'species': ['species'],
}


def form_check(case, obs):
    name, system, var, axis, c = case
    ds = scratch(name).ds
    dims = ds.dims(var)
    sel = fixture.Select(ds, {axis: meant(axis, c, ds)})
    if not sel.inside(dims) or 0 in sel.shape(dims):
        return
    s = stream(name, system)
    for alias in ALIASES[axis]:
        where = f"{var!r} with {alias}={c} in {system}"
        try:
            got = s[var].observe(**{alias: user(axis, c, system)})
        except Exception as err:
            raise Violation(f"{where}: {type(err).__name__}: {err}")
        compare(where, got, dims, sel, ds.full(var, system), ds=ds, system=system)
        obs.step((alias, repr(c), system))


# ---------------------------------------------------------------- 5. units
CONVERT = {
    'R': [[('au', 1)], [('km', 1)], [('m', 1)], [('cm', 1)]],
    'Vr': [[('km', 1), ('s', -1)], [('cm', 1), ('s', -1)], [('m', 1), ('s', -1)], [('au', 1), ('d', -1)]],
    'Br': [[('nT', 1)], [('G', 1)], [('T', 1)]],
    'time': [[('h', 1)], [('d', 1)], [('s', 1)]],
    'egrid': [[('MeV', 1)], [('keV', 1)], [('J', 1)], [('erg', 1)]],
    'Rho': [[('cm', -3)], [('m', -3)], [('#', 1), ('cm', -3)]],
    'Dist': [[('s', 3), ('km', -6)], [('s', 3), ('cm', -6)], [('s', 3), ('m', -6)]],
    'T': [[('deg', 1)], [('rad', 1)]],
    'mass': [[('kg', 1)], [('g', 1)], [('nuc', 1)]],
    'charge': [[('C', 1)], [('e', 1)], [('statC', 1)]],
}
BAD = {'R': 's', 'Vr': 'm', 'Br': 'J', 'time': 'm', 'egrid': 'm', 'Rho': 'm', 'Dist': 's', 'T': 'm', 'mass': 's', 'charge': 'm'}


def unit_cases(tier):
    for system in ('mks', 'cgs'):
        for var, options in CONVERT.items():
            for path in itertools.chain(
                itertools.product(options, repeat=1),
                itertools.product(options, repeat=2) if tier == 'quick' else itertools.chain(itertools.product(options, repeat=2), itertools.product(options, repeat=3)),
            ):
                yield ['base', system, var, [list(map(list, p)) for p in path]]


def unit_check(case, obs):
    name, system, var, path = case
    ds = scratch(name).ds
    dims = ds.dims(var)
    s = stream(name, system)
    final = path[-1]
    factor = units.ratio([tuple(t) for t in fixture.NORMAL[var][system]], [tuple(t) for t in final])[0][0]
    sel = fixture.Select(ds, {d: ('i', [0]) for d in dims[:1]})
    kw = {d: 0 for d in dims[:1]}
    texts = [units.text([tuple(t) for t in p]) for p in path]
    first = s[var]
    for split in range(len(path) + 1):
        q = first
        for t in texts[:split]:
            q = q[t]
        got = q.observe(**kw)
        for t in texts[split:]:
            got = got[t]
        where = f"{var!r} in {system} converted to {texts}, {split} of them before observing"
        check_unit(where, got.unit, [tuple(t) for t in final])
        compare(where, got, dims, sel, ds.full(var, system), factor, ds=ds, system=system)
        obs.step((var, repr(texts), split))
    # The quantity that we started from keeps its unit.
    check_unit(f"{var!r} after converting it", first.unit, fixture.NORMAL[var][system])
    compare(f"{var!r} after converting it", first.observe(**kw), dims, sel, ds.full(var, system), ds=ds, system=system)
    for where, call in (
        ('a quantity', lambda: first[BAD[var]].observe(**kw)),
        ('an observation', lambda: first.observe(**kw)[BAD[var]]),
    ):
        try:
            call()
        except Exception:
            obs.step((var, 'refused', where))
            continue
        raise Violation(f"{where} of {var!r} was converted to {BAD[var]!r}")


# ---------------------------------------------------------------- 6. refusals and reference values
def refuse_cases(tier):
    for system in ('mks', 'cgs'):
        for axis, bad in (
            ('time', [['int', 3], ['int', -4], ['list', [0, 3]], ['list', [-4, 0]], ['raw', (1.25, 'm')], ['raw', (1.25, 'MeV')]]),
            ('shell', [['int', 3], ['int', -4], ['list', [0, 3]]]),
            ('species', [['int', 2], ['int', -3], ['raw', 'Fe+'], ['raw', ['H+', 'Fe+']]]),
            ('energy', [['int', 3], ['int', -4], ['raw', (1.0, 's')], ['raw', (1.0, 'm')]]),
            ('mu', [['int', 3], ['int', -4], ['raw', (0.1, 'm')]]),
            ('radius', [['raw', (0.4, 's')], ['raw', (0.4, 'MeV')]]),
        ):
            for b in bad:
                yield ['base', system, axis, b]
        for name in DATASETS:
            yield [name, system, 'reference', None]


def refuse_check(case, obs):
    name, system, axis, bad = case
    ds = scratch(name).ds
    s = stream(name, system)
    if axis != 'reference':
        arg = bad[1] if bad[0] == 'raw' else user(axis, bad, system)
        q = s['Dist']
        try:
            got = q.observe(**{axis: arg})
        except Exception:
            obs.step((axis, repr(bad)))
        else:
            raise Violation(f"observe({axis}={arg!r}) gave {got!r} with shape {got.data.shape}")
        # ... and the observer still works
        sel = fixture.Select(ds, {'time': ('i', [0])})
        compare('after a refusal', q.observe(time=0), ds.dims('Dist'), sel, ds.full('Dist', system), ds=ds, system=system)
        return
    for what in ('time', 'shell', 'energy', 'mu'):
        c = {'time': 86400.0, 'shell': 1.0, 'mu': 1.0, 'energy': SYSTEM['energy', system]}[what]
        got = [float(v) for v in numpy.array(getattr(s, what)).ravel()]
        want = [v * c for v in ds.coordinate(what)]
        if len(got) != len(want) or any(abs(a - b) > 1e-9 * abs(b) + 1e-15 for a, b in zip(got, want)):
            raise Violation(f"observer.{what} is {got}, not {want}")
        obs.step((name, what))
    if [str(v) for v in numpy.array(s.species)] != ds.symbols:
        raise Violation(f"observer.species is {s.species}")
    for what, var in (('radius', 'R'), ('theta', 'T'), ('phi', 'P')):
        got = numpy.array(getattr(s, what))
        full = ds.full(var, system)
        for i, j in itertools.product(range(ds.size['time']), range(ds.size['shell'])):
            if abs(got[i, j] - full(i, j)) > 1e-9 * abs(full(i, j)):
                raise Violation(f"observer.{what}[{i}, {j}] is {got[i, j]}, not {full(i, j)}")
        obs.step((name, what))


# ---------------------------------------------------------------- 7. the axes
AXIS_UNITS = {'time': ['s', 'h', 'd', 'mks', 'cgs'], 'energy': ['J', 'erg', 'keV', 'MeV', 'mks', 'cgs'], 'mu': ['1', 'mks', 'cgs'], 'shell': ['1', 'cgs'], 'species': []}
AXIS_BAD = {'time': ['m', 'J', '1'], 'energy': ['s', 'm', '1'], 'mu': ['s', 'rad^2 m'], 'shell': ['s'], 'species': ['1', 's', 'mks']}


def axis_cases(tier):
    for name in DATASETS:
        for system in ('mks', 'cgs'):
            for axis, options in AXIS_UNITS.items():
                for n in range((3 if tier == 'quick' else 4) if name == 'base' else 2):
                    for path in itertools.product(options, repeat=n):
                        yield [name, system, axis, list(path)]


def axis_check(case, obs):
    """The coordinates of an axis, in any unit, wherever in the chain we convert."""
    from goats.core import datafile
    name, system, axis, path = case
    ds = scratch(name).ds
    s = stream(name, system)
    axes = eprem.Axes(datafile.Interface(s.datapath), system=system)
    native = {'time': {'mks': 's', 'cgs': 's'}, 'energy': {'mks': 'J', 'cgs': 'erg'}, 'mu': {'mks': '1', 'cgs': '1'}, 'shell': {'mks': '1', 'cgs': '1'}, 'species': {}}[axis]
    unit = native.get(system)
    for u in path:
        unit = native.get(u, u)
    if axis == 'species':
        want = ds.symbols
    else:
        terms = lambda u: [] if u == '1' else [(u, 1)]
        factor = {'time': 86400.0, 'energy': 1.6022e-13, 'mu': 1.0, 'shell': 1.0}[axis]
        factor *= units.ratio(terms({'time': 's', 'energy': 'J'}.get(axis, '1')), terms(unit))[0][0]
        want = [v * factor for v in ds.coordinate(axis)]

    def same(where, got, points, values):
        if [int(i) for i in got] != list(points):
            raise Violation(f"{where} has the points {list(got)}, not {list(points)}")
        found = list(got.values)
        if axis == 'species':
            ok = [str(v) for v in found] == list(values)
        else:
            ok = len(found) == len(values) and all(abs(float(a) - b) <= 1e-9 * abs(b) + 1e-15 for a, b in zip(found, values))
        if not ok:
            raise Violation(f"{where} has the values {found}, not {list(values)} {unit}")
        if axis == 'species':
            if got.unit is not None:
                raise Violation(f"{where} has the unit {got.unit}")
        else:
            check_unit(where, got.unit, terms(unit))
        obs.step((name, system, axis, tuple(path), where))

    def attempt(where, call):
        try:
            return call()
        except Exception as err:
            raise Violation(f"{where}: {type(err).__name__}: {err}")

    start = getattr(s, axis)
    size = len(want)
    for split in range(len(path) + 1):
        where = f"the {axis} axis in {system}, converted to {path} ({split} of them as an axis)"
        this = axes[axis]
        for u in path[:split]:
            attempt(where, lambda: numpy.array(this.reference))
            this = attempt(where, lambda: this[u])
        array = attempt(where, lambda: this.reference)
        for u in path[split:]:
            array = attempt(where, lambda: array[u])
        same(where, array, range(size), want)
        if [str(v) if axis == 'species' else float(v) for v in numpy.array(array)] != [str(v) if axis == 'species' else float(v) for v in array.values]:
            raise Violation(f"{where} is the numpy array {numpy.array(array)}, not {array.values}")
    array = start
    for u in path:
        array = attempt(f"observer.{axis}", lambda: array[u])
    same(f"observer.{axis} converted to {path}", array, range(size), want)
    # Targets that have no unit are in the unit of the axis.
    for pick in ([size - 1], list(range(size))[::-1], [0, size - 1]):
        got = attempt(f"the {axis} axis at {pick}", lambda: this.index(*pick))
        same(f"the {axis} axis at {pick}", got, pick, [want[i] for i in pick])
        if axis in ('time', 'energy', 'mu'):
            for shift in (0, 0.25, -0.25):
                targets = []
                for i in pick:
                    j = i + (1 if shift > 0 else -1)
                    v = want[i]
                    if shift and 0 <= j < size:
                        v += (want[j] - want[i]) * abs(shift)
                    targets.append(v)
                got = attempt(f"the {axis} axis at {targets}", lambda: this.index(*targets))
                same(f"the {axis} axis at {targets}", got, pick, targets)
        elif axis == 'species':
            got = this.index(*[want[i] for i in pick])
            same(f"the {axis} axis at {[want[i] for i in pick]}", got, pick, [want[i] for i in pick])
    # Refusals, which leave everything as it was.
    for bad in AXIS_BAD[axis]:
        for where, call in (('the axis', lambda: this[bad]), ('its reference', lambda: array[bad]), ("the observer's axis", lambda: start[bad])):
            try:
                got = call()
            except Exception:
                continue
            raise Violation(f"{where} {axis!r} was converted to {bad!r}: {got!r}")
    same(f"observer.{axis} after all that", array, range(size), want)


def spaces(tier):
    prepare()
    return [
        Space('names', names_cases, names_check, 'every alias of every variable, in both metric systems, on 7 dataset shapes'),
        Space('indices', index_cases, index_check, 'all combinations over the five axes of integers, lists, slices, ranges, and species symbols'),
        Space('coordinates', value_cases, value_check, 'all combinations over the axes (and radius) of coordinates on and off the grid, indices and whole axes'),
        Space('spellings', form_cases, form_check, 'every way to write a target and every alias of the axis'),
        Space('units', unit_cases, unit_check, 'all sequences of two (three) unit conversions, each before or after observing'),
        Space('refusals', refuse_cases, refuse_check, 'indices out of range, unknown species, inconsistent units; reference values'),
        Space('axes', axis_cases, axis_check, 'all sequences of up to two (three) conversions of each axis, each as an axis or as its reference values, then integer and coordinate targets in the unit of the axis'),
    ]
