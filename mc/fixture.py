"""Small EPREM-like datasets and a pure-Python model of what they contain.

The model never asks goats anything: values come from the formulas below, units
from `mc.units`, and an observation is a sum over *stencils* (index, weight), one
stencil per requested point and axis:

    out[t, s, p, e, m] = sum wt(i) ws(j|i) we(l|k) wm(n) * full(i, j, k, l, n)

because radius depends on time and energy depends on species.
"""
import bisect
import itertools
import os
import shutil
import tempfile

from mc import units

AXES = ('time', 'shell', 'species', 'energy', 'mu')
ALL = ('time', 'shell', 'species', 'energy', 'mu')

TIMES = (1.0, 1.5, 2.75, 3.0)
MUS = (-1.0, -0.25, 1.0)
ENERGIES = ((0.1, 0.5, 2.0, 10.0), (0.4, 1.0, 5.0, 16.0))
SPECIES = ((1.0, 1.0, 'H+'), (4.0, 2.0, 'He++'))


def _f(i, j, k, l, n):
    """A function without symmetries, always positive."""
    return 1 + 0.31 * i + 0.17 * i * j + 0.071 * j * j + 0.53 * k + 0.013 * l * l + 0.21 * l * (1 + k) + 0.029 * n * (1 + i)


# name in the file: (dimensions, text of the unit in the file, terms of that unit)
FILE = {
    'time': (('time',), 'julian date', [('d', 1)]),
    'shell': (('shell',), 'shell', []),
    'mu': (('mu',), 'cos(mu)', []),
    'mass': (('species',), 'nucleon', [('nuc', 1)]),
    'charge': (('species',), 'e-', [('e', 1)]),
    'egrid': (('species', 'energy'), 'MeV', [('MeV', 1)]),
    'vgrid': (('species', 'energy'), 'cm/s', [('cm', 1), ('s', -1)]),
    'R': (('time', 'shell'), 'au', [('au', 1)]),
    'T': (('time', 'shell'), 'rad', [('rad', 1)]),
    'P': (('time', 'shell'), 'rad', [('rad', 1)]),
    'Br': (('time', 'shell'), 'gauss', [('G', 1)]),
    'Bt': (('time', 'shell'), 'gauss', [('G', 1)]),
    'Bp': (('time', 'shell'), 'gauss', [('G', 1)]),
    'Vr': (('time', 'shell'), 'cm/s', [('cm', 1), ('s', -1)]),
    'Vt': (('time', 'shell'), 'cm/s', [('cm', 1), ('s', -1)]),
    'Vp': (('time', 'shell'), 'cm/s', [('cm', 1), ('s', -1)]),
    'Rho': (('time', 'shell'), 'cm^-3', [('cm', -3)]),
    'preEruption': ((), 'day', [('d', 1)]),
    'phiOffset': (('time',), 'day', [('d', 1)]),
    'Dist': (ALL, 's^3/km^6', [('s', 3), ('km', -6)]),
    'flux': (('time', 'shell', 'species', 'energy'), '# / cm^2 s sr MeV', [('#', 1), ('cm', -2), ('s', -1), ('sr', -1), ('MeV', -1), ('nuc', 1)]),
}

# The unit that every variable has in each metric system.
NORMAL = {
    'time': {'mks': [('s', 1)], 'cgs': [('s', 1)]},
    'shell': {'mks': [], 'cgs': []},
    'mu': {'mks': [], 'cgs': []},
    'mass': {'mks': [('kg', 1)], 'cgs': [('g', 1)]},
    'charge': {'mks': [('C', 1)], 'cgs': [('statC', 1)]},
    'egrid': {'mks': [('J', 1)], 'cgs': [('erg', 1)]},
    'vgrid': {'mks': [('m', 1), ('s', -1)], 'cgs': [('cm', 1), ('s', -1)]},
    'R': {'mks': [('m', 1)], 'cgs': [('cm', 1)]},
    'T': {'mks': [('rad', 1)], 'cgs': [('rad', 1)]},
    'P': {'mks': [('rad', 1)], 'cgs': [('rad', 1)]},
    'Br': {'mks': [('T', 1)], 'cgs': [('G', 1)]},
    'Bt': {'mks': [('T', 1)], 'cgs': [('G', 1)]},
    'Bp': {'mks': [('T', 1)], 'cgs': [('G', 1)]},
    'Vr': {'mks': [('m', 1), ('s', -1)], 'cgs': [('cm', 1), ('s', -1)]},
    'Vt': {'mks': [('m', 1), ('s', -1)], 'cgs': [('cm', 1), ('s', -1)]},
    'Vp': {'mks': [('m', 1), ('s', -1)], 'cgs': [('cm', 1), ('s', -1)]},
    'Rho': {'mks': [('m', -3)], 'cgs': [('cm', -3)]},
    'Dist': {'mks': [('s', 3), ('m', -6)], 'cgs': [('s', 3), ('cm', -6)]},
    'flux': {
        'mks': [('#', 1), ('m', -2), ('s', -1), ('sr', -1), ('J', -1), ('nuc', 1)],
        'cgs': [('#', 1), ('cm', -2), ('s', -1), ('sr', -1), ('erg', -1), ('nuc', 1)],
    },
}

# Every name under which a variable of the file may be observed.
NAMES = {
    'time': ['time', 't', 'times'],
    'shell': ['shell', 'shells'],
    'mu': ['mu', 'pitch angle', 'pitch-angle cosine'],
    'mass': ['mass', 'm'],
    'charge': ['charge', 'q'],
    'egrid': ['energy', 'egrid', 'energies', 'E'],
    'vgrid': ['speed', 'vgrid', 'vparticle'],
    'R': ['radius', 'R', 'r'],
    'T': ['theta', 'T'],
    'P': ['phi', 'P'],
    'Br': ['Br', 'br'],
    'Bt': ['Bt', 'bt', 'Btheta', 'btheta'],
    'Bp': ['Bp', 'bp', 'Bphi', 'bphi'],
    'Vr': ['Vr', 'vr'],
    'Vt': ['Vt', 'vt', 'Vtheta', 'vtheta'],
    'Vp': ['Vp', 'vp', 'Vphi', 'vphi'],
    'Rho': ['rho', 'Rho'],
    'Dist': ['dist', 'Dist', 'f'],
    'flux': ['flux', 'Flux', 'J', 'J(E)', 'j', 'j(E)'],
}


class Dataset:
    """The contents of one dataset, in the units of the file."""

    def __init__(self, nt=3, ns=3, np=2, ne=3, nm=3, shared=False, dist=True, flux=False, salt=0):
        self.spec = dict(nt=nt, ns=ns, np=np, ne=ne, nm=nm, shared=shared, dist=dist, flux=flux, salt=salt)
        self.size = {'time': nt, 'shell': ns, 'species': np, 'energy': ne, 'mu': nm}
        self.shared = shared
        self.salt = salt
        self.file = {
            k: v for k, v in FILE.items()
            if (k != 'Dist' or dist) and (k != 'flux' or flux)
        }
        if shared:
            for k in ('egrid', 'vgrid'):
                self.file[k] = (('energy',), *self.file[k][1:])
        self.symbols = [SPECIES[p][2] for p in range(np)]

    def raw(self, name, i=0, j=0, k=0, l=0, n=0):
        """The value in the file, in the file's unit."""
        s = 1 + 0.5 * self.salt
        if name == 'time':
            return TIMES[i] * s
        if name == 'shell':
            return float(j)
        if name == 'mu':
            return MUS[n] if self.size['mu'] > 1 else 0.5
        if name == 'mass':
            return SPECIES[k][0]
        if name == 'charge':
            return SPECIES[k][1]
        if name == 'egrid':
            return ENERGIES[0 if self.shared else k][l] * s
        if name == 'vgrid':
            return 1.38e9 * ENERGIES[0 if self.shared else k][l] ** 0.5 * s
        if name == 'R':
            return (0.2 + 0.25 * j + 0.02 * j * j + 0.04 * i) * s
        if name == 'T':
            return 1.0 + 0.1 * j + 0.03 * i
        if name == 'P':
            return 0.3 * i + 0.2 * j + 0.1
        if name in ('Br', 'Bt', 'Bp'):
            c = ('Br', 'Bt', 'Bp').index(name)
            return 1e-5 * (1 + c - 0.7 * j + 0.37 * i * c + 0.11 * i * i + 0.5 * (c + 1) * j * j) * s
        if name in ('Vr', 'Vt', 'Vp'):
            c = ('Vr', 'Vt', 'Vp').index(name)
            return 1e7 * (4 - 2.5 * c + 0.3 * j * (c + 1) + 0.21 * i - 0.13 * i * j * c) * s
        if name == 'Rho':
            return 5.0 * (1 + 0.3 * i) / (0.2 + 0.25 * j) ** 2 * s
        if name == 'preEruption':
            return 0.5
        if name == 'phiOffset':
            return 0.125 * i
        if name == 'Dist':
            return 1e-3 * _f(i, j, k, l, n) / (1 + l) ** 2 * s
        if name == 'flux':
            return 3.0 * _f(i, j, k, l, 0) / (1 + l) * s
        raise KeyError(name)

    def write(self, path):
        import netCDF4
        import numpy
        with netCDF4.Dataset(path, 'w') as fp:
            for d, n in self.size.items():
                fp.createDimension(d, n)
            for name, (dims, unit, _) in self.file.items():
                var = fp.createVariable(name, 'f8', dims)
                var.units = unit
                shape = tuple(self.size[d] for d in dims)
                array = numpy.empty(shape)
                for idx in itertools.product(*(range(n) for n in shape)):
                    array[idx] = self.raw(name, **self.at(dims, idx))
                var[...] = array

    @staticmethod
    def at(dims, idx):
        key = dict(zip(AXES, 'ijkln'))
        return {key[d]: x for d, x in zip(dims, idx)}

    def factor(self, name, system):
        """Multiply a value in the file by this to get it in the system."""
        terms = FILE[name][2]
        f = units.ratio(terms, NORMAL[name][system])
        return f[0][0]

    def dims(self, name):
        return self.file[name][0]

    def full(self, name, system):
        """A function (i, j, k, l, n) -> value in the unit of the system."""
        c = self.factor(name, system)
        raw = self.raw
        return lambda i=0, j=0, k=0, l=0, n=0: raw(name, i, j, k, l, n) * c

    def coordinate(self, axis, i=0, k=0):
        """The coordinate values along an axis, in the file's unit."""
        if axis == 'time':
            return [self.raw('time', i=x) for x in range(self.size['time'])]
        if axis == 'mu':
            return [self.raw('mu', n=x) for x in range(self.size['mu'])]
        if axis == 'energy':
            return [self.raw('egrid', k=k, l=x) for x in range(self.size['energy'])]
        if axis == 'radius':
            return [self.raw('R', i=i, j=x) for x in range(self.size['shell'])]
        if axis == 'shell':
            return [float(x) for x in range(self.size['shell'])]
        raise KeyError(axis)


def between(grid, x):
    """The linear stencil of x on an increasing grid; None outside of it."""
    for q, g in enumerate(grid):
        if abs(g - x) <= 1e-12 * abs(g):
            return [(q, 1.0)]
    b = bisect.bisect(grid, x)
    if not 0 < b < len(grid):
        return None
    w = (x - grid[b - 1]) / (grid[b] - grid[b - 1])
    return [(b - 1, 1 - w), (b, w)]


class Select:
    """What a set of constraints selects from a dataset.

    constraints: {axis: ('i', [indices]) or ('v', [values in the file's unit])},
    where the axis may also be 'radius'.
    """

    def __init__(self, ds, constraints):
        self.ds = ds
        self.c = constraints

    def _points(self, axis):
        kind, what = self.c.get(axis, ('i', list(range(self.ds.size[axis]))))
        n = self.ds.size[axis]
        if kind == 'i':
            return 'i', [w + n if w < 0 else w for w in what]
        return kind, what

    def stencils(self, axis, i=0, k=0):
        """One stencil per output point along an axis."""
        if axis == 'shell' and 'radius' in self.c:
            grid = self.ds.coordinate('radius', i=i)
            return [between(grid, x) for x in self.c['radius'][1]]
        kind, what = self._points(axis)
        if kind == 'i':
            return [[(w, 1.0)] for w in what]
        grid = self.ds.coordinate(axis, k=k)
        return [between(grid, x) for x in what]

    def inside(self, dims):
        """True if every requested point is inside the grid it is looked up in."""
        rows = self.ds.size['time'] if 'time' in dims else 1
        ks = [s[0][0] for s in self.stencils('species')]
        for axis in dims:
            for i in range(rows):
                for k in ks:
                    if any(s is None for s in self.stencils(axis, i=i, k=k)):
                        return False
        return True

    def shape(self, dims):
        return tuple(len(self.stencils(d)) for d in dims)

    def apply(self, dims, full):
        """The selected values, as a flat list in C order."""
        out = []
        st = {d: self.stencils(d) for d in ('time', 'species', 'mu')}
        se = {}
        for a in range(self.ds.size['time']):
            se['shell', a] = self.stencils('shell', i=a)
        for a in range(self.ds.size['species']):
            se['energy', a] = self.stencils('energy', k=a)
        one = [[(0, 1.0)]]
        T = st['time'] if 'time' in dims else one
        S = len(se['shell', 0]) if 'shell' in dims else 1
        P = st['species'] if 'species' in dims else one
        E = len(se['energy', 0]) if 'energy' in dims else 1
        M = st['mu'] if 'mu' in dims else one
        for t in T:
            for s in range(S):
                for p in P:
                    k = p[0][0]
                    for e in range(E):
                        es = se['energy', k][e] if 'energy' in dims else one[0]
                        for m in M:
                            v = 0.0
                            for i, wi in t:
                                js = se['shell', i][s] if 'shell' in dims else one[0]
                                for j, wj in js:
                                    for l, wl in es:
                                        for n, wn in m:
                                            v += wi * wj * wl * wn * full(i, j, k, l, n)
                            out.append(v)
        return out

    def labels(self, axis, k=0):
        """The coordinate values of the selected points, in the file's unit."""
        if axis == 'species':
            return [self.ds.symbols[s[0][0]] for s in self.stencils('species')]
        kind, what = self._points(axis)
        if kind == 'v':
            return list(what)
        grid = self.ds.coordinate(axis, k=k)
        return [grid[w] for w in what]


class Scratch:
    """A scratch directory with one dataset, shared by forked workers."""

    def __init__(self, tag, ds, config='lamo=0.1\n', template='obs000000.nc'):
        root = os.environ.get('MC_SCRATCH') or tempfile.gettempdir()
        self.path = tempfile.mkdtemp(prefix=f'mc-{tag}-', dir=root)
        self.ds = ds
        ds.write(os.path.join(self.path, template))
        with open(os.path.join(self.path, 'eprem_input_file'), 'w') as fp:
            fp.write(config)

    def remove(self):
        shutil.rmtree(self.path, ignore_errors=True)


def close(a, b, rel=1e-9, scale=None):
    s = max(abs(a), abs(b)) if scale is None else max(abs(scale), abs(a), abs(b))
    return abs(a - b) <= rel * s + 1e-300
