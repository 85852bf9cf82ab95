"""P15: computed quantities follow their formulas, in any metric system."""
import itertools
import math

import numpy

from mc import fixture
from mc.core import Space, Violation
from mc.props import p13

from goats import eprem
from goats.core import computed

ASSUMPTIONS = [
    'the formulas are those in the documentation of goats.core.computed, with the constants c = 2.9979e8 m/s, eV = 1.6022e-19 J, m_p = 1.6726e-27 kg and au = 1.495978707e11 m',
    'integrals use Simpson\'s rule (scipy, averaging both ends for an even number of points); derivatives are second-order differences (numpy.gradient)',
    'fields are nonzero, densities are positive, and a minimum energy lies below the highest energy',
]

C, EV, MP, AU = 2.9979e8, 1.6022e-19, 1.6726e-27, 1.495978707e11

DATASETS = {
    'base': dict(nt=3, ns=3, np=2, ne=3, nm=3),
    'tall': dict(nt=4, ns=2, np=2, ne=4, nm=2),
    'one species': dict(nt=3, ns=3, np=1, ne=4, nm=3),
    'square': dict(nt=2, ns=2, np=2, ne=2, nm=2),
    'shared': dict(nt=3, ns=4, np=2, ne=4, nm=2, shared=True),
    'shared square': dict(nt=2, ns=2, np=2, ne=2, nm=2, shared=True),
    'stored flux': dict(nt=3, ns=2, np=2, ne=3, nm=2, flux=True, dist=False),
    'other': dict(nt=3, ns=4, np=2, ne=3, nm=2, salt=1),
}
CONFIGS = {
    'plain': ('lamo=0.1\n', dict(lambda0=0.1, mfp_radial_power=2.0, rigidity_power=1 / 3, kper_kpar=0.01)),
    'other': ('lamo=2.5\nmfpRadialPower=0.5\nrigidityPower=0.75\nkperxkpar=0.2\nnumSpecies=2\nmass=[1.0,4.0]\ncharge=[1.0,2.0]\n', dict(lambda0=2.5, mfp_radial_power=0.5, rigidity_power=0.75, kper_kpar=0.2)),
}
_made = {}


def scratch(name):
    if name not in _made:
        s = fixture.Scratch('p15', fixture.Dataset(**DATASETS[name]))
        for key, (text, _) in CONFIGS.items():
            with open(f'{s.path}/config_{key}', 'w') as fp:
                fp.write(text)
        _made[name] = s
    return _made[name]


def stream(name, config, system):
    s = scratch(name)
    return eprem.Stream(0, config=f'{s.path}/config_{config}', source=s.path, system=system)


# ---------------------------------------------------------------- numerics
def simpson(x, y):
    n = len(x)
    if n % 2 == 0:
        if n == 2:
            return 0.5 * (x[1] - x[0]) * (y[0] + y[1])
        last = 0.5 * (x[-1] - x[-2]) * (y[-1] + y[-2]) + simpson(x[:-1], y[:-1])
        first = 0.5 * (x[1] - x[0]) * (y[0] + y[1]) + simpson(x[1:], y[1:])
        return 0.5 * (first + last)
    out = 0.0
    for i in range(0, n - 2, 2):
        h0, h1 = x[i + 1] - x[i], x[i + 2] - x[i + 1]
        s = h0 + h1
        out += s / 6 * (y[i] * (2 - h1 / h0) + y[i + 1] * s * s / (h0 * h1) + y[i + 2] * (2 - h0 / h1))
    return out


def gradient(y, x, i):
    n = len(y)
    if i == 0:
        return (y[1] - y[0]) / (x[1] - x[0])
    if i == n - 1:
        return (y[-1] - y[-2]) / (x[-1] - x[-2])
    a, b = x[i] - x[i - 1], x[i + 1] - x[i]
    return (a * a * y[i + 1] + (b * b - a * a) * y[i] - b * b * y[i - 1]) / (a * b * (a + b))


# ---------------------------------------------------------------- formulas, in SI
class Physics:
    """Every computable quantity of a dataset, point by point, in SI."""

    def __init__(self, ds, parameters):
        self.ds = ds
        self.p = parameters
        self.v = {k: ds.full(k, 'mks') for k in ds.file if k in fixture.NORMAL}
        self.memo = {}

    def dot(self, a, b, i, j):
        return sum(self.v[f'{a}{c}'](i, j) * self.v[f'{b}{c}'](i, j) for c in 'rtp')

    def x(self, i, j, k, l, n):
        return self.v['R'](i, j) * math.sin(self.v['T'](i, j)) * math.cos(self.v['P'](i, j))

    def y(self, i, j, k, l, n):
        return self.v['R'](i, j) * math.sin(self.v['T'](i, j)) * math.sin(self.v['P'](i, j))

    def z(self, i, j, k, l, n):
        return self.v['R'](i, j) * math.cos(self.v['T'](i, j))

    def B(self, i, j, k=0, l=0, n=0):
        return math.sqrt(self.dot('B', 'B', i, j))

    def V(self, i, j, k=0, l=0, n=0):
        return math.sqrt(self.dot('V', 'V', i, j))

    def BV(self, i, j, k, l, n):
        return self.B(i, j) * self.V(i, j)

    def Vpara(self, i, j, k, l, n):
        return self.dot('B', 'V', i, j) / self.B(i, j)

    def Vperp(self, i, j, k, l, n):
        b = [self.v[f'B{c}'](i, j) for c in 'rtp']
        v = [self.v[f'V{c}'](i, j) for c in 'rtp']
        cross = [b[1] * v[2] - b[2] * v[1], b[2] * v[0] - b[0] * v[2], b[0] * v[1] - b[1] * v[0]]
        return math.sqrt(sum(c * c for c in cross)) / self.B(i, j)

    def flow_angle(self, i, j, k=0, l=0, n=0):
        return math.acos(max(-1.0, min(1.0, self.dot('B', 'V', i, j) / self.B(i, j) / self.V(i, j))))

    def div_v(self, i, j, k, l, n):
        N = range(self.ds.size['time'])
        return -gradient([math.log(self.v['Rho'](a, j)) for a in N], [self.v['time'](a) for a in N], i)

    def density_ratio(self, i, j, k, l, n):
        return self.v['Rho'](i, j) / self.v['Rho'](0, j)

    def rigidity(self, i, j, k, l, n, energy=None):
        m, q = self.v['mass'](0, 0, k), self.v['charge'](0, 0, k)
        e = self.v['egrid'](0, 0, k, l) if energy is None else energy
        return math.sqrt(e * e + 2 * e * m * C * C) / C / q

    def mfp(self, i, j, k, l, n=0):
        g = self.rigidity(0, 0, k, l, 0) / self.rigidity(0, 0, k, 0, 0, energy=1e6 * EV)
        return self.p['lambda0'] * AU * (self.v['R'](i, j) / AU) ** self.p['mfp_radial_power'] * g ** self.p['rigidity_power']

    def acceleration_rate(self, i, j, k, l, n):
        last = self.ds.size['shell'] - 1
        a, b = min(j + 1, last), max(j - 1, 0)
        v1 = [self.v[f'V{c}'](i, a) for c in 'rtp']
        v2 = [self.v[f'V{c}'](i, b) for c in 'rtp']
        m1 = math.sqrt(sum(c * c for c in v1))
        dv = m1 * abs(1 - sum(x * y for x, y in zip(v1, v2)) / (m1 * m1))

        def kxx_vx(s):
            ang = self.flow_angle(i, s)
            kxx = math.cos(ang) ** 2 + self.p['kper_kpar'] * math.sin(ang) ** 2
            return self.mfp(i, s, k, l) * kxx * self.v['vgrid'](0, 0, k, l) / 3 / self.V(i, s)
        return dv / (3 * (kxx_vx(a) + kxx_vx(b)))

    def isodist(self, i, j, k, l, n=0):
        N = self.ds.size['mu']
        return sum(self.v['Dist'](i, j, k, l, m) for m in range(N)) / N

    def _sum_v(self, power, i, j, k):
        N = range(self.ds.size['energy'])
        v = [self.v['vgrid'](0, 0, k, a) for a in N]
        one = [float(a) for a in N]
        return sum(v[a] ** power * self.isodist(i, j, k, a) * gradient(v, one, a) for a in N)

    def energy_density(self, i, j, k, l, n):
        return MP * self._sum_v(4, i, j, k)

    def average_energy(self, i, j, k, l, n):
        return 0.5 * MP * self._sum_v(4, i, j, k) / self._sum_v(2, i, j, k)

    def flux(self, i, j, k, l, n=0):
        if 'flux' in self.v:
            return self.v['flux'](i, j, k, l)
        return 2 * self.v['egrid'](0, 0, k, l) / MP ** 2 * self.isodist(i, j, k, l)

    def fluence(self, i, j, k, l, n):
        N = range(self.ds.size['time'])
        return simpson([self.v['time'](a) for a in N], [self.flux(a, j, k, l) for a in N])

    def integral_flux(self, i, j, k, l, n):
        N = range(self.ds.size['energy'])
        e = [self.v['egrid'](0, 0, k, a) for a in N]
        f = [self.flux(i, j, k, a) for a in N]
        m = self.p['minimum_energy']
        if m >= e[0]:
            a = max(q for q in N if e[q] <= m * (1 + 1e-12))
            beta = math.log(f[a + 1] / f[a]) / math.log(e[a + 1] / e[a])
            f = [f[a] * (m / e[a]) ** beta, *f[a + 1:]]
            e = [m, *e[a + 1:]]
        return simpson(e, f)


TS = ('time', 'shell')
SE = ('time', 'shell', 'species', 'energy')
# name: (aliases, dimensions, factor from SI to cgs, parameters)
E7 = 1e7
QUANTITIES = {
    'x': (['x', 'X'], TS, 1e2, ()),
    'y': (['y', 'Y'], TS, 1e2, ()),
    'z': (['z', 'Z'], TS, 1e2, ()),
    'B': (['B', 'b_mag', '|B|', 'bmag', 'b mag'], TS, 1e4, ()),
    'V': (['V', 'v_mag', '|V|', 'vmag', 'v', '|v|'], TS, 1e2, ()),
    'BV': (['BV', 'bv_mag', 'bv', '|bv|', '|BV|'], TS, 1e6, ()),
    'Vpara': (['Vpara', 'v_para', 'vpara'], TS, 1e2, ()),
    'Vperp': (['Vperp', 'v_perp', 'vperp'], TS, 1e2, ()),
    'flow_angle': (['flow_angle', 'flow angle', 'angle'], TS, 1.0, ()),
    'div_v': (['div_v', 'divV', 'div V', 'div(V)'], TS, 1.0, ()),
    'density_ratio': (['density_ratio', 'density ratio', 'n2/n1', 'n_2/n_1'], TS, 1.0, ()),
    'rigidity': (['rigidity', 'Rg', 'R_g'], ('species', 'energy'), None, ()),
    'mfp': (['mean_free_path', 'mean free path', 'mfp'], SE, 1e2, ('lambda0', 'mfp_radial_power', 'rigidity_power')),
    'acceleration_rate': (['acceleration_rate', 'acceleration rate'], SE, 1.0, ('kper_kpar',)),
    'isodist': (['isotropic_distribution', 'isotropic distribution', 'isodist'], SE, 1e-12, ()),
    'energy_density': (['energy_density', 'energy density'], SE[:3], 10.0, ()),
    'average_energy': (['average_energy', 'average energy'], SE[:3], E7, ()),
    'flux': (['flux', 'Flux', 'J', 'J(E)', 'j', 'j(E)'], SE, 1e-4 / E7, ()),
    'fluence': (['fluence'], SE[1:], 1e-4 / E7, ()),
    'integral_flux': (['integral_flux', 'integral flux'], (*SE[:3], 'minimum energy'), 1e-4, ('minimum_energy',)),
}
# p/q: kg m/s/C -> g cm/s/statC
QUANTITIES['rigidity'] = (*QUANTITIES['rigidity'][:2], 1e5 / (10 * 299792458.0), ())
UNITS = {
    'x': [('m', 1)], 'y': [('m', 1)], 'z': [('m', 1)], 'B': [('T', 1)], 'V': [('m', 1), ('s', -1)],
    'BV': [('T', 1), ('m', 1), ('s', -1)], 'Vpara': [('m', 1), ('s', -1)], 'Vperp': [('m', 1), ('s', -1)],
    'flow_angle': [('rad', 1)], 'div_v': [('s', -1)], 'density_ratio': [],
    'rigidity': [('kg', 1), ('m', 1), ('s', -1), ('C', -1)], 'mfp': [('m', 1)], 'acceleration_rate': [('s', -1)],
    'isodist': [('s', 3), ('m', -6)], 'energy_density': [('J', 1), ('m', -3)], 'average_energy': [('J', 1)],
    'flux': [('m', -2), ('s', -1), ('J', -1)], 'fluence': [('m', -2), ('J', -1)], 'integral_flux': [('m', -2), ('s', -1)],
}
CGS = {
    'kg': 'g', 'm': 'cm', 'T': 'G', 'C': 'statC', 'J': 'erg',
}


def available(ds, name):
    if name in ('isodist', 'energy_density', 'average_energy'):
        return 'Dist' in ds.file
    if name in ('flux', 'fluence', 'integral_flux'):
        return 'Dist' in ds.file or 'flux' in ds.file
    return True


def dims_of(ds, name):
    return QUANTITIES[name][1]


class Select(fixture.Select):
    """Selection over dimensions that may include 'minimum energy'."""

    def shape(self, dims):
        return tuple(1 if d == 'minimum energy' else len(self.stencils(d)) for d in dims)


def check_one(where, ds, name, got, select, parameters, system):
    dims = QUANTITIES[name][1]
    full = getattr(Physics(ds, parameters), name)
    if name == 'fluence':
        base = lambda i, j, k, l, n: full(0, j, k, l, n)
    else:
        base = full
    factor = QUANTITIES[name][2] if system == 'cgs' else 1.0
    p13.compare(where, got, dims, select, base, factor, check_labels=False, system=system, ds=ds)


# ---------------------------------------------------------------- observed
def observed_cases(tier):
    for name in DATASETS:
        ds = fixture.Dataset(**DATASETS[name])
        for system in ('mks', 'cgs'):
            for config in CONFIGS:
                for q in QUANTITIES:
                    if available(ds, q):
                        yield [name, system, config, q]


PARAMS = {
    'lambda0': [('lambda0', (0.5, 'au'), 0.5), ('lam0', [3.0e8, 'km'], 3.0e8 * 1e3 / AU), ('lamo', (1, 'au'), 1.0)],
    'mfp_radial_power': [('mfp_radial_power', 1.5, 1.5), ('mfpRadialPower', 0.25, 0.25), ('mfp_radial_power', 0, 0.0)],
    'rigidity_power': [('rigidity_power', 0.6, 0.6), ('rigidityPower', 0.0, 0.0), ('rigidity_power', (1.0, '1'), 1.0)],
    'kper_kpar': [('kper_kpar', 0.5, 0.5), ('kperxkpar', 0, 0.0), ('kper_kpar', 1, 1.0)],
    'minimum_energy': [
        ('minimum_energy', (0.7, 'MeV'), 0.7e6 * EV), ('Emin', (50, 'keV'), 5e4 * EV), ('minimum energy', [0.45, 'MeV'], 0.45e6 * EV),
        ('minimum_energy', (0.5, 'MeV'), 0.5e6 * EV), ('minimum_energy', (0.05, 'MeV'), 0.05e6 * EV), ('minimum_energy', (0.1, 'MeV'), 0.1e6 * EV),
        ('minimum_energy', (0.4, 'MeV'), 0.4e6 * EV), ('minimum_energy', 0, 0.0),
    ],
}


def observed_check(case, obs):
    name, system, config, q = case
    ds = scratch(name).ds
    s = stream(name, config, system)
    parameters = {**CONFIGS[config][1], 'minimum_energy': 0.0}
    aliases, dims, factor, names = QUANTITIES[q]
    unit = [(CGS.get(u, u) if system == 'cgs' else u, e) for u, e in UNITS[q]]
    for alias in aliases:
        quantity = s[alias]
        where = f"{alias!r} of dataset {name!r} in {system}"
        p13.check_unit(where, quantity.unit, unit)
        if tuple(quantity.dimensions) != tuple(dims):
            raise Violation(f"{where}: dimensions are {tuple(quantity.dimensions)}, not {dims}")
        got = quantity.observe()
        p13.check_unit(where, got.unit, unit)
        check_one(where, ds, q, got, Select(ds, {}), parameters, system)
        obs.step((name, system, config, alias))
    # parameters given with the observation
    for key in names:
        for alias, value, si in PARAMS[key]:
            if key == 'minimum_energy' and name in ('square', 'shared square') and si >= 0.5e6 * EV:
                continue        # not below the highest energy
            got = s[aliases[0]].observe(**{alias: value})
            check_one(f"{q} of dataset {name!r} in {system} with {alias}={value}", ds, q, got, Select(ds, {}), {**parameters, key: si}, system)
            obs.step((name, system, config, q, alias, repr(value)))
    # the assumptions reported with an observation are the ones that were used
    if q in ('mfp', 'integral_flux'):
        key = names[0]
        alias, value, si = PARAMS[key][2 if key == 'minimum_energy' else 0]
        for kw, want in (({}, parameters[key]), ({alias: value}, si)):
            got = s[aliases[0]].observe(**kw)
            f = {'lambda0': AU, 'minimum_energy': 1.0}[key] * (1.0 if system == 'mks' else {'lambda0': 1e2, 'minimum_energy': 1e7}[key])
            if key not in got.parameters or not math.isclose(float(got[key]), want * f, rel_tol=1e-9, abs_tol=1e-300):
                raise Violation(f"{q} with {kw} in {system}: parameters {got.parameters}, {key} = {got[key] if key in got.parameters else None}")
            obs.step((q, repr(kw)))


# ---------------------------------------------------------------- constrained
def constrained_cases(tier):
    sets = ('base', 'shared', 'stored flux') if tier == 'quick' else [n for n in DATASETS if 'square' not in n]
    for name in sets:
        ds = fixture.Dataset(**DATASETS[name])
        for q in QUANTITIES:
            if not available(ds, q):
                continue
            for system in ('mks', 'cgs') if tier == 'thorough' else ('cgs',):
                for c in options(ds, QUANTITIES[q][1], tier):
                    yield [name, system, q, c]


def options(ds, dims, tier):
    axes = [d for d in dims if d in fixture.AXES]
    choices = []
    for d in axes:
        o = p13.value_options(d, ds, 'quick')
        o = o[:3] if tier == 'quick' else o
        if d == 'shell':
            o = [['shell', x] for x in o] + [['radius', x] for x in p13.value_options('radius', ds, 'quick')[1:3]]
        else:
            o = [[d, x] for x in o]
        choices.append(o)
    for combo in itertools.product(*choices):
        yield [c for c in combo if c[1]]


def constrained_check(case, obs):
    name, system, q, combo = case
    ds = scratch(name).ds
    given = {a: c for a, c in combo}
    sel = Select(ds, {a: p13.meant(a, c, ds) for a, c in given.items()})
    dims = QUANTITIES[q][1]
    if not sel.inside([d for d in dims if d in fixture.AXES]):
        return
    # Radius depends on time, which a fluence no longer has.
    if q == 'fluence' and 'radius' in given:
        return
    key = (name, system)
    s = stream(name, 'plain', system)
    parameters = {**CONFIGS['plain'][1], 'minimum_energy': 0.0}
    where = f"{q} of dataset {name!r} in {system}, constraints {given}"
    try:
        got = s[q].observe(**{a: p13.user(a, c, system) for a, c in given.items()})
    except Exception as err:
        raise Violation(f"{where}: {type(err).__name__}: {err}")
    check_one(where, ds, q, got, sel, parameters, system)
    obs.step((name, q, repr(combo)))


# ---------------------------------------------------------------- functions of vectors
VECTORS = [v for v in itertools.product((-1, 0, 2), repeat=3) if any(v)]


def vector_cases(tier):
    for scale in (1.0, 1e-9, 3e5) if tier == 'quick' else (1.0, 1e-9, 3e5, 1e-30, 7e20):
        for b in VECTORS:
            yield [scale, list(b)]


def vector_check(case, obs):
    scale, b = case
    n = len(VECTORS)
    v = [numpy.array([[w[c] * 1e5 for w in VECTORS]]) for c in range(3)]
    B = [numpy.full((1, n), b[c] * scale) for c in range(3)]
    para = computed.v_para(*v, *B)
    perp = computed.v_perp(*v, *B)
    angle = computed.flow_angle(*B, *v)
    mag = computed.v_mag(*v)
    bmag = computed.b_mag(*B)
    bv = computed.bv_mag(*B, *v)
    lb = math.sqrt(sum(x * x for x in b))
    for i, w in enumerate(VECTORS):
        lv = math.sqrt(sum(x * x for x in w))
        dot = sum(x * y for x, y in zip(b, w))
        cross = math.sqrt(sum((b[a] * w[c] - b[c] * w[a]) ** 2 for a, c in ((0, 1), (1, 2), (2, 0))))
        want = {
            'v_para': dot / lb * 1e5, 'v_perp': cross / lb * 1e5, 'flow_angle': math.atan2(cross, dot),
            'v_mag': lv * 1e5, 'b_mag': lb * scale, 'bv_mag': lb * lv * scale * 1e5,
        }
        got = dict(v_para=para, v_perp=perp, flow_angle=angle, v_mag=mag, b_mag=bmag, bv_mag=bv)
        for key, x in want.items():
            y = float(got[key][0, i])
            tol = {'v_para': 1e-9 * lv * 1e5, 'v_perp': 1e-6 * lv * 1e5, 'flow_angle': 1e-6}.get(key, 1e-9 * abs(x))
            if not abs(x - y) <= tol:
                raise Violation(f"{key} for B = {b} * {scale} and V = {w} is {y!r}, not {x!r}")
        obs.step((b, w))


def spaces(tier):
    for name in DATASETS:
        scratch(name)
    return [
        Space('observed', observed_cases, observed_check, 'every computed quantity, every alias, 8 dataset shapes, 2 systems, 2 configurations, every parameter by every alias'),
        Space('constrained', constrained_cases, constrained_check, 'every computed quantity under all combinations of constraints on its axes and radius'),
        Space('vectors', vector_cases, vector_check, 'all pairs of field and velocity vectors with components in {-1, 0, 2}, at several magnitudes'),
    ]
