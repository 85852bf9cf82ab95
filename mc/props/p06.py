"""P06: dimensions, canonical units and metric systems are coherent."""
import itertools
from fractions import Fraction as F

from mc import units as U
from mc.core import Space, Violation
from mc.models import close

from goats.core import metric

ASSUMPTIONS = [
    'the reference dimension of each quantity is written from physics (SI and Gaussian), independently of the code',
    'products that mix electromagnetic units of one system with units of the other are not compared',
    'the ohm is compared up to the known finding',
]

# quantity: (SI dimension, Gaussian dimension)
TABLE_TEXT = """
acceleration: L T-2 | =
amount: N | =
area: L2 | =
capacitance: M-1 L-2 T4 I2 | L
charge: I T | M1/2 L3/2 T-1
charge density: I T L-3 | M1/2 L-3/2 T-1
conductance: M-1 L-2 T3 I2 | L T-1
conductivity: M-1 L-3 T3 I2 | T-1
current: I | M1/2 L3/2 T-2
current density: I L-2 | M1/2 L-1/2 T-2
displacement: I T L-2 | M1/2 L-1/2 T-1
dosage: L2 T-2 | =
electric charge: I T | M1/2 L3/2 T-1
electric field: M L T-3 I-1 | M1/2 L-1/2 T-1
electromotance: M L2 T-3 I-1 | M1/2 L1/2 T-1
energy: M L2 T-2 | =
energy density: M L-1 T-2 | =
fluence: M-1 L-4 T2 | =
flux: M-1 L-4 T | =
force: M L T-2 | =
frequency: T-1 | =
identity: |
illuminance: J L-2 | =
impedance: M L2 T-3 I-2 | T L-1
inductance: M L2 T-2 I-2 | T2 L-1
induction: M T-2 I-1 | M1/2 L-1/2 T-1
integral flux: L-2 T-1 | =
length: L | =
luminous flux: J | =
luminous intensity: J | =
magnetic field: M T-2 I-1 | M1/2 L-1/2 T-1
magnetic flux: M L2 T-2 I-1 | M1/2 L3/2 T-1
magnetic induction: M T-2 I-1 | M1/2 L-1/2 T-1
magnetic intensity: I L-1 | M1/2 L-1/2 T-1
magnetic moment: I L2 | M1/2 L5/2 T-1
magnetization: I L-1 | M1/2 L-1/2 T-1
magnetomotance: I | M1/2 L3/2 T-2
mass: M | =
mass density: M L-3 | =
mass number: |
momentum: M L T-1 | =
momentum density: M L-2 T-1 | =
number: |
number density: L-3 | =
particle distribution: L-6 T3 | =
particle fluence: M-1 L-4 T2 | =
particle flux: M-1 L-4 T | =
permeability: M L T-2 I-2 |
permittivity: M-1 L-3 T4 I2 |
plane angle: |
polarization: I T L-2 | M1/2 L-1/2 T-1
potential: M L2 T-3 I-1 | M1/2 L1/2 T-1
power: M L2 T-3 | =
power density: M L-1 T-3 | =
pressure: M L-1 T-2 | =
radioactivity: T-1 | =
ratio: |
reluctance: M-1 L-2 T2 I2 | L-1
resistance: M L2 T-3 I-2 | T L-1
resistivity: M L3 T-3 I-2 | T
temperature: H | =
thermal conductivity: M L T-3 H-1 | =
time: T | =
solid angle: |
speed: L T-1 | =
vector potential: M L T-2 I-1 | M1/2 L1/2 T-1
velocity: L T-1 | =
viscosity: M L-1 T-1 | =
volume: L3 | =
vorticity: T-1 | =
wavenumber: L-1 | =
work: M L2 T-2 | =
"""
OHMIC = {'impedance', 'resistance', 'resistivity'}
"""The known finding: goats gives these one power of current too few."""


def parse_dim(text):
    return {t[0]: F(t[1:] or 1) for t in text.split()}


TABLE = {}
for _line in TABLE_TEXT.strip().splitlines():
    _name, _dims = _line.split(':')
    _si, _g = _dims.split('|')
    TABLE[_name] = {'mks': parse_dim(_si), 'cgs': parse_dim(_si if _g.strip() == '=' else _g)}
NAMES = list(TABLE)
SYSTEM = {'mks': 'SI', 'cgs': 'G'}


def vector(expr):
    """A dimension expression -> {symbol: exponent}."""
    if expr is None:
        return None
    out = {}
    for term in expr:
        if term.coefficient != 1:
            raise Violation(f"the dimension {expr} has a coefficient")
        if term.base != '1' and term.exponent:
            out[term.base] = F(term.exponent).limit_denominator(1000)
    return out


def terms_of(unit):
    """A unit expression -> [(name, exponent)]."""
    out = []
    for term in unit:
        if term.coefficient != 1:
            raise Violation(f"the unit {unit} has a coefficient")
        if term.base != '1':
            out.append((term.base, F(term.exponent).limit_denominator(1000)))
    return out


def add(v, w, k=1):
    out = dict(v)
    for d, n in w.items():
        out[d] = out.get(d, 0) + k * n
    return {d: n for d, n in out.items() if n}


def show(v):
    return None if v is None else ' '.join(f'{k}^{n}' for k, n in sorted(v.items())) or '1'


def known_ohm(got, want, times):
    """True if the difference is the missing power(s) of current in the ohm."""
    return times and got == add(want, {'I': F(1)}, times)


def judge_dim(got, want, what, ohms=0):
    """Raises unless equal; returns the description of the known finding, if it is that."""
    if got == want:
        return None
    if known_ohm(got, want, ohms):
        return f"{what}: the dimension is {show(got)}, expected {show(want)}"
    raise Violation(f"{what}: the dimension is {show(got)}, expected {show(want)}")


def judge_unit(unit, system, want, what, scale=1.0, ohm=False):
    """`unit` has the dimension `want` and the size of the coherent unit of `system`."""
    factor, v = U.meaning(terms_of(unit), SYSTEM[system])
    if v != want:
        raise Violation(f"{what}: the unit {unit} has the dimension {show(v)}, expected {show(want)}")
    if not close(factor, scale):
        raise Violation(f"{what}: the unit {unit} is {factor} coherent units of {system}, expected {scale}")


SCALES = {('radioactivity', 'cgs'): 3.7e10}


def check_quantity(case, obs):
    name, system = case
    want = TABLE[name][system]
    ohms = (1 if system == 'mks' and name in OHMIC else 0)
    q = metric.Quantity(name)
    if q is not metric.Quantity(name.upper()) or q is not metric.Quantity(q) or q is not metric.Quantity(name.title()):
        raise Violation(f"Quantity({name!r}) is not a single object")
    if not (q == name and q == name.upper() and str(q) == name):
        raise Violation(f"Quantity({name!r}) does not equal its name")
    scale = SCALES.get((name, system), 1.0)
    s = metric.System(system)
    routes = {
        'Quantity': q[system], 'upper': q[system.upper()], 'System': s[name], 'System by quantity': s[q],
        'values': dict(s.items())[name], 'case': metric.System(system.upper())[name.upper()],
    }
    for route, p in routes.items():
        obs.step((name, system, str(p.unit)))
        judge_unit(p.unit, system, want, f"{name} in {system} by {route}", scale)
    for route, unit in (
        ('get_unit(quantity)', s.get_unit(quantity=name)), ('get_unit(Quantity)', s.get_unit(quantity=q)),
        ('units', metric.Unit(q.units[system])), ('System.units', metric.Unit(s.units[name])),
        ('get_unit(unit)', s.get_unit(unit=q[system].unit)),
    ):
        obs.step()
        judge_unit(unit, system, want, f"{name} in {system} by {route}", scale)
    if not (q[system] == s[name]):
        raise Violation(f"{name} differs between Quantity and System in {system}")
    for route, d in (
        ('Properties', q[system].dimension), ('dimensions', metric.Dimension(q.dimensions[system])),
        ('System.dimensions', metric.Dimension(s.dimensions[name])),
    ):
        known = judge_dim(vector(d), want, f"{name} in {system} by {route}", ohms)
    if known:
        raise Violation(known, key='ohm-dimension')


def check_from_dimension(case, obs):
    name, system = case
    want = TABLE[name][system]
    if name in OHMIC and system == 'mks':
        want = add(want, {'I': F(1)})
    s = metric.System(system)
    forms = [show(want), ' * '.join(f'{k}^{n}' for k, n in sorted(want.items(), reverse=True)) or '1']
    for form in forms + [metric.Dimension(forms[0])]:
        obs.step((show(want), system))
        unit = s.get_unit(dimension=form)
        factor, v = U.meaning(terms_of(unit), SYSTEM[system])
        if name in OHMIC and system == 'mks':
            v = add(v, {'I': F(1)}, sum(e for n, e in terms_of(unit) if n in ('Ω', 'ohm')))
        if v != want:
            raise Violation(f"the unit with dimension {form} in {system} is {unit}, of dimension {show(v)}")
        if not close(factor, 1.0):
            raise Violation(f"the unit with dimension {form} in {system} is {unit}, which is not coherent")
        dim = metric.Dimension(form)
        got = dim.quantities(system) & set(NAMES)
        right = {n for n in NAMES
                 if (add(TABLE[n][system], {'I': F(1)}) if n in OHMIC and system == 'mks' else TABLE[n][system]) == want}
        if got != right:
            raise Violation(f"the quantities with dimension {form} in {system} are {sorted(got)}, expected {sorted(right)}")


COMPOSITES = [
    ('{a} * {b}', 1, 1), ('{a} / {b}', 1, -1), ('{a}^2 * {b}^-1', 2, -1), ('1 / ({a} * {b}^1/2)', -1, F(-1, 2)), ('{a} {b}', 1, 1),
]


def composite_cases(tier):
    return [[i, a] for i in range(len(COMPOSITES)) for a in NAMES]


def check_composite(case, obs):
    """A compound quantity has the product of its parts' dimensions and units."""
    i, a = case
    form, x, y = COMPOSITES[i]
    for b in NAMES:
        if form == '{a} {b}' and ' ' in f'{a}{b}':
            continue  # two-word names side by side can spell another quantity
        if form == '{a} {b}' and f'{a} {b}' in TABLE:
            continue
        text = form.format(a=a, b=b)
        q = metric.Quantity(text if (i + len(b)) % 2 else text.upper())
        for system in ('mks', 'cgs'):
            obs.step((text, system))
            want = add({k: n * x for k, n in TABLE[a][system].items()}, TABLE[b][system], y)
            want = {k: n for k, n in want.items() if n}
            scale = SCALES.get((a, system), 1.0) ** float(x) * SCALES.get((b, system), 1.0) ** float(y)
            judge_unit(metric.Unit(q.units[system]), system, want, f"{text!r} in {system}", scale)
            judge_unit(q[system].unit, system, want, f"{text!r} in {system}", scale)
            fix = (x if a in OHMIC else 0) + (y if b in OHMIC else 0) if system == 'mks' else 0
            for d in (q.dimensions[system],):
                got = vector(metric.Dimension(d))
                if got != add(want, {'I': F(1)}, fix):
                    raise Violation(f"{text!r} in {system} has the dimension {show(got)}, expected {show(want)}")


def check_equivalence(case, obs):
    """q | r if and only if their dimensions agree in both systems."""
    a = case[0]
    q = metric.Quantity(a)
    for b in NAMES:
        r = metric.Quantity(b)
        obs.step((a, b))
        adj = lambda n, s: add(TABLE[n][s], {'I': F(1)}) if n in OHMIC and s == 'mks' else TABLE[n][s]
        want = all(adj(a, s) == adj(b, s) for s in ('mks', 'cgs'))
        if bool(q | r) != want:
            raise Violation(f"({a} | {b}) is {q | r}, expected {want}")
        if (q == r) != (a == b) or (q == b) != (a == b):
            raise Violation(f"({a} == {b}) is {q == r}")


# -- units ----------------------------------------------------------------

MKS_ONLY = {'J', 'N', 'Pa', 'W', 'C', 'V', 'S', 'F', 'Wb', 'T', 'H', 'A', 'Ω', 'Gy', 'Bq'}
CGS_ONLY = {'erg', 'dyn', 'statC', 'statA', 'statV', 'Mx', 'Oe', 'G', 'P', 'Ci'}


def allowed(name):
    b = U.NAMES[name][1]
    return {'mks'} if b in MKS_ONLY else {'cgs'} if b in CGS_ONLY else {'mks', 'cgs'}


def mechanical(name):
    info = U.BASE[U.NAMES[name][1]]
    return info[3] == info[5]


def model_dimension(terms, system):
    """The dimension of a product in `system`; None if undefined; 'any' if not compared."""
    if terms and not any(system in allowed(n) for n, _ in terms):
        return None
    for n, _ in terms:
        if system not in allowed(n) and not mechanical(n):
            return 'any'
    return U.meaning(terms, SYSTEM[system])[1]


def judge_terms(terms, text, obs):
    unit, known = metric.Unit(text), None
    ohms = sum(e for n, e in terms if U.NAMES[n][1] == 'Ω')
    for system in ('mks', 'cgs'):
        want = model_dimension(terms, system)
        obs.step((text, system, show(want) if want != 'any' else 'any'))
        if want == 'any':
            continue
        got = vector(unit.dimensions[system])
        known = known or judge_dim(got, want, f"Unit({text!r}) in {system}", ohms if system == 'mks' else 0)
        # the canonical unit of the same quantity
        norm = unit.norm[system]
        v0 = U.meaning(terms, SYSTEM[system])[1]
        scale = 1.0
        for n, e in terms:
            if U.NAMES[n][1] in ('Bq', 'Ci') and system == 'cgs':
                scale *= 3.7e10 ** float(e)
        judge_unit(norm, system, v0, f"Unit({text!r}).norm[{system!r}]", scale)
        canonical = metric.System(system).get_unit(unit=text)
        judge_unit(canonical, system, v0, f"get_unit(unit={text!r}) in {system}", scale)
    wants = [model_dimension(terms, s) for s in ('mks', 'cgs')]
    if 'any' not in wants:
        if unit.dimensionless != all(w == {} for w in wants):
            raise Violation(f"Unit({text!r}).dimensionless is {unit.dimensionless}")
    return known


def single_cases(tier):
    return [[b, e] for b in U.BASE for e in ('1', '2', '-1', '1/2', '-3')]


def check_single(case, obs):
    b, e = case
    for p in U.PREFIXES:
        for name in {U.symbol(p, b), f'{U.PREFIXES[p][0]}{U.BASE[b][0]}' if ' ' not in U.BASE[b][0] else U.symbol(p, b)}:
            known = judge_terms([(name, F(e))], name if e == '1' else f'{name}^{e}', obs)
    if known:
        raise Violation(known, key='ohm-dimension')


POOL = ['m', 'cm', 'au', 'kg', 'g', 's', 'd', 'K', 'mol', 'cd', 'A', 'rad', 'deg', 'sr', 'Hz', 'J', 'erg', 'eV', 'N', 'dyn', 'Pa', 'W', 'C', 'statC',
        'statA', 'statV', 'e', 'V', 'S', 'F', 'Wb', 'Mx', 'H', 'T', 'nT', 'G', 'lm', 'lx', 'Gy', 'P', 'nuc', '#', 'MeV']


def pair_cases(tier):
    exps = [(1, -1), (1, 1), (2, -1), (-1, F(1, 2))] if tier == 'thorough' else [(1, -1), (2, F(1, 2))]
    return [[a, str(e), str(f)] for a in POOL for e, f in exps]


def check_pair(case, obs):
    a, e, f = case[0], F(case[1]), F(case[2])
    for b in POOL:
        if b != a:
            t = [(a, e), (b, f)]
            for style in (0, 2):
                judge_terms(t, U.text(t, style), obs)


def triple_cases(tier):
    pool = ['km', 's', 'J', 'erg', 'MeV', 'nuc', 'sr', 'T', 'G', 'g', 'statC', 'C', 'A'] if tier == 'thorough' else ['km', 's', 'J', 'erg', 'nuc', 'sr', 'G', 'C']
    return [list(x) for x in itertools.combinations(pool, 3)]


def check_triple(case, obs):
    for e in itertools.product((1, -1, 2), repeat=3):
        t = list(zip(case, e))
        judge_terms(t, U.text(t, 2), obs)


def consistent(t0, t1):
    """True, False, or None where nothing is required."""
    for system in ('mks', 'cgs'):
        if all(system in allowed(n) for n, _ in t0 + t1):
            if U.meaning(t0, SYSTEM[system])[1] == U.meaning(t1, SYSTEM[system])[1]:
                return True
    if len(t0) == len(t1) == 1:
        if U.BASE[U.NAMES[t0[0][0]][1]][1] == U.BASE[U.NAMES[t1[0][0]][1]][1] and t0[0][1] == t1[0][1]:
            return True
    if U.ratio(t0, t1):
        return None
    return False


def or_cases(tier):
    return [[a] for a in POOL]


def check_or(case, obs):
    """u | v is true for units of equal dimension or of one quantity, false for incommensurable ones."""
    a = case[0]
    for b in POOL:
        for t0, t1 in (
            ([(a, F(1))], [(b, F(1))]), ([(a, F(2))], [(b, F(2))]), ([(a, F(1)), ('s', F(-1))], [(b, F(1)), ('h', F(-1))]),
            ([(a, F(1))], [(b, F(-1))]), ([(a, F(1)), ('m', F(1))], [(b, F(1))]),
        ):
            if any(n in ('s', 'm', 'h') for n in (a, b)) and len(t0) == 2:
                continue
            want = consistent(t0, t1)
            x, y = U.text(t0, 0), U.text(t1, 2)
            obs.step((x, y, want))
            if want is None:
                continue
            got = [metric.Unit(x) | metric.Unit(y), metric.Unit(x) | y, metric.Unit(y) | x, x | metric.Unit(y)]
            if any(bool(g) != want for g in got):
                raise Violation(f"({x} | {y}) is {got}, expected {want}")


def system_cases(tier):
    return ['identity', 'keys', 'precedence', 'unknown']


def check_systems(case, obs):
    obs.step(case)
    mks, cgs = metric.System('mks'), metric.System('cgs')
    if case == 'identity':
        if not (metric.System('MKS') is mks is metric.System(mks)) or mks == cgs or not mks or not (mks == metric.System('mks')):
            raise Violation('systems are not singletons')
    if case == 'keys':
        for s in (mks, cgs):
            missing = [n for n in NAMES if n not in s or n not in set(s) or n not in s.keys()]
            if missing or len(s) != len(list(s)) or len(s.values()) != len(s):
                raise Violation(f"{s} lacks {missing}")
    if case == 'precedence':
        for s, want in ((mks, 'm'), (cgs, 'cm')):
            got = [s.get_unit(unit='km', dimension='M', quantity='time'), s.get_unit(dimension='L', quantity='time'), s.get_unit(quantity='length')]
            if [terms_of(g) for g in got] != [[(want, 1)]] * 3:
                raise Violation(f"get_unit precedence in {s}: {got}")
            if terms_of(s.get_unit(unit='1')) != [] or terms_of(s.get_unit(dimension='1')) != []:
                raise Violation(f"get_unit of unity in {s}")
    if case == 'unknown':
        from mc.props.p03 import raises
        for f in (
            lambda: metric.Quantity('bogus'), lambda: mks['bogus'], lambda: mks.get_unit(quantity='bogus'),
            lambda: mks.get_unit(dimension='L^17'), lambda: mks.get_unit(), lambda: metric.System('fps'),
            lambda: metric.Quantity('length / bogus'),
        ):
            if not raises(KeyError, f):
                raise Violation('an unknown name did not raise KeyError')
        if 'bogus' in mks:
            raise Violation("'bogus' is in mks")
        if not raises(metric.QuantityError, lambda: metric.Quantity('energy')['fps']):
            raise Violation('unknown system')
        if not raises(metric.UnitParsingError, lambda: metric.Unit('bogus').dimensions):
            raise Violation('unknown unit')


def spaces(tier):
    both = lambda t: [[n, s] for n in NAMES for s in ('mks', 'cgs')]
    return [
        Space('quantities', both, check_quantity, f'{len(NAMES)} quantities x 2 systems x 11 routes to the unit and 3 to the dimension'),
        Space('from dimension', both, check_from_dimension, 'every dimension of the table, 3 spellings: the unit and the quantities it stands for'),
        Space('composites', composite_cases, check_composite, f'all {len(NAMES)}^2 pairs x {len(COMPOSITES)} forms x 2 systems'),
        Space('equivalence', lambda t: [[n] for n in NAMES], check_equivalence, f'all {len(NAMES)}^2 pairs'),
        Space('units', single_cases, check_single, '47 base units x 21 prefixes x 5 powers, symbol and name'),
        Space('unit pairs', pair_cases, check_pair, f'all ordered pairs of {len(POOL)} units x 2 (4) exponent pairs x 2 spellings'),
        Space('unit triples', triple_cases, check_triple, 'all triples of 8 (13) units x 27 exponent triples'),
        Space('consistency', or_cases, check_or, f'all pairs of {len(POOL)} units x 5 products'),
        Space('systems', system_cases, check_systems, 'identity, keys, precedence, unknown names'),
    ]
