"""P05: a unit conversion, when it is given, is the physical ratio of the units."""
import itertools
from fractions import Fraction as F

from mc import units as U
from mc.core import Space, Violation
from mc.models import close, round_sig

from goats.core import metric

ASSUMPTIONS = [
    'the reference table in mc/units.py holds the physical meaning of every unit (SI and Gaussian)',
    'conversions that goats refuses are checked only where the units measure the same quantity term by term',
    'the ohm is kept out of dimensional comparisons (see the known finding)',
]


def convert(a, b):
    """conversion(), agreeing with its strict form and its other spellings."""
    got = metric.conversion(a, b)
    try:
        strict = metric.conversion(a, b, strict=True)
    except metric.UnitConversionError:
        strict = None
    if strict != got:
        raise Violation(f"conversion({a!r}, {b!r}) is {got} but {strict} when strict")
    return got


def judge(t0, t1, a, b, required, obs):
    got = convert(a, b)
    right = U.ratio(t0, t1)
    obs.step((a, b, None if got is None else round_sig(got)))
    if got is None:
        if required:
            raise Violation(f"conversion({a!r}, {b!r}) is refused, expected {right[0][0]}")
        return None
    if (a, b) in U.SPECIAL or (b, a) in U.SPECIAL:
        want = U.SPECIAL.get((a, b)) or 1 / U.SPECIAL[(b, a)]
    elif not right:
        raise Violation(f"conversion({a!r}, {b!r}) is {got}, but the units have different dimensions")
    else:
        want = right[0][0]
    if not close(got, want):
        raise Violation(f"conversion({a!r}, {b!r}) is {got}, expected {want}")
    return got


# -- pairs of named units -------------------------------------------------

QUANTITIES = {}
for _b, _i in U.BASE.items():
    QUANTITIES.setdefault(_i[1], []).append(_b)


def same_quantity(tier):
    for q, bases in QUANTITIES.items():
        for b0, b1 in itertools.product(bases, repeat=2):
            for p0 in U.PREFIXES:
                yield [b0, b1, p0]


def check_same(case, obs):
    b0, b1, p0 = case
    a = U.symbol(p0, b0)
    for p1 in U.PREFIXES:
        b = U.symbol(p1, b1)
        there = judge([(a, 1)], [(b, 1)], a, b, True, obs)
        back = judge([(b, 1)], [(a, 1)], b, a, True, obs)
        if not close(there * back, 1.0, 1e-12):
            raise Violation(f"{a} -> {b} -> {a} multiplies by {there * back}")
        for e in (2, -1, -3):
            if e == 2 or p1 in ('', 'k', 'c'):
                judge([(a, e)], [(b, e)], f'{a}^{e}', f'{b}^{e}', False, obs)


def all_pairs(tier):
    for b0 in U.BASE:
        for p0 in ('', 'k', 'm') if tier == 'quick' else ('', 'k', 'm', 'c', 'M', 'μ', 'n'):
            yield [b0, p0]


def ohm(a, b):
    return 'Ω' in (U.NAMES[a][1], U.NAMES[b][1]) and U.NAMES[a][1] != U.NAMES[b][1]


def check_pairs(case, obs):
    b0, p0 = case
    a = U.symbol(p0, b0)
    for b1 in U.BASE:
        for p1 in ('', 'k', 'c'):
            b = U.symbol(p1, b1)
            if ohm(a, b):
                continue
            judge([(a, 1)], [(b, 1)], a, b, False, obs)
            judge([(a, 1)], [(b, -1)], a, f'{b}^-1', False, obs)


def ohm_cases(tier):
    return [['Ω', 'V'], ['V', 'Ω'], ['ohm', 'volt'], ['Ω', 'V / A'], ['V', 'Ω * A'], ['Ω', 's / cm'], ['kΩ', 'Ω'], ['milliohm', 'ohm']]


def check_ohm(case, obs):
    a, b = case
    parse = {
        'V / A': [('V', 1), ('A', -1)], 'Ω * A': [('Ω', 1), ('A', 1)], 's / cm': [('s', 1), ('cm', -1)],
    }
    t0, t1 = parse.get(a, [(a, 1)]), parse.get(b, [(b, 1)])
    try:
        judge(t0, t1, a, b, b == 's / cm' or len(t1) == 1 and U.NAMES[a][1] == U.NAMES[b][1], obs)
    except Violation as err:
        if {a, b} in ({'Ω', 'V'}, {'ohm', 'volt'}) and metric.conversion(a, b) == 1.0:
            raise Violation(err.message, 'ohm-and-volt-have-equal-dimensions')
        raise


# -- names ----------------------------------------------------------------


def name_cases(tier):
    return [[b, p] for b in U.BASE for p in U.PREFIXES]


def check_name(case, obs):
    """Each string that names a prefixed unit names that unit and no other."""
    b, p = case
    symbol, name = U.symbol(p, b), f'{U.PREFIXES[p][0]}{U.BASE[b][0]}'
    strings = {symbol, name} | ({f'u{b}'} if p == 'μ' else set())
    first = metric.NamedUnit(name)
    for s in sorted(strings):
        unit = metric.NamedUnit(s)
        obs.step((s, b, p))
        seen = (unit.base.symbol, unit.base.name, unit.base.quantity, unit.prefix.symbol, unit.prefix.name)
        want = (b, U.BASE[b][0], U.BASE[b][1], p, U.PREFIXES[p][0])
        if seen != want:
            raise Violation(f"{s!r} is {seen}, expected {want}")
        if not close(unit.scale, 10.0 ** U.PREFIXES[p][1], 1e-14) or unit.quantity != U.BASE[b][1] or unit.name != name:
            raise Violation(f"{s!r} has scale {unit.scale}, quantity {unit.quantity!r} and name {unit.name!r}")
        if not (unit == first and hash(unit) == hash(first)) or unit is not first:
            raise Violation(f"{s!r} and {name!r} are different units")
        mag, ref = metric.identify(s)
        if mag != unit.prefix or ref != unit.base:
            raise Violation(f"identify({s!r}) disagrees with the named unit")
        for p1 in U.PREFIXES:
            other = U.symbol(p1, b)
            want = 10.0 ** (U.PREFIXES[p][1] - U.PREFIXES[p1][1])
            for got in (metric.ratio(s, other), metric.NamedUnit(other) // s, other // metric.NamedUnit(s)):
                if not close(got, want, 1e-12):
                    raise Violation(f"ratio({s!r}, {other!r}) is {got}, expected {want}")
            if (unit == other) != (p1 == p):
                raise Violation(f"({s!r} == {other!r}) is {unit == other}")
    for other in U.BASE:
        if other != b:
            try:
                got = metric.ratio(name, other)
            except ValueError:
                continue
            raise Violation(f"ratio({name!r}, {other!r}) is {got}, expected ValueError")


# -- products -------------------------------------------------------------

TERMS = ['m', 'cm', 'au', 'kg', 's', 'h', 'J', 'MeV', 'erg', 'nuc', 'sr', 'deg', 'nT', 'G', 'C', 'statC', 'V', 'N', 'dyn', 'mrad', 'A']
EXPONENTS = [(1, -1), (1, 1), (-2, 1), (3, -6), (2, -1), (F(1, 2), -1), (F(-3, 2), F(5, 2))]


def q_of(name):
    return U.BASE[U.NAMES[name][1]][1]


def substitutions(tier):
    for a, b in itertools.permutations(TERMS, 2):
        if q_of(a) != q_of(b):
            yield [a, b]


def check_substitution(case, obs):
    """Replacing each term by another unit of the same quantity converts."""
    a, b = case
    for e, f in EXPONENTS:
        for a2 in TERMS:
            if q_of(a2) != q_of(a):
                continue
            for b2 in TERMS:
                if q_of(b2) != q_of(b):
                    continue
                t0, t1 = [(a, e), (b, f)], [(b2, f), (a2, e)]
                for s in range(3):
                    judge(t0, t1, U.text(t0, s), U.text(t1, (s + 2) % 3), True, obs)


def triples(tier):
    pool = ['m', 'cm', 's', 'd', 'MeV', 'erg', 'nuc', 'sr', 'nT', 'statC', 'au']
    for a, b, c in itertools.permutations(pool, 3):
        if len({q_of(a), q_of(b), q_of(c)}) == 3:
            yield [a, b, c]


def check_triple(case, obs):
    alt = {'length': 'km', 'time': 'min', 'energy': 'keV', 'mass number': 'amu', 'solid angle': 'sr', 'induction': 'μG', 'charge': 'nC'}
    for e in ((1, -1, -2), (-2, -1, 1), (1, 2, 3)):
        t0 = list(zip(case, e))
        t1 = [(alt[q_of(n)], x) for n, x in t0]
        for s in range(3):
            u = t1 if s == 0 else t1[s:] + t1[:s]
            judge(t0, u, U.text(t0, s), U.text(u, (s + 1) % 3), True, obs)


SMALL = ['m', 'cm', 's', 'kg', 'g', 'J', 'eV', 'N', 'V', 'C', 'A', 'T', 'G', 'nuc', 'deg', 'Pa', 'F', 'erg', 'statC', 'h', 'Hz']


def mismatched(tier):
    exps = (1, -1, 2)
    for a in SMALL:
        for e in exps:
            for b in SMALL:
                if b != a:
                    yield [a, e, b]


def check_mismatched(case, obs):
    """Any product into any other product of two: the right factor or none."""
    a, e, b = case
    for f in (1, -1):
        t0 = [(a, e), (b, f)]
        for c in SMALL:
            for g in (1, -1, 2) if not DEEP else (1, -1, 2, -3):
                judge(t0, [(c, g)], U.text(t0, 0), U.text([(c, g)], 2), False, obs)
                if DEEP:
                    judge([(c, g)], t0, U.text([(c, g)], 2), U.text(t0, 2), False, obs)


def mismatched_deep(tier):
    if tier == 'quick':
        return
    for a, b in itertools.permutations(SMALL, 2):
        yield [a, b]


def check_mismatched_deep(case, obs):
    a, b = case
    for e, f in ((1, -1), (2, -1)):
        t0 = [(a, e), (b, f)]
        for c, d in itertools.permutations(SMALL, 2):
            for g, h in ((1, -1), (1, 1), (-2, 1)):
                t1 = [(c, g), (d, h)]
                judge(t0, t1, U.text(t0, 0), U.text(t1, 2), False, obs)


# -- coherence ------------------------------------------------------------

SI = {'M': 'kg', 'L': 'm', 'T': 's', 'I': 'A', 'H': 'K', 'N': 'mol', 'J': 'cd'}
COHERENT = ['J', 'N', 'Pa', 'W', 'C', 'V', 'S', 'F', 'Wb', 'H', 'T', 'Gy']
CGS = {'M': 'g', 'L': 'cm', 'T': 's'}
COHERENT_CGS = ['erg', 'dyn', 'P', 'statC', 'statA', 'statV', 'Mx', 'Oe', 'G']


def coherent(tier):
    for u in COHERENT:
        for p in U.PREFIXES:
            yield [u, p, 'SI']
    for u in COHERENT_CGS:
        for p in U.PREFIXES:
            yield [u, p, 'G']


def check_coherent(case, obs):
    """A derived unit converts to the base units that define it."""
    u, p, system = case
    a = U.symbol(p, u)
    vector = U.BASE[u][3 if system == 'SI' else 5]
    names = SI if system == 'SI' else CGS
    t1 = [(names[k], n) for k, n in vector.items()]
    want = 10.0 ** U.PREFIXES[p][1]
    for order in itertools.permutations(t1):
        b = U.text(list(order), 0)
        for x, y, w in ((a, b, want), (b, a, 1 / want)):
            got = convert(x, y)
            obs.step((x, y))
            if got is None or not close(got, w):
                raise Violation(f"conversion({x!r}, {y!r}) is {got}, expected {w}")
        for e in (2, -1):
            te = [(n, x * e) for n, x in order]
            got = convert(f'{a}^{e}', U.text(te, 0))
            if got is None or not close(got, want ** e):
                raise Violation(f"conversion('{a}^{e}', {U.text(te, 0)!r}) is {got}, expected {want ** e}")


RELATIONS = [
    ('V * A', 'W'), ('J / s', 'W'), ('N * m', 'J'), ('J / C', 'V'), ('C / V', 'F'), ('Wb / m^2', 'T'), ('V * s', 'Wb'), ('Wb / A', 'H'),
    ('A / V', 'S'), ('J / kg', 'Gy'), ('N / m^2', 'Pa'), ('A * s', 'C'), ('V / m', 'N / C'), ('J / m^3', 'Pa'), ('T * m / s', 'V / m'),
    ('C * V', 'J'), ('F * V^2', 'J'), ('H * A^2', 'J'), ('T^2 * m^3 / H', 'J / m'), ('Pa * s', 'kg / (m * s)'), ('W * s', 'N * m'),
    ('dyn * cm', 'erg'), ('dyn / cm^2', 'erg / cm^3'), ('statC^2 / cm', 'erg'), ('statV * statC', 'erg'), ('G * cm^2', 'Mx'), ('statC / s', 'statA'),
    ('statC / cm', 'statV'), ('G^2 * cm^3', 'erg'), ('erg / g', 'cm^2 / s^2'),
]


def relation_cases(tier):
    return [[a, b, d] for a, b in RELATIONS for d in (0, 1)]


def check_relation(case, obs):
    a, b, d = case
    if d:
        a, b = b, a
    got = convert(a, b)
    obs.step((a, b, got))
    if got is None or not close(got, 1.0):
        raise Violation(f"conversion({a!r}, {b!r}) is {got}, expected 1.0")


# -- between systems ------------------------------------------------------

# quantity: (SI unit, Gaussian unit, factor)
SYSTEMS = {
    'acceleration': 1e2, 'area': 1e4, 'capacitance': U.c**2 * 1e-5, 'charge': 10 * U.c, 'charge density': 1e-5 * U.c,
    'conductance': U.c**2 * 1e-5, 'current': 10 * U.c, 'current density': 1e-3 * U.c, 'dosage': 1e4, 'energy': 1e7,
    'energy density': 10.0, 'force': 1e5, 'frequency': 1.0, 'identity': 1.0, 'inductance': 1e5 / U.c**2, 'induction': 1e4, 'length': 1e2,
    'magnetic field': 1e4, 'magnetic flux': 1e8, 'magnetic intensity': 4e-3 * U.PI, 'mass': 1e3, 'mass density': 1e-3, 'momentum': 1e5,
    'number density': 1e-6, 'particle distribution': 1e-12, 'permeability': 1e7 / (4 * U.PI), 'permittivity': 36e9 * U.PI, 'potential': 1e6 / U.c,
    'power': 1e7, 'power density': 10.0, 'pressure': 10.0, 'radioactivity': 1 / 3.7e10, 'reluctance': 4e-9 * U.PI, 'resistance': 1e5 / U.c**2,
    'impedance': 1e5 / U.c**2, 'temperature': 1.0, 'time': 1.0, 'vector potential': 1e6, 'velocity': 1e2, 'viscosity': 10.0, 'volume': 1e6,
    'wavenumber': 1e-2, 'work': 1e7, 'electric charge': 10 * U.c, 'electric field': 1e4 / U.c, 'speed': 1e2, 'plane angle': 1.0, 'solid angle': 1.0,
    'amount': 1.0, 'luminous intensity': 1.0, 'vorticity': 1.0, 'fluence': 1e-11, 'flux': 1e-11, 'integral flux': 1e-4,
    'momentum density': 1e-1, 'thermal conductivity': 1e5, 'magnetization': 4e-3 * U.PI, 'electromotance': 1e6 / U.c, 'magnetomotance': 10 * U.c,
    'illuminance': 1e-4, 'luminous flux': 1.0, 'polarization': 1e-3 * U.c, 'displacement': 1e-3 * U.c,
}


def system_cases(tier):
    return [[q] for q in SYSTEMS]


def check_systems(case, obs):
    """mks <-> cgs for every quantity, by every route that goats offers."""
    q = case[0]
    want = SYSTEMS[q]
    quantity = metric.Quantity(q)
    mks, cgs = str(quantity['mks'].unit), str(quantity['cgs'].unit)
    got = {}
    got['conversion'] = (metric.conversion(mks, cgs), metric.conversion(cgs, mks))
    got['to(system)'] = (quantity.convert('mks').to('cgs'), quantity.convert('cgs').to('mks'))
    got['to(unit)'] = (quantity.convert(mks).to(cgs), quantity.convert(cgs).to(mks))
    got['mixed'] = (quantity.convert('mks').to(cgs), quantity.convert(cgs).to('mks'))
    got['Unit //'] = (metric.Unit(cgs) // metric.Unit(mks), metric.Unit(mks) // metric.Unit(cgs))
    got['Unit // str'] = (metric.Unit(cgs) // mks, mks // metric.Unit(cgs))
    for k, (f, r) in got.items():
        obs.step((q, k))
        if f is None or r is None or not close(f, want) or not close(r, 1 / want):
            raise Violation(f"{q}: {mks} -> {cgs} by {k} is {f} (and back {r}), expected {want}")
    same = quantity.convert('mks').to('mks')
    if same != 1.0 or quantity.convert(cgs).to('cgs') != 1.0:
        raise Violation(f"{q}: converting to the same unit gives {same}")


def api_cases(tier):
    pairs = [('m', 'km'), ('MeV', 'erg'), ('km / h', 'cm / s'), ('m', 's'), ('J', 'N'), ('nT', 'G'), ('deg', 'rad'), ('m^2', 'm'), ('au', 'h'),
             ('e', 'm'), ('cm^-2 s^-1 MeV^-1', 'm^-2 s^-1 J^-1'), ('eV', '1'), ('eV', 'au'), ('d', 'J'), ('C', 'A'), ('K', 'J'), ('cd', 's'), ('mol', '1')]
    return [list(p) for p in pairs] + [list(reversed(p)) for p in pairs]


def check_api(case, obs):
    """All entry points agree, and each refuses in its documented way."""
    a, b = case
    got = convert(a, b)
    obs.step((a, b, got))
    u, v = metric.Unit(a), metric.Unit(b)
    for k, f in {
        'Unit // Unit': lambda: v // u, 'Unit // str': lambda: v // a, 'str // Unit': lambda: b // u,
        'Conversion': lambda: float(metric.Conversion(a, b)), 'inverse': lambda: float(metric.Conversion(b, a).inverse),
        'conversion(Unit)': lambda: metric.conversion(u, v, strict=True),
    }.items():
        try:
            x = f()
        except metric.UnitConversionError as err:
            x = None
            if a not in str(err) and k not in ('inverse',) and str(u) not in str(err):
                raise Violation(f"{k}: the error does not name the units: {err}")
        if (x is None) != (got is None) or (x is not None and not close(x, got, 1e-12)):
            raise Violation(f"{k} of {a!r} and {b!r} is {x}, but conversion() is {got}")
    for bad in ('foo', 'mm m foo', 'xm'):
        for args in ((a, bad), (bad, a)):
            try:
                x = metric.conversion(*args)
            except metric.UnitParsingError:
                continue
            if x is not None:
                raise Violation(f"conversion{args} is {x}, but there is no such unit")


# -- numbers in units -----------------------------------------------------


NUMBERS = {'': 1.0, '2 ': 2.0, '3 ': 3.0, '0.5 ': 0.5, '10^6 ': 1e6, '1e-3 ': 1e-3}
SHAPES = {
    # text and power of the number, given a number and a unit
    'plain': ('{n}{u}', 1, 1), 'inverse': ('1 / ({n}{u})', -1, -1), 'squared': ('({n}{u})^2', 2, 2), 'power': ('{n}({u})^2', 1, 2), 'over': ('{n}/ ({u})', 1, -1),
}
NUMBERED = [('m', 'cm'), ('m', 'm'), ('J', 'erg'), ('MeV', 'J'), ('min', 's'), ('km / s', 'm / s'), ('N m', 'erg'), ('MeV / nuc', 'eV / nuc'), ('nT', 'T'),
            ('J', 'kg m^2 s^-2'), ('deg', 'rad'), ('W', 'erg / s')]


def number_cases(tier):
    return [[a, b, m, n, shape] for a, b in NUMBERED for m in NUMBERS for n in NUMBERS for shape in SHAPES
            if not (shape == 'over' and not (m and n))]


def check_number(case, obs):
    """A number in a unit is part of the unit."""
    a, b, m, n, shape = case
    text, power, exp = SHAPES[shape]
    x, y = text.format(n=m, u=a), text.format(n=n, u=b)
    base = convert(a, b)
    if base is None:
        raise Violation(f"conversion({a!r}, {b!r}) fails")
    want = base ** exp * (NUMBERS[m] / NUMBERS[n]) ** power
    u, v = metric.Unit(x), metric.Unit(y)
    for what, got in {
        f'conversion({x!r}, {y!r})': metric.conversion(x, y), f'Unit({y!r}) // Unit({x!r})': v // u, f'1 / (Unit({x!r}) // Unit({y!r}))': 1.0 / (u // v),
    }.items():
        obs.step((shape, m, n, round_sig(want)))
        if got is None or not close(got, want):
            raise Violation(f"{what} is {got}, expected {want}")
    if (u == v) != close(want, 1.0, 1e-12) and not close(want, 1.0, 1e-6):
        raise Violation(f"Unit({x!r}) == Unit({y!r}) is {u == v}, but the factor between them is {want}")


DEEP = False


# -- reductions -----------------------------------------------------------


def reduce_cases(tier):
    return [[b, p] for b in U.BASE if b not in 'Ω1' for p in U.PREFIXES]


def read(text):
    """The number and the terms in the text of a reduction."""
    body, _, system = text.rpartition(' [')
    number, terms = 1.0, []
    for word in body.split():
        base, _, exp = word.partition('^')
        try:
            number *= float(F(base)) if '.' not in base and 'e' not in base else float(base)
        except ValueError:
            terms.append((base, F(exp) if exp else F(1)))
    return number, terms, system.strip("]'")


def check_reduce(case, obs):
    """A unit in terms of base units, and the arithmetic of that."""
    b, p = case
    name = U.symbol(p, b)
    for system in ('mks', 'cgs', 'MKS', None):
        where = f"NamedUnit({name!r}).reduce({system!r})"
        for _ in range(2):      # the second time from memory
            try:
                this = metric.NamedUnit(name).reduce(system)
            except metric.SystemAmbiguityError:
                if system:
                    raise Violation(f"{where} is ambiguous")
                this = None
            if this is None:
                own = U.BASE[b]
                base = {'mks': (own[2] == 1 or b == 'g'), 'cgs': (own[4] == 1 or b == 'm')}.get(str(system).lower())
                if base and b not in ('#', 'nuc', 'amu', 'lm', 'lx', 'Bq', 'Ci'):
                    raise Violation(f"{where} is None")
                continue
            if this.system not in ('mks', 'cgs') or system and this.system != system.lower():
                raise Violation(f"{where} is in the system {this.system}")
            kind = {'mks': 'SI', 'cgs': 'G'}[this.system]
            f, v = U.meaning([(name, 1)], kind)

            def verify(where, r, power, factor):
                terms = [(t.base, F(t.exponent)) for t in r.units]
                g, w = U.meaning(terms, kind)
                want = {k: n * power for k, n in v.items() if n * power}
                if w != want or not close(float(r.scale) * g, f**float(power) * factor):
                    raise Violation(f"{where} is {float(r.scale)} {terms}")
                if len(terms) > 1 and any(U.BASE[U.NAMES[t][1]][1] not in ('length', 'mass', 'time', 'current', 'temperature', 'amount', 'luminous intensity', 'plane angle', 'solid angle', 'charge', 'identity') for t, _ in terms):
                    raise Violation(f"{where} has {terms}, which are not base units")
                number, shown, s = read(str(r))
                if s != this.system or sorted(shown) != sorted(terms) or not close(number, float(r.scale)):
                    raise Violation(f"{where} prints as {r}")
                obs.step((name, system, where, round_sig(float(r.scale))))

            verify(where, this, 1, 1.0)
            verify(f"{where} * 3", this * 3, 1, 3.0)
            verify(f"0.5 * {where}", 0.5 * this, 1, 0.5)
            verify(f"{where} / 4", this / 4, 1, 0.25)
            for power in (2, -1, 3):
                verify(f"{where}**{power}", this**power, power, 1.0)
            verify(f"(2 * {where})**2 / 4", (2 * this)**2 / 4, 2, 1.0)
            verify(f"{where} afterward", this, 1, 1.0)


def spaces(tier):
    global DEEP
    DEEP = tier == 'thorough'
    return [
        Space('names', name_cases, check_name, '47 base units x 21 prefixes, each spelling, against every prefix and base'),
        Space('same quantity', same_quantity, check_same, 'all pairs of prefixed units of each quantity, both ways, and powers'),
        Space('all pairs', all_pairs, check_pairs, 'all pairs of base units x 9 prefix pairs (21 thorough): right factor or refusal'),
        Space('ohm', ohm_cases, check_ohm, 'conversions of the ohm'),
        Space('two-term products', substitutions, check_substitution, f'{len(TERMS)} units, 7 exponent pairs (fractional powers too), 3 spellings; must convert'),
        Space('three-term products', triples, check_triple, '11 units, 3 exponent triples, 3 orders; must convert'),
        Space('any product', mismatched, check_mismatched, f'two-term products of {len(SMALL)} units into any power: right factor or refusal'),
        Space('any two products', mismatched_deep, check_mismatched_deep, 'thorough only: two-term products into two-term products'),
        Space('coherence', coherent, check_coherent, 'derived units x 21 prefixes into base units in every order'),
        Space('relations', relation_cases, check_relation, 'physical identities between derived units'),
        Space('systems', system_cases, check_systems, 'mks and cgs units of every quantity by 6 routes'),
        Space('entry points', api_cases, check_api, 'agreement of all entry points; refusal of unknown units'),
        Space('numbers in units', number_cases, check_number, f'{len(NUMBERED)} pairs of units, 6 numbers for each, 5 shapes'),
        Space('reductions', reduce_cases, check_reduce, 'base units x 21 prefixes in terms of the base units of each system; products, quotients and powers of the result'),
    ]
