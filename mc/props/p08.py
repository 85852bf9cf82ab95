"""P08: unit arithmetic and equality keep the physical meaning of units."""
import itertools
from fractions import Fraction as F

import numpy

from mc import units as U
from mc.core import Space, Violation
from mc.models import close, round_sig

from goats.core import metadata
from goats.core import metric

ASSUMPTIONS = [
    'the reference table in mc/units.py holds the physical meaning of every unit (SI and Gaussian)',
    'the zeroth power of a unit is refused by design and not explored',
    'products that mix electromagnetic units of both systems have no meaning and are excluded; so is the ohm (known finding of P05)',
]

EM_SI = ['A', 'C', 'V', 'S', 'F', 'Wb', 'H', 'T']
EM_G = ['statC', 'statA', 'statV', 'Mx', 'Oe', 'G']
PLAIN = [b for b in U.BASE if b not in EM_SI + EM_G + ['Ω', 'e']]
KINDS = {'metric': metric.Unit, 'metadata': metadata.Unit}


def terms(unit):
    """The terms of a unit object; the coefficient must be 1."""
    out = []
    for t in unit:
        if float(t.coefficient) != 1.0:
            raise Violation(f"the unit {unit} has a coefficient: {t}")
        if t.base == '1':
            continue
        out.append((t.base, F(t.exponent).limit_denominator(1000)))
    return out


def system_of(*names):
    """The system in which these units have a meaning together, if any."""
    bases = {U.NAMES[n][1] for n in names}
    si, g = bases & set(EM_SI), bases & set(EM_G)
    if si and g:
        return None
    return 'G' if g else 'SI'


def same(got, want, system):
    for nucleon in ('number',):
        f0, v0 = U.meaning(got, system, nucleon)
        f1, v1 = U.meaning(want, system, nucleon)
        if v0 != v1 or not close(f0, f1):
            return False
    return True


def judge(unit, want, system, what, kind, obs):
    if type(unit) is not kind:
        raise Violation(f"{what} is a {type(unit).__name__}, not a {kind.__module__}.{kind.__name__}")
    got = terms(unit)
    obs.step((what, tuple(sorted((b, str(e)) for b, e in got))))
    if not same(got, want, system):
        raise Violation(f"{what} is {unit}, but means {U.meaning(want, system)}, not {U.meaning(got, system)}")


def power(want, n):
    return [(b, e * F(n)) for b, e in want]


# -- single operations ----------------------------------------------------

def pair_cases(tier):
    some = PLAIN + EM_SI + EM_G
    for a in some:
        for b in some:
            if system_of(a, b):
                yield [a, b]


def prefixes(tier):
    return [('', ''), ('k', ''), ('', 'm'), ('c', 'k')]


def check_pair(case, obs):
    a0, b0 = case
    system = system_of(a0, b0)
    for p, q in prefixes('quick'):
        a, b = U.symbol(p, a0), U.symbol(q, b0)
        for name, kind in KINDS.items():
            x, y = kind(a), kind(b)
            before = str(x), str(y)
            judge(x * y, [(a, 1), (b, 1)], system, f'{a} * {b}', kind, obs)
            judge(x / y, [(a, 1), (b, -1)], system, f'{a} / {b}', kind, obs)
            if (p, q) != ('', ''):
                continue
            judge(x * b, [(a, 1), (b, 1)], system, f'{a} * str {b}', kind, obs)
            judge(x / b, [(a, 1), (b, -1)], system, f'{a} / str {b}', kind, obs)
            if name == 'metric':
                judge(a * y, [(a, 1), (b, 1)], system, f'str {a} * {b}', kind, obs)
                judge(a / y, [(a, 1), (b, -1)], system, f'str {a} / {b}', kind, obs)
            z = x
            z *= y
            judge(z, [(a, 1), (b, 1)], system, f'{a} *= {b}', kind, obs)
            z = x
            z /= y
            judge(z, [(a, 1), (b, -1)], system, f'{a} /= {b}', kind, obs)
            judge(x * y / y, [(a, 1)], system, f'{a} * {b} / {b}', kind, obs)
            judge((x / y) * (y / x), [], system, f'({a} / {b}) * ({b} / {a})', kind, obs)
            if before != (str(x), str(y)):
                raise Violation(f"arithmetic changed {before} to {x}, {y}")


POWERS = [2, 3, -1, -2, 1, 0.5, -0.5, 1.5, F(1, 2), F(1, 3)]


def power_cases(tier):
    for a in PLAIN + EM_SI + EM_G:
        for p in ('', 'k', 'm') if tier == 'quick' else U.PREFIXES:
            yield [p, a]


def check_power(case, obs):
    p, a0 = case
    a = U.symbol(p, a0)
    system = system_of(a)
    for kind in KINDS.values():
        for n in POWERS:
            x = kind(a)
            want = power([(a, F(1))], n)
            judge(x ** n, want, system, f'{a} ** {n}', kind, obs)
            z = x
            z **= n
            judge(z, want, system, f'{a} **= {n}', kind, obs)
            if n in (2, -1, 0.5):
                for m in (2, -1, 0.5):
                    judge((x ** n) ** m, power(want, m), system, f'({a} ** {n}) ** {m}', kind, obs)
        judge(x * x, power([(a, F(1))], 2), system, f'{a} * {a}', kind, obs)
        judge(x / x, [], system, f'{a} / {a}', kind, obs)
    judge(numpy.sqrt(metadata.Unit(a)), power([(a, F(1))], F(1, 2)), system, f'sqrt({a})', metadata.Unit, obs)


EXPS = ['1/2', '3/2', '-1/2', '2', '-3']


def operand_cases(tier):
    second = ['J', 'm', 'erg', '#', 'T', 'G', 'Pa'] if tier == 'quick' else PLAIN + EM_SI + EM_G
    for a in PLAIN + EM_SI + EM_G:
        for b in second:
            if system_of(a, b):
                yield [a, b]


def check_operand(case, obs):
    """Operands that are powers already."""
    a, b = case
    system = system_of(a, b)
    for e in EXPS:
        x = metric.Unit(f'{a}^{e}')
        judge(x, [(a, F(e))], system, f'{a}^{e}', metric.Unit, obs)
        for f in EXPS[:3]:
            y = metric.Unit(f'{b}^{f}')
            judge(x * y, [(a, F(e)), (b, F(f))], system, f'{a}^{e} * {b}^{f}', metric.Unit, obs)
            judge(x / y, [(a, F(e)), (b, -F(f))], system, f'{a}^{e} / {b}^{f}', metric.Unit, obs)
        judge(x ** 2, [(a, 2 * F(e))], system, f'({a}^{e}) ** 2', metric.Unit, obs)


# -- sequences ------------------------------------------------------------

START = {
    'J': [('J', 1)], 'km / s': [('km', 1), ('s', -1)], '1': [], '# / cm^3': [('#', 1), ('cm', -3)], 'MeV / nuc': [('MeV', 1), ('nuc', -1)],
    'N': [('N', 1)], 'erg': [('erg', 1)], 'Pa': [('Pa', 1)], 'V / m': [('V', 1), ('m', -1)], 'nT': [('nT', 1)], 'G': [('G', 1)],
    '# / (cm^2 s sr MeV / nuc)': [('#', 1), ('cm', -2), ('s', -1), ('sr', -1), ('MeV', -1), ('nuc', 1)], 'deg / d': [('deg', 1), ('d', -1)],
    'g^1/2': [('g', F(1, 2))], 'J^1/2 / nuc': [('J', F(1, 2)), ('nuc', -1)],
}
ACTIONS = {
    **{f'* {k}': ('mul', k) for k in START}, **{f'/ {k}': ('div', k) for k in START},
    '** 2': ('pow', 2), '** -1': ('pow', -1), '** 0.5': ('pow', 0.5), 'self * self': ('sq', None), 'self / self': ('one', None),
}


def sequence_cases(tier):
    depth = 2 if tier == 'quick' else 3
    for s in START:
        for n in range(1, depth + 1):
            if n < 3:
                for seq in itertools.product(ACTIONS, repeat=n):
                    yield [s, list(seq)]
            elif s in ('J', 'km / s', 'nT', '1', 'deg / d'):
                for seq in itertools.product([a for i, a in enumerate(ACTIONS) if i % 2 == 0 or i > 27], repeat=n):
                    yield [s, list(seq)]


def check_sequence(case, obs):
    s, seq = case
    names = {b for k in [s] + [ACTIONS[a][1] for a in seq if ACTIONS[a][0] in ('mul', 'div')] for b, _ in START[k]}
    system = system_of(*names)
    if system is None:
        return
    for kind in KINDS.values():
        unit, want = kind(s), [(b, F(e)) for b, e in START[s]]
        for a in seq:
            op, arg = ACTIONS[a]
            if op == 'mul':
                unit, want = unit * kind(arg), want + START[arg]
            elif op == 'div':
                unit, want = unit / kind(arg), want + power(START[arg], -1)
            elif op == 'pow':
                unit, want = unit ** arg, power(want, arg)
            elif op == 'sq':
                unit, want = unit * unit, power(want, 2)
            else:
                unit, want = unit / unit, []
            judge(unit, want, system, f'{s} {seq}', kind, obs)


# -- equality -------------------------------------------------------------

EQUAL = [
    ('m / s', 'm s^-1'), ('m / s', 's^-1 m'), ('m^2', 'm * m'), ('1 / s', '# / s'), ('# / cm^3', 'cm^-3'), ('N', 'kg * m / s^2'), ('cm', 'centimeter'),
    ('J', 'N * m'), ('erg', 'dyn * cm'), ('J', 'kg m^2 / s^2'), ('erg', 'g cm^2 / s^2'), ('Pa', 'N / m^2'), ('W', 'J / s'), ('T', 'Wb / m^2'),
    ('V', 'J / C'), ('C', 'A * s'), ('statC', 'statA * s'), ('Mx', 'G * cm^2'), ('F', 'C / V'), ('H', 'Wb / A'), ('S', 'A / V'), ('Gy', 'J / kg'),
    ('J / s / m^2', 'W / m^2'), ('dyn', 'g cm / s^2'), ('#', '1'), ('# / # / s', '1 / s'), ('m / m', '1'), ('W * s', 'J'), ('V / m', 'N / C'),
]


def equal_cases(tier):
    for a, b in EQUAL:
        for swap in (False, True):
            for ka, kb in itertools.product(KINDS, repeat=2):
                yield [b, a, ka, kb] if swap else [a, b, ka, kb]


def equal(x, y, want, what, obs):
    got = (x == y, not (x != y))
    obs.step((what, got))
    if got != (want, want):
        raise Violation(f"{what}: == is {got[0]} and != is {not got[1]}, expected {want}")


def check_equal(case, obs):
    a, b, ka, kb = case
    x, y = KINDS[ka](a), KINDS[kb](b)
    equal(x, y, True, f'{a} == {b}', obs)
    equal(x, b, True, f'{a} == str {b}', obs)
    equal(a, y, True, f'str {a} == {b}', obs)
    if not x | y:
        raise Violation(f"{a} equals {b} but is not consistent with it")


def unequal_cases(tier):
    for a in PLAIN + EM_SI + EM_G:
        for p in ('', 'k') if tier == 'quick' else ('', 'k', 'm', 'c', 'M'):
            yield [p, a]


def value(t):
    """Everything a product could mean; equal units share one of them."""
    return [U.meaning(t, s, n) for s in ('SI', 'G') for n in ('number', 'mass')]


SHAPES = {
    '{}': [(0, 1)], '{}^2': [(0, 2)], '{}^-1': [(0, -1)], '{} / s': [(0, 1), ('s', -1)], 'm {}': [('m', 1), (0, 1)],
}


def check_unequal(case, obs):
    p, a0 = case
    a = U.symbol(p, a0)
    for shape, form in SHAPES.items():
        ta = [(a if n == 0 else n, e) for n, e in form]
        x = metric.Unit(shape.format(a))
        va = value(ta)
        equal(x, metric.Unit(shape.format(a)), True, f'{x} == itself', obs)
        for b0 in PLAIN + EM_SI + EM_G:
            for q in ('', 'c', 'k'):
                b = U.symbol(q, b0)
                if system_of(a, b) is None:
                    continue
                tb = [(b, 1)] if shape == '{}' else [(b if n == 0 else n, e) for n, e in form]
                vb = value(tb)
                differ = all(v != w or not close(f, g) for (f, v), (g, w) in zip(va, vb))
                if not differ:
                    continue
                y = metric.Unit(U.text(tb))
                equal(x, y, False, f'{x} == {y}', obs)


# -- the unit of a quantity -----------------------------------------------

QUANTITY_UNITS = ['m', 'km', 's', 'J', 'erg', '1', 'm / s', 'cm / s', 'km / s', '#', 'N', 'kg m / s^2', 'deg', 'rad', 'nT', 'G']
VALUES = {
    'm': 1, 'km': 1e3, 's': 1, 'J': 1, 'erg': 1e-7, '1': 1, 'm / s': 1, 'cm / s': 1e-2, 'km / s': 1e3, '#': 1, 'N': 1, 'kg m / s^2': 1,
    'deg': U.PI / 180, 'rad': 1, 'nT': 1e-9, 'G': 1e-4,
}
DIMS = {'m': 'L', 'km': 'L', 's': 'T', 'J': 'E', 'erg': 'E', '1': '', 'm / s': 'V', 'cm / s': 'V', 'km / s': 'V', '#': '', 'N': 'F', 'kg m / s^2': 'F',
        'deg': 'angle', 'rad': 'angle', 'nT': 'B', 'G': 'B'}


def add_cases(tier):
    return [[a, b] for a in QUANTITY_UNITS for b in QUANTITY_UNITS]


def check_add(case, obs):
    """Adding quantities needs the same unit; numbers have no effect on one."""
    a, b = case
    x, y = metadata.Unit(a), metadata.Unit(b)
    agree = DIMS[a] == DIMS[b] and VALUES[a] == VALUES[b]
    for op in ('__add__', '__sub__'):
        for other in (y, b):
            try:
                got = getattr(x, op)(other)
            except metadata.UnitError as err:
                got = err
            obs.step((a, b, op, type(got).__name__))
            if agree and not (isinstance(got, metadata.Unit) and got == x):
                raise Violation(f"{a} {op} {b} is {got!r}, expected {a}")
            if not agree and not isinstance(got, metadata.UnitError):
                raise Violation(f"{a} {op} {b} is {got!r}, expected an error")
            if not agree and other is y:
                want = metadata.ScaleMismatch if DIMS[a] == DIMS[b] else metadata.DimensionMismatch
                if {DIMS[a], DIMS[b]} == {'', 'angle'} or DIMS[a] == DIMS[b] and DIMS[a] in 'BEF':
                    continue  # all dimensionless, or each defined in one system only
                if type(got) is not want:
                    raise Violation(f"{a} {op} {b} raises {got!r}, expected {want.__name__}")
    for number in (2, 0.5, 1.0, -3):
        for got in (x * number, number * x, x / number):
            if got is not x:
                raise Violation(f"scaling {a} by the number {number} gives the unit {got}")


NUMBERS = [1.0, 2.0, 0.5, 1e6]
NUMBERED = ['m', 'cm', 's', 'J', 'MeV', 'nT', 'm / s']


def number_cases(tier):
    return [[a, m, b, n] for a in NUMBERED for b in NUMBERED for m in NUMBERS for n in NUMBERS]


def check_number(case, obs):
    """A number in a unit is part of the unit, in products, quotients, and powers."""
    a, m, b, n = case
    x, y = f'{m} {a}', f'{n} {b}'
    for name, kind in KINDS.items():
        u, v = kind(x), kind(y)
        for what, got, plain, number in (
            (f'({x}) * ({y})', u * v, kind(a) * kind(b), m * n), (f'({x}) / ({y})', u / v, kind(a) / kind(b), m / n),
            (f'({x})^2', u ** 2, kind(a) ** 2, m ** 2), (f'({x})^-1', u ** -1, kind(a) ** -1, 1 / m), (f'({x})^3', u ** 3, kind(a) ** 3, m ** 3),
        ):
            factor = metric.Unit(plain) // metric.Unit(got)     # one of the result in terms of the other
            obs.step((what, str(got)))
            if not close(factor, number):
                raise Violation(f'{name}: {what} is {got}, which is {factor} of {plain}, expected {number}')
            if (got == plain) != close(number, 1.0):
                raise Violation(f'{name}: {what} is {got}, and equal to {plain}: {got == plain}')
        if a == b and (u == v) != (m == n):
            raise Violation(f'{name}: {x} == {y} is {u == v}')


def spaces(tier):
    return [
        Space('pairs', pair_cases, check_pair, 'every pair of 44 units (4 prefix pairs): * / and in-place and string forms, two classes'),
        Space('powers', power_cases, check_power, f'every unit with prefixes to the powers {[str(p) for p in POWERS]}, and powers of powers'),
        Space('powers as operands', operand_cases, check_operand, f'pairs of units to the powers {EXPS}'),
        Space('sequences', sequence_cases, check_sequence, f'all sequences of up to {2 if tier == "quick" else 3} of {len(ACTIONS)} operations from {len(START)} units'),
        Space('equal', equal_cases, check_equal, f'{len(EQUAL)} documented equivalences, both orders and classes'),
        Space('unequal', unequal_cases, check_unequal, 'all pairs of units with prefixes in 5 shapes that differ in size or dimension'),
        Space('numbers', number_cases, check_number, f'pairs of {len(NUMBERED)} units with {len(NUMBERS)} numbers: products, quotients, powers, equality'),
        Space('addition', add_cases, check_add, f'all pairs of {len(QUANTITY_UNITS)} units'),
    ]
