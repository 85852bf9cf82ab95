"""P07: what a unit means does not depend on what happened before."""
import itertools

from mc import units as U
from mc.core import Space, Violation, forked
from mc.models import round_sig

from goats.core import measurable
from goats.core import metric
from goats.core import physical
from goats.core import symbolic

ASSUMPTIONS = ['each history starts from the state just after import (a forked process)']

SPELLINGS = {
    'velocity': ['m / s', 'm s^-1', 's^-1 m', 'm*s^-1', '(m / s)', 'm^1 s^-1'],
    'centimeter': ['cm', 'centimeter'],
    'micrometer': ['μm', 'um', 'micrometer'],
    'energy': ['J', 'joule'],
    'flux': ['# / (cm^2 s sr MeV / nuc)', 'nuc # / (s sr MeV cm^2)', '# nuc cm^-2 s^-1 sr^-1 MeV^-1'],
    'area': ['m^2', 'm * m', '(m)^2', 'meter^2'],
    'one': ['1', 'unitless'],
    'tesla': ['T', 'tesla', 'T^1'],
    'newton': ['N', 'kg m / s^2', 'kg * m * s^-2'],
    'solid': ['sr', 'steradian'],
    'root': ['m^1/2', 'm^0.5'],
    'field': ['V / m', 'm^-1 V'],
    'statcoulomb': ['statC', 'statcoulomb'],
}
PAIRS = [
    ('km', 'm'), ('m', 'km'), ('J', 'erg'), ('MeV', 'J'), ('au', 'cm'), ('d', 's'), ('h', 'min'), ('T', 'G'), ('nT', 'G'), ('deg', 'rad'),
    ('km / s', 'cm / s'), ('J / m^2', 'eV / cm^2'), ('N', 'kg m / s^2'), ('kg m / s^2', 'N'), ('V', 'statV'), ('m', 's'), ('J', 'N'),
    ('# / (cm^2 s sr MeV / nuc)', '# / (m^2 s sr J / nuc)'), ('1 / s', '1 / d'), ('nuc', 'kg'), ('erg / s', 'W'), ('C / m^3', 'statC / cm^3'),
    ('F', 'cm'), ('H', 's^2 / cm'), ('A / m', 'Oe'), ('Pa', 'dyn / cm^2'), ('kg / m^3', 'g / cm^3'), ('1', '#'),
]
QUANTITIES = ['energy', 'velocity', 'magnetic field', 'mass number', 'energy density', 'conductance', 'length / time']


def canonical(terms):
    """The terms of a unit, by symbol: name and symbol are one unit, which is
    printed the way it was first written."""
    out = []
    for t in terms:
        try:
            base = metric.NamedUnit(t.base).symbol
        except Exception:
            base = t.base
        out.append((base, str(t.exponent), str(t.coefficient)))
    return sorted(out)


def unit_view(unit):
    return (
        type(unit).__name__,
        canonical(unit),
        {s: (None if d is None else sorted((t.base, str(t.exponent)) for t in d)) for s, d in unit.dimensions.items()}['mks'],
        {s: (None if d is None else sorted((t.base, str(t.exponent)) for t in d)) for s, d in unit.dimensions.items()}['cgs'],
        [canonical(unit.norm[s]) for s in ('mks', 'cgs')],
        unit.dimensionless,
        sorted((t.base, str(t.exponent)) for t in unit.quantity),
        canonical(unit.decomposed),
    )


def answer(question):
    kind, *args = question
    try:
        if kind == 'unit':
            return unit_view(metric.Unit(args[0]))
        if kind == 'conversion':
            got = metric.conversion(*args)
            return None if got is None else round_sig(got)
        if kind == 'equal':
            return metric.Unit(args[0]) == metric.Unit(args[1]), metric.Unit(args[0]) | metric.Unit(args[1])
        if kind == 'quantity':
            q = metric.Quantity(args[0])
            return [(canonical(q[s].unit), str(symbolic.Expression(str(q[s].dimension)))) for s in ('mks', 'cgs')]
        if kind == 'multiply':
            return unit_view(metric.Unit(args[0]) * metric.Unit(args[1]))
        if kind == 'divide':
            return unit_view(metric.Unit(args[0]) / metric.Unit(args[1]))
        if kind == 'system':
            return canonical(metric.System(args[0]).get_unit(unit=args[1]))
        if kind == 'named':
            n = metric.NamedUnit(args[0])
            return (n.name, n.symbol, str(n.norm['cgs'].symbol), round_sig(n.scale), n.quantity, sorted(n.systems['allowed']),
                    [None if n.dimensions[s] is None else str(n.dimensions[s]) for s in ('mks', 'cgs')])
        if kind == 'quantities':
            return sorted(metric.Dimension(args[0]).quantities(args[1]))
        if kind == 'measure':
            x = measurable.measure(*args)
            return [float(v) for v in x.data], canonical(metric.Unit(x.unit))
        if kind == 'scalar':
            x = physical.Scalar(2.0, unit=args[0])
            y = x[args[1]] if len(args) > 1 else x
            return round_sig(float(y)), type(y.unit).__name__, canonical(y.unit)
    except metric.UnitConversionError:
        return 'refused'
    raise ValueError(kind)


QUESTIONS = (
    [('unit', SPELLINGS[k][i]) for k, i in [
        ('velocity', 0), ('velocity', 2), ('centimeter', 1), ('micrometer', 1), ('energy', 0), ('flux', 0), ('area', 1), ('one', 1),
        ('tesla', 2), ('newton', 1), ('solid', 0), ('root', 1), ('field', 1), ('statcoulomb', 0)]]
    + [('unit', u) for u in ('km', 'MeV / nuc')]
    + [('conversion', *p) for p in PAIRS]
    + [('equal', *p) for p in PAIRS[:3] + PAIRS[12:15]]
    + [('quantity', q) for q in QUANTITIES[:4] + QUANTITIES[-1:]]
    + [('multiply', 'J', 's'), ('divide', 'km', 's'), ('multiply', 'cm', '1 / cm')]
    + [('system', 'cgs', 'MeV / nuc'), ('system', 'mks', 'nT')]
    + [('named', n) for n in ('kilometer', 'cd', 'um', 'J')]
    + [('quantities', 'M L^2 T^-2', s) for s in ('mks', 'cgs')]
    + [('measure', 1.0, 'm / s')]
    + [('scalar', 'km', 'm'), ('scalar', 'm / s', 'cgs')]
)


class Meter(metric.Unit):
    """A user's own kind of unit."""


def attempt(f, *args, **kw):
    try:
        return f(*args, **kw)
    except Exception:
        return None


def mutate_norm():
    for u in ('km', 'J', 'MeV / nuc'):
        metric.Unit(u).norm['mks'] = metric.Unit('s')


def mutate_named():
    for u in ('km', 'J', 'kilometer', 'cd'):
        n = metric.NamedUnit(u)
        n.dimensions['mks'] = 'T'
        n.systems['allowed'] = ()
        n.norm['cgs'] = n


def mutate_quantities():
    metric.Dimension('L').quantities('mks')


def inplace():
    u = metric.Unit('J')
    v = u
    v *= metric.Unit('s')
    v /= metric.Unit('m')
    v **= 2


OPS = {}
for _k, _s in SPELLINGS.items():
    for _i, _x in enumerate(_s):
        OPS[f'unit {_x}'] = (lambda x=_x: metric.Unit(x))
for _p in PAIRS:
    OPS[f'convert {_p[0]} -> {_p[1]}'] = (lambda p=_p: attempt(metric.conversion, *p))
OPS.update({
    'unit from list': lambda: metric.Unit(['m', 's^-1']),
    'unit from terms': lambda: metric.Unit(symbolic.Expression('m / s')),
    'unit subclass': lambda: [Meter('m'), Meter('m / s'), Meter('km')],
    'bad unit': lambda: attempt(lambda: metric.Unit('bogus').dimensions),
    'bad string': lambda: attempt(metric.Unit, 'm *'),
    'bad conversion': lambda: attempt(metric.conversion, 'bogus', 'm'),
    'strict refusal': lambda: attempt(metric.conversion, 'm', 's', strict=True),
    'named bogus': lambda: attempt(metric.NamedUnit, 'bogus'),
    'unit product': lambda: metric.Unit('J') * metric.Unit('s'),
    'unit ratio': lambda: metric.Unit('km') / metric.Unit('s'),
    'unit power': lambda: metric.Unit('m') ** 2,
    'unit root': lambda: metric.Unit('m') ** 0.5,
    'unit equal': lambda: metric.Unit('N') == 'kg m / s^2',
    'unit or': lambda: metric.Unit('J') | 'erg',
    'unit floordiv': lambda: metric.Unit('m') // 'cm',
    'in place': inplace,
    'norms': lambda: [metric.Unit(u).norm for u in ('m', 'J', 'nT', 'MeV / nuc')],
    'change norm': mutate_norm,
    'change named': mutate_named,
    'quantities': mutate_quantities,
    'quantity': lambda: [metric.Quantity(q) for q in QUANTITIES],
    'bad quantity': lambda: attempt(metric.Quantity, 'bogus'),
    'convert quantity': lambda: metric.Quantity('energy').convert('J').to('erg'),
    'systems': lambda: [metric.System('cgs').get_unit(quantity='energy'), metric.System('MKS')],
    'scalar': lambda: physical.Scalar(2.0, unit='km')['m'],
    'scalar ratio': lambda: physical.Scalar(1.0, unit='J') / physical.Scalar(2.0, unit='s'),
    'measure': lambda: measurable.measure(2.0, 'km / s'),
    'constant': lambda: physical.Scalar(1.0, unit='J') * physical.Scalar(1.0, unit='1 / J'),
    'expression': lambda: symbolic.Expression('m / s') * 's',
    'named units': lambda: [metric.NamedUnit(n) for n in ('kilometer', 'cm', 'cd', 'micrometer', 'G')],
    'ratio': lambda: [metric.ratio('km', 'm'), attempt(metric.ratio, 'm', 's')],
})
NAMES = list(OPS)
QUICK = [n for i, n in enumerate(NAMES) if i % 8 == 0 or not n.startswith('convert ') and i % 2]


def views():
    return [answer(q) for q in QUESTIONS]


BASELINE = None


def baseline():
    """The answers of a fresh process, each question asked alone."""
    global BASELINE
    if BASELINE is None:
        BASELINE = [forked(answer, q) for q in QUESTIONS]
    return BASELINE


def cases(tier):
    yield []
    for a in NAMES:
        yield [a]
    some = NAMES if tier == 'thorough' else QUICK
    for a in some:
        for b in some:
            if a != b:
                yield [a, b]


def check(case, obs):
    want = baseline()

    def body():
        for name in case:
            OPS[name]()
        return views()

    got = forked(body)
    for q, w, g in zip(QUESTIONS, want, got):
        obs.step((q, repr(g)))
        if w != g:
            raise Violation(f"after {case}: {q} is {g}, but {w} when asked first")


def order_cases(tier):
    n = len(QUESTIONS)
    return [[r, d] for r in range(0, n, 1 if tier == 'thorough' else 3) for d in (1, -1)]


def check_order(case, obs):
    """Every question after every other: all rotations, both directions."""
    shift, direction = case
    order = list(range(len(QUESTIONS)))[::direction]
    order = order[shift:] + order[:shift]
    want = baseline()

    def body():
        return [answer(QUESTIONS[i]) for i in order]

    for i, g in zip(order, forked(body)):
        obs.step((i, repr(g)))
        if g != want[i]:
            raise Violation(f"{QUESTIONS[i]} is {g} in order {case}, but {want[i]} when asked first")


def singleton_cases(tier):
    for key in SPELLINGS:
        for order in itertools.permutations(range(min(len(SPELLINGS[key]), 4))):
            yield [key, list(order)]


def check_singleton(case, obs):
    key, order = case
    spellings = [SPELLINGS[key][i] for i in order]

    def body():
        made = [metric.Unit(s) for s in spellings]
        again = [metric.Unit(s) for s in reversed(spellings)][::-1]
        return (
            [a is b for a, b in zip(made, again)],
            [all(a == b for b in made) for a in made],
            [str(m) for m in made],
            [metric.Unit(m) is m for m in made],
        )

    same, equal, texts, through = forked(body)
    obs.step((key, tuple(order)))
    if not all(same) or not all(through):
        raise Violation(f"the unit {spellings} is not the same object when made again: {same} {through}")
    if not all(equal):
        raise Violation(f"spellings {spellings} of one unit are not equal: {equal}")
    expr = {}
    for s, text in zip(spellings, texts):
        expr.setdefault(str(symbolic.Expression(s)), set()).add(text)
    for e, found in expr.items():
        if len(found) > 1:
            raise Violation(f"one expression {e} is printed as {found}")


def warm():
    """Let the interpreter compile the code, on units no history mentions."""
    names = ['g', 'K', 'mol / g', 'A m', 'A^2 s', 'K / g', 'g K^-1', 'L', 'mol']
    for _ in range(4):
        for a in names:
            for b in names:
                try:
                    unit_view(metric.Unit(a) * metric.Unit(b))
                    metric.conversion(a, b)
                except Exception:
                    pass


def spaces(tier):
    baseline()
    warm()
    return [
        Space('histories', cases, check, f'all sequences of up to 2 of {len(NAMES)} operations, then {len(QUESTIONS)} questions'),
        Space('question order', order_cases, check_order, f'rotations of {len(QUESTIONS)} questions in both directions'),
        Space('singletons', singleton_cases, check_singleton, 'all orders of creating up to 4 spellings of 13 units'),
    ]
