"""P22: parameters, physical constants and species keep their values, units and names."""
import itertools
import json
import math
import os
import warnings

import numpy

from mc.core import Space, Violation
from mc import core

from goats.core import constant
from goats.core import fundamental
from goats.core import measurable
from goats.core import metric
from goats.core import operational
from goats.core import physical
from goats.core import plasma

warnings.simplefilter('ignore')

ASSUMPTIONS = [
    'published values (NRL formulary, atomic weights) are in mc/physics.json, copied once and checked against each other',
    'electromagnetic constants have no conversion between mks and cgs here, so each system is compared with its own table',
    'an integral mass that two elements share is ambiguous and not decided',
    'indexing a string option and the truth of several values are not decided',
]

with open(os.path.join(core.ROOT, 'mc', 'physics.json')) as _fp:
    PHYSICS = json.load(_fp)


def outcome(f):
    try:
        return f()
    except Exception as err:
        return err


def close(a, b, rel=1e-12):
    return math.isclose(float(a), float(b), rel_tol=rel, abs_tol=0.0)


# ---------------------------------------------------------------- arguments

SINGLE = [0, 1, -3, 2.5, 0.0, True, False]
MULTI = [[1.0, 2.0], [0, 0], [3, 1, 2], (2.5, -1.0)]
TEXT = ['', '  ', 'a', '15', '/file/path', 'two words']
UNITS = ['m', 'cm / s', '1', 'J']
FORMS = ['plain', 'positional', 'keyword', 'measurement', 'scalar', 'vector', 'argument-like']


def inputs():
    for t in TEXT:
        yield ('plain', t, None)
        yield ('positional', t, None)
    for v in SINGLE:
        if not isinstance(v, float):
            yield ('plain', v, None)
        yield ('positional', v, None)
    for m in MULTI:
        yield ('positional', m, None)
    for u in UNITS:
        for v in (*SINGLE[:5], *MULTI):
            for form in ('positional', 'keyword', 'measurement', 'vector'):
                yield (form, v, u)
            if not isinstance(v, (list, tuple)):
                yield ('scalar', v, u)


INPUTS = list(inputs())


def build(form, value, unit):
    if form == 'plain':
        return operational.Argument(value)
    if form == 'positional':
        return operational.Argument(value, unit)
    if form == 'keyword':
        return operational.Argument(value, unit=unit)
    if form == 'measurement':
        return operational.Argument(measurable.measure(value, unit))
    if form == 'scalar':
        return operational.Argument(physical.Scalar(value, unit=unit))
    if form == 'vector':
        return operational.Argument(physical.Vector(value, unit=unit))
    raise ValueError(form)


def content(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def equal_content(data, want):
    got = list(numpy.array(data, ndmin=1)) if not isinstance(data, str) else [data]
    return len(got) == len(want) and all(g == w for g, w in zip(got, want))


def check_argument(case, obs):
    form, value, unit = INPUTS[case[0]]
    arg = build(form, value, unit)
    want = content(value)
    what = f"Argument from {value!r} [{unit}] ({form})"
    obs.step((form, repr(value), unit))
    if not equal_content(arg.data, want):
        raise Violation(f"{what}: the data are {arg.data!r}")
    if len(want) == 1 and numpy.ndim(arg.data) != 0:
        raise Violation(f"{what}: one value became {arg.data!r}")
    if (arg.unit is None) != (unit is None) or (unit is not None and not arg.unit == metric.Unit(unit)):
        raise Violation(f"{what}: the unit is {arg.unit!r}")
    if len(arg) != len(want) or list(arg) != want:
        raise Violation(f"{what}: iterates over {list(arg)} with length {len(arg)}")
    for cast in (int, float):
        got = outcome(lambda: cast(arg))
        if len(want) > 1:
            if not isinstance(got, Exception):
                raise Violation(f"{what}: {cast.__name__} of {len(want)} values is {got!r}")
        elif unit is None and cast is float:
            if not isinstance(got, TypeError):
                raise Violation(f"{what}: float of a value without unit is {got!r}")
        else:
            expect = outcome(lambda: cast(want[0]))
            if isinstance(expect, Exception):
                if not isinstance(got, ValueError):
                    raise Violation(f"{what}: {cast.__name__} gives {got!r}")
            elif type(got) is not cast or got != expect:
                raise Violation(f"{what}: {cast.__name__} gives {got!r}")
    if len(want) == 1:
        v = want[0]
        truth = bool(v.strip()) if isinstance(v, str) else (v if isinstance(v, bool) else True)
        if form in ('measurement', 'vector', 'scalar') or unit is not None:
            truth = True
        if bool(arg) is not truth:
            raise Violation(f"{what}: its truth is {bool(arg)}")
    numeric = not isinstance(want[0], str)
    got = outcome(lambda: measurable.measure(arg))
    if not numeric:
        if not isinstance(got, Exception):
            raise Violation(f"{what}: can be measured: {got!r}")
    else:
        if isinstance(got, Exception) or list(got.data) != want or not got.unit == metric.Unit(unit or '1'):
            raise Violation(f"{what}: measures {got!r}")
        for i in range(-len(want), len(want)):
            s = arg[i]
            if not isinstance(s, physical.Scalar) or float(s) != want[i] or not s.unit == metric.Unit(unit or '1'):
                raise Violation(f"{what}[{i}] is {s!r}")
        for sl in (slice(None), slice(1, None), slice(0, 1), slice(None, None, -1)):
            s = arg[sl]
            if [float(x) for x in s] != want[sl] or any(not x.unit == metric.Unit(unit or '1') for x in s):
                raise Violation(f"{what}[{sl}] is {s!r}")
        if not isinstance(outcome(lambda: arg[len(want)]), IndexError):
            raise Violation(f"{what}[{len(want)}] is {arg[len(want)]!r}")
    if numeric and len(want) > 1:
        source = numpy.array(want, dtype=float)
        arg = outcome(lambda: operational.Argument(source, unit or '1'))
        kept = list(source)
        source[:] = 99.0
        if isinstance(arg, Exception) or list(arg) != kept:
            raise Violation(f"{what}: the argument changed to {arg!r} when the array it was made from did")
        arg = build(form, value, unit)
    text = str(arg)
    if unit not in (None, '1') and str(metric.Unit(unit)) not in text:
        raise Violation(f"{what}: is shown as {text!r}")
    if len(want) == 1 and str(want[0]).rstrip('0').rstrip('.') not in text:
        raise Violation(f"{what}: is shown as {text!r}")


def check_pair(case, obs):
    one = INPUTS[case[0]]
    x = build(*one)
    for j in range(case[0] % 2, len(INPUTS), 1):
        two = INPUTS[j]
        if isinstance(one[1], bool) != isinstance(two[1], bool):
            continue
        y = build(*two)
        same = content(one[1]) == content(two[1]) and (
            one[2] == two[2] if None in (one[2], two[2]) else metric.Unit(one[2]) == metric.Unit(two[2]))
        got = outcome(lambda: x == y)
        what = f"{one} == {two}"
        if isinstance(got, Exception) or bool(got) != same:
            raise Violation(f"{what} is {got!r}")
        if bool(x != y) == same:
            raise Violation(f"{one} != {two} is {x != y}")
        obs.step()
    obs.step((one[0], repr(one[1]), one[2]))


def refused(tier):
    yield from range(6)


def check_refused(case, obs):
    obs.step(case)
    bad = [
        lambda: operational.Argument(1.5),
        lambda: operational.Argument(),
        lambda: operational.Argument(1, 'm', 'cm'),
        lambda: operational.Argument(1, 'm', unit='cm'),
        lambda: operational.Argument({'a': 1}),
        lambda: operational.Argument(None),
    ][case]
    got = outcome(bad)
    if not isinstance(got, TypeError):
        raise Violation(f"ill-formed argument {case} gives {got!r}")


# ---------------------------------------------------------------- assumptions and options

PARAMETERS = {
    'speed': (('v', 'speed'), 3.5, 'm / s'),
    'lengths': (('l',), [1.0, 2.5], 'm'),
    'number': (('n', 'N'), 4, '1'),
    'zero': (('z',), 0.0, 'km'),
    'flag': (('f', 'flag'), 0, None),
    'path': (('p',), '/some/where', None),
    'list': (('q',), [1, 2], None),
    'empty': (('e',), '', None),
}
TO = {'m / s': ['km / s', 'cm / s', 'cgs', 'm / s'], 'm': ['cm', 'au', 'cgs', 'mks'], '1': ['1'], 'km': ['m', 'mks']}


def parameters(tier):
    names = list(PARAMETERS)
    for n in range(1, 4 if tier == 'thorough' else 3):
        yield from (list(c) for c in itertools.permutations(names, n))


def check_parameters(case, obs):
    given = {PARAMETERS[n][0] if len(PARAMETERS[n][0]) > 1 else PARAMETERS[n][0][0]:
             {'value': PARAMETERS[n][1], 'unit': PARAMETERS[n][2]} for n in case}
    face = constant.Interface(given)
    if len(face) != sum(len(PARAMETERS[n][0]) for n in case) and len(face) != len(case):
        raise Violation(f"Interface of {case} has length {len(face)}")
    for n in PARAMETERS:
        names, value, unit = PARAMETERS[n]
        for name in names:
            what = f"parameter {name!r} of {case}"
            got = outcome(lambda: face[name])
            if n not in case:
                if name in face or not isinstance(got, KeyError):
                    raise Violation(f"{what} is {got!r}")
                continue
            obs.step((n, name))
            if name not in face:
                raise Violation(f"{what} is missing")
            if set(got.name) != set(names):
                raise Violation(f"{what} is named {got.name}, not {names}")
            if unit is None:
                if not isinstance(got, constant.Option) or got.value != value or got != value or not (got == constant.Option(value)):
                    raise Violation(f"{what} is {got!r}")
                if got == constant.Option('other') or got == 'other':
                    raise Violation(f"{what} equals anything")
                continue
            if not isinstance(got, constant.Assumption):
                raise Violation(f"{what} is {got!r}")
            check_assumption(got, content(value), unit, names, what)
            for to in TO[unit]:
                new = got[to]
                target = metric.Unit(unit).norm[to] if to in ('mks', 'cgs') else to
                factor = float(metric.Unit(target) // metric.Unit(unit))
                check_assumption(new, [factor * v for v in content(value)], target, names, f"{what} in {to}")
                check_assumption(got, content(value), unit, names, f"{what} after a conversion to {to}")
                obs.step((n, name, to))
            if unit != '1' and not isinstance(outcome(lambda: got['kg']), Exception):
                raise Violation(f"{what} converts to kg")


def check_assumption(got, values, unit, names, what):
    if not isinstance(got, constant.Assumption) or len(got) != len(values):
        raise Violation(f"{what} is {got!r}")
    if not got.unit == metric.Unit(unit) or set(got.name) != set(names):
        raise Violation(f"{what} is {got!r}")
    for i, v in enumerate(values):
        for k in (i, i - len(values)):
            s = got[k]
            if not isinstance(s, physical.Scalar) or not (close(s, v) or float(s) == v):
                raise Violation(f"{what}[{k}] is {s!r}, not {v}")
            if not s.unit == metric.Unit(unit) or set(s.name) != set(names):
                raise Violation(f"{what}[{k}] is {s!r}: another unit or name")
    part = got[:]
    if len(part) != len(values) or any(not isinstance(s, physical.Scalar) or set(s.name) != set(names) for s in part):
        raise Violation(f"{what}[:] is {part!r}")
    for cast in (int, float):
        x = outcome(lambda: cast(got))
        if len(values) > 1:
            if not isinstance(x, TypeError):
                raise Violation(f"{what}: {cast.__name__} of several values is {x!r}")
        elif type(x) is not cast or not (x == cast(values[0]) or (cast is float and close(x, values[0]))):
            if not (cast is int and abs(x - values[0]) <= 1):
                raise Violation(f"{what}: {cast.__name__} gives {x!r}")


# ---------------------------------------------------------------- names of quantities

def named(tier):
    for unit in ('m', 'J / s', '1'):
        for values in ([1.0], [1.0, -2.5], [0.0, 3.0, 4.0]):
            for name in (None, 'x', ['x', 'y']):
                yield [unit, values, name]


def check_named(case, obs):
    unit, values, name = case
    meta = {} if name is None else {'name': name}
    names = set() if name is None else set([name] if isinstance(name, str) else name)
    made = {
        'values': physical.Vector(values, unit=unit, **meta),
        'measurement': physical.Vector(measurable.measure(values, unit), **meta),
    }
    made['vector'] = physical.Vector(made['values'])
    if len(values) == 1:
        made['scalar'] = physical.Vector(physical.Scalar(values[0], unit=unit, **meta))
    for how, v in made.items():
        obs.step((how, unit, repr(name), len(values)))
        if [float(x) for x in v] != values or not v.unit == metric.Unit(unit) or set(n for n in v.name if n) != names:
            raise Violation(f"Vector from {how} of {case} is {v!r}")
    if len(values) == 1:
        for how, s in {'number': physical.Scalar(values[0], unit=unit, **meta), 'again': physical.Scalar(physical.Scalar(values[0], unit=unit, **meta))}.items():
            if float(s) != values[0] or not s.unit == metric.Unit(unit) or set(n for n in s.name if n) != names:
                raise Violation(f"Scalar from {how} of {case} is {s!r}")
        for how, v in (('vector', made['values']), ('measurement', measurable.measure(values, unit)), ('argument', operational.Argument(values[0], unit))):
            s = physical.scalar(v)
            if not isinstance(s, physical.Scalar) or float(s) != values[0] or not s.unit == metric.Unit(unit):
                raise Violation(f"scalar({how} of {case}) is {s!r}")
    else:
        for v in (made['values'], measurable.measure(values, unit), operational.Argument(values, unit)):
            got = outcome(lambda: physical.scalar(v))
            if not isinstance(got, ValueError):
                raise Violation(f"scalar({v!r}) is {got!r}")


# ---------------------------------------------------------------- constants

ELECTROMAGNETIC = {'e', 'epsilon0', 'mu0'}


def constants(tier):
    yield from PHYSICS['constants']


def check_constant(name, obs):
    table = PHYSICS['constants'][name]
    made = {}
    for system in ('mks', 'cgs'):
        for spelled in (system, system.upper()):
            face = physical.Constants(spelled)
            if set(face) != set(PHYSICS['constants']) or len(face) != len(PHYSICS['constants']) or name not in face:
                raise Violation(f"Constants({spelled!r}) has {sorted(face)}")
            got = face[name]
            want = table[system]
            what = f"Constants({spelled!r})[{name!r}]"
            if not isinstance(got, physical.Scalar) or not close(got, want['value']):
                raise Violation(f"{what} is {got!r}, not {want}")
            if not got.unit == metric.Unit(want['unit']):
                raise Violation(f"{what} has the unit {got.unit}, not {want['unit']}")
            obs.step((name, system))
        if not isinstance(outcome(lambda: face['no such constant']), KeyError) or 'no such constant' in face:
            raise Violation(f"Constants({system!r}) knows an undefined constant")
        # using a constant does not change it
        _ = got * 2, got['mks'] if name not in ELECTROMAGNETIC else None
        if not close(physical.Constants(system)[name], want['value']):
            raise Violation(f"{what} changed to {physical.Constants(system)[name]!r}")
        made[system] = got
    if name not in ELECTROMAGNETIC:
        there = made['mks'][str(made['cgs'].unit)]
        if not close(there, made['cgs'], 1e-9):
            raise Violation(f"{name}: the mks value is {there!r} in the cgs unit, but the cgs value is {made['cgs']!r}")


# ---------------------------------------------------------------- species

ELEMENTS = PHYSICS['elements']
_counts = [round(m) for _, _, m in ELEMENTS]
UNIQUE = [i for i, c in enumerate(_counts) if _counts.count(c) == 1]
CHARGES = (-3, -1, 0, 1, 2, 5)


def species(tier):
    for i in range(len(ELEMENTS)):
        yield i


def check_species(i, obs):
    symbol, name, mass = ELEMENTS[i]
    found = fundamental.ELEMENTS.find(symbol, unique=True)
    if (found['symbol'], found['name'], found['mass']) != (symbol, name, mass):
        raise Violation(f"element {symbol} is {found}")
    if fundamental.ELEMENTS(name=name)['symbol'] != symbol:
        raise Violation(f"element {name} is {fundamental.ELEMENTS(name=name)}")
    for q in CHARGES:
        full = symbol + ('+' if q > 0 else '-') * abs(q)
        s = plasma.Species(full)
        obs.step(full)
        if s.symbol != full:
            raise Violation(f"Species({full!r}).symbol is {s.symbol!r}")
        for got in (s.mass, s.m):
            if not isinstance(got, physical.Scalar) or float(got) != mass or not got.unit == metric.Unit('nucleon'):
                raise Violation(f"Species({full!r}).mass is {got!r}")
        for got in (s.charge, s.q):
            if not isinstance(got, physical.Scalar) or float(got) != q or not got.unit == metric.Unit('e'):
                raise Violation(f"Species({full!r}).charge is {got!r}")
        if i not in UNIQUE:
            continue
        for m in (mass, round(mass), float(round(mass))):
            for c in (q, float(q)):
                got = fundamental.elements(m, c)
                if got != [full]:
                    raise Violation(f"elements({m}, {c}) is {got}, not {full}")
                for order in itertools.permutations(('symbol', 'mass', 'charge')):
                    s = plasma.Species(mass=m, charge=c)
                    for attr in order:
                        getattr(s, attr)
                    if s.symbol != full or float(s.mass) != m or float(s.charge) != c:
                        raise Violation(f"Species(mass={m}, charge={c}) read as {order} is {s}")
                    if not s.mass.unit == metric.Unit('nucleon') or not s.charge.unit == metric.Unit('e'):
                        raise Violation(f"Species(mass={m}, charge={c}) is {s}")
                obs.step()
        # several species at once, in the given order
        for j in (UNIQUE[0], UNIQUE[len(UNIQUE) // 2], UNIQUE[-1]):
            other = ELEMENTS[j][0]
            for masses, charges, want in (
                ([mass, ELEMENTS[j][2]], [q, 0], [full, other]),
                ([ELEMENTS[j][2], mass], [1, q], [other + '+', full]),
            ):
                for kind in (list, tuple, numpy.array):
                    got = fundamental.elements(kind(masses), kind(charges))
                    if list(got) != want:
                        raise Violation(f"elements({masses}, {charges}) is {got}, not {want}")
            for bad in (([mass], [q, q]), ([mass, mass], [q]), (mass, [q, q])):
                if not isinstance(outcome(lambda: fundamental.elements(*bad)), TypeError):
                    raise Violation(f"elements{bad} is accepted")
            obs.step()


def check_unknown(m, obs):
    obs.step(m)
    got = outcome(lambda: fundamental.elements([m], [1]))
    if m in _counts:
        want = {ELEMENTS[i][0] + '+' for i, c in enumerate(_counts) if c == m}
        if not isinstance(got, list) or len(got) != 1 or got[0] not in want:
            raise Violation(f"elements([{m}], [1]) is {got!r}")
    elif not isinstance(got, fundamental.MassValueError):
        raise Violation(f"elements([{m}], [1]) is {got!r}, but no element has this mass")


def spaces(tier):
    return [
        Space('arguments', lambda t: ([i] for i in range(len(INPUTS))), check_argument, 'every form of argument over numbers, sequences, strings and units'),
        Space('equality', lambda t: ([i] for i in range(len(INPUTS))), check_pair, 'every pair of arguments'),
        Space('refused', refused, check_refused, 'ill-formed arguments'),
        Space('parameters', parameters, check_parameters, 'every ordered set of up to 2 (3) of eight parameters, every alias, conversions'),
        Space('names', named, check_named, 'vectors and scalars from every source'),
        Space('constants', constants, check_constant, 'every constant in both systems'),
        Space('species', species, check_species, 'every element, six charges, every spelling of mass and charge'),
        Space('masses', lambda t: iter(range(0, 300)), check_unknown, 'every integral mass below 300'),
    ]
