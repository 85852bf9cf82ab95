"""What the units mean: an independent table, in SI and in Gaussian terms.

Every unit symbol has a value in each of two systems of measurement:

* SI: a factor and a vector over (M, L, T, I, H, N, J);
* Gaussian: a factor and a vector over (M, L, T, H, N, J), in g, cm, s.

Angles, counts, and nucleons are numbers; a nucleon is also a mass.
"""
from fractions import Fraction as F
import math

c = 299792458.0
PI = math.pi
EV = 1.6022e-19     # the value that goats documents
NUC = 1.6605e-27    # kg; the value that goats documents

PREFIXES = {
    'Y': ('yotta', 24), 'Z': ('zetta', 21), 'E': ('exa', 18), 'P': ('peta', 15), 'T': ('tera', 12), 'G': ('giga', 9),
    'M': ('mega', 6), 'k': ('kilo', 3), 'h': ('hecto', 2), 'da': ('deca', 1), '': ('', 0), 'd': ('deci', -1),
    'c': ('centi', -2), 'm': ('milli', -3), 'μ': ('micro', -6), 'n': ('nano', -9), 'p': ('pico', -12), 'f': ('femto', -15),
    'a': ('atto', -18), 'z': ('zepto', -21), 'y': ('yocto', -24),
}


def vec(**kw):
    return {k: F(v) for k, v in kw.items() if v}


def h(n):
    return F(n, 2)


# symbol: (name, quantity, SI factor, SI vector, Gaussian factor, Gaussian vector)
BASE = {
    'm': ('meter', 'length', 1, vec(L=1), 1e2, vec(L=1)),
    'au': ('astronomical unit', 'length', 1.495978707e11, vec(L=1), 1.495978707e13, vec(L=1)),
    'g': ('gram', 'mass', 1e-3, vec(M=1), 1, vec(M=1)),
    'nuc': ('nucleon', 'mass number', 1, {}, 1, {}),
    'amu': ('atomic mass unit', 'mass number', 1, {}, 1, {}),
    's': ('second', 'time', 1, vec(T=1), 1, vec(T=1)),
    'min': ('minute', 'time', 60, vec(T=1), 60, vec(T=1)),
    'h': ('hour', 'time', 3600, vec(T=1), 3600, vec(T=1)),
    'd': ('day', 'time', 86400, vec(T=1), 86400, vec(T=1)),
    'A': ('ampere', 'current', 1, vec(I=1), 10 * c, vec(M=h(1), L=h(3), T=-2)),
    'K': ('kelvin', 'temperature', 1, vec(H=1), 1, vec(H=1)),
    'mol': ('mole', 'amount', 1, vec(N=1), 1, vec(N=1)),
    '#': ('count', 'number', 1, {}, 1, {}),
    'cd': ('candela', 'luminous intensity', 1, vec(J=1), 1, vec(J=1)),
    'rad': ('radian', 'plane angle', 1, {}, 1, {}),
    'deg': ('degree', 'plane angle', PI / 180, {}, PI / 180, {}),
    'sr': ('steradian', 'solid angle', 1, {}, 1, {}),
    'Hz': ('hertz', 'frequency', 1, vec(T=-1), 1, vec(T=-1)),
    'J': ('joule', 'energy', 1, vec(M=1, L=2, T=-2), 1e7, vec(M=1, L=2, T=-2)),
    'erg': ('erg', 'energy', 1e-7, vec(M=1, L=2, T=-2), 1, vec(M=1, L=2, T=-2)),
    'eV': ('electronvolt', 'energy', EV, vec(M=1, L=2, T=-2), EV * 1e7, vec(M=1, L=2, T=-2)),
    'N': ('newton', 'force', 1, vec(M=1, L=1, T=-2), 1e5, vec(M=1, L=1, T=-2)),
    'dyn': ('dyne', 'force', 1e-5, vec(M=1, L=1, T=-2), 1, vec(M=1, L=1, T=-2)),
    'Pa': ('pascal', 'pressure', 1, vec(M=1, L=-1, T=-2), 10, vec(M=1, L=-1, T=-2)),
    'W': ('watt', 'power', 1, vec(M=1, L=2, T=-3), 1e7, vec(M=1, L=2, T=-3)),
    'C': ('coulomb', 'charge', 1, vec(I=1, T=1), 10 * c, vec(M=h(1), L=h(3), T=-1)),
    'statC': ('statcoulomb', 'charge', 1 / (10 * c), vec(I=1, T=1), 1, vec(M=h(1), L=h(3), T=-1)),
    'statA': ('statampere', 'current', 1 / (10 * c), vec(I=1), 1, vec(M=h(1), L=h(3), T=-2)),
    'statV': ('statvolt', 'potential', c * 1e-6, vec(M=1, L=2, T=-3, I=-1), 1, vec(M=h(1), L=h(1), T=-1)),
    'e': ('fundamental charge', 'charge', EV, vec(I=1, T=1), EV * 10 * c, vec(M=h(1), L=h(3), T=-1)),
    'V': ('volt', 'potential', 1, vec(M=1, L=2, T=-3, I=-1), 1e6 / c, vec(M=h(1), L=h(1), T=-1)),
    'Ω': ('ohm', 'resistance', 1, vec(M=1, L=2, T=-3, I=-2), 1e5 / c**2, vec(T=1, L=-1)),
    'S': ('seimens', 'conductance', 1, vec(M=-1, L=-2, T=3, I=2), c**2 * 1e-5, vec(T=-1, L=1)),
    'F': ('farad', 'capacitance', 1, vec(M=-1, L=-2, T=4, I=2), c**2 * 1e-5, vec(L=1)),
    'Wb': ('weber', 'magnetic flux', 1, vec(M=1, L=2, T=-2, I=-1), 1e8, vec(M=h(1), L=h(3), T=-1)),
    'Mx': ('maxwell', 'magnetic flux', 1e-8, vec(M=1, L=2, T=-2, I=-1), 1, vec(M=h(1), L=h(3), T=-1)),
    'Oe': ('Oersted', 'magnetic intensity', 1e3 / (4 * PI), vec(I=1, L=-1), 1, vec(M=h(1), L=h(-1), T=-1)),
    'H': ('henry', 'inductance', 1, vec(M=1, L=2, T=-2, I=-2), 1e5 / c**2, vec(T=2, L=-1)),
    'T': ('tesla', 'induction', 1, vec(M=1, T=-2, I=-1), 1e4, vec(M=h(1), L=h(-1), T=-1)),
    'G': ('gauss', 'induction', 1e-4, vec(M=1, T=-2, I=-1), 1, vec(M=h(1), L=h(-1), T=-1)),
    'lm': ('lumen', 'luminous flux', 1, vec(J=1), 1, vec(J=1)),
    'lx': ('lux', 'illuminance', 1, vec(J=1, L=-2), 1e-4, vec(J=1, L=-2)),
    'Bq': ('becquerel', 'radioactivity', 1, vec(T=-1), 1, vec(T=-1)),
    'Ci': ('Curie', 'radioactivity', 3.7e10, vec(T=-1), 3.7e10, vec(T=-1)),
    'Gy': ('gray', 'dosage', 1, vec(L=2, T=-2), 1e4, vec(L=2, T=-2)),
    'P': ('poise', 'viscosity', 0.1, vec(M=1, L=-1, T=-1), 1, vec(M=1, L=-1, T=-1)),
    '1': ('unitless', 'identity', 1, {}, 1, {}),
}

# Rationalised quantities, whose Gaussian counterpart is not the same product of
# base units.  Only these exact pairs are defined.
SPECIAL = {
    ('A / m', 'Oe'): 4 * PI * 1e-3,
    ('H / m', '1'): 1e7 / (4 * PI),
    ('F / m', '1'): 36 * PI * 1e9,
    ('A / Wb', '1 / cm'): 4 * PI * 1e-9,
}


def names():
    """Every string that names a unit -> (prefix symbol, base symbol)."""
    out = {}
    for p, (pname, _) in PREFIXES.items():
        for b, info in BASE.items():
            syms = [f'{p}{b}', f'{pname}{info[0]}'] + ([f'u{b}'] if p == 'μ' else [])
            for s in syms:
                out.setdefault(s, (p, b))
    for b, info in BASE.items():  # the base unit wins
        out[b] = out[info[0]] = ('', b)
    return out


NAMES = names()


def lookup(name):
    """A unit name -> (scale, base)."""
    p, b = NAMES[name]
    return 10.0 ** PREFIXES[p][1], b


def meaning(terms, system='SI', nucleon='number'):
    """The factor and vector of a product of (unit name, exponent)."""
    factor, vector = 1.0, {}
    for name, exp in terms:
        scale, b = lookup(name)
        _, q, f, v, gf, gv = BASE[b]
        if system == 'G':
            f, v = gf, gv
        if nucleon == 'mass' and q == 'mass number':
            f, v = (NUC, vec(M=1)) if system == 'SI' else (NUC * 1e3, vec(M=1))
        factor *= (scale * f) ** float(exp)
        for k, n in v.items():
            vector[k] = vector.get(k, 0) + n * F(exp)
    return factor, {k: n for k, n in vector.items() if n}


def ratio(t0, t1):
    """The only right conversion factor(s) from t0 to t1, best first."""
    out = []
    for nucleon in ('number', 'mass'):
        for system in ('SI', 'G'):
            f0, v0 = meaning(t0, system, nucleon)
            f1, v1 = meaning(t1, system, nucleon)
            if v0 == v1:
                out.append((f0 / f1, system, nucleon))
    return out


def text(terms, style=0):
    """Ways of writing the same product."""
    def one(n, e):
        return n if e == 1 else f'{n}^{e}'
    if style == 0:
        return ' '.join(one(n, e) for n, e in terms) or '1'
    if style == 1:
        return ' * '.join(one(n, e) for n, e in reversed(terms)) or '1'
    top = [(n, e) for n, e in terms if e > 0]
    bottom = [(n, -e) for n, e in terms if e < 0]
    s = ' * '.join(one(n, e) for n, e in top) or '1'
    if not bottom:
        return s
    b = ' * '.join(one(n, e) for n, e in bottom)
    return f'{s} / ({b})' if len(bottom) > 1 else f'{s} / {b}'


def symbol(p, b):
    """The symbol of a prefixed unit, or its name where the symbol is taken."""
    s = f'{p}{b}'
    return s if NAMES[s] == (p, b) else f'{PREFIXES[p][0]}{BASE[b][0]}'


# Units whose symbols differ by little, in groups of one dimension: each has another size.
ALIKE = [
    ['m', 'mm', 'Mm', 'cm', 'km', 'dm', 'dam', 'pm', 'Pm', 'ym', 'Ym', 'am', 'au', 'hm', 'Em', 'fm'],
    ['eV', 'MeV', 'meV', 'PeV', 'peV', 'keV', 'J', 'mJ', 'MJ', 'erg', 'merg'],
    ['s', 'ms', 'Ms', 'ps', 'Ps', 'as', 'min', 'h', 'd', 'ds', 'das', 'hs'],
    ['g', 'mg', 'Mg', 'kg', 'dg', 'dag', 'pg', 'Pg'],
    ['T', 'mT', 'MT', 'nT', 'pT', 'PT'],
    ['Pa', 'mPa', 'MPa', 'pPa', 'PPa', 'hPa', 'aPa'],
    ['m / s', 'mm / s', 'Mm / s', 'm / ms', 'm / Ms', 'km / s', 'm / min', 'm / h'],
    ['m^2', 'mm^2', 'Mm^2', 'm mm', 'm Mm', 'cm^2'],
    ['MeV^-1', 'meV^-1', 'eV^-1', 'mJ^-1', 'MJ^-1', 'J^-1'],
]


def parts(text):
    """The terms of a unit like those in ALIKE."""
    top, _, bottom = text.partition(' / ')
    out = []
    for side, sign in ((top, 1), (bottom, -1)):
        for word in side.split():
            name, _, exp = word.partition('^')
            out.append((name, sign * int(exp or 1)))
    return out
