"""P02: symbolic expressions form the algebra of monomials."""
import itertools
from fractions import Fraction as F

from mc.core import Space, Violation
from mc.models import Mono, close
from mc.props.p01 import meaning, same

from goats.core import symbolic

ASSUMPTIONS = [
    'values are compared with relative tolerance 1e-9 (powers are computed in floating point)',
    'hash/equality agreement is required for coefficients and exponents that floats represent exactly',
]

a, b, c = (Mono.base(x) for x in 'abc')
ELEMENTS = [
    ('a', a), ('b', b), ('a * b', a * b), ('a / b', a / b), ('b^2 / a', b ** F(2) / a),
    ('2a', Mono(2) * a), ('a^1/2 * c^-3/2', a ** F(1, 2) * c ** F(-3, 2)), ('4', Mono(4)),
    ('1', Mono()), ('c^-1', c ** F(-1)), ('1/4 b^2', Mono(F(1, 4)) * b ** F(2)),
    ('a * b^2 * c^-3 * d^4 / f', a * b ** F(2) * c ** F(-3) * Mono.base('d') ** F(4) / Mono.base('f')),
    ('-2b', Mono(-2) * b),
]
NUMBERS = [2, 8, -2, 0.5, 4.0, F(1, 4), F(-4)]
POWERS = [F(2), F(-1), F(1, 2), F(-3), F(3, 2), F(-1, 2)]
ODD_POWERS = [F(1, 3), F(1, 10), F(-2, 3)]


def exact(m: Mono):
    """True if floats represent this monomial exactly."""
    if isinstance(m.c, float):
        return False
    return F(float(m.c)) == m.c and all(F(float(v)) == v for v in m.e.values())


def render(m: Mono, order=1):
    """A string for this monomial, with terms in a fixed but arbitrary order."""
    parts = [f"{k}^{v}" for k, v in sorted(m.e.items())[::order]]
    head = str(m.c)
    return ' * '.join([head] + parts if m.c != 1 or not parts else parts)


def agree(expr, want, obs, what):
    obs.step(want.key())
    if not isinstance(expr, symbolic.Expression):
        raise Violation(f"{what} gave a {type(expr)}")
    got = meaning(expr)
    if not same(got, want):
        raise Violation(f"{what}: expected {want}, got {got}")
    again = symbolic.Expression(str(expr))
    if not same(meaning(again), want):
        raise Violation(f"{what}: printed as {str(expr)!r}, which means {meaning(again)}, not {want}")
    if exact(want):
        for order in (1, -1):
            text = render(want, order)
            other = symbolic.Expression(text)
            if not (expr == other) or not (other == expr) or expr != other or not (expr == text):
                raise Violation(f"{what}: {expr} is not equal to {text!r}")
            if hash(expr) != hash(other):
                raise Violation(f"{what}: {expr} and {other} are equal but hash differently")


OPS = (
    [('mul', i) for i in range(len(ELEMENTS))]
    + [('div', i) for i in range(len(ELEMENTS))]
    + [('rmul', i) for i in (0, 3, 5, 7)] + [('rdiv', i) for i in (0, 3, 5, 6, 8)]
    + [('smul', i) for i in (2, 5)] + [('sdiv', i) for i in (3, 6)]
    + [('pow', n) for n in POWERS]
    + [('imul', 2), ('idiv', 4)]
    + [(name, n) for name in ('nmul', 'nrmul', 'ndiv', 'nrdiv') for n in NUMBERS]
)


def step(expr, model, op):
    name, arg = op
    if name == 'pow':
        if model.c < 0 and arg.denominator != 1:
            return expr, model
        return expr ** (float(arg)), model ** arg
    if name in ('nmul', 'nrmul', 'ndiv', 'nrdiv'):
        number = Mono(F(arg))
        return {
            'nmul': lambda: (expr * arg, model * number), 'nrmul': lambda: (arg * expr, model * number),
            'ndiv': lambda: (expr / arg, model / number), 'nrdiv': lambda: (arg / expr, number / model),
        }[name]()
    text, other = ELEMENTS[arg]
    value = symbolic.Expression(text)
    before = str(value)
    if name == 'mul':
        out = expr * value, model * other
    elif name == 'div':
        out = expr / value, model / other
    elif name == 'smul':
        out = expr * text, model * other
    elif name == 'sdiv':
        out = expr / text, model / other
    elif name == 'rmul':
        out = text * expr, other * model
    elif name == 'rdiv':
        out = text / expr, other / model
    elif name == 'imul':
        this = expr
        this *= value
        out = this, model * other
    elif name == 'idiv':
        this = expr
        this /= value
        out = this, model / other
    if str(value) != before:
        raise Violation(f"{name} changed its operand {before} to {value}")
    return out


def check_sequence(case, obs):
    start, ops = case
    text, model = ELEMENTS[start]
    expr = symbolic.Expression(text)
    trail = text
    for op in ops:
        kept = str(expr)
        new, model = step(expr, model, op)
        trail = f"{op[0]}({trail}, {op[1] if op[0] == 'pow' or op[0][0] == 'n' else ELEMENTS[op[1]][0]})"
        agree(new, model, obs, trail)
        if str(expr) != kept:
            raise Violation(f"{trail} changed its operand {kept} to {expr}")
        expr = new


def sequences(tier):
    depth = 3 if tier == 'thorough' else 2
    for n in range(1, depth + 1):
        ops = OPS if n < 3 else OPS[::2]
        for start in range(len(ELEMENTS)):
            for seq in itertools.product(ops, repeat=n):
                yield [start, list(seq)]


def check_laws(case, obs):
    """Laws on the results of the real operators, not via the model."""
    i, j, k = case
    x, y, z = (symbolic.Expression(ELEMENTS[n][0]) for n in case)
    one = symbolic.Expression('1')
    for left, right, law in (
        (x * y, y * x, 'x*y == y*x'),
        ((x * y) * z, x * (y * z), '(x*y)*z == x*(y*z)'),
        (x / y, x * y ** -1, 'x/y == x*y**-1'),
        (x / y / z, x / (y * z), 'x/y/z == x/(y*z)'),
        ((x * y) ** 2, x ** 2 * y ** 2, '(x*y)**2 == x**2*y**2'),
        ((x ** 2) ** 0.5 if ELEMENTS[i][1].c > 0 else x, x, '(x**2)**0.5 == x'),
        (x / x, one, 'x/x == 1'),
        (x * one, x, 'x*1 == x'),
        (x * y / y, x, 'x*y/y == x'),
        (symbolic.product(str(x), str(y)), x * y, 'product'),
        (symbolic.ratio(str(x), str(y)), x / y, 'ratio'),
        (symbolic.power(str(x), -2), x ** -2, 'power'),
    ):
        obs.step((law, str(left)))
        if not (left == right) or left != right or hash(left) != hash(right):
            raise Violation(f"{law} fails for x={x}, y={y}, z={z}: {left} vs {right}")
    if symbolic.equality(str(x), str(y)) != (x == y):
        raise Violation(f"equality({x}, {y}) disagrees with ==")
    want = same(ELEMENTS[i][1], ELEMENTS[j][1])
    if (x == y) != want or (y == x) != want or (x != y) == want:
        raise Violation(f"({x} == {y}) is {x == y}, expected {want}")


def check_odd(case, obs):
    """Powers that floats cannot represent still mean what they say."""
    i, p, q = case
    text, model = ELEMENTS[i]
    if model.c < 0:
        return
    expr = symbolic.Expression(text) ** float(p)
    obs.step((model ** p).key())
    for got in (meaning(expr), meaning(symbolic.Expression(str(expr)))):
        if not same(got, model ** p):
            raise Violation(f"({text})**{p}: expected {model ** p}, got {got}")
    expr = expr ** float(q)
    obs.step((model ** (p * q)).key())
    for got in (meaning(expr), meaning(symbolic.Expression(str(expr)))):
        if not same(got, model ** (p * q)):
            raise Violation(f"(({text})**{p})**{q}: expected {model ** (p * q)}, got {got}")


def check_sequence_protocol(case, obs):
    text, model = ELEMENTS[case[0]] if isinstance(case[0], int) else None
    expr = symbolic.Expression(text)
    terms = list(expr)
    obs.step(str(terms))
    if len(expr) != len(terms):
        raise Violation(f"len({expr}) is {len(expr)} but it has {len(terms)} terms")
    for i in range(-len(terms), len(terms)):
        if expr[i] != terms[i]:
            raise Violation(f"{expr}[{i}] is {expr[i]}, not {terms[i]}")
    for sl in (slice(None), slice(1, None), slice(None, -1), slice(None, None, -1)):
        if list(expr[sl]) != terms[sl]:
            raise Violation(f"{expr}[{sl}] is {list(expr[sl])}")
    try:
        expr[len(terms)]
    except IndexError:
        pass
    else:
        raise Violation(f"{expr}[{len(terms)}] did not raise IndexError")
    for term in terms:
        if term not in expr:
            raise Violation(f"{term} is not in {expr}")
    # term by term, the printed form
    if str(expr) != ' '.join(str(t) for t in terms):
        raise Violation(f"{expr} does not print its terms")


def check_difference(case, obs):
    (s, x), (t, y) = (ELEMENTS[i] for i in case)
    terms = lambda m: ({(k, v) for k, v in m.e.items()} | ({('1', m.c)} if m.c != 1 or not m.e else set()))
    model = lambda ts: {(u.base, u.exponent) if u.base != '1' else ('1', u.coefficient) for u in ts}
    p, q = symbolic.Expression(s), symbolic.Expression(t)
    A, B = terms(x), terms(y)
    obs.step((sorted(map(str, A)), sorted(map(str, B))))
    for other in (q, t):
        if model(p.difference(other)) != A - B:
            raise Violation(f"difference({s}, {t}) is {p.difference(other)}")
        if model(p.difference(other, symmetric=True)) != A ^ B:
            raise Violation(f"symmetric difference({s}, {t}) is {p.difference(other, symmetric=True)}")
        if [model(d) for d in p.difference(other, split=True)] != [A - B, B - A]:
            raise Violation(f"split difference({s}, {t}) is {p.difference(other, split=True)}")


def check_apply(case, obs):
    """apply() substitutes every base."""
    i, subs = case
    text, model = ELEMENTS[i]
    expr = symbolic.Expression(text)
    table = dict(zip('abc', (ELEMENTS[j] for j in subs)))
    table['1'] = ('1', Mono())
    table.update({x: ELEMENTS[(subs[0] + 1) % 6] for x in 'df'})
    if any(F(v).denominator != 1 and k in table and table[k][1].c < 0 for k, v in model.e.items()):
        return
    if model.c != 1:
        return
    want = Mono()
    for k, v in model.e.items():
        want = want * table[k][1] ** v
    got = expr.apply(lambda base: symbolic.Expression(table[base][0]))
    agree(got, want, obs, f"({text}).apply({table})")


def check_term(case, obs):
    """Term: construction, evaluation, power and casts."""
    coef, exp, value = case
    t = symbolic.Term(coefficient=coef, base='x', exponent=exp)
    obs.step((coef, exp, value))
    want = coef * float(value) ** float(exp)
    got = float(t(value))
    if not close(got, want):
        raise Violation(f"({t})({value}) is {got}, expected {want}")
    u = symbolic.Term(coef, 'x', exp)
    if t != u or hash(t) != hash(u):
        raise Violation('equal terms differ')
    for p in (2, -1):
        got = t ** p
        if not (close(got.coefficient, F(coef) ** p) and got.exponent == F(exp) * p and got.base == 'x'):
            raise Violation(f"({t})**{p} is {got}")
    got = 3 * t
    if got.coefficient != 3 * F(coef) or got.exponent != F(exp) or got.base != 'x':
        raise Violation(f"3*({t}) is {got}")
    k = symbolic.Term(coefficient=coef)
    if float(k) != float(coef) or not (k == coef) or (float(coef) == int(coef) and int(k) != int(coef)):
        raise Violation(f"constant {coef} casts to {float(k)}")
    for cast in (int, float):
        try:
            cast(t)
        except TypeError:
            pass
        else:
            raise Violation(f"{cast}({t}) did not raise TypeError")


def wide(n):
    """An expression of n bases with different exponents."""
    m = Mono()
    for i, x in enumerate('abcdfghij'[:n]):
        m = m * Mono.base(x) ** F((-1) ** i * (i // 2 + 1), 1 + i % 2)
    return m


def check_neighbours(case, obs):
    """An expression equals exactly itself, not one that differs in a single place."""
    n, coefficient = case
    base = Mono(coefficient) * wide(n)
    others = [(Mono(2) * base), base / Mono(8), Mono(-1) * base, base * Mono.base('z'), base / Mono.base('z')]
    for x in base.e:
        others += [base * Mono.base(x), base / Mono.base(x), base * Mono.base(x) ** F(1, 2),
                   base / Mono.base(x) ** base.e[x], base / Mono.base(x) ** base.e[x] * Mono.base('z') ** base.e[x],
                   base / Mono.base(x) ** (2 * base.e[x])]
    this = symbolic.Expression(render(base))
    agree(this, base, obs, 'wide expression')
    for m in others:
        that = symbolic.Expression(render(m))
        obs.step(m.key())
        want = same(m, base)
        for got in (this == that, that == this, not (this != that), this == render(m), that == render(base),
                    symbolic.equality(render(base), render(m))):
            if bool(got) != want:
                raise Violation(f"({this} == {that}) is {got}, expected {want}")
        if (len(this.difference(that, symmetric=True)) == 0) != want:
            raise Violation(f"the difference of {this} and {that} is {this.difference(that, symmetric=True)}")
        ratio = meaning(this / that)
        if not same(ratio, base / m):
            raise Violation(f"{this} / {that} is {this / that}")


BIG = [F(123456), F(1234567), F(123456789012), F(1234567890123456), F(2) ** 60, F(1, 2) ** 30, F(1234567, 2), F(-98765), F(98765, 1024),
       F(1, 3), F(22, 7), F(1000003, 999983), F(10) ** 30]


def check_big(case, obs):
    """Coefficients of many digits are kept."""
    c, i = case
    text, model = ELEMENTS[i]
    want = Mono(c) * model
    for expr in (symbolic.Expression(text) * c, c * symbolic.Expression(text), symbolic.Expression(text) / (1 / c),
                 symbolic.Expression(f"({c})({text})"), symbolic.Expression([str(c), text])):
        obs.step(want.key())
        for got in (expr, symbolic.Expression(str(expr)), symbolic.Expression(expr.format(separator=' * '))):
            m = meaning(got)
            if m.e != want.e or abs(F(m.c) / F(want.c) - 1) > F(1, 10 ** 14):
                raise Violation(f"{c} times {text!r} is {got}")


def check_format(case, obs):
    """Every term is written, with its base and whole exponent, in any style."""
    i, = case
    text, model = ELEMENTS[i] if i < len(ELEMENTS) else (render(wide(i - len(ELEMENTS))), wide(i - len(ELEMENTS)))
    for p in (F(1), F(2), F(1, 2), F(-3, 2), F(5, 4)):
        if model.c < 0 and p.denominator != 1:
            continue
        m = model ** p
        expr = symbolic.Expression(text) ** float(p)
        obs.step(m.key())
        for sep in (' ', ' * ', '|'):
            parts = expr.format(separator=sep, style='tex').split(sep)
            want = {f"{k}^{{{v}}}" if v != 1 else k for k, v in m.e.items()}
            if {q for q in parts if q[0].isalpha()} != want or len(parts) - len(want) != (m.c != 1 or not want):
                raise Violation(f"{expr} in TeX is {parts}, expected {want}")
            parts = expr.format(separator=sep).split(sep)
            want = {f"{k}^{v}" if v != 1 else k for k, v in m.e.items()}
            if {q for q in parts if q[0].isalpha()} != want or len(parts) - len(want) != (m.c != 1 or not want):
                raise Violation(f"{expr} is written {parts}, expected {want}")


def spaces(tier):
    n = len(ELEMENTS)
    return [
        Space('operation sequences', sequences, check_sequence,
              f'{n} starting expressions, {len(OPS)} operations (mul, div, pow; plain, reflected, in place, with strings), depth {3 if tier == "thorough" else 2}'),
        Space('laws', lambda t: itertools.product(range(n), repeat=3), check_laws, f'group laws on all {n}^3 triples'),
        Space('other powers', lambda t: itertools.product(range(n), ODD_POWERS + POWERS[:3], ODD_POWERS + POWERS[:3]), check_odd, 'non-dyadic powers, twice'),
        Space('sequence protocol', lambda t: [[i] for i in range(n)], check_sequence_protocol, 'indexing, slicing, length'),
        Space('difference', lambda t: itertools.product(range(n), repeat=2), check_difference, 'all pairs'),
        Space('apply', lambda t: itertools.product(range(n), itertools.product(range(n) if t == 'thorough' else (0, 1, 2, 4, 6), repeat=3)), check_apply, 'all substitutions of three bases'),
        Space('neighbours', lambda t: [[n, k] for n in range(1, 10) for k in (F(1), F(3), F(-1, 2))], check_neighbours,
              'expressions of 1 to 9 bases x 3 coefficients, compared with every expression that differs in one place'),
        Space('many digits', lambda t: itertools.product(BIG, range(n)), check_big, f'{len(BIG)} coefficients x {n} expressions, given and printed five ways'),
        Space('styles', lambda t: [[i] for i in range(n + 10) if i != n], check_format, 'every expression and up to 9 bases, 5 powers, plain and TeX, 3 separators'),
        Space('terms', lambda t: [
            [x, e, v] for x in (1, 2, F(1, 2), -3, 0.25, 1.5) for e in (1, 2, 3, -1, -3, F(1, 2), 0) for v in (1, 4, 0.25, -2, -0.5, 3)
            if v > 0 or F(e).denominator == 1], check_term, 'coefficient x exponent x value'),
    ]
