"""P01: a symbolic string means what algebra says it means."""
import itertools
from fractions import Fraction as F

from mc.core import Space, Violation
from mc.models import Mono, close

from goats.core import symbolic

ASSUMPTIONS = [
    'the grammar of the Operand/Parser docstrings: [c]b[^e], c[^e], [c](...)[^e], sqrt(...)',
    "a '/' acts on the one operand after it; juxtaposition means multiplication",
    "strings that the documented grammar leaves ambiguous ('2^2/3', '3/2a', 'b / 2(a)') are not in the alphabet",
]


def meaning(expr, options=None):
    """The Mono that an Expression denotes, with structural invariants checked."""
    c, e, order = F(1), {}, []
    for term in expr:
        if term.base == '1':
            c *= term.coefficient
            continue
        if term.coefficient != 1:
            raise Violation(f"a variable term of {expr} carries a coefficient")
        if term.base in e:
            raise Violation(f"base {term.base!r} occurs twice in {expr}")
        if term.exponent == 0:
            raise Violation(f"a term of {expr} has exponent 0")
        e[term.base] = term.exponent
        order.append((-term.exponent, term.base))
    if order != sorted(order):
        raise Violation(f"the terms of {expr} are not in canonical order")
    return Mono(c, e)


def same(got: Mono, want: Mono):
    return (
        close(got.c, want.c)
        and set(got.e) == set(want.e)
        and all(close(got.e[k], want.e[k]) for k in want.e)
    )


def expect(string, want, obs, **options):
    got = meaning(symbolic.Expression(string, **options))
    obs.step(want.key())
    if not same(got, want):
        raise Violation(f"{string!r} means {want}, parsed as {got}")
    return got


# -- the alphabet ---------------------------------------------------------

EXPONENTS = [('', F(1)), ('^2', F(2)), ('^-1', F(-1)), ('^1/2', F(1, 2)), ('^-3/2', F(-3, 2)),
             ('^0.5', F(1, 2)), ('^12', F(12)), ('^1/10', F(1, 10)), ('^-5/12', F(-5, 12)),
             ('^0', F(0)), ('^+3', F(3)), ('^1e1', F(10)), ('^5e-1', F(1, 2))]
COEFFS = [('', F(1)), ('2', F(2)), ('3/4', F(3, 4)), ('1/16', F(1, 16)), ('0.5', F(1, 2)),
          ('.25', F(1, 4)), ('1e3', F(1000)), ('-2', F(-2)), ('10', F(10)),
          ('1e-06', F(1, 10**6)), ('2.5E+2', F(250)), ('1e24', F(10**24))]
BASES = ['a', 'b', 'ab', 'a2', '_x', '#', 'μm', 'Ω', 'e']


def variables(coeffs, bases, exponents):
    for (cs, c), b, (es, e) in itertools.product(coeffs, bases, exponents):
        yield f"{cs}{b}{es}", Mono(c) * Mono.base(b) ** e


def constants(coeffs, exponents):
    for (cs, c), (es, e) in itertools.product(coeffs, exponents):
        if not cs:
            continue
        if c < 0 and e.denominator != 1:
            continue
        yield f"{cs}{es}", Mono(c) ** e


SIMPLE = list(variables(COEFFS, BASES, EXPONENTS)) + list(constants(COEFFS, EXPONENTS))

SMALL_E = [EXPONENTS[i] for i in (0, 1, 2, 3, 7)]
SMALL_C = [COEFFS[i] for i in (0, 1, 2)]
MEDIUM = (
    list(variables(SMALL_C, ['a', 'b'], SMALL_E))
    + list(constants(SMALL_C[1:], SMALL_E[:3]))
)
TINY = [
    ('a', Mono.base('a')), ('b^2', Mono.base('b') ** F(2)), ('2a', Mono(2) * Mono.base('a')),
    ('c^-1/2', Mono.base('c') ** F(-1, 2)), ('3', Mono(3)), ('a^-1', Mono.base('a') ** F(-1)),
    ('b^1/12', Mono.base('b') ** F(1, 12)),
]
OPS = [' * ', '*', ' ', ' / ', '/', '  *', '  ']


def joinable(left, op, right):
    """False where the documented grammar leaves the string ambiguous."""
    if '/' in op and op == '/' and left[-1].isdigit() and (right[0].isdigit() or right[0] == '.'):
        return False
    if '/' in op and right[0].isdigit() and '(' in right and right.index('(') > 0:
        # c(...) directly after a division
        head = right[:right.index('(')]
        if head.replace('/', '').replace('.', '').replace('e', '').isdigit():
            return False
    return True


def apply(op, x, y):
    return x / y if '/' in op else x * y


def join(parts, ops):
    """Join [(string, meaning)...] with operators, left to right."""
    s, m = parts[0]
    for op, (t, n) in zip(ops, parts[1:]):
        if not joinable(s, op, t):
            return None
        s, m = s + op + t, apply(op, m, n)
    return s, m


def pairs(atoms, ops=OPS):
    for x, y in itertools.product(atoms, repeat=2):
        for op in ops:
            joined = join((x, y), (op,))
            if joined:
                yield joined


def triples(atoms, ops):
    for xyz in itertools.product(atoms, repeat=3):
        for o in itertools.product(ops, repeat=2):
            joined = join(xyz, o)
            if joined:
                yield joined


def grouped(inner, coeffs=SMALL_C, exponents=SMALL_E):
    for s, m in inner:
        for (cs, c), (es, e) in itertools.product(coeffs, exponents):
            if m.c < 0 and e.denominator != 1:
                continue
            yield f"{cs}({s}){es}", Mono(c) * m ** e


def roots(inner):
    for s, m in inner:
        if m.c > 0:
            yield f"sqrt({s})", m ** F(1, 2)
            yield f"sqrt( {s} )", m ** F(1, 2)


def pack(it):
    for s, m in it:
        yield [s, m]


# -- spaces ---------------------------------------------------------------

def check_string(case, obs):
    string, want = case
    want_key = want.key()
    expr = symbolic.Expression(string)
    got = meaning(expr)
    obs.step(want_key)
    if not same(got, want):
        raise Violation(f"{string!r} means {want}, parsed as {got}")
    # the printed form parses to the same thing, and so do surrounding spaces
    expect(str(expr), want, obs)
    expect(expr.format(separator=' * '), want, obs)
    expect(f"  {string}", want, obs)
    expect(f"({string})", want, obs)
    expect([string], want, obs)
    again = symbolic.Expression(string)
    obs.step()
    if again != expr or not (again == string):
        raise Violation(f"{string!r} does not equal itself when parsed twice")


def check_light(case, obs):
    string, want = case
    expr = symbolic.Expression(string)
    got = meaning(expr)
    obs.step(want.key())
    if not same(got, want):
        raise Violation(f"{string!r} means {want}, parsed as {got}")
    expect(str(expr), want, obs)


def nested(tier):
    two = list(pairs(TINY[:5], [' * ', ' / ', ' ']))
    level1 = list(grouped(two, SMALL_C[:2], SMALL_E[:4]))
    yield from pack(level1)
    # a group next to something, on either side
    thin = level1[::1] if tier == 'thorough' else level1[::4]
    for g in thin:
        for t in TINY[:4]:
            for op in (' * ', ' / ', ' ', '/', '*'):
                for order in ((g, t), (t, g)):
                    joined = join(order, (op,))
                    if joined:
                        yield list(joined)
    # two groups, and a group in a group
    few = level1[::37] if tier == 'quick' else level1[::11]
    for g, h in itertools.product(few, repeat=2):
        for op in (' * ', ' / ', ''):
            joined = (g[0] + h[0], g[1] * h[1]) if op == '' else join((g, h), (op,))
            if op == '' and not h[0].startswith('('):
                continue
            if joined:
                yield list(joined)
                yield from pack(grouped([joined], SMALL_C[:2], SMALL_E[1:4]))
    for g in thin:
        yield from pack(grouped([g], SMALL_C[:2], SMALL_E[1:3]))
        joined = join((g, TINY[3]), (' / ',))
        if joined:
            yield from pack(grouped(grouped([joined], SMALL_C[:1], SMALL_E[1:3]), SMALL_C[1:2], SMALL_E[1:2]))


def rooted(tier):
    inner = list(TINY) + list(pairs(TINY[:5], [' * ', ' / ', ' ']))
    rs = list(roots(inner))
    yield from pack(rs)
    for r in rs:
        for t in TINY[:4]:
            for op in (' * ', ' / ', ' ', '*'):
                for order in ((r, t), (t, r)):
                    joined = join(order, (op,))
                    if joined:
                        yield list(joined)
        yield from pack(grouped([r], SMALL_C[:2], SMALL_E[1:3]))


def check_options(case, obs):
    """Alternate tokens do not change the meaning."""
    string, want, options = case
    table = {'*': options.get('multiply', '*'), '/': options.get('divide', '/'),
             '(': options.get('opening', '('), ')': options.get('closing', ')'),
             '^': options.get('raising', '^')}
    text = ''.join(table.get(ch, ch) for ch in string)
    expect(text, want, obs, **options)


def options_cases(tier):
    strings = [
        (s, m) for s, m in list(pairs(TINY[:5], [' * ', ' / ']))
        if '^1/' not in s and '/2' not in s.replace(' / ', '')
    ]
    strings += [(f"({s})^2", m ** F(2)) for s, m in strings]
    for options in (
        {'opening': '[', 'closing': ']'}, {'raising': '~'}, {'multiply': '.'},
        {'divide': '|'}, {'multiply': '.', 'divide': '|', 'opening': '{', 'closing': '}', 'raising': '~'},
    ):
        for s, m in strings:
            if options.get('multiply') == '.' and '.' in s:
                continue
            yield [s, m, options]


def check_order(case, obs):
    """operator_order='error' rejects exactly the documented ambiguities."""
    parts, ops = case
    string = parts[0] + ''.join(o + p for o, p in zip(ops, parts[1:]))
    bad = any(x == ' / ' and y in (' / ', ' * ') for x, y in zip(ops, ops[1:]))
    want = Mono.base(parts[0])
    for o, p in zip(ops, parts[1:]):
        want = apply(o, want, Mono.base(p))
    obs.step((string, bad))
    try:
        got = meaning(symbolic.Expression(string, operator_order='error'))
    except symbolic.ParsingError:
        if not bad:
            raise Violation(f"{string!r} is not ambiguous but was rejected")
    else:
        if bad:
            raise Violation(f"{string!r} is ambiguous but was accepted as {got}")
        if not same(got, want):
            raise Violation(f"{string!r} means {want}, parsed as {got}")
    # the default mode takes all of them, left to right
    expect(string, want, obs)


def order_cases(tier):
    for n in (1, 2, 3):
        for ops in itertools.product((' * ', ' / '), repeat=n):
            yield [list('abcd'[:n + 1]), list(ops)]


MALFORMED = [
    'a *', 'a /', 'a * * b', 'a ** b', 'a // b', 'a */ b', 'a /* b', 'a^', 'a^b', 'a ^ 2',
    '(a', 'a)', '(a * b', 'a * b)', '((a)', 'a + b', 'a - b', '!', 'a,b', 'a^^2', 'a^2^3', '(a)^', '^2',
    'a^(2)', 'a^1/', '*', '/', 'a % b',
]


def check_malformed(case, obs):
    obs.step(case)
    try:
        got = symbolic.Expression(case)
    except Exception:
        return
    raise Violation(f"{case!r} is not an expression but was parsed as {got}", key=f"malformed:{case}")


def check_iterable(case, obs):
    strings, want = case
    for form in (list(strings), tuple(strings), iter(strings)):
        expect(form, want, obs)
    one = symbolic.Expression(strings)
    obs.step()
    if symbolic.Expression(one) is not one:
        raise Violation('an expression made from an expression is another object')
    expect(one, want, obs)
    expect(list(one), want, obs)


def iterable_cases(tier):
    for n in (1, 2, 3):
        for xs in itertools.product(TINY[:6], repeat=n):
            m = Mono()
            for _, x in xs:
                m = m * x
            yield [[s for s, _ in xs], m]


def denotes(operand):
    """The Mono that an Operand denotes."""
    return Mono(F(operand.coefficient)) * meaning(symbolic.Expression(operand.base)) ** F(operand.exponent)


OUTER_C = [None, 1, 2, F(3, 4), 0.5]
OUTER_E = [None, 1, 2, -1, F(1, 2), '3/2', -2]


def operand_cases(tier):
    simple = [(s, m) for s, m in MEDIUM + list(variables(COEFFS[4:7], ['ab'], EXPONENTS[:5]))]
    inner = simple + list(pairs(TINY[:5], [' * ', ' / ']))
    strings = inner + list(grouped(inner[::3] if tier == 'quick' else inner, SMALL_C, SMALL_E[:4]))
    once = list(grouped(inner[::5], SMALL_C[:2], SMALL_E[1:3]))
    strings += list(grouped(once, SMALL_C[:2], SMALL_E[1:3]))
    yield from pack(strings)


def check_operand(case, obs):
    """Every way of giving (coefficient, string, exponent) to the operand factory."""
    string, m = case
    factory = symbolic.OperandFactory()
    for c in OUTER_C:
        for e in OUTER_E:
            power = F(1) if e is None else F(e)
            if m.c < 0 and power.denominator != 1:
                continue
            args = ([] if c is None else [c]) + [string] + ([] if e is None else [e])
            got = denotes(factory.create(*args))
            want = Mono(F(1) if c is None else F(c)) * m ** power
            obs.step(want.key())
            if not same(got, want):
                raise Violation(f"create{tuple(args)} means {want}, got {got}")
    match = factory.parse(string)
    if match and not match.remainder.strip():
        if not same(denotes(match.result), m):
            raise Violation(f"parse({string!r}) means {m}, got {denotes(match.result)}")
    elif match:
        rest = match.remainder.strip()
        got = denotes(match.result) * meaning(symbolic.Expression(('1 ' if rest[0] in '*/' else '') + rest))
        if not same(got, m):
            raise Violation(f"parse({string!r}) leaves {rest!r} and {denotes(match.result)}, which do not make {m}")


LONG = [('a', Mono.base('a')), ('b^2', Mono.base('b') ** F(2)), ('2c^-1/2', Mono(2) * Mono.base('c') ** F(-1, 2))]


def long_cases(tier):
    """More operands than a test would write down."""
    for n, ops in ((4, [' * ', ' / ', ' ']), (5, [' * ', ' / '])) + (((6, [' * ', ' / ']),) if tier == 'thorough' else ()):
        for xs in itertools.product(LONG, repeat=n):
            for o in itertools.product(ops, repeat=n - 1):
                yield list(join(xs, o))
    # one base over and over, and a new base every time
    for n in range(2, 11 if tier == 'quick' else 14):
        for o in itertools.product([' * ', ' / '], repeat=n - 1):
            yield list(join([LONG[0]] * n, o))
        names = 'abcdfghijklmnop'[:n]
        for k in range(n):
            ops = [' * '] * (n - 1)
            for end in range(k, n - 1):
                ops[end] = ' / '
            yield list(join([(f"{x}^{i + 1}", Mono.base(x) ** F(i + 1)) for i, x in enumerate(names)], ops))
            yield list(join([(x, Mono.base(x)) for x in names], ops))
    # groups in groups
    text, m = 'a', Mono.base('a')
    for depth in range(1, 8):
        b = 'bcdfghij'[depth]
        for op in (' * ', ' / '):
            yield [f"({text}{op}{b})^2", apply(op, m, Mono.base(b)) ** F(2)]
            yield [f"{b}{op}({text})^-1", apply(op, Mono.base(b), m ** F(-1))]
            yield [f"sqrt({text}{op}{b})", apply(op, m, Mono.base(b)) ** F(1, 2)]
        text, m = f"2({text} / {b})^2", Mono(2) * (m / Mono.base(b)) ** F(2)
        yield [text, m]


PIECES = [
    ('a', Mono.base('a')), ('sqrt(b)', Mono.base('b') ** F(1, 2)), ('sqrt(a * c)', (Mono.base('a') * Mono.base('c')) ** F(1, 2)),
    ('(a / c)^2', (Mono.base('a') / Mono.base('c')) ** F(2)), ('(b)', Mono.base('b')), ('4', Mono(4)),
]


def piece_cases(tier):
    for n in (2, 3):
        for xs in itertools.product(PIECES, repeat=n):
            for o in itertools.product([' * ', ' / ', ' ', '*', '/'] if n == 2 else [' * ', ' / ', ' '], repeat=n - 1):
                yield [[s for s, _ in xs], [m for _, m in xs], list(o)]


def check_pieces(case, obs):
    """Roots, groups and numbers in any order; the strict mode refuses exactly the documented ambiguities."""
    texts, ms, ops = case
    joined = join(list(zip(texts, ms)), ops)
    if joined is None:
        return
    string, want = joined
    expect(string, want, obs)
    signs = [o.strip() for o in ops]
    bad = any(x == '/' and y in ('/', '*') for x, y in zip(signs, signs[1:]))
    obs.step((string, bad))
    try:
        got = meaning(symbolic.Expression(string, operator_order='error'))
    except symbolic.ParsingError:
        if not bad:
            raise Violation(f"{string!r} is not ambiguous but was rejected")
        return
    if bad:
        raise Violation(f"{string!r} is ambiguous but was accepted as {got}")
    if not same(got, want):
        raise Violation(f"{string!r} means {want}, parsed strictly as {got}")


BLANKS = ['', ' ', '\t', '\n', '  ', ' \t', '\r\n']


def blank_cases(tier):
    few = [TINY[0], TINY[1], TINY[4], ('(a)', Mono.base('a')), ('sqrt(b)', Mono.base('b') ** F(1, 2))]
    for x, y in itertools.product(few, repeat=2):
        for op in '*/ ':
            for l, r in itertools.product(BLANKS, repeat=2):
                middle = l + op.strip() + r
                if not middle or not joinable(x[0], middle, y[0]):
                    continue
                yield [x[0] + middle + y[0], apply(op, x[1], y[1])]


def check_blank(case, obs):
    """Blanks around operands mean nothing."""
    string, want = case
    for l, r in (('', ''), ('\t', ''), ('', ' '), ('\n', '\t'), (' ', '\n')):
        expect(f"{l}{string}{r}", want, obs)
        expect(f"({l}{string}{r})", want, obs)


TOKENS = [
    {}, {'multiply': '/', 'divide': '*'}, {'multiply': '|'}, {'divide': '|'}, {'divide': '.'},
    {'opening': '[', 'closing': ']'}, {'opening': '{', 'closing': '}', 'raising': '~'},
]
ROLE = {'multiply': '*', 'divide': '/', 'opening': '(', 'closing': ')', 'raising': '^'}
RAW = [('a', '*', 'b'), ('a', '/', 'b'), ('a', '|', 'b'), ('a', '*', 'b', '/', 'c'), ('a', '/', 'b', '*', 'c'),
       ('a', '|', 'b', '|', 'c'), ('a', '*', 'b', '|', 'c'), ('a', '.', 'b'), ('a', '/', 'b', '/', 'c')]


def read(raw, options, strict):
    """What `raw` means with these tokens: a Mono, None (no meaning), or 'ambiguous'."""
    mul, div = options.get('multiply', '*'), options.get('divide', '/')
    want, previous = Mono.base(raw[0]), None
    for sign, x in zip(raw[1::2], raw[2::2]):
        if sign not in (mul, div):
            return None
        if strict and previous == div:
            return 'ambiguous'
        want = want * Mono.base(x) if sign == mul else want / Mono.base(x)
        previous = sign
    return want


def check_retoken(case, obs):
    """One text read with one set of tokens and then with another."""
    raw, history = case
    text = ' '.join(raw)
    for i, (k, strict) in enumerate(history):
        options = {**TOKENS[k], **({'operator_order': 'error'} if strict else {})}
        want = read(raw, TOKENS[k], strict)
        obs.step((text, k, strict))
        try:
            got = meaning(symbolic.Expression(text, **options))
        except symbolic.ParsingError:
            if want != 'ambiguous':
                raise Violation(f"{text!r} with {options} was called ambiguous")
        except Exception as err:
            if want is not None:
                raise Violation(f"{text!r} with {options} (reading {i + 1}) gave {type(err).__name__}: {err}")
        else:
            if want is None or want == 'ambiguous':
                raise Violation(f"{text!r} with {options} (reading {i + 1}) is {want or 'not an expression'} but was parsed as {got}")
            if not same(got, want):
                raise Violation(f"{text!r} with {options} (reading {i + 1}) means {want}, parsed as {got}")


def retoken_cases(tier):
    modes = [(k, strict) for k in range(len(TOKENS)) for strict in (False, True)]
    for raw in RAW:
        for history in itertools.product(modes, repeat=2):
            yield [list(raw), list(history)]


def check_null(case, obs):
    got = meaning(symbolic.Expression(case))
    obs.step(repr(case))
    if not same(got, Mono()):
        raise Violation(f"{case!r} should mean unity, got {got}")


def spaces(tier):
    return [
        Space('simple operands', lambda t: pack(SIMPLE), check_string,
              f'{len(COEFFS)} coefficients x {len(BASES)} bases x {len(EXPONENTS)} exponents, and constants; 6 spellings of each'),
        Space('two operands', lambda t: pack(pairs(MEDIUM)), check_light,
              f'{len(MEDIUM)}^2 operand pairs x {len(OPS)} operators/spacings'),
        Space('three operands', lambda t: pack(triples(TINY if t == 'thorough' else TINY[:6], [' * ', ' ', ' / ', '*', '/'])),
              check_light, 'all triples of 6 (7) operands x 25 operator pairs'),
        Space('groups', nested, check_light, 'groups with coefficient and exponent, next to and inside each other, depth 3'),
        Space('roots', rooted, check_light, 'sqrt of one or two operands, beside any operator, and raised'),
        Space('tokens', options_cases, check_options, '5 token sets x expressions of two operands'),
        Space('operator order', order_cases, check_order, 'all operator sequences of length 1 to 3'),
        Space('iterables', iterable_cases, check_iterable, 'all sequences of length 1 to 3 over 6 operands, as list, tuple, iterator'),
        Space('operand factory', operand_cases, check_operand, 'terms, products and groups to depth 2 x 5 outer coefficients x 7 outer exponents; create and parse'),
        Space('long strings', long_cases, check_light, 'all strings of 4 and 5 (6) operands, one base up to 10 (13) times with every choice of operators, up to 13 bases, groups 7 deep'),
        Space('pieces', piece_cases, check_pieces, f'all pairs and triples of {len(PIECES)} operands, roots, groups and numbers x operators, lenient and strict'),
        Space('blanks', blank_cases, check_blank, f'{len(BLANKS)}^2 blanks around each operator x 5 x 2 around the string'),
        Space('tokens read again', retoken_cases, check_retoken, f'{len(RAW)} texts, each read twice, with every ordered pair of {2 * len(TOKENS)} parser settings'),
        Space('null', lambda t: ['', None, [], 0], check_null, 'null arguments'),
        Space('malformed', lambda t: MALFORMED, check_malformed, f'{len(MALFORMED)} strings outside the grammar'),
    ]
