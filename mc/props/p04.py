"""P04: alias groups stay a partition, and every alias names one thing."""
import itertools

from mc.core import Space, Violation

from goats.core import aliased
from goats.core import metric
from goats.core import reference
from goats.core import symbolic

ASSUMPTIONS = ['operations inherited from collections.abc.MutableSet that goats does not use (|, &, -, ^ on Groups) are not explored']

ELEMENTS = ['a', 'A', 'b', 'cc', 'd']
SETS = [('a',), ('a', 'A'), ('A', 'b'), ('cc',), ('b', 'cc'), ('d', 'a'), 'cc', 'b', ('A', 'd', 'cc')]


def as_set(x):
    return frozenset([x]) if isinstance(x, str) else frozenset(x)


def merged(parts, new):
    """Union-find, the boring way."""
    out = list(parts)
    for n in new:
        n = as_set(n)
        hit = [p for p in out if p & n]
        out = [p for p in out if not (p & n)] + [n.union(*hit)]
    return out


def observe(g, parts, what):
    got = sorted(tuple(sorted(x)) for x in g)
    want = sorted(tuple(sorted(x)) for x in parts)
    if got != want or len(g) != len(parts):
        raise Violation(f"{what}: groups are {got}, expected {want}")
    if sorted(g.flat) != sorted(e for p in parts for e in p):
        raise Violation(f"{what}: flat is {g.flat}")
    for e in ELEMENTS + ['?']:
        mine = next((p for p in parts if e in p), None)
        if (e in g) != (mine is not None):
            raise Violation(f"{what}: ({e!r} in groups) is {e in g}")
        found = g.find(e, None)
        if (frozenset(found) if found is not None else None) != mine:
            raise Violation(f"{what}: find({e!r}) is {found}, expected {mine}")
        if mine is None and g.find(e, 'default') != 'default':
            raise Violation(f"{what}: find ignored its default")
    for p in parts:
        for order in (sorted(p), sorted(p, reverse=True)):
            key = aliased.Group(tuple(order))
            if key not in g or frozenset(g.find(key)) != p:
                raise Violation(f"{what}: cannot find the group {order}")
    # several aliases together are found only if they are the whole group
    for pair in itertools.combinations(ELEMENTS, 2):
        whole = frozenset(pair) in parts
        for key in (pair, aliased.Group(pair[1], pair[0])):
            found = g.find(key, None)
            if (found is not None) != whole or (key in g) != whole:
                raise Violation(f"{what}: find({key!r}) is {found}, but there is {'a' if whole else 'no'} such group")


def ops():
    for s in SETS:
        yield ('add', s)
    for s in SETS[:6]:
        yield ('update', (s,))
        yield ('merge', (s,))
    yield ('update', (('a', 'b'), ('A', 'cc')))
    yield ('merge', (('A', 'b'), ('b', 'd')))
    yield ('update groups', (('a', 'cc'), ('b', 'd')))
    yield ('merge groups', (('b', 'A'),))
    for e in ELEMENTS:
        yield ('discard', e)
    for e in ELEMENTS[:2]:
        yield ('remove', e)
        yield ('without', (e,))
    yield ('without', ('a', 'b'))
    yield ('without', (aliased.Group('A', 'a'),))
    yield ('clear',)


OPS = list(ops())


def check(case, obs):
    start, seq = case
    g = aliased.Groups(*start)
    parts = [as_set(s) for s in start]
    what = f"Groups{tuple(start)}"
    observe(g, parts, what)
    obs.step(tuple(sorted(map(str, map(sorted, parts)))))
    for n in seq:
        op = OPS[n]
        what += f" -> {op}"
        name = op[0]
        kept = (g, list(parts))
        if name == 'add':
            s = as_set(op[1])
            if any(s & p for p in parts):
                try:
                    g.add(op[1])
                except ValueError:
                    pass
                else:
                    raise Violation(f"{what}: added an alias that is already in use")
            else:
                g.add(op[1])
                parts = parts + [s]
        elif name == 'update':
            g.update(*op[1])
            parts = merged(parts, op[1])
        elif name == 'merge':
            g = g.merge(*op[1])
            parts = merged(parts, op[1])
        elif name in ('update groups', 'merge groups'):
            other = aliased.Groups(*op[1])
            if name[0] == 'u':
                g.update(other)
            else:
                g = g.merge(other)
            parts = merged(parts, op[1])
            observe(other, [as_set(s) for s in op[1]], f"{what}: the argument")
        elif name == 'discard':
            g.discard(op[1])
            parts = [p for p in parts if op[1] not in p]
        elif name == 'remove':
            if any(op[1] in p for p in parts):
                g.remove(op[1])
                parts = [p for p in parts if op[1] not in p]
            else:
                try:
                    g.remove(op[1])
                except KeyError:
                    pass
                else:
                    raise Violation(f"{what}: removed an unknown alias")
        elif name == 'without':
            g = g.without(*op[1])
            parts = [p for p in parts if not any(
                (k in p) if isinstance(k, str) else frozenset(k) == p for k in op[1])]
        elif name == 'clear':
            g.clear()
            parts = []
        if g is not kept[0]:
            observe(kept[0], kept[1], f"{what}: the original")
        observe(g, parts, what)
        obs.step(tuple(sorted(map(str, map(sorted, parts)))))


STARTS = [[], [('a', 'A')], [('a', 'A'), 'b'], [('a',), ('A',), ('b', 'cc'), 'd']]


def histories(tier):
    depth = 3 if tier == 'thorough' else 2
    for n in range(0, depth + 1):
        for start in STARTS:
            for seq in itertools.product(range(len(OPS)), repeat=n):
                yield [start, list(seq)]
    if tier == 'quick':
        for seq in itertools.product(range(len(OPS)), repeat=3):
            yield [STARTS[2], list(seq)]


def check_group(case, obs):
    """A group is a set of aliases, whatever the order or nesting of its arguments."""
    p, q = case
    x, y = frozenset(p), frozenset(q)
    obs.step((tuple(sorted(x)), tuple(sorted(y))))
    forms = [aliased.Group(*p), aliased.Group(tuple(p)), aliased.Group(list(p)), aliased.Group(set(p)),
             aliased.Group(aliased.Group(*p)), aliased.Group(*reversed(p))]
    other = aliased.Group(*q)
    for g in forms:
        if frozenset(g) != x or len(g) != len(x):
            raise Violation(f"Group{p} contains {set(g)}")
        if not (g == forms[0]) or hash(g) != hash(forms[0]):
            raise Violation(f"the same aliases {p} give unequal groups or hashes")
        if (g == other) != (x == y) or (g != other) != (x != y):
            raise Violation(f"Group{p} == Group{q} is {g == other}")
        for name, got, want in (
            ('|', g | other, x | y), ('&', (g & other) if x & y else y & x, x & y), ('-', (g - other) if x - y else x - y, x - y),
            ('^', (g ^ other) if x ^ y else x ^ y, x ^ y),
        ):
            if frozenset(got) != want:
                raise Violation(f"Group{p} {name} Group{q} is {got}")
        if g.isdisjoint(other) != x.isdisjoint(y):
            raise Violation(f"Group{p}.isdisjoint(Group{q}) is wrong")
        if frozenset(g | q[0]) != x | {q[0]}:
            raise Violation(f"Group{p} | {q[0]!r} is wrong")


def group_cases(tier):
    subsets = [list(s) for n in (1, 2, 3) for s in itertools.permutations(ELEMENTS[:4], n)]
    return itertools.product(subsets, repeat=2)


def names_of(sizes):
    """Disjoint groups of the given sizes."""
    return [[f"{'pqrstuvwxyz'[i]}{j}" for j in range(n)] for i, n in enumerate(sizes)]


def see(g, parts, what):
    """As `observe`, over the aliases that occur."""
    got = sorted(tuple(sorted(x)) for x in g)
    want = sorted(tuple(sorted(x)) for x in parts)
    if got != want or len(g) != len(parts) or sorted(g.flat) != sorted(e for p in parts for e in p):
        raise Violation(f"{what}: groups are {got}, expected {want}")
    for p in parts:
        for e in p:
            if e not in g or frozenset(g.find(e)) != frozenset(p):
                raise Violation(f"{what}: find({e!r}) is {g.find(e)}, expected {sorted(p)}")
        key = aliased.Group(*sorted(p, reverse=True))
        if key not in g or frozenset(g.find(key)) != frozenset(p):
            raise Violation(f"{what}: the group {sorted(p)} is not found")
        if len(p) > 2 and tuple(sorted(p)[:-1]) in g:
            raise Violation(f"{what}: {sorted(p)[:-1]} is only a part of a group")


SIZES = [[1, 1, 1], [3, 1, 2], [1, 2, 3, 4], [5, 5], [2, 2, 2, 2, 2], [1, 1, 1, 1, 1, 1, 1], [9], [4, 1, 7]]


def many_cases(tier):
    for sizes in SIZES:
        n = len(sizes)
        for k in range(1, n + 1):
            for chosen in itertools.combinations(range(n), k):
                yield [sizes, list(chosen)]


def check_many(case, obs):
    """Groups of any number and size, touched in any combination."""
    sizes, chosen = case
    table = names_of(sizes)
    parts = [frozenset(p) for p in table]
    fresh = lambda: aliased.Groups(*[tuple(p) for p in table])
    text = f"groups of {sizes} aliases"
    see(fresh(), parts, text)
    for pick in (0, -1):
        touched = [table[i][pick] for i in chosen]
        rest = [p for i, p in enumerate(parts) if i not in chosen]
        one = [frozenset(touched).union({'new'}, *(parts[i] for i in chosen))]
        for order in (touched, touched[::-1]):
            for how in ('update', 'merge', 'groups'):
                g = fresh()
                what = f"{text}: {how} with {order + ['new']}"
                new = (*order, 'new')
                if how == 'update':
                    g.update(new)
                elif how == 'merge':
                    kept = g
                    g = g.merge(new)
                    see(kept, parts, f"{what}: the original")
                else:
                    g.update(aliased.Groups(new))
                obs.step((what, len(g)))
                see(g, rest + one, what)
        # one after the other
        g = fresh()
        for x in touched:
            g.update((x, 'new'))
        see(g, rest + one, f"{text}: update with each of {touched}")
        # an alias in use is never added again
        g = fresh()
        for x in touched:
            for new in ((x,), ('new', x), (x, 'new', 'newer')):
                obs.step()
                try:
                    g.add(new)
                except ValueError:
                    continue
                raise Violation(f"{text}: added {new}")
        see(g, parts, f"{text}: after refused additions")
        g.add(('new', 'newer'))
        see(g, parts + [frozenset({'new', 'newer'})], f"{text}: after an addition")
        # taking groups away by any alias, or as a whole, in any order
        for keys in (touched, touched[::-1], [aliased.Group(*table[i]) for i in chosen],
                     [aliased.Group(*table[i]) if j % 2 else table[i][pick] for j, i in enumerate(chosen)],
                     ['unknown', *touched], [*touched, 'unknown']):
            g = fresh()
            obs.step()
            see(g.without(*keys), rest, f"{text}: without {keys}")
            see(g, parts, f"{text}: the original, after without {keys}")
            for k in keys:
                g.discard(k)
            see(g, rest, f"{text}: after discarding {keys}")
    for default in (None, (), 0, '', [], False, 'x'):
        got = fresh().find('unknown', default)
        obs.step()
        if got != default or type(got) is not type(default):
            raise Violation(f"{text}: find('unknown', {default!r}) is {got!r}")
    if fresh().find('unknown') is not None:
        raise Violation(f"{text}: find('unknown') is {fresh().find('unknown')!r}")


def check_wide(case, obs):
    """Groups of many aliases, with sets, lists and single aliases as the other operand."""
    i, j, k = case
    letters = [f"n{x}" for x in range(12)]
    x, y = frozenset(letters[:i]), frozenset(letters[j:j + k])
    g = aliased.Group(*x)
    obs.step((i, j, k))
    for other in (set(y), sorted(y), tuple(y), aliased.Group(*y)):
        for name, got, want in (
            ('|', lambda: g | other, x | y), ('&', lambda: g & other, x & y), ('-', lambda: g - other, x - y), ('^', lambda: g ^ other, x ^ y),
            ('-', lambda: other - g, y - x),
        ):
            if not want:
                continue
            obs.step()
            got = got()
            if frozenset(got) != want or len(got) != len(want):
                raise Violation(f"{sorted(x)} {name} {sorted(y)} ({type(other).__name__}) is {got}")
        for name, got, want in (('==', g == other, x == y), ('!=', g != other, x != y), ('isdisjoint', g.isdisjoint(other), not x & y)):
            if got != want:
                raise Violation(f"{sorted(x)} {name} {sorted(y)} ({type(other).__name__}) is {got}")
    if frozenset(g) != x:
        raise Violation(f"operations changed the group {sorted(x)} to {g}")
    for e in letters:
        if (e in g) != (e in x):
            raise Violation(f"({e!r} in {g}) is {e in g}")


# -- name maps ------------------------------------------------------------

GROUPS = [
    {'a': ('A', 'a0'), 'b': ('B',), 'c': ()},
    {'a': ('A',), 'b': ('b',), 'long name': ('ln', 'l n', 'LN')},
    {'a': (), 'b': ()},
    {'a': ('a1', 'a2', 'a3', 'a4', 'a5', 'a6'), 'b': ('b1', 'b2'), 'c': ('c1',), 'd': (), 'f': ('f1', 'f2', 'f3', 'f4'), 'g': ('G',)},
]
FORMS = ['mapping', 'mapping str', 'nested', 'nested other key', 'iterables and refs', 'iterables and mapping refs']


def check_names(case, obs):
    i, form = case
    table = GROUPS[i]
    want = {alias: name for name, als in table.items() for alias in (name, *als)}
    if form == 'mapping':
        args = (dict(table),), {}
    elif form == 'mapping str':
        args = ({k: (v[0] if len(v) == 1 else v) for k, v in table.items()},), {}
    elif form == 'nested':
        args = ({k: {'aliases': v, 'n': 1} for k, v in table.items()},), {}
    elif form == 'nested other key':
        args = ({k: {'others': v, 'aliases': ('zzz',)} for k, v in table.items()},), {'key': 'others'}
    elif form == 'iterables and refs':
        args = ([(k, *v) for k, v in table.items()], list(table)), {}
    else:
        args = ([(k, *v) for k, v in table.items()], {k: 0 for k in table}), {}
    names = aliased.NameMap(*args[0], **args[1])
    for n in (names, names.copy()):
        obs.step((i, form))
        for alias, name in want.items():
            if n[alias] != name or alias not in n or n.get(alias) != name:
                raise Violation(f"NameMap [{form}]: {alias!r} is {n.get(alias)!r}, expected {name!r}")
        for bad in ('zzz', 'others', ''):
            try:
                n[bad]
            except KeyError:
                continue
            raise Violation(f"NameMap [{form}]: {bad!r} has a name")
        if dict(n.items()) != want or sorted(n.keys()) != sorted(want) or len(n) != len(want):
            raise Violation(f"NameMap [{form}]: items are {dict(n.items())}, expected {want}")
    inverted = names.copy().invert()
    obs.step()
    for name, als in table.items():
        if set(inverted[name]) != {name, *als}:
            raise Violation(f"inverted NameMap [{form}]: {name!r} -> {inverted[name]}")


def check_keysfrom(case, obs):
    i, form = case
    table = GROUPS[i]
    want = sorted(tuple(sorted({k, *v})) for k, v in table.items())
    if form == 0:
        got = aliased.keysfrom({k: {'aliases': v} for k, v in table.items()}, aliases='aliases')
    elif form == 1:
        got = aliased.keysfrom(aliased.Mapping({(k, *v): 1 for k, v in table.items()}))
    elif form == 2:
        got = aliased.keysfrom({k: 1 for k in table}, aliases=aliased.Groups(*[(k, *v) for k, v in table.items()]))
    else:
        got = aliased.keysfrom({(k, *v): 1 for k, v in table.items()})
    obs.step((i, form))
    if sorted(tuple(sorted(g)) for g in got) != want:
        raise Violation(f"keysfrom [{form}] gave {list(got)}, expected {want}")


# -- the reference tables -------------------------------------------------

# What an observer calls things: one entry per physical quantity.
REFERENCE = [
    ('time', ['t', 'times'], 'time'), ('shell', ['shells'], '1'),
    ('mu', ['mus', 'pitch angle', 'pitch-angle', 'pitch-angle cosine', 'pitch angles', 'pitch-angles', 'pitch-angle cosines'], '1'),
    ('mass', ['m'], 'mass'), ('charge', ['q'], 'charge'), ('energy', ['egrid', 'energies', 'E'], 'energy'),
    ('speed', ['vgrid', 'vparticle'], 'length / time'), ('radius', ['R', 'r'], 'length'), ('theta', ['T'], 'plane angle'),
    ('phi', ['P'], 'plane angle'), ('Br', ['br'], 'induction'), ('Bt', ['bt', 'Btheta', 'btheta'], 'induction'),
    ('Bp', ['bp', 'Bphi', 'bphi'], 'induction'), ('Vr', ['vr'], 'length / time'), ('Vt', ['vt', 'Vtheta', 'vtheta'], 'length / time'),
    ('Vp', ['vp', 'Vphi', 'vphi'], 'length / time'), ('rho', ['Rho'], '1 / length^3'), ('dist', ['Dist', 'f'], 'time^3 / length^6'),
    ('flux', ['Flux', 'J', 'J(E)', 'j', 'j(E)'], '1 / (length^2 * time * energy)'),
    ('x', ['X'], 'length'), ('y', ['Y'], 'length'), ('z', ['Z'], 'length'),
    ('B', ['b_mag', '|B|', 'bmag', 'b mag'], 'induction'), ('V', ['v_mag', '|V|', 'vmag', 'v mag', 'v', '|v|'], 'length / time'),
    ('BV', ['bv_mag', 'bv', '|bv|', '|BV|'], 'induction * length / time'), ('Vpara', ['v_para', 'vpara'], 'length / time'),
    ('Vperp', ['v_perp', 'vperp'], 'length / time'), ('flow_angle', ['flow angle', 'angle'], 'plane angle'),
    ('div_v', ['divV', 'divv', 'div V', 'div v', 'div(V)', 'div(v)'], '1 / time'),
    ('density_ratio', ['density ratio', 'n2/n1', 'n_2/n_1'], '1'), ('rigidity', ['Rg', 'R_g'], 'mass * length / (time * charge)'),
    ('mean_free_path', ['mean free path', 'mfp'], 'length'), ('acceleration_rate', ['acceleration rate'], '1 / time'),
    ('energy_density', ['energy density'], 'energy / length^3'), ('average_energy', ['average energy'], 'energy'),
    ('isotropic_distribution', ['isotropic distribution', 'isodist'], 'time^3 / length^6'),
    ('fluence', [], '1 / (length^2 * energy)'), ('integral_flux', ['integral flux'], '1 / (length^2 * time)'),
]

MKS = {
    'length': {'L': 1}, 'time': {'T': 1}, 'mass': {'M': 1}, 'charge': {'I': 1, 'T': 1}, 'energy': {'M': 1, 'L': 2, 'T': -2},
    'plane_angle': {}, 'induction': {'M': 1, 'T': -2, 'I': -1}, '1': {},
}


def dimension(text):
    out = {}
    for term in symbolic.Expression(text.replace('plane angle', 'plane_angle')):
        for k, v in MKS[term.base].items():
            out[k] = out.get(k, 0) + v * term.exponent
    return {k: v for k, v in out.items() if v}


def check_reference(case, obs):
    name, aliases, quantity = case
    want = dimension(quantity)
    first = None
    for alias in [name, *aliases]:
        obs.step((alias, name))
        if reference.NAMES[alias] != name:
            raise Violation(f"{alias!r} is called {reference.NAMES[alias]!r}, expected {name!r}")
        group = reference.ALIASES.find(alias)
        if group is None or set(group) != {name, *aliases}:
            raise Violation(f"the aliases of {alias!r} are {group}, expected {[name, *aliases]}")
        meta = reference.METADATA[alias]
        if first is None:
            first = meta
        if meta != first:
            raise Violation(f"{alias!r} and {name!r} have different metadata")
        dims = metric.Dimension(metric.Quantity(meta['quantity'])['mks'].dimension)
        got = {t.base: t.exponent for t in dims if t.base != '1'}
        if got != want:
            raise Violation(f"the quantity of {alias!r} has dimension {got}, expected {want}")


def check_reference_total(case, obs):
    """Nothing is in the tables that is not listed, and no alias names two things."""
    obs.step('total')
    want = sorted(a for n, als, _ in REFERENCE for a in (n, *als))
    for table in (reference.NAMES, reference.METADATA, reference.ALIASES.flat):
        got = sorted(table)
        missing = [a for a in want if a not in got]
        if missing:
            raise Violation(f"no entry for {missing}")
        if len(got) != len(set(got)):
            raise Violation('an alias names two quantities')


def spaces(tier):
    return [
        Space('group algebra', group_cases, check_group, 'all pairs of alias sequences of length 1 to 3 over 4 aliases'),
        Space('group histories', histories, check, f'{len(STARTS)} starts x {len(OPS)} operations, all sequences to depth 3 (2 for three of the starts in the quick tier)'),
        Space('many groups', many_cases, check_many, f'{len(SIZES)} partitions of up to 7 groups and 9 aliases; every non-empty subset of the groups merged, refused, removed'),
        Space('wide groups', lambda t: itertools.product((1, 2, 4, 7, 10), range(0, 9, 2), (1, 2, 3, 5)), check_wide, 'groups of up to 10 aliases x sets, lists, tuples and groups of up to 5'),
        Space('name maps', lambda t: itertools.product(range(len(GROUPS)), FORMS), check_names, 'every way of defining a name map'),
        Space('keysfrom', lambda t: itertools.product(range(len(GROUPS)), range(4)), check_keysfrom, 'every source of keys'),
        Space('reference names', lambda t: [list(x) for x in REFERENCE], check_reference, 'every alias of every reference quantity'),
        Space('reference total', lambda t: [0], check_reference_total, 'all aliases together'),
    ]
