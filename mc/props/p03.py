"""P03: an aliased mapping is a many-to-one mapping under every operation history."""
import itertools

from mc.core import Space, Violation

from goats.core import aliased

ASSUMPTIONS = [
    'assigning to a multi-alias key that partly overlaps existing groups is undefined by the documentation and not explored',
]

UNIVERSE = ['a', 'A', 'b', 'B', 'x']


class Model:
    """Groups of aliases, each with one value."""

    def __init__(self, items=()):
        self.items = {frozenset(k): v for k, v in items}

    def copy(self):
        return Model(self.items.items())

    def group(self, key):
        return next((g for g in self.items if key in g), None)

    def flat(self):
        return {k: v for g, v in self.items.items() for k in g}

    def key(self):
        return tuple(sorted((tuple(sorted(g)), repr(v)) for g, v in self.items.items()))


def raises(kind, function, *args, **kwargs):
    try:
        function(*args, **kwargs)
    except kind:
        return True
    except Exception as err:
        raise Violation(f"raised {type(err).__name__}: {err} instead of {kind.__name__}")
    return False


def observe(m, model, what):
    """Compare everything a user can see with the model."""
    flat = model.flat()
    def differ(name, got, want):
        raise Violation(f"{what}: {name} is {got!r}, expected {want!r}")
    if len(m) != len(flat):
        differ('len', len(m), len(flat))
    if sorted(m) != sorted(flat):
        differ('iteration', sorted(m), sorted(flat))
    if dict(m.flat) != flat:
        differ('flat', m.flat, flat)
    if sorted(m.keys()) != sorted(flat) or len(m.keys()) != len(flat):
        differ('keys', sorted(m.keys()), sorted(flat))
    if sorted(map(repr, m.items())) != sorted(map(repr, flat.items())):
        differ('items', list(m.items()), flat)
    if sorted(map(repr, m.values())) != sorted(map(repr, flat.values())):
        differ('values', list(m.values()), flat)
    groups = {frozenset(g): v for g, v in model.items.items()}
    got = {frozenset(g): v for g, v in m.items(aliased=True)}
    if got != groups or len(m.items(aliased=True)) != len(groups):
        differ('items(aliased=True)', got, groups)
    got = sorted(tuple(sorted(g)) for g in m.keys(aliased=True))
    if got != sorted(tuple(sorted(g)) for g in groups):
        differ('keys(aliased=True)', got, groups)
    if sorted(map(repr, m.values(aliased=True))) != sorted(map(repr, groups.values())):
        differ('values(aliased=True)', list(m.values(aliased=True)), groups)
    for key in UNIVERSE + ['?']:
        group = model.group(key)
        if (key in m) != (group is not None):
            differ(f'{key!r} in m', key in m, group is not None)
        if group is None:
            if not raises(KeyError, lambda: m[key]):
                differ(f'm[{key!r}]', 'a value', 'KeyError')
            if m.get(key, 'none') != 'none':
                differ(f'get({key!r})', m.get(key, 'none'), 'none')
        else:
            if m[key] is not model.items[group] and m[key] != model.items[group]:
                differ(f'm[{key!r}]', m[key], model.items[group])
            if m.get(key) != model.items[group]:
                differ(f'get({key!r})', m.get(key), model.items[group])
            if set(m.alias(key, include=True)) != set(group):
                differ(f'alias({key!r}, include=True)', m.alias(key, include=True), group)
            if set(m.alias(key)) != set(group) - {key}:
                differ(f'alias({key!r})', m.alias(key), set(group) - {key})
            whole = aliased.Group(tuple(sorted(group, reverse=True)))
            if whole not in m or m[whole] != model.items[group]:
                differ(f'm[{whole!r}]', 'missing', model.items[group])
    if not (m == flat):
        differ('== dict', False, True)
    if m == {**flat, '?': 0}:
        differ('== other dict', True, False)
    if not (m == aliased.Mapping({tuple(g): v for g, v in groups.items()})):
        differ('== Mapping', False, True)


def ops():
    for k in UNIVERSE:
        yield ('set', k)
        yield ('del', k)
    for pair in (('a', 'A'), ('A', 'a'), ('b', 'x'), ('x', 'b', 'B')):
        yield ('set', pair)
    for k, new in itertools.product(('a', 'B', 'x'), (('x',), ('A',), ('b', 'x'), ('x', 'b'))):
        yield ('alias', k, new)
    yield ('alias', '?', ('x',))
    yield ('pop', 'A')
    yield ('pop', 'x')
    yield ('setdefault', 'b')
    yield ('update', {'a': 90, 'x': 91})
    yield ('clear',)
    yield ('copy',)
    yield ('or', (('x', 80),))
    yield ('or', ((('B', 'b'), 81),))
    yield ('rebuild',)


OPS = list(ops())


def apply(m, model, op, stamp, what):
    """Apply `op` to the mapping and the model; return both."""
    name = op[0]
    if name == 'set':
        key = op[1]
        if isinstance(key, str):
            group = model.group(key) or frozenset([key])
        else:
            group = frozenset(key)
            if group not in model.items and any(model.group(k) for k in group):
                return m, model  # partial overlap: undefined
        m[key] = stamp
        model.items[group] = stamp
    elif name == 'del':
        group = model.group(op[1])
        if group is None:
            if not raises(KeyError, m.__delitem__, op[1]):
                raise Violation(f"{what}: deleting an unknown key did not raise KeyError")
        else:
            del m[op[1]]
            del model.items[group]
    elif name == 'alias':
        _, key, new = op
        group = model.group(key)
        news = [n for n in new if n != key]
        if group is None or any(model.group(n) is not None for n in news):
            if not raises(KeyError, m.alias, key, *new):
                raise Violation(f"{what}: alias({key!r}, {new}) should raise KeyError")
        else:
            m.alias(key, *new)
            value = model.items.pop(group)
            model.items[group | set(news)] = value
    elif name == 'pop':
        group = model.group(op[1])
        if group is None:
            if not raises(KeyError, m.pop, op[1]):
                raise Violation(f"{what}: popping an unknown key did not raise KeyError")
            if m.pop(op[1], 'd') != 'd':
                raise Violation(f"{what}: pop ignored its default")
        else:
            got = m.pop(op[1])
            want = model.items.pop(group)
            if got != want:
                raise Violation(f"{what}: popped {got}, expected {want}")
    elif name == 'setdefault':
        group = model.group(op[1])
        got = m.setdefault(op[1], stamp)
        if group is None:
            model.items[frozenset([op[1]])] = stamp
            group = frozenset([op[1]])
        if got != model.items[group]:
            raise Violation(f"{what}: setdefault returned {got}")
    elif name == 'update':
        m.update(op[1])
        for k, v in op[1].items():
            model.items[model.group(k) or frozenset([k])] = v
    elif name == 'clear':
        m.clear()
        model.items.clear()
    elif name == 'copy':
        other = m.copy()
        if type(other) is not type(m):
            raise Violation(f"{what}: copy is a {type(other)}")
        before = model.copy()
        # what happens to the copy does not happen to the original, nor the reverse
        other['?copy'] = 1
        if model.items:
            del other[next(iter(model.flat()))]
        observe(m, before, f"{what}, after changing a copy")
        other = m.copy()
        for k in list(m):
            if k in m:
                del m[k]
        observe(other, before, f"{what}, a copy after emptying the original")
        m = other
    elif name == 'or':
        pairs = op[1]
        keys = [frozenset([k]) if isinstance(k, str) else frozenset(k) for k, _ in pairs]
        for g in keys:
            if g not in model.items and any(model.group(k) for k in g):
                return m, model
        other = aliased.MutableMapping(dict(pairs))
        before = model.copy()
        new = m | other
        observe(m, before, f"{what}: left operand of |")
        for g, (_, v) in zip(keys, pairs):
            model.items[g] = v
        m = new
    elif name == 'rebuild':
        m = aliased.MutableMapping(m)
    return m, model


def initial(kind):
    """Every way of building the same mapping, and its model."""
    if kind == 'empty':
        return aliased.MutableMapping(), Model()
    model = Model([(('a', 'A'), 1), (('b',), 2)])
    inner = Model([(('a', 'A'), {'n': 1}), (('b',), {'n': 2})])
    if kind == 'tuples':
        return aliased.MutableMapping({('a', 'A'): 1, 'b': 2}), model
    if kind == 'implicit':
        return aliased.MutableMapping({'a': {'aliases': ('A',), 'n': 1}, 'b': {'n': 2}}), inner
    if kind == 'implicit str':
        return aliased.MutableMapping({'a': {'aliases': 'A', 'n': 1}, 'b': {'aliases': (), 'n': 2}}), inner
    if kind == 'explicit':
        return aliased.MutableMapping({'a': {'k': ['A'], 'n': 1}, 'b': {'k': 'b', 'n': 2}}, aliases='k'), inner
    if kind == 'groups':
        return aliased.MutableMapping({'a': 1, 'b': 2}, aliases=aliased.Groups(('A', 'a'), ('c', 'C'))), model
    if kind == 'mapping aliases':
        other = aliased.Mapping({('A', 'a'): 'q', ('c', 'C'): 'r'})
        return aliased.MutableMapping({'a': 1, 'b': 2}, aliases=other), model
    if kind == 'mapping':
        return aliased.MutableMapping(aliased.Mapping({('A', 'a'): 1, 'b': 2})), model
    if kind == 'fromkeys':
        m = aliased.MutableMapping.fromkeys([('a', 'A'), 'b'], value=7)
        return m, Model([(('a', 'A'), 7), (('b',), 7)])
    if kind == 'fromkeys mapping':
        m = aliased.MutableMapping.fromkeys({'a': {'aliases': 'A'}, 'b': {}}, value=7)
        return m, Model([(('a', 'A'), 7), (('b',), 7)])
    if kind == 'fromkeys groups':
        m = aliased.MutableMapping.fromkeys(aliased.Groups(('a', 'A'), 'b'), value=7)
        return m, Model([(('a', 'A'), 7), (('b',), 7)])
    if kind == 'squeezed':
        m = aliased.MutableMapping({'a': {'aliases': 'A', 'n': 1}, 'b': {'n': 2}}).squeeze()
        return m, model
    if kind == 'null values':
        return (
            aliased.MutableMapping({('a', 'A'): None, ('b',): 0, 'B': ''}),
            Model([(('a', 'A'), None), (('b',), 0), (('B',), '')]),
        )
    if kind == 'three':
        return (
            aliased.MutableMapping({('a',): 1, ('A', 'B', 'b'): 2, 'x': 3}),
            Model([(('a',), 1), (('A', 'B', 'b'), 2), (('x',), 3)]),
        )
    raise AssertionError(kind)


KINDS = ['empty', 'tuples', 'three', 'implicit', 'implicit str', 'explicit', 'groups', 'mapping aliases', 'mapping',
         'fromkeys', 'fromkeys mapping', 'fromkeys groups', 'squeezed', 'null values']


def check(case, obs):
    kind, seq = case
    m, model = initial(kind)
    what = f"MutableMapping [{kind}]"
    observe(m, model, what)
    obs.step(model.key())
    for i, n in enumerate(seq):
        op = OPS[n]
        what = f"{what} -> {op}"
        m, model = apply(m, model, op, 100 + i, what)
        observe(m, model, what)
        obs.step(model.key())


def histories(tier):
    for kind in KINDS:
        yield [kind, []]
    for kind in KINDS:
        for n in range(len(OPS)):
            yield [kind, [n]]
    for kind in KINDS:
        for seq in itertools.product(range(len(OPS)), repeat=2):
            yield [kind, list(seq)]
    deep = ['tuples', 'empty', 'three', 'groups'] if tier == 'thorough' else ['tuples', 'three']
    for kind in deep:
        for seq in itertools.product(range(len(OPS)), repeat=3):
            if tier == 'quick' and OPS[seq[0]][0] not in ('alias', 'set', 'del', 'or'):
                continue
            yield [kind, list(seq)]


def check_readonly(case, obs):
    """The immutable mapping: same observations, no mutators, sources untouched."""
    source = {('a', 'A'): 1, 'b': 2}
    kept = dict(source)
    m = aliased.Mapping(source)
    model = Model([(('a', 'A'), 1), (('b',), 2)])
    observe(m, model, 'Mapping')
    obs.step(model.key())
    for op in ('__setitem__', '__delitem__', 'pop', 'update', 'clear', 'setdefault'):
        if hasattr(m, op):
            raise Violation(f"an immutable aliased mapping has {op}")
    source[('c', 'C')] = 3
    del source['b']
    observe(m, model, 'Mapping, after changing its source')
    mutable = aliased.MutableMapping(m)
    mutable.alias('a', 'x')
    mutable['b'] = 5
    del mutable['A']
    observe(m, model, 'Mapping, after changing a mutable mapping made from it')
    frozen = aliased.Mapping(mutable)
    mutable['b'] = 6
    mutable['c'] = 1
    observe(frozen, Model([(('b',), 5)]), 'Mapping made from a mutable mapping that changed later')
    obs.step()


SIZES = [[1, 1, 1], [3, 1, 2], [1, 2, 3, 4], [6, 2], [2, 2, 2, 2, 2], [1, 1, 1, 1, 1, 1, 1], [8], [4, 1, 5]]


def table_of(sizes):
    return [tuple(f"{'pqrstuvw'[i]}{j}" for j in range(n)) for i, n in enumerate(sizes)]


def look(m, model, what):
    """What a user sees, over the aliases that occur."""
    flat = model.flat()
    if dict(m.items()) != flat or dict(m.flat) != flat or len(m) != len(flat) or sorted(m) != sorted(flat):
        raise Violation(f"{what}: items are {dict(m.items())}, expected {flat}")
    if {frozenset(g): v for g, v in m.items(aliased=True)} != model.items or len(m.keys(aliased=True)) != len(model.items):
        raise Violation(f"{what}: groups are {dict(m.items(aliased=True))}")
    for g, v in model.items.items():
        for k in g:
            if k not in m or m[k] != v or set(m.alias(k)) != set(g) - {k} or set(m.alias(k, include=True)) != set(g):
                raise Violation(f"{what}: m[{k!r}] or its aliases are not {v} and {sorted(g)}")
    if 'unknown' in m or m.get('unknown') is not None:
        raise Violation(f"{what}: an unknown key has a value")


def many_cases(tier):
    for sizes in SIZES:
        for i in range(len(sizes)):
            for j in range(sizes[i]):
                yield [sizes, i, j]


def check_many(case, obs):
    """Mappings of any number of groups and aliases; every alias does the same."""
    sizes, i, j = case
    table = table_of(sizes)
    model = Model([(g, n) for n, g in enumerate(table)])
    key, group = table[i][j], frozenset(table[i])
    fresh = lambda: aliased.MutableMapping({g: n for n, g in enumerate(table)})
    text = f"a mapping of {sizes} aliases"
    look(fresh(), model, text)

    def after(what, change, items):
        m = fresh()
        change(m)
        obs.step((what, str(sizes)))
        look(m, Model(items), f"{text}: {what}")

    rest = [(g, n) for g, n in model.items.items() if g != group]
    after(f"set {key}", lambda m: m.__setitem__(key, 'v'), [*rest, (group, 'v')])
    after(f"delete {key}", lambda m: m.__delitem__(key), rest)
    after(f"pop {key}", lambda m: m.pop(key), rest)
    after(f"update {key}", lambda m: m.update({key: 'v', 'n': 1}), [*rest, (group, 'v'), (('n',), 1)])
    after(f"alias {key}", lambda m: m.alias(key, 'n1', 'n2', 'n3', 'n4'), [*rest, (group | {'n1', 'n2', 'n3', 'n4'}, i)])
    after(f"alias {key} twice", lambda m: (m.alias(key, 'n1'), m.alias('n1', 'n2')), [*rest, (group | {'n1', 'n2'}, i)])
    after(f"alias {key} and delete", lambda m: (m.alias(key, 'n1'), m.__delitem__('n1')), rest)

    def refuse(m):
        for other in [k for g in table for k in g if k != key]:
            for news in ((other,), ('n1', other), ('n1', 'n2', other)):
                if not raises(KeyError, m.alias, key, *news):
                    raise Violation(f"{text}: alias({key!r}, {news}) should raise KeyError")
    after(f"refused aliases of {key}", refuse, model.items.items())

    # equality tells the values apart, one group at a time
    m = aliased.Mapping({g: n for n, g in enumerate(table)})
    flat = model.flat()
    obs.step()
    for other, want in (
        (fresh(), True), (aliased.Mapping({g[::-1]: n for n, g in reversed(list(enumerate(table)))}), True), (dict(flat), True),
        ({**flat, key: 'v'}, False), ({k: v for k, v in flat.items() if k != key}, False), ({**flat, 'n': 1}, False),
        (aliased.Mapping({g: 'v' if n == i else n for n, g in enumerate(table)}), False),
        (aliased.Mapping({g if n != i else (*g, 'n'): n for n, g in enumerate(table)}), False),
        (aliased.Mapping({g: (i if n == (i + 1) % len(table) else (i + 1) % len(table) if n == i else n) for n, g in enumerate(table)}), len(table) == 1),
    ):
        if (m == other) != want or (m != other) == want:
            raise Violation(f"{text}: equality with {other} is {m == other}")
    # merging, in either order
    for extra in ({key: 'v'}, {('n1', 'n2'): 'w'}):
        left, right = fresh(), aliased.MutableMapping(extra if len(group) == 1 or key not in extra else {tuple(group): 'v'})
        want = dict(model.items)
        want.update({frozenset(g): v for g, v in right.items(aliased=True)})
        look(left | right, Model(want.items()), f"{text} | {right}")
        want = {frozenset(g): v for g, v in right.items(aliased=True)}
        want.update(model.items)
        look(right | left, Model(want.items()), f"{right} | {text}")
        look(left, model, f"{text}, after a merger")
    # one value inside each group: squeezed; otherwise left as it is
    inner = lambda special: {g[0]: {'aliases': g[1:], **({'k': n} if n != i else special)} for n, g in enumerate(table)}
    squeezed = aliased.MutableMapping(inner({'k': i})).squeeze(strict=True)
    look(squeezed, model, f"{text}, squeezed")
    look(aliased.MutableMapping(inner({'other': i})).squeeze(), model, f"{text}, squeezed leniently")
    if len(table) > 1 and not raises(TypeError, aliased.MutableMapping(inner({'other': i})).squeeze, strict=True):
        raise Violation(f"{text}: squeezed different keys (at group {i}) although strict")
    for special in ({'k': i, 'l': 0}, {}):
        m = aliased.MutableMapping(inner(special))
        if m.squeeze() is not m:
            raise Violation(f"{text}: squeeze returned something else")
        look(m, Model([(g, special if n == i else {'k': n}) for n, g in enumerate(table)]), f"{text}, not squeezable at group {i}")
    # other ways of saying which names belong together
    groups = aliased.Groups(*table)
    look(aliased.MutableMapping({g[j] if n == i else g[0]: n for n, g in enumerate(table)}, aliases=groups), model, f"{text}, from groups")
    look(aliased.MutableMapping({g[j] if n == i else g[-1]: n for n, g in enumerate(table)}, aliases=aliased.Mapping({g: 0 for g in table})),
         model, f"{text}, from another mapping")
    for value in (None, 0, 7, [1]):
        same = [(g, value) for g in table]
        for source in (table, groups, {g[0]: {'aliases': g[1:], 'n': 3} for g in table}, aliased.Mapping({g: 1 for g in table})):
            obs.step()
            look(aliased.MutableMapping.fromkeys(source, value=value), Model(same), f"{text}: fromkeys({type(source).__name__})")
        look(aliased.MutableMapping.fromkeys({g[0]: {'names': g[1:], 'aliases': 'no'} for g in table}, key='names', value=value), Model(same), f"{text}: fromkeys(key=...)")


def spaces(tier):
    return [
        Space('histories', histories, check,
              f'{len(KINDS)} constructions x {len(OPS)} operations over {len(UNIVERSE)} aliases; all sequences to depth 2, depth 3 from '
              + ('4' if tier == 'thorough' else '2') + ' of them'),
        Space('many aliases', many_cases, check_many,
              f'{len(SIZES)} mappings of up to 7 groups and 8 aliases; every operation through every alias, equality with every neighbour, all constructions'),
        Space('read-only', lambda t: [0], check_readonly, 'immutability and independence of sources'),
    ]
