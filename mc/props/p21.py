"""P21: tables, registries, graphs and guards answer exactly what was put into them."""
import itertools

from mc.core import Space, Violation

from goats.core import iterables

ASSUMPTIONS = [
    'a table search in which a requested pair matches no remaining entry may either be refused or continue',
    'a table has at least one entry; table values are plain numbers and strings',
    'edge weights are positive or missing',
]

MISSING = None
VALUES = (0, 1, 'x')


# ---------------------------------------------------------------- tables

def entries():
    for a, b in itertools.product((MISSING, *VALUES), repeat=2):
        yield {k: v for k, v in (('a', a), ('b', b)) if v is not MISSING}


ENTRIES = list(entries())
FULL = [i for i, e in enumerate(ENTRIES) if len(e) == 2]


def requests():
    yield ()
    for k in ('a', 'b', 'zz'):
        for v in VALUES:
            yield ((k, v),)
    for x, y in (('a', 'b'), ('b', 'a'), ('a', 'zz')):
        for v, w in itertools.product(VALUES, repeat=2):
            yield ((x, v), (y, w))


REQUESTS = list(requests())


def tables(tier):
    n = len(ENTRIES)
    for size in (1, 2):
        yield from (list(t) for t in itertools.product(range(n), repeat=size))
    yield from (list(t) for t in itertools.product(range(n), repeat=3))
    small = [i for i in FULL if 'x' not in ENTRIES[i].values()]
    yield from (list(t) for t in itertools.product(small, repeat=4))
    if tier == 'thorough':
        yield from (list(t) for t in itertools.product([i for i in range(n) if 'x' not in ENTRIES[i].values()], repeat=4))
        yield from (list(t) for t in itertools.product(FULL, repeat=4))


def outcome(f):
    try:
        return f()
    except Exception as err:
        return err


def check_table(case, obs):
    rows = [dict(ENTRIES[i]) for i in case]
    kept = [dict(r) for r in rows]
    table = iterables.Table(rows)
    common = set.intersection(*(set(r) for r in rows))
    what = f"Table({rows})"
    if len(table) != len(rows) or [dict(r) for r in table] != kept:
        raise Violation(f"{what}: iterates over {list(table)}")
    if set(table.keys) != common:
        raise Violation(f"{what}: its keys are {table.keys}")
    for key in ('a', 'b', 'zz'):
        got = outcome(lambda: table[key])
        want = tuple(r[key] for r in rows) if key in common else None
        if want is None:
            if not isinstance(got, KeyError):
                raise Violation(f"{what}[{key!r}] is {got!r}, but not every entry has this key")
        elif got != want:
            raise Violation(f"{what}[{key!r}] is {got!r}, not {want!r}")
        for default in (None, -1):
            got = table.get(key, default)
            want = tuple(r.get(key, default) for r in rows)
            if got != want:
                raise Violation(f"{what}.get({key!r}, {default}) is {got!r}, not {want!r}")
        obs.step()
    for value in (*VALUES, 'nothing'):
        want = [r for r in kept if value in r.values()]
        got = outcome(lambda: table.find(value))
        if isinstance(got, Exception):
            if want or not isinstance(got, iterables.MissingValueError):
                raise Violation(f"{what}.find({value!r}) raises {got!r}")
        elif got != want:
            raise Violation(f"{what}.find({value!r}) is {got!r}, not {want!r}")
        got = outcome(lambda: table.find(value, unique=True))
        if len(want) == 1:
            ok = got == want[0]
        else:
            ok = isinstance(got, iterables.AmbiguousValueError if want else iterables.MissingValueError)
        if not ok:
            raise Violation(f"{what}.find({value!r}, unique=True) is {got!r} for {want}")
        obs.step()
    for request in REQUESTS:
        asked = dict(request)
        matching = [r for r in kept if all(k in r and r[k] == v for k, v in request)]
        # strict: all pairs, exactly one entry
        got = outcome(lambda: table(strict=True, **asked))
        if not set(asked) <= common:
            ok = isinstance(got, iterables.TableKeyError)
        elif len(matching) == 1:
            ok = got == matching[0]
        else:
            ok = isinstance(got, iterables.TableLookupError)
        if not ok:
            raise Violation(f"{what}: a strict search for {asked} gives {got!r}; the matching entries are {matching}")
        # iterative: narrow down until there is one
        got = outcome(lambda: table(**asked))
        left, ok = list(kept), None
        if not request:
            ok = isinstance(got, iterables.TableRequestError) or (len(kept) == 1 and got == kept[0])
        for n, (k, v) in enumerate(request):
            if k not in common:
                ok = isinstance(got, iterables.TableKeyError)
                break
            left = [r for r in left if r[k] == v]
            if len(left) == 1:
                ok = got == left[0]
                if any(q not in common for q, _ in request[n:]):
                    ok = ok or isinstance(got, iterables.TableKeyError)
                break
            if not left:
                ok = isinstance(got, (iterables.TableRequestError, iterables.TableKeyError)) or (
                    not isinstance(got, Exception) and got in kept and any(p in got.items() for p in request))
                break
        else:
            if ok is None:
                ok = isinstance(got, iterables.AmbiguousRequestError)
        if not ok:
            raise Violation(f"{what}: a search for {asked} gives {got!r}")
        obs.step((tuple(case), request))
    if [dict(r) for r in rows] != kept:
        raise Violation(f"{what}: a search changed the table to {rows}")


# ---------------------------------------------------------------- registries

def f():
    """A function to register."""


def g():
    """Another function to register."""


class thing:
    """A class to register."""


BASES = [{}, {'f': 1}, {'f': 1, 'f_1': 2}, {'f_2': 1, 'g': {'object': 3, 'color': 'red'}}]
OBJECTS = (f, g, thing)
REGISTER = [
    *(('register', o, None, False, None) for o in range(3)),
    ('register', 0, None, True, 'blue'),
    ('register', 0, 'g', False, 'blue'),
    ('register', 0, 'g', True, None),
    ('register', 1, 'f', False, None),
    ('register', 1, 'f', True, 'red'),
    ('register', 2, 'f_1', False, None),
    ('direct', 0), ('direct', 1),
    ('reset',), ('copy',),
]


def registries(tier):
    depth = 4 if tier == 'thorough' else 3
    for base in range(len(BASES)):
        for key in ('object', 'method'):
            for n in range(depth + 1):
                if key == 'method' and n > 2:
                    continue
                for seq in itertools.product(range(len(REGISTER)), repeat=n):
                    yield [base, key, list(seq)]


def same_registry(reg, model, what):
    got = {k: dict(reg[k]) for k in reg}
    if got != model or len(reg) != len(model):
        raise Violation(f"{what}: the registry holds {got}, expected {model}")
    if list(reg.keys()) != list(model) or [dict(v) for v in reg.values()] != list(model.values()):
        raise Violation(f"{what}: keys {list(reg.keys())}, values {list(reg.values())}")
    for k in ('f', 'g', 'f_1', 'f_2', 'thing', '?'):
        if (k in reg) != (k in model):
            raise Violation(f"{what}: ({k!r} in registry) is {k in reg}")


def check_registry(case, obs):
    base, objkey, seq = case
    given = {k: (dict(v) if isinstance(v, dict) else v) for k, v in BASES[base].items()}
    if objkey == 'method' and 'g' in given:
        given['g'] = {'method': 3, 'color': 'red'}
    reg = iterables.ObjectRegistry(given, object_key=objkey)
    start = {k: (dict(v) if isinstance(v, dict) else {objkey: v}) for k, v in given.items()}
    model = dict(start)
    what = f"ObjectRegistry({given}, {objkey!r})"
    same_registry(reg, model, what)
    obs.step()
    others = []
    for n in seq:
        op = REGISTER[n]
        what += f" -> {op}"
        if op[0] == 'reset':
            reg.reset()
            model = dict(start)
        elif op[0] == 'copy':
            others.append((reg, dict(model)))
            reg = reg.copy()
            start = dict(model)
        else:
            obj = OBJECTS[op[1]]
            if op[0] == 'direct':
                name, overwrite, color = None, False, None
                got = reg.register(obj)
            else:
                name, overwrite, color = op[2:]
                meta = {'color': color} if color else {}
                if name is None and not overwrite:
                    got = reg.register(**meta)(obj)
                else:
                    got = reg.register(name=name, overwrite=overwrite, **meta)(obj)
            if got is not obj:
                raise Violation(f"{what}: register returned {got!r}")
            value = {objkey: obj, **({'color': color} if color else {})}
            default = obj.__qualname__
            if name and (name not in model or overwrite):
                model[name] = value
            elif default not in model:
                model[default] = value
            else:
                new = [k for k in reg if k not in model]
                if len(new) != 1 or not new[0].startswith(default):
                    raise Violation(f"{what}: expected one new key after {default!r}, got {new} with {list(reg)}")
                model[new[0]] = value
        same_registry(reg, model, what)
        for other, content in others:
            same_registry(other, content, what + ' (original of a copy)')
        obs.step(tuple((k, str(v)) for k, v in model.items()))


# ---------------------------------------------------------------- bijections

def bijections(tier):
    keys = ('a', 'b', 'c') if tier == 'quick' else ('a', 'b', 'c', 'd')
    values = (0, 1, 'a', 'b')
    for n in range(len(keys) + 1):
        for sub in itertools.combinations(keys, n):
            for vals in itertools.product(values, repeat=n):
                yield [list(sub), list(vals)]


def check_bijection(case, obs):
    given = dict(zip(*case))
    what = f"Bijection({given})"
    one_to_one = len(set(given.values())) == len(given)
    got = outcome(lambda: iterables.Bijection(given))
    obs.step((tuple(case[0]), tuple(case[1])))
    if not one_to_one:
        if not isinstance(got, TypeError):
            raise Violation(f"{what} is {got!r}, but values repeat")
        return
    kept = dict(given)
    given.clear()
    for b, want in ((got, kept), (got.invert(), {v: k for k, v in kept.items()}), (got.invert().invert(), kept)):
        if isinstance(b, Exception) or dict(b) != want or len(b) != len(want) or list(b) != list(want):
            raise Violation(f"{what}: holds {b!r}, expected {want}")
        if type(b) is not iterables.Bijection:
            raise Violation(f"{what}: the inverse is a {type(b)}")
        for k in ('zz', 17):
            if k in b or not isinstance(outcome(lambda: b[k]), KeyError):
                raise Violation(f"{what}: knows {k!r}")
        obs.step()


# ---------------------------------------------------------------- connections

NODES = ('p', 'q', 'r')
EDGES = [(s, e, w) for s, e in itertools.permutations(NODES, 2) for w in (2.0, 0.5, None)] + [('p', 'p', 4.0)]


def graphs(tier):
    depth = 3 if tier == 'thorough' else 2
    for n in range(depth + 1):
        for seq in itertools.product(range(len(EDGES)), repeat=n):
            yield list(seq)


def check_graph(case, obs):
    edges = [EDGES[n] for n in case]
    for way in ('add', 'base'):
        if way == 'base':
            pairs = [(s, e) for s, e, _ in edges]
            if len(set(pairs)) != len(pairs):
                continue
            graph = iterables.Connections({(s, e): w for s, e, w in edges})
        else:
            graph = iterables.Connections()
        model = {}
        what = f"Connections [{way}]"
        for s, e, w in edges:
            what += f" {s}->{e}: {w}"
            if way == 'add':
                if w is None:
                    graph.add_connection(s, e)
                else:
                    graph.add_connection(s, e, w)
            model.setdefault((s, e), w)
            model.setdefault((e, s), 1 / w if w else w)
            if way == 'base' and (s, e, w) != edges[-1]:
                continue
            obs.step(tuple(sorted(model.items(), key=str)))
            if set(graph) != set(model) or len(graph) != len(model):
                raise Violation(f"{what}: the links are {list(graph)}")
            if set(graph.nodes) != {n for p in model for n in p}:
                raise Violation(f"{what}: the nodes are {graph.nodes}")
            for node in (*NODES, '?'):
                want = {b: v for (a, b), v in model.items() if a == node}
                if graph.get_adjacencies(node) != want:
                    raise Violation(f"{what}: {node} is next to {graph.get_adjacencies(node)}, expected {want}")
                for other in (*NODES, '?'):
                    link = (node, other)
                    got = outcome(lambda: graph.get_weight(node, other))
                    if (link in graph) != (link in model):
                        raise Violation(f"{what}: ({link} in graph) is {link in graph}")
                    if link not in model:
                        if not isinstance(got, KeyError):
                            raise Violation(f"{what}: the weight of {link} is {got!r}")
                    elif got != model[link]:
                        raise Violation(f"{what}: the weight of {link} is {got!r}, not {model[link]}")


# ---------------------------------------------------------------- guards

class Special(KeyError):
    """Three levels below Exception."""


ERRORS = {'none': None, 'lookup': LookupError, 'key': KeyError, 'index': IndexError, 'special': Special, 'value': ValueError, 'type': TypeError}
SUBSTITUTES = {'none': None, 'number': 7, 'same': Ellipsis}
CALLS = [((), {}), ((1,), {}), ((1, 2), {}), ((), {'k': 3}), ((1,), {'k': 3}), (([1, 2],), {})]


def guards(tier):
    names = [n for n in ERRORS if n != 'none']
    for k in range(4 if tier == 'thorough' else 3):
        for caught in itertools.permutations(names, k):
            for subs in itertools.product(SUBSTITUTES, repeat=k):
                yield [list(caught), list(subs)]


def check_guard(case, obs):
    caught, subs = case
    table = {ERRORS[c]: SUBSTITUTES[s] for c, s in zip(caught, subs)}
    now = [None]

    def call(*args, **kwargs):
        if now[0] is not None:
            raise now[0]('planned')
        return ('result', args, kwargs)

    guard = iterables.Guard(call)
    for c, s in zip(caught, subs):
        if s == 'none':
            guard.catch(ERRORS[c])
        else:
            guard.catch(ERRORS[c], SUBSTITUTES[s])
    for name, error in ERRORS.items():
        for args, kwargs in CALLS:
            now[0] = error
            got = outcome(lambda: guard.call(*args, **kwargs))
            what = f"Guard catching {dict(zip(caught, subs))}, a call with {args} {kwargs} that raises {name}"
            if error is None:
                ok = got == ('result', args, kwargs)
            else:
                known = [b for b in error.__mro__ if b in table]
                if not known:
                    ok = type(got) is error
                elif table[known[0]] is Ellipsis:
                    if not kwargs:
                        want = args[0] if len(args) == 1 else args
                    else:
                        want = (args, kwargs) if args else kwargs
                    ok = got == want
                else:
                    ok = got == table[known[0]] and not isinstance(got, Exception)
            if not ok:
                raise Violation(f"{what}, gives {got!r}")
            obs.step((tuple(caught), tuple(subs), name))


# ---------------------------------------------------------------- helpers

LEAVES = [0, 1, 1.5, '', 'ab', None]


def nested(depth):
    """Every value, list and tuple of at most two members up to a depth."""
    level = list(LEAVES)
    for _ in range(depth):
        new = list(LEAVES)
        for t in (list, tuple):
            new.append(t())
            new.extend(t([x]) for x in level)
        if len(level) < 40:
            for t in (list, tuple):
                new.extend(t([x, y]) for x, y in itertools.product(level, repeat=2))
        else:
            for t in (list, tuple):
                new.extend(t([x, y]) for x in level for y in LEAVES[:3])
        level = new
    return level


def helpers(tier):
    n = len(nested(2))
    step = 40
    yield from ([i, min(i + step, n)] for i in range(0, n, step))


def unwrapped(x):
    while isinstance(x, (list, tuple)) and len(x) == 1:
        x = x[0]
    return x


def members(x):
    if x is None:
        return []
    return list(x) if isinstance(x, (list, tuple)) else [x]


def isnothing(x):
    return x is None or (not isinstance(x, (int, float)) and len(x) == 0)


def same(a, b):
    return type(a) is type(b) and a == b and repr(a) == repr(b)


def check_helpers(case, obs):
    for x in nested(2)[slice(*case)]:
        want = unwrapped(x)
        if not same(iterables.unwrap(x), want):
            raise Violation(f"unwrap({x!r}) is {iterables.unwrap(x)!r}")
        for wrap in (list, tuple):
            got = iterables.unwrap(x, wrap=wrap)
            if not same(got, wrap(members(want))):
                raise Violation(f"unwrap({x!r}, wrap={wrap.__name__}) is {got!r}")
        if bool(iterables.missing(x)) != isnothing(x):
            raise Violation(f"missing({x!r}) is {iterables.missing(x)}")
        w = iterables.whole(x)
        if list(w) != members(x) or len(w) != len(members(x)) or any(m not in w for m in members(x)):
            raise Violation(f"whole({x!r}) holds {list(w)}")
        if isinstance(x, iterables.whole) != isinstance(x, (list, tuple)):
            raise Violation(f"({x!r} is whole) is {isinstance(x, iterables.whole)}")
        if isinstance(x, (list, tuple)):
            got, want = iterables.unique(*x), []
            for m in x:
                if m not in want:
                    want.append(m)
            if not same(got, want):
                raise Violation(f"unique(*{x!r}) is {got!r}")
        got = iterables.extract_single(x)
        want = x[0] if isinstance(x, (list, tuple, str)) and len(x) == 1 else x
        if not same(got, want):
            raise Violation(f"extract_single({x!r}) is {got!r}")
        for types in (int, str, (int, float), list):
            for wrappers in ((), (list,), (tuple,), (list, tuple), (tuple, list)):
                for strict in (False, True):
                    got = iterables.hastype(x, types, *wrappers, strict=strict)
                    want = isinstance(x, types)
                    if not want and isinstance(x, wrappers):
                        inside = [isinstance(m, types) for m in x]
                        want = all(inside) if strict else any(inside)
                    if bool(got) != want:
                        raise Violation(f"hastype({x!r}, {types}, *{wrappers}, strict={strict}) is {got!r}")
        for y in ([1, 2], ('a',), 'a', 3, []):
            got = outcome(lambda: list(iterables.distribute(x, y)))
            a, b = isinstance(x, (list, tuple)), isinstance(y, (list, tuple))
            if not (a or b):
                ok = isinstance(got, TypeError)
            else:
                ok = got == [(p, q) for p in (x if a else [x]) for q in (y if b else [y])]
            if not ok:
                raise Violation(f"distribute({x!r}, {y!r}) is {got!r}")
        obs.step(repr(x))


def texts(tier):
    items = [0, -3, 2.5, 1e-7, 'a', 'b c', 'x1']
    for n in range(4 if tier == 'thorough' else 3):
        yield from (list(t) for t in itertools.product(items, repeat=n))


def check_text(case, obs):
    for text in (str(case), str(case).replace(', ', ','), str([str(x) for x in case])):
        got = outcome(lambda: iterables.string_to_list(text))
        if any(isinstance(x, str) for x in case):
            ok = isinstance(got, TypeError)
        else:
            ok = isinstance(got, list) and same(got, case)
        if not ok:
            raise Violation(f"string_to_list({text!r}) is {got!r}")
        for bad in (text[1:], text[:-1], text[1:-1]):
            got = outcome(lambda: iterables.string_to_list(bad))
            if not isinstance(got, TypeError):
                raise Violation(f"string_to_list({bad!r}) is {got!r}")
        obs.step(text)
    n = len(case)
    for top in (1, 2, 3, 5):
        got = iterables.show_at_most(top, case, separator='; ')
        want = case if n <= top else [*case[:top - 1], '...', case[-1]]
        if got != '; '.join(str(w) for w in want):
            raise Violation(f"show_at_most({top}, {case}) is {got!r}")
    for k in range(n):
        rows = [[x, k] for x in case]
        if iterables.transpose_list(rows) != [case, [k] * n]:
            raise Violation(f"transpose_list({rows}) is {iterables.transpose_list(rows)}")
    deep = 'value'
    for x in reversed(case):
        deep = {x: deep}
    if case and iterables.get_nested_element(deep, case) != 'value':
        raise Violation(f"get_nested_element({deep}, {case})")
    left = list(case)
    for x in [*case, 'default', 'default']:
        if not same(iterables.pop(left, 'default'), x):
            raise Violation(f"pop from {case} does not give {x!r}")
    if iterables.allinstance(case, str) != all(isinstance(x, str) for x in case):
        raise Violation(f"allinstance({case}, str)")


def slices(tier):
    for start in (None, 0, 1, 3):
        for stop in (None, 0, 1, 4, 6):
            for step in (None, 1, 2):
                for size in (0, 1, 4):
                    yield [start, stop, step, size]


def check_slice(case, obs):
    start, stop, step, size = case
    got = iterables.slice_to_range(slice(start, stop, step), size)
    want = range(start or 0, size if stop is None else stop, step or 1)
    obs.step(tuple(case))
    if got != want:
        raise Violation(f"slice_to_range(slice{case[:3]}, {size}) is {got}, not {want}")


def spaces(tier):
    return [
        Space('tables', tables, check_table, 'tables of 1-4 entries over two keys, three values and missing keys; every lookup and every request of up to two pairs'),
        Space('registries', registries, check_registry, 'every sequence of registrations, resets and copies up to depth 3 (thorough: 4) from four initial contents'),
        Space('bijections', bijections, check_bijection, 'every mapping of up to 3 (4) keys to four values'),
        Space('graphs', graphs, check_graph, 'every sequence of up to 2 (3) connections between three nodes'),
        Space('guards', guards, check_guard, 'every ordered set of up to 2 (3) caught exceptions with substitutes, six exceptions, six call shapes'),
        Space('helpers', helpers, check_helpers, 'nested lists and tuples of up to two members and depth 2'),
        Space('texts', texts, check_text, 'lists of up to 2 (3) numbers and strings'),
        Space('slices', slices, check_slice, 'slices with non-negative members'),
    ]
