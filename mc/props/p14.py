"""P14: an observation does not depend on what was observed before it."""
import itertools
import os

import numpy

from mc import fixture
from mc.core import Space, Violation, forked

from goats import eprem

ASSUMPTIONS = [
    'the reference for each call is the same call on a new observer in a new process; that reference itself is decided by P13, P15 and P16',
    'a quantity that was taken from an observer before `update` may show either the old or the new data afterwards',
    'files do not change while an observer is using them',
]

_made = {}
CONFIGS = {'a': 'lamo=0.1\n', 'b': 'lamo=2.0\nkper_kpar=0.5\n'}


def scratch(name):
    if name not in _made:
        ds = fixture.Dataset(nt=3, ns=3, np=2, ne=3, nm=3) if name == 'A' else fixture.Dataset(nt=2, ns=4, np=2, ne=4, nm=2, salt=1)
        s = fixture.Scratch('p14', ds)
        for key, text in CONFIGS.items():
            with open(os.path.join(s.path, f'config_{key}'), 'w') as fp:
                fp.write(text)
        _made[name] = s
    return _made[name]


def build(system, data, conf):
    s = scratch(data).path
    return eprem.Stream(0, config=os.path.join(scratch('A').path, f'config_{conf}'), source=s, system=system)


def digest(obs):
    """Everything that a user can see in an observation."""
    values = numpy.array(obs.data)
    axes = {}
    for d in obs.dimensions:
        try:
            axes[d] = tuple(repr(v) for v in numpy.array(obs[d]).ravel())
        except Exception as err:
            if d in ('time', 'shell', 'species', 'energy', 'mu'):
                raise Violation(f"the {d} axis of {obs!r}: {type(err).__name__}: {err}")
            axes[d] = type(err).__name__
    parameters = tuple((p, str(obs[p])) for p in obs.parameters)
    return (
        str(obs.unit), tuple(obs.dimensions), values.shape,
        tuple(repr(float(v)) for v in values.ravel()),
        tuple(repr(float(v)) for v in numpy.array(obs.array).ravel()),
        tuple(sorted(axes.items())), parameters,
    )


def q_metadata(s):
    out = []
    for name in ('mfp', 'Br', 'mfp / Vr'):
        q = s[name]
        out.append((str(q.unit), tuple(q.dimensions), tuple(q.parameters)))
    return repr(out)


def q_fail(s):
    out = []
    for call in (lambda: s['Br'].observe(time=99), lambda: s['Brr'], lambda: s['Br'].observe(time=(1.0, 'm')), lambda: s['Br']['s'].observe()):
        try:
            call()
        except Exception as err:
            out.append(type(err).__name__)
        else:
            out.append('no error')
    return repr(out)


def q_names(s):
    names = sorted(str(sorted(map(str, g))) for g in s.observables)
    return repr([len(names), names[:3], s.observes('Br'), s.observes('mfp / Vr'), s.observes('lamo'), s.observes('Brr')])


CALLS = {
    'Br': lambda s: s['Br'].observe(),
    'Br time': lambda s: s['Br'].observe(time=0),
    'Br t': lambda s: s['br'].observe(t=[1, 0], shell=1),
    'Br radius': lambda s: s['Br'].observe(radius=(0.7, 'au')),
    'Br nT day': lambda s: s['Br']['nT'].observe(time=(1.52, 'day')),
    'Br then nT': lambda s: s['Br'].observe(time=0)['nT'],
    'R au': lambda s: s['r']['au'].observe(shell=[0, 2]),
    'dist': lambda s: s['dist'].observe(energy=(0.85, 'MeV'), species=1, time=0),
    'dist E': lambda s: s['dist'].observe(E=0, species='H+', mu=(0.3, '1'), time=1),
    'energy': lambda s: s['energy']['MeV'].observe(species=1),
    'mfp': lambda s: s['mfp'].observe(time=0, species=0),
    'mfp lam0': lambda s: s['mfp'].observe(time=0, species=0, lam0=(1, 'au')),
    'mfp / Vr': lambda s: s['mfp / Vr'].observe(time=0, shell=1, energy=(1, 'MeV'), species='He++'),
    'mfp / Vr day': lambda s: s['mfp / Vr']['day'].observe(time=1, shell=1),
    'flux': lambda s: s['integral flux'].observe(time=1),
    'flux Emin': lambda s: s['integral flux'].observe(time=1, minimum_energy=(1, 'MeV')),
    'fluence': lambda s: s['fluence'].observe(species=0),
    'metadata': q_metadata,
    'failures': q_fail,
    'names': q_names,
}
UPDATES = {
    'data B': ('source', 'B'), 'data A': ('source', 'A'),
    'config b': ('config', 'b'), 'config a': ('config', 'a'),
}
_reference = {}


def result(call, s):
    out = CALLS[call](s)
    return (out, digest(out)) if not isinstance(out, str) else (None, out)


def reference(system, data, conf, call):
    key = (system, data, conf, call)
    if key not in _reference:
        def run():
            return result(call, build(system, data, conf))[1]
        _reference[key] = forked(run)
    return _reference[key]


def apply(s, state, step):
    kind, value = UPDATES[step]
    if kind == 'source':
        s.update(source=scratch(value).path)
        return (state[0], value, state[2])
    s.update(config=os.path.join(scratch('A').path, f'config_{value}'))
    return (state[0], state[1], value)


def history_check(case, obs):
    system, start, steps = case
    s = build(system, *start)
    state = (system, *start)
    kept = []
    for n, step in enumerate(steps):
        where = f"in {system}, after {steps[:n]}, {step!r}"
        if step in UPDATES:
            try:
                state = apply(s, state, step)
            except Exception as err:
                raise Violation(f"{where} raised {type(err).__name__}: {err}")
            obs.step((state, step))
            continue
        want = reference(*state, step)
        try:
            out, got = result(step, s)
        except Exception as err:
            raise Violation(f"{where} raised {type(err).__name__}: {err}")
        if got != want:
            raise Violation(f"{where} gave {brief(got, want)}")
        if out is not None:
            kept.append((step, n, out, got))
        obs.step((state, step, n))
    for step, n, out, before in kept:
        after = digest(out)
        if after != before:
            raise Violation(f"the result of {step!r} (step {n} of {steps}) changed later: {brief(after, before)}")
    # Equal observations compare equal, and no others do.
    for (a, i, x, dx), (b, j, y, dy) in itertools.product(kept, kept):
        if dx == dy:
            if not (x == y) or x != y:
                raise Violation(f"the results of {a!r} (step {i}) and {b!r} (step {j} of {steps}) are the same but compare unequal")
        elif dx[1:4] != dy[1:4]:
            if x == y or not (x != y):
                raise Violation(f"the results of {a!r} (step {i}) and {b!r} (step {j} of {steps}) differ but compare equal")
    obs.step()


def brief(got, want):
    if isinstance(got, tuple) and isinstance(want, tuple):
        for name, a, b in zip(('unit', 'dimensions', 'shape', 'values', 'array', 'axes', 'parameters'), got, want):
            if a != b:
                return f"{name} {str(a)[:200]}; a new observer gives {str(b)[:200]}"
    return f"{str(got)[:300]}; a new observer gives {str(want)[:300]}"


def history_cases(tier):
    names = [*CALLS, *UPDATES]
    for system in ('mks', 'cgs'):
        for step in CALLS:
            yield [system, ['A', 'a'], [step, step]]
    for pair in itertools.product(names, CALLS):
        if pair[0] != pair[1]:
            yield ['mks', ['A', 'a'], list(pair)]
    for pair in itertools.product(UPDATES, UPDATES):
        for call in ('Br', 'mfp', 'dist E', 'flux Emin', 'metadata'):
            yield ['cgs', ['A', 'a'], [*pair, call]]
    core = ['Br time', 'Br nT day', 'Br radius', 'mfp', 'mfp lam0', 'mfp / Vr', 'flux Emin', 'dist E', 'metadata', 'failures', 'data B', 'config b']
    if tier == 'thorough':
        core = names
    for triple in itertools.product(core, core, [c for c in core if c in CALLS]):
        yield ['mks', ['A', 'a'], list(triple)]


# ------------------------------------------------- several observers, held quantities
def several_cases(tier):
    calls = ['Br time', 'Br nT day', 'R au', 'mfp', 'mfp lam0', 'mfp / Vr', 'flux Emin', 'dist E', 'failures', 'metadata']
    who = [('mks', 'A', 'a'), ('cgs', 'A', 'a'), ('mks', 'B', 'b')]
    for a, b in itertools.combinations(range(3), 2):
        for c in itertools.product(calls, calls):
            yield ['observers', [who[a], who[b]], [[0, c[0]], [1, c[1]], [0, c[0]]]]
    held = ['observe', 'time', 'nT', 'time nT', 'radius', 'unit', 'dims', 'other']
    for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
        for seq in itertools.product(held, repeat=n):
            yield ['held', 'mks' if n % 2 else 'cgs', list(seq)]


def held_call(op, q, s):
    if op == 'observe':
        return digest(q.observe())
    if op == 'time':
        return digest(q.observe(time=1))
    if op == 'nT':
        return digest(q['nT'].observe())
    if op == 'time nT':
        return digest(q['nT'].observe(time=1, shell=0))
    if op == 'radius':
        return digest(q.observe(radius=(0.5, 'au')))
    if op == 'unit':
        return str(q.unit)
    if op == 'dims':
        return str(tuple(q.dimensions))
    if op == 'other':
        return digest(s['mfp'].observe(time=0, shell=0, lam0=(3, 'au')))


_held = {}


def several_check(case, obs):
    if case[0] == 'observers':
        _, who, steps = case
        made = [build(*w) for w in who]
        for n, (i, call) in enumerate(steps):
            want = reference(*who[i], call)
            try:
                _, got = result(call, made[i])
            except Exception as err:
                raise Violation(f"step {n} of {steps} on observers {who} raised {type(err).__name__}: {err}")
            if got != want:
                raise Violation(f"step {n} of {steps} on observers {who}: {brief(got, want)}")
            obs.step((tuple(who[i]), call, n))
        return
    _, system, seq = case
    s = build(system, 'A', 'a')
    q = s['Br']
    for n, op in enumerate(seq):
        key = (system, op)
        if key not in _held:
            def run():
                t = build(system, 'A', 'a')
                return held_call(op, t['Br'], t)
            _held[key] = forked(run)
        got = held_call(op, q, s)
        if got != _held[key]:
            raise Violation(f"one quantity object in {system}: after {seq[:n]}, {op!r} gave {brief(got, _held[key])}")
        obs.step((system, op, n))


def spaces(tier):
    for name in ('A', 'B'):
        scratch(name)
    return [
        Space('histories', history_cases, history_check, f'{len(CALLS)} observing calls and {len(UPDATES)} updates: all pairs, and all triples over 12 (all) of them; every result is looked at again at the end'),
        Space('several', several_cases, several_check, 'two observers used in turn, and all sequences of up to 3 (4) uses of one quantity object'),
    ]
