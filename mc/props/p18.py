"""P18: names: known names work, unknown names are refused, similar names are suggested."""
import itertools
import string

from mc import fixture
from mc.core import Space, Violation
from mc.props import p15

from goats.core import observing, spelling, variable

ASSUMPTIONS = [
    'an edit inserts or substitutes an English letter, deletes a character, or swaps two neighbours; the order of suggestions is not claimed',
    "mode='truth' of a word without any suggestion, and quantities whose inputs are missing from the dataset, are not claimed",
]
LETTERS = set(string.ascii_letters)


# ---------------------------------------------------------------- model
def once(a, b):
    """True if one edit of a gives b (including substituting a letter for itself)."""
    if len(b) == len(a) + 1:
        return any(b[:i] + b[i + 1:] == a and b[i] in LETTERS for i in range(len(b)))
    if len(b) == len(a) - 1:
        return any(a[:i] + a[i + 1:] == b for i in range(len(a)))
    if len(a) != len(b):
        return False
    diff = [i for i in range(len(a)) if a[i] != b[i]]
    if len(diff) == 1:
        return b[diff[0]] in LETTERS
    if len(diff) == 2:
        i, j = diff
        return j == i + 1 and a[i] == b[j] and a[j] == b[i]
    return False


def around(a, alphabet):
    out = set()
    for i in range(len(a) + 1):
        for c in alphabet & LETTERS:
            out.add(a[:i] + c + a[i:])
            if i < len(a):
                out.add(a[:i] + c + a[i + 1:])
        if i < len(a):
            out.add(a[:i] + a[i + 1:])
        if i < len(a) - 1:
            out.add(a[:i] + a[i + 1] + a[i] + a[i + 2:])
    return out


def suggested(name, words):
    if name in words:
        return set()
    near = {w for w in words if once(name, w)}
    if near:
        return near
    out = set()
    for w in words:
        if abs(len(w) - len(name)) <= 2 and any(once(m, w) for m in around(name, set(w))):
            out.add(w)
    return out


# ---------------------------------------------------------------- the checker
VOCABULARY = ['', 'a', 'ab', 'aB', 'ba', 'abc', 'b_c', 'abcd', 'b1', 'bca', 'acb', 'a b']
ALPHABET = ('a', 'b', 'B', '_')


def spelling_cases(tier):
    n = 3 if tier == 'quick' else 4
    words = [''.join(w) for k in range(n + 1) for w in itertools.product(ALPHABET, repeat=k)]
    vocabularies = [list(v) for k in (0, 1, 2) for v in itertools.combinations(VOCABULARY, k)]
    step = 8 if tier == 'quick' else 3
    for i in range(0, len(words), step):
        yield [words[i:i + step], vocabularies[:1 + len(VOCABULARY)]]
    few = ['ab', 'b_', 'aBc', 'a', '', 'abdc', 'acbd', '_', 'b11', 'a_b']
    for v in vocabularies[1 + len(VOCABULARY):]:
        yield [few, [v]]
    yield [few, [VOCABULARY]]


def spelling_check(case, obs):
    words, vocabularies = case
    # The search of two edits is slow, and does not depend on the vocabulary.
    for vocabulary in vocabularies:
        checker = spelling.SpellChecker(*vocabulary)
        for name in words:
            want = suggested(name, set(vocabulary))
            where = f"{name!r} among {vocabulary}"
            got = checker.check(name, mode='suggest')
            if sorted(got) != sorted(want):
                raise Violation(f"{where}: suggestions are {got}, not {sorted(want)}")
            if bool(want) or name in vocabulary:
                if bool(checker.check(name, mode='truth')) != (not want):
                    raise Violation(f"{where}: the truth mode disagrees with the suggestions {sorted(want)}")
            try:
                r = checker.check(name)
            except spelling.SpellingError as err:
                if not want:
                    raise Violation(f"{where}: refused without a reason")
                text = str(err)
                if name not in text or any(w not in text for w in want):
                    raise Violation(f"{where}: the message is {text!r}")
            else:
                if want or r is not None:
                    raise Violation(f"{where}: not refused")
            if checker.words != set(vocabulary):
                raise Violation(f"{where}: checking changed the known words")
            obs.step((name, tuple(vocabulary)))


# ---------------------------------------------------------------- words that were added
def update_cases(tier):
    for a, b in itertools.permutations(VOCABULARY[1:8], 2):
        yield [a, b]


def update_check(case, obs):
    a, b = case
    checker = spelling.SpellChecker(a)
    for name in ('ab', 'abd', 'ca'):
        checker.check(name, mode='suggest')
    checker.words |= {b}
    for name in ('ab', 'abd', 'ca', a, b):
        got = checker.check(name, mode='suggest')
        want = suggested(name, {a, b})
        if sorted(got) != sorted(want):
            raise Violation(f"{name!r} among {a!r} and, later, {b!r}: suggestions are {got}, not {sorted(want)}")
        obs.step((a, b, name))


# ---------------------------------------------------------------- names of observers
DATASETS = ('base', 'stored flux', 'shared', 'one species')
_streams = {}


def stream(name):
    if name not in _streams:
        _streams[name] = p15.stream(name, 'plain', 'mks')
    return _streams[name]


def known(ds):
    """Groups of names that an observer must know, by kind."""
    groups = []
    for key in ds.file:
        if key in fixture.NAMES:
            groups.append(fixture.NAMES[key])
    for key, (aliases, *_) in p15.QUANTITIES.items():
        if p15.available(ds, key) and not (key == 'flux' and 'flux' in ds.file):
            groups.append(aliases)
    return groups


CONSTANTS = [['lambda0', 'lam0', 'lamo'], ['mfp_radial_power', 'mfpRadialPower'], ['rigidity_power', 'rigidityPower'], ['kper_kpar', 'kperxkpar'], ['minimum_energy', 'minimum energy', 'Emin']]
HIDDEN = ['preEruption', 'phiOffset']


def name_cases(tier):
    for d in DATASETS:
        ds = fixture.Dataset(**p15.DATASETS[d])
        for g in known(ds):
            yield [d, 'observable', g]
        for g in CONSTANTS:
            yield [d, 'constant', g]
        for n in HIDDEN:
            yield [d, 'hidden', [n]]


def name_check(case, obs):
    d, kind, group = case
    s = stream(d)
    for name in group:
        if name not in s.context:
            raise Violation(f"{name!r} is not an available name of dataset {d!r}")
        if s.observes(name) != (kind == 'observable'):
            raise Violation(f"observes({name!r}) is {s.observes(name)} for dataset {d!r}; it is {kind}")
        if (name in s.observables) != (kind == 'observable'):
            raise Violation(f"{name!r} {'is' if name in s.observables else 'is not'} among the observables of dataset {d!r}; it is {kind}")
        try:
            q = s[name]
        except Exception as err:
            raise Violation(f"{name!r} of dataset {d!r}: {type(err).__name__}: {err}")
        if kind == 'observable':
            if not isinstance(q, observing.Observable) or q.name != name:
                raise Violation(f"{name!r} of dataset {d!r} gives {q!r}")
        elif isinstance(q, observing.Observable) or q is None:
            raise Violation(f"{name!r} of dataset {d!r} gives {q!r}; it is {kind}")
        elif kind == 'hidden' and not isinstance(q, variable.Quantity):
            raise Violation(f"{name!r} of dataset {d!r} gives {q!r}")
        for other in group:
            if kind == 'observable' and s.observes([name, other]) is not True:
                raise Violation(f"observes({[name, other]!r}) is false")
        obs.step((d, name))
    if kind == 'observable':
        units = {str(s[name].unit) for name in group}
        dims = {tuple(s[name].dimensions) for name in group}
        pars = {tuple(s[name].parameters) for name in group}
        if len(units) > 1 or len(dims) > 1 or len(pars) > 1:
            raise Violation(f"aliases {group} of dataset {d!r} have units {units}, dimensions {dims}, parameters {pars}")
        same = s[group[0]]
        for name in group[1:]:
            if not s[name] == same:
                raise Violation(f"{group[0]!r} and {name!r} are not equal")
        for extra in (['nope', group[0]], (group[-1], 'nope'), {'nope', group[0]}):
            if s.observes(extra) is not True:
                raise Violation(f"observes({extra!r}) is false")
            obs.step((d, repr(sorted(extra))))
    if s.observes([]) or s.observes(['nope', 'lambda0']):
        raise Violation("an observer claims to observe unknown names")


# ---------------------------------------------------------------- misspelled names
def mutations(name):
    out = set()
    for i in range(len(name) + 1):
        out.add(name[:i] + 'z' + name[i:])
        if i < len(name):
            out.add(name[:i] + name[i + 1:])
            out.add(name[:i] + 'Q' + name[i + 1:])
            out.add(name[:i] + name[i].swapcase() + name[i + 1:])
        if i < len(name) - 1:
            out.add(name[:i] + name[i + 1] + name[i] + name[i + 2:])
    return sorted(m for m in out if m and '*' not in m and '/' not in m)


def misspelled_cases(tier):
    d = 'base'
    ds = fixture.Dataset(**p15.DATASETS[d])
    names = [n for g in known(ds) + CONSTANTS for n in g if '/' not in n]
    if tier == 'quick':
        names = names[::2]
    for n in names:
        m = mutations(n)
        for i in range(0, len(m), 20):
            yield [d, m[i:i + 20]]
    if tier == 'thorough':
        for n in ('Br', 'mu', 'Rho', 'mfp'):
            for m in mutations(n):
                yield [d, mutations(m)[::3]]


def misspelled_check(case, obs):
    d, words = case
    s = stream(d)
    every = set(s.context.keys)
    seen = s.observables
    for w in words:
        if w in every:
            if isinstance(s[w], observing.Observable) != (w in seen):
                raise Violation(f"{w!r} of dataset {d!r} gives {s[w]!r}")
            continue
        want = suggested(w, every)
        try:
            q = s[w]
        except spelling.SpellingError as err:
            got = err.suggested
            got = [got] if isinstance(got, str) else list(got)
            if sorted(got) != sorted(want):
                raise Violation(f"{w!r} of dataset {d!r}: suggestions are {got}, not {sorted(want)}")
        except KeyError:
            if want:
                raise Violation(f"{w!r} of dataset {d!r} is refused without suggesting {sorted(want)}")
        else:
            raise Violation(f"{w!r} of dataset {d!r} gives {q!r}")
        if s.observes(w):
            raise Violation(f"observes({w!r}) is true")
        obs.step((d, w))


# ---------------------------------------------------------------- names after a change of dataset
SWITCHED = ['base', 'stored flux']
WORDS = ['Dits', 'dst', 'Dist', 'f', 'flx', 'Brr', 'Flxu']


def switch_cases(tier):
    n = 2 if tier == 'quick' else 3
    for first in SWITCHED:
        for ops in itertools.product(SWITCHED + ['look'], repeat=n):
            yield [first, list(ops)]


def answer(s, w):
    try:
        return 'known', type(s[w]).__name__
    except spelling.SpellingError as err:
        got = err.suggested
        return 'suggested', tuple(sorted([got] if isinstance(got, str) else got))
    except KeyError:
        return 'refused', ()


_answers = {}


def switch_check(case, obs):
    first, ops = case
    for d in SWITCHED:
        if d not in _answers:
            _answers[d] = {}
            for w in WORDS:
                _answers[d][w] = answer(p15.stream(d, 'plain', 'mks'), w)
    if len({repr(a) for a in _answers.values()}) == 1:
        raise RuntimeError('the datasets have the same names')
    s = p15.stream(first, 'plain', 'mks')
    now = first
    for op in ops + ['look']:
        if op != 'look':
            s.update(source=p15.scratch(op).path)
            now = op
            obs.step((first, tuple(ops), now))
            continue
        for w in WORDS:
            got = answer(s, w)
            if got != _answers[now][w]:
                raise Violation(f"{w!r} on {now!r} after {first!r}, {ops}: {got}, not {_answers[now][w]} as on a new observer", key='switch')
        if sorted(map(sorted, s.observables)) != sorted(map(sorted, p15.stream(now, 'plain', 'mks').observables)):
            raise Violation(f"the observables of {now!r} after {first!r}, {ops} are those of another dataset", key='switch')
        obs.step((first, tuple(ops), now, 'look'))


def spaces(tier):
    for name in DATASETS:
        p15.scratch(name)
    return [
        Space('spelling', spelling_cases, spelling_check, f'all words of up to 3 (thorough: 4) of 4 characters against each of {len(VOCABULARY)} known words, and 10 words against all pairs'),
        Space('update', update_cases, update_check, 'words added after checking'),
        Space('names', name_cases, name_check, f'every alias of every quantity, parameter and hidden variable of {len(DATASETS)} datasets'),
        Space('misspelled', misspelled_cases, misspelled_check, 'every single edit (with two representative letters) of every second (thorough: every) name of an observer'),
        Space('switch', switch_cases, switch_check, 'all sequences of 2 (3) changes of dataset and look-ups of 7 words, compared with a new observer'),
    ]
