"""P19: runtime parameters: the value, type and unit of every parameter of a run."""
import contextlib
import io
import itertools
import json
import math
import numbers
import os
import re
import shutil
import tempfile

from mc import core
from mc.core import Space, Violation
from mc.props import p13

from goats.eprem import runtime

ASSUMPTIONS = [
    'the definitions of baseTypes.h and configuration.c are those of the committed snapshot mc/eprem_defaults.json, read by an independent evaluator',
    "quoted strings, arrays without brackets, sums with exponents, and action='append' are not claimed",
]

with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'eprem_defaults.json')) as _fp:
    SNAP = json.load(_fp)
PARAMETERS = sorted(SNAP['_CONFIGURATION_C'])
LOCAL = SNAP['local']
ALIASES = SNAP['aliases']
KINDS = {'readInt': 'int', 'readDouble': 'float', 'readString': 'str', 'readDoubleArray': 'list'}
UNITS = {
    '1 / (cm^2 * s * sr * (MeV/nuc))': [('cm', -2), ('s', -1), ('sr', -1), ('MeV', -1), ('nuc', 1)],
    'MeV': [('MeV', 1)], 'au': [('au', 1)], '1': [], 'km/s': [('km', 1), ('s', -1)], 'cm^-3': [('cm', -3)], 'G': [('G', 1)],
    'rad * cm / (au * s)': [('rad', 1), ('cm', 1), ('au', -1), ('s', -1)], 'nucleon': [('nuc', 1)], 'e': [('e', 1)],
    'day': [('d', 1)], 'MeV/nuc': [('MeV', 1), ('nuc', -1)], 'rad': [('rad', 1)],
}


# ---------------------------------------------------------------- model
class Model:
    """What the parameters of a run are worth, read from the texts alone."""

    def __init__(self, user=None, reference=None, basetypes=None):
        self.user = dict(user or {})
        self.reference = SNAP['_CONFIGURATION_C'] if reference is None else reference
        self.basetypes = SNAP['_BASETYPES_H'] if basetypes is None else basetypes

    def kind(self, name):
        return KINDS[self.reference[name]['mode']]

    def base(self, name):
        return self.number(self.basetypes[name])

    def number(self, text):
        try:
            return int(text)
        except ValueError:
            pass
        try:
            return float(text)
        except ValueError:
            pass
        names = {'sqrt': math.sqrt, 'third': 1 / 3, 'N_PROCS': None, 'config': Struct(self)}
        for name in set(re.findall(r'[A-Za-z_]\w*', text)):
            if name in self.basetypes:
                names[name] = self.base(name)
        return eval(text.strip(), {'__builtins__': {}}, names)

    def __getitem__(self, name):
        text = self.user.get(name) or self.reference[name]['default']
        kind = self.kind(name)
        if kind == 'str':
            return text
        if kind == 'list' and text.startswith('['):
            inside = text[1:-1].strip()
            return [float(x) for x in inside.split(',')] if inside else []
        return self.number(text)


class Struct:
    def __init__(self, model):
        self._model = model

    def __getattr__(self, name):
        return self._model[name]


def agree(got, want):
    if want is None or got is None:
        return got is want
    if isinstance(want, str) or isinstance(got, str):
        return type(got) is type(want) and got == want
    if isinstance(want, list):
        got = list(got) if not isinstance(got, numbers.Real) else got
        if isinstance(got, numbers.Real):
            return False
        return len(got) == len(want) and all(agree(float(a), b) for a, b in zip(got, want))
    if not isinstance(got, numbers.Real):
        return False
    return math.isclose(got, want, rel_tol=1e-12, abs_tol=1e-300)


def check_value(where, model, name, got):
    want = model[name]
    if not agree(got, want):
        raise Violation(f"{where}: {name} is {got!r}, not {want!r}", key=(where.split(' of ')[0], model.kind(name)))
    if model.kind(name) == 'int' and isinstance(want, int) and not isinstance(got, numbers.Integral):
        raise Violation(f"{where}: {name} is {got!r}, which isn't an integer", key=(where.split(' of ')[0], 'type'))


def check_argument(where, arg, want, unit, name):
    want = want[0] if isinstance(want, list) and len(want) == 1 else want
    data = arg.data
    if not isinstance(data, (numbers.Real, str, type(None))):
        data = [float(x) for x in data]
    if not agree(data, want):
        raise Violation(f"{where}: {name} is {data!r}, not {want!r}", key=('argument', 'data'))
    if unit is None:
        if arg.unit is not None:
            raise Violation(f"{where}: {name} has the unit {arg.unit}, but it has none", key=('argument', 'unit'))
    else:
        if arg.unit is None:
            raise Violation(f"{where}: {name} has no unit", key=('argument', 'unit'))
        p13.check_unit(f"{where}: {name}", arg.unit, UNITS[unit])


def whole_runtime(where, rt, model, names=None):
    got = set(rt)
    if got != set(model.reference):
        raise Violation(f"{where}: the parameters differ from the expected ones by {sorted(got ^ set(model.reference))[:5]}", key='names')
    for name in names or model.reference:
        check_value(where, model, name, rt[name])


def whole_interface(where, face, model, names=None):
    for name in names or list(PARAMETERS) + list(LOCAL):
        want = LOCAL[name] if name in LOCAL else model[name]
        for alias in [name] + ALIASES.get(name, []):
            check_argument(where, face[alias], want, SNAP['units'].get(name), alias)
            if alias not in face:
                raise Violation(f"{where}: {alias} isn't in the interface", key='contains')


@contextlib.contextmanager
def scratch():
    root = os.environ.get('MC_SCRATCH') or tempfile.gettempdir()
    path = tempfile.mkdtemp(prefix='mc-p19-', dir=root)
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def put(path, text):
    with open(path, 'w') as fp:
        fp.write(text)
    return path


# ---------------------------------------------------------------- 1. defaults
def default_cases(tier):
    for name in PARAMETERS:
        yield ['parameter', name]
    for name in LOCAL:
        yield ['local', name]
    for name in sorted(SNAP['_BASETYPES_H']):
        yield ['constant', name]
    for name in ('', 'Lamo', 'lamo ', 'config.lamo', 'AU ', 'nope', 'third', 'N_PROCS', '1.0', '0', 'lamo + eMin', 'lamo*eMin'):
        yield ['unknown', name]


_shared = {}


def shared():
    if 'face' not in _shared:
        _shared['face'] = runtime.Interface()
        _shared['run'] = runtime.Runtime()
    return _shared['run'], _shared['face']


def default_check(case, obs):
    what, name = case
    run, face = shared()
    model = Model()
    if what == 'parameter':
        for rt in (run, runtime.Runtime(), runtime.Runtime(None, None)):
            whole_runtime('Runtime()', rt, model, [name])
        whole_interface('Interface()', face, model, [name])
        if face.config(name) is not None or face.config(name, 7) != 7:
            raise Violation(f"{name} is in the config file, but there is none", key='config')
        if run.reference[name]['type'].__name__ != model.kind(name) or run.reference[name]['default'] != SNAP['_CONFIGURATION_C'][name]['default']:
            raise Violation(f"the reference of {name} is {run.reference[name]}", key='reference')
    elif what == 'local':
        whole_interface('Interface()', face, model, [name])
    elif what == 'constant':
        want = model.base(name)
        for b in (run.basetypes, face.basetypes, runtime.BaseTypesH()):
            for _ in range(2):
                if not agree(b[name], want):
                    raise Violation(f"the constant {name} is {b[name]!r}, not {want!r}", key='constant')
            if SNAP['types'][name] == 'int' and not isinstance(b[name], numbers.Integral):
                raise Violation(f"the constant {name} is {b[name]!r}", key='constant')
    else:
        for target in (run, face, run.reference, run.basetypes):
            if name in target:
                raise Violation(f"{name!r} is in {type(target).__name__}", key='unknown')
            try:
                got = target[name]
            except KeyError:
                pass
            else:
                raise Violation(f"{type(target).__name__}[{name!r}] is {got!r}", key='unknown')
    obs.step((what, name))


# ---------------------------------------------------------------- 2. user values
VALUES = {
    'int': ['0', '1', '-3', '17', '1.0', '0.0', '2.5', '1e3', '-0', '007'],
    'float': ['0', '0.0', '-0.0', '1', '-2.5', '1e-3', '1.5E+4', '.5', '5.', '1e30', '0e5', '-1e-7'],
    'str': ['a', 'path/to/file', './x.y', '0', '1.5', 'two words', 'a=b', 'a,b', '[1,2]', 'third', 'lamo', '-'],
    'list': ['[1.0]', '[1.0, 4.0]', '[0]', '[0,0,0]', '[1e-3,2.5E+1]', '[ 1.0 , -4.0 ]', '[]', '0', '2.5', '[-1]'],
}
FORMATS = ['{k}={v}', '{k} = {v}', '  {k}= {v}  ', '\t{k}\t=\t{v}\t', '{k}={v} # {k}=99', '{k}={v}#', '{k} = {v}   ## = #']


def user_cases(tier):
    for name in PARAMETERS:
        kind = KINDS[SNAP['_CONFIGURATION_C'][name]['mode']]
        formats = range(len(FORMATS)) if tier != 'quick' or name in ('lamo', 'mass', 'idealShock', 'masDirectory') else [0, 1]
        for value in VALUES[kind]:
            yield [name, value, list(formats)]


def same_user(where, user, want):
    if dict(user) != want or set(user) != set(want) or len(user) != len(want):
        raise Violation(f"{where}: the contents are {dict(user)}, not {want}", key='contents')
    for k, v in want.items():
        if user[k] != v or k not in user or user.get(k) != v:
            raise Violation(f"{where}: {k} is {user[k]!r}, not {v!r}", key='contents')
    for k in ('nope', ''):
        try:
            got = user[k]
        except KeyError:
            continue
        raise Violation(f"{where}: {k!r} is {got!r}", key='contents')


def user_check(case, obs):
    name, value, formats = case
    model = Model({name: value})
    with scratch() as path:
        for n in formats:
            line = FORMATS[n].format(k=name, v=value)
            file = put(os.path.join(path, f'config{n}'), line + '\n')
            where = f"{line!r}"
            same_user(where, runtime.ConfigFile(file), {name: value})
            rt = runtime.Runtime(config_path=file)
            same_user(where, rt.user, {name: value})
            whole_runtime(where, rt, model)
            if n < 2:
                face = runtime.Interface(file)
                whole_interface(where, face, model)
                check_argument(f"{where}: config()", face.config(name), model[name], SNAP['units'].get(name), name)
                other = 'lamo' if name != 'lamo' else 'eMin'
                if face.config(other) is not None or face.config(other, 'x') != 'x':
                    raise Violation(f"{where}: config({other!r}) gives {face.config(other)}", key='config')
            obs.step((name, value, n))


# ---------------------------------------------------------------- 3. dependent defaults
DEPENDENT = ['simStartTime', 'tDel', 'simStopTime', 'epCalcStartTime', 'idealShockInitTime']


def dependent_cases(tier):
    values = [None, '0', '1.5', '-2.25'] if tier == 'quick' else [None, '0', '0.0', '1.5', '-2.25', '1e-3', '3']
    for start in values:
        for delta in values:
            yield [start, delta, values]


def dependent_check(case, obs):
    start, delta, values = case
    with scratch() as path:
        for rest in itertools.product(values, repeat=3):
            user = {k: v for k, v in zip(DEPENDENT, (start, delta, *rest)) if v is not None}
            file = put(os.path.join(path, 'config'), ''.join(f'{k}={v}\n' for k, v in user.items()))
            rt = runtime.Runtime(config_path=file)
            model = Model(user)
            whole_runtime(f"{user}", rt, model, DEPENDENT + ['omegaSun', 'lamo'])
            if None in rest[:2]:
                face = runtime.Interface(file)
                whole_interface(f"{user}", face, model, [d for d in DEPENDENT if d in SNAP['units']])
            obs.step(tuple(rt[d] for d in DEPENDENT))


# ---------------------------------------------------------------- 4. the lines of a file
LINES = [
    'lamo=0.5', 'lamo = 2', 'eMin=3!4', 'eMin\t=\t1e-3 # MeV', '#lamo=7', '  # lamo=8', '!lamo=9', '', '   ', '\t',
    'mass = [1.0, 4.0] # two', 'masDirectory=a=b', 'lamo=', 'unknown=5', 'lamo=1 ! = 3', '#', 'kperxkpar=.25;x',
]


def parsed(lines, comments):
    out = {}
    for line in lines:
        cut = min([line.index(c) for c in comments if c in line] or [len(line)])
        line = line[:cut].strip()
        if line:
            k, v = line.split('=', 1)
            out[k.strip()] = v.strip()
    return out


def line_cases(tier):
    n = 2 if tier == 'quick' else 3
    for k in range(n):
        for head in itertools.product(range(len(LINES)), repeat=k):
            yield [list(head)]


def line_check(case, obs):
    head = [LINES[i] for i in case[0]]
    texts = [head] + [head + [line] for line in LINES] if head else [head] + [[line] for line in LINES]
    with scratch() as path:
        file = os.path.join(path, 'config')
        for lines in texts:
            for ending in ('\n', ''):
                put(file, '\n'.join(lines) + ending)
                for comments in (None, ['#'], ['#', '!'], ['!', ';', '#']):
                    want = parsed(lines, comments or ['#'])
                    where = f"{lines} with comments {comments}"
                    kw = {} if comments is None else {'comments': comments}
                    same_user(where, runtime.ConfigFile(file, **kw), want)
                    obs.step(tuple(sorted(want.items())))
                    if ending:
                        continue
                    known = {k: v for k, v in want.items() if k in SNAP['_CONFIGURATION_C']}
                    model = Model(known)
                    try:
                        [model[k] for k in known]
                    except Exception:
                        continue  # not a number: refused or not, it isn't claimed
                    rt = runtime.Runtime(config_path=file, **kw)
                    whole_runtime(where, rt, model, list(known) + ['lamo', 'eMin'])
                    if len(lines) < 2:
                        face = runtime.Interface(file, **kw)
                        whole_interface(where, face, model, list(known) + ['lamo'])
                        same_user(where, face.user, want)
                    obs.step()
    bad = head + ['lamo']
    with scratch() as path:
        file = put(os.path.join(path, 'config'), '\n'.join(bad))
        try:
            got = dict(runtime.ConfigFile(file))
        except ValueError:
            return
        raise Violation(f"a line without '=' is accepted: {bad} gives {got}", key='no =')


# ---------------------------------------------------------------- 5. changing paths
FILES = {'A': 'lamo=2\nsimStartTime=5\n', 'B': 'lamo=3\ntDel=0\nmass=[4.0]\n', 'C': ''}
READS = ['lamo', 'simStopTime', 'mass', 'rigidityPower']


def path_cases(tier):
    n = 3 if tier == 'quick' else 4
    for first in ['A', 'B', 'C', None]:
        for ops in itertools.product(['A', 'B', 'C', None], repeat=n):
            yield [first, list(ops)]


def path_check(case, obs):
    first, ops = case
    with scratch() as path:
        files = {k: put(os.path.join(path, k), v) for k, v in FILES.items()}
        files[None] = None
        texts = {k: parsed(v.splitlines(), ['#']) for k, v in FILES.items()}
        texts[None] = {}
        for reads in itertools.product((False, True), repeat=len(ops)):
            rt = runtime.Runtime(config_path=files[first])
            current = first
            for op, read in zip(ops, reads):
                if read:
                    whole_runtime(f"after paths {first} {ops}", rt, Model(texts[current]), READS)
                if rt.path_to(config=files[op]) is not rt:
                    raise Violation('path_to() returned another object', key='path_to')
                current = op
                if rt.path_to('config') != files[op] or rt.path_to('source', 'config') != [None, files[op]]:
                    raise Violation(f"path_to('config') gives {rt.path_to('config')!r}", key='path_to')
            whole_runtime(f"after paths {first} {ops} (reads {reads})", rt, Model(texts[current]), READS)
            if dict(rt.user) != texts[current]:
                raise Violation(f"after paths {first} {ops}: the user's values are {dict(rt.user)}", key='user')
            obs.step((first, tuple(ops), reads))
        for args, kw in (((), {}), (('config',), {'config': None})):
            try:
                rt.path_to(*args, **kw)
            except TypeError:
                continue
            raise Violation(f"path_to{args}{kw} is accepted", key='path_to')


# ---------------------------------------------------------------- 6. comparing
CONFIGS = ['', 'lamo=1.0\n', 'lamo=0\n', 'lamo = 2\neMin=0\n', 'mass=[1.0, 4.0]\n', 'masDirectory=x/y\nlamo=2.0\n', 'idealShock=1\ntDel=0\n']


def compare_cases(tier):
    for i in range(len(CONFIGS)):
        for j in range(len(CONFIGS)):
            yield [i, j]
    for i in range(len(CONFIGS)):
        yield [i]
        if tier != 'quick':
            for j, k in itertools.product(range(len(CONFIGS)), repeat=2):
                yield [i, j, k]
        else:
            yield [i, (i + 1) % len(CONFIGS), (i + 3) % len(CONFIGS)]


NUMBER = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')


def shown(text, labels):
    """Read the groups of a printed comparison."""
    out, name = {}, None
    lines = text.split('\n')
    for n, line in enumerate(lines):
        if n + 1 < len(lines) and lines[n + 1] and set(lines[n + 1]) == {'-'}:
            name = line.strip()
            if name in out:
                raise Violation(f"{name} is shown twice", key='shown')
            out[name] = {}
        elif line.strip() and set(line) != {'-'}:
            label = next((s for s in sorted(labels, key=len, reverse=True) if line.startswith(s + ' ')), None)
            if label is None or name is None:
                raise Violation(f"the comparison has the line {line!r}", key='shown')
            if label in out[name]:
                raise Violation(f"{label} is shown twice for {name}", key='shown')
            out[name][label] = line[len(label):].strip()
    return out


def read_value(text, kind):
    if text == 'None':
        return None
    if kind == 'str':
        return text[1:-1]
    body = text.split("'")[0]
    numbers_ = [float(x) for x in NUMBER.findall(body)]
    if kind == 'list' and len(numbers_) != 1:
        return numbers_
    return numbers_[0] if len(numbers_) == 1 else numbers_


def compare_check(case, obs):
    users = [parsed(CONFIGS[i].splitlines(), ['#']) for i in case]
    with scratch() as path:
        os.mkdir(os.path.join(path, 'd'))
        labels = ['first', 'd/second', 'd/third-file'][:len(case)]
        if len(case) == 1:
            labels = ['first']
        files = [put(os.path.join(path, s), CONFIGS[i]) for s, i in zip(labels, case)]
        if len(case) == 2:
            a, b = users
            one = runtime.ConfigFile(files[0])
            for other in (runtime.ConfigFile(files[1]), files[1]):
                got = one.compare(other)
                want = {k: (a.get(k), b.get(k)) for k in set(a) | set(b)}
                if got != want:
                    raise Violation(f"comparing {a} with {b} gives {got}", key='compare')
                keys = one.diff(other)['keys']
                if keys[0] != set(a) - set(b) or keys[1] != set(b) - set(a):
                    raise Violation(f"the difference of {a} and {b} is {keys}", key='compare')
                obs.step()
        models = [Model(u) for u in users]
        default = Model()
        for action in (None, 'show', 'diff'):
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                runtime.compare_arguments(files, action=action)
            got = shown(out.getvalue(), ['default'] + labels)
            want = {}
            for name in PARAMETERS:
                row = [m[name] if name in u else None for m, u in zip(models, users)]
                row = [r[0] if isinstance(r, list) and len(r) == 1 else r for r in row]
                if action != 'diff' or any(r != row[0] for r in row):
                    d = default[name]
                    want[name] = dict(zip(['default'] + labels, [d[0] if isinstance(d, list) else d] + row))
            where = f"compare_arguments({users}, {action!r})"
            if set(got) != set(want):
                raise Violation(f"{where} shows {sorted(set(got) ^ set(want))[:5]} more or less", key=('compare', 'names'))
            for name, row in want.items():
                if list(got[name]) != list(row):
                    raise Violation(f"{where} shows {name} for {list(got[name])}, not {list(row)}", key=('compare', 'files'))
                for label, value in row.items():
                    seen = read_value(got[name][label], default.kind(name))
                    if not (seen is None and value is None) and not (value is not None and seen is not None and loose(seen, value)):
                        raise Violation(f"{where}: {name} in {label} is {got[name][label]}, not {value}", key=('compare', 'value'))
            obs.step((action, tuple(sorted(got))))
    try:
        runtime.compare_arguments([], action='nope')
    except ValueError:
        return
    raise Violation("compare_arguments() accepts an unknown action", key=('compare', 'action'))


def loose(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(loose(x, y) for x, y in zip(a, b))
    return math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-12)


# ---------------------------------------------------------------- 7. source code
# Which definitions an EPREM distribution changes with respect to the snapshot.
CONSTANTS = [
    {}, {'AU': '2.0e13'}, {'C': '3.0e10', 'MP': '2.0e-24'}, {'MAS_TIME_NORM': '(2.0 * C)'}, {'T': '2', 'F': '-1'},
    {'TAU': '( AU / C / 2.0 )'}, {'PI': '3.0', 'MHD_DENSITY_NORM': '4.0'}, {'GEV': '( 1.0e9 * EV )'}, {'MAX_STRING_SIZE': '16'},
]
DEFAULTS = [
    {}, {'lamo': '0.25'}, {'lamo': 'config.rScale', 'rScale': '0.5'}, {'tDel': '0', 'simStartTime': '0'},
    {'simStopTime': 'config.tDel - config.simStartTime', 'simStartTime': '0.25'}, {'idealShock': '1'}, {'masDirectory': 'some/where'},
    {'eMin': 'AU*C', 'eMax': 'AU/C'}, {'numSpecies': 'config.numObservers', 'numObservers': '3'}, {'rigidityPower': '0.5'},
    {'omegaSun': '(0.5/TAU)*AU'}, {'lamo': 'third'}, {'mass': '[4.0]'}, {'numNodesPerStream': '0'}, {'eMin': '1.0e-33'},
]
CALL = {
    'readInt': '  config.{n} = readInt("{n}",{d},{lo},{hi});',
    'readDouble': 'config.{n}=readDouble("{n}" , {d}, {lo}, {hi});',
    'readString': '    config.{n} = (char*)readString("{n}", "{d}");',
    'readDoubleArray': 'config.{n} = readDoubleArray("{n}", {s}, {d});',
}


def write_sources(path, basetypes, reference, dropped=()):
    lines = ['#ifndef BASETYPES_H', '#define BASETYPES_H', '', '/* constants */']
    for n, (k, v) in enumerate(basetypes.items()):
        gap = ' ' if n % 2 else '\t\t  '
        lines.append(f'#define {k}{gap}{v}')
        if n % 5 == 0:
            lines.append('typedef double Scalar_t;')
    lines.append('#endif')
    put(os.path.join(path, 'baseTypes.h'), '\n'.join(lines) + '\n')
    lines = ['#include "configuration.h"', '', 'void getConfiguration(void) {', '']
    for n, (k, v) in enumerate(reference.items()):
        default, size = v['default'], '1'
        if v['mode'] == 'readDoubleArray':
            array = f'default{k}'
            lines.append(f'  Scalar_t {array}[1] = {{{default[1:-1]}}};')
            default = array
        lines.append(CALL[v['mode']].format(n=k, d=default, lo=v.get('minimum'), hi=v.get('maximum'), s=size))
        if n % 7 == 0:
            lines.append('  checkParameter(config.lamo);')
    lines.append('}')
    put(os.path.join(path, 'configuration.c'), '\n'.join(lines) + '\n')


def source_cases(tier):
    for i in range(len(CONSTANTS)):
        for j in range(len(DEFAULTS)):
            yield [i, j, None if tier == 'quick' else 0]
    for j in range(len(DEFAULTS)):
        yield [0, j, j % 3]
        yield [1, j, 3]


DROPPED = [[], ['lamo'], ['useDrift', 'masDirectory'], ['mass', 'eMax']]
SOURCE_USERS = [{}, {'simStartTime': '0', 'tDel': '2'}, {'eMin': '4', 'unknown': '5'}, {'lamo': 'config.eMin'}]


def source_check(case, obs):
    constants, defaults, n = CONSTANTS[case[0]], DEFAULTS[case[1]], case[2] or 0
    dropped = [d for d in DROPPED[n] if d not in defaults]
    basetypes = {**SNAP['_BASETYPES_H'], **constants}
    reference = {k: dict(v) for k, v in SNAP['_CONFIGURATION_C'].items() if k not in dropped}
    for k, v in defaults.items():
        reference[k]['default'] = v
    with scratch() as path:
        src = os.path.join(path, 'src')
        os.mkdir(src)
        write_sources(src, basetypes, reference)
        base = Model(None, reference, basetypes)
        where = f"the source with {constants} {defaults}"
        b = runtime.BaseTypesH(src)
        if set(b) != set(basetypes):
            raise Violation(f"{where}: the constants differ by {sorted(set(b) ^ set(basetypes))}", key=('source', 'constants'))
        for k in basetypes:
            if not agree(b[k], base.base(k)):
                raise Violation(f"{where}: the constant {k} is {b[k]!r}, not {base.base(k)!r}", key=('source', 'constant'))
        c = runtime.ConfigurationC(src)
        for k in reference:
            if c[k]['default'].replace(' ', '') != reference[k]['default'].replace(' ', '') or c[k]['type'].__name__ != base.kind(k):
                raise Violation(f"{where}: {k} is read as {c[k]}, not {reference[k]}", key=('source', 'definition'))
            for bound in ('minimum', 'maximum'):
                if c[k].get(bound) != reference[k].get(bound):
                    raise Violation(f"{where}: {k} is read as {c[k]}, not {reference[k]}", key=('source', 'bound'))
        for user in SOURCE_USERS:
            if set(user) & set(dropped):
                continue
            file = put(os.path.join(path, 'config'), ''.join(f'{k}={v}\n' for k, v in user.items()))
            model = Model(user, reference, basetypes)
            rt = runtime.Runtime(source_path=src, config_path=file)
            whole_runtime(f"{where}, user values {user}", rt, model)
            obs.step((case[0], case[1], tuple(user.items())))
        # switching an existing object to the same paths
        rt = runtime.Runtime()
        rt['lamo'], rt.basetypes['AU']
        rt.path_to(source=src, config=file)
        for name in reference:
            check_value(f"{where}, after path_to()", model, name, rt[name])
        rt.path_to(source=None, config=None)
        whole_runtime(f"{where}, after path_to() and back", rt, Model())
        # the generated database holds the same definitions
        out = os.path.join(path, 'generated.json')
        runtime.generate_defaults(src, out)
        with open(out) as fp:
            made = json.load(fp)
        if set(made) != {'_BASETYPES_H', '_CONFIGURATION_C'}:
            raise Violation(f"{where}: the database has {sorted(made)}", key=('database', 'names'))
        loaded = Model(None, made['_CONFIGURATION_C'], made['_BASETYPES_H'])
        if set(loaded.reference) != set(reference) or set(loaded.basetypes) != set(basetypes):
            raise Violation(f"{where}: the database has other names", key=('database', 'names'))
        for k in basetypes:
            if not agree(loaded.base(k), base.base(k)):
                raise Violation(f"{where}: {k} is {loaded.base(k)} in the database, not {base.base(k)}", key=('database', 'constant'))
        for k in reference:
            if not agree(loaded[k], base[k]) or loaded.kind(k) != base.kind(k):
                raise Violation(f"{where}: {k} is {loaded[k]} in the database, not {base[k]}", key=('database', 'parameter'))
        obs.step()


def spaces(tier):
    return [
        Space('defaults', default_cases, default_check, 'every parameter and constant by every alias; 12 unknown names'),
        Space('user', user_cases, user_check, 'every parameter x 10-12 values of its type x 2 (thorough: 7) ways of writing the line; every other parameter is checked as well'),
        Space('dependent', dependent_cases, dependent_check, 'all combinations of 4 (7) values of 5 parameters whose defaults refer to one another'),
        Space('lines', line_cases, line_check, 'all files of up to 2 (3) of 17 lines, with and without a final newline, 4 sets of comment characters'),
        Space('paths', path_cases, path_check, 'all sequences of 3 (4) changes of config file on one object, with every pattern of reads in between'),
        Space('compare', compare_cases, compare_check, 'all pairs (thorough: triples) of 7 files, every action'),
        Space('sources', source_cases, source_check, '9 sets of constants x 15 sets of definitions x 4 sets of user values'),
    ]
