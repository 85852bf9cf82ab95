"""P20: files: the data that a user sees are those of the file that the user named."""
import contextlib
import itertools
import os
import pathlib
import shutil
import tempfile

import numpy

from mc import fixture
from mc.core import Space, Violation

from goats import eprem
from goats.core import datafile, iotools

ASSUMPTIONS = [
    'a file is not replaced while it is in use; the keyword form Interface(path=...) is refused and is not claimed',
    'read-only paths: open, write_text and write_bytes (the documented ways of writing) are claimed, not unlink or rename',
    'an observer whose new source has no such dataset is not claimed',
]


@contextlib.contextmanager
def scratch():
    root = os.environ.get('MC_SCRATCH') or tempfile.gettempdir()
    path = os.path.realpath(tempfile.mkdtemp(prefix='mc-p20-', dir=root))
    back, home = os.getcwd(), os.environ.get('HOME')
    try:
        yield path
    finally:
        os.chdir(back)
        if home is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = home
        shutil.rmtree(path, ignore_errors=True)


_tiny = {}


def tiny(path, seed, attr='units', names=('Br', 'time')):
    key = seed, attr, tuple(names)
    if key not in _tiny:
        make_tiny(path, seed, attr, names)
        with open(path, 'rb') as fp:
            _tiny[key] = fp.read()
    with open(path, 'wb') as fp:
        fp.write(_tiny[key])


def make_tiny(path, seed, attr, names):
    import netCDF4
    with netCDF4.Dataset(path, 'w') as fp:
        fp.createDimension('time', 2 + seed % 2)
        fp.createDimension('shell', 3)
        for n, name in enumerate(names):
            dims = {'time': ('time',), 'shell': ('shell',)}.get(name, ('time', 'shell'))
            var = fp.createVariable(name, 'f8', dims)
            if attr:
                setattr(var, attr, f'u{n}{seed}')
            size = [fp.dimensions[d].size for d in dims]
            var[...] = numpy.arange(numpy.prod(size)).reshape(size) + 10 * seed + 100 * n


def look(where, face, seed, attr='units', names=('Br', 'time'), path=None, brief=False):
    """Compare everything that the interface shows with the file."""
    size = {'time': 2 + seed % 2, 'shell': 3}
    if set(face.available('variables').canonical) != set(names):
        raise Violation(f"{where}: the variables are {face.available('variables').canonical}, not {names}", key='variables')
    if set(face.available('axes').canonical) != {'time', 'shell'}:
        raise Violation(f"{where}: the axes are {face.available('axes').canonical}", key='axes')
    full = {a for n in names for a in fixture.NAMES[n]}
    for key in ('variable', 'variables'):
        keys = face.available(key)
        if not full <= set(keys.full) or len(keys.full) != len(set(keys.full)):
            raise Violation(f"{where}: the names of variables are {keys.full}", key='names')
        if set(keys.full) != {a for g in keys.grouped for a in g}:
            raise Violation(f"{where}: the groups {keys.grouped} aren't the names {keys.full}", key='names')
        if len(keys.grouped) != len(names):
            raise Violation(f"{where}: there are {len(keys.grouped)} groups of names", key='names')
    for key in ('axis', 'axes', 'dimension', 'dimensions'):
        if set(face.available(key).canonical) != {'time', 'shell'}:
            raise Violation(f"{where}: the axes are {face.available(key).canonical}", key='axes')
    for n, name in enumerate(names):
        dims = {'time': ('time',), 'shell': ('shell',)}.get(name, ('time', 'shell'))
        shape = [size[d] for d in dims]
        want = numpy.arange(numpy.prod(shape)).reshape(shape) + 10 * seed + 100 * n
        unit = f'u{n}{seed}' if attr else None
        for alias in fixture.NAMES[name][-1:] if brief else fixture.NAMES[name]:
            var = face.variables[alias]
            if var.name != name or var.dimensions != dims or var.unit != unit:
                raise Violation(f"{where}: {alias} is {var!r}", key='variable')
            if not numpy.array_equal(numpy.array(var.data), want):
                raise Violation(f"{where}: {alias} has the data {numpy.array(var.data).tolist()}, not {want.tolist()}", key='data')
            if face.units[alias] != unit:
                raise Violation(f"{where}: the unit of {alias} is {face.units[alias]!r}", key='unit')
    if path is not None and (str(face) != path or os.fspath(face.path) != path):
        raise Violation(f"{where}: the path is {face.path}, not {path}", key='path')
    if brief:
        return
    for name in size:
        for alias in fixture.NAMES[name]:
            ax = face.axes[alias]
            if ax.size != size[name] or ax.name != name:
                raise Violation(f"{where}: the axis {alias} is {ax!r}", key='axis')
    for what in (face.variables, face.axes, face.units):
        for name in ('nope', 'Rho', ''):
            if name in what:
                raise Violation(f"{where}: there is a {name!r}", key='unknown')
            try:
                what[name]
            except KeyError:
                continue
            raise Violation(f"{where}: {name!r} is {what[name]!r}", key='unknown')


# ---------------------------------------------------------------- 1. contents
def content_cases(tier):
    for attr in ('units', 'unit', None):
        for names in itertools.permutations(('Br', 'time', 'shell', 'Vt'), 2 if tier == 'quick' else 3):
            for seed in (0, 1):
                yield [attr, list(names), seed]


def content_check(case, obs):
    attr, names, seed = case
    with scratch() as path:
        file = os.path.join(path, 'data.nc')
        tiny(file, seed, attr, names)
        face = datafile.Interface(file)
        for n in range(2):
            look(f"{names} with {attr}", face, seed, attr, names, file)
            obs.step((attr, tuple(names), seed, n))
        for bad in ('missing.nc', 'data.txt', 'data', 'data.nc.gz'):
            name = os.path.join(path, bad)
            if bad != 'missing.nc':
                shutil.copy(file, name)
            for _ in range(2):
                try:
                    datafile.Interface(name)
                except (TypeError, iotools.NonExistentPathError):
                    continue
                raise Violation(f"a dataset called {bad} is accepted", key='refused')
            obs.step(bad)


# ---------------------------------------------------------------- 2. spellings of a path
# Two directories with a dataset of the same name; a third with links to them.
def spellings(target, cwd):
    """Ways of writing the path to a/data.nc or b/data.nc from the directory cwd."""
    out = [
        ['str', '{root}/' + target + '/data.nc'], ['path', '{root}/' + target + '/data.nc'], ['str', '{root}/c/../' + target + '/data.nc'],
        ['str', '~/' + target + '/data.nc'], ['path', '~/' + target + '/data.nc'], ['str', '{root}/c/to_' + target],
        ['path', '{root}/' + target + '/./data.nc'],
    ]
    if cwd == target:
        out += [['str', 'data.nc'], ['path', 'data.nc'], ['str', './data.nc']]
    elif cwd:
        out += [['str', '../' + target + '/data.nc'], ['path', '../' + target + '/data.nc']]
    else:
        out += [['str', target + '/data.nc'], ['path', target + '/data.nc']]
    return out


def spelling_cases(tier):
    steps = [[cwd, target, n] for cwd in ('', 'a', 'b') for target in ('a', 'b') for n in range(len(spellings(target, cwd)))]
    for first in steps:
        for cwd in ('', 'a', 'b'):
            yield [[first], [s for s in steps if s[0] == cwd]]
    if tier != 'quick':
        few = [s for s in steps if s[2] in (0, 1, 7, 8)]
        for two in itertools.product(few, repeat=2):
            yield [list(two), few]


class Other(metaclass=iotools.PathSet):
    """Another kind of object that there is one of per path."""

    def __init__(self, path):
        self.path = path


class Derived(datafile.Interface):
    pass


def spelling_check(case, obs):
    for last in case[1]:
        spelling_sequence(case[0] + [last], obs)


def spelling_sequence(case, obs):
    seeds = {'a': 0, 'b': 1}
    with scratch() as root:
        for d in 'abc':
            os.mkdir(os.path.join(root, d))
        for d in 'ab':
            tiny(os.path.join(root, d, 'data.nc'), seeds[d])
            os.symlink(os.path.join(root, d, 'data.nc'), os.path.join(root, 'c', f'to_{d}'))
        os.environ['HOME'] = root
        seen = {}
        for cwd, target, n in case:
            os.chdir(os.path.join(root, cwd))
            kind, text = spellings(target, cwd)[n]
            arg = text.format(root=root)
            arg = pathlib.Path(arg) if kind == 'path' else arg
            where = f"Interface({arg!r}) in {cwd or 'the parent'} after {case}"
            other = Other(arg)
            if type(other) is not Other:
                raise Violation(f"{where}: another class gives {type(other)}", key='class')
            face = datafile.Interface(arg)
            derived = Derived(arg)
            if type(face) is not datafile.Interface or type(derived) is not Derived:
                raise Violation(f"{where}: the classes give {type(face)} and {type(derived)}", key='class')
            look(where, face, seeds[target], brief=True, path=os.path.join(root, target, 'data.nc'))
            if derived.path != face.path:
                raise Violation(f"{where}: a derived class opened {derived.path}", key='class')
            if target in seen and seen[target] is not face:
                raise Violation(f"{where}: there are two instances for one file", key='single')
            seen[target] = face
            obs.step((cwd, target, n))
        for d, face in seen.items():
            look(f"later, {case}", face, seeds[d], brief=True)


# ---------------------------------------------------------------- 3. viewers
class Fixed(datafile.Viewer):
    def get_members(self, path):
        return {'time': 1, 'Xyz': 2}

    def __getitem__(self, name):
        if name in self.members:
            return datafile.Variable(self.members[name], f'{name} unit', (), name)
        raise KeyError(name)


VIEWER_OPS = ['use a', 'use b', 'both a', 'axes a', 'look a', 'look b', 'look c', 'back a']


def viewer_cases(tier):
    for ops in itertools.product(VIEWER_OPS, repeat=2 if tier == 'quick' else 3):
        yield list(ops)


def viewer_check(case, obs):
    for last in VIEWER_OPS:
        viewer_sequence(case + [last], obs)


def viewer_sequence(case, obs):
    with scratch() as root:
        seeds = {'a': 0, 'b': 1, 'c': 2}
        for d, seed in seeds.items():
            tiny(os.path.join(root, d + '.nc'), seed)
        faces = {d: datafile.Interface(os.path.join(root, d + '.nc')) for d in 'ab'}
        state = {d: {'variables': False, 'axes': False} for d in 'abc'}

        def examine(d, when):
            face = faces.get(d) or datafile.Interface(os.path.join(root, d + '.nc'))
            where = f"{d} {when} {case}"
            if not any(state[d].values()):
                return look(where, face, seeds[d])
            names = {'time', 'Xyz'} if state[d]['variables'] else {'Br', 'time'}
            if set(face.available('variables').canonical) != names or set(face.units.keys()) != {a for x in names for a in fixture.NAMES.get(x, [x])}:
                raise Violation(f"{where}: the variables are {face.available('variables').canonical}", key='viewer')
            if state[d]['variables'] and (face.variables['Xyz'].data != 2 or face.units['Xyz'] != 'Xyz unit' or face.variables['t'].data != 1):
                raise Violation(f"{where}: X is {face.variables['Xyz']!r}", key='viewer')
            axes = {'time', 'Xyz'} if state[d]['axes'] else {'time', 'shell'}
            if set(face.available('axes').canonical) != axes or ('Xyz' in face.axes) != state[d]['axes']:
                raise Violation(f"{where}: the axes are {face.available('axes').canonical}", key='viewer')

        for op in case:
            what, d = op.split()
            if what == 'look':
                examine(d, 'during')
            else:
                kw = {'use': {'variables': Fixed}, 'both': {'variables': Fixed, 'axes': Fixed}, 'axes': {'axes': Fixed},
                      'back': {'variables': datafile.NetCDFVariables, 'axes': datafile.NetCDFAxes}}[what]
                if faces[d].use(**kw) is not faces[d]:
                    raise Violation('use() returned another object', key='viewer')
                for k, v in kw.items():
                    state[d][k] = v is Fixed
            obs.step((op, tuple(tuple(s.values()) for s in state.values())))
        for d in 'abc':
            examine(d, 'after')
        if set(datafile.Interface(os.path.join(root, 'b.nc')).viewers) != {'variables', 'axes'}:
            raise Violation('the groups of a dataset changed', key='viewer')


# ---------------------------------------------------------------- 4. read-only paths
MODES = [a + b for a in ('r', 'w', 'a', 'x') for b in ('', 'b', 't', '+', 'b+', '+b', 't+', '+t')]


def readonly_cases(tier):
    for mode in MODES:
        for how in ('positional', 'keyword', 'all', 'buffered'):
            yield ['open', mode, how]
    for how in ('write_text', 'write_bytes', 'read_text', 'read_bytes', 'default'):
        yield [how, '', '']
    for kind in ('missing', 'missing/deeper', 'file/below'):
        yield ['missing', kind, '']
    for spelling in ('str', 'path', 'home', 'relative', 'parts', 'directory'):
        yield ['resolve', spelling, '']


def readonly_check(case, obs):
    what, mode, how = case
    with scratch() as root:
        os.environ['HOME'] = root
        os.chdir(root)
        file = os.path.join(root, 'file')
        with open(file, 'w') as fp:
            fp.write('some\ntext\n')
        if what == 'missing':
            try:
                got = iotools.ReadOnlyPath(os.path.join(root, mode))
            except iotools.NonExistentPathError:
                obs.step(mode)
                return
            raise Violation(f"the path of a missing file, {mode}, is {got}", key='missing')
        if what == 'resolve':
            args = {'str': (file,), 'path': (pathlib.Path(file),), 'home': ('~/file',), 'relative': ('./file',), 'parts': (root, 'file'), 'directory': (root,)}[mode]
            got = iotools.ReadOnlyPath(*args)
            want = root if mode == 'directory' else file
            if os.fspath(got) != want or not got.is_absolute() or got != pathlib.Path(want):
                raise Violation(f"ReadOnlyPath{args} is {got}, not {want}", key='resolve')
            obs.step(mode)
            return
        path = iotools.ReadOnlyPath('file')
        reading = True
        try:
            if what == 'open':
                kw, args = {}, ()
                if how == 'positional':
                    args = (mode,)
                elif how == 'buffered':
                    args = (mode, -1)
                else:
                    kw = {'mode': mode}
                    if how == 'all':
                        kw['buffering'] = -1
                reading = mode[0] == 'r' and '+' not in mode
                with path.open(*args, **kw) as fp:
                    got = fp.read() if mode[0] == 'r' else None
            elif what == 'write_text':
                reading = False
                path.write_text('x')
            elif what == 'write_bytes':
                reading = False
                path.write_bytes(b'x')
            elif what == 'default':
                with path.open() as fp:
                    got = fp.read()
            else:
                got = getattr(path, what)()
        except iotools.ReadOnlyPathError:
            if reading:
                raise Violation(f"reading by {case} is refused", key='read')
        else:
            if not reading:
                raise Violation(f"writing by {case} is accepted", key='write')
            if (got.decode() if isinstance(got, bytes) else got) != 'some\ntext\n':
                raise Violation(f"{case} reads {got!r}", key='read')
        with open(file) as fp:
            if fp.read() != 'some\ntext\n':
                raise Violation(f"{case} changed the file", key='write')
        obs.step((what, mode, how))


# ---------------------------------------------------------------- 5. finding files
PRESENT = ['a/one.nc', 'a/two.nc', 'b/one.nc', 'b/two.nc', 'one.nc']


def find_cases(tier):
    for present in itertools.product((False, True), repeat=len(PRESENT)):
        yield [[p for p, x in zip(PRESENT, present) if x]]


def find_check(case, obs):
    present = case[0]
    templates = {'one': lambda n: f'{n}.nc', 'two': lambda n: pathlib.Path('two.nc')}
    with scratch() as root:
        os.mkdir(os.path.join(root, 'a'))
        os.mkdir(os.path.join(root, 'b'))
        for p in present:
            with open(os.path.join(root, p), 'w') as fp:
                fp.write(p)

        def verify(where, got, want):
            if (got is None) != (want is None) or (want is not None and os.fspath(got) != os.path.join(root, want)):
                raise Violation(f"{where} with {present} is {got}, not {want}", key=where.split('(')[0])
            obs.step((where, want))

        for order in (['one'], ['two'], ['one', 'two'], ['two', 'one'], []):
            for d in ('a', 'b', ''):
                want = next((os.path.join(d, f'{t}.nc') for t in order if os.path.join(d, f'{t}.nc') in present), None)
                ts = [templates[t] for t in order]
                os.chdir(os.path.join(root, d))
                verify(f"find_file_by_template({order}) in {d!r}", iotools.find_file_by_template(ts, 'one'), want)
                os.chdir(os.path.join(root, 'b'))
                for arg in (os.path.join(root, d), pathlib.Path(os.path.join('..', d))):
                    verify(f"find_file_by_template({order}, {d!r})", iotools.find_file_by_template(ts, 'one', arg), want)
        os.chdir(root)
        for k in (0, 1, 2):
            for paths in itertools.permutations(['a', 'b', '.'] + [p for p in present if '/' not in p], k):
                for name in ('one.nc', pathlib.Path('two.nc')):
                    want = next((os.path.normpath(os.path.join(p, name)) for p in paths if os.path.normpath(os.path.join(p, name)) in present), None)
                    verify(f"search({paths}, {name})", iotools.search(paths, name), want)


# ---------------------------------------------------------------- 6. text files
TEXT = ['', 'a=1', '#a=2', '  b = 3 # c', 'a=4', '=', 'x']


def text_cases(tier):
    for k in range(4 if tier == 'quick' else 5):
        for lines in itertools.product(range(len(TEXT)), repeat=k):
            yield list(lines)


def text_check(case, obs):
    lines = [TEXT[i] for i in case]
    with scratch() as root:
        file = os.path.join(root, 'file')
        for end in ('', '\n'):
            body = '\n'.join(lines) + (end if lines else '')
            with open(file, 'w') as fp:
                fp.write(body)
            text = body.splitlines()
            if iotools.file_lines(file) != len(text):
                raise Violation(f"{body!r} has {iotools.file_lines(file)} lines", key='lines')
            this = iotools.TextFile(file)

            def match(line):
                return line.strip() if '=' in line and line[:1] != '#' else None

            def parse(line):
                k, v = line.split('=')
                return k.strip(), v.strip()

            want = {}
            for line in text:
                if '=' in line and line[:1] != '#':
                    k, v = line.strip().split('=')
                    want[k.strip()] = v.strip()
            for _ in range(2):
                got = this.extract(match, parse)
                if got != want:
                    raise Violation(f"{body!r} contains {got}, not {want}", key='extract')
            if str(this) != file or [s.rstrip('\n') for s in this.lines] != text:
                raise Violation(f"{body!r} has the lines {this.lines}", key='lines')
            for line in lines:
                for comments in (['#'], ['#', '='], [], ['c']):
                    cut = min([line.index(c) for c in comments if c in line] or [len(line)])
                    got = iotools.strip_inline_comments(line, comments)
                    if got != line[:cut].strip():
                        raise Violation(f"{line!r} without the comments {comments} is {got!r}", key='comments')
            obs.step(body)


# ---------------------------------------------------------------- 7. an observer's files
# Each directory may have a stream as obs*.nc, as flux*.nc, or both, and a config file.
KINDS = ['obs', 'flux', 'obs+flux', 'p_obs', '']
CONFIGS = ['name', 'name path', 'full', 'full path', 'relative', 'home', 'elsewhere', 'elsewhere name']
UPDATED = ['name', 'name path', 'full', 'elsewhere']
LAMO = {'a': 0.25, 'b': 0.5, '': 0.75}
SALT = {'obs': 0, 'flux': 1, 'p_obs': 2}


def observer_cases(tier):
    for kind in KINDS:
        for cwd in ('', 'a', 'b'):
            for ident in (0, 7):
                yield ['create', kind, cwd, ident]
    for kinds in itertools.product(['obs', 'flux', 'obs+flux'], repeat=2):
        for cwd in ('', 'a'):
            for first in UPDATED:
                yield ['update', list(kinds), cwd, first]


_bytes = {}


def fill(root, d, kind, ident):
    os.makedirs(os.path.join(root, d), exist_ok=True)
    for k in filter(None, kind.split('+')):
        name = f'{k}{ident:03}.nc' if k == 'p_obs' else f'{k}{ident:06}.nc'
        salt = SALT[k] + (4 if d == 'b' else 0)
        if salt not in _bytes:
            tmp = os.path.join(root, 'tmp.nc')
            fixture.Dataset(nt=2, ns=2, ne=2, nm=2, salt=salt).write(tmp)
            with open(tmp, 'rb') as fp:
                _bytes[salt] = fp.read()
            os.remove(tmp)
        with open(os.path.join(root, d, name), 'wb') as fp:
            fp.write(_bytes[salt])
    with open(os.path.join(root, d, 'conf'), 'w') as fp:
        fp.write(f'lamo={LAMO[d]}\n')


def config_of(config, d, root, cwd):
    """How the user writes the config file, and the directory where it is."""
    if config == 'name':
        return 'conf', d
    if config == 'name path':
        return pathlib.Path('conf'), d
    if config == 'full':
        return os.path.join(root, d, 'conf'), d
    if config == 'full path':
        return pathlib.Path(root, d, 'conf'), d
    if config == 'relative':
        return os.path.join('..', d, 'conf') if cwd else os.path.join(d, 'conf'), d
    if config == 'home':
        return f'~/{d}/conf', d
    if config == 'elsewhere':
        return os.path.join(root, 'conf'), ''
    return 'conf2', cwd


def verify_observer(where, s, cls, root, d, kind, confdir, ident, light=False):
    # the first of the observer's own names wins
    names = ['p_obs'] if cls is eprem.Point else ['obs', 'flux']
    have = next((k for k in names if k in kind.split('+')), None)
    if have is None:
        if s.datapath is not None:
            raise Violation(f"{where}: the data are in {s.datapath}", key='datapath')
        return
    file = os.path.join(root, d, f'{have}{ident:03}.nc' if have == 'p_obs' else f'{have}{ident:06}.nc')
    if os.fspath(s.datapath) != file:
        raise Violation(f"{where}: the data are in {s.datapath}, not {file}", key='datapath')
    if os.path.dirname(os.fspath(s.confpath)) != os.path.join(root, confdir).rstrip('/'):
        raise Violation(f"{where}: the config file is {s.confpath}", key='confpath')
    if light:
        return
    ds = fixture.Dataset(nt=2, ns=2, ne=2, nm=2, salt=SALT[have] + (4 if d == 'b' else 0))
    got = numpy.array(s['Br'].observe().data)
    for i in range(2):
        for j in range(2):
            want = ds.full('Br', 'mks')(i, j)
            if not fixture.close(float(got[i, j]), want):
                raise Violation(f"{where}: Br is {got.tolist()}, not that of {file}", key='data')
    lam = float(s['mfp'].observe()['lambda0']) / 1.495978707e11
    if not fixture.close(lam, LAMO[confdir]):
        raise Violation(f"{where}: lamo is {lam}, not {LAMO[confdir]}", key='config')


def observer_check(case, obs):
    what, kind, cwd, x = case
    if what == 'create':
        for config in CONFIGS:
            observer_sequence(['create', kind, config, cwd, x], obs)
    else:
        for second in UPDATED:
            observer_sequence(['update', kind, [x, second], cwd, 0], obs)


def observer_sequence(case, obs):
    what, kind, config, cwd, ident = case
    with scratch() as root:
        os.environ['HOME'] = root
        kinds = kind if what == 'update' else [kind, 'obs']
        for d, k in zip('ab', kinds):
            fill(root, d, k, ident)
        with open(os.path.join(root, 'conf'), 'w') as fp:
            fp.write(f"lamo={LAMO['']}\n")
        for d in ('', 'a', 'b'):
            with open(os.path.join(root, d, 'conf2'), 'w') as fp:
                fp.write(f'lamo={LAMO[d]}\n')
        os.chdir(os.path.join(root, cwd))
        if what == 'create':
            arg, confdir = config_of(config, 'a', root, cwd)
            if config == 'elsewhere name':
                # a bare name that exists in the data directory is found there first
                confdir = 'a'
            for cls in (eprem.Stream, eprem.Point):
                sources = [os.path.join(root, 'a'), pathlib.Path(root, 'a'), '~/a']
                if cwd == 'a':
                    sources += [None, '.']
                for n, source in enumerate(sources):
                    s = cls(ident, config=arg, source=source)
                    verify_observer(f"{cls.__name__}({ident}, {arg!r}, {source!r}) in {cwd!r} with {kind}", s, cls, root, 'a', kind, confdir, ident, light=n)
                    obs.step((case[1], config, cwd, ident, cls.__name__))
            for bad in (os.path.join(root, 'nowhere'), os.path.join(root, 'conf')):
                try:
                    eprem.Stream(ident, config=arg, source=bad)
                except (TypeError, iotools.NonExistentPathError):
                    continue
                raise Violation(f"the source {bad} is accepted", key='refused')
            return
        for order in ('one', 'source', 'config', 'late'):
            one, dir_one = config_of(config[0], 'a', root, cwd)
            two, dir_two = config_of(config[1], 'b', root, cwd)
            s = eprem.Stream(0, config=None if order == 'late' else one, source=os.path.join(root, 'a'))
            where = f"{config} with {kinds} in {cwd!r}, {order}"
            if order == 'late':
                s.update(config=one)
            verify_observer(where, s, eprem.Stream, root, 'a', kinds[0], dir_one, 0, light=order != 'late')
            if order in ('one', 'late'):
                r = s.update(source=os.path.join(root, 'b'), config=two)
            elif order == 'source':
                r = s.update(source=os.path.join(root, 'b'))
                now = 'b' if config[0].startswith('name') else dir_one
                verify_observer(where + ' after the source', s, eprem.Stream, root, 'b', kinds[1], now, 0)
                r = s.update(config=two)
            else:
                if config[1].startswith('name'):
                    continue  # a bare name belongs to the current data directory
                r = s.update(config=two)
                verify_observer(where + ' after the config', s, eprem.Stream, root, 'a', kinds[0], dir_two, 0)
                r = s.update(source=os.path.join(root, 'b'))
            if r is not s:
                raise Violation('update() returned another object', key='update')
            verify_observer(where + ' at the end', s, eprem.Stream, root, 'b', kinds[1], dir_two, 0)
            obs.step((tuple(kinds), tuple(config), cwd, order))


# ---------------------------------------------------------------- 8. histories of updates
# A state is (source, config); an update that can't work is refused and changes nothing.
UPDATES = {
    'source a': ('a', None), 'source b': ('b', None), 'no data': ('empty', None),
    'nowhere': ('nowhere', None), 'a file': ('conf', None),
    'config a': (None, 'a/conf'), 'config b': (None, 'b/conf'), 'name': (None, 'conf'), 'other name': (None, 'only_a'),
    'no config': (None, 'nowhere/conf'),
    'both': ('b', 'a/conf'), 'bad config': ('b', 'nowhere/conf'), 'bad source': ('nowhere', 'b/conf'),
}
STARTS = [('a', 'a/conf'), ('a', None), ('empty', 'conf'), ('a', 'only_a')]


SOME = ['source b', 'no data', 'nowhere', 'config b', 'name', 'no config', 'bad config']


def update_cases(tier):
    # Each case covers all the continuations of one first update.
    for start in STARTS:
        for first in UPDATES:
            yield [list(start), first, 'pairs']
            if tier == 'thorough':
                for second in UPDATES:
                    yield [list(start), first, second]
    if tier == 'quick':
        for first in SOME:
            yield [list(STARTS[0]), first, 'triples']


def update_check(case, obs):
    start, first, rest = case
    if rest == 'pairs':
        tails = [[]] + [[x] for x in UPDATES]
    elif rest == 'triples':
        tails = [list(x) for x in itertools.product(SOME, repeat=2)]
    else:
        tails = [[rest, x] for x in UPDATES]
    for tail in tails:
        update_sequence(start, [first, *tail], obs)


def meaning(state):
    """What an observer in a state shows: 'refused', None or (data directory, lamo)."""
    source, config = state
    if source in ('nowhere', 'conf'):
        return 'refused'
    if source == 'empty' or config is None:
        return None
    if config == 'conf':
        return source, LAMO[source]
    if config == 'only_a':
        return (source, LAMO['']) if source == 'a' else 'refused'
    if config.startswith('nowhere'):
        return 'refused'
    return source, LAMO[config[0]]


def update_sequence(start, steps, obs):
    with scratch() as root:
        for d in 'ab':
            fill(root, d, 'obs', 0)
        os.mkdir(os.path.join(root, 'empty'))
        os.mkdir(os.path.join(root, 'work'))
        for name in ('conf', 'a/only_a'):
            with open(os.path.join(root, name), 'w') as fp:
                fp.write(f"lamo={LAMO['']}\n")
        os.chdir(os.path.join(root, 'work'))

        def written(config):
            return os.path.join(root, config) if config and '/' in config else config

        state = tuple(start)
        s = eprem.Stream(0, config=written(state[1]), source=os.path.join(root, state[0]))
        for n in range(len(steps) + 1):
            if n:
                source, config = UPDATES[steps[n - 1]]
                kw = {}
                if source:
                    kw['source'] = os.path.join(root, source)
                if config:
                    kw['config'] = written(config)
                new = (source or state[0], config or state[1])
                where = f"started with {start}, updated with {steps[:n]}"
                refused = meaning(new) == 'refused'
                try:
                    s.update(**kw)
                except Exception as err:
                    if not refused:
                        raise Violation(f"{where}: {type(err).__name__}: {err}", key='update raised')
                else:
                    if refused:
                        raise Violation(f"{where}: the last update is accepted", key='update accepted')
                if not refused:
                    state = new
            else:
                where = f"started with {start}"
            obs.step((state, tuple(start), tuple(steps[:n])))
            if n and n < len(steps):
                continue        # this is a case of its own
            shows = meaning(state)
            if shows is None:
                for call in (lambda: s['Br'].observe(), lambda: s['mfp'], lambda: s.observables, lambda: numpy.array(s.radius), lambda: numpy.array(s.time)):
                    try:
                        got = call()
                    except Exception:
                        continue
                    raise Violation(f"{where}: there are no data to show, but it shows {str(got)[:100]}", key='stale')
            else:
                d, lamo = shows
                ds = fixture.Dataset(nt=2, ns=2, ne=2, nm=2, salt=4 if d == 'b' else 0)
                for what, var, got in (('Br', 'Br', lambda: s['Br'].observe().data), ('radius', 'R', lambda: s.radius)):
                    try:
                        got = float(numpy.array(got())[1, 1])
                    except Exception as err:
                        raise Violation(f"{where}: {type(err).__name__}: {err}", key='lost')
                    if not fixture.close(got, ds.full(var, 'mks')(1, 1)):
                        raise Violation(f"{where}: {what} is {got}, not {ds.full(var, 'mks')(1, 1)}", key='data')
                lam = float(s['mfp'].observe()['lambda0']) / 1.495978707e11
                if not fixture.close(lam, lamo):
                    raise Violation(f"{where}: lamo is {lam}, not {lamo}", key='config')
                if os.fspath(s.datapath) != os.path.join(root, d, 'obs000000.nc'):
                    raise Violation(f"{where}: the data are in {s.datapath}", key='datapath')


def spaces(tier):
    return [
        Space('contents', content_cases, content_check, 'files with 2 (3) of 4 variables in every order, 3 ways of giving a unit; 4 bad files'),
        Space('spellings', spelling_cases, spelling_check, 'all pairs (thorough: many triples) of ways of writing the path of one of 2 files with the same name, from 3 working directories; 3 classes', isolate=True),
        Space('viewers', viewer_cases, viewer_check, 'all sequences of 3 (4) of 8 operations on 3 datasets', isolate=True),
        Space('read-only', readonly_cases, readonly_check, 'every mode of open in 4 ways of giving it, the documented writers, missing files, spellings'),
        Space('find', find_cases, find_check, 'all subsets of 5 files, all orders of templates and of up to 2 directories, 3 working directories'),
        Space('text', text_cases, text_check, 'all files of up to 3 (4) of 7 lines'),
        Space('observer', observer_cases, observer_check, '5 sets of files x 8 ways of giving the config file x 3 working directories x 2 ids x 5 sources; updates of 9 pairs of sources x 16 pairs of configs x 4 orders', isolate=True),
        Space('updates', update_cases, update_check, 'from 4 starts, all sequences of 2 (3) of 13 updates, and all triples of 7; good, empty, missing and wrong sources and config files', isolate=True),
    ]
