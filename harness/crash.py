"""
Histories of caches: executes modules having caches, stubs of a miniature
library being installed, with files of every kind in place of the caches.
Works on the package which is on the path, run as a separate process.
"""
import ast
import contextlib
import importlib
import json
import random
import resource
import shutil
import signal
import sys
import tempfile
import types
import warnings
from pathlib import Path

from .fresh import load, replaced, stubs_replaced
from .world import World

TEXTS = {
    'verif_a': '''
from typing import Generic, TypeVar
from verif_b.c import D as E, f
T = TypeVar("T")
class A(Generic[T]):
    x: T
    def g(self, a: int = ..., *, b: str = "\\u20ac'\\"") -> T: ...
class B(A[int]):
    y: str | None = None
    class C(B): ...
g = f
''',
    'verif_b.': 'from . import c\nx: int\n',
    'verif_b.c': '''
from typing import overload
class D: ...
@overload
def f(a: int) -> D: ...
@overload
def f(a: str, b: bytes = b"\\xff\\n") -> list[int]: ...
'''}
INDEX = {('verif_a',): {('A',): [(('verif_a',), ('A',))],
                        ('A', 'g'): [(('verif_a',), ('A', 'g'))],
                        ('g',): [(('verif_b', 'c'), ('f',)),
                                 (('verif_a',), ('zz',))]},
         ('verif_b', 'c'): {('f',): [(('verif_b', 'c'), ('f',))]},
         ('verif_q',): {('f',): [(('verif_q',), ('f',))]}}
OTHER = {'verif_b.c': 'def f(a: str) -> int: ...\n'}
OTHER_INDEX = {('verif_a',): {('A',): [(('verif_a',), ('B',))]}}
STUBS_NAMES = ('definitions', 'nodes_kinds', 'raw_ast_nodes', 'references',
               'submodules', 'superclasses')


class Runner:
    """Executes a module of the package, its cache being in the folder."""

    def __init__(self, name, names, installed):
        import paradigm._core
        self.name, self.names, self.installed = name, names, installed
        self.package = paradigm._core
        self.folder = Path(paradigm._core.__file__).parent
        self.before = set(self.folder.iterdir())
        self.forget()
        self.reference = self.run()
        made = [file for file in self.folder.iterdir()
                if file not in self.before and file.suffix == '.py']
        if len(made) != 1:
            raise RuntimeError(f'caches: {made}')
        self.file, = made
        self.content = self.file.read_bytes()

    def forget(self):
        for name in list(sys.modules):
            if name.startswith('paradigm._core._'):
                del sys.modules[name]
        for name in list(vars(self.package)):
            if name.startswith('_') and isinstance(
                    getattr(self.package, name), types.ModuleType):
                delattr(self.package, name)
        importlib.invalidate_caches()

    def clean(self):
        self.forget()
        if self.file.is_symlink() or self.file.is_file():
            self.file.unlink()
        elif self.file.is_dir():
            shutil.rmtree(self.file)
        self.forget_compiled()

    def forget_compiled(self):
        place = self.folder / '__pycache__'
        if place.is_file():
            place.unlink()
        elif place.is_dir():
            for file in place.iterdir():
                if file.name.startswith('_mypy') or file.name.startswith(
                        self.file.stem):
                    file.unlink()

    def run(self, other=False):
        self.forget()
        with self.installed(other), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            module = load(self.name)
        return {name: getattr(module, name) for name in self.names}

    def put(self, content):
        self.clean()
        if content is None:
            return
        self.file.write_bytes(content)

    def parts(self):
        """Statements of the cache."""
        result = self.content.decode().split('\n')
        lines = [i for i, line in enumerate(result)
                 if line and not line[0].isspace() and ' = ' in line]
        return ['\n'.join(result[a:b]) + '\n' for a, b in zip(
                lines, [*lines[1:], len(result)])]


@contextlib.contextmanager
def stubs_installed(world):
    from paradigm._core import caching, execution, sources
    kept = caching.load, caching.save
    with world.installed(), replaced(caching, load=kept[0], save=kept[1]):
        yield


def runners(folder):
    from paradigm._core import execution
    world = World(TEXTS, folder)
    other = World({**TEXTS, **OTHER}, Path(folder) / 'other')
    yield Runner('stubs', STUBS_NAMES, lambda changed: stubs_installed(
            other if changed else world))
    stubs = world.stubs()

    @contextlib.contextmanager
    def installed(changed):
        with stubs_replaced(stubs), replaced(
                execution, call_in_process=lambda *args, **kwargs: (
                    OTHER_INDEX if changed else INDEX)):
            yield

    yield Runner('modules', ('supported_stdlib_qualified_paths',), installed)


def contents(runner, random_, count):
    """Names and contents of files, none of which is a complete cache."""
    text = runner.content
    parts = runner.parts()
    end = len(text.rstrip())
    places = {0, 1, end - 1, end - 2, end // 2}
    position = 0
    for part in parts:
        size = len(part.encode())
        for shift in (-1, 0, 1, part.index('=') - 1, part.index('=') + 2):
            places.add(position + shift)
        position += size
    places.update(random_.randrange(end) for _ in range(count))
    for place in sorted(places):
        if 0 <= place < end:
            yield f'first {place} bytes of {end}', text[:place]
    for place in random_.sample(range(end), 4):
        yield (f'first {place} bytes, zeros after them',
               text[:place].ljust(len(text), b'\0'))
    for index, part in enumerate(parts):
        name = part.partition(' ')[0]
        yield (f'no field {name}',
               ''.join(parts[:index] + parts[index + 1:]).encode())
        yield f'only field {name}', part.encode()
    names = [part.partition(' ')[0] for part in parts]
    from paradigm import __version__
    released = [name for name, part in zip(names, parts)
                if part.partition(' = ')[2].strip() == repr(__version__)]
    for text_, label in [('{}', 'no data'), ('None', 'None for data')]:
        for version in versions() if released else ():
            yield (f'version {version} with {label}', ''.join(
                    f'{name} = '
                    + (version if name in released else text_) + '\n'
                    for name in names).encode())
    for statement in ['', '\n', 'raise Exception', 'raise KeyError(1)',
                      'raise AttributeError', '1/0', '[][1]', 'import nothing',
                      'def', '\tx', 'raise MemoryError', 'assert False',
                      'raise RecursionError', 'raise StopIteration',
                      '\ufeffx = 1', '{' * 300]:
        yield f'text {statement!r}', statement.encode()
    yield 'invalid text', b'\xff\xfe\x00'


def versions():
    from paradigm import __version__ as version
    major, minor, patch = version.split('.')
    result = [f'{major}.{minor}.{int(patch) + 1}', f'{major}.{minor}',
              f'{major}.{int(minor) + 1}.{patch}', f'{major}.{minor}.',
              f'{int(major) + 1}.{minor}.{patch}', '0.0.0', '99.99.99',
              f'{version}.dev1', f'{version}-alpha', f'v{version}',
              f' {version}', f'{version} ', f'{version}\n', '', version[1:],
              version[:-1], f'{int(major) - 1}.{minor}.{patch}',
              f'0{version}']
    return [*map(repr, result), 'None', '0', 'True', '()',
            repr(version.encode()), repr(tuple(version.split('.'))),
            f'({version!r},)']


@contextlib.contextmanager
def limited(size):
    """Files of more bytes can not be written."""
    previous = resource.getrlimit(resource.RLIMIT_FSIZE)
    handler = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, previous[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, previous)
        signal.signal(signal.SIGXFSZ, handler)


def strictly(a, b):
    """Equal data of the same types."""
    if type(a) is not type(b) or a != b:
        return False
    if isinstance(a, dict):
        keys = {key: key for key in b}
        return all(strictly(key, keys[key]) and strictly(value, b[key])
                   for key, value in a.items())
    if isinstance(a, (list, tuple)):
        return all(map(strictly, a, b))
    return True


@contextlib.contextmanager
def failing(runner, error):
    """The cache can not be opened for writing."""
    open_ = Path.open

    def fail(self, mode='r', *args, **kwargs):
        if self.name == runner.file.name and mode != 'r':
            raise error
        return open_(self, mode, *args, **kwargs)

    with replaced(Path, open=fail):
        yield


ERRORS = [OSError(28, 'no space'), PermissionError('x'), ValueError('null'),
          MemoryError(), RuntimeError('x'), RecursionError('x'), KeyError(1),
          UnicodeEncodeError('utf-8', 'a', 0, 1, 'x'), TypeError('x'),
          NotImplementedError(), EOFError(), StopIteration()]


class Checked:
    def __init__(self):
        self.counts, self.violations = {}, []

    def check(self, runner, kind, history, context=None):
        self.counts[kind] = self.counts.get(kind, 0) + 1
        try:
            if context is None:
                data = runner.run()
            else:
                with context:
                    data = runner.run()
        except Exception as error:
            outcome = f'{type(error).__name__}: {error}'
        else:
            different = [name for name, value in data.items()
                         if not strictly(value, runner.reference[name])]
            if not different:
                return True
            outcome = f'different {different}'
        if len(self.violations) < 10:
            self.violations.append({
                'key': f'{runner.name}: {kind}', 'input': history,
                'expected': 'the data which is computed without a cache',
                'actual': outcome[:600]})
        return False


def made(runner, checked):
    """Without a cache the data is computed."""
    checked.counts['computed'] = checked.counts.get('computed', 0) + 1
    if not any(('verif_a',) in value and value[('verif_a',)]
               for value in runner.reference.values()):
        checked.violations.append({
            'key': f'{runner.name}: empty', 'input': 'nothing in place of '
            'the cache', 'expected': 'data of the module verif_a',
            'actual': str(runner.reference)[:300]})


def histories(runner, checked, random_, count):
    name = runner.file.name
    made(runner, checked)
    for label, content in contents(runner, random_, count):
        runner.put(content)
        checked.check(runner, 'state', f'{name}: {label}')
    for _ in range(4):
        # nothing changes
        checked.check(runner, 'runs', f'{name}: next run')
    runner.put(runner.content)
    checked.check(runner, 'runs', f'{name}: complete')
    for size in [0, 1, *sorted(random_.randrange(len(runner.content))
                               for _ in range(count // 8))]:
        runner.put(None)
        history = f'{name}: only {size} bytes can be written'
        checked.check(runner, 'failure', history, limited(size))
        left = (runner.file.read_bytes() if runner.file.exists() else b'')
        checked.check(runner, 'after failure', f'{history}, next run finds '
                                               f'{len(left)} bytes')
        checked.check(runner, 'after failure', f'{history}, third run')
    import paradigm
    for version in map(ast.literal_eval, versions()):
        if not isinstance(version, str):
            continue
        runner.put(None)
        with replaced(paradigm, __version__=version):
            runner.run(other=True)
        for number in ('next', 'third'):
            checked.check(runner, 'other version',
                          f'{name}: version {version!r} with other stubs '
                          f'was run before, {number} run')
    for old in ['x = 1\n', runner.content.decode().replace('version = ',
                                                           'version = 0,')]:
        runner.put(old.encode())
        size = random_.randrange(len(runner.content))
        history = f'{name}: {old[-60:]}; only {size} bytes can be written'
        checked.check(runner, 'failure', history, limited(size))
        checked.check(runner, 'after failure', history + ', next run')
    for error in ERRORS:
        runner.put(None)
        history = f'{name}: opening for writing raises {error!r}'
        checked.check(runner, 'failure', history, failing(runner, error))
        checked.check(runner, 'after failure', history + ', next run')
    runner.put(None)
    runner.file.mkdir()
    for _ in range(2):
        checked.check(runner, 'failure', f'{name}: a folder')
    runner.put(None)
    runner.file.symlink_to(runner.folder / 'missing' / 'file')
    for _ in range(2):
        checked.check(runner, 'failure', f'{name}: a broken link')
    runner.put(None)
    place = runner.folder / '__pycache__'
    moved = runner.folder / '__moved__'
    if place.exists():
        place.rename(moved)
    place.write_text('')
    for _ in range(2):
        checked.check(runner, 'failure', f'{name}: nothing can be compiled')
    place.unlink()
    if moved.exists():
        moved.rename(place)
    runner.put(None)


def main():
    output, seed, count = sys.argv[1:]
    checked = Checked()
    with tempfile.TemporaryDirectory(prefix='paradigm-verif-') as folder:
        for runner in runners(folder):
            histories(runner, checked, random.Random(int(seed)), int(count))
    Path(output).write_text(json.dumps({
        'counts': checked.counts, 'violations': checked.violations}))


if __name__ == '__main__':
    main()
