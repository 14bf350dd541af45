import inspect
import json
import os
import subprocess
import sys
import sysconfig
from importlib.machinery import EXTENSION_SUFFIXES, SOURCE_SUFFIXES
from pathlib import Path

from contracts.discovery import (Excluded, Found, Library, ModulePath, Stubs,
                                 Supported, UNSAFE, Valid)
from harness import sigs

from .common import TERMINATION

PROOFS = [Excluded, Supported, Valid, ModulePath, Library, Found, Stubs]
SOURCES = ('paradigm/_core/discovery.py', 'paradigm/_core/sources.py')
ASSUMPTIONS = (TERMINATION,)

SUFFIXES = {*SOURCE_SUFFIXES, *EXTENSION_SUFFIXES}

SCRIPT = '''
import importlib.machinery, json, sys, sysconfig, types, warnings
root, builtins = sys.argv[1], json.loads(sys.argv[2])
sys.path[:0] = json.loads(sys.argv[3])
warnings.simplefilter('ignore')
from paradigm._core import caching, execution
sysconfig.get_path = lambda name, *args, **kwargs: (
        root + ('/plat' if name == 'platstdlib' else '/std'))
sys.builtin_module_names = tuple(builtins)


def fail(*args, **kwargs):
    raise OSError('no cache')


caching.load = fail
caching.save = lambda *args, **kwargs: None
execution.call_in_process = lambda f, *args, **kwargs: f(*args, **kwargs)


class Stubs(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return {}


stubs = sys.modules['paradigm._core.stubs'] = Stubs('paradigm._core.stubs')
import paradigm._core
paradigm._core.stubs = stubs
from paradigm._core import discovery
imported = []
known = {'.'.join(path) for path in json.loads(sys.argv[4])}


class Loader:
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        imported.append(module.__name__)
        module.__path__ = []
        if module.__name__.endswith('broken'):
            raise ValueError('failed')


class Finder:
    def find_spec(self, name, path=None, target=None):
        if name in known:
            return importlib.machinery.ModuleSpec(
                    name, Loader(), origin=name, is_package=True)
        return None


taken = [name for name in known if name in sys.modules]
sys.meta_path.insert(0, Finder())
saved = dict(sys.modules)
from paradigm._core import modules
print(json.dumps({
    'imported': imported, 'taken': taken,
    'supported': [list(p) for p in
                  discovery.supported_stdlib_modules_paths]}))
'''

SAFE = ['verif_a', 'verif_a.b', 'verif_a.b.c', 'antigravity2', 'anti',
        'anti.gravity', 'this_one', 'thi', 'thi.s', 'verif_a.this',
        'verif_a.tkinter', 'verif_a.antigravity', 'tkinterx', 'tkinterx.ttk',
        'idlelibs', 'idleli.b', 'turtledem', 'turtles', 'verif_distutils',
        'verif_x.bdist_msi', 'verif_encodings.mbcs', 'verif_b._private',
        'verif_protest', 'verif_b.testing', 'verif_b.latest', 'verif_broken',
        'verif_tests_', 'verif_b.mytest', 'verif_b.main', '__verif__',
        'verif_b.__main', 'cryptic', 'verif_a.crypt', 'tkinter_test2',
        'verif_b.contest', 'verif_b.testify', 'verif_c.attest.latest']
BAD = ['verif_a.test', 'verif_a.tests', 'test', 'tests', 'test.verif',
       'verif_a.test.c', 'verif_a.tests.c', 'verif_a.__main__', '__main__',
       'verif_a.test_it', 'verif_a._test_it', 'verif_a.it_test',
       'test_verif', '_testverif', 'verif_test', 'test_a.b', 'a_test.b',
       '_testx.y.z', 'verif_a.not-a-name', 'not-a-name', '1verif.a',
       'verif_a.2.b', 'verif_a.b.__main__', 'verif_a.b.x_test',
       'verif_a.b._test', 'verif_a._testing']


def unsafe_of(report):
    """Unsafe modules and anything inside of them."""
    result = []
    for name in UNSAFE:
        result.append(name)
        for inner in ('sub', 'sub.deep', 'verif_a', '_private', name):
            if report.thorough or report.random.random() < .4:
                result.append(f'{name}.{inner}')
    return result


def near_of(report):
    """Names which only look like unsafe ones."""
    result = []
    for name in UNSAFE:
        *parents, last = name.split('.')
        for near in (last + 'x', last + '_more', 'x' + last):
            result.append('.'.join([*parents, near]))
        if parents:
            result.append('.'.join([parents[0] + 'x', *parents[1:], last]))
            result.append('.'.join(['verif_z', *parents, last]))
            result.append('.'.join(parents[:1]))
        else:
            result.append(f'verif_z.{name}')
    return result


def write(folder, name, kind):
    *parents, last = name.split('.')
    place = folder.joinpath(*parents)
    place.mkdir(parents=True, exist_ok=True)
    if kind == 'package':
        (place / last).mkdir(exist_ok=True)
        (place / last / '__init__.py').write_text('')
    else:
        suffix = {'module': '.py', 'extension': '.so',
                  'abi': '.cpython-312-x86_64-linux-gnu.so',
                  'stable': '.abi3.so', 'text': '.txt',
                  'double': '.x.py', 'compiled': '.pyc',
                  'stub': '.pyi'}[kind]
        (place / (last + suffix)).write_text('')


def end_to_end(report):
    """The whole selection with a library of generated files."""
    rounds = 6 if report.thorough else 2
    for index in range(rounds):
        root = report.scratch / f'library{index}'
        folders = {name: root / name for name in ('std', 'plat')}
        for folder in folders.values():
            folder.mkdir(parents=True)
        expected = []
        names = {}
        good = SAFE + near_of(report)
        bad = BAD + unsafe_of(report)
        for name in good + bad:
            folder = folders[report.random.choice(['std', 'std', 'plat'])]
            kind = report.random.choice(
                    ['module', 'module', 'package', 'package', 'extension',
                     'abi', 'stable'])
            if 'not-' in name:
                kind = 'module'
            write(folder, name, kind)
            names[name] = f'{kind} of {folder.name}'
        expected = [n for n in dict.fromkeys(good)]
        for kind in ('text', 'double', 'compiled', 'stub'):
            write(folders['std'], f'verif_other_{kind}', kind)
            names[f'verif_other_{kind}'] = kind
        builtins = ['verif_builtin', '_verif_builtin', 'this', 'turtle']
        expected += builtins[:2]
        known = [n.split('.') for n in {*good, *bad, *builtins, *names}]
        for path in list(known):
            for size in range(1, len(path)):
                known.append(path[:size])
        process = subprocess.run(
                [sys.executable, '-c', SCRIPT, str(root),
                 json.dumps(builtins), json.dumps([str(report.scratch)]),
                 json.dumps(known)],
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                timeout=100, cwd=str(report.scratch))
        if process.returncode:
            error = process.stderr.strip()[-1500:]
            if 'paradigm/_core' in error:
                report.violation('selection', 'import of the package with a '
                                 f'library of {len(names)} files',
                                 'modules selected', error)
            else:
                report.notes.append(error)
            continue
        result = json.loads(process.stdout)
        selected = {'.'.join(path) for path in result['supported']}
        imported = set(result['imported'])
        for name in [*expected, *names]:
            report.count('modules', name)
        parents = {'.'.join(n.split('.')[:k]) for n in imported
                   for k in range(1, n.count('.') + 1)}
        extra = sorted(selected - set(expected))
        missing = sorted(set(expected) - selected)
        for name in extra[:5]:
            report.violation('selection', f'module {name} '
                             f'({names.get(name, "built in")})',
                             'not selected for indexing', 'selected')
        for name in missing[:5]:
            report.violation('selection', f'module {name} '
                             f'({names.get(name, "built in")})',
                             'selected for indexing', 'left out')
        if extra or missing:
            continue
        # importing of a module imports its parents
        wrong = sorted(imported - set(expected) - parents)
        for name in wrong[:5]:
            report.violation('import', f'module {name}',
                             'not imported for indexing', 'imported')
        left = sorted(set(expected) - imported - set(result['taken']))
        for name in left[:5]:
            report.violation('import', f'module {name}',
                             'imported for indexing', 'not imported')
        if report.full:
            return


def real(report):
    """The library of the running interpreter."""
    from paradigm._core import discovery
    for path in discovery.supported_stdlib_modules_paths:
        report.count('modules of the library', path)
    expected = {(name,) for name in sys.builtin_module_names}
    for kind in ('stdlib', 'platstdlib'):
        root = Path(sysconfig.get_path(kind))
        for folder, _, files in os.walk(root):
            inner = Path(folder).relative_to(root).parts
            for file in files:
                suffix = ''.join(Path(file).suffixes)
                if suffix in SUFFIXES:
                    stem = inspect.getmodulename(file)
                    expected.add(inner if stem == '__init__'
                                 else (*inner, stem))
    expected = {
        path for path in expected
        if path and path[-1] != '__main__' and not any(
                part in ('test', 'tests') or not part.isidentifier()
                or part.startswith(('test_', '_test'))
                or part.endswith('_test') for part in path)
        and not any(('.'.join(path) + '.').startswith(unsafe + '.')
                    for unsafe in UNSAFE)}
    actual = set(discovery.supported_stdlib_modules_paths)
    for path in sorted(expected - actual)[:5]:
        report.violation('library', '.'.join(path), 'kept', 'left out')
    for path in sorted(actual - expected)[:5]:
        report.violation('library', '.'.join(path), 'left out', 'kept')


def excluded(report):
    """The function which excludes, with any modules and names."""
    from paradigm._core import discovery
    function = getattr(discovery, '_recursively_update_modules_paths', None)
    code = getattr(function, '__code__', None)
    if (code is None or code.co_argcount != 1 or not code.co_flags & 4
            or 'stdlib_modules_paths' not in vars(discovery)):
        return
    parts = ['a', 'ab', 'b', 'a_', 'this']
    saved = discovery.stdlib_modules_paths
    try:
        for _ in range(3000 if report.thorough else 800):
            modules = [tuple(report.random.choices(parts, k=k))
                       for k in report.random.choices([1, 2, 3, 4], k=8)]
            names = ['.'.join(report.random.choices(parts, k=k))
                     for k in report.random.choices([1, 1, 2, 3],
                                                    k=report.random.randint(
                                                            0, 3))]
            before = {tuple(report.random.choices(parts, k=2))}
            result = set(before)
            discovery.stdlib_modules_paths = dict.fromkeys(modules).keys()
            actual = sigs.outcome(function, result, *names)
            expected = before | {tuple(n.split('.')) for n in names} | {
                m for m in modules
                if any(('.'.join(m) + '.').startswith(n + '.')
                       for n in names)}
            case = f'modules {modules}, names {names}, excluded {before}'
            report.count('exclusions', case)
            if isinstance(actual, Exception):
                report.violation('exclusion', case, expected, repr(actual))
            elif actual is not None:
                # a function made otherwise
                return
            elif result != expected:
                report.violation('exclusion', case, expected, result)
            if report.full:
                return
    finally:
        discovery.stdlib_modules_paths = saved


PROBES = [end_to_end, real, excluded]
