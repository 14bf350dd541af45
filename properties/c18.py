import ast
import importlib.util
import sys
from pathlib import Path

from contracts.imports import Package, Resolution
from harness import sigs
from paradigm._core import sources
from paradigm._core.arboreal.utils import to_parent_module_path

from .common import TERMINATION

PROOFS = [Resolution, Package]
SOURCES = ('paradigm/_core/arboreal/utils.py', 'paradigm/_core/sources.py')
ASSUMPTIONS = (TERMINATION,)

NAMES = [None, 'x', 'xy', 'x.y', 'x.y.zeta', 'os', '__init__', '_private',
         'x__init__.y']


def stub_modules():
    """Stubs shipped with mypy: path and whether it is a package."""
    import mypy
    root = Path(mypy.__file__).parent / 'typeshed' / 'stdlib'
    result = {}
    for path in sorted(root.rglob('*.pyi')):
        parts = path.relative_to(root).with_suffix('').parts
        is_package = parts[-1] == '__init__'
        result[parts[:-1] if is_package else parts] = is_package
    return result


def own_modules(report):
    """Packages of any depth without stubs."""
    result = {}
    root = report.scratch / 'packages'
    folder = root
    path = ()
    for depth in range(5):
        path += (f'verif{depth}',)
        folder = folder / path[-1]
        folder.mkdir(parents=True)
        (folder / '__init__.py').write_text('')
        (folder / 'module.py').write_text('')
        (folder / '__init__module.py').write_text('')
        result[path] = True
        result[(*path, 'module')] = False
        result[(*path, '__init__module')] = False
    sys.path.insert(0, str(root))
    importlib.invalidate_caches()
    return result


def python_agrees(report):
    """Against the resolution of relative names by importlib."""
    modules = {**stub_modules(), **own_modules(report)}
    for path, is_package in modules.items():
        report.count('modules', path)
        actual = sigs.outcome(sources.is_package, path)
        if actual is not is_package:
            report.violation('package', f'is_package({path})', is_package,
                             repr(actual))
        full = '.'.join(path)
        package = full if is_package else full.rpartition('.')[0]
        for level in range(len(path) + 2):
            for name in NAMES:
                if level == 0 and name is None:
                    continue
                relative = '.' * level + (name or '')
                try:
                    expected = importlib.util.resolve_name(relative, package)
                except ImportError:
                    continue
                check(report, path, level, name, tuple(expected.split('.')))
        if report.full:
            return


def check(report, path, level, name, expected):
    text = (f'from {"." * level}{name or ""} import a'
            f' in {".".join(path)}')
    report.count('statements', text)
    node = ast.parse(text.rpartition(' in ')[0]).body[0]
    actual = sigs.outcome(to_parent_module_path, node,
                          parent_module_path=path)
    if actual != expected or type(actual) is not tuple:
        report.violation('statement', text, expected, repr(actual))


def recorded(report):
    """Submodules of everything imported by statements of real stubs."""
    import mypy
    root = Path(mypy.__file__).parent / 'typeshed' / 'stdlib'
    for path, is_package in stub_modules().items():
        file = (root.joinpath(*path, '__init__.pyi') if is_package
                else root.joinpath(*path[:-1], path[-1] + '.pyi'))
        tree = ast.parse(file.read_text(encoding='utf-8'))
        full = '.'.join(path)
        package = full if is_package else full.rpartition('.')[0]
        for node in ast.walk(tree):
            if isinstance(node, ast.ImportFrom):
                name = importlib.util.resolve_name(
                        '.' * node.level + (node.module or ''), package)
                report.count('statements of stubs', full)
                actual = sigs.outcome(to_parent_module_path, node,
                                      parent_module_path=path)
                if actual != tuple(name.split('.')):
                    report.violation('statement', f'{ast.unparse(node)} in '
                                     f'{full}', name, repr(actual))


PROBES = [python_agrees, recorded]
