import functools
import importlib
import itertools
import sys
import types
import warnings

from contracts.indexing import (Filter, HANDLERS, Module, Modules,
                                Traversal)
from harness import fresh, sigs
from paradigm._core import catalog, index

from .common import TERMINATION

PROOFS = [Traversal, Module, Modules, *HANDLERS, Filter]
SOURCES = ('paradigm/_core/index.py', 'paradigm/_core/catalog.py',
           'paradigm/_core/modules.py')
ASSUMPTIONS = (TERMINATION,)


def expected_path(value):
    """Qualified module and object paths, nothing without a name."""
    if isinstance(value, (type, types.FunctionType)):
        module = value.__module__
        return (() if module is None else tuple(module.split('.')),
                tuple(value.__qualname__.split('.')))
    if isinstance(value, types.BuiltinFunctionType):
        owner = value.__self__
        if isinstance(owner, type):
            module = owner.__module__
        elif isinstance(owner, types.ModuleType):
            spec = owner.__spec__
            module = owner.__name__ if spec is None else spec.name
        elif owner is None:
            module = None
        else:
            return None
        return (() if module is None else tuple(module.split('.')),
                tuple(value.__qualname__.split('.')))
    if isinstance(value, (types.MethodDescriptorType,
                          types.WrapperDescriptorType,
                          types.MethodWrapperType)):
        return (tuple(value.__objclass__.__module__.split('.')),
                tuple(value.__qualname__.split('.')))
    return None


def expected_index(modules):
    result = {}

    def visit(namespace, module_path, path, classes):
        for name, value in list(vars(namespace).items()):
            if isinstance(value, type) and any(value is c for c in classes):
                continue
            key = expected_path(value)
            if key is not None:
                result.setdefault(key, []).append(
                        (module_path, (*path, name)))
            if isinstance(value, type):
                visit(value, module_path, (*path, name), (*classes, value))

    for module_path, module in modules.items():
        visit(module, module_path, (), ())
    return result


def flattened(paths):
    return {(module, object_): sorted(located)
            for module, objects in paths.items()
            for object_, located in objects.items()}


class Custom:
    def method(self):
        pass


VALUES = [
    len, str.join, int.__add__, object.__init__, (5).__add__, dict.fromkeys,
    'x'.join, functools.reduce, functools.partial(len), Custom().method, 5,
    None, 'text', sys, property(len), staticmethod(len), classmethod(len),
    itertools.chain, itertools.chain.from_iterable, type(len), Custom,
    Custom.method, lambda: 0, print, ..., [].append, types.ModuleType,
    int.__dict__['from_bytes'], int.__dict__['real'], object.__new__,
    type.__call__, type.mro, Exception]


def drawn_namespaces(report, index):
    """Modules of classes, nested and containing each other, functions."""
    draw = report.random
    modules = {}
    names = ['a', 'b', 'c', 'A', 'B', 'Inner', 'x', '_y']

    def function(module_name, qualname):
        def f():
            pass
        f.__module__ = draw.choice([module_name, module_name, None,
                                    'verif_other.inner', 'verif_other'])
        f.__qualname__ = qualname
        f.__name__ = qualname.rpartition('.')[2]
        return f

    classes = []
    for number in range(draw.randint(1, 3)):
        module_name = '.'.join(['verif_index', f'm{number}'][
            -draw.randint(1, 2):]) + f'_{index}'
        module = types.ModuleType(module_name)
        vars(module).clear()
        vars(module)['__name__'] = module_name
        vars(module)['__spec__'] = None
        modules[tuple(module_name.split('.'))] = module

        def make(qualname, depth):
            # the ones containing it among them
            bases = ((draw.choice(classes),)
                     if classes and draw.random() < .3 else ())
            result = type(qualname.rpartition('.')[2], bases, {})
            result.__module__ = draw.choice([module_name] * 3
                                            + ['verif_other'])
            result.__qualname__ = qualname
            classes.append(result)
            fill(result, qualname + '.', depth)
            return result

        def fill(namespace, prefix, depth):
            for name in draw.sample(names, draw.randint(0, 4)):
                kind = draw.random()
                if kind < .35 and depth < 3:
                    value = make(prefix + name, depth + 1)
                elif kind < .6:
                    value = function(module_name, prefix + name)
                elif kind < .75 and classes:
                    # an alias, maybe of a class containing this one
                    value = draw.choice(classes)
                else:
                    value = draw.choice(VALUES)
                setattr(namespace, name, value)

        fill(module, '', 0)
    return modules


def namespaces(report):
    """Drawn modules against an independent traversal."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for number in range(6000 if report.thorough else 1500):
            modules = drawn_namespaces(report, number)
            registered = {'.'.join(path): module
                          for path, module in modules.items()}
            if 'verif_index' not in sys.modules:
                sys.modules['verif_index'] = types.ModuleType('verif_index')
            sys.modules.update(registered)
            try:
                case = shown(modules)
                report.count('sets of modules', case)
                actual = sigs.outcome(index.from_modules, list(modules))
            finally:
                for name in registered:
                    del sys.modules[name]
            compare(report, 'namespace', case, modules, actual)
            if report.full:
                return


def compare(report, key, case, modules, actual):
    if isinstance(actual, Exception):
        report.violation(key, case, 'an index', repr(actual))
        return
    expected = {k: sorted(v) for k, v in expected_index(modules).items()}
    found = sigs.outcome(flattened, actual)
    if found != expected:
        if isinstance(found, Exception):
            difference = repr(found)
        else:
            difference = {k: (expected.get(k), found.get(k))
                          for k in {*expected, *found}
                          if expected.get(k) != found.get(k)}
        report.violation(key, case, 'exactly the reachable objects',
                         f'expected and found: {difference}')


def shown(modules):
    def show(namespace, depth, classes):
        result = []
        for name, value in vars(namespace).items():
            if name.startswith('__'):
                continue
            if isinstance(value, type) and value.__module__.startswith(
                    'verif') and value not in classes:
                inner = show(value, depth + 1, [*classes, value])
                result.append(f'{name}: class {value.__module__}.'
                              f'{value.__qualname__} {{{inner}}}')
            else:
                result.append(f'{name}: '
                              + getattr(value, '__qualname__', repr(value)))
        return ', '.join(result)
    return '; '.join(f'{".".join(path)}: {show(module, 0, [])}'
                     for path, module in modules.items())


def library(report):
    """Modules of the library: recorded paths are followed."""
    names = ['builtins', 'collections', 'functools', 'itertools', 'asyncio',
             'decimal', 'datetime', 'operator', 'os.path', 'pathlib', 'ast',
             'contextlib', 'concurrent.futures', 'types', '_thread',
             'collections.abc', 'typing', 'enum', 'random', 'json.decoder']
    modules = {tuple(n.split('.')): importlib.import_module(n)
               for n in names}
    actual = sigs.outcome(index.from_modules, list(modules))
    report.count('modules of the library', names, by=len(names))
    compare(report, 'library', f'modules {names}', modules, actual)
    if isinstance(actual, Exception):
        return
    for (module_path, object_path), located in flattened(actual).items():
        for where, at in located:
            report.count('recorded paths', (where, at))
            value = modules[where]
            try:
                for name in at:
                    value = vars(value)[name]
            except KeyError:
                report.violation('library', (where, at), 'leads to an '
                                 'object', 'leads nowhere')
                continue
            if expected_path(value) != (module_path, object_path):
                report.violation('library', (where, at),
                                 (module_path, object_path),
                                 expected_path(value))


FAILURES = {
    'verif_fails_value': 'raise ValueError("failed")',
    'verif_fails_import': 'import verif_does_not_exist',
    'verif_fails_syntax': 'def (:',
    'verif_fails_late': 'class A: pass\nraise RuntimeError("late")',
    'verif_fails_attribute': 'import sys\nsys.verif_no_attribute',
    'verif_fails_custom': 'class E(Exception):\n'
                          '    def __init__(self, a, b): pass\n'
                          'raise E(1, 2)',
    'verif_fails_chained': 'try:\n    1 / 0\nexcept Exception as e:\n'
                           '    raise KeyError("k") from e',
    'verif_fails_assert': 'assert False',
    'verif_fails_stop': 'raise StopIteration',
    'verif_fails_memory': 'raise MemoryError',
    'verif_fails_os': 'open("/verif/no/such/file")',
}


def failures(report):
    """Modules failing to import among the ones which do not."""
    folder = report.scratch / 'failing'
    folder.mkdir()
    good = {'verif_good_first': 'class A:\n    def f(self): pass\n',
            'verif_good_last': 'def f(): pass\n'}
    for name, text in {**FAILURES, **good}.items():
        (folder / f'{name}.py').write_text(text)
    sys.path.insert(0, str(folder))
    importlib.invalidate_caches()
    try:
        for names in [*[[name] for name in FAILURES], list(FAILURES),
                      ['verif_does_not_exist'],
                      ['verif_good_first.inner']]:
            order = ['verif_good_first', *names, 'verif_good_last']
            report.count('failing modules', order)
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                actual = sigs.outcome(index.from_modules, [
                    tuple(n.split('.')) for n in order])
            modules = {(n,): importlib.import_module(n) for n in good}
            compare(report, 'failing', f'modules {order}', modules, actual)
            for name in names:
                if not any(issubclass(w.category, Warning)
                           and name in str(w.message) for w in caught):
                    report.violation('failing', f'modules {order}',
                                     f'a warning about {name}',
                                     [str(w.message)[:200] for w in caught])
            if report.full:
                return
    finally:
        sys.path.remove(str(folder))


def filtered(report):
    """Entries unknown to stubs are left out while rebuilding the cache."""
    draw = report.random
    parts = ['a', 'b', 'C', 'D']
    for _ in range(150 if report.thorough else 40):
        def scope(depth):
            return {p: scope(depth + 1)
                    for p in draw.sample(parts, draw.randint(0, 3))
                    } if depth < 3 else {}

        modules = [('m',), ('m', 'n'), ('k',)]
        definitions = {m: scope(0) for m in modules}
        definitions[('builtins',)] = {'object': {}, 'len': {}}
        stubs = fresh.Fake('paradigm._core.stubs')
        stubs.definitions = definitions
        stubs.references = {m: {} for m in definitions}
        stubs.submodules, stubs.superclasses = {}, {}
        known = set()

        def collect(module, path, inner):
            for name, value in inner.items():
                known.add((module, (*path, name)))
                collect(module, (*path, name), value)

        for module, inner in definitions.items():
            collect(module, (), inner)
        known |= {(m, ('object',)) for m in definitions}
        known |= {(m, ('len',)) for m in definitions}
        paths = {}
        for _ in range(draw.randint(0, 6)):
            located = [(draw.choice([*modules, ('z',)]),
                        tuple(draw.choices(parts, k=draw.randint(1, 3))))
                       for _ in range(draw.randint(0, 4))]
            paths.setdefault(draw.choice([('q',), ('m',), ()]), {})[
                tuple(draw.choices(parts, k=draw.randint(1, 2)))] = located
        expected = {}
        for module, objects in paths.items():
            kept = {}
            for object_, located in objects.items():
                left = [p for p in located if p in known]
                if left:
                    kept[object_] = left
            if kept:
                expected[module] = kept
        case = f'index {paths} with definitions {definitions}'
        report.count('filtered indexes', case)
        module = sigs.outcome(fresh.rebuilt_modules, stubs, paths)
        actual = (repr(module) if isinstance(module, Exception)
                  else module.supported_stdlib_qualified_paths)
        if actual != expected:
            report.violation('filter', case, expected, actual)
        if report.full:
            return


PROBES = [namespaces, library, failures, filtered]
