import types

from contracts.building import Chain, Common, Nearest
from contracts.lookup import OfClass
from harness import callables, sigs, world

from .common import TERMINATION

PROOFS = [Chain, Nearest, Common, OfClass]
SOURCES = ('paradigm/_core/signatures.py', 'paradigm/_core/stubs.py')
ASSUMPTIONS = (TERMINATION,)

MODULES = 'verif_a', 'verif_b', 'verif_c'


class Hierarchy:
    """Random classes of several modules with builders of known names."""

    def __init__(self, random, size, generic=True):
        self.random, self.generic = random, generic
        self.bases = {}
        self.builders = {}
        self.generics = {}
        lines = {name: ['from typing import Generic, TypeVar, overload, Any',
                        "_V = TypeVar('_V')", "_W = TypeVar('_W')"]
                 for name in MODULES}
        imported = {name: set() for name in MODULES}
        for index in range(size):
            self.add(index, lines, imported)
        self.texts = {name: '\n'.join(text) + '\n'
                      for name, text in lines.items()}

    def add(self, index, lines, imported):
        random = self.random
        # modules import only the ones before them or form cycles
        module = random.choice(MODULES)
        outer = [key for key in self.bases if key[0] == module
                 and '.' not in key[1]]
        name = f'K{index}'
        known = list(self.bases)
        bases = random.sample(known, min(len(known), random.choice(
                (0, 1, 1, 1, 2, 2, 3))))
        if known and random.random() < .5 and known[-1] not in bases:
            bases.insert(random.randint(0, len(bases)), known[-1])
        texts, key = [], (module, name)
        for base in bases:
            text = self.spelled(base, module, lines[module],
                                imported[module])
            if self.generics.get(base):
                text += '[{}]'.format(', '.join(
                        random.choice(('int', 'str', 'Any'))
                        for _ in range(self.generics[base])))
            texts.append(text)
        self.bases[key] = bases
        if self.generic and random.random() < .25:
            self.generics[key] = random.choice((1, 1, 2))
            texts.insert(random.randint(0, len(texts)), 'Generic[{}]'.format(
                    ', '.join(['_V', '_W'][:self.generics[key]])))
        elif random.random() < .1:
            texts.append('object')
            self.bases[key] = [*bases, ('builtins', 'object')]
        header = f'class {name}({", ".join(texts)}):' if texts else (
            f'class {name}:')
        body = self.body(key)
        lines[module] += [header, *['    ' + line for line in body]]

    def spelled(self, base, module, lines, imported):
        base_module, base_name = base
        if base_module == module:
            return base_name
        form = self.random.randrange(3)
        if form == 0:
            statement, text = (f'from {base_module} import {base_name}',
                               base_name)
        elif form == 1:
            statement, text = (f'import {base_module}',
                               f'{base_module}.{base_name}')
        else:
            statement, text = (f'from {base_module} import {base_name} '
                               f'as _{base_name}', f'_{base_name}')
        if statement not in imported:
            imported.add(statement)
            lines.append(statement)
        return text

    def body(self, key):
        random = self.random
        module, name = key
        result = ['def method(self, x: int) -> int: ...']
        declared = []
        for builder in ('__new__', '__init__'):
            if random.random() < .3:
                declared.append(builder)
        random.shuffle(declared)
        for builder in declared:
            count = random.choice((1, 1, 2, 3))
            first = 'cls' if builder == '__new__' else 'self'
            returns = 'Any' if builder == '__new__' else 'None'
            names = [f'{module}_{name}_{builder.strip("_")}_{index}'
                     for index in range(count)]
            for parameter in names:
                result += ['@overload'] * (count > 1)
                result.append(f'def {builder}({first}, {parameter}: int)'
                              f' -> {returns}: ...')
            self.builders[key, builder] = names
        random.shuffle(result) if not any(
                '@' in line for line in result) else None
        return result

    def chain(self, key):
        yield key
        for base in self.bases.get(key, ()):
            yield from self.chain(base)

    def builder(self, key):
        """Names of parameters of overloads of the builder."""
        for base in self.chain(key):
            for builder in ('__init__', '__new__'):
                if (base, builder) in self.builders:
                    return self.builders[base, builder]
            if base == ('builtins', 'object'):
                break
        return None


def names(signature):
    plains = (signature.signatures
              if isinstance(signature, sigs.OverloadedSignature)
              else [signature])
    result = [[p.name for p in plain.parameters] for plain in plains]
    return None if result == [[]] else [name for name, in result]


def real(source):
    """Modules with classes inspected otherwise."""
    result = {name: types.ModuleType(name) for name in MODULES}
    for module, name in source.bases:
        def __init__(self, inspected): ...
        setattr(result[module], name, type(name, (), {
            '__module__': module, '__init__': __init__}))
    return result


def found(program, value):
    try:
        return names(program.signatures.from_callable(value))
    except Exception as error:
        return error


def hierarchies(report):
    for index in range(60 if report.thorough else 60):
        source = Hierarchy(report.random, report.random.randint(4, 14))
        stubs = world.World(source.texts, report.scratch
                            / f'hierarchy{index}').stubs()
        modules = real(source)
        program = world.program(stubs, {
            (module,): {(name,): [((module,), (name,))]
                        for other, name in source.bases if other == module}
            for module in MODULES})
        with world.imported(**modules):
            for module, name in source.bases:
                what = (f'{module}.{name} of ' + '\n'.join(
                        f'# {key}\n{text}'
                        for key, text in source.texts.items()))
                report.count('classes', what)
                expected = source.builder((module, name))
                actual = found(program, getattr(modules[module], name))
                if actual != expected:
                    report.violation('classes', what, expected, actual)
                if report.full:
                    return


def several(report):
    """Classes of the same name described twice or more."""
    for index in range(60 if report.thorough else 60):
        source = Hierarchy(report.random, report.random.randint(4, 14), False)
        stubs = world.World(source.texts, report.scratch
                            / f'several{index}').stubs()
        modules = real(source)
        keys = list(source.bases)
        for _ in range(4):
            chosen = report.random.sample(keys, min(
                    len(keys), report.random.choice((2, 2, 2, 3))))
            module, name = chosen[0]
            value = getattr(modules[module], name)
            what = (f'{chosen} being one class of ' + '\n'.join(
                    f'# {key}\n{text}'
                    for key, text in source.texts.items()))
            report.count('several names', what)
            program = world.program(stubs, {
                (module,): {(name,): [((module,), (name,))
                                      for module, name in chosen]}})
            saved = {key: getattr(modules[key[0]], key[1])
                     for key in chosen}
            try:
                for other, other_name in chosen:
                    setattr(modules[other], other_name, value)
                with world.imported(**modules):
                    actual = found(program, value)
            finally:
                for (other, other_name), old in saved.items():
                    setattr(modules[other], other_name, old)
            builders = [source.builder(key) for key in chosen]
            declared = [b for b in builders if b is not None]
            expected = (['inspected'] if any(b != declared[0]
                                             for b in declared[1:])
                        else declared[0] if declared else None)
            if actual != expected:
                report.violation('several names', what, expected, actual)
            if report.full:
                return


BUILDER = 'def __init__(self, {}: int) -> None: ...'
# texts of classes to be put in scopes along with names of parameters
# of their builders: the first ones by the scope
SCOPED = [
    ('class Plain: ...', None),
    ('class ByModule(Common): ...', {'': 'common', 'Outer': 'outer_common',
                                     'Outer.Deep': 'common',
                                     'Other': 'common'}),
    ('class BySibling(Sibling): ...', {'': 'sibling',
                                       'Outer': 'outer_sibling',
                                       'Outer.Deep': 'deep_sibling',
                                       'Other': 'sibling'}),
    ('class OfModule(Single): ...', 'single'),
    ('class Imported(Renamed): ...', 'b_common'),
    ('class ByDots(verif_b.Common): ...', 'b_common'),
    ('class Inner(verif_b.Common.Part): ...', 'part'),
    ('class ByPart(Renamed.Part): ...', 'part'),
    ('class OfStar(Starred): ...', 'starred'),
    ('class Builtin(int, Single): ...', 'x?'),
    ('class Subscripted(Kept[int]): ...', 'kept'),
    ('class ByObject(Kept[Made]): ...', 'kept'),
    ('class ByItem(Kept[Taken]): ...', 'kept'),
    ('class ByValue(Kept[value]): ...', 'kept'),
    ('class Row(NamedTuple):\n    one: int\n    two: str = ...',
     'one, two?'),
    ('class RowByDots(typing.NamedTuple):\n    one: int', 'one'),
    ('class RowByName(t.NamedTuple):\n    one: int = 0\n'
     '    two: int = ...\n    def method(self) -> int: ...', 'one?, two?'),
    ('class OwnRow(Tupled):\n    two: int', 'one, other?'),
    ('class InitialRow(Tupled):\n    ' + BUILDER.format('initial'),
     'initial'),
    ('class NotRow(verif_b.NamedTuple):\n    one: int', 'not_row'),
    ('class NotTyping(Tuples):\n    one: int', 'not_row'),
    ('class Empty(NamedTuple): ...', None),
]
OTHER_TEXT = f'''
class Common:
    {BUILDER.format('b_common')}
    class Part:
        {BUILDER.format('part')}
class Single:
    {BUILDER.format('b_single')}
class NamedTuple:
    {BUILDER.format('not_row')}
'''
STAR_TEXT = f'''
class Starred:
    {BUILDER.format('starred')}
class Single:
    {BUILDER.format('star_single')}
'''
HEADER = f'''
import typing
import typing as t
from typing import Callable, Generic, NamedTuple, TypeVar
import verif_b
from verif_b import Common as Renamed, NamedTuple as Tuples
from verif_c import *
V = TypeVar('V')
def maker() -> Callable[[], type]: ...
table: dict[type, type]
Made = maker()()
Taken = table[int](0)
value = maker(int).attribute
class Kept(Generic[V]):
    {BUILDER.format('kept')}
class Common:
    {BUILDER.format('common')}
class Sibling:
    {BUILDER.format('sibling')}
class Single:
    {BUILDER.format('single')}
class Tupled(NamedTuple):
    one: int
    other: str = ...
'''
SCOPES = {'': '', 'Outer': f'''
class Outer:
    class Common:
        {BUILDER.format('outer_common')}
    class Sibling:
        {BUILDER.format('outer_sibling')}
''', 'Outer.Deep': f'''
    class Deep:
        class Sibling:
            {BUILDER.format('deep_sibling')}
''', 'Other': '''
class Other:
    x: int
'''}

def scoped(report):
    """Bases of classes of any scope, named tuples."""
    chosen = {scope: report.random.sample(SCOPED, len(SCOPED))
              for scope in SCOPES}
    lines, expected = [HEADER], {}
    for scope, header in SCOPES.items():
        lines.append(header)
        indent = '    ' * len(scope.split('.')) if scope else ''
        for text, names_ in chosen[scope]:
            lines += [indent + line for line in text.split('\n')]
            path = text[len('class '):].split('(')[0].split(':')[0]
            if isinstance(names_, dict):
                names_ = names_[scope]
            expected[f'{scope}.{path}' if scope else path] = (
                names_ and names_.split(', '))
    text = '\n'.join(lines) + '\n'
    report.count('scopes', text)
    try:
        stubs = world.World({'verif_a': text, 'verif_b': OTHER_TEXT,
                             'verif_c': STAR_TEXT},
                            report.scratch / 'scoped').stubs()
    except (Exception, RecursionError) as error:
        report.violation('scopes', text, 'the stubs are parsed', error)
        return
    module = types.ModuleType('verif_a')
    classes = {}
    for path in ['Outer', 'Outer.Deep', 'Other', *expected]:
        *parents, name = path.split('.')
        def __init__(self, inspected): ...
        classes[path] = value = type(name, (), {
            '__module__': 'verif_a', '__qualname__': path,
            '__init__': __init__})
        setattr(classes['.'.join(parents)] if parents else module, name,
                value)
    program = world.program(stubs, {('verif_a',): {
        tuple(path.split('.')): [(('verif_a',), tuple(path.split('.')))]
        for path in expected}})
    with world.imported(verif_a=module):
        for path, parameters in expected.items():
            what = f'{path} of\n{text}'
            report.count('classes in scopes', what)
            try:
                actual = [
                    p.name + '?' * isinstance(p, sigs.OptionalParameter)
                    for p in program.signatures.from_callable(
                            classes[path]).parameters] or None
            except Exception as error:
                actual = error
            if actual != parameters:
                report.violation('classes in scopes', what, parameters,
                                 actual)


PROBES = [hierarchies, several, scoped]
