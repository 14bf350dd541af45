"""Random text of a stub with what is declared by it when it is executed."""
import ast
import random as _random
import sys

from . import world

NAMES = list('abcdefghkmnpqr')
CLASSES = list('ABCDEG')
OTHER = '''
def o1(x: int) -> int: ...
def o2() -> None: ...
class O:
    def m(self) -> int: ...
    class P:
        v: int
'''
PACKAGE = 'def z1() -> int: ...\n'
SUB = '''
def s1() -> int: ...
class S:
    def m(self, x: int) -> str: ...
'''
MODULES = {'verif_o': OTHER, 'verif_k.': PACKAGE, 'verif_k.sub': SUB}
DECLARED = {('verif_o',): [('o1',), ('o2',), ('O',), ('O', 'm'), ('O', 'P'),
                           ('O', 'P', 'v')],
            ('verif_k',): [('z1',)],
            ('verif_k', 'sub'): [('s1',), ('S',), ('S', 'm')]}
PLACES = ['verif_h', 'verif_k.h', 'verif_j.']
LAST = 'last_declared'
ANNOTATIONS = ['int', 'str | None', "'int'", 'list[int]', 'None',
               'tuple[int, ...]']
DEFAULTS = ['...', '1', 'None', "'x'", '-1']
VALUES = ['...', '1', "'text'", 'None', '[1]', 'int | str', '(1, 2)',
          "len('a')", 'list[int]', '{}']


class Scope:
    def __init__(self, path):
        self.path = path
        self.kinds = {}


class Text:
    def __init__(self, random: _random.Random):
        self.random = random
        self.place = random.choice(PLACES)
        self.is_package = self.place.endswith('.')
        self.module = tuple(self.place.rstrip('.').split('.'))
        self.lines = []
        self.nodes = {}             # declarations by paths
        self.classes = set()
        self.tuples = set()         # classes of named tuples
        self.definitions = {}
        self.references = {}        # what names of the module stand for
        self.spelled = set()        # every name of the module scope
        self.stars = []
        self.sys = [('sys.version_info', 'sys.platform')]
        self.lines.append('import sys')
        self.references['sys',] = ('sys',), ()
        if random.random() < .5:
            self.lines.append('import sys as system')
            self.references['system',] = ('sys',), ()
            self.sys.append(('system.version_info', 'system.platform'))
        if random.random() < .5:
            self.lines.append('from sys import version_info, platform as on')
            self.references['version_info',] = ('sys',), ('version_info',)
            self.references['on',] = ('sys',), ('platform',)
            self.sys.append(('version_info', 'on'))
        self.lines.append('from sys import maxsize as truth')
        self.references['truth',] = ('sys',), ('maxsize',)
        self.lines.append('from typing import NamedTuple, overload, '
                          'TYPE_CHECKING as falsity')
        self.references['falsity',] = ('typing',), ('TYPE_CHECKING',)
        self.references['NamedTuple',] = ('typing',), ('NamedTuple',)
        self.references['overload',] = ('typing',), ('overload',)
        self.body(Scope(()), '', 0, True, random.randint(3, 12))
        self.declare_function(Scope(()), '', LAST, True)
        self.text = '\n'.join(self.lines) + '\n'

    def body(self, scope, indent, depth, active, count):
        random = self.random
        size = len(self.lines)
        forms = [self.function, self.function, self.function, self.again,
                 self.assignment, self.annotated, self.class_,
                 self.conditional, self.conditional, self.nothing]
        if not scope.path:
            forms += [self.alias, self.alias, self.import_, self.import_]
        for _ in range(count):
            random.choice(forms)(scope, indent, depth, active)
        if len(self.lines) == size:
            self.lines.append(indent + '...')

    def nothing(self, scope, indent, depth, active):
        self.lines.append(indent + self.random.choice(
                ['...', 'pass', '"""text"""', "__all__ += ['a']"]))

    def fresh(self, scope, names, kind, active):
        free = [name for name in names
                if not active or name not in scope.kinds]
        if not free:
            return None
        name = self.random.choice(free)
        if active:
            scope.kinds[name] = kind
        if not scope.path:
            self.spelled.add(name)
        return name

    def record(self, scope, name, line, indent, active):
        self.lines += [indent + part for part in line.split('\n')]
        if active:
            path = (*scope.path, name)
            node, = ast.parse(line).body
            self.nodes.setdefault(path, []).append(node)
            self.define(path)

    def define(self, path):
        scope = self.definitions
        for part in path:
            scope = scope.setdefault(part, {})

    def function(self, scope, indent, depth, active):
        name = self.fresh(scope, NAMES, 'def', active)
        if name is not None:
            for _ in range(self.random.choice((1, 1, 1, 2, 3))):
                self.declare_function(scope, indent, name, active)

    def declare_function(self, scope, indent, name, active):
        random = self.random
        parameters = ['self'] if scope.path else []
        for other in random.sample(['i', 'j'], random.randint(0, 2)):
            parameters.append(f'{other}: {random.choice(ANNOTATIONS)}')
        if random.random() < .4:
            parameters.append(f't: {random.choice(ANNOTATIONS)} = '
                              + random.choice(DEFAULTS))
        if random.random() < .2:
            parameters.append('*args: int')
        line = (('async ' if random.random() < .2 else '')
                + f'def {name}({", ".join(parameters)}) -> '
                + random.choice(ANNOTATIONS) + ':')
        line += random.choice([' ...', ' ...', '\n    pass',
                               '\n    """text"""\n    a = 1',
                               '\n    def b(): ...\n    class A: ...'])
        if random.random() < .2:
            line = '@overload\n' + line
        self.record(scope, name, line, indent, active)

    def again(self, scope, indent, depth, active):
        """Another declaration of the same kind."""
        if not active:
            return
        names = [name for name, kind in scope.kinds.items()
                 if kind in ('def', 'assign', 'annotated')]
        if not names:
            return
        name = self.random.choice(names)
        if scope.kinds[name] == 'def':
            self.declare_function(scope, indent, name, active)
        else:
            self.record(scope, name, self.assigned(
                    scope.kinds[name], [name]), indent, active)

    def assigned(self, kind, names):
        random = self.random
        if kind == 'assign':
            return ' = '.join([*names, random.choice(VALUES)])
        result = f'{names[0]}: {random.choice(ANNOTATIONS)}'
        if random.random() < .5:
            result += f' = {random.choice(VALUES)}'
        return result

    def assignment(self, scope, indent, depth, active):
        names = [self.fresh(scope, NAMES, 'assign', active)
                 for _ in range(self.random.choice((1, 1, 2)))]
        names = list(dict.fromkeys(filter(None, names)))
        if not names:
            return
        line = self.assigned('assign', names)
        self.lines.append(indent + line)
        if active:
            for name in names:
                self.nodes.setdefault((*scope.path, name), []).append(
                        ast.parse(line).body[0])
                self.define((*scope.path, name))

    def annotated(self, scope, indent, depth, active):
        name = self.fresh(scope, NAMES, 'annotated', active)
        if name is not None:
            self.record(scope, name, self.assigned('annotated', [name]),
                        indent, active)

    def class_(self, scope, indent, depth, active):
        if depth > 2:
            return
        # also as names of other scopes
        name = self.fresh(scope, [*CLASSES, 'a'], 'class', active)
        if name is None:
            return
        path = (*scope.path, name)
        bases = ['', '', '(object)', '(int)', '(metaclass=type)']
        if not scope.path:
            bases.append('(NamedTuple)')
        base = self.random.choice(bases)
        self.lines.append(f'{indent}class {name}{base}:')
        if active:
            self.define(path)
            self.classes.add(path)
            if base == '(NamedTuple)':
                self.tuples.add(path)
        self.body(Scope(path), indent + '    ', depth + 1, active,
                  self.random.randint(0, 5))

    def condition(self, depth=0):
        random = self.random
        version, platform = random.choice(self.sys)
        form = random.random()
        if depth < 2 and form < .1:
            return f'not ({self.condition(depth + 1)})'
        if depth < 2 and form < .3:
            return (f'({self.condition(depth + 1)}) '
                    + random.choice(('and', 'or'))
                    + f' ({self.condition(depth + 1)})')
        if form < .4:
            return random.choice(('truth', 'falsity', 'sys.maxsize'))
        if form < .6:
            return (f'{platform} ' + random.choice(('==', '!=')) + ' '
                    + repr(random.choice((sys.platform, 'win32'))))
        minor = random.choice((6, 8, sys.version_info[1],
                               sys.version_info[1] + 1, 20))
        if form < .7:
            return f'(3, {minor}) <= {version} < (4,)'
        return (f'{version} ' + random.choice(('>=', '<', '>=', '<', '>'))
                + f' (3, {minor})')

    def conditional(self, scope, indent, depth, active):
        if depth > 2:
            return
        random = self.random
        names = {'truth': True, 'falsity': False, 'sys': sys, 'system': sys, 'on': sys.platform,
                 'version_info': sys.version_info}
        taken = False
        for index in range(random.choice((1, 1, 2, 3))):
            text = self.condition()
            self.lines.append(indent + ('elif ' if index else 'if ') + text
                              + ':')
            now = not taken and bool(eval(text, dict(names)))
            self.body(scope, indent + '    ', depth + 1, active and now,
                      random.randint(1, 3))
            taken = taken or now
        if random.random() < .6:
            self.lines.append(indent + 'else:')
            self.body(scope, indent + '    ', depth + 1,
                      active and not taken, random.randint(1, 3))

    def alias(self, scope, indent, depth, active):
        """Names assigned to what is declared, imported or built in."""
        random = self.random
        values = {path: (self.module, path)
                  for path in [*self.nodes, *self.classes]}
        values.update(self.references)
        values.update({('len',): (('builtins',), ('len',)),
                       ('int',): (('builtins',), ('int',)),
                       (LAST,): (self.module, (LAST,))})
        value = random.choice(list(values))
        names = [self.fresh(scope, NAMES, 'alias', active)
                 for _ in range(random.choice((1, 1, 2)))]
        names = list(dict.fromkeys(filter(None, names)))
        if not names:
            return
        spelled = '.'.join(value)
        if random.random() < .3:
            del names[1:]
            self.lines.append(f'{indent}{names[0]}: object = {spelled}')
        else:
            self.lines.append(indent + ' = '.join([*names, spelled]))
        if active:
            for name in names:
                self.references[name,] = values[value]

    def import_(self, scope, indent, depth, active):
        random = self.random
        module = random.choice(list(DECLARED))
        name = '.'.join(module)
        form = random.choice(['plain', 'as', 'from', 'from', 'star'])
        if form == 'plain':
            self.lines.append(f'{indent}import {name}')
            self.spelled.add(module[0])
            if active:
                for size in range(len(module)):
                    self.references[module[:size + 1]] = (module[:size + 1],
                                                          ())
        elif form == 'as':
            alias = self.fresh(scope, NAMES, 'import', active)
            if alias is not None:
                self.lines.append(f'{indent}import {name} as {alias}')
                if active:
                    self.references[alias,] = module, ()
        elif form == 'star':
            self.lines.append(f'{indent}from {name} import *')
            if active:
                self.stars.append(module)
                for path in DECLARED[module]:
                    self.references[path] = module, path
            self.spelled.update(path[0] for path in DECLARED[module])
        else:
            if self.module[0] == module[0] and random.random() < .7:
                name = '.' + '.'.join(module[1:])
            values = [path for path in DECLARED[module] if len(path) == 1]
            if module == ('verif_k',):
                values.append(('sub',))
            parts = []
            for value, in random.sample(values,
                                        random.randint(1, len(values))):
                referent = (((*module, value), ()) if value == 'sub'
                            else (module, (value,)))
                alias = None
                if random.random() < .5:
                    alias = self.fresh(scope, NAMES, 'import', active)
                parts.append(value if alias is None
                             else f'{value} as {alias}')
                self.spelled.add(alias or value)
                if active:
                    self.references[alias or value,] = referent
            self.lines.append(f'{indent}from {name} import '
                              + ', '.join(parts))

    def world(self, folder):
        texts = {**MODULES, self.place: self.text}
        if self.place == 'verif_j.':
            texts.setdefault('verif_j.x', '')
        return world.World(texts, folder)
