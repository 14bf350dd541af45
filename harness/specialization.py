"""Random generic classes with what is made of them by arguments."""
import ast
import copy
import random as _random

from . import world

TYPING = world.TYPING + 'class ParamSpec: ...\n'
VARIABLES = '''
from typing import TypeVar
T = TypeVar('T')
W = TypeVar('W')
class X:
    class Y: ...
'''
PACKAGE = 'class Z: ...\n'
SUB = '''
from typing import TypeVar
L = TypeVar('L')
class M: ...
'''
BUILTINS = ['int', 'str', 'list', 'bool', 'float', 'dict', 'bytes', 'object',
            'property']
GENERICS = ['verif_b', 'verif_d']
CHILDREN = ['verif_c', 'verif_e']


def chain(node):
    """Path of a dotted name."""
    if isinstance(node, ast.Name):
        return node.id,
    if isinstance(node, ast.Attribute):
        path = chain(node.value)
        return path and (*path, node.attr)
    return None


def names(node):
    """Maximal dotted names which are read."""
    if isinstance(node, (ast.Name, ast.Attribute)) and chain(node):
        if isinstance(node.ctx, ast.Load):
            yield node
    else:
        for child in ast.iter_child_nodes(node):
            yield from names(child)


def annotate(node, meanings):
    for name in names(node):
        name.meaning = meanings[chain(name)]
    return node


def substitute(node, table):
    """Copy with parameters replaced."""
    if (isinstance(node, (ast.Name, ast.Attribute)) and chain(node)
            and isinstance(node.ctx, ast.Load)):
        return copy.deepcopy(table.get(chain(node), node))
    result = copy.copy(node)
    for field, value in ast.iter_fields(node):
        if isinstance(value, ast.AST):
            value = substitute(value, table)
        elif isinstance(value, list):
            value = [substitute(element, table)
                     if isinstance(element, ast.AST) else element
                     for element in value]
        setattr(result, field, value)
    return result


class Class:
    def __init__(self, module, path):
        self.module, self.path = module, path
        self.parameters = []        # dotted names
        self.bases = []             # generic class and its arguments
        self.members = {}           # nodes by paths in the class

    def expected(self):
        result = dict(self.members)
        for generic, arguments in self.bases:
            table = dict(zip(generic.parameters, arguments))
            for path, nodes in generic.expected().items():
                result.setdefault(path, [substitute(node, table)
                                         for node in nodes])
        return result


class Module:
    def __init__(self, name):
        self.name = name
        self.path = tuple(name.split('.'))
        self.lines = []
        self.meanings = {(name,): (('builtins',), (name,))
                         for name in BUILTINS}
        self.classes = []           # generic ones
        self.types = [('int',), ('str',)]
        self.variables = []
        self.specifications = []
        self.spare = None


class Program:
    def __init__(self, random: _random.Random):
        self.random = random
        self.count = 0
        self.modules = {}
        self.children = []
        for name in GENERICS + CHILDREN:
            module = self.modules[name] = Module(name)
            self.fill(module)
        self.texts = {name: '\n'.join(module.lines) + '\n'
                      for name, module in self.modules.items()}

    @property
    def text(self):
        return '\n'.join(f'# {name}\n{text}'
                         for name, text in self.texts.items())

    def world(self, folder):
        return world.World({'typing': TYPING, 'verif_v': VARIABLES,
                            'verif_k.': PACKAGE, 'verif_k.sub': SUB,
                            **self.texts}, folder)

    def fill(self, module):
        random = self.random
        letter = module.name[-1]
        lines, meanings = module.lines, module.meanings

        def imported(statement, name, *meaning):
            lines.append(statement)
            meanings[name] = meaning

        lines.append('from typing import (TypeVar, Generic, Protocol, '
                     'Callable, ParamSpec, overload)')
        for name in ('TypeVar', 'Generic', 'Protocol', 'Callable',
                     'ParamSpec', 'overload'):
            meanings[name,] = ('typing',), (name,)
        for name in random.sample(['T', 'U', 'V', 'W'],
                                  random.randint(2, 4)):
            if random.random() < .2:
                imported(f'from verif_v import T as {name}', (name,),
                         ('verif_v',), ('T',))
                if ('verif_v', 'T') in meanings or any(
                        meanings[other] == (('verif_v',), ('T',))
                        for other in module.variables):
                    continue
            else:
                imported(f'{name} = TypeVar("{name}")', (name,),
                         module.path, (name,))
            module.variables.append((name,))
        if random.random() < .5:
            imported('import verif_v', ('verif_v',), ('verif_v',), ())
            meanings['verif_v', 'X'] = ('verif_v',), ('X',)
            meanings['verif_v', 'X', 'Y'] = ('verif_v',), ('X', 'Y')
            meanings['verif_v', 'W'] = ('verif_v',), ('W',)
            module.types += [('verif_v', 'X'), ('verif_v', 'X', 'Y')]
            module.variables.append(('verif_v', 'W'))
        if random.random() < .4:
            imported('import verif_k.sub', ('verif_k',), ('verif_k',), ())
            meanings['verif_k', 'sub', 'M'] = ('verif_k', 'sub'), ('M',)
            meanings['verif_k', 'sub', 'L'] = ('verif_k', 'sub'), ('L',)
            module.types.append(('verif_k', 'sub', 'M'))
            module.variables.append(('verif_k', 'sub', 'L'))
        if random.random() < .4:
            imported(f'from verif_v import X as X_{letter}',
                     (f'X_{letter}',), ('verif_v',), ('X',))
            module.types.append((f'X_{letter}',))
        if random.random() < .5:
            imported('P = ParamSpec("P")', ('P',), module.path, ('P',))
            module.specifications.append(('P',))
        imported(f'S_{letter} = TypeVar("S_{letter}")', (f'S_{letter}',),
                 module.path, (f'S_{letter}',))
        module.spare = f'S_{letter}',
        is_child = module.name in CHILDREN
        for name in (['A', 'B'] if is_child
                     else [f'A_{letter}', f'B_{letter}']):
            imported(f'class {name}: ...', (name,), module.path, (name,))
            module.types.append((name,))
        if not is_child:
            for _ in range(random.randint(1, 3)):
                self.add_generic(module)
        else:
            for _ in range(random.randint(1, 3)):
                self.add_child(module)

    def fresh(self, prefix):
        self.count += 1
        return f'{prefix}{self.count}'

    def sources(self, module):
        """Spelling of generic classes usable in the module."""
        result = []
        for name in GENERICS:
            for cls in self.modules[name].classes:
                if name == module.name:
                    result.append((cls.path, cls))
                else:
                    own, = cls.path
                    meaning = cls.module.path, cls.path
                    form = self.random.randint(0, 2)
                    if form == 0:
                        line = f'from {name} import {own}'
                        path = own,
                    elif form == 1:
                        line = f'from {name} import {own} as {own}_as'
                        path = f'{own}_as',
                    else:
                        line = f'import {name}'
                        path = name, own
                        module.meanings[name,] = cls.module.path, ()
                    module.meanings[path] = meaning
                    if line not in module.lines:
                        module.lines.append(line)
                    result.append((path, cls))
            if name == module.name:
                break
        return result

    def expression(self, module, variables, depth=2, types=None):
        random = self.random
        types = module.types if types is None else types
        form = random.choice(['type', 'type', 'variable', 'variable',
                              'variable', 'list', 'dict', 'union',
                              'callable', 'none', 'text', 'many',
                              'variables'])
        if form == 'variables' and depth:
            if len(variables) > 1:
                return random.choice([
                    '{} | {}', 'dict[{}, {}]', 'Callable[[{}], {}]',
                    'list[{} | None] | {}']).format(*map(
                            '.'.join, random.sample(variables, 2)))
            form = 'variable'
        nested = (lambda: self.expression(module, variables, depth - 1,
                                          types))
        if form == 'variable' and variables:
            return '.'.join(random.choice(variables))
        if depth and form == 'list':
            return f'list[{nested()}]'
        if depth and form == 'dict':
            return f'dict[{nested()}, {nested()}]'
        if depth and form == 'union':
            return f'{nested()} | {nested()}'
        if depth and form == 'many':
            return f'list[dict[{nested()}, {nested()}] | {nested()}]'
        if depth and form == 'callable':
            return f'Callable[[{nested()}], {nested()}]'
        if form == 'none':
            return 'None'
        if form == 'text':
            return "'int'"
        return '.'.join(random.choice(types))

    def variables_of(self, texts, module):
        result = []
        known = module.variables + module.specifications
        for text in texts:
            for name in names(ast.parse(text, mode='eval')):
                if chain(name) in known and chain(name) not in result:
                    result.append(chain(name))
        return result

    def arguments(self, module, generic, variables, types=None):
        result = []
        for parameter in generic.parameters:
            if parameter in generic.module.specifications:
                result.append('P' if ('P',) in module.specifications
                              and ('P',) in variables else
                              self.random.choice(['[int, str]', '...',
                                                  '[]']))
            else:
                result.append(self.expression(module, variables, 2, types))
        if len(generic.parameters) == 1 and result[0] == '[]':
            result = ['[int]']
        return result

    def add_generic(self, module):
        random = self.random
        name = self.fresh('G')
        cls = Class(module, (name,))
        variables = random.sample(module.variables,
                                  random.randint(1, min(3, len(
                                          module.variables))))
        if module.specifications and random.random() < .4:
            variables += module.specifications
            random.shuffle(variables)
        plain = [variable for variable in variables
                 if variable not in module.specifications]
        bases, texts = [], []
        for path, generic in random.sample(*(lambda found: (
                found, random.randint(0, min(2, len(found)))))(
                        self.sources(module))):
            arguments = self.arguments(module, generic, plain + [
                variable for variable in variables
                if variable in module.specifications])
            bases.append(f'{".".join(path)}[{", ".join(arguments)}]')
            cls.bases.append((generic, [
                annotate(ast.parse(argument, mode='eval').body,
                         module.meanings) for argument in arguments]))
        used = self.variables_of(bases, module)
        if not bases or random.random() < .6:
            declared = used + [variable for variable in variables
                               if variable not in used]
            random.shuffle(declared)
            cls.parameters = declared
            parameters = ', '.join(map('.'.join, declared))
            bases.insert(random.randint(0, len(bases)),
                         random.choice(['Generic', 'Protocol'])
                         + f'[{parameters}]')
        else:
            cls.parameters = used
        if not cls.parameters:
            return
        module.lines.append(f'class {name}({", ".join(bases)}):')
        module.meanings[name,] = module.path, (name,)
        self.members(cls, module, (), [
            parameter for parameter in cls.parameters
            if parameter not in module.specifications], [
            parameter for parameter in cls.parameters
            if parameter in module.specifications], 2)
        module.classes.append(cls)

    def members(self, cls, module, scope, variables, specifications, depth):
        random = self.random
        for _ in range(random.randint(1, 4)):
            name = self.fresh('m')
            form = random.choice(['def', 'def', 'def', 'overload',
                                  'annotated', 'value', 'property', 'class',
                                  'assignment'])
            indent = ' ' * (4 * len(scope) + 4)
            pool = [*variables, *variables, *variables, module.spare]
            expression = (lambda: self.expression(module, pool, 2))
            if form == 'class' and depth:
                module.lines.append(f'{indent}class {name}:')
                cls.members[(*scope, name)] = []
                self.members(cls, module, (*scope, name), variables,
                             specifications, depth - 1)
                continue
            nodes = []
            for _ in range(random.randint(2, 3) if form == 'overload'
                           else 1):
                if form == 'annotated':
                    text = f'{name}: {expression()}'
                elif form == 'value':
                    text = f'{name}: {expression()} = ...'
                elif form == 'assignment':
                    text = f'{name} = list[{expression()}]'
                else:
                    parameters = ['self']
                    for other in range(random.randint(0, 2)):
                        parameters.append(f'p{other}: {expression()}')
                    if specifications and random.random() < .5:
                        parameters.append(f'f: Callable[P, {expression()}]')
                    if random.random() < .3:
                        parameters.append(
                                f'd: {expression()} = '
                                + '.'.join(random.choice(module.types)))
                    if random.random() < .3:
                        parameters.append(f'*args: {expression()}')
                        parameters.append(f'k: {expression()}')
                        parameters.append(f'**kwargs: {expression()}')
                    text = (f'def {name}({", ".join(parameters)}) -> '
                            f'{expression()}: ...')
                    if random.random() < .2:
                        text = 'async ' + text
                    if form == 'overload':
                        text = '@overload\n' + text
                    if form == 'property':
                        text = '@property\n' + text
                module.lines += [indent + line for line in text.split('\n')]
                node, = ast.parse(text).body
                nodes.append(annotate(node, {**module.meanings}))
            cls.members[(*scope, name)] = nodes

    def add_child(self, module):
        random = self.random
        lines = module.lines
        sources = self.sources(module)
        if not sources:
            return
        name = self.fresh('C')
        indent, scope, meanings = '', (), dict(module.meanings)
        if random.random() < .3:
            outer = self.fresh('O')
            lines.append(f'class {outer}:')
            indent, scope = '    ', (outer,)
            if random.random() < .7:
                lines.append('    class A: ...')
                meanings['A',] = module.path, (outer, 'A')
        children = [(Class(module, (*scope, name)), indent, meanings)]
        if scope and random.random() < .7:
            # the same bases in other scope
            children.append((Class(module, (self.fresh('C'),)), '',
                             module.meanings))
        bases = []
        for path, generic in random.sample(
                sources, random.randint(1, min(3, len(sources)))):
            arguments = self.arguments(
                    module, generic, module.variables
                    + module.specifications if random.random() < .3 else [],
                    module.types[2:] * 3 + module.types)
            bases.append(f'{".".join(path)}[{", ".join(arguments)}]')
            for cls, _, scope_meanings in children:
                cls.bases.append((generic, [
                    annotate(ast.parse(argument, mode='eval').body,
                             scope_meanings) for argument in arguments]))
        for cls, indent, _ in children:
            lines.append(f'{indent}class {cls.path[-1]}'
                         f'({", ".join(bases)}):')
            lines.append(f'{indent}    def own(self) -> None: ...')
            self.children.append(cls)
