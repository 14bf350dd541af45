"""Random expressions of stubs along with the values Python gives them."""
import ast
import sys
import typing as t

from . import world

HERE, OTHER, ONLY, TWIN = ('verif_here', 'verif_other', 'verif_only',
                           'verif_twin')
TYPING = world.TYPING + '''
Literal: _SpecialForm
Tuple: _SpecialForm
Type: _SpecialForm
Final: _SpecialForm
'''
# modules of both kinds: the same text is the stub and the module
OTHER_TEXT = '''
from typing import Generic, TypeVar, Union
V = TypeVar('V')
number = 7
class Plain:
    class Inner:
        class Deep:
            pass
    inner_number = 3
class Box(Generic[V]):
    pass
Alias = Union[int, None, Plain]
'''
ONLY_TEXT = '''
from typing import Generic, NamedTuple, Optional, TypeVar, Union, Callable
from verif_other import Plain, Box
W = TypeVar('W')
class Hidden:
    class Inside:
        back: Hidden
        def method(self, x: Hidden = ...) -> Inside: ...
    field: int
    other: Hidden
    value = 3
    def method(self, x: Hidden, y: int = value) -> Inside: ...
    @staticmethod
    def plain(*args: Plain, key: Derived) -> None: ...
class Wrapper(Generic[W]):
    def unwrap(self) -> W: ...
class Pair(NamedTuple):
    first: int
    second: Hidden = ...
class Derived(Hidden, Plain): ...
Either = Union[Hidden, Plain, str]
Later = Optional[Box[Hidden]]
Function = Callable[[Hidden, int], Either]
limit = -5
pair = (1, 'a', -2)
'''
HIDDEN = ['Hidden', 'Derived', 'Pair']
# names assigned in the module which is not there, in the order of need
ASSIGNED = {'Either': 'Union[Hidden, Plain, str]',
            'Later': 'Optional[Box[Hidden]]',
            'Function': 'Callable[[Hidden, int], Either]',
            'limit': '-5', 'pair': "(1, 'a', -2)"}
# one more module which is not there: the same names of other objects
TWIN_TEXT = '''
from typing import Callable, Optional, Union
from verif_other import Plain
class Hidden:
    limit = 12
    value = 9
Either = Union[bytes, Plain]
Later = Optional[Plain]
Function = Callable[..., Hidden]
limit = 11
pair = ('b',)
'''
OTHERWISE = {'Either': 'Union[bytes, Plain]', 'Later': 'Optional[Plain]',
             'Function': 'Callable[..., Hidden]', 'limit': '11',
             'pair': "('b',)"}
IMPORTS = '''
import typing
import verif_other
import verif_other as vo
import verif_only
import verif_twin
from typing import (Any, Callable, Generic, Literal, Optional, Tuple, Type,
                    TypeVar, Union)
from verif_other import Alias, Box, Plain, number as count
from verif_only import (Derived, Either, Function, Hidden, Later, Pair,
                        limit, pair)
'''


class Skip(Exception):
    """The meaning of the expression is not settled by the property."""


def subscribed(value, index):
    try:
        return value[index]
    except TypeError:
        if hasattr(value, '__getitem__') or (
                isinstance(value, type)
                and hasattr(value, '__class_getitem__')):
            raise Skip
        return value


def united(a, b):
    try:
        return a | b
    except TypeError:
        try:
            return t.Union[a, b]
        except TypeError:
            raise Skip


class Spelled(ast.NodeTransformer):
    def visit_Subscript(self, node):
        self.generic_visit(node)
        index = node.slice
        if isinstance(index, getattr(ast, 'Index', ())):
            index = getattr(index, 'value', index)
        return self.call('@subscribed', node.value, index)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.BitOr):
            return self.call('@united', node.left, node.right)
        return node

    def call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])


def meaning(text, names):
    tree = Spelled().visit(ast.parse(text, mode='eval'))
    return eval(compile(ast.fix_missing_locations(tree), '<>', 'eval'),
                {**names, '@subscribed': subscribed, '@united': united})


class Expressions:
    """Texts of expressions in terms of the names of a scope."""

    def __init__(self, random, types, values):
        self.random, self.types, self.values = random, types, values

    def type(self, depth=3):
        random = self.random
        if depth == 0 or random.random() < .2:
            return random.choice(self.types)
        form = random.choice([
            'Optional', 'Union', 'tuple', 'tuple...', 'dict', 'list', 'bar',
            'bar', 'Callable', 'Callable...', 'Literal', 'Type', 'text',
            'None', 'Box', 'not generic', 'typing', 'Tuple', 'empty'])
        one = self.type(depth - 1)
        many = ', '.join(self.type(depth - 1)
                         for _ in range(random.randint(1, 3)))
        several = ', '.join(self.type(depth - 1)
                            for _ in range(random.randint(2, 4)))
        return {
            'Optional': f'Optional[{one}]', 'Union': f'Union[{several}]',
            'tuple': f'tuple[{many}]', 'tuple...': f'tuple[{one}, ...]',
            'Tuple': f'Tuple[{several}]', 'empty': 'tuple[()]',
            'dict': f'dict[str, {one}]', 'list': f'list[{one}]',
            'bar': f'{one} | {self.type(depth - 1)}',
            'Callable': f'Callable[[{many}], {one}]',
            'Callable...': f'Callable[..., {one}]',
            'Literal': f'Literal[{self.literals()}]',
            'Type': f'Type[{self.random.choice(self.types)}]',
            'text': repr(random.choice(('Later', 'x.y', 'int'))),
            'None': 'None', 'Box': f'{random.choice(("Box", "vo.Box"))}'
                                   f'[{one}]',
            'not generic': f'Plain[{one}]',
            'typing': f'typing.Optional[{one}]'}[form]

    def literals(self):
        random = self.random
        return ', '.join(random.choice(("'a'", '1', '-1', 'True', "b'b'",
                                        'None', '0', '+3'))
                         for _ in range(random.randint(1, 3)))

    def value(self, depth=3):
        random = self.random
        if depth == 0 or random.random() < .3:
            return random.choice([
                *self.values, *self.values, '1', '-1', '0', "'text'", "''",
                "b'b'", '1.5', '-2.5', 'True', 'None', '2j', '-3j', '+4',
                '- -5', '...'])
        form = random.choice(['tuple', 'list', 'dict', 'bits', 'call', 'one',
                              'neg', 'type', 'nested', 'item', 'keywords'])
        parts = [self.value(depth - 1) for _ in range(random.randint(0, 3))]
        listed = ', '.join(parts)
        bits = [random.choice(('6', '3', '12', '5', '1', '10'))
                for _ in range(3)]
        return {
            'tuple': f'({listed}{"," * (len(parts) == 1)})',
            'list': f'[{listed}]',
            'dict': '{' + ', '.join(
                    f'{random.choice(("1", "2", chr(39) + "k" + chr(39)))}: '
                    f'{p}' for p in parts) + '}',
            'bits': f'({bits[0]} {random.choice("|&^")} {bits[1]}) '
                    f'{random.choice("|&^")} {bits[2]}',
            'call': f"int({random.choice(self.strings)})",
            'keywords': random.choice((
                "int('11', base=2)", "dict(a=1, b='x')",
                f'dict(a={self.value(depth - 1)})',
                f'dict(b={random.choice(self.values)}, '
                f'c={random.choice(self.types)})',
                "dict([(1, 2)], c=(3,))", "vo.Plain.Inner.Deep.mro()[0]")),
            'one': f'({self.value(depth - 1)},)',
            'neg': f'-{random.choice(bits)}', 'type': self.type(2),
            'nested': f'[{self.value(depth - 1)}]',
            'item': "('a', 'b', 'c')[1]"}[form]

    strings = ("'12'", "'-3'", "5")


TYPES = ['int', 'str', 'bytes', 'float', 'Any', 'Plain', 'Plain.Inner',
         'Box', 'Hidden', 'Derived', 'Alias', 'Either', 'Later', 'vo.Plain',
         'verif_other.Plain.Inner', 'Function', 'vo.Plain.Inner.Deep',
         'Hidden.Inside', 'verif_only.Hidden', 'Pair',
         'Derived.Inside', 'verif_only.Hidden.Inside', 'deep', 'Own', 'Shadow',
         'verif_twin.Either', 'verif_twin.Later', 'verif_twin.Function',
         'verif_twin.Hidden']
VALUES = ['count', 'limit', 'pair', 'vo.number', 'Plain.inner_number',
          'verif_twin.limit', 'verif_twin.pair', 'verif_twin.Hidden.limit']


KIND = '    Kind = Optional[tuple[Own, Plain]]'


class Source:
    """Stub of functions and methods with random annotations, defaults."""

    def __init__(self, random):
        self.random = random
        self.lines = [IMPORTS]
        self.real = ''
        self.spelled = {}
        here = ['deep = Plain.Inner.Deep',
                'class Shadow:', '    class Own: ...', '    class Plain: ...',
                '    member = 4', '    class Deeper:', '        class Own: ...',
                '        class Box: ...']
        inner = Expressions(random, [*TYPES, 'Own', 'Own', 'Plain', 'Kind', 'Kind'],
                            [*VALUES, 'member'])
        outer = Expressions(random, TYPES, VALUES)
        deeper = Expressions(random, [*TYPES, 'Own', 'Own', 'Plain', 'Plain',
                                      'Box', 'Box', 'Box'], VALUES)
        deepest = [(f'method{index}', self.declared(
                f'Shadow.Deeper.method{index}', deeper, f'method{index}'))
            for index in range(5)]
        methods = []
        for index in range(5):
            methods.append((f'method{index}', self.declared(
                    f'Shadow.method{index}', inner, f'method{index}')))
        functions = [self.declared(f'function{index}', outer,
                                   f'function{index}')
                     for index in range(10)]
        # known only from the stub
        here.insert(here.index('    class Deeper:'), KIND)
        self.lines += ['class Own: ...', *here]
        here.remove(KIND)
        for _, text in deepest:
            self.lines += ['        @staticmethod', f'        {text}']
        for _, text in methods:
            self.lines += ['    @staticmethod', f'    {text}']
        self.lines += functions
        self.stub = '\n'.join(self.lines) + '\n'
        self.real += 'class Own: pass\n' + '\n'.join(here) + '\n' + ''.join(
                f'        @staticmethod\n        def {name}(*args): pass\n'
                for name, _ in deepest) + ''.join(
                f'    @staticmethod\n    def {name}(*args): pass\n'
                for name, _ in methods) + ''.join(
                f'def function{index}(*args): pass\n'
                for index in range(len(functions)))

    def declared(self, path, expressions, name):
        annotation, default, returns = (
            expressions.type(), expressions.value(), expressions.type())
        if default == '...':
            # means that the default is not told
            default = '(...,)'
        self.spelled[path] = annotation, default, returns
        return f'def {name}(x: {annotation} = {default}) -> {returns}: ...'


def same(a, b):
    """The same type and value, parts in the same order."""
    if a is b:
        return True
    if type(a) is not type(b) or repr(a) != repr(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return (list(a) == list(b)
                and all(same(a[k], b[k]) for k in a))
    return a == b


def names_of(program, here, other):
    """Objects the names of the scopes stand for: outer, inner."""
    names = {**vars(t), 'Any': t.Any, 'typing': t, 'verif_other': other,
             'vo': other, **{name: getattr(other, name) for name in (
                 'Plain', 'Box', 'Alias')}, 'count': other.number,
             'Own': here.Own, 'Shadow': here.Shadow, 'int': int, 'str': str,
             'bytes': bytes, 'float': float, 'list': list, 'dict': dict,
             'tuple': tuple, 'deep': other.Plain.Inner.Deep}
    hidden = world.types.ModuleType(ONLY)
    namespace = {}
    for name in HIDDEN:
        value = program.evaluation.evaluate_qualified_path(
                (ONLY,), (name,), namespace)
        setattr(hidden, name, value)
        names[name] = value
    for name, text in ASSIGNED.items():
        names[name] = meaning(text, names)
        setattr(hidden, name, names[name])
    names['verif_only'] = hidden
    twin = names['verif_twin'] = world.types.ModuleType(TWIN)
    twin.Hidden = program.evaluation.evaluate_qualified_path(
            (TWIN,), ('Hidden',), {})
    for name, text in OTHERWISE.items():
        setattr(twin, name, meaning(text, {**names, 'Hidden': twin.Hidden}))
    inner = {**names, 'Own': here.Shadow.Own, 'Plain': here.Shadow.Plain,
             'Kind': t.Optional[tuple[here.Shadow.Own,
                                      here.Shadow.Plain]], 'member': 4}
    # scopes of enclosing classes are not visible
    deeper = {**names, 'Own': here.Shadow.Deeper.Own,
              'Box': here.Shadow.Deeper.Box}
    return [names, inner, deeper]


def is_made(names):
    """Classes known only from stubs are the declared ones."""
    hidden, derived = names['Hidden'], names['Derived']
    twin = names['verif_twin'].Hidden
    return (twin is not hidden and (twin.limit, twin.value) == (12, 9)
            and derived.__bases__ == (hidden, names['Plain'])
            and hidden.__name__ == 'Hidden' and hidden.value == 3
            and isinstance(hidden.Inside, type)
            and isinstance(vars(hidden)['plain'], staticmethod)
            and issubclass(names['Pair'], tuple))


def module(name, text, **names):
    result = world.types.ModuleType(name)
    result.__dict__.update(names)
    exec(text, result.__dict__)
    return result
