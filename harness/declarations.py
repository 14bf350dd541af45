"""Random declarations of stubs along with the signatures they spell."""
import typing as t

from typing_extensions import Self

from . import sigs

K = sigs.K
MODULE = 'verif_module'
TYPES = {'int': int, 'str': str, 'bytes': bytes, 'float': float,
         'object': object, 'bool': bool, 'list': list, 'dict': dict}
DEFAULTS = {'5': 5, "'text'": 'text', 'None': None, 'True': True, '0': 0,
            "''": '', '-1': -1, '1.5': 1.5, "b'b'": b'b', '()': (),
            'False': False}
NAMES = ['a', 'b', '__c', 'x', 'y', '_z', 'key', 'value', 'args', 'kwargs',
         'first', 'second', 'name', 'this']


class Named:
    """Object of the module to be found by its name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def found(value, module):
    """Expected value with the names standing for objects of the module."""
    if isinstance(value, Named):
        return eval(value.name, dict(vars(module)))
    if isinstance(value, (list, tuple)) and type(value) in (list, tuple):
        return type(value)(found(element, module) for element in value)
    return value


class Declared:
    """Declared parameters: kind, name, optionality, default, annotation."""

    def __init__(self, draw, first=None, types=TYPES):
        names = iter(draw.sample(NAMES, len(NAMES)))
        self.parts, self.parameters = [], []
        optional = False
        before = draw.choice((0, 0, 0, 1, 2))
        positional = draw.choice((0, 1, 1, 2, 3))
        if first is not None:
            if before:
                before += 1
            else:
                positional += 1
        total = before + positional
        for index in range(total):
            if index == 0 and first is not None:
                text, parameter = first, (K.POSITIONAL_ONLY, first, False,
                                          (), t.Any)
            else:
                optional = optional or draw.random() < .35
                text, parameter = one(draw, K.POSITIONAL_ONLY, next(names),
                                      optional, types)
            self.parts.append(text)
            self.parameters.append(parameter)
            if index + 1 == before:
                self.parts.append('/')
        keyword = draw.choice((0, 0, 1, 2, 3))
        if draw.random() < .35:
            text, parameter = one(draw, K.VARIADIC_POSITIONAL, next(names),
                                  False, types)
            self.parts.append('*' + text)
            self.parameters.append(parameter)
        elif keyword:
            self.parts.append('*')
        for _ in range(keyword):
            text, parameter = one(draw, K.KEYWORD_ONLY, next(names),
                                  draw.random() < .5, types)
            self.parts.append(text)
            self.parameters.append(parameter)
        if draw.random() < .35:
            text, parameter = one(draw, K.VARIADIC_KEYWORD, next(names),
                                  False, types)
            self.parts.append('**' + text)
            self.parameters.append(parameter)
        self.returns = t.Any
        self.tail = ''
        if draw.random() < .8:
            name = draw.choice(list(types))
            self.tail = f' -> {name}'
            self.returns = types[name]

    def text(self, name, indent='', before=()):
        lines = [*before, f'def {name}({", ".join(self.parts)}){self.tail}:'
                          ' ...']
        return ''.join(f'{indent}{line}\n' for line in lines)


def one(draw, kind, name, optional, types):
    text, annotation = name, t.Any
    if draw.random() < .75:
        key = draw.choice(list(types))
        text += f': {key}'
        annotation = types[key]
    default = ()
    if optional:
        key = draw.choice(['...', *DEFAULTS])
        text += f' = {key}'
        if key != '...':
            default = (DEFAULTS[key],)
    variadic = kind in (K.VARIADIC_POSITIONAL, K.VARIADIC_KEYWORD)
    return text, (kind, name, variadic or optional, default, annotation)


def replaced_first(parameters, annotation):
    kind, name, _, _, _ = parameters[0]
    return [(K.POSITIONAL_ONLY, name, False, (), annotation),
            *parameters[1:]]


def overloads(draw):
    return draw.choice((1, 1, 2, 3))


class Module:
    """
    Text of the stub, text of the module itself and signatures by
    expressions giving callables of the module.
    """

    def __init__(self, draw):
        self.stub = ('from typing import overload, Callable, TypeVar\n')
        self.real = ''
        self.expected = {}
        self.draw = draw
        for index in range(3):
            self.function(f'function{index}')
        for index in range(2):
            self.of_class(f'Class{index}', '', '')
        self.annotated()
        self.named()

    def declarations(self, name, indent, decorators, first=None,
                     types=TYPES):
        count = overloads(self.draw)
        result = []
        for _ in range(count):
            declared = Declared(self.draw, first, types)
            before = [*(['@overload'] if count > 1 else []), *decorators]
            self.draw.shuffle(before)
            text = declared.text(name, indent, before)
            if self.draw.random() < .15:
                text = text.replace('def ', 'async def ')
            self.stub += text
            result.append(declared)
        return result

    def function(self, name):
        declared = self.declarations(name, '', [])
        self.real += f'def {name}(*real, **others): pass\n'
        self.expected[name] = [(d.parameters, d.returns) for d in declared]

    def of_class(self, name, indent, owner):
        draw = self.draw
        path = f'{owner}{name}'
        self.stub += f'{indent}class {name}:\n'
        self.real += f'{indent}class {name}:\n'
        inner = indent + '    '
        builder = draw.choice(('__init__', '__new__', '__init__', None))
        if builder is None:
            # at least something in the body
            self.stub += f'{inner}field: int\n'
        else:
            declared = self.declarations(builder, inner, [], 'self')
            self.expected[path] = [
                (d.parameters[1:], Self if builder == '__init__'
                 else d.returns) for d in declared]
            if builder == '__init__':
                # the initializer on its own is a usual method
                self.expected[f'{path}.{builder}'] = [
                    (replaced_first(d.parameters, Self), d.returns)
                    for d in declared]
        self.real += (f'{inner}def __init__(self, *real, **others): pass\n')
        for kind, first, annotation in (
                ('', 'self', Self), ('classmethod', 'cls', t.Type[Self]),
                ('staticmethod', None, None)):
            method = f'{kind}_method'
            declared = self.declarations(method, inner,
                                         [f'@{kind}'] if kind else [], first)
            self.real += (f'{inner}@staticmethod\n' if draw.random() < .5
                          else '') + (
                    f'{inner}def {method}(*real, **others): pass\n')
            self.expected[f'{path}.{method}'] = [
                (d.parameters if annotation is None
                 else replaced_first(d.parameters, annotation), d.returns)
                for d in declared]
        if not owner and draw.random() < .6:
            self.of_class('Inner', inner, f'{path}.')

    def annotated(self):
        """A name annotated as a callable."""
        self.given('annotated', self.callable_type(), '')

    def given(self, name, type_, before):
        text, signature = type_
        self.stub += f'{before}{name}: {text}\n'
        self.real += f'def {name}(*real, **others): pass\n'
        self.expected[name] = [signature]

    def callable_type(self, types=TYPES):
        """Text of a type of callables and the signature it spells."""
        draw = self.draw
        arguments = [draw.choice(list(types))
                     for _ in range(draw.randint(0, 3))]
        returns = draw.choice(list(types))
        listed = draw.random() < .7
        inner = f'[{", ".join(arguments)}]' if listed else '...'
        parameters = [
            (K.POSITIONAL_ONLY, f'_{index}', False, (), types[argument])
            for index, argument in enumerate(arguments)
        ] if listed else [
            (K.VARIADIC_POSITIONAL, 'args', True, (), t.Any),
            (K.VARIADIC_KEYWORD, 'kwargs', True, (), t.Any)]
        return f'Callable[{inner}, {returns}]', (parameters, types[returns])

    def named(self):
        """Names annotated with names of callable types."""
        draw = self.draw
        text, signature = self.callable_type()
        self.given('aliased', ('Alias', signature), f'Alias = {text}\n')
        # names of the class are to be found first
        hiding = draw.sample(list(TYPES), 3)
        types = {**TYPES, **{key: Named(f'Holder.{key}') for key in hiding}}
        body = ''.join(f'    class {key}: ...\n' for key in hiding)
        text, signature = self.callable_type(types)
        self.stub += f'class Holder:\n{body}    Nested = {text}\n'
        self.real += f'class Holder:\n{body}'
        self.given('of_class', ('Holder.Nested', signature), '')
        types = {key: Named(f'Callee.{key}') if key in hiding else value
                 for key, value in TYPES.items()}
        self.stub += f'class Callee:\n{body}'
        self.real += f'class Callee:\n{body}'
        declared = self.declarations('__call__', '    ', [], 'self', types)
        self.stub += 'called: Callee\n'
        self.real += 'def called(*real, **others): pass\n'
        self.expected['called'] = [(d.parameters[1:], d.returns)
                                   for d in declared]
        text, signature = self.callable_type()
        self.given('bound', ('Bound', signature),
                   f"Bound = TypeVar('Bound', bound={text})\n")
        options = [self.callable_type()
                   for _ in range(draw.randint(2, 3))]
        texts = ', '.join(text for text, _ in options)
        self.stub += (f"Chosen = TypeVar('Chosen', {texts})\n"
                      'chosen: Chosen\n')
        self.real += 'def chosen(*real, **others): pass\n'
        self.expected['chosen'] = [signature for _, signature in options]
