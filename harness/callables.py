"""User-defined callables of every form with their parameters described."""
import functools
import inspect
import itertools
import types
import typing as t

from . import sigs, values

K = sigs.K
ODD_DEFAULTS = (None, 0, '', False, [], (), Ellipsis, NotImplemented, 'text',
                int, 2.5, {}, object())
ODD_ANNOTATIONS = (None, int, t.Any, 'text', '', 0, Ellipsis, t.List[int],
                   t.Optional[str], False, (), list, type(None), object())


def described(parameter):
    """What the parameter has to be according to ``inspect``."""
    empty = inspect.Parameter.empty
    kind = K(int(parameter.kind))
    annotation = (t.Any if parameter.annotation is empty
                  else parameter.annotation)
    variadic = kind in (K.VARIADIC_POSITIONAL, K.VARIADIC_KEYWORD)
    has_default = parameter.default is not empty
    return (kind, parameter.name, variadic or has_default,
            (parameter.default,) if has_default else (), annotation)


def actual(parameter):
    optional = isinstance(parameter, sigs.OptionalParameter)
    return (parameter.kind, parameter.name, optional,
            ((parameter.default,) if optional and parameter.has_default
             else ()), parameter.annotation)


def same_object(a, b):
    """Identity, equality for what is made anew on every request."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return (len(a) == len(b)
                and all(map(same_object, a, b)))
    return a is b or (type(a) is type(b) and a == b)


def same_parameters(expected, found):
    return (len(expected) == len(found)
            and all(same_object(a, b) for a, b in zip(expected, found)))


def build(draw, kinds=None):
    """
    Text of parameters and a namespace of their annotations and defaults.
    """
    namespace, parts = {}, []
    positional_only = draw.randint(0, 2)
    positional = draw.randint(0, 2)
    keyword = draw.randint(0, 2)
    rest, options = draw.random() < .4, draw.random() < .4
    names = iter(draw.sample(['a', 'b', 'x', 'y', 'cls', 'k', 'name', 'args',
                              'kwargs', '_private'], 10))
    optional = False

    def part(prefix='', default=None):
        nonlocal optional
        name = next(names)
        text = prefix + name
        if draw.random() < .5:
            key = f'A{len(namespace)}'
            namespace[key] = draw.choice(ODD_ANNOTATIONS)
            text += f': {key}'
        if default is None:
            return text
        if default or draw.random() < .4:
            key = f'D{len(namespace)}'
            namespace[key] = draw.choice(ODD_DEFAULTS)
            text += f' = {key}'
            optional = True
        return text

    for _ in range(positional_only):
        parts.append(part('', optional))
    if positional_only:
        parts.append('/')
    for _ in range(positional):
        parts.append(part('', optional))
    if rest:
        parts.append(part('*'))
    elif keyword:
        parts.append('*')
    for _ in range(keyword):
        optional = False
        parts.append(part('', False))
    if options:
        parts.append(part('**'))
    returns = ''
    if draw.random() < .6:
        namespace['R'] = draw.choice(ODD_ANNOTATIONS)
        returns = ' -> R'
    return parts, returns, namespace


def functions(draw, module='verif_user'):
    """Callables of one random declaration: text and callables."""
    parts, returns, namespace = build(draw)
    text = f'({", ".join(parts)}){returns}'
    plain = ', '.join(parts)
    own = (f'self, /, {plain.replace("/, ", "", 1).replace("/", "", 1)}'
           if '/' in parts else f'self, {plain}')
    own = own.rstrip(', ')
    if own.endswith('/'):
        own = own[:-1].rstrip(', ') + ', /'
    owned = own.replace('self', 'klass', 1)
    code = f'''
def function{text}: pass
async def coroutine{text}: pass
def generator{text}: yield
async def agenerator{text}: yield
class Base:
    def method({own}){returns}: pass
    async def amethod({own}){returns}: pass
    @classmethod
    def cmethod({owned}){returns}: pass
    @staticmethod
    def smethod{text}: pass
    def __init__({own}){returns}: pass
class Derived(Base):
    class Inner(Base):
        pass
class Made:
    def __new__({owned}){returns}: return object.__new__(Made)
    def method({own}){returns}: pass
class DerivedMade(Made): pass
class Both(Base):
    def __new__(klass, *args, **kwargs): return object.__new__(klass)
class Meta(type):
    def method({owned}){returns}: pass
    def __call__({owned}){returns}: pass
class WithMeta(metaclass=Meta): pass
class Bare: pass
def factory():
    def local{text}: pass
    class Local:
        def method({own}){returns}: pass
        def __init__({own}){returns}: pass
    return local, Local
'''
    namespace['__name__'] = module
    exec(code, namespace)
    local, Local = namespace['factory']()
    base = object.__new__(namespace['Base'])
    derived = object.__new__(namespace['Derived'])
    made = object.__new__(namespace['Made'])
    no_annotations = ', '.join(p.split(':')[0].split(' =')[0] + (
        ' =' + p.split('=')[1] if '=' in p else '') for p in parts)
    result = {
        'function': namespace['function'],
        'coroutine function': namespace['coroutine'],
        'generator function': namespace['generator'],
        'asynchronous generator function': namespace['agenerator'],
        'lambda': eval(f'lambda {no_annotations}: 0', namespace),
        'local function': local,
        'local class': Local,
        'method of a local class': object.__new__(Local).method,
        'function of a class': namespace['Base'].method,
        'bound method': base.method,
        'bound coroutine method': base.amethod,
        'inherited bound method': derived.method,
        'bound method of a class with a constructor': made.method,
        'class method': namespace['Base'].cmethod,
        'inherited class method': namespace['Derived'].cmethod,
        'class method of an instance': derived.cmethod,
        'static method': namespace['Base'].smethod,
        'static method of an instance': base.smethod,
        'class with an initializer': namespace['Base'],
        'derived class': namespace['Derived'],
        'nested class': namespace['Derived'].Inner,
        'class with a constructor': namespace['Made'],
        'class derived from one with a constructor':
            namespace['DerivedMade'],
        'class with both': namespace['Both'],
        'class with a metaclass': namespace['WithMeta'],
        'method of a metaclass': namespace['WithMeta'].method,
        'bound initializer': base.__init__,
        'bound method of own making': types.MethodType(
                namespace['function'], 5) if parts and parts[0] not in (
                '*',) and not parts[0].startswith('**') else base.method,
        'bound lambda': types.MethodType(eval(
                f'lambda klass, *rest: 0', namespace), base),
        'bare class': namespace['Bare'],
        'wrapped function': wrapped(namespace['function']),
    }
    return text, result


def wrapped(function):
    @functools.wraps(function)
    def wrapper(*args, **kwargs):
        return function(*args, **kwargs)
    return wrapper
