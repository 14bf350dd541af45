import collections
import dataclasses
import enum
import inspect
import types
import typing as t

import typing_extensions as te

from contracts.lookup import Described, Lookup, OfClass
from contracts.obtaining import Builtin, Located, PLAIN, Raw
from harness import callables, sigs, world

from .common import TERMINATION

PROOFS = [Raw, *PLAIN, Builtin, Located, Lookup, Described,
          OfClass]
SOURCES = ('paradigm/_core/signatures.py', 'paradigm/_core/catalog.py')
ASSUMPTIONS = (TERMINATION,)


def signature_of(value):
    from paradigm.base import signature_from_callable
    return sigs.outcome(signature_from_callable, value)


def expected_of(value):
    """Parameters and the returned annotation by inspect."""
    raw = inspect.signature(value)
    returns = (te.Self if isinstance(value, type)
               else t.Any if raw.return_annotation is raw.empty
               else raw.return_annotation)
    return ([callables.described(p) for p in raw.parameters.values()],
            returns)


def compare(report, form, what, value, call=signature_of):
    try:
        parameters, returns = expected_of(value)
    except (TypeError, ValueError):
        return
    report.count(form, what)
    result = call(value)
    if not isinstance(result, sigs.PlainSignature):
        report.violation(form, what, (parameters, returns), repr(result))
        return
    found = [callables.actual(p) for p in result.parameters]
    if not callables.same_parameters(parameters, found):
        report.violation(form, what, parameters, found)
    elif not callables.same_object(returns, result.returns):
        report.violation(form, f'{what}: returned annotation', returns,
                         result.returns)


class Point(t.NamedTuple):
    x: int
    y: str = 'y'


@dataclasses.dataclass
class Data:
    a: int
    b: t.List[int] = dataclasses.field(default_factory=list)
    c: 'str' = ''


class Color(enum.Enum):
    RED = 1

    def darker(self, amount: int = 1) -> 'Color':
        pass


class Table(dict):
    def get(self, key, default=None, /, *, deep: bool = False):
        pass

    def __init__(self, other: int) -> None:
        pass


class Failure(ValueError):
    def __init__(self, code: int, *rest: str):
        pass


class Explicit:
    __signature__ = inspect.Signature(
            [inspect.Parameter('x', inspect.Parameter.KEYWORD_ONLY,
                               default=1)])


class Text(str):
    def __new__(cls, value: bytes, encoding: str = 'utf-8'):
        pass

    def join(self, values: t.Iterable[str], *, last: str = ''):
        pass


class OwnType(type):
    def __init__(cls, name, bases, namespace, /, **kwargs):
        pass


class Plain:
    pass


SIMPLE = {
    'named tuple class': Point, 'data class': Data,
    'class with a signature': Explicit, 'exception class': Failure,
    'bound method of an exception': Failure.__init__.__get__(Failure(1)),
    'dictionary class': Table, 'overridden method': Table.get,
    'bound overridden method': Table(1).get, 'text class': Text,
    'overridden method of text': Text.join,
    'bound overridden method of text': str.__new__(Text).join,
    'method of enumeration': Color.darker,
    'bound method of enumeration': Color.RED.darker,
    'metaclass': OwnType, 'plain class': Plain,
    'namedtuple': collections.namedtuple('Pair', 'a b', defaults=[None]),
    'builder of a named tuple': Point._make,
}


def nameless(value, **changes):
    for name, x in changes.items():
        setattr(value, name, x)
    return value


def lost(first, /, second: int = 4, *rest, third: str, **other) -> float:
    pass


SIMPLE.update({
    'function without a module': nameless(
            lambda a, b=1, *, c: 0, __module__=None),
    'function of no module named as other': nameless(
            lambda a, b=1, *, c: 0, __module__=None, __qualname__='len'),
    'annotated function without a module': nameless(
            types.FunctionType(lost.__code__, {}, 'lost', (3,)),
            __module__=None, __annotations__=lost.__annotations__),
    'function with an unknown module': nameless(
            lambda a, b=1, *, c: 0, __module__='verif_missing.module'),
    'function with an empty module': nameless(
            lambda a, b=1, *, c: 0, __module__=''),
})


def forms(report):
    for form, value in SIMPLE.items():
        compare(report, form, form, value)
    for index in range(150 if report.thorough else 40):
        text, found = callables.functions(report.random)
        for form, value in found.items():
            compare(report, form, f'{form} declared as {text}', value)
            if report.full:
                return


# (module, qualified name) of objects of the library
LIBRARY = [('builtins', 'len'), ('builtins', 'int'), ('builtins', 'dict.get'),
           ('builtins', 'object.__init__'), ('builtins', 'sum'),
           ('collections', 'OrderedDict'), ('collections', 'Counter'),
           ('collections', 'Counter.update'), ('functools', 'reduce'),
           ('functools', 'partial'), ('itertools', 'chain'),
           ('itertools', 'chain.from_iterable'), ('os', 'fspath'),
           ('posix', 'getpid'), ('posixpath', 'join'), ('json', 'dumps'),
           ('json.encoder', 'JSONEncoder'),
           ('json.encoder', 'JSONEncoder.default'),
           ('inspect', 'signature'), ('typing', 'cast'),
           ('typing', 'TypeVar'), ('io', 'open'), ('_io', 'StringIO'),
           ('types', 'ModuleType'), ('threading', 'Thread'),
           ('threading', 'Thread.start'), ('enum', 'Enum'),
           ('re', 'compile'), ('operator', 'add'), ('_operator', 'add'),
           ('dataclasses', 'field'), ('contextlib', 'contextmanager'),
           ('contextlib', 'closing'), ('subprocess', 'Popen'),
           ('_collections', 'OrderedDict'), ('_functools', 'reduce'),
           ('__main__', 'main'), ('__main__', 'len'), ('builtins', 'print')]


def impostors(module, name):
    def function(first, *, second: int = 5) -> str:
        pass

    async def coroutine(one, two):
        pass

    class Class:
        def __init__(self, only: bytes) -> None:
            pass

        def method(self, a, b=2):
            pass

        @classmethod
        def made(cls, c, *, d):
            pass

    class Made:
        def __new__(cls, what):
            pass

    last = name.rpartition('.')[2]
    for value in (function, coroutine, Class, Made, Class.method,
                  Class.made.__func__):
        value.__module__ = module
        value.__qualname__ = name
        value.__name__ = last
    instance = object.__new__(Class)
    return {'function': function, 'coroutine function': coroutine,
            'class': Class, 'class with a constructor': Made,
            'function of a class': Class.method,
            'bound method': instance.method, 'class method': Class.made}


def namesakes(report):
    """Same module and qualified name as those of the library."""
    import importlib
    for module, name in LIBRARY:
        if module != '__main__':
            try:
                importlib.import_module(module)
            except ImportError:
                continue
        for form, value in impostors(module, name).items():
            compare(report, f'namesake: {form}',
                    f'{form} named as {module}.{name}', value)
    for name in ['dict', 'OrderedDict', 'list', 'Counter', 'len', 'chain',
                 'main', 'Thread', 'partial']:
        # the same name in other modules
        for module in ['verif_user', '__main__', 'tests', 'builtins_',
                       'verif.builtins', 'paradigm', 'collections_']:
            for form, value in impostors(module, name).items():
                compare(report, f'same name: {form}',
                        f'{form} named as {module}.{name}', value)


STUB = '''
def function(stub_parameter: int) -> int: ...
class Class:
    def __init__(self, stub_parameter: int) -> None: ...
    def method(self, stub_parameter: int) -> int: ...
    @classmethod
    def made(cls, stub_parameter: int) -> int: ...
class Empty: ...
'''
REAL = '''
def function(stub_parameter, real=1): pass
class Class:
    def __init__(self, stub_parameter, real=1): pass
    def method(self, stub_parameter, real=1): pass
    @classmethod
    def made(cls, stub_parameter, real=1): pass
class Empty: pass
'''


def library_of_stubs(report):
    """
    A module of generated stubs: its own objects get signatures of stubs,
    others with the same names do not.
    """
    stubs = world.World({'verif_library': STUB},
                        report.scratch / 'stubs').stubs()
    module = types.ModuleType('verif_library')
    exec(REAL, module.__dict__)
    other = types.ModuleType('verif_library')
    exec(REAL, other.__dict__)
    paths = {('function',): 'function', ('Class',): 'Class',
             ('Class', 'method'): 'Class.method',
             ('Class', 'made'): 'Class.made', ('Empty',): 'Empty'}
    indexed = {('verif_library',): {
        path: [(('verif_library',), path)] for path in paths}}
    for known in ({}, indexed):
        program = world.program(stubs, known)
        call = getattr(program.signatures, 'from_callable')
        if not known:
            name = '_stdlib_modules_paths'
            if not hasattr(program.signatures, name):
                report.notes.append('indexing of modules is other')
                continue
            setattr(program.signatures, name, {('verif_library',)})
        with world.imported(verif_library=module):
            for text in ('function', 'Class', 'Class.method'):
                value = eval(text, dict(vars(module)))
                report.count('library', text)
                result = sigs.outcome(call, value)
                names = ([p.name for p in result.parameters]
                         if isinstance(result, sigs.PlainSignature)
                         else repr(result))
                if ('stub_parameter' not in names or 'real' in names):
                    report.violation('library', text,
                                     'the signature of the stub', names)
            for text in ('function', 'Class', 'Class.method', 'Class.made',
                         'Empty', 'Class(1).method'):
                value = eval(text, dict(vars(other)))
                compare(report, 'namesake of generated library',
                        f'other {text}', value,
                        lambda value: sigs.outcome(call, value))


PROBES = [forms, namesakes, library_of_stubs]
