import array
import bisect
import collections
import contextlib
import datetime
import decimal
import functools
import io
import itertools
import json
import operator
import pathlib
import random
import re
import string
import threading
import types

from contracts.binding import Bind
from contracts.obtaining import Builtin, Method, Partial, Wrapper
from contracts.overloading import Bind as BindOverloaded
from harness import callables, sigs

from .common import (MODELS, NAMES_ARE_STRINGS, SIGNATURE_PRECONDITION,
                     TERMINATION)

PROOFS = [Partial, Method, Builtin, Wrapper, Bind, BindOverloaded]
SOURCES = ('paradigm/_core/signatures.py', MODELS)
ASSUMPTIONS = (SIGNATURE_PRECONDITION, NAMES_ARE_STRINGS, TERMINATION)


def signature_of(value):
    from paradigm.base import signature_from_callable
    return sigs.outcome(signature_from_callable, value)


def alternatives(signature):
    return (list(signature.signatures)
            if isinstance(signature, sigs.OverloadedSignature)
            else [signature])


def parts(signature):
    """Everything a signature consists of."""
    return [(sigs.described(plain.parameters),
             [p.annotation for p in plain.parameters], plain.returns)
            for plain in alternatives(signature)]


def is_signature(value):
    return isinstance(value, (sigs.PlainSignature, sigs.OverloadedSignature))


def same(left, right):
    return (is_signature(left) and is_signature(right)
            and callables.same_object(frozen(parts(left)),
                                      frozen(parts(right))))


def frozen(value):
    return (tuple(map(frozen, value)) if isinstance(value, (list, tuple))
            else value)


def expected_of_bound(signature, args, kwargs):
    """Alternatives which expect the arguments, bound one by one."""
    return [plain.bind(*args, **kwargs)
            for plain in alternatives(signature)
            if plain.expects(*args, **kwargs)]


def check_bound(report, form, what, value, function, args, kwargs):
    signature = signature_of(function)
    if not is_signature(signature):
        return
    report.count(form, what)
    expected = expected_of_bound(signature, args, kwargs)
    actual = signature_of(value)
    if not expected:
        if type(actual) is not TypeError:
            report.violation(form, what, 'TypeError', repr(actual))
        return
    good = (is_signature(actual)
            and len(alternatives(actual)) == len(expected)
            and isinstance(actual, sigs.OverloadedSignature) == (
                    len(expected) > 1)
            and all(same(a, b)
                    for a, b in zip(alternatives(actual), expected)))
    if not good:
        report.violation(form, what, list(map(str, expected)),
                         str(actual) if is_signature(actual)
                         else repr(actual))


class Own(functools.partial):
    """Partial objects of subclasses are not flattened."""


def partials_of_functions(report):
    returns = None
    shapes = list(sigs.shapes(1, 2, 1))
    report.random.shuffle(shapes)
    for shape in shapes if report.thorough else shapes[:120]:
        f = sigs.function(shape)
        text = sigs.shape_text(shape)
        calls = list(sigs.arguments(shape, max_keywords=2))
        for args, kwargs in report.random.sample(calls, min(len(calls), 12)):
            what = f'partial({text}, *{args}, **{kwargs})'
            report.count('partial objects of functions', what)
            actual = signature_of(functools.partial(f, *args, **kwargs))
            if not sigs.extendable(shape, f, args, kwargs):
                if type(actual) is not TypeError:
                    report.violation('partial object', what, 'TypeError',
                                     repr(actual))
                continue
            expected = sigs.bound(shape, args, kwargs)
            if (not isinstance(actual, sigs.PlainSignature)
                    or sigs.described(actual.parameters) != expected):
                report.violation('partial object', what, expected,
                                 repr(actual))
            else:
                nested(report, shape, f, args, kwargs, expected, what)
            if report.full:
                return


def nested(report, shape, f, args, kwargs, expected, what):
    """The same arguments given in two steps."""
    cut = report.random.randint(0, len(args))
    names = list(kwargs)
    report.random.shuffle(names)
    middle = report.random.randint(0, len(names))
    if any(kind is sigs.K.POSITIONAL_ONLY and name in kwargs
           for kind, name, _ in shape):
        return
    first = {name: kwargs[name] for name in names[:middle]}
    second = {name: kwargs[name] for name in names[middle:]}
    for inner_type, outer_type in itertools.product(
            (functools.partial, Own), repeat=2):
        # keywords first make the rest keyword-only
        inner = inner_type(f, *args[:cut], **({} if cut < len(args)
                                              else first))
        outer = outer_type(inner, *args[cut:], **(
                {**first, **second} if cut < len(args) else second))
        report.count('nested partial objects', what)
        actual = signature_of(outer)
        if (not isinstance(actual, sigs.PlainSignature)
                or sigs.described(actual.parameters) != expected):
            report.violation(
                    'nested partial object',
                    f'{what} as {inner_type.__name__} of {cut} and '
                    f'{outer_type.__name__}', expected, repr(actual))


CALLABLES = [max, min, sum, dict.get, dict.pop, sorted, range, slice, int,
             str, dict, bytes, open, print, iter, next, getattr, pow, round,
             zip, map, filter, enumerate, isinstance, list, tuple, set,
             functools.reduce, itertools.chain, itertools.islice,
             itertools.repeat, operator.add, operator.itemgetter,
             operator.attrgetter, collections.OrderedDict.pop,
             collections.Counter, collections.deque, collections.ChainMap,
             json.dumps, re.compile, re.sub, datetime.datetime,
             datetime.timedelta, decimal.Decimal, threading.Thread,
             bisect.bisect, random.Random.choice, str.split, str.join,
             list.pop, list.sort, bytes.decode, io.StringIO, pathlib.Path,
             contextlib.closing, type, object, complex, float, bool,
             list.__init__, dict.update, dict.__init__, list.__getitem__,
             array.array, string.Template, threading.Event.wait, abs, vars]
KEYWORDS = ['key', 'default', 'start', 'base', 'encoding', 'errors', 'sep',
            'end', 'file', 'reverse', 'iterable', 'initial', 'strict', 'mod',
            'ndigits', 'value', 'x', 'mode', 'target', 'name', 'daemon',
            'indent', 'times', 'self', 'maxsplit', 'timeout', 'days', 'year',
            'flags', 'cls']


def partials_of_library(report):
    for index in range(4 if report.thorough else 1):
        for function in CALLABLES:
            signature = signature_of(function)
            if not is_signature(signature):
                continue
            names = [p.name for plain in alternatives(signature)
                     for p in plain.parameters]
            for size in range(4):
                for chosen in ([], report.random.sample(
                        KEYWORDS, 1), [report.random.choice(names or ['x'])]):
                    args = tuple(map(object, range(0))) + tuple(range(size))
                    kwargs = {name: sigs.Marker(name) for name in chosen}
                    what = (f'partial of {name_of(function)} with '
                            f'*{args}, **{kwargs}')
                    for kind in (functools.partial, Own):
                        check_bound(report, 'partial objects of the library',
                                    what, kind(function, *args, **kwargs),
                                    function, args, kwargs)
                if report.full:
                    return
            inner = Own(function, 1)
            for args, kwargs in (((2,), {}), ((), {'key': 3}), ((), {})):
                check_bound(report, 'nested partial objects of the library',
                            f'{args}, {kwargs} of 1 of {name_of(function)}',
                            Own(inner, *args, **kwargs), inner, args, kwargs)


def name_of(function):
    return getattr(function, '__qualname__', repr(function))


INSTANCES = [
    [], {}, 'text', b'bytes', bytearray(b'a'), {1}, frozenset({1}), (1,), 5,
    True, 1.5, 1j, range(3), slice(1), Ellipsis, iter([]),
    collections.OrderedDict(), collections.deque(), collections.Counter(),
    collections.defaultdict(list), collections.ChainMap(), io.StringIO(),
    io.BytesIO(), threading.Thread(), threading.Event(), pathlib.Path('.'),
    datetime.datetime(2020, 1, 1), datetime.date(2020, 1, 1),
    datetime.timedelta(1), decimal.Decimal(1), re.compile('a'),
    random.Random(1), array.array('i'), string.Template(''),
    string.Formatter(), json.JSONEncoder(), json.JSONDecoder(),
    functools.partial(int), itertools.count(), itertools.chain(),
    operator.itemgetter(1), types.SimpleNamespace(), object(), ValueError(1),
    memoryview(b''), enumerate([]), types.MappingProxyType({}),
    contextlib.ExitStack(), property()]
KINDS = (types.BuiltinMethodType, types.MethodWrapperType, types.MethodType)


def of_class(instance, name):
    for cls in type(instance).__mro__:
        try:
            return vars(cls)[name]
        except KeyError:
            pass


def methods(report):
    for instance in INSTANCES:
        for name in dir(type(instance)):
            function = of_class(instance, name)
            if not isinstance(function, (
                    types.FunctionType, types.MethodDescriptorType,
                    types.WrapperDescriptorType)):
                continue
            value = getattr(instance, name, None)
            if (not isinstance(value, KINDS)
                    or getattr(value, '__self__', None) is not instance):
                continue
            check_bound(report, 'methods of instances',
                        f'method {name} of {instance!r}'[:200], value,
                        function, (instance,), {})
            if report.full:
                return
    for name in ('append', 'pop', '__init__', '__len__'):
        # partial objects of methods
        value = getattr([], name)
        for args in ((), (1,), (1, 2)):
            check_bound(report, 'partial objects of methods',
                        f'{name} of a list with {args}',
                        functools.partial(value, *args), value, args, {})


class List(list):
    def append(self, x, y, *, z):
        pass

    def __init__(self, first, second):
        pass

    def __len__(self, other):
        pass

    def inherited(self):
        return [(super().append, list.append),
                (super().__init__, list.__init__),
                (super().__len__, list.__len__),
                (super().extend, list.extend), (self.extend, list.extend),
                (self.append, List.append), (self.__init__, List.__init__),
                (self.__len__, List.__len__), (super().pop, list.pop)]


class Ordered(collections.OrderedDict):
    def pop(self, x):
        pass

    def move_to_end(self, a, b, c):
        pass

    def inherited(self):
        return [(super().pop, collections.OrderedDict.pop),
                (super().move_to_end, collections.OrderedDict.move_to_end),
                (super().get, dict.get), (self.pop, Ordered.pop),
                (self.move_to_end, Ordered.move_to_end)]


class Worker(threading.Thread):
    def join(self, a, b, timeout=5):
        pass

    def inherited(self):
        return [(super().join, threading.Thread.join),
                (self.join, Worker.join),
                (super().start, threading.Thread.start)]


class Below(List):
    def append(self, q):
        pass

    def inherited(self):
        return [(super().append, List.append),
                (super(List, self).append, list.append),
                (self.append, Below.append)] + super().inherited()[1:5]


def anything(*args, **kwargs):
    pass


class Owner:
    def method(self, a, *, b=1):
        pass

    renamed = anything
    private = lambda self, x: 0

    def __call__(self, c):
        pass


def inherited(report):
    owner = Owner()
    pairs = [pair for instance in (
        List(1, 2), Ordered(), Worker(), Below(1, 2))
        for pair in instance.inherited()]
    pairs += [(owner.method, Owner.method), (owner.renamed, anything),
              (owner.private, Owner.private),
              (types.MethodType(anything, owner), anything),
              (types.MethodType(Owner.method, 5), Owner.method),
              (owner.__call__, Owner.__call__),
              (types.MethodType(sigs.function(
                      [(sigs.K.POSITIONAL_OR_KEYWORD, 'x', True),
                       (sigs.K.KEYWORD_ONLY, 'k', False)]), owner),
               sigs.function([(sigs.K.POSITIONAL_OR_KEYWORD, 'x', True),
                              (sigs.K.KEYWORD_ONLY, 'k', False)]))]
    for value, function in pairs:
        check_bound(report, 'overridden and other methods',
                    f'{value!r} of {name_of(function)}'[:200], value,
                    function, (value.__self__,), {})


PROBES = [partials_of_functions, partials_of_library, methods, inherited]
