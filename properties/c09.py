import copy
import pickle
import typing as t

from contracts import pickling
from harness import samples, sigs, values

from .c10 import strictly
from .common import MODELS, NAMES_ARE_STRINGS

PROOFS = pickling.proofs()
SOURCES = (MODELS,)
ASSUMPTIONS = (NAMES_ARE_STRINGS,
               'equality of parameters and signatures with the same parts: '
               'contracts discharged for C07')

K = sigs.K


def pickled(protocol, dumps=pickle.dumps, loads=pickle.loads):
    return lambda v: loads(dumps(v, protocol))


WAYS = {'copy': copy.copy, 'deepcopy': copy.deepcopy,
        'pure Python pickle': pickled(2, pickle._dumps, pickle._loads),
        **{f'pickle with protocol {n}': pickled(n)
           for n in range(2, pickle.HIGHEST_PROTOCOL + 1)}}


class Value:
    """Default compared by value."""

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return type(other) is Value and self.value == other.value

    __hash__ = None

    def __bool__(self):
        return False

    def __repr__(self):
        return f'Value({self.value!r})'


def parts(v):
    """Everything that can be asked about an object."""
    if isinstance(v, sigs.OverloadedSignature):
        return type(v), type(v.signatures), [parts(s) for s in v.signatures]
    if isinstance(v, sigs.PlainSignature):
        return (type(v), type(v.parameters),
                [parts(p) for p in v.parameters], type(v.returns),
                str(v.returns))
    return (type(v), type(v.name), v.name, type(v.kind), v.kind,
            type(v.annotation), str(v.annotation),
            *((v.has_default, *((type(v.default), repr(v.default))
                                if v.has_default else ()))
              if isinstance(v, sigs.OptionalParameter) else ()))


def check(report, key, made):
    before = sigs.outcome(parts, made)
    for way, function in WAYS.items():
        report.count(key, f'{way} of {made!r}')
        result = sigs.outcome(function, made)
        case = f'{way} of {made!r}'
        if (isinstance(result, Exception) or type(result) is not type(made)
                or sigs.outcome(lambda: made == result) is not True
                or sigs.outcome(lambda: made != result) is not False
                or sigs.outcome(strictly, made, result) is not True
                or sigs.outcome(parts, result) != before
                or sigs.outcome(hash, result) != sigs.outcome(hash, made)
                or sigs.outcome(repr, result) != sigs.outcome(repr, made)):
            report.violation(key, case, 'equal object', repr(result))
        elif sigs.outcome(parts, made) != before:
            report.violation(key, case, 'the original is left as is',
                             repr(made))


def picklable(*objects):
    for v in objects:
        try:
            if pickle.loads(pickle.dumps(v)) != v:
                return False
        except Exception:
            return False
    return True


DEFAULTS = [v for v in (*values.DEFAULTS, Value(0), Value([1]), [], {}, (),
                        (None,), [[]], {'a': [1]}, {1}, frozenset(), False,
                        True, int, t.Any, t.List[int], range(2), -0., 'x',
                        NotImplemented, type(None), K.VARIADIC_KEYWORD)
            if type(v) is Value or picklable(v)]
ABSENT = object()


def parameters(report):
    for kind in K:
        variadic = kind in (K.VARIADIC_POSITIONAL, K.VARIADIC_KEYWORD)
        for name in ('x', 'self', '_', 'имя'):
            for annotation in (int, None, t.Any, 'text', [], t.List[int],
                               t.Optional[str]):
                given = dict(annotation=annotation, kind=kind, name=name)
                if not variadic:
                    check(report, 'parameters',
                          sigs.RequiredParameter(**given))
                check(report, 'parameters', sigs.OptionalParameter(**given))
                if variadic or annotation is not int:
                    continue
                for default in DEFAULTS:
                    check(report, 'parameters',
                          sigs.OptionalParameter(default=default, **given))


def drawn(report):
    random = report.random
    pool = list(sigs.shapes(2, 2, 2))
    plain = []
    while len(plain) < (3000 if report.thorough else 300):
        made = []
        for kind, name, optional in random.choice(pool):
            annotation = values.build(values.generate(random, 2, False,
                                                      True), random)
            given = dict(annotation=annotation if picklable(annotation)
                         else int, kind=kind, name=name)
            if not optional:
                made.append(sigs.RequiredParameter(**given))
                continue
            default = random.choice([ABSENT, random.choice(DEFAULTS)])
            if default is not ABSENT and kind not in (
                    K.VARIADIC_POSITIONAL, K.VARIADIC_KEYWORD):
                given['default'] = default
            made.append(sigs.OptionalParameter(**given))
        returns = values.build(values.generate(random, 2, False, True),
                               random)
        made = sigs.PlainSignature(
                *made, returns=returns if picklable(returns) else None)
        check(report, 'plain signatures', made)
        plain.append(made)
        if report.full:
            return
    for _ in range(500 if report.thorough else 80):
        made = sigs.OverloadedSignature(*random.choices(
                plain, k=random.randint(2, 4)))
        check(report, 'overloaded signatures', made)
        # shared inside of one object
        check_shared(report, [made, made.signatures[0], made])


def check_shared(report, made):
    for way, function in WAYS.items():
        if way == 'copy':
            continue
        report.count('several signatures at once', way)
        result = sigs.outcome(function, made)
        if (isinstance(result, Exception) or len(result) != len(made)
                or any(sigs.outcome(parts, a) != sigs.outcome(parts, b)
                       for a, b in zip(made, result))):
            report.violation('several signatures at once', f'{way} of '
                             f'{made!r}', 'equal objects', repr(result))


PROBES = [parameters, drawn]
