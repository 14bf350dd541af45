import inspect
import itertools

from contracts.construction import (Construct, Defaulted, InductionStep,
                                    Optional, OptionalForeign, Required,
                                    RequiredForeign)
from harness import sigs

from .common import MODELS, NAMES_ARE_STRINGS, TERMINATION

PROOFS = [InductionStep, Construct, Required, RequiredForeign, Optional,
          Defaulted, OptionalForeign]
SOURCES = (MODELS,)
ASSUMPTIONS = (NAMES_ARE_STRINGS, TERMINATION)

K = sigs.K
VARIADIC = (K.VARIADIC_POSITIONAL, K.VARIADIC_KEYWORD)
POSITIONAL = (K.POSITIONAL_ONLY, K.POSITIONAL_OR_KEYWORD)


def is_well_formed(items):
    """Definition over pairs of positions; items: kind, name, optional."""
    for (k, a, x), (l, b, y) in itertools.combinations(items, 2):
        if (a == b or k > l or (k == l and k in VARIADIC)
                or (k in POSITIONAL and l in POSITIONAL and x and not y)):
            return False
    return True


def lists_of_parameters(report):
    """Every short list of parameters, random longer ones."""
    options = [(kind, optional) for kind in K
               for optional in ((True,) if kind in VARIADIC
                                else (False, True))]
    names = ['a', 'b', 'c', 'd']

    def check(items):
        built = [sigs.parameter(kind, name, optional,
                                report.random.random() < .5)
                 for kind, name, optional in items]
        returns = sigs.Marker('R')
        report.count('lists of parameters', str(items))
        actual = sigs.outcome(sigs.PlainSignature, *built, returns=returns)
        text = ', '.join(f'{kind.name} {name}{"?" * optional}'
                         for kind, name, optional in items)
        if is_well_formed(items):
            good = isinstance(actual, sigs.PlainSignature) and (
                    len(actual.parameters) == len(built)
                    and all(p is q for p, q in zip(actual.parameters,
                                                   built))
                    and actual.returns is returns)
            if not good:
                report.violation('well-formed list', f'PlainSignature({text})',
                                 'constructed as given', repr(actual))
        elif type(actual) is not ValueError:
            report.violation('ill-formed list', f'PlainSignature({text})',
                             'ValueError', repr(actual))

    check([])
    for kind, optional in options:
        check([(kind, 'a', optional)])
    for size in (2, 3) if not report.thorough else (2, 3, 4):
        labels = {2: ['ab', 'aa'], 3: ['abc', 'aba', 'aab', 'abb'],
                  4: ['abcd', 'abca', 'abcb', 'abac']}[size]
        for chosen in itertools.product(options, repeat=size):
            for text in labels:
                check([(kind, name, optional)
                       for (kind, optional), name in zip(chosen, text)])
    for _ in range(20000 if report.thorough else 3000):
        size = report.random.randrange(3, 9)
        chosen = report.random.choices(options, k=size)
        if report.random.random() < .8:
            chosen.sort(key=lambda item: (item[0], item[1]))
            if report.random.random() < .5:
                i = report.random.randrange(size)
                chosen[i] = report.random.choice(options)
        pool = [f'p{i}' for i in range(size)]
        if report.random.random() < .3:
            i, j = report.random.sample(range(size), 2)
            pool[i] = pool[j]
        check([(kind, name, optional)
               for (kind, optional), name in zip(chosen, pool)])


class Unusual:
    def __eq__(self, other):
        raise ValueError('no comparison')

    __hash__ = None

    def __bool__(self):
        raise ValueError('no truth')


def parameters(report):
    values = [None, 0, '', False, True, [], {}, Ellipsis, int, 'text', 1.5,
              (), inspect.Parameter.empty, NotImplemented, Unusual(), K,
              [None], object()]
    for kind in K:
        for annotation in values:
            for name in ('x', 'self', 'имя'):
                check_parameter(report, sigs.RequiredParameter,
                                kind not in VARIADIC, annotation=annotation,
                                kind=kind, name=name)
                check_parameter(report, sigs.OptionalParameter, True,
                                annotation=annotation, kind=kind, name=name)
            for default in values:
                check_parameter(report, sigs.OptionalParameter,
                                kind not in VARIADIC, annotation=annotation,
                                kind=kind, name='x', default=default)
    for wrong in (0, 1, 2, 3, 4, 5, -1, True, None, '0', 'POSITIONAL_ONLY',
                  K, object(), inspect.Parameter.POSITIONAL_ONLY, 1.0,
                  [], Unusual()):
        for cls in (sigs.RequiredParameter, sigs.OptionalParameter):
            report.count('values which are no kinds', repr(wrong))
            actual = sigs.outcome(cls, annotation=int, kind=wrong, name='x')
            if type(actual) is not TypeError:
                report.violation(
                        'foreign kind', f'{cls.__name__}(annotation=int, '
                        f'kind={wrong!r}, name="x")', 'TypeError',
                        repr(actual))


def check_parameter(report, cls, valid, **given):
    report.count('parameters', f'{cls.__name__} {given}')
    case = f'{cls.__name__}(**{given})'
    actual = sigs.outcome(lambda: cls(**given))
    if not valid:
        if type(actual) is not ValueError:
            report.violation('invalid parameter', case, 'ValueError',
                             repr(actual))
        return
    good = type(actual) is cls and all(
            sigs.outcome(getattr, actual, key) is value
            for key, value in given.items())
    if good and cls is sigs.OptionalParameter:
        good = actual.has_default is ('default' in given)
    if not good:
        report.violation('valid parameter', case, 'created as given',
                         f'{type(actual)}')


PROBES = [lists_of_parameters, parameters]
