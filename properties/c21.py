import typing

from contracts.conversions import NAMES, Operators
from contracts.evaluating import (HANDLERS, Assigned, AssignedAnnotated,
                                  AtPath, Search)
from contracts.traversing import Descendants
from harness import expressions, sigs, world

from .common import TERMINATION

PROOFS = [*HANDLERS, Operators, *NAMES, Descendants, Search, AtPath, Assigned,
          AssignedAnnotated]
SOURCES = ('paradigm/_core/arboreal/evaluation.py',
           'paradigm/_core/namespacing.py')
ASSUMPTIONS = (TERMINATION,)
UNSPECIFIED = object()


def meaning(text, names):
    try:
        return expressions.meaning(text, names)
    except (expressions.Skip, AttributeError, TypeError, ValueError):
        return UNSPECIFIED


def evaluated(report):
    other = expressions.module(expressions.OTHER, expressions.OTHER_TEXT)
    for index in range(150 if report.thorough else 50):
        source = expressions.Source(report.random)
        stubs = world.World({
            'typing': expressions.TYPING,
            expressions.OTHER: expressions.OTHER_TEXT,
            expressions.ONLY: expressions.ONLY_TEXT,
            expressions.TWIN: expressions.TWIN_TEXT,
            expressions.HERE: source.stub,
        }, report.scratch / f'evaluated{index}').stubs()
        here = expressions.module(expressions.HERE, source.real,
                                  Plain=other.Plain)
        paths = {tuple(path.split('.')): [((expressions.HERE,),
                                           tuple(path.split('.')))]
                 for path in source.spelled}
        program = world.program(stubs, {(expressions.HERE,): paths})
        with world.imported(**{expressions.HERE: here,
                               expressions.OTHER: other}):
            try:
                scopes = expressions.names_of(program, here, other)
                made = expressions.is_made(scopes[0])
            except Exception as error:
                made = error
            report.count('classes', expressions.ONLY_TEXT)
            if made is not True:
                report.violation('classes', expressions.ONLY_TEXT,
                                 'the declared classes', made)
                return
            for path, texts in source.spelled.items():
                value = eval(path, dict(vars(here)))
                scope = scopes[path.count('.')]
                expected = [meaning(text, scope) for text in texts]
                if UNSPECIFIED in expected:
                    continue
                what = f'{path} of\n{source.stub}'
                report.count('expressions', what)
                actual = sigs.outcome(program.signatures.from_callable,
                                      value)
                parameters = getattr(actual, 'parameters', ())
                if len(parameters) != 1:
                    report.violation('evaluated', what, expected, actual)
                    continue
                found = [parameters[0].annotation, getattr(
                        parameters[0], 'default', None), actual.returns]
                for text, a, b in zip(texts, expected, found):
                    if not expressions.same(a, b):
                        report.violation('evaluated', f'{text} of {what}',
                                         a, b)
                if report.full:
                    return


INTERRUPTED_TEXT = '''
from typing import Union
from verif_other import Plain, Box, slow
Alias = slow(Plain)
Other = again = slow(Union[int, Plain])
Typed: object = slow(Box[Plain])
def first(x: Alias) -> Other: ...
def second(x: again) -> Typed: ...
class Field:
    member = slow(7)
    def method(self, x: int = member) -> Alias: ...
'''


def interrupted(report):
    """Evaluations which did not finish do not change the later ones."""
    for error in (KeyboardInterrupt, RecursionError, MemoryError):
        for name in ('first', 'second', 'Field.method'):
            stubs = world.World({
                'typing': expressions.TYPING,
                expressions.OTHER: expressions.OTHER_TEXT
                + 'def slow(x: object) -> object: ...\n',
                expressions.HERE: INTERRUPTED_TEXT,
            }, report.scratch / f'interrupted_{error.__name__}_{name}'
            ).stubs()
            other = expressions.module(expressions.OTHER,
                                       expressions.OTHER_TEXT)
            failing = [True]

            def slow(x):
                if failing:
                    raise error()
                return x

            other.slow = slow
            here = expressions.module(expressions.HERE, '\n'.join([
                'def first(x): pass', 'def second(x): pass',
                'class Field:', '    def method(self, x=7): pass']))
            paths = {tuple(path.split('.')): [((expressions.HERE,),
                                               tuple(path.split('.')))]
                     for path in ('first', 'second', 'Field',
                                  'Field.method')}
            program = world.program(stubs, {(expressions.HERE,): paths})
            value = eval(name, dict(vars(here)))
            with world.imported(**{expressions.HERE: here,
                                   expressions.OTHER: other}):
                outcomes = []
                for _ in range(2):
                    try:
                        program.signatures.from_callable(value)
                    except error as raised:
                        outcomes.append(raised)
                failing.clear()
                actual = sigs.outcome(program.signatures.from_callable,
                                      value)
                fresh = sigs.outcome(
                        world.program(stubs, {(expressions.HERE,): paths}
                                      ).signatures.from_callable, value)
            what = (f'{name} after {error.__name__} of\n{INTERRUPTED_TEXT}')
            report.count('interrupted', what)
            if not same_annotations(actual, fresh):
                report.violation('interrupted', what, fresh, actual)


def same_annotations(left, right):
    def annotations(signature):
        return [signature.returns] + [
            x for parameter in signature.parameters
            for x in (parameter.annotation,
                      getattr(parameter, 'default', None))]
    try:
        left, right = annotations(left), annotations(right)
    except AttributeError:
        return repr(left) == repr(right)
    return (len(left) == len(right)
            and all(map(expressions.same, left, right)))


PARTLY_TEXT = '''
from typing import Union
class Real:
    class Late:
        deep = 6
    number = 5
class Late:
    class Inner: ...
Alias = Union[int, Real]
count = -3
'''
USING_TEXT = '''
import verif_partly
import verif_partly as vp
from verif_partly import Late, Real as Renamed
def {name}(x: {annotation} = {default}) -> {returns}: ...
'''


def partly(report):
    """Objects which stubs declare and modules lack, named with dots."""
    name = 'verif_partly'
    text = {'Late': ['verif_partly.Late', 'vp.Late', 'Late'],
            'Late.Inner': ['verif_partly.Late.Inner', 'vp.Late.Inner',
                           'Late.Inner'],
            'Real': ['verif_partly.Real', 'vp.Real', 'Renamed'],
            'Real.Late': ['verif_partly.Real.Late', 'vp.Real.Late',
                          'Renamed.Late'],
            'Alias': ['verif_partly.Alias', 'vp.Alias']}
    numbers = {'count': ['verif_partly.count', 'vp.count'],
               'Real.number': ['verif_partly.Real.number',
                               'vp.Real.number', 'Renamed.number'],
               'Real.Late.deep': ['vp.Real.Late.deep', 'Renamed.Late.deep']}
    cases = [(path, spelled, *next_of(numbers, index))
             for index, (path, spelled) in enumerate(
                (path, x) for path, texts in text.items() for x in texts)]
    for index, (path, spelled, number, default) in enumerate(cases):
        stub = USING_TEXT.format(name='function', annotation=spelled,
                                 default=default, returns=spelled)
        stubs = world.World({'typing': expressions.TYPING,
                             name: PARTLY_TEXT, expressions.HERE: stub},
                            report.scratch / f'partly{index}').stubs()
        real = expressions.module(name, 'class Real: pass')
        here = expressions.module(expressions.HERE, 'def function(x): pass')
        program = world.program(stubs, {(expressions.HERE,): {
            ('function',): [((expressions.HERE,), ('function',))]}})
        with world.imported(**{expressions.HERE: here, name: real}):
            evaluate = program.evaluation.evaluate_qualified_path
            late = evaluate((name,), ('Late',), {})
            inner = evaluate((name,), ('Real', 'Late'), {})
            expected = {'Late': late, 'Late.Inner': late.Inner,
                        'Real': real.Real, 'Real.Late': inner,
                        'Alias': typing.Union[int, real.Real]}[path]
            value = {'count': -3, 'Real.number': 5,
                     'Real.Late.deep': 6}[number]
            actual = sigs.outcome(program.signatures.from_callable,
                                  here.function)
        what = f'{spelled} and {default} of a module without them'
        report.count('partly', what)
        parameters = getattr(actual, 'parameters', ())
        if len(parameters) != 1 or not (
                expressions.same(expected, parameters[0].annotation)
                and expressions.same(expected, actual.returns)
                and value == getattr(parameters[0], 'default', None)):
            report.violation('partly', what, (expected, value), actual)


def next_of(table, index):
    pairs = [(path, x) for path, texts in table.items() for x in texts]
    return pairs[index % len(pairs)]


PROBES = [evaluated, interrupted, partly]
