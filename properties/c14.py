import types

from contracts.declaring import FromCallableType, FromFunction
from contracts.naming import (Annotated, Assigned, ByAttribute, ByName,
                              ByTypeVariable)
from contracts.lookup import Described, Lookup, OfClass
from harness import callables, declarations, library, sigs, world

from .common import TERMINATION

PROOFS = [FromFunction, FromCallableType, ByName, ByAttribute,
          ByTypeVariable, Assigned, Annotated, Described, Lookup,
          OfClass]
SOURCES = ('paradigm/_core/signatures.py',)
ASSUMPTIONS = (TERMINATION,)


def same(expected, actual):
    """Declared parameters and returned annotations against a signature."""
    if not isinstance(actual, (sigs.PlainSignature,
                               sigs.OverloadedSignature)):
        return False
    plains = (list(actual.signatures)
              if isinstance(actual, sigs.OverloadedSignature) else [actual])
    return len(plains) == len(expected) and all(
            callables.same_parameters(parameters, [
                callables.actual(p) for p in plain.parameters])
            and callables.same_object(returns, plain.returns)
            for (parameters, returns), plain in zip(expected, plains))


def indexed(expected):
    return {tuple(name.split('.')): [((declarations.MODULE,),
                                      tuple(name.split('.')))]
            for name in expected}


def declared(report):
    for index in range(200 if report.thorough else 100):
        source = declarations.Module(report.random)
        stubs = world.World({declarations.MODULE: source.stub},
                            report.scratch / f'declared{index}').stubs()
        module = types.ModuleType(declarations.MODULE)
        exec(source.real, module.__dict__)
        program = world.program(stubs, {
            (declarations.MODULE,): indexed(source.expected)})
        with world.imported(**{declarations.MODULE: module}):
            for name, expected in source.expected.items():
                value = eval(name, dict(vars(module)))
                expected = declarations.found(expected, module)
                what = f'{name} of\n{source.stub}'
                report.count('declarations', what)
                actual = sigs.outcome(program.signatures.from_callable,
                                      value)
                if not same(expected, actual):
                    report.violation('declarations', what, expected,
                                     actual if isinstance(actual, Exception)
                                     else str(actual))
                if report.full:
                    return


ANNOTATED = '''
from typing import Callable, Optional, TypeVar, Union
class Plain: ...
class Caller:
    def __call__(self, x: int, y: str = ...) -> str: ...
T = TypeVar('T')
BoundT = TypeVar('BoundT', bound=Caller)
by_class: Plain
by_number: int
by_variable: T
by_union: Union[Caller, int]
by_list: list[Caller]

by_value = len
by_caller: Caller
by_callable: Callable[[int, str], str]
by_bound: BoundT
'''
DESCRIBED = {'by_caller': ['x', 'y'], 'by_callable': ['_0', '_1'],
             'by_bound': ['x', 'y']}
INSPECTED = ['by_class', 'by_number', 'by_union', 'by_list']


def annotated(report):
    """Names of objects which are not described as callables."""
    stubs = world.World({declarations.MODULE: ANNOTATED},
                        report.scratch / 'annotated').stubs()
    module = types.ModuleType(declarations.MODULE)
    exec('\n'.join(f'def {name}(inspected): pass'
                   for name in [*DESCRIBED, *INSPECTED]), module.__dict__)
    for name in [*DESCRIBED, *INSPECTED]:
        vars(module)[name].__module__ = declarations.MODULE
        program = world.program(stubs, {
            (declarations.MODULE,): indexed([name])})
        with world.imported(**{declarations.MODULE: module}):
            actual = sigs.outcome(program.signatures.from_callable,
                                  vars(module)[name])
        if isinstance(actual, sigs.PlainSignature):
            actual = [p.name for p in actual.parameters]
        expected = DESCRIBED.get(name, ['inspected'])
        what = f'{name} of\n{ANNOTATED}'
        report.count('annotated', what)
        if actual != expected:
            report.violation('annotated', what, expected, actual)


KINDS = {sigs.K.POSITIONAL_ONLY: 'positional',
         sigs.K.POSITIONAL_OR_KEYWORD: 'positional or keyword',
         sigs.K.VARIADIC_POSITIONAL: 'variadic',
         sigs.K.KEYWORD_ONLY: 'keyword',
         sigs.K.VARIADIC_KEYWORD: 'variadic keyword'}
# static methods of built-in classes are not described: they have no module;
# others are declared in several ways: by a function and by a name of
# the same object annotated with a callable type
OTHERWISE = {'builtins.str.maketrans', 'builtins.bytes.maketrans',
             'builtins.bytearray.maketrans', 'time.localtime',
             'xml.etree.ElementTree.ProcessingInstruction'}


def of_library(report):
    from paradigm.base import signature_from_callable
    for spelled, value, expected, *_ in library.callables():
        if spelled in OTHERWISE or isinstance(value, types.MethodType):
            continue
        report.count('callables of the library', spelled)
        actual = sigs.outcome(signature_from_callable, value)
        if isinstance(actual, (sigs.PlainSignature,
                               sigs.OverloadedSignature)):
            plains = (actual.signatures
                      if isinstance(actual, sigs.OverloadedSignature)
                      else [actual])
            actual = [[(p.name, KINDS[p.kind],
                        None if 'variadic' in KINDS[p.kind]
                        else isinstance(p, sigs.OptionalParameter))
                       for p in plain.parameters] for plain in plains]
        if actual != expected:
            report.violation('callables of the library', spelled, expected,
                             actual)
        if report.full:
            return


PROBES = [declared, annotated, of_library]
