import inspect
from functools import partial

from contracts.binding import Bind
from harness import sigs

from .common import (MODELS, NAMES_ARE_STRINGS, SIGNATURE_PRECONDITION,
                     TERMINATION)

PROOFS = [Bind]
SOURCES = (MODELS,)
ASSUMPTIONS = (SIGNATURE_PRECONDITION, NAMES_ARE_STRINGS, TERMINATION)


def partial_parameters(f, args, kwargs):
    """What Python itself tells about the partial object."""
    signature = inspect.signature(partial(f, *args, **kwargs))
    variadic = (inspect.Parameter.VAR_POSITIONAL,
                inspect.Parameter.VAR_KEYWORD)
    return [(sigs.K(p.kind), p.name,
             p.default is not p.empty or p.kind in variadic,
             () if p.default is p.empty else (p.default,))
            for p in signature.parameters.values()]


def python_agrees(report):
    """bind against inspection of partial objects of real functions."""
    returns = sigs.Marker('R')
    for shape in sigs.shapes(2 if report.thorough else 1, 2,
                             2 if report.thorough else 1):
        signature = sigs.signature(shape, returns=returns)
        bare = sigs.signature(shape, with_default=False, returns=returns)
        odd = {number: sigs.signature(shape, with_default=number,
                                      returns=returns)
               for number in range(2, 2 + len(sigs.ODD))}
        seen = []
        f = sigs.function(shape)
        text = sigs.shape_text(shape)
        for args, kwargs in sigs.arguments(shape):
            acceptable = sigs.extendable(shape, f, args, kwargs)
            report.count('bindings compared with Python',
                         f'{text} {args} {kwargs}')
            case = f'{text}.bind(*{args}, **{kwargs})'
            actual = sigs.outcome(signature.bind, *args, **kwargs)
            if not acceptable:
                if type(actual) is not TypeError:
                    report.violation('bind rejects', case, 'TypeError',
                                     repr(actual))
                continue
            expected = sigs.bound(shape, args, kwargs)
            # keywords named as positional-only parameters
            # are beyond of the inspection of partial objects
            if not any(kind is sigs.K.POSITIONAL_ONLY and name in kwargs
                       for kind, name, _ in shape):
                assert expected == partial_parameters(f, args, kwargs), case
            check_result(report, case, actual, expected, returns)
            check_result(report, case + ' without defaults',
                         sigs.outcome(bare.bind, *args, **kwargs),
                         sigs.bound(shape, args, kwargs, False), returns)
            number = 2 + len(seen) % len(sigs.ODD)
            seen.append(None)
            check_result(report, f'{case} with odd defaults {number}',
                         sigs.outcome(odd[number].bind, *args, **kwargs),
                         sigs.bound(shape, args, kwargs, number), returns)
            if report.full:
                return


def check_result(report, case, actual, expected, returns):
    if not isinstance(actual, sigs.PlainSignature):
        report.violation('bind', case, expected, repr(actual))
    elif (sigs.described(actual.parameters) != expected
            or actual.returns is not returns
            or not all(p.annotation is sigs.annotation_of(p.name)
                       for p in actual.parameters)):
        report.violation('bind', case, expected, repr(actual))


PROBES = [python_agrees]
