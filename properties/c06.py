import itertools

from contracts.overloading import (JOINS, AllSet, Bind, Construct, Expects,
                                   JoinAny)
from harness import sigs
from paradigm._core import models

from .common import MODELS, NAMES_ARE_STRINGS, TERMINATION

PROOFS = [AllSet, Expects, Bind, Construct, JoinAny, *JOINS]
SOURCES = (MODELS,)
ASSUMPTIONS = (NAMES_ARE_STRINGS, TERMINATION,
               'methods of the plain signatures inside of the overloaded one '
               'satisfy their contracts (C01, C02, C04)')


def sample(report, size):
    pool = list(sigs.shapes(1, 2, 1))
    return [sigs.signature(report.random.choice(pool),
                           report.random.random() < .5,
                           returns=sigs.Marker(f'R{i}'))
            for i in range(size)]


def identical(actual, expected):
    """Plain signatures with the same parts."""
    return (isinstance(actual, sigs.PlainSignature)
            and sigs.described(actual.parameters)
            == sigs.described(expected.parameters)
            and actual.returns is expected.returns)


def union(report):
    shapes = list(sigs.shapes(1, 2, 1))
    for _ in range(6000 if report.thorough else 700):
        size = report.random.choice((2, 2, 3, 3, 4, 5))
        plain = sample(report, size)
        if report.random.random() < .2:
            plain[-1] = plain[0]
        overloaded = sigs.outcome(sigs.OverloadedSignature, *plain)
        if not (isinstance(overloaded, sigs.OverloadedSignature)
                and len(overloaded.signatures) == size
                and all(a is b for a, b in zip(overloaded.signatures,
                                               plain))):
            report.violation('construction', f'OverloadedSignature(*{plain})',
                             'made of them', repr(overloaded))
            continue
        calls = list(sigs.arguments(report.random.choice(shapes),
                                    max_keywords=3))
        chosen = report.random.sample(calls, min(len(calls), 12))
        for args, kwargs in [*chosen, ((), {})]:
            check_call(report, plain, overloaded, args, kwargs)
            if report.full:
                return


def check_call(report, plain, overloaded, args, kwargs):
    case = f'overloaded of {[str(p) for p in plain]} given *{args}, **{kwargs}'
    report.count('calls of overloaded signatures', case)
    for method in ('all_set', 'expects'):
        expected = any(getattr(p, method)(*args, **kwargs) for p in plain)
        actual = sigs.outcome(getattr(overloaded, method), *args, **kwargs)
        if actual is not expected:
            report.violation(method, case, expected, repr(actual))
    left = [p.bind(*args, **kwargs) for p in plain
            if p.expects(*args, **kwargs)]
    actual = sigs.outcome(overloaded.bind, *args, **kwargs)
    if not left:
        good = type(actual) is TypeError
    elif len(left) == 1:
        good = identical(actual, left[0])
    else:
        good = (isinstance(actual, sigs.OverloadedSignature)
                and len(actual.signatures) == len(left)
                and all(map(identical, actual.signatures, left)))
    if not good:
        report.violation('bind', case, left or 'TypeError', repr(actual))


def joining(report):
    for size in range(5):
        for kinds in itertools.product((1, 2, 3), repeat=size):
            given, flat = [], []
            for kind in kinds:
                plain = sample(report, kind)
                flat.extend(plain)
                given.append(plain[0] if kind == 1
                             else sigs.OverloadedSignature(*plain))
            case = f'from_signatures of {kinds} alternatives'
            report.count('joined signatures', case)
            actual = sigs.outcome(models.from_signatures, *given)
            if not flat:
                good = type(actual) is ValueError
            elif len(flat) == 1:
                good = actual is flat[0]
            else:
                good = (isinstance(actual, sigs.OverloadedSignature)
                        and len(actual.signatures) == len(flat)
                        and all(a is b for a, b in zip(actual.signatures,
                                                       flat)))
            if not good:
                report.violation('joining', case, flat, repr(actual))


def rejection(report):
    plain = sample(report, 3)
    overloaded = sigs.OverloadedSignature(*plain[:2])
    cases = [((), ValueError), ((plain[0],), ValueError)]
    for wrong in (overloaded, None, 'text', plain[0].parameters, object(),
                  sigs.PlainSignature, sigs.parameter(
                          sigs.K.KEYWORD_ONLY, 'x', True)):
        for size in (1, 2, 3):
            for position in range(size + 1):
                given = plain[:size]
                given.insert(position, wrong)
                cases.append((tuple(given), TypeError))
        cases.append(((wrong,), (TypeError, ValueError)))
    for given, error in cases:
        report.count('rejected constructions', repr(given)[:100])
        actual = sigs.outcome(sigs.OverloadedSignature, *given)
        if type(actual) not in (error if isinstance(error, tuple)
                                else (error,)):
            report.violation('rejection', f'OverloadedSignature(*{given})',
                             error, repr(actual))


PROBES = [union, joining, rejection]
