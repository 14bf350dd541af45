from contracts.accepting import Expects, Extension
from harness import sigs

from .common import (MODELS, NAMES_ARE_STRINGS, SIGNATURE_PRECONDITION,
                     TERMINATION)

PROOFS = [Expects, Extension]
SOURCES = (MODELS,)
ASSUMPTIONS = (SIGNATURE_PRECONDITION, NAMES_ARE_STRINGS, TERMINATION)


def python_agrees(report):
    """expects against a search for a call accepted by a real function."""
    for shape in sigs.shapes(2 if report.thorough else 1, 2,
                             2 if report.thorough else 1):
        signature = sigs.signature(shape)
        f = sigs.function(shape)
        for args, kwargs in sigs.arguments(shape):
            expected = sigs.extendable(shape, f, args, kwargs)
            try:
                actual = signature.expects(*args, **kwargs)
            except Exception as error:
                actual = error
            if actual is not expected:
                report.violation(
                        'expects', f'{sigs.shape_text(shape)}.expects'
                        f'(*{args}, **{kwargs})', expected, repr(actual))
                if report.full:
                    return
            report.count('calls compared with Python',
                         f'{sigs.shape_text(shape)} {args} {kwargs}')


PROBES = [python_agrees]
