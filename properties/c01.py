from contracts.accepting import AllSet
from harness import sigs

from .common import (MODELS, NAMES_ARE_STRINGS, SIGNATURE_PRECONDITION,
                     TERMINATION)

PROOFS = [AllSet]
SOURCES = (MODELS,)
ASSUMPTIONS = (SIGNATURE_PRECONDITION, NAMES_ARE_STRINGS, TERMINATION)


def python_agrees(report):
    """all_set against calls of real functions, up to 2 per kind."""
    size = 3 if report.thorough else 2
    for shape in sigs.shapes(size if report.thorough else 1, size, 2):
        signature = sigs.signature(shape)
        bare = sigs.signature(shape, with_default=False)
        f = sigs.function(shape)
        for args, kwargs in sigs.arguments(shape):
            expected = sigs.calls(f, args, kwargs)
            for s in (signature, bare):
                try:
                    actual = s.all_set(*args, **kwargs)
                except Exception as error:
                    actual = error
                if actual is not expected:
                    report.violation(
                            'all_set', f'{sigs.shape_text(shape)}.all_set'
                            f'(*{args}, **{kwargs})', expected,
                            repr(actual))
                    if report.full:
                        return
            report.count('calls compared with Python',
                         f'{sigs.shape_text(shape)} {args} {kwargs}')


PROBES = [python_agrees]
