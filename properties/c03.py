from contracts.accepting import AllSet, Expects
from contracts.binding import Bind, Composition
from harness import sigs

from .common import (MODELS, NAMES_ARE_STRINGS, SIGNATURE_PRECONDITION,
                     TERMINATION)

PROOFS = [AllSet, Expects, Bind, Composition]
SOURCES = (MODELS,)
ASSUMPTIONS = (SIGNATURE_PRECONDITION, NAMES_ARE_STRINGS, TERMINATION)


def composition(report):
    """Two successive groups of arguments against both at once."""
    size = 2 if report.thorough else 1
    for shape in sigs.shapes(1, 2, size):
        signature = sigs.signature(shape)
        f = sigs.function(shape)
        text = sigs.shape_text(shape)
        has_options = any(kind is sigs.K.VARIADIC_KEYWORD
                          for kind, _, _ in shape)
        positionals = [(kind, name) for kind, name, _ in shape
                       if kind in (sigs.K.POSITIONAL_ONLY,
                                   sigs.K.POSITIONAL_OR_KEYWORD)]
        for args, kwargs in sigs.arguments(shape, max_keywords=2):
            if not sigs.extendable(shape, f, args, kwargs):
                continue
            bound = sigs.outcome(signature.bind, *args, **kwargs)
            consumed = {name for kind, name in positionals[:len(args)]
                        if kind is sigs.K.POSITIONAL_OR_KEYWORD}
            for more, options in sigs.arguments(shape, max_keywords=2):
                if len(args) + len(more) > len(positionals) + 2:
                    continue
                if has_options and consumed & options.keys():
                    continue
                if (not report.thorough
                        and report.random.random() > .3):
                    continue
                report.count('pairs of groups of arguments',
                             f'{text} {args} {kwargs} {more} {options}')
                both = {**kwargs, **options}
                case = (f'{text}.bind(*{args}, **{kwargs}) given '
                        f'*{more}, **{options}')
                whole = sigs.calls(f, args + more, both)
                compare(report, 'all_set after bind', case, whole,
                        lambda: bound.all_set(*more, **options))
                whole = whole or sigs.extendable(shape, f, args + more, both)
                compare(report, 'expects after bind', case, whole,
                        lambda: bound.expects(*more, **options))
                if whole:
                    again = sigs.outcome(
                            lambda: bound.bind(*more, **options))
                    once = sigs.outcome(
                            lambda: signature.bind(*args, *more, **both))
                    if not (isinstance(again, sigs.PlainSignature)
                            and again == once):
                        report.violation('bind after bind', case,
                                         repr(once), repr(again))
                if report.full:
                    return


def compare(report, key, case, expected, query):
    actual = sigs.outcome(query)
    if actual is not expected:
        report.violation(key, case, expected, repr(actual))


PROBES = [composition]
