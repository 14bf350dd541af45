import inspect
import typing as t

from contracts import texts
from harness import samples, sigs, values
from paradigm._core import annotated

from .common import ANNOTATED, MODELS, NAMES_ARE_STRINGS

PROOFS = texts.proofs('__str__')
SOURCES = (MODELS, ANNOTATED)
ASSUMPTIONS = (NAMES_ARE_STRINGS,
               'texts of annotations and defaults are the ones of to_repr '
               '(the subject of C10)')

K = sigs.K
STARS = {K.VARIADIC_POSITIONAL: '*', K.VARIADIC_KEYWORD: '**'}


def parameter_text(p):
    text = (STARS.get(p.kind, '') + p.name + ': '
            + annotated.to_repr(p.annotation))
    if isinstance(p, sigs.OptionalParameter) and p.has_default:
        text += ' = ' + annotated.to_repr(p.default)
    return text


def expected_text(parameters, returns):
    parts = []
    for index, p in enumerate(parameters):
        if (p.kind is K.KEYWORD_ONLY
                and not any(q.kind in (K.KEYWORD_ONLY, K.VARIADIC_POSITIONAL)
                            for q in parameters[:index])):
            parts.append('*')
        parts.append(parameter_text(p))
        if (p.kind is K.POSITIONAL_ONLY
                and not any(q.kind is K.POSITIONAL_ONLY
                            for q in parameters[index + 1:])):
            parts.append('/')
    return f'({", ".join(parts)}) -> {annotated.to_repr(returns)}'


def check(report, made, expected):
    actual = sigs.outcome(str, made)
    if type(actual) is not str or actual != expected:
        report.violation('text', f'str of {sigs.outcome(repr, made)}',
                         expected, actual)


def layout(report):
    """Every small list of parameters."""
    made = []
    for shape in sigs.shapes(2, 2, 2):
        for with_default in (False, True):
            signature = sigs.PlainSignature(
                    *[sigs.parameter(*item, with_default, annotation=int)
                      for item in shape], returns=str)
            report.count('plain signatures', str(shape))
            check(report, signature,
                  expected_text(signature.parameters, str))
            made.append(signature)
            if with_default:
                declaration(report, shape, signature)
        if report.full:
            return
    for _ in range(2000 if report.thorough else 300):
        chosen = report.random.choices(made, k=report.random.randint(2, 5))
        report.count('overloaded signatures')
        check(report, sigs.OverloadedSignature(*chosen),
              ' | '.join(expected_text(s.parameters, s.returns)
                         for s in chosen))


def declaration(report, shape, signature):
    """Python reads the text as the declaration of the same parameters."""
    text = sigs.outcome(str, signature)
    namespace = {'builtins': __import__('builtins')}
    try:
        exec(f'def f{text}: ...', namespace)
        read = inspect.signature(namespace['f'])
    except Exception as error:
        report.violation('declaration', text, 'a Python declaration',
                         repr(error))
        return
    actual = [(K(p.kind), p.name, p.annotation, p.default)
              for p in read.parameters.values()]
    expected = [(p.kind, p.name, p.annotation,
                 p.default if isinstance(p, sigs.OptionalParameter)
                 and p.has_default else inspect.Parameter.empty)
                for p in signature.parameters]
    if actual != expected:
        report.violation('declaration', text, expected, actual)


def contents(report):
    """Annotations and defaults in every parameter."""
    random = report.random
    pool = list(sigs.shapes(2, 2, 2))
    for _ in range(4000 if report.thorough else 500):
        shape = [(optional, kind, name, values.generate(random, 2),
                  (random.choice([None, values.atom(None), values.atom(0),
                                  values.atom(''), values.atom(False),
                                  values.atom(int), ('tuple', ()),
                                  ('list', ()), values.atom(Ellipsis)])
                   if optional and kind not in STARS else None))
                 for kind, name, optional in random.choice(pool)]
        made = samples.build_signature((shape, values.generate(random, 2)))
        report.count('plain signatures', str(shape))
        check(report, made, expected_text(made.parameters, made.returns))
        for p in made.parameters:
            report.count('parameters')
            check(report, p, parameter_text(p))
        if report.full:
            return


PROBES = [layout, contents]
