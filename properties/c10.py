import builtins
import collections
import sys
import types
import typing as t

from contracts import annotation_text, texts
from harness import samples, sigs, values
from paradigm._core import annotated, models

from .common import ANNOTATED, MODELS, NAMES_ARE_STRINGS

PROOFS = [*annotation_text.proofs(), *texts.proofs('__repr__')]
SOURCES = (MODELS, ANNOTATED)
ASSUMPTIONS = (NAMES_ARE_STRINGS,
               'annotations of unknown kinds have an evaluable Python '
               'representation')

K = sigs.K


class Package:
    """Modules by qualified names."""


def namespace():
    result = {name: getattr(models, name)
              for name in ('PlainSignature', 'OverloadedSignature',
                           'RequiredParameter', 'OptionalParameter',
                           'ParameterKind')}
    result.update({name: sys.modules[name]
                   for name in ('builtins', 'typing', 'collections', 'types',
                                'typing_extensions', 'enum')})
    result['harness'] = sys.modules['harness']
    result['collections'] = collections
    return result


NAMES = namespace()


def check(report, key, made, equal):
    text = sigs.outcome(repr, made)
    report.count(key, text)
    if type(text) is not str:
        report.violation(key, f'repr of {type(made).__qualname__}', 'text',
                         repr(text))
        return
    result = sigs.outcome(eval, text, dict(NAMES))
    if (isinstance(result, Exception) or type(result) is not type(made)
            or equal(result, made) is not True):
        report.violation(key, text, 'equal object after evaluation',
                         repr(result))


def same(left, right):
    return sigs.outcome(lambda: left == right)


def strictly(left, right):
    """
    Equality which does not rely on the one of the package in what can be
    compared otherwise.
    """
    if same(left, right) is not True:
        return False
    if isinstance(left, sigs.OverloadedSignature):
        return (len(left.signatures) == len(right.signatures)
                and all(map(strictly, left.signatures, right.signatures)))
    if isinstance(left, sigs.PlainSignature):
        return (len(left.parameters) == len(right.parameters)
                and all(map(strictly, left.parameters, right.parameters))
                and values_match(left.returns, right.returns))
    return ((left.name, left.kind, type(left))
            == (right.name, right.kind, type(right))
            and values_match(left.annotation, right.annotation)
            and (isinstance(left, sigs.RequiredParameter)
                 or (left.has_default is right.has_default
                     and (not left.has_default
                          or values_match(left.default, right.default)))))


def values_match(left, right):
    if (type(left) is not type(right)
            or len(t.get_args(left)) != len(t.get_args(right))):
        return False
    return sigs.outcome(annotated.are_equal, left, right) is True


class Point(t.NamedTuple):
    x: int


DEFAULTS = [values.atom(v) for v in values.DEFAULTS] + [
    values.atom(v) for v in (int, values.Outer.Inner, True, -0.0, (), (1,),
                             (None,), (1, 'a', (2,)), [], [1], [[], [int]],
                             [(1,), ()], {}, {'a': [1]}, {1}, frozenset(),
                             ((),), [None, Ellipsis], (int, [str]),
                             b'\x00"\'', type(None), type(Ellipsis),
                             NotImplemented, [type(None)], range(3),
                             slice(1, None), (type(None), int))]


def default(random):
    return random.choice(DEFAULTS)


def parameter_description(random, kind, name, optional):
    variadic = kind in (K.VARIADIC_POSITIONAL, K.VARIADIC_KEYWORD)
    return (optional, kind, name,
            values.generate(random, random.randint(0, 4), evaluable=True),
            default(random) if optional and not variadic
            and random.random() < .8 else None)


def annotations(report):
    """Each of the forms of annotations in every place."""
    atom = values.atom
    parts = [atom(v) for v in values.ATOMS
             if v not in (Ellipsis, NotImplemented)]
    forms = [*parts, atom(Ellipsis), atom(NotImplemented),
             *[('union', (p, atom(type(None)))) for p in parts
               if p not in (atom(None), atom(type(None)), atom(t.Any))],
             *[('union', (atom(type(None)), p)) for p in parts
               if p not in (atom(None), atom(type(None)), atom(t.Any))],
             *[('typing', t.List, (p,)) for p in parts],
             *[('pep585', list, (p,)) for p in parts],
             *[('tuple', (p,) * n) for p in parts for n in (1, 2)],
             *[('list', (p,) * n) for p in parts for n in (1, 2)],
             ('tuple', ()), ('list', ()), ('typing', t.Tuple, ()),
             ('pep585', tuple, ()),
             *([('typing', values.Many, ()),
                ('typing', t.List, (('typing', values.Many, ()),))]
               if values.Many else []),
             ('typing', t.List, (('typing', t.Tuple, ()),)),
             ('typing', t.List, (('pep585', tuple, ()),)),
             *[('typing', t.Tuple, (p, atom(Ellipsis))) for p in parts],
             *[('callable', a, p) for p in parts
               for a in (None, (), (p,), (p, p))],
             ('callable', None, ('typing', t.Tuple, ())),
             *[('literal', v) for v in (('a',), (1,), (None,), (b'a',),
                                        ('a', 1, None), (True,), ('',))],
             ('bar', (atom(int), atom(str))),
             ('bar', (atom(values.Outer.Inner), ('pep585', list, (
                 atom(int),)))),
             ('union', (atom(int), atom(str), atom(type(None)))),
             ('union', (('typing', t.Tuple, ()), atom(type(None)))),
             ('union', (('literal', ('a',)), atom(type(None)))),
             *[('typevar', 'T', b, c, v)
               for b, c in ((None, ()), (atom(int), ()),
                            (None, (atom(int), ('typing', t.List,
                                                (atom(str),)))))
               for v in ('in', 'co', 'contra')],
             ('typing', values.Box, (('typevar', 'T', None, (), 'co'),))]
    for form in forms:
        made = values.build(form, report.random)
        check(report, 'parameters', sigs.RequiredParameter(
                annotation=made, kind=K.KEYWORD_ONLY, name='x'), strictly)
        check(report, 'parameters', sigs.OptionalParameter(
                annotation=int, default=made, kind=K.KEYWORD_ONLY, name='x'),
              strictly)
        check(report, 'plain signatures', sigs.PlainSignature(returns=made),
              strictly)
        check(report, 'plain signatures', sigs.PlainSignature(
                sigs.OptionalParameter(annotation=made,
                                       kind=K.VARIADIC_KEYWORD, name='x'),
                returns=made), strictly)
    for description in DEFAULTS:
        for kind in K:
            if kind not in (K.VARIADIC_POSITIONAL, K.VARIADIC_KEYWORD):
                check(report, 'parameters', sigs.OptionalParameter(
                        annotation=int, default=description[1], kind=kind,
                        name='имя'), strictly)


def signatures(report):
    random = report.random
    pool = list(sigs.shapes(2, 2, 2))
    plain = []
    for _ in range(6000 if report.thorough else 700):
        shape = [parameter_description(random, *item)
                 for item in map(lambda x: (x[0], x[1], x[2]),
                                 random.choice(pool))]
        description = shape, values.generate(random, random.randint(0, 4),
                                             evaluable=True)
        made = samples.build_signature(description, random)
        check(report, 'plain signatures', made, strictly)
        for parameter in made.parameters:
            check(report, 'parameters', parameter, strictly)
        plain.append(made)
        if report.full:
            return
    for _ in range(1000 if report.thorough else 150):
        chosen = random.choices(plain, k=random.randint(2, 4))
        check(report, 'overloaded signatures',
              sigs.OverloadedSignature(*chosen), strictly)


PROBES = [annotations, signatures]
