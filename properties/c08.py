from contracts import hashing
from harness import samples, sigs, values

from .common import ANNOTATED, MODELS, NAMES_ARE_STRINGS

PROOFS = hashing.proofs()
SOURCES = (MODELS, ANNOTATED)
ASSUMPTIONS = (NAMES_ARE_STRINGS,
               'what equality of parameters and signatures is: their '
               'contracts discharged for C07')

K = sigs.K


class Unhashable:
    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, Unhashable) and self.value == other.value

    __hash__ = None


PLAIN = [lambda: [], lambda: {}, lambda: {1: [2]}, lambda: {1, 2},
         lambda: [[], [{}]], lambda: ([],), lambda: Unhashable([1]),
         lambda: bytearray(b'a'), lambda: 1, lambda: 1., lambda: True,
         lambda: None, lambda: 0, lambda: False, lambda: -1, lambda: -2,
         lambda: 'text', lambda: b'text', lambda: (), lambda: frozenset([1]),
         lambda: frozenset([1.])]


def check(report, case, left, right):
    """Hashes of objects which can be equal."""
    hashes = [sigs.outcome(hash, v) for v in (left, right)]
    if any(type(h) is not int for h in hashes):
        report.violation('hash', case, 'integers', repr(hashes))
        return
    if sigs.outcome(lambda: left == right) is True:
        report.count('equal pairs', case)
        if hashes[0] != hashes[1]:
            report.violation('hash', case, 'the same hashes', repr(hashes))
        if (sigs.outcome(lambda: left in {right}) is not True
                or sigs.outcome(lambda: {right: 1}.get(left)) != 1
                or sigs.outcome(lambda: len({left, right})) != 1):
            report.violation('lookup', case, 'found in set and dictionary',
                             'not found')
    else:
        report.count('unequal pairs', case)
    if hashes[0] != sigs.outcome(hash, left):
        report.violation('hash', case, 'the same hash again', repr(hashes))


def parameters(report):
    random = report.random
    for _ in range(300 if report.thorough else 40):
        descriptions = list(samples.parameter_descriptions(random, 40))
        for description in descriptions:
            left = samples.build_parameter(description)
            right = samples.build_parameter(description, random)
            check(report, f'{left!r} and {right!r} built from the same '
                          'parts', left, right)
        if report.full:
            return


def values_of_parameters(report):
    """All pairs of parameters with hard annotations and defaults."""
    made = []
    for kind in K:
        for name in ('x', 'y'):
            for make in PLAIN:
                for other in PLAIN[:3]:
                    given = dict(annotation=make(), kind=kind, name=name)
                    made.append(sigs.OptionalParameter(**given))
                    if kind not in (K.VARIADIC_POSITIONAL,
                                    K.VARIADIC_KEYWORD):
                        made.append(sigs.RequiredParameter(**given))
                        made.append(sigs.OptionalParameter(
                                annotation=other(), kind=kind, name=name,
                                default=make()))
    groups = {}
    for p in made:
        groups.setdefault((p.kind, p.name), []).append(p)
    for group in groups.values():
        for left in group:
            right = report.random.choice(group)
            check(report, f'{left!r} and {right!r}', left, right)
        for right in group:
            check(report, f'{group[0]!r} and {right!r}', group[0], right)


def signatures(report):
    random = report.random
    plain = []
    for _ in range(8000 if report.thorough else 1000):
        description = samples.signature_description(random)
        left = samples.build_signature(description)
        right = samples.build_signature(description, random)
        check(report, f'{left!r} and {right!r}', left, right)
        plain.append(description)
    for make in PLAIN:
        for other in PLAIN:
            made = [sigs.PlainSignature(
                    sigs.OptionalParameter(annotation=make(),
                                           default=other(),
                                           kind=K.KEYWORD_ONLY, name='x'),
                    returns=make()) for _ in range(2)]
            check(report, f'{made[0]!r} built twice', *made)
            made = [sigs.OverloadedSignature(*made, s) for s in made]
            check(report, f'{made[0]!r} built twice', *made)
    for _ in range(3000 if report.thorough else 400):
        chosen = random.choices(plain, k=random.randint(2, 4))
        left, right = [sigs.OverloadedSignature(
                *[samples.build_signature(d, r) for d in chosen])
            for r in (None, random)]
        check(report, f'{left!r} and {right!r}', left, right)
        if report.full:
            return


PROBES = [parameters, values_of_parameters, signatures]
