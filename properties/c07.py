import itertools
import typing as t

from contracts import equality, model_equality
from harness import samples, sigs, values
from paradigm._core import annotated

from .common import ANNOTATED, MODELS, NAMES_ARE_STRINGS

PROOFS = [*equality.proofs(), *model_equality.proofs()]
SOURCES = (MODELS, ANNOTATED)
ASSUMPTIONS = (NAMES_ARE_STRINGS,)

K = sigs.K


def compare(report, key, case, left, right, expected=None):
    """Asks all questions on a pair."""
    answers = {'left == right': sigs.outcome(lambda: left == right),
               'right == left': sigs.outcome(lambda: right == left),
               'not left != right': sigs.outcome(
                       lambda: not (left != right))}
    if any(type(answer) is not bool for answer in answers.values()):
        report.violation(key, case, 'plain bool', answers)
    elif len(set(answers.values())) > 1:
        report.violation(key, case, 'the same answers', answers)
    elif expected is not None and answers['left == right'] is not expected:
        report.violation(key, case, expected, answers)
    return answers['left == right']


def annotation_pair(report, case, left, right, expected=None):
    answers = [sigs.outcome(annotated.are_equal, left, right),
               sigs.outcome(annotated.are_equal, right, left)]
    if any(type(answer) is not bool for answer in answers):
        report.violation('annotations', case, 'plain bool', answers)
    elif answers[0] is not answers[1]:
        report.violation('annotations', case, 'symmetric answers', answers)
    elif expected is not None and answers[0] is not expected:
        report.violation('annotations', case, expected, answers)
    return answers[0]


def nearby(random, description):
    """A description differing in one place."""
    sort, *rest = description
    places = []
    for index, part in enumerate(rest):
        if isinstance(part, tuple) and sort not in (
                'literal', 'atom') and (sort, index) != ('annotated', 1):
            if part and isinstance(part[0], str):
                places.append((index, None))
            else:
                places.extend((index, i) for i in range(len(part)))
    if not places or random.random() < .3:
        if sort == 'typevar' and random.random() < .8:
            name, bound, constraints, variance = rest
            return random.choice([
                (sort, name + '_', bound, constraints, variance),
                (sort, name, bound, constraints,
                 'co' if variance != 'co' else 'in'),
                (sort, name, values.atom(dict), (), variance),
                (sort, name, None, (values.atom(dict), values.atom(list)),
                 variance)])
        if sort == 'newtype':
            return sort, 'Other', rest[1]
        if sort in ('union', 'list', 'tuple') and len(rest[0]) > 2:
            return sort, rest[0][:-1]
        if sort in ('list', 'tuple') and len(rest[0]) == 2:
            return sort, rest[0][::-1]
        if sort in ('typing', 'pep585') and len(rest[1]) == 2:
            return sort, rest[0], rest[1][::-1]
        return values.generate(random, 1)
    index, inner = random.choice(places)
    part = rest[index]
    if inner is None:
        part = nearby(random, part)
    else:
        part = (*part[:inner], nearby(random, part[inner]),
                *part[inner + 1:])
    return (sort, *rest[:index], part, *rest[index + 1:])


def odd(description, inside=None):
    """
    Whether typing may give a value of other shape or one which Python
    itself is not able to compare.
    """
    sort, *rest = description
    if sort in ('union', 'bar') and (
            any(item[0] in ('union', 'bar') or item == values.atom(None)
                for item in rest[0])
            or len(set(map(values.loose, rest[0]))) < len(rest[0])):
        return True
    if sort == 'annotated' and rest[0][0] == 'annotated':
        return True
    if inside is not None and sort in ('list', 'tuple'):
        return True
    if inside == 'foreign' and sort in VARIABLES:
        return True
    if sort in ('literal', 'atom'):
        return False
    if sort not in ('list', 'tuple', 'newtype', *VARIABLES):
        inside = ('foreign' if sort in ('bar', 'pep585')
                  else inside or 'typing')
    return any(odd(part, inside) if isinstance(part[0], str) else
               any(odd(item, inside) for item in part)
               for part in rest if isinstance(part, tuple) and part
               and isinstance(part[0], (str, tuple)))


VARIABLES = 'typevar', 'paramspec', 'args', 'kwargs', 'newtype'


def annotations(report):
    """Pairs built anew and pairs differing in one place."""
    random = report.random
    for _ in range(20000 if report.thorough else 2500):
        description = values.generate(random, random.randint(0, 4))
        left = values.build(description)
        right = values.build(description, random)
        case = f'{left} and {right} built from the same parts'
        report.count('pairs of equal annotations', case)
        annotation_pair(report, case, left, right, True)
        annotation_pair(report, f'{left} and itself', left, left, True)
        other = nearby(random, description)
        try:
            right = values.build(other, random)
        except Exception:
            continue  # no such type
        if odd(other):
            continue
        # the same up to spelling is left to the laws
        expected = (None if values.loose(other) == values.loose(description)
                    else False)
        case = f'{left!r} and {right!r}: {description}, {other}'
        report.count('pairs of different annotations', case)
        annotation_pair(report, case, left, right, expected)
        if report.full:
            return


def laws(report):
    """Equivalence on all triples of mixed kinds."""
    random = report.random
    for size in (150,) * (10 if report.thorough else 2):
        descriptions = [values.generate(random, random.randint(0, 2))
                        for _ in range(size // 3)]
        descriptions += [values.atom(v) for v in values.DEFAULTS]
        descriptions += [('bar', (values.atom(int), values.atom(str))),
                         ('union', (values.atom(int), values.atom(str))),
                         ('typing', t.List, (values.atom(int),)),
                         ('pep585', list, (values.atom(int),)),
                         ('list', (values.atom(int), values.atom(str))),
                         ('tuple', (values.atom(int), values.atom(str))),
                         ('literal', (1, 2)), ('literal', ('a',)),
                         ('typevar', 'T', None, (), 'in'),
                         ('paramspec', 'T'), ('args', 'T'), ('kwargs', 'T')]
        pool = []
        for description in descriptions:
            pool.append(values.build(description))
            pool.append(values.build(description, random))
        pool += [bytearray(b'text'), range(2), [0, 1], b'', bytearray(), '',
                 [], (), {}, set(), frozenset(), memoryview(b'text'),
                 'int', b'int', 1.0]
        rows = []
        for left in pool:
            row = []
            for right in pool:
                report.count('pairs of mixed values')
                answer = sigs.outcome(annotated.are_equal, left, right)
                if type(answer) is not bool:
                    report.violation('laws', f'{left!r} and {right!r}',
                                     'plain bool', repr(answer))
                row.append(answer)
            rows.append(row)
        if report.violations:
            return
        for i, j in itertools.product(range(len(pool)), repeat=2):
            if i == j and not rows[i][i]:
                report.violation('reflexivity', repr(pool[i]), True, False)
            if rows[i][j] is not rows[j][i]:
                report.violation('symmetry', f'{pool[i]!r} and {pool[j]!r}',
                                 rows[i][j], rows[j][i])
            if rows[i][j]:
                for k, (first, second) in enumerate(zip(rows[i], rows[j])):
                    if first is not second:
                        report.violation(
                                'transitivity',
                                f'{pool[i]!r}, {pool[j]!r}, {pool[k]!r}',
                                'equivalence', 'equal ones are related '
                                'differently to the third one')
            if report.full:
                return


def parameters(report):
    random = report.random
    for _ in range(20 if report.thorough else 3):
        descriptions = list(samples.parameter_descriptions(random, 40))
        # neighbours differing in one part
        for description in list(descriptions[:8]):
            for index, values_ in ((2, ('z',)), (3, (values.atom(dict),
                                                     values.atom(None)))):
                for value in values_:
                    descriptions.append((*description[:index], value,
                                         *description[index + 1:]))
            if description[0] and description[4] is not None:
                descriptions.append((*description[:4], None))
                descriptions.append((*description[:4], values.atom('other')))
            elif description[0] and description[1] in (
                    K.POSITIONAL_ONLY, K.POSITIONAL_OR_KEYWORD,
                    K.KEYWORD_ONLY):
                descriptions.append((*description[:4], values.atom(None)))
                descriptions.append((False, *description[1:4], None))
        built = [(d, samples.build_parameter(d), samples.build_parameter(d, random))
                 for d in descriptions]
        for a, x, _ in built:
            for b, _, y in built:
                case = f'{x!r} and {y!r}'
                report.count('pairs of parameters', case)
                compare(report, 'parameters', case, x, y, samples.relation(a, b))
                if report.full:
                    return


def signatures(report):
    random = report.random
    plain = []
    for _ in range(4000 if report.thorough else 500):
        description = samples.signature_description(random)
        left = samples.build_signature(description)
        other = samples.mutated(random, *description)
        for right_description in (description, other):
            try:
                right = samples.build_signature(right_description, random)
            except (ValueError, TypeError):
                continue
            case = f'{left!r} and {right!r}'
            report.count('pairs of plain signatures', case)
            compare(report, 'plain signatures', case, left, right,
                    samples.related(description, right_description))
        plain.append((description, left))
        if report.full:
            return
    for _ in range(3000 if report.thorough else 500):
        chosen = random.choices(plain, k=random.randint(2, 3))
        other = list(chosen)
        choice = random.random()
        if choice < .3:
            other[random.randrange(len(other))] = random.choice(plain)
        elif choice < .6:
            random.shuffle(other)
        elif choice < .7:
            other.append(random.choice(plain))
        elif choice < .8 and len(other) > 2:
            other.pop()
        left = sigs.OverloadedSignature(*[s for _, s in chosen])
        right = sigs.OverloadedSignature(*[samples.build_signature(d, random)
                                           for d, _ in other])
        found = ([False] if len(chosen) != len(other) else
                 [samples.related(a, b) for (a, _), (b, _) in zip(chosen, other)])
        expected = (False if False in found
                    else None if None in found else True)
        case = f'{left!r} and {right!r}'
        report.count('pairs of overloaded signatures', case)
        compare(report, 'overloaded signatures', case, left, right, expected)
        compare(report, 'mixed', f'{left} and its alternative', left,
                left.signatures[0], False)
        if report.full:
            return


def foreign(report):
    parameter = sigs.parameter(K.KEYWORD_ONLY, 'x', True)
    required = sigs.parameter(K.KEYWORD_ONLY, 'x', False)
    plain = sigs.PlainSignature(required, returns=int)
    empty = sigs.PlainSignature(returns=None)
    overloaded = sigs.OverloadedSignature(plain, empty)
    ours = [parameter, required, plain, empty, overloaded]
    others = [None, 0, 1, '', 'x', (), [], {}, object(), int, NotImplemented,
              Ellipsis, plain.parameters, overloaded.signatures,
              [required], repr(plain), str(plain), K.KEYWORD_ONLY,
              (required,), type(plain), hash(plain)]
    for left in ours:
        for right in ours:
            report.count('pairs of different classes')
            compare(report, 'classes', f'{left!r} and {right!r}', left,
                    right, left is right)
        for right in others:
            case = f'{left!r} and {right!r}'
            report.count('foreign objects', case)
            compare(report, 'foreign', case, left, right, False)


PROBES = [foreign, annotations, laws, parameters, signatures]
