import copy
import pickle

from contracts import frames
from harness import sigs

from .common import MODELS, ANNOTATED, NAMES_ARE_STRINGS

PROOFS = frames.proofs()
SOURCES = (MODELS, ANNOTATED)
ASSUMPTIONS = (NAMES_ARE_STRINGS,
               'methods of annotations, defaults and arguments change '
               'nothing of signatures',
               'answers asked again are the same: corollary of the exact '
               'contracts (C01, C02, C04, C06, C07, C11), which depend on '
               'the signature and the arguments only, and of these frame '
               'conditions')

K = sigs.K
BASES = (sigs.PlainSignature, sigs.OverloadedSignature,
         sigs.RequiredParameter, sigs.OptionalParameter)


class Hostile:
    """Value which can be neither compared nor hashed."""

    def __eq__(self, other):
        raise ArithmeticError

    def __bool__(self):
        raise ArithmeticError

    __hash__ = None


def state(v):
    """Everything observable of an object along with identities."""
    if isinstance(v, sigs.OverloadedSignature):
        return (id(v), [*map(id, v.signatures)], [*map(state, v.signatures)],
                type(v.signatures))
    if isinstance(v, sigs.PlainSignature):
        return (id(v), [*map(id, v.parameters)], [*map(state, v.parameters)],
                id(v.returns), type(v.parameters), frozen(v.returns))
    return (id(v), v.name, v.kind, id(v.annotation), frozen(v.annotation),
            *((v.has_default, *((id(v.default), frozen(v.default))
                                if v.has_default else ()))
              if isinstance(v, sigs.OptionalParameter) else ()))


def frozen(v):
    """Contents of mutable values."""
    return repr(v) if isinstance(v, (list, dict, set, tuple)) else None


def answer(v):
    """Form of a result in which it can be compared later."""
    if isinstance(v, BASES):
        # copies of values are compared as texts
        if isinstance(v, sigs.OverloadedSignature):
            return 'overloaded', [*map(answer, v.signatures)]
        if isinstance(v, sigs.PlainSignature):
            return 'plain', [*map(answer, v.parameters)], str(v.returns)
        return (type(v), v.name, v.kind, str(v.annotation),
                repr(v.default) if getattr(v, 'has_default', False) else
                None)
    if isinstance(v, Exception):
        return type(v), None
    return type(v), v


def question(random, pool, shape_of):
    """An operation with the check of containers given to it."""
    index = random.randrange(len(pool))
    v = pool[index]
    sort = random.choice(('all_set', 'expects', 'bind', 'all_set', 'expects',
                          'bind', 'eq', 'hash', 'str', 'repr', 'pickle',
                          'copy', 'deepcopy', 'parameters'))
    if sort in ('all_set', 'expects', 'bind'):
        names = [name for shape in shape_of[index] for _, name, _ in shape]
        args = [random.choice(ARGUMENTS)
                for _ in range(random.choice((0, 0, 1, 1, 2, 3, 5)))]
        kwargs = {name: random.choice(ARGUMENTS)
                  for name in dict.fromkeys(random.choices(
                      [*names, 'z', 'self'], k=random.choice((0, 1, 1, 2,
                                                              3))))}
        return index, sort, args, kwargs
    if sort == 'eq':
        return index, sort, [random.randrange(len(pool))], {}
    return index, sort, [], {}


ARGUMENTS = [1, 'a', None, [1, [2]], {'a': [1]}, (), {1}, Hostile()]


def ask(pool, asked):
    index, sort, args, kwargs = asked
    v = pool[index]
    if sort == 'eq':
        return [v == pool[args[0]], v != pool[args[0]], v in [pool[args[0]]]]
    if sort == 'pickle':
        return pickle.loads(pickle.dumps(v))
    if sort == 'parameters':
        return [*getattr(v, 'parameters', ()), *getattr(v, 'signatures', ())]
    functions = {'hash': hash, 'str': str, 'repr': repr, 'copy': copy.copy,
                 'deepcopy': copy.deepcopy}
    if sort in functions:
        return functions[sort](v)
    return getattr(v, sort)(*args, **kwargs)


def text(asked, pool):
    index, sort, args, kwargs = asked
    arguments = [*map(show, args), *[f'{k}={show(v)}'
                                     for k, v in kwargs.items()]]
    return f'{sort} of {pool[index]} with ({", ".join(arguments)})'


def show(v):
    return 'Hostile()' if isinstance(v, Hostile) else repr(v)


def contents(args, kwargs):
    return ([*map(id, args)], [*map(show, args)],
            [(k, id(v), show(v)) for k, v in kwargs.items()])


def make_pool(random, shapes):
    """Signatures, alike ones included: hashes are equal."""
    pool, shape_of = [], []
    for _ in range(5):
        shape = random.choice(shapes)
        returns = random.choice((None, int, [1], {'a': 1}))
        for _ in range(random.randint(1, 2)):
            pool.append(sigs.PlainSignature(*[
                sigs.parameter(*item, with_default=random.random() < .5,
                               annotation=random.choice(
                                       (int, str, 'text', [1])))
                for item in shape], returns=returns))
            shape_of.append([shape])
    for _ in range(2):
        chosen = random.choices(range(len(pool)), k=random.randint(2, 3))
        if any(len(shape_of[i]) > 1 for i in chosen):
            continue
        pool.append(sigs.OverloadedSignature(*[pool[i] for i in chosen]))
        shape_of.append([shape_of[i][0] for i in chosen])
    return pool, shape_of


def histories(report):
    random = report.random
    shapes = list(sigs.shapes(2, 2, 2))
    for _ in range(1500 if report.thorough else 120):
        pool, shape_of = make_pool(random, shapes)
        before = [*map(state, pool)]
        known = []
        for step in range(60):
            if known and random.random() < .35:
                asked, expected = random.choice(known)
            else:
                asked, expected = question(random, pool, shape_of), None
            _, sort, args, kwargs = asked
            given = contents(args, kwargs)
            result = sigs.outcome(ask, pool, asked)
            report.count('operations')
            if contents(args, kwargs) != given:
                report.violation('arguments', text(asked, pool),
                                 'arguments are left as they were',
                                 repr(contents(args, kwargs)))
            after = sigs.outcome(lambda: [*map(state, pool)])
            if after != before:
                report.violation('signatures', text(asked, pool),
                                 'signatures are left as they were',
                                 f'after {step} operations they differ')
                break
            result = sigs.outcome(lambda: answer(result) if not isinstance(
                    result, list) else [*map(answer, result)])
            if expected is None:
                known.append((asked, result))
            elif result != expected:
                report.violation('answers', text(asked, pool),
                                 f'the answer as before: {expected}',
                                 f'{result}')
                break
        if report.full:
            return


def independence(report):
    """
    Results of binding are independent of what was asked of other, maybe
    alike or dead, signatures.
    """
    random = report.random
    shapes = list(sigs.shapes(1, 2, 1))
    for shape in random.sample(shapes, len(shapes) if report.thorough
                               else 120):
        f = sigs.function(shape)
        arguments = list(sigs.arguments(shape, max_keywords=2))
        for args, kwargs in random.sample(arguments, min(len(arguments),
                                                         12)):
            for annotation in (int, str, [1], [2]):
                for with_default in (True, False):
                    s = sigs.PlainSignature(*[
                        sigs.parameter(*item, with_default=with_default,
                                       annotation=annotation)
                        for item in shape], returns=annotation)
                    report.count('fresh signatures')
                    case = f'{s} with {args}, {kwargs}'
                    if sigs.outcome(s.all_set, *args, **kwargs) is not (
                            sigs.calls(f, args, kwargs)):
                        report.violation('answers', case,
                                         'answer of Python itself',
                                         'another one')
                    result = sigs.outcome(s.bind, *args, **kwargs)
                    if isinstance(result, Exception):
                        continue
                    if (sigs.described(result.parameters)
                            != sigs.bound(shape, args, kwargs, with_default)
                            or result.returns is not annotation
                            or any(p.annotation is not annotation
                                   for p in result.parameters)):
                        report.violation('answers', case,
                                         'the parameters left', f'{result}')
            if report.full:
                return


def exposed(report):
    """What is given away can not be used to change a signature."""
    shapes = list(sigs.shapes(1, 1, 1))
    for shape in shapes:
        s = sigs.signature(shape)
        o = sigs.OverloadedSignature(s, s)
        for v, sequence in ((s, s.parameters), (o, o.signatures)):
            report.count('exposed sequences')
            before = state(v)
            for name in ('append', 'clear', 'reverse', 'pop'):
                method = getattr(sequence, name, None)
                if method is not None:
                    sigs.outcome(method, *([None] if name == 'append'
                                           else []))
            if state(v) != before:
                report.violation('exposed', f'{v}', 'immutable sequence',
                                 type(sequence).__name__)
        parameters = [*s.parameters]
        for v in (s, o, *parameters):
            given = getattr(v, '__getnewargs_ex__', None)
            if given is None:
                continue
            before = state(v)
            args, kwargs = given()
            kwargs.clear()
            report.count('exposed arguments of reconstruction')
            if state(v) != before:
                report.violation('exposed', f'{v}', 'own dictionary',
                                 'the one of the object')


PROBES = [histories, independence, exposed]
