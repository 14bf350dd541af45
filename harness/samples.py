"""Parameters and signatures described by trees and built anew from them."""
from . import sigs, values

K = sigs.K


def parameter_descriptions(random, size):
    annotation_pool = [values.generate(random, random.randint(0, 2))
                       for _ in range(4)] + [values.atom(int)]
    default_pool = ([values.atom(v) for v in values.DEFAULTS]
                    + [('list', (values.atom(1), values.atom('a'))),
                       ('tuple', ()), ('list', ()),
                       ('list', (values.atom(1),))] + annotation_pool[:2])
    for _ in range(size):
        kind = random.choice(list(K))
        variadic = kind in (K.VARIADIC_POSITIONAL, K.VARIADIC_KEYWORD)
        optional = variadic or random.random() < .6
        default = (random.choice(default_pool)
                   if optional and not variadic and random.random() < .7
                   else None)
        yield (optional, kind, random.choice(('x', 'y', 'self')),
               random.choice(annotation_pool), default)


def build_parameter(description, random=None):
    optional, kind, name, annotation, default = description
    given = {'annotation': values.build(annotation, random), 'kind': kind,
             'name': ''.join(list(name))}
    if default is not None:
        given['default'] = values.build(default, random)
    return (sigs.OptionalParameter if optional
            else sigs.RequiredParameter)(**given)


def relation(left, right):
    """Expected equality: None if it depends on spelling only."""
    if left[:3] != right[:3]:
        return False
    result = True
    for a, b in zip(left[3:], right[3:]):
        if (a is None) is not (b is None):
            return False
        if a is None or values.key(a) == values.key(b):
            continue
        if values.loose(a) != values.loose(b):
            return False
        result = None
    return result


def mutated(random, shape, returns):
    """Description of a signature differing in one place or not at all."""
    shape = list(shape)
    choice = random.random()
    if choice < .2 or not shape:
        return shape, (values.generate(random, 1) if choice < .1 else
                       returns)
    index = random.randrange(len(shape))
    optional, kind, name, annotation, default = shape[index]
    if choice < .35:
        del shape[index]
    elif choice < .5:
        shape[index] = optional, kind, name + '_', annotation, default
    elif choice < .65:
        shape[index] = (optional, kind, name, values.generate(random, 1),
                        default)
    elif choice < .8 and default is not None:
        shape[index] = (optional, kind, name, annotation,
                        random.choice((None, values.atom('another'))))
    else:
        other = random.randrange(len(shape))
        shape[index], shape[other] = shape[other], shape[index]
    return shape, returns


def signature_description(random):
    pool = list(sigs.shapes(1, 2, 2))
    result = []
    for kind, name, optional in random.choice(pool):
        variadic = kind in (K.VARIADIC_POSITIONAL, K.VARIADIC_KEYWORD)
        result.append((optional, kind, name, values.generate(random, 1),
                       (random.choice((None, values.atom(1),
                                       values.atom(None),
                                       ('list', (values.atom(1),))))
                        if optional and not variadic else None)))
    return result, values.generate(random, 2)


def build_signature(description, random=None):
    shape, returns = description
    return sigs.PlainSignature(*[build_parameter(d, random) for d in shape],
                               returns=values.build(returns, random))


def related(left, right):
    (a, r), (b, s) = left, right
    if len(a) != len(b):
        return False
    found = [relation(x, y) for x, y in zip(a, b)]
    found.append(True if values.key(r) == values.key(s) else
                 None if values.loose(r) == values.loose(s) else False)
    return False if False in found else None if None in found else True
