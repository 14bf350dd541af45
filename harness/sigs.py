"""Small signatures, arguments and the behaviour of Python itself on them."""
import itertools

from paradigm._core import models
from paradigm._core.models import (OptionalParameter, OverloadedSignature,
                                   ParameterKind, PlainSignature,
                                   RequiredParameter)

K = ParameterKind
NAMES = {K.POSITIONAL_ONLY: ['a', 'self', 'c'],
         K.POSITIONAL_OR_KEYWORD: ['x', 'args', 'y'],
         K.KEYWORD_ONLY: ['k', 'cls', 'm']}


class Marker:
    """Value comparable only by identity."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'


_annotations = {}


def annotation_of(name):
    """Each parameter has own annotation."""
    return _annotations.setdefault(name, Marker(f'A_{name}'))


# defaults that are easily taken for absence of a default
ODD = (None, 0, '', False, [], (), Ellipsis, NotImplemented)


def default_of(name, with_default):
    """
    Default of the parameter: of its own, one of odd ones chosen by a number
    or none at all.
    """
    if with_default is False:
        return ()
    if with_default is True:
        return (f'd_{name}',)
    index = sorted(sum(NAMES.values(), [])).index(name)
    return (ODD[(with_default + index) % len(ODD)],)


def parameter(kind, name, optional, with_default=True, annotation=None):
    if annotation is None:
        annotation = annotation_of(name)
    if kind is K.VARIADIC_KEYWORD or kind is K.VARIADIC_POSITIONAL:
        return OptionalParameter(annotation=annotation, kind=kind, name=name)
    if optional:
        default = default_of(name, with_default)
        return (OptionalParameter(annotation=annotation, default=default[0],
                                  kind=kind, name=name)
                if default
                else OptionalParameter(annotation=annotation, kind=kind,
                                       name=name))
    return RequiredParameter(annotation=annotation, kind=kind, name=name)


def shapes(max_po=2, max_pk=2, max_ko=2):
    """Well-formed lists of (kind, name, is optional)."""
    for po, pk in itertools.product(range(max_po + 1), range(max_pk + 1)):
        for required in range(po + pk + 1):
            positionals = [
                (K.POSITIONAL_ONLY, NAMES[K.POSITIONAL_ONLY][i],
                 i >= required) for i in range(po)
            ] + [(K.POSITIONAL_OR_KEYWORD,
                  NAMES[K.POSITIONAL_OR_KEYWORD][i], po + i >= required)
                 for i in range(pk)]
            for vp, vk, ko in itertools.product((0, 1), (0, 1),
                                                range(max_ko + 1)):
                for flags in itertools.product((False, True), repeat=ko):
                    yield (positionals
                           + [(K.VARIADIC_POSITIONAL, 'rest', True)] * vp
                           + [(K.KEYWORD_ONLY, NAMES[K.KEYWORD_ONLY][i],
                               flags[i]) for i in range(ko)]
                           + [(K.VARIADIC_KEYWORD, 'options', True)] * vk)


def signature(shape, with_default=True, returns=None):
    return PlainSignature(*[parameter(*item, with_default)
                            for item in shape], returns=returns)


def source(shape, name='f'):
    parts = []
    kinds = [kind for kind, _, _ in shape]
    slash_after = max((i for i, k in enumerate(kinds)
                       if k is K.POSITIONAL_ONLY), default=None)
    star = False
    for index, (kind, param, optional) in enumerate(shape):
        if kind is K.VARIADIC_POSITIONAL:
            star = True
            parts.append('*' + param)
        elif kind is K.VARIADIC_KEYWORD:
            parts.append('**' + param)
        else:
            if kind is K.KEYWORD_ONLY and not star:
                star = True
                parts.append('*')
            parts.append(param + (f'="d_{param}"' if optional else ''))
        if index == slash_after:
            parts.append('/')
    return (f'def {name}({", ".join(parts)}):\n    return '
            f'{{{", ".join(repr(p) + ": " + p for _, p, _ in shape)}}}')


def function(shape):
    namespace = {}
    exec(source(shape), namespace)
    return namespace['f']


def calls(f, args, kwargs):
    """Whether Python binds the arguments to the function."""
    try:
        f(*args, **kwargs)
    except TypeError:
        return False
    return True


def arguments(shape, extra=('z',), max_extra_positionals=1,
              max_keywords=None):
    positionals = sum(kind in (K.POSITIONAL_ONLY, K.POSITIONAL_OR_KEYWORD)
                      for kind, _, _ in shape)
    names = [name for kind, name, _ in shape] + list(extra)
    limit = len(names) if max_keywords is None else max_keywords
    for nargs in range(positionals + max_extra_positionals + 1):
        args = tuple(range(nargs))
        for size in range(limit + 1):
            for chosen in itertools.combinations(names, size):
                yield args, {name: f'v_{name}' for name in chosen}


def extendable(shape, f, args, kwargs):
    """
    Whether the arguments can be completed to a call accepted by Python:
    found by search over the missing arguments.
    """
    if calls(f, args, kwargs):
        return True
    positionals = [name for kind, name, _ in shape
                   if kind in (K.POSITIONAL_ONLY, K.POSITIONAL_OR_KEYWORD)]
    keywords = [name for kind, name, _ in shape
                if kind in (K.POSITIONAL_OR_KEYWORD, K.KEYWORD_ONLY)
                and name not in kwargs]
    for more in range(len(positionals) + 1):
        new_args = args + tuple(range(more))
        for size in range(len(keywords) + 1):
            for chosen in itertools.combinations(keywords, size):
                if calls(f, new_args, {**kwargs,
                                       **dict.fromkeys(chosen)}):
                    return True
    return False


def shape_text(shape):
    return source(shape).splitlines()[0][4:-1]


def bound(shape, args, kwargs, with_default=True):
    """
    Parameters left after binding of expected arguments: tuples of kind,
    name, optionality and default.
    """
    positionals = [item for item in shape
                   if item[0] in (K.POSITIONAL_ONLY,
                                  K.POSITIONAL_OR_KEYWORD)]
    rest = list(shape[min(len(args), len(positionals)):])
    result, bound_found = [], False
    for kind, name, optional in rest:
        by_name = kind in (K.POSITIONAL_OR_KEYWORD, K.KEYWORD_ONLY)
        passed = by_name and name in kwargs
        bound_found = bound_found or passed
        if kind is K.VARIADIC_POSITIONAL and bound_found:
            continue
        variadic = kind in (K.VARIADIC_POSITIONAL, K.VARIADIC_KEYWORD)
        if passed:
            default = (kwargs[name],)
        elif optional and not variadic:
            default = default_of(name, with_default)
        else:
            default = ()
        if by_name and bound_found:
            kind = K.KEYWORD_ONLY
        result.append((kind, name, optional or passed, default))
    return result


def described(parameters):
    """Parameters in the form of ``bound``."""
    return [(p.kind, p.name, isinstance(p, OptionalParameter),
             ((p.default,) if isinstance(p, OptionalParameter)
              and p.has_default else ()))
            for p in parameters]


def outcome(function, *args, **kwargs):
    """Result or exception of the code under test."""
    try:
        return function(*args, **kwargs)
    except Exception as error:
        return error
