"""
Annotations and defaults described by trees, built anew on every request.

A description is a tuple headed by its sort. ``build`` makes a value sharing
nothing but atoms with the other ones built from the same description,
``key`` tells which descriptions stand for equal values.
"""
import collections
import collections.abc
import types
import typing as t

import typing_extensions as te


class Outer:
    class Inner:
        pass


class Box(t.Generic[t.TypeVar('BoxValue')]):
    pass


Variadics = t.TypeVarTuple('Variadics') if hasattr(t, 'TypeVarTuple') else None
if Variadics is not None:
    class Many(t.Generic[t.Unpack[Variadics]]):
        pass
else:
    Many = None

CLASSES = (int, str, bytes, list, dict, Outer, Outer.Inner, Box, type, object,
           bool, collections.OrderedDict, types.SimpleNamespace)
ATOMS = (*CLASSES, None, type(None), Ellipsis, t.Any, t.Callable, t.List,
         NotImplemented)
DEFAULTS = (0, 1, -5, 'text', '', b'text', b'', 'int', None, Ellipsis, 2.5,
            10 ** 30, 'quoted \' and "', 'lines\n\\', 3 + 4j)
TYPING = {t.List: 1, t.Set: 1, t.FrozenSet: 1, t.Type: 1, t.Iterable: 1,
          t.Dict: 2, t.Mapping: 2, t.Tuple: None, Box: 1, t.Deque: 1,
          t.ClassVar: 1, t.DefaultDict: 2}
PEP585 = {list: 1, set: 1, type: 1, collections.deque: 1,
          collections.abc.Iterable: 1, dict: 2, tuple: None,
          collections.abc.Mapping: 2, collections.OrderedDict: 2}
BARS = tuple(c for c in CLASSES if c not in (object,))


def atom(value):
    return 'atom', value


def generate(random, depth, variables=True, evaluable=False):
    """Description of an annotation."""
    if depth <= 0 or random.random() < .15:
        choice = random.random()
        if choice < .75 or (evaluable and choice < .9):
            return atom(random.choice(ATOMS))
        if choice < .85 and not evaluable:
            return atom(random.choice(('int', 'Outer', '', b'int',
                                       'List[int]')))
        if variables:
            return generate_variable(random, depth, evaluable)
        return atom(int)
    sorts = ['typing', 'typing', 'pep585', 'union', 'union', 'optional',
             'literal', 'callable', 'empty', 'annotated', 'ellipsis']
    if hasattr(types, 'UnionType'):
        sorts.append('bar')
    if Many is not None:
        sorts.append('many')
    if not evaluable:
        sorts += ['tuple', 'list']
        if variables:
            sorts.append('newtype')
    sort = random.choice(sorts)

    def part(variables=variables):
        # arguments have to be acceptable for typing
        result = generate(random, depth - 1, variables, evaluable)
        while (result[0] in ('tuple', 'list') or result in (
                atom(Ellipsis), atom(NotImplemented), atom(''),
                atom('List[int]'), atom(b'int'))
               or (result[0] == 'typing' and result[1] is t.ClassVar)):
            result = generate(random, depth - 1, variables, evaluable)
        return result

    if sort in ('typing', 'pep585'):
        known = TYPING if sort == 'typing' else PEP585
        alias = random.choice(list(known))
        count = known[alias]
        if count is None:
            count = random.randint(1, 3)
        inner = variables and sort == 'typing'
        return sort, alias, tuple(part(inner) for _ in range(count))
    if sort == 'many':
        return 'typing', Many, tuple(part()
                                     for _ in range(random.randint(1, 3)))
    if sort == 'ellipsis':
        return random.choice([
            ('typing', t.Tuple, (part(), atom(Ellipsis))),
            ('pep585', tuple, (part(False), atom(Ellipsis)))])
    if sort == 'optional':
        inner = part()
        while (inner[0] in ('union', 'bar')
               or inner in (atom(None), atom(type(None)), atom(t.Any),
                            atom(object))):
            inner = part()
        return 'union', (inner, atom(type(None)))
    if sort in ('union', 'bar'):
        size = random.randint(2, 4)
        found = {}
        while len(found) < size:
            item = (part() if sort == 'union'
                    else random.choice([atom(random.choice(BARS)),
                                        atom(random.choice(BARS)),
                                        ('pep585', list, (part(False),))]))
            if item[0] in ('union', 'bar') or item == atom(None):
                continue
            found.setdefault(loose(item), item)
        return sort, tuple(found.values())
    if sort == 'literal':
        pool = [1, 2, 'a', 'b', 'int', b'a', None, '', 7]
        return 'literal', tuple(random.sample(pool, random.randint(1, 3)))
    if sort == 'callable':
        arguments = (None if random.random() < .2 else
                     tuple(part() for _ in range(random.randint(0, 2))))
        return 'callable', arguments, part()
    if sort == 'annotated':
        inner = part()
        if inner[0] == 'annotated':
            inner = atom(int)
        return 'annotated', inner, random.choice((1, 'note', None, (1,)))
    if sort == 'empty':
        return random.choice([('typing', t.Tuple, ()),
                              ('pep585', tuple, ()),
                              *([('typing', Many, ())] if Many else [])])
    if sort == 'newtype':
        return sort, random.choice(('Id', 'Key')), generate(
                random, depth - 1, variables)
    return sort, tuple(generate(random, depth - 1, variables)
                       for _ in range(random.randint(0, 3)))


def generate_variable(random, depth, evaluable=False):
    choice = random.random()
    name = random.choice(('T', 'U'))
    if choice < .6 or evaluable:
        bound = (generate_bound(random) if random.random() < .4 else None)
        constraints = (() if bound is not None or random.random() < .6 else
                       tuple(random.sample([atom(int), atom(str),
                                            atom(bytes), ('pep585', list,
                                                          (atom(int),))],
                                           random.randint(2, 3))))
        return ('typevar', name, bound, constraints,
                random.choice(('in', 'co', 'contra')))
    return random.choice(('paramspec', 'args', 'kwargs')), name


def generate_bound(random):
    return random.choice([atom(int), atom(Outer), ('pep585', list,
                                                   (atom(int),)),
                          ('typing', t.List, (atom(str),)),
                          ('union', (atom(int), atom(str)))])


def shuffled(random, items):
    items = list(items)
    if random is not None:
        random.shuffle(items)
    return items


def clear():
    """Forgets the values typing would give again."""
    for cleanup in getattr(t, '_cleanups', ()):
        cleanup()


_specs = {}


def build(description, random=None):
    """New value; members of unordered ones are shuffled by ``random``."""
    sort, *rest = description

    def made(items):
        return tuple(build(item, random) for item in items)

    if sort == 'atom':
        value, = rest
        if type(value) is str:
            # a text which is equal but not identical
            return ''.join(list(value))
        return value
    if sort == 'typing':
        alias, args = rest
        args = made(args)
        clear()
        return alias[args[0] if len(args) == 1 else args]
    if sort == 'pep585':
        origin, args = rest
        args = made(args)
        return types.GenericAlias(origin, args)
    if sort == 'union':
        args = made(shuffled(random, rest[0]))
        clear()
        return t.Union[args]
    if sort == 'bar':
        args = made(shuffled(random, rest[0]))
        result = args[0]
        for arg in args[1:]:
            result = result | arg
        return result
    if sort == 'literal':
        args = tuple(shuffled(random, rest[0]))
        clear()
        return te.Literal[args]
    if sort == 'callable':
        arguments, returns = rest
        arguments = Ellipsis if arguments is None else list(made(arguments))
        returns = build(returns, random)
        clear()
        return t.Callable[arguments, returns]
    if sort == 'annotated':
        inner, note = rest
        inner = build(inner, random)
        clear()
        return te.Annotated[inner, note]
    if sort == 'typevar':
        name, bound, constraints, variance = rest
        return t.TypeVar(name, *made(constraints),
                         bound=(None if bound is None
                                else build(bound, random)),
                         covariant=variance == 'co',
                         contravariant=variance == 'contra')
    if sort in ('paramspec', 'args', 'kwargs'):
        # specifications are told apart by identity
        spec = _specs.setdefault(rest[0], te.ParamSpec(rest[0]))
        return spec if sort == 'paramspec' else getattr(spec, sort)
    if sort == 'newtype':
        name, supertype = rest
        return t.NewType(name, build(supertype, random))
    if sort == 'list':
        return list(made(rest[0]))
    if sort == 'tuple':
        return made(rest[0])
    if sort == 'plain':
        # defaults built anew
        return rest[0]()
    raise ValueError(sort)


def key(description):
    """Equal for descriptions of equal values."""
    sort, *rest = description
    if sort == 'atom':
        value, = rest
        return sort, type(value), value
    if sort in ('union', 'bar', 'literal'):
        return sort, frozenset((key(item) if sort != 'literal'
                                else (type(item), item))
                               for item in rest[0])
    return (sort, *[(tuple(map(key, part)) if isinstance(part, tuple)
                     and all(isinstance(x, tuple) and x
                             and isinstance(x[0], str) for x in part)
                     and not (part and isinstance(part[0], str))
                     else key(part) if isinstance(part, tuple) and part
                     and isinstance(part[0], str) else part)
                    for part in rest])


def loose(description):
    """
    Different only for descriptions of certainly unequal values: spellings
    of the same type in different modules are not told apart.
    """
    sort, *rest = description
    if sort == 'atom':
        value, = rest
        value = type(None) if value is None else value
        return sort, type(value).__name__, repr(value)
    if sort in ('union', 'bar'):
        return 'union', frozenset(map(loose, rest[0]))
    if sort == 'literal':
        return sort, frozenset(map(repr, rest[0]))
    if sort in ('typing', 'pep585'):
        alias, args = rest
        return ('alias', t.get_origin(alias) or alias, tuple(map(loose,
                                                                 args)))
    if sort == 'callable':
        arguments, returns = rest
        return (sort, arguments and tuple(map(loose, arguments)),
                loose(returns))
    if sort == 'annotated':
        return sort, loose(rest[0]), repr(rest[1])
    if sort == 'typevar':
        name, bound, constraints, variance = rest
        return (sort, name, bound and loose(bound), tuple(map(loose,
                                                              constraints)),
                variance)
    if sort == 'newtype':
        return sort, rest[0], loose(rest[1])
    if sort in ('list', 'tuple'):
        return sort, tuple(map(loose, rest[0]))
    return description
