"""
Contracts of the handlers of equality of annotations and values.

The relation ``E`` stands for ``are_equal`` on the parts of the compared
values; by induction over the nesting it is an equivalence. Every handler is
proved to decide the relation written below for its kind of values, and the
relations are proved to be equivalences.
"""
import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, StrS, ValS, Gen, Lit, SBool, SInt, SStr,
                       SVal, Unsupported, VTup, new_iv)

E = z3.Function('equal', ValS, ValS, BOOL)
PYEQ = z3.Function('python_equal', ValS, ValS, BOOL)
TYPE = z3.Function('type_of', ValS, ValS)
KIND = z3.Function('kind_of_type', ValS, INT)
ORIGIN = z3.Function('origin_of', ValS, ValS)
TRUTHY = z3.Function('truthy', ValS, BOOL)
SIZE = z3.Function('size_of', ValS, INT)
PART = z3.Function('part_of', ValS, INT, ValS)
TEXT = z3.Function('is_text', ValS, BOOL)


def attribute(name):
    return z3.Function(f'attribute {name}', ValS, ValS)


def equivalence(relation):
    x, y, z = (z3.Const(n, ValS) for n in ('$qx', '$qy', '$qz'))
    return [
        z3.ForAll([x], relation(x, x), patterns=[relation(x, x)]),
        z3.ForAll([x], relation(x, x), patterns=[TYPE(x)]),
        z3.ForAll([x, y], relation(x, y) == relation(y, x),
                  patterns=[relation(x, y)]),
        z3.ForAll([x, y, z], z3.Implies(
                z3.And(relation(x, y), relation(y, z)), relation(x, z)),
                patterns=[z3.MultiPattern(relation(x, y), relation(y, z))]),
    ]


SIZED = {'sequence', 'alias', 'constrained'}


def value(term):
    return SVal(term, {'type': lambda interp, v: value(TYPE(v.t)),
                       'eq': python_equal, 'getattr': get_attribute,
                       'isinstance': is_instance, 'len': size_of,
                       'getitem': None})


def python_equal(interp, a, b):
    return interp.mk_bool(PYEQ(interp.as_val(a), interp.as_val(b)))


def get_attribute(interp, v, name, default):
    if name in ('__constraints__', '__args__'):
        return parts(interp, v.t)
    if name in ('__class__',):
        return value(TYPE(v.t))
    return value(attribute(name)(v.t))


def is_instance(interp, v, classes):
    classes = classes if isinstance(classes, tuple) else (classes,)
    if set(classes) <= {str, bytes}:
        return z3.Or(*[KIND(TYPE(v.t)) == interp.kinds[c] for c in classes])
    known = [c for c in classes if c in interp.kinds]
    if len(known) != len(classes):
        raise Unsupported('isinstance of an arbitrary value')
    raise Unsupported('kinds by classes')


def size_of(interp, v):
    return SInt(SIZE(v.t))


def parts(interp, t):
    iv = new_iv()
    return VTup([Gen(SIZE(t), iv, value(PART(t, iv)))])


def iterate(interp, v):
    return parts(interp, v.t).pieces


def install(interp, annotated):
    """Contracts of what the handlers call."""
    ctx = interp.ctx
    kinds = interp.kinds = {}
    for number, cls in enumerate(annotated.are_equal.registry):
        kinds[cls] = number
    x, y = z3.Const('$qx', ValS), z3.Const('$qy', ValS)
    ctx.axioms += [*equivalence(E), *equivalence(PYEQ),
                   z3.ForAll([x], SIZE(x) >= 0, patterns=[SIZE(x)])]
    import typing
    ctx.contracts[annotated.are_equal] = lambda interp, args, kwargs: (
        interp.mk_bool(E(*[interp.as_val(a.value) for a in args])))
    for f, result in ((typing.get_args, lambda t: parts(interp, t)),
                      (typing.get_origin, lambda t: value(ORIGIN(t)))):
        ctx.contracts[f] = (lambda interp, args, kwargs, result=result:
                            result(interp.as_val(args[0].value)))


# relations decided by the handlers


def same_type(a, b):
    return TYPE(a) == TYPE(b)


def pointwise(a, b):
    i = z3.Int('$qi')
    return z3.And(SIZE(a) == SIZE(b), z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < SIZE(a)), E(PART(a, i), PART(b, i))),
            patterns=[PART(a, i), PART(b, i)]))


def inclusion(a, b):
    i, j = z3.Ints('$qi $qj')
    return z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < SIZE(a)), z3.Exists([j], z3.And(
                    0 <= j, j < SIZE(b), E(PART(a, i), PART(b, j))))),
            patterns=[PART(a, i)])


def sets(a, b):
    return z3.And(SIZE(a) == SIZE(b), inclusion(a, b), inclusion(b, a))


def origin(a):
    return z3.If(TRUTHY(ORIGIN(a)), ORIGIN(a), a)


class Relation:
    def __init__(self, interp, unordered):
        self.unordered = [interp.ctx.host_const(o) for o in unordered]

    def python(self, a, b):
        return PYEQ(a, b)

    def text(self, a, b):
        return z3.And(self.is_text(b), PYEQ(a, b))

    def sequence(self, a, b):
        return z3.And(same_type(a, b), pointwise(a, b))

    def alias(self, a, b):
        unordered = z3.Or(*[origin(a) == o for o in self.unordered])
        return z3.And(same_type(a, b), origin(a) == origin(b),
                      z3.If(unordered, sets(a, b), pointwise(a, b)))

    def attributes(self, identical=(), python=(), equal=(),
                   constrained=False):
        def relation(a, b):
            result = [same_type(a, b)]
            for names, compare in ((identical, lambda x, y: x == y),
                                   (python, PYEQ), (equal, E)):
                result += [compare(attribute(n)(a), attribute(n)(b))
                           for n in names]
            if constrained:
                result.append(pointwise(a, b))
            return z3.And(*result)
        return relation


def relations(interp, annotated):
    """Relation of every registered kind of values."""
    import collections.abc
    import types
    import typing as t
    import typing_extensions as te
    made = Relation(interp, [t.Union, te.Literal, getattr(
            types, 'UnionType', t.Union)])
    text_kinds = [interp.kinds[c] for c in (str, bytes)
                  if c in interp.kinds]
    made.is_text = lambda b: z3.Or(*[KIND(TYPE(b)) == k
                                     for k in text_kinds])
    variance = '__contravariant__', '__covariant__'
    known = {
        object: made.python, str: made.text, bytes: made.text,
        collections.abc.Sequence: made.sequence,
        type: made.alias, type(t.Union[int, None]): made.alias,
        type(t.Generic[t.TypeVar('T')]): made.alias,
        te.ParamSpec: made.attributes(variance, ['__name__'],
                                      ['__bound__']),
        te.ParamSpecArgs: made.attributes(equal=['__origin__']),
        te.ParamSpecKwargs: made.attributes(equal=['__origin__']),
        t.TypeVar: made.attributes(variance, ['__name__'], ['__bound__'],
                                   constrained=True),
    }
    if hasattr(types, 'UnionType'):
        known[types.UnionType] = made.alias
    if isinstance(t.NewType, type):
        known[t.NewType] = made.attributes(
                python=['__qualname__'], equal=['__supertype__'])
    return known


class Handler(Proof):
    cls = None
    assumptions = (
        'Python equality (==) of the values compared by it, being of '
        'foreign classes, is an equivalence answering bool which does not '
        'mix values of the registered kinds (NaN is excluded)',
        'nesting of annotations is finite, so that are_equal on parts is '
        'an equivalence by induction; the principle is applied by the '
        'harness, its step is discharged')

    def setup(self, interp):
        from paradigm._core import annotated
        if not hasattr(annotated.are_equal, 'registry'):
            raise Unsupported('equality is not dispatched by types')
        install(interp, annotated)
        known = relations(interp, annotated)
        if self.cls not in known:
            raise Unsupported(f'no contract for values of {self.cls}')
        handler = annotated.are_equal.registry.get(self.cls)
        if handler is None:
            raise Unsupported(f'no handler of {self.cls}')
        self.relation = known[self.cls]
        self.a, self.b, self.c = (z3.Const(n, ValS) for n in 'abc')
        kind = interp.kinds[self.cls]
        self.kind = lambda t: KIND(TYPE(t)) == kind
        interp.ctx.axioms += [self.kind(self.a), TYPE(self.b) == TYPE(
                self.b)]
        left, right = value(self.a), value(self.b)
        for v in (left, right):
            v.schema['pieces'] = iterate
        return lambda: interp.call(handler, [left, right], {})

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, result):
        if kind == 'raise':
            return [('comparison raises nothing', z3.BoolVal(False))]
        if isinstance(result, SVal):
            return [('the answer is bool', z3.BoolVal(False))]
        formula = interp.truth_formula(result)
        formula = (z3.BoolVal(formula) if isinstance(formula, bool)
                   else formula)
        result = interp.force(result)
        spec = self.relation(self.a, self.b)
        return [('the answer is bool', z3.BoolVal(
                isinstance(result, (bool, SBool)))),
                ('equal values have equal parts', z3.Implies(formula, spec)),
                ('values with equal parts are equal',
                 z3.Implies(spec, formula))]


class Laws(Handler):
    """The relation is an equivalence within the kind and none across."""

    def setup(self, interp):
        super().setup(interp)
        interp.ctx.axioms += [
            self.kind(self.a),
            # Python equality does not mix the kinds
            *[z3.Implies(PYEQ(x, y), KIND(TYPE(x)) == KIND(TYPE(y)))
              for x in (self.a, self.b, self.c)
              for y in (self.a, self.b, self.c)]]
        return lambda: None

    def post(self, interp, kind, value):
        r, a, b, c = self.relation, self.a, self.b, self.c
        same = self.kind(b)
        return [
            ('reflexivity', r(a, a)),
            ('symmetry', z3.Implies(z3.And(same, r(a, b)), r(b, a))),
            ('transitivity', z3.Implies(z3.And(same, r(a, b), r(b, c)),
                                        r(a, c))),
            ('values of other kinds are unequal',
             z3.Implies(z3.Not(same), z3.Not(r(a, b)))),
        ]


def proofs():
    from paradigm._core import annotated
    result = []
    for cls in getattr(annotated.are_equal, 'registry', ()):
        for base, name in ((Handler, 'are_equal({})'),
                           (Laws, 'lemma: equality of {} is equivalence')):
            result.append(type(f'{base.__name__}_{cls.__name__}', (base,), {
                'name': name.format(cls.__name__), 'cls': cls,
                'functions': ((f'are_equal ({cls.__name__})',)
                              if base is Handler else ())}))
    return result
