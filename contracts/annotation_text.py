"""
Contracts of the texts of annotations: the form of the text of every kind of
values, made of the texts of its parts.
"""
import z3

from harness.proof import Proof
from pyvc.core import (INT, BOOL, ValS, Gen, Join, Lit, Part, SInt, SStr,
                       SVal, Unsupported, VStr, VTup, new_iv)

from . import texts
from .equality import ORIGIN, PART, PYEQ, SIZE, TRUTHY, TYPE, attribute, \
    equivalence

TEXT = 'to_repr'


def value(term):
    return SVal(term, {'type': lambda interp, v: value(TYPE(v.t)),
                       'eq': python_equal, 'getattr': get_attribute,
                       'len': lambda interp, v: SInt(SIZE(v.t)),
                       'pieces': lambda interp, v: parts(v.t).pieces,
                       'getitem': get_item, 'call': called})


def python_equal(interp, a, b):
    return interp.mk_bool(PYEQ(interp.as_val(a), interp.as_val(b)))


def called(interp, v, args, kwargs):
    raise Unsupported('call of an annotation')


def get_attribute(interp, v, name, default):
    if name in ('__constraints__', '__args__'):
        return parts(v.t)
    if name == '__origin__':
        return value(ORIGIN(v.t))
    return value(attribute(name)(v.t))


def get_item(interp, v, key):
    return interp.getitem(parts(v.t), key)


def parts(t):
    iv = new_iv()
    return VTup([Gen(SIZE(t), iv, value(PART(t, iv)))])


def part_texts(t):
    iv = new_iv()
    return Join(', ', [Gen(SIZE(t), iv, VStr([Part(
            TEXT, value(PART(t, iv)))]))])


class AnnotationText(Proof):
    cls = None
    assumptions = (
        'nesting of annotations is finite: texts of the parts are '
        'represented by the contract of to_repr',
        'Python evaluates the proved form of text - a qualified name, '
        'optionally subscripted with the texts of the arguments - to a value '
        'equal to the annotation; this step is checked only by evaluation of '
        'drawn annotations')

    def setup(self, interp):
        import typing
        from paradigm._core import annotated
        if not hasattr(annotated.to_repr, 'registry'):
            raise Unsupported('texts are not dispatched by types')
        ctx = interp.ctx
        ctx.contracts[annotated.to_repr] = texts.to_repr
        for f, result in ((typing.get_args, lambda t: parts(t)),
                          (typing.get_origin, lambda t: value(ORIGIN(t)))):
            ctx.contracts[f] = (
                lambda interp, args, kwargs, result=result:
                result(interp.as_val(args[0].value)))
        self.v = z3.Const('annotation', ValS)
        x = z3.Const('$qx', ValS)
        ctx.axioms += [*equivalence(PYEQ), SIZE(self.v) >= 0]
        self.special = [type(None), type(NotImplemented), type(Ellipsis)]
        for special in self.special:
            # classes are equal only to themselves
            c = ctx.host_const(special)
            ctx.axioms.append(z3.ForAll([x], PYEQ(x, c) == (x == c),
                                        patterns=[PYEQ(x, c)]))
            ctx.axioms.append(z3.ForAll([x], PYEQ(c, x) == (x == c),
                                        patterns=[PYEQ(c, x)]))
        handler = annotated.to_repr.registry.get(self.cls)
        if handler is None:
            raise Unsupported(f'no handler of {self.cls}')
        given = value(self.v)
        self.prepare(interp)

        def call():
            actual = interp.call(handler, [given], {})
            return VTup([Lit(actual), Lit(self.expected(interp))])
        return call

    def prepare(self, interp):
        pass

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('it raises nothing', z3.BoolVal(False))]
        actual, expected = (p.value for p in value.pieces)
        return [('the text has the parts in the order',
                 texts.matches(interp, actual, expected))]

    def attribute(self, name, of=None):
        return Part('str', value(attribute(name)(self.v if of is None
                                                 else of)))


class Plain(AnnotationText):
    def expected(self, interp):
        return VStr([Part('repr', value(self.v))])


class List(AnnotationText):
    def expected(self, interp):
        return VStr(['[', part_texts(self.v), ']'])


class Tuple(AnnotationText):
    def expected(self, interp):
        if interp.ctx.branch(SIZE(self.v) == 1):
            return VStr(['(', Part(TEXT, value(PART(self.v, 0))), ',)'])
        return VStr(['(', part_texts(self.v), ')'])


class Class(AnnotationText):
    """Classes besides the ones without a name in builtins."""

    def prepare(self, interp):
        ctx = interp.ctx
        ctx.axioms += [self.v != ctx.host_const(s) for s in self.special]

    def expected(self, interp):
        name = [self.attribute('__module__'), '.',
                self.attribute('__qualname__')]
        if interp.ctx.branch(SIZE(self.v) > 0):
            return VStr([*name, '[', part_texts(self.v), ']'])
        return VStr(name)


class SpecialClass(AnnotationText):
    """Classes of None, NotImplemented and Ellipsis."""
    special_class = None

    def setup(self, interp):
        super().setup(interp)
        from paradigm._core import annotated
        handler = annotated.to_repr.registry[self.cls]
        interp.ctx.contracts.clear()
        text = f'type({self.special_class()!r})'
        return lambda: VTup([Lit(interp.call(
                handler, [self.special_class], {})), Lit(text)])


class Alias(AnnotationText):
    """Parametrized types of typing."""

    def prepare(self, interp):
        import typing
        ctx = interp.ctx
        # what typing guarantees
        union = ctx.host_const(typing.Union)
        ctx.axioms.append(z3.Implies(ORIGIN(self.v) == union,
                                     SIZE(self.v) > 1))
        name = attribute('_name')(self.v)
        none = ctx.host_const(None)
        ctx.axioms.append(PYEQ(name, none) == (name == none))

    def expected(self, interp):
        import typing
        ctx = interp.ctx
        branch = ctx.branch
        v = self.v
        none = ctx.host_const(type(None))
        origin = Part(TEXT, value(ORIGIN(v)))
        arguments = [part_texts(v)]
        if branch(ORIGIN(v) == ctx.host_const(typing.Union)):
            if branch(SIZE(v) == 2):
                first, second = PART(v, 0), PART(v, 1)
                for one, other in ((first, second), (second, first)):
                    if branch(one == none):
                        return VStr([Part(TEXT, typing.Optional), '[',
                                     Part(TEXT, value(other)), ']'])
            return VStr([origin, '[', *arguments, ']'])
        name = [origin]
        if not branch(attribute('_name')(v) == ctx.host_const(None)):
            name = [self.attribute('__module__'), '.',
                    self.attribute('_name')]
        if not branch(SIZE(v) > 0):
            return VStr([*name, '[()]'])
        return VStr([*name, '[', *arguments, ']'])


class Builtin(AnnotationText):
    """Subscripted builtin classes."""

    def expected(self, interp):
        v = self.v
        star = ('*' if interp.ctx.branch(TRUTHY(attribute('__unpacked__')(v)))
                else '')
        arguments = (part_texts(v) if interp.ctx.branch(SIZE(v) > 0)
                     else '()')
        return VStr([star, Part(TEXT, value(ORIGIN(v))), '[', arguments,
                     ']'])


class Bars(AnnotationText):
    def expected(self, interp):
        iv = new_iv()
        return VStr([Join(' | ', [Gen(SIZE(self.v), iv, VStr([Part(
                TEXT, value(PART(self.v, iv)))]))])])


class Variable(AnnotationText):
    def expected(self, interp):
        ctx, v = interp.ctx, self.v
        iv = new_iv()
        pieces = [Lit(VStr([Part('repr', value(attribute('__name__')(v)))])),
                  Gen(SIZE(v), iv, VStr([Part(TEXT, value(PART(v, iv)))]))]
        bound = attribute('__bound__')(v)
        if not ctx.branch(bound == ctx.host_const(None)):
            pieces.append(Lit(VStr(['bound=', Part(TEXT, value(bound))])))
        for variance in ('contravariant', 'covariant'):
            if ctx.branch(TRUTHY(attribute(f'__{variance}__')(v))):
                pieces.append(Lit(f'{variance}=True'))
        return VStr([Part(TEXT, value(TYPE(v))), '(', Join(', ', pieces),
                     ')'])


def proofs():
    import types
    import typing
    alias = type(typing.Generic[typing.TypeVar('T')])
    made = [(object, Plain), (list, List), (tuple, Tuple), (type, Class),
            (alias, Alias), (typing.TypeVar, Variable)]
    for name, base in (('GenericAlias', Builtin), ('UnionType', Bars)):
        if hasattr(types, name):
            made.append((getattr(types, name), base))
    result = [type(f'Text_{cls.__name__}', (base,), {
        'name': f'to_repr({cls.__name__})', 'cls': cls,
        'functions': (f'to_repr ({cls.__name__})',)}) for cls, base in made]
    result += [type(f'Text_{special.__name__}', (SpecialClass,), {
        'name': f'to_repr(type) given {special.__name__}', 'cls': type,
        'special_class': special, 'functions': ('to_repr (type)',)})
        for special in (type(None), type(NotImplemented), type(Ellipsis))]
    from paradigm._core import annotated
    registry = getattr(annotated.to_repr, 'registry', ())
    known = {cls for cls, _ in made}
    result += [type(f'Text_{cls.__name__}', (AnnotationText,), {
        'name': f'to_repr({cls.__name__})', 'cls': cls,
        'functions': (f'to_repr ({cls.__name__})',),
        'setup': unknown}) for cls in registry if cls not in known]
    return result


def unknown(self, interp):
    raise Unsupported(f'no contract of texts of {self.cls.__name__}')
