"""Contracts of equality of parameters and signatures."""
import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, StrS, ValS, Cases, Gen, Inst, Lit, SBool,
                       SEnum, SStr, SVal, TRUE, Unsupported, VTup, new_iv)

from . import equality, sig_input
from .equality import E

SAME = z3.Function('equal_parts_of_signatures', ValS, ValS, BOOL)


class SymParameter:
    def __init__(self, interp, layout, cls, tag):
        models = layout.models
        self.cls, self.tag = cls, tag
        K = models.ParameterKind
        self.kind = z3.Int(f'{tag}kind')
        self.name = z3.Const(f'{tag}name', StrS)
        self.annotation = z3.Const(f'{tag}annotation', ValS)
        self.default = z3.Const(f'{tag}default', ValS)
        self.has = z3.Bool(f'{tag}has_default')
        interp.ctx.axioms.append(z3.Or(*[self.kind == int(k) for k in K]))
        sig_input.no_sentinel(interp, layout, self.default)
        slots = (layout.required if cls is models.RequiredParameter
                 else layout.optional)
        fields = {slots['annotation']: (TRUE, equality.value(
                      self.annotation)),
                  slots['kind']: (TRUE, SEnum(K, self.kind)),
                  slots['name']: (TRUE, SStr(self.name))}
        if cls is models.OptionalParameter:
            if layout.bare_default:
                raise Unsupported('representation of defaults')
            if 'has_default' in slots:
                fields[slots['has_default']] = (TRUE, SBool(self.has))
            fields[slots['default']] = (self.has, equality.value(
                    self.default))
        variadic = z3.Or(self.kind == int(K.VARIADIC_POSITIONAL),
                         self.kind == int(K.VARIADIC_KEYWORD))
        interp.ctx.axioms.append(z3.Implies(variadic, z3.And(
                z3.BoolVal(cls is models.OptionalParameter),
                z3.Not(self.has))))
        self.object = Inst(interp.ctx.oid(), cls, fields,
                           ('param', z3.Const(f'{tag}param', ValS)))

    def same(self, other):
        """Spec of equality."""
        if not isinstance(other, SymParameter) or self.cls is not other.cls:
            return z3.BoolVal(False)
        result = [
                  self.name == other.name, self.kind == other.kind,
                  E(self.annotation, other.annotation)]
        if self.cls.__name__ == 'OptionalParameter':
            result += [self.has == other.has,
                       z3.Implies(self.has, E(self.default, other.default))]
        return z3.And(*result)


class SymPlain:
    def __init__(self, interp, layout, tag):
        self.n = z3.Int(f'{tag}n')
        self.id = z3.Function(f'{tag}parameter', INT, ValS)
        self.opt = z3.Function(f'{tag}opt', INT, BOOL)
        self.returns = z3.Const(f'{tag}returns', ValS)
        ctx = interp.ctx
        ctx.axioms.append(self.n >= 0)
        models = layout.models
        iv = new_iv()
        template = Inst(ctx.oid(), Cases([
            (self.opt(iv), models.OptionalParameter),
            (z3.Not(self.opt(iv)), models.RequiredParameter)]), {},
            ('param', self.id(iv)))
        template.frozen = True
        self.object = Inst(ctx.oid(), models.PlainSignature, {
            layout.plain['parameters']: (TRUE, VTup([Gen(self.n, iv,
                                                         template)])),
            layout.plain['returns']: (TRUE, equality.value(self.returns))},
            ('sig', z3.Const(f'{tag}plain', ValS)))

    def same(self, other):
        if not isinstance(other, SymPlain):
            return z3.BoolVal(False)
        i = z3.Int('$qi')
        return z3.And(self.n == other.n, E(self.returns, other.returns),
                      z3.ForAll([i], z3.Implies(
                              z3.And(0 <= i, i < self.n),
                              SAME(self.id(i), other.id(i))),
                              patterns=[self.id(i), other.id(i)]))


class SymOverloaded:
    def __init__(self, interp, layout, tag):
        self.n = z3.Int(f'{tag}n')
        self.id = z3.Function(f'{tag}alternative', INT, ValS)
        ctx = interp.ctx
        ctx.axioms.append(self.n >= 2)
        iv = new_iv()
        template = Inst(ctx.oid(), layout.models.PlainSignature, {},
                        ('sig', self.id(iv)))
        template.frozen = True
        self.object = Inst(ctx.oid(), layout.models.OverloadedSignature, {
            layout.overloaded['signatures']: (TRUE, VTup([Gen(
                    self.n, iv, template)]))})

    def same(self, other):
        if not isinstance(other, SymOverloaded):
            return z3.BoolVal(False)
        i = z3.Int('$qi')
        return z3.And(self.n == other.n, z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < self.n), SAME(self.id(i), other.id(i))),
            patterns=[self.id(i), other.id(i)]))


def relation_contract(interp, args, kwargs):
    """Equality of elements by the contract of their class."""
    terms = []
    values = [interp.force(a.value) for a in args]
    if len({v.ident[0] for v in values
            if isinstance(v, Inst) and v.ident is not None}) > 1 or any(
            isinstance(v, Inst) and v.ident is None for v in values):
        # a parameter against a signature
        return NotImplemented
    for v in values:
        if not isinstance(v, Inst) or v.ident is None:
            raise Unsupported('equality of unknown objects')
        terms.append(v.ident[1])
    return interp.mk_bool(SAME(*terms))


MAKERS = {
    'required': lambda interp, layout, tag: SymParameter(
            interp, layout, layout.models.RequiredParameter, tag),
    'optional': lambda interp, layout, tag: SymParameter(
            interp, layout, layout.models.OptionalParameter, tag),
    'plain': SymPlain, 'overloaded': SymOverloaded,
}
CLASSES = {'required': 'RequiredParameter', 'optional': 'OptionalParameter',
           'plain': 'PlainSignature', 'overloaded': 'OverloadedSignature'}


class Compare(Proof):
    left = right = None
    negated = False

    def setup(self, interp):
        from paradigm._core import annotated, models
        layout = sig_input.Layout(models)
        equality.install(interp, annotated)
        interp.ctx.axioms += equality.equivalence(SAME)
        self.a, self.b = (MAKERS[kind](interp, layout, tag)
                          for kind, tag in ((self.left, 'a_'),
                                            (self.right, 'b_')))
        contracts = interp.ctx.contracts
        if self.left in ('plain', 'overloaded'):
            for cls in (models.RequiredParameter, models.OptionalParameter):
                contracts[cls.__eq__] = self.relation_of(models, cls)
        if 'overloaded' in (self.left, self.right):
            if self.left == 'overloaded':
                contracts[models.PlainSignature.__eq__] = relation_contract
        compare = interp.not_eq if self.negated else interp.eq
        return lambda: compare(self.a.object, self.b.object)

    def relation_of(self, models, cls):
        def contract(interp, args, kwargs):
            # parameters of different classes are unequal by their contract
            return relation_contract(interp, args, kwargs)
        return contract

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('comparison raises nothing', z3.BoolVal(False))]
        value = interp.force(value)
        if not isinstance(value, (bool, SBool)):
            return [('the answer is bool', z3.BoolVal(False))]
        formula = interp.truth_formula(value)
        formula = (z3.BoolVal(formula) if isinstance(formula, bool)
                   else formula)
        if self.negated:
            formula = z3.Not(formula)
        spec = self.a.same(self.b)
        return [('equal objects have equal parts',
                 z3.Implies(formula, spec)),
                ('objects with equal parts are equal',
                 z3.Implies(spec, formula))]


class Foreign(Compare):
    """Objects of other types are never equal."""

    def setup(self, interp):
        from paradigm._core import annotated, models
        layout = sig_input.Layout(models)
        equality.install(interp, annotated)
        self.a = MAKERS[self.left](interp, layout, 'a_')
        cls = getattr(models, CLASSES[self.left])
        foreign = SVal(z3.Const('foreign', ValS), {
            'isinstance': self.is_instance,
            'type': lambda interp, v: equality.value(
                    equality.TYPE(v.t))})
        interp.ctx.axioms.append(z3.And(*[
            equality.TYPE(foreign.t) != interp.ctx.host_const(k)
            for k in (models.RequiredParameter, models.OptionalParameter,
                      models.PlainSignature, models.OverloadedSignature)]))
        return lambda: interp.call_class_attr(cls, '__eq__', self.a.object,
                                              [foreign])

    def is_instance(self, interp, v, classes):
        from paradigm._core import models
        classes = classes if isinstance(classes, tuple) else (classes,)
        bases = (models.BaseParameter if self.left in ('required', 'optional')
                 else models.BaseSignature)
        if all(issubclass(c, (models.BaseParameter, models.BaseSignature))
               for c in classes):
            return False
        raise Unsupported('isinstance of a foreign object')

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('comparison raises nothing', z3.BoolVal(False))]
        return [('foreign objects are unequal', z3.BoolVal(
                value is NotImplemented or value is False))]


class Laws(Proof):
    """Relations of the contracts are equivalences."""
    kind = None

    def setup(self, interp):
        from paradigm._core import annotated, models
        layout = sig_input.Layout(models)
        equality.install(interp, annotated)
        interp.ctx.axioms += equality.equivalence(SAME)
        self.a, self.b, self.c = (MAKERS[self.kind](interp, layout, tag)
                                  for tag in ('a_', 'b_', 'c_'))
        return lambda: None

    def post(self, interp, kind, value):
        a, b, c = self.a, self.b, self.c
        return [('reflexivity', a.same(a)),
                ('symmetry', z3.Implies(a.same(b), b.same(a))),
                ('transitivity', z3.Implies(z3.And(a.same(b), b.same(c)),
                                            a.same(c)))]


def proofs():
    result = []
    for left in MAKERS:
        for right in MAKERS:
            for negated in (False, True):
                sign = '!=' if negated else '=='
                result.append(type(f'Compare_{left}_{right}', (Compare,), {
                    'name': f'{CLASSES[left]} {sign} {CLASSES[right]}',
                    'functions': (f'{CLASSES[left]}.__eq__',),
                    'left': left, 'right': right, 'negated': negated}))
        result.append(type(f'Foreign_{left}', (Foreign,), {
            'name': f'{CLASSES[left]} == object of other class',
            'functions': (f'{CLASSES[left]}.__eq__',), 'left': left}))
        result.append(type(f'Laws_{left}', (Laws,), {
            'name': f'lemma: equality of {CLASSES[left]} is equivalence',
            'kind': left}))
    return result
