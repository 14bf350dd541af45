"""Contracts of signatures made of declarations of stubs."""
import ast
import typing

import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, StrS, ValS, Gen, Lit, Prim, SBool, SStr,
                       SVal, Unsupported, VIte, VTup, new_iv)

from . import params, sig_input
from .obtaining import constructed

EVAL = z3.Function('value_of_expression', ValS, ValS, ValS, ValS)
PATHABLE = z3.Function('is_path', ValS, BOOL)
PATH = z3.Function('path_of', ValS, ValS)
RESOLVED = z3.Function('resolved', ValS, ValS, ValS, ValS)


def sequence(n, function, make):
    iv = new_iv()
    return VTup([Gen(n, iv, make(function(iv)))])


class Declaration:
    """Symbolic declaration of a function of any size."""

    def __init__(self, interp, before, positional):
        ctx = interp.ctx
        self.none = ctx.host_const(None)
        self.np, self.na, self.nd, self.nk, self.nm = z3.Ints(
                'positional_only positional defaults keyword_only decorators')
        z3f = z3.Function
        self.before = z3f('positional_only_node', INT, ValS)
        self.args = z3f('positional_node', INT, ValS)
        self.defaults = z3f('default_node', INT, ValS)
        self.kwonly = z3f('keyword_only_node', INT, ValS)
        self.kw_default = z3f('keyword_only_default_node', INT, ValS)
        self.kw_has = z3f('has_keyword_only_default', INT, BOOL)
        self.decorator = z3f('decorator_node', INT, ValS)
        self.vararg, self.kwarg, self.returns = z3.Consts(
                'vararg_node kwarg_node returns_node', ValS)
        self.has_vararg, self.has_kwarg, self.has_returns = z3.Bools(
                'has_vararg has_kwarg has_returns')
        self.name = z3.Const('function_name', StrS)
        self.arg_name = z3f('name_of_argument', ValS, StrS)
        self.annotation = z3f('annotation_node', ValS, ValS)
        self.annotated = z3f('is_annotated', ValS, BOOL)
        i = z3.Int('$di')
        ctx.axioms += [self.np >= 0, self.na >= 0, self.nk >= 0,
                       self.nm >= 0, self.nd >= 0,
                       self.nd <= self.np + self.na]
        x = z3.Const('$x', ValS)
        for function in (self.defaults, self.kw_default):
            ctx.axioms.append(z3.ForAll([i], function(i) != self.none,
                                        patterns=[function(i)]))
        ctx.axioms.append(z3.ForAll([x], self.annotation(x) != self.none,
                                    patterns=[self.annotation(x)]))
        for node in (self.vararg, self.kwarg, self.returns):
            ctx.axioms.append(node != self.none)
        if not before:
            ctx.axioms.append(self.np == 0)
        if not positional:
            ctx.axioms.append(self.na == 0)
        arguments = SVal(z3.Const('arguments', ValS), {'attrs': {
            'posonlyargs': lambda interp, v: (
                sequence(self.np, self.before, self.argument)
                if before else VTup([])),
            'args': lambda interp, v: (
                sequence(self.na, self.args, self.argument)
                if positional else VTup([])),
            'defaults': lambda interp, v: sequence(
                    self.nd, self.defaults, SVal),
            'kwonlyargs': lambda interp, v: sequence(
                    self.nk, self.kwonly, self.argument),
            'kw_defaults': lambda interp, v: self.keyword_defaults(),
            'vararg': lambda interp, v: VIte(
                    self.has_vararg, self.argument(self.vararg), None),
            'kwarg': lambda interp, v: VIte(
                    self.has_kwarg, self.argument(self.kwarg), None)}})
        self.node = SVal(z3.Const('declaration_node', ValS), {'attrs': {
            'args': lambda interp, v: arguments,
            'name': lambda interp, v: SStr(self.name),
            'decorator_list': lambda interp, v: sequence(
                    self.nm, self.decorator, SVal),
            'returns': lambda interp, v: VIte(
                    self.has_returns, SVal(self.returns), None)}})

    def keyword_defaults(self):
        iv = new_iv()
        return VTup([Gen(self.nk, iv, VIte(
                self.kw_has(iv), SVal(self.kw_default(iv)), None))])

    def argument(self, term):
        return SVal(term, {'attrs': {
            'arg': lambda interp, v: SStr(self.arg_name(v.t)),
            'annotation': lambda interp, v: VIte(
                    self.annotated(v.t), SVal(self.annotation(v.t)), None)}})


class FromFunction(Proof):
    """
    A declaration of a function gives the signature with one parameter per
    declared one, the first one dropped for classes and replaced for
    methods, class methods included, static ones excluded.
    """
    name = 'signature of a declared function'
    budget = 150.
    before, positional = True, True
    functions = ('signatures._from_statement_node (functions)',
                 'signatures._parameters_from',
                 'signatures._to_positional_parameters',
                 'signatures._to_variadic_positional_parameter',
                 'signatures._to_keyword_parameters',
                 'signatures._to_variadic_keyword_parameter',
                 'signatures._parameter_from_ast_node',
                 'signatures._returns_annotation_from',
                 'signatures._is_classmethod',
                 'signatures._is_staticmethod')
    assumptions = (
        'expressions are evaluated and names are resolved by contracts of '
        'evaluate_expression_node and resolve_object_path (C21, C16)',
        'precondition: not more defaults than positional parameters; a '
        'builder and a method other than a static one have a positional '
        'parameter')

    def setup(self, interp):
        from paradigm._core import models, scoping, signatures, stubs
        from paradigm._core.arboreal import conversion, evaluation
        from paradigm._core.arboreal.kind import NodeKind
        ctx = interp.ctx
        self.layout = sig_input.Layout(models)
        self.d = d = Declaration(interp, self.before, self.positional)
        self.callable = z3.Const('callable', ValS)
        self.module, self.parent = z3.Consts('module_path parent_path', ValS)
        self.is_type = z3.Bool('callable_is_class')
        self.in_class = z3.Bool('declared_in_class')
        self.of_class = z3.Const('classmethod_path', ValS)
        self.static = z3.Const('staticmethod_path', ValS)
        known = {(('builtins',), ('classmethod',)): self.of_class,
                 (('builtins',), ('staticmethod',)): self.static}
        i = z3.Int('$si')
        x = z3.Const('$x', ValS)
        own = sig_input.sentinel(self.layout)
        ctx.axioms += [self.of_class != self.static, z3.ForAll(
                [x], PATH(x) != d.none, patterns=[PATH(x)])]
        if own is not None:
            ctx.axioms.append(z3.ForAll(
                    [x], EVAL(x, self.module, self.parent)
                    != ctx.host_const(own),
                    patterns=[EVAL(x, self.module, self.parent)]))
        ctx.axioms.append(z3.Implies(
                z3.Or(self.is_type, self.method(), self.class_method()),
                d.np + d.na > 0))
        self.log = []

        def evaluate(interp, args, kwargs):
            terms = [interp.as_val(a.value) for a in args[:3]]
            if interp.plain_kwargs(kwargs):
                raise Unsupported('other evaluation')
            return SVal(EVAL(*terms))

        def to_path(interp, args, kwargs):
            node, = [interp.as_val(a.value) for a in args]
            return VIte(PATHABLE(node), SVal(PATH(node)), None)

        def same(interp, v, other):
            other = interp.to_host(other)
            if other not in known:
                raise Unsupported('comparison with other path')
            return SBool(v.t == known[other])

        def resolve(interp, args, kwargs):
            terms = [interp.as_val(a.value) for a in args[:3]]
            if interp.plain_kwargs(kwargs):
                raise Unsupported('other resolution')
            return SVal(RESOLVED(*terms), {'eq': same})

        def kinds(interp, key):
            if not interp.as_val(key).eq(self.module):
                raise Unsupported('kinds of other module')

            def attribute(interp, v, name, default):
                if name != 'get':
                    raise Unsupported('other use of kinds')

                def get(args, kwargs):
                    if not interp.as_val(args[0].value).eq(self.parent):
                        raise Unsupported('kind of other object')
                    return VIte(self.in_class, NodeKind.CLASS, None)
                return Prim('get', get)
            return SVal(z3.Const('kinds', ValS), {'getattr': attribute})

        def check(interp, v, cls):
            if cls is not type:
                raise Unsupported(f'check of {cls}')
            return self.is_type

        ctx.contracts[evaluation.evaluate_expression_node] = evaluate
        ctx.contracts[conversion.to_maybe_path] = to_path
        ctx.contracts[scoping.resolve_object_path] = resolve
        ctx.contracts[('dict', id(stubs.nodes_kinds))] = kinds
        constructed(ctx, models.PlainSignature, self.log)
        handler = signatures._from_statement_node.dispatch(ast.FunctionDef)
        return lambda: interp.call(handler, [
            d.node, SVal(self.callable, {'isinstance': check}),
            SVal(self.module), SVal(self.parent)], {})

    def decorated(self, path):
        d = self.d
        k = z3.Int('decorator')
        return z3.Exists([k], z3.And(
                0 <= k, k < d.nm, PATHABLE(d.decorator(k)), RESOLVED(
                        self.module, self.parent, PATH(d.decorator(k)))
                == path))

    def class_method(self):
        return self.decorated(self.of_class)

    def method(self):
        return z3.And(self.in_class, z3.Not(self.decorated(self.static)))

    def covers(self, interp):
        d = self.d
        return [('all kinds', z3.And(
                d.np == (2 if self.before else 0),
                d.na == (2 if self.positional else 0), d.nd == 1, d.nk == 1,
                d.has_vararg, d.has_kwarg, self.in_class, d.nm == 0)),
                ('class', z3.And(self.is_type, d.np + d.na > 1)),
                ('static method', z3.And(
                    self.in_class, d.nm == 1, PATHABLE(d.decorator(0)),
                    RESOLVED(self.module, self.parent,
                             PATH(d.decorator(0))) == self.static))]

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        if len(self.log) != 1 or interp.force(value) is not self.log[0][0]:
            raise Unsupported('the result is made otherwise')
        from typing_extensions import Self
        from paradigm._core.models import ParameterKind as K
        ctx, d = interp.ctx, self.d
        _, args, kwargs = self.log[0]
        if set(kwargs) != {'returns'}:
            raise Unsupported('arguments of the constructor')
        anything = ctx.host_const(typing.Any)
        own = ctx.host_const(Self)
        of_own = ctx.host_const(typing.Type[Self])

        def evaluated(node):
            return EVAL(node, self.module, self.parent)

        def annotation(node):
            return z3.If(d.annotated(node), evaluated(d.annotation(node)),
                         anything)

        initializer = d.name == interp.as_str('__init__')
        goals = [('the returned annotation', interp.as_val(
                kwargs['returns']) == z3.If(
                    z3.And(self.is_type, initializer), own,
                    z3.If(d.has_returns, evaluated(d.returns), anything)))]
        pieces = interp.materialized(interp.clean(args))
        total = d.np + d.na
        vararg = z3.If(d.has_vararg, 1, 0)
        kwarg = z3.If(d.has_kwarg, 1, 0)
        dropped = z3.If(self.is_type, 1, 0)
        goals.append(('the number of parameters', interp.seq_len(pieces)
                      == total - dropped + vararg + d.nk + kwarg))
        if not pieces:
            return goals
        at = z3.Int('position')
        found = params.view(interp, self.layout,
                            interp.pieces_at(pieces, at))
        own_kind = found.kind
        i = at + dropped
        inside = z3.And(0 <= at, i < total + vararg + d.nk + kwarg)
        first = z3.And(i == 0, z3.Not(self.is_type), z3.Or(
                self.class_method(), self.method()))
        ellipsis = ctx.host_const(Ellipsis)

        def region(label, condition, kind, node, optional, default):
            here = z3.And(inside, condition)
            value = (None if default is None else evaluated(default))
            has = (z3.BoolVal(False) if default is None
                   else z3.And(optional, value != ellipsis))
            rows = [('name', found.name == d.arg_name(node)),
                    ('kind', own_kind == int(kind)),
                    ('annotation', found.annotation == annotation(node)),
                    ('optionality', found.opt == optional),
                    ('presence of default', found.has == has)]
            if default is not None:
                rows.append(('default', z3.Implies(
                        has, found.default == value)))
            for part, goal in rows:
                goals.append((f'{label}: {part}', z3.Implies(here, goal)))

        node = (self.d.before(i) if not self.positional
                else self.d.args(i - d.np) if not self.before
                else z3.If(i < d.np, d.before(i), d.args(i - d.np)))
        first_node = (d.before(0) if not self.positional
                      else d.args(0) if not self.before
                      else z3.If(d.np > 0, d.before(0), d.args(0)))
        start = total - d.nd
        region('positional parameter', z3.And(i < total, z3.Not(first)),
               K.POSITIONAL_ONLY, node, i >= start, d.defaults(i - start))
        region('variadic positional parameter', z3.And(
                i == total, d.has_vararg), K.VARIADIC_POSITIONAL, d.vararg,
               z3.BoolVal(True), None)
        j = i - total - vararg
        region('keyword-only parameter', z3.And(0 <= j, j < d.nk),
               K.KEYWORD_ONLY, d.kwonly(j), d.kw_has(j), d.kw_default(j))
        region('variadic keyword parameter', z3.And(
                j == d.nk, d.has_kwarg), K.VARIADIC_KEYWORD, d.kwarg,
               z3.BoolVal(True), None)
        for part, goal in (
                ('name', found.name == d.arg_name(first_node)),
                ('kind', own_kind == int(K.POSITIONAL_ONLY)),
                ('annotation', found.annotation == z3.If(
                        self.class_method(), of_own, own)),
                ('optionality', z3.Not(found.opt))):
            goals.append((f'bound parameter: {part}', z3.Implies(
                    z3.And(inside, first), goal)))
        return goals


class FromCallableType(Proof):
    """
    A name annotated as a callable: a positional-only parameter per type of
    an argument, any arguments if they are not specified.
    """
    name = 'signature of a name annotated as a callable'
    functions = ('signatures._from_expression_node (subscripts)',)
    assumptions = (
        'expressions are evaluated and names are resolved by contracts of '
        'evaluate_expression_node and resolve_object_path (C21, C16)',
        'precondition: a callable type is subscripted with two items')

    def setup(self, interp):
        from paradigm._core import models, scoping, signatures
        from paradigm._core.arboreal import conversion, evaluation, utils
        ctx = interp.ctx
        self.error = signatures._SignatureNotFound
        self.layout = sig_input.Layout(models)
        self.n = z3.Int('arguments')
        self.argument = z3.Function('argument_node', INT, ValS)
        self.returns = z3.Const('returns_node', ValS)
        self.listed = z3.Bool('arguments_are_listed')
        self.is_callable = z3.Bool('is_callable_type')
        self.module, self.parent = z3.Consts('module_path parent_path', ValS)
        ctx.axioms.append(self.n >= 0)
        subscripted = z3.Const('subscripted', ValS)
        self.log = []

        def evaluate(interp, args, kwargs):
            terms = [interp.as_val(a.value) for a in args[:3]]
            if interp.plain_kwargs(kwargs):
                raise Unsupported('other evaluation')
            return SVal(EVAL(*terms))

        def to_path(interp, args, kwargs):
            node, = [interp.as_val(a.value) for a in args]
            return SVal(PATH(node))

        def resolve(interp, args, kwargs):
            m, p, o = [interp.as_val(a.value) for a in args[:3]]
            if not (m.eq(self.module) and p.eq(self.parent)
                    and o.eq(PATH(subscripted))):
                raise Unsupported('other resolution')

            def same_to(expected):
                def same(interp, v, other):
                    if interp.to_host(other) != expected:
                        raise Unsupported('comparison with other path')
                    return SBool(v.t == ctx.host_const(True))
                return same
            first, second = z3.Consts('resolved_module resolved_object',
                                      ValS)
            ctx.assume(self.is_callable == z3.And(
                    first == ctx.host_const(True),
                    second == ctx.host_const(True)))
            return VTup([Lit(SVal(first, {'eq': same_to(('typing',))})),
                         Lit(SVal(second, {'eq': same_to(('Callable',))}))])

        def is_list(interp, v, cls):
            if cls is ast.List:
                return self.listed
            raise Unsupported(f'check of {cls}')

        def is_tuple(interp, v, cls):
            if cls is ast.Tuple:
                return z3.BoolVal(True)
            raise Unsupported(f'check of {cls}')

        def item(interp, args, kwargs):
            arguments = SVal(z3.Const('arguments_node', ValS), {
                'isinstance': is_list, 'attrs': {
                    'elts': lambda interp, v: sequence(
                            self.n, self.argument, SVal)}})
            return SVal(z3.Const('item', ValS), {
                'isinstance': is_tuple, 'attrs': {
                    'elts': lambda interp, v: VTup(
                            [Lit(arguments), Lit(SVal(self.returns))])}})

        ctx.contracts[evaluation.evaluate_expression_node] = evaluate
        ctx.contracts[conversion.to_path] = to_path
        ctx.contracts[utils.subscript_to_item] = item
        ctx.contracts[scoping.resolve_object_path] = resolve
        constructed(ctx, models.PlainSignature, self.log)
        handler = signatures._from_expression_node.dispatch(ast.Subscript)
        node = SVal(z3.Const('node', ValS), {'attrs': {
            'value': lambda interp, v: SVal(subscripted)}})
        return lambda: interp.call(handler, [
            node, SVal(z3.Const('callable', ValS)), SVal(self.module),
            SVal(self.parent)], {})

    def covers(self, interp):
        return [('listed', z3.And(self.listed, self.n == 2,
                                  self.is_callable))]

    def expect_kinds(self):
        return 'return', 'raise'

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('the error tells there is no signature', z3.BoolVal(
                    value.cls is self.error)),
                    ('it is not a callable type',
                     z3.Not(self.is_callable))]
        if len(self.log) != 1 or interp.force(value) is not self.log[0][0]:
            raise Unsupported('the result is made otherwise')
        from paradigm._core.models import ParameterKind as K
        ctx = interp.ctx
        _, args, kwargs = self.log[0]
        if set(kwargs) != {'returns'}:
            raise Unsupported('arguments of the constructor')
        pieces = interp.materialized(interp.clean(args))
        goals = [('it is a callable type', self.is_callable),
                 ('the returned annotation', interp.as_val(kwargs['returns'])
                  == EVAL(self.returns, self.module, self.parent)),
                 ('the number of parameters', interp.seq_len(pieces)
                  == z3.If(self.listed, self.n, 2))]
        if not pieces:
            return goals
        at = z3.Int('position')
        found = params.view(interp, self.layout,
                            interp.pieces_at(pieces, at))
        inside = z3.And(0 <= at, at < z3.If(self.listed, self.n, 2))
        kind = z3.If(self.listed, int(K.POSITIONAL_ONLY), z3.If(
                at == 0, int(K.VARIADIC_POSITIONAL),
                int(K.VARIADIC_KEYWORD)))
        for part, goal in (
                ('name', found.name == z3.If(
                        self.listed, params.NUMBERED(
                                interp.as_str('_'), at),
                        z3.If(at == 0, interp.as_str('args'),
                              interp.as_str('kwargs')))),
                ('kind', found.kind == kind),
                ('annotation', found.annotation == z3.If(
                        self.listed, EVAL(self.argument(at), self.module,
                                          self.parent),
                        ctx.host_const(typing.Any))),
                ('optionality', found.opt == z3.Not(self.listed)),
                ('presence of default', z3.Not(found.has))):
            goals.append((part, z3.Implies(inside, goal)))
        return goals
