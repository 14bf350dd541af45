"""Contracts of signatures of names declared by names of callable types."""
import ast

import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, ValS, Gen, Lit, PyExc, SBool, SStr, SVal,
                       Unsupported, VIte, VTup, new_iv)

from . import scoping
from .obtaining import BOUND, signature
from .scoping import JOIN, LENGTH, RUN, UNIT, parts, table

PATH = scoping.PATH
NAMED = z3.Function('name_of_node', ValS, PATH)
DECLARED = z3.Function('is_declared', PATH, PATH, BOOL)
COUNT = z3.Function('number_of_declarations', PATH, PATH, INT)
RAW = z3.Function('declaration', PATH, PATH, INT, ValS)
NODE = z3.Function('node_of_declaration', ValS, ValS)
CONVERTS = z3.Function('is_convertible', ValS, ValS, PATH, PATH, BOOL)
CONVERTED = z3.Function('signature_of_node', ValS, ValS, PATH, PATH, ValS)
EVALUATES = z3.Function('is_callable_type', ValS, ValS, PATH, PATH, BOOL)
EVALUATED = z3.Function('signature_of_type', ValS, ValS, PATH, PATH, ValS)
KIND = z3.Function('kind_of_object', PATH, PATH, INT)


def declarations(interp, module, path):
    iv = new_iv()
    return interp.new_list([Gen(COUNT(module, path), iv, SVal(
            RAW(module, path, iv)))])


def raw_nodes(interp, key):
    module = scoping.sequence(interp, key)

    def inner(interp, key):
        path = scoping.sequence(interp, key)
        if not interp.ctx.branch(DECLARED(module, path)):
            raise PyExc(KeyError, ())
        return declarations(interp, module, path)
    return table('declarations_of_module', inner, contains=lambda interp, key:
                 DECLARED(module, scoping.sequence(interp, key)))


def statement(term):
    def check(interp, v, cls):
        if cls is ast.stmt:
            return z3.BoolVal(True)
        raise Unsupported(f'check of {cls}')
    return SVal(term, {'isinstance': check})


def rebuilt(interp, args, kwargs):
    if len(args) != 1 or interp.plain_kwargs(kwargs):
        raise Unsupported('other construction')
    return statement(NODE(interp.as_val(args[0].value)))


def converter(error, converts, converted):
    def convert(interp, args, kwargs):
        if interp.plain_kwargs(kwargs) or len(args) != 4:
            raise Unsupported('other conversion')
        terms = ([interp.as_val(a.value) for a in args[:2]]
                 + [scoping.sequence(interp, a.value) for a in args[2:]])
        if interp.ctx.branch(converts(*terms)):
            return signature(converted(*terms))
        raise PyExc(error, ())
    return convert


def axioms():
    m, p = z3.Consts('$m $p', PATH)
    return scoping.scope_axioms() + [
        z3.ForAll([m, p], COUNT(m, p) >= 1, patterns=[COUNT(m, p)])]


class Declarations(Proof):
    """Pieces common for declarations by names."""
    assumptions = (
        'names are resolved by the contract of resolve_object_path (C16), '
        'what is found is declared in stubs with its kind; declarations are '
        'given by the contracts of construction.from_raw (C18) and of '
        'the other handlers of nodes',)
    kind = None

    def setup(self, interp):
        from paradigm._core import scoping as real, signatures, stubs
        from paradigm._core.arboreal import construction, conversion
        ctx = interp.ctx
        self.error = signatures._SignatureNotFound
        self.callable = z3.Const('callable', ValS)
        self.m, self.q = z3.Consts('module_path parent_path', PATH)
        self.fm, self.fp = z3.Consts('found_module found_object', PATH)
        self.node = z3.Const('node', ValS)
        ctx.axioms += axioms()
        self.log = []

        def to_path(interp, args, kwargs):
            if len(args) != 1 or interp.plain_kwargs(kwargs):
                raise Unsupported('other conversion')
            return parts(NAMED(interp.as_val(args[0].value)))

        def resolve(interp, args, kwargs):
            if interp.plain_kwargs(kwargs) or len(args) != 7:
                raise Unsupported('other resolution')
            where = [scoping.sequence(interp, a.value) for a in args[:3]]
            tables = [interp.to_host(a.value) for a in args[3:]]
            if [id(t) for t in tables] != [id(t) for t in (
                    stubs.definitions, stubs.references, stubs.submodules,
                    stubs.superclasses)]:
                raise Unsupported('resolution with other tables')
            expected = self.m, self.q, NAMED(self.named)
            if not all(a.eq(b) for a, b in zip(where, expected)):
                raise Unsupported('other resolution')
            return self.found(interp)

        def join(interp, args, kwargs):
            result = SVal(z3.Const(f'joined_{len(self.log)}', ValS))
            self.log.append((result, list(args)))
            return result

        self.named = self.node
        ctx.contracts[real.resolve_object_path] = resolve
        ctx.contracts[conversion.to_path] = to_path
        ctx.contracts[construction.from_raw] = rebuilt
        ctx.contracts[signatures._from_statement_node] = converter(
                self.error, CONVERTS, CONVERTED)
        ctx.contracts[signatures._from_signatures] = join
        ctx.contracts[('dict', id(stubs.raw_ast_nodes))] = raw_nodes
        ctx.contracts[('dict', id(stubs.nodes_kinds))] = self.kinds
        self.registered(interp, signatures)
        handler = signatures._from_expression_node.dispatch(self.kind)
        if handler is signatures._from_expression_node.dispatch(object):
            raise Unsupported('no handler')
        return lambda: interp.call(handler, [
            self.argument(), SVal(self.callable), parts(self.m),
            parts(self.q)], {})

    def registered(self, interp, signatures):
        pass

    def argument(self):
        return SVal(self.node)

    def found(self, interp):
        return VTup([Lit(parts(self.fm)), Lit(parts(self.fp))])

    def kinds(self, interp, key):
        from paradigm._core.arboreal.kind import NodeKind
        module = scoping.sequence(interp, key)

        def kind_of(interp, key):
            kind = KIND(module, scoping.sequence(interp, key))
            *others, last = NodeKind
            result = last
            for index, member in enumerate(others):
                result = VIte(kind == index, member, result)
            return result
        return table('kinds', kind_of)

    def expect_kinds(self):
        return 'return', 'raise'

    def joined(self, interp, value):
        value = interp.force(value)
        if not self.log or self.log[-1][0] is not value:
            return None
        pieces = interp.materialized(interp.clean(self.log[-1][1]))
        if not pieces:
            return z3.IntVal(0), None
        k = z3.Int('declaration')
        return interp.seq_len(pieces), interp.as_val(
                interp.pieces_at(pieces, k))


class ByName(Declarations):
    """
    A name annotated with a class has the signatures of its method
    ``__call__`` bound to an object, declared in the scope of the class; with
    other name: the signature which its only declaration gives in the scope
    it is made in.
    """
    name = 'signature of a name annotated with a name'
    functions = ('signatures._from_expression_node (names, attributes)',
                 'signatures._load_ast_nodes',
                 'signatures._statement_node_from_raw')
    kind = ast.Name

    def is_class(self):
        from paradigm._core.arboreal.kind import NodeKind
        kind = KIND(self.fm, self.fp)
        index = list(NodeKind).index(NodeKind.CLASS)
        if index == len(NodeKind) - 1:
            return z3.And([kind != i for i in range(index)])
        return kind == index

    def covers(self, interp):
        method = self.method(interp)
        return [('class', z3.And(self.is_class(), DECLARED(
                self.fm, method), COUNT(self.fm, method) == 2)),
                ('other', z3.And(z3.Not(self.is_class()), COUNT(
                    self.fm, self.fp) == 1))]

    def method(self, interp):
        return JOIN(self.fp, UNIT(interp.ctx.str_const('__call__')))

    def scope(self):
        return RUN(self.fp, 0, LENGTH(self.fp) - 1)

    def setup(self, interp):
        thunk = super().setup(interp)
        interp.ctx.axioms += [
            LENGTH(self.fp) >= 1,
            # what is found and is not a class is declared
            z3.Or(self.is_class(), DECLARED(self.fm, self.fp))]
        return thunk

    def post(self, interp, kind, value):
        m, p = self.fm, self.fp
        method = self.method(interp)
        k = z3.Int('declaration')
        size = COUNT(m, method)
        of_call = (NODE(RAW(m, method, k)), self.callable, m, p)
        callable_ = z3.And(DECLARED(m, method), z3.ForAll([k], z3.Implies(
                z3.And(0 <= k, k < size), CONVERTS(*of_call))))
        only = (NODE(RAW(m, p, z3.IntVal(0))), self.callable, m,
                self.scope())
        single = z3.And(COUNT(m, p) == 1, CONVERTS(*only))
        is_class = self.is_class()
        if kind == 'raise':
            return [('the error tells there is no signature', z3.BoolVal(
                    value.cls is self.error)),
                    ('the class has no convertible call', z3.Implies(
                            is_class, z3.Not(callable_))),
                    ('the name has no single convertible declaration',
                     z3.Implies(z3.Not(is_class), z3.Not(single)))]
        joined = self.joined(interp, value)
        if joined is None:
            return [('it is not a class', z3.Not(is_class)),
                    ('it has the only declaration', single),
                    ('the signature of the only declaration', interp.as_val(
                            value) == CONVERTED(*only))]
        found, element = joined
        if element is None:
            return [('something is joined', z3.BoolVal(False))]
        return [('it is a class', is_class),
                ('its call is convertible', callable_),
                ('the number of signatures', found == size),
                ('every signature is bound', z3.ForAll([k], z3.Implies(
                        z3.And(0 <= k, k < size), element == BOUND(
                                CONVERTED(*of_call), self.callable))))]


class ByAttribute(ByName):
    name = 'signature of a name annotated with a dotted name'
    kind = ast.Attribute


class ByTypeVariable(Declarations):
    """
    A name annotated with a type variable has the signature its bound gives
    or the ones its constraints give.
    """
    name = 'signature of a name annotated with a type variable'
    functions = ('signatures._from_expression_node (calls)',)
    kind = ast.Call
    assumptions = Declarations.assumptions + (
        'precondition: the first argument is the name, a bound is passed by '
        'keyword once at most',)

    def registered(self, interp, signatures):
        self.is_variable = z3.Bool('is_type_variable')
        self.called = self.named = z3.Const('called_node', ValS)
        self.n, self.k = z3.Ints('arguments keywords')
        self.arg = z3.Function('argument_node', INT, ValS)
        self.word = z3.Function('keyword_node', INT, ValS)
        self.bounding = z3.Function('is_bound', INT, BOOL)
        self.value = z3.Function('keyword_value', INT, ValS)
        i, j = z3.Ints('$i $j')
        none = interp.ctx.host_const(None)
        interp.ctx.axioms += [
            self.n >= 1, self.k >= 0,
            z3.ForAll([i], self.value(i) != none, patterns=[self.value(i)]),
            z3.ForAll([i, j], z3.Implies(z3.And(
                    0 <= i, i < self.k, 0 <= j, j < self.k,
                    self.bounding(i), self.bounding(j)), i == j),
                patterns=[z3.MultiPattern(self.bounding(i),
                                          self.bounding(j))])]
        interp.ctx.contracts[signatures._from_expression_node] = converter(
                self.error, EVALUATES, EVALUATED)

    def found(self, interp):
        ctx = interp.ctx
        first, second = z3.Bools('is_typing is_type_variable_name')

        def same_to(expected, truth):
            def same(interp, v, other):
                if interp.to_host(other) != expected:
                    raise Unsupported('comparison with other path')
                return SBool(truth)
            return same
        ctx.assume(self.is_variable == z3.And(first, second))
        return VTup([Lit(SVal(z3.Const('resolved_module', ValS), {
            'eq': same_to(('typing',), first)})),
            Lit(SVal(z3.Const('resolved_object', ValS), {
                'eq': same_to(('TypeVar',), second)}))])

    def argument(self):
        def keyword(term):
            at, = term.children()
            return SVal(term, {'attrs': {
                'arg': lambda interp, v: VIte(
                        self.bounding(v.t.children()[0]), 'bound',
                        SStr(z3.Function('other_keyword', INT,
                                         interp.ctx.str_const('').sort())(
                                v.t.children()[0]))),
                'value': lambda interp, v: SVal(self.value(
                        v.t.children()[0]))}})

        def arguments(interp, v):
            iv = new_iv()
            return interp.new_list([Gen(self.n, iv, SVal(self.arg(iv)))])

        def keywords(interp, v):
            iv = new_iv()
            return interp.new_list([Gen(self.k, iv, keyword(
                    self.word(iv)))])
        return SVal(self.node, {'attrs': {
            'func': lambda interp, v: SVal(self.called),
            'args': arguments, 'keywords': keywords}})

    def setup(self, interp):
        thunk = super().setup(interp)
        text = interp.ctx.str_const('bound')
        i = z3.Int('$i')
        other = z3.Function('other_keyword', INT, text.sort())
        interp.ctx.axioms.append(z3.ForAll([i], other(i) != text,
                                           patterns=[other(i)]))
        return thunk

    def covers(self, interp):
        return [('constraints', z3.And(self.is_variable, self.n == 3,
                                       self.k == 0)),
                ('bound', z3.And(self.is_variable, self.k == 1,
                                 self.bounding(0)))]

    def post(self, interp, kind, value):
        i, k = z3.Ints('keyword declaration')
        where = self.callable, self.m, self.q
        bound = z3.Exists([i], z3.And(0 <= i, i < self.k, self.bounding(i)))
        size = self.n - 1

        def constraint(at):
            return (self.arg(at + 1), *where)
        chosen = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < size),
                                           EVALUATES(*constraint(k))))
        here = z3.And(0 <= i, i < self.k, self.bounding(i))
        if kind == 'raise':
            return [('the error tells there is no signature', z3.BoolVal(
                    value.cls is self.error)),
                    ('the bound is not convertible', z3.Implies(
                            z3.And(self.is_variable, here), z3.Not(
                                    EVALUATES(self.value(i), *where)))),
                    ('constraints are not convertible', z3.Implies(
                            z3.And(self.is_variable, z3.Not(bound)),
                            z3.Not(chosen)))]
        joined = self.joined(interp, value)
        if joined is None:
            return [('it is a type variable', self.is_variable),
                    ('it has a bound', bound),
                    ('the signature of the bound', z3.Implies(
                            here, interp.as_val(value) == EVALUATED(
                                    self.value(i), *where)))]
        found, element = joined
        goals = [('it is a type variable', self.is_variable),
                 ('it has no bound', z3.Not(bound)),
                 ('the number of signatures', found == size)]
        if element is not None:
            goals += [('constraints are convertible', chosen),
                      ('every signature is of a constraint', z3.ForAll(
                              [k], z3.Implies(
                                  z3.And(0 <= k, k < size),
                                  element == EVALUATED(*constraint(k)))))]
        return goals


class Assigned(Declarations):
    """An assigned name has the signature which the value gives."""
    name = 'signature of an assigned name'
    functions = ('signatures._from_statement_node (assignments)',)
    statement = ast.Assign

    def setup(self, interp):
        from paradigm._core import signatures
        super_setup = super().setup
        self.kind = ast.Name
        super_setup(interp)
        interp.ctx.contracts[signatures._from_expression_node] = converter(
                self.error, EVALUATES, EVALUATED)
        del interp.ctx.contracts[signatures._from_statement_node]
        self.value, self.annotation = z3.Consts('value_node annotation_node',
                                                ValS)
        self.valued = z3.Bool('has_value')
        none = interp.ctx.host_const(None)
        interp.ctx.axioms += [self.value != none, self.annotation != none]
        handler = signatures._from_statement_node.dispatch(self.statement)
        if handler is signatures._from_statement_node.dispatch(object):
            raise Unsupported('no handler')
        return lambda: interp.call(handler, [
            self.argument(), SVal(self.callable), parts(self.m),
            parts(self.q)], {})

    def argument(self):
        return SVal(self.node, {'attrs': {
            'value': lambda interp, v: self.of_value(),
            'annotation': lambda interp, v: SVal(self.annotation)}})

    def of_value(self):
        return SVal(self.value)

    def covers(self, interp):
        return []

    def expected(self):
        return self.value

    def post(self, interp, kind, value):
        where = (self.expected(), self.callable, self.m, self.q)
        if kind == 'raise':
            return [('the error tells there is no signature', z3.BoolVal(
                    value.cls is self.error)),
                    ('the value is not convertible',
                     z3.Not(EVALUATES(*where)))]
        return [('the value is convertible', EVALUATES(*where)),
                ('the signature of the value',
                 interp.as_val(value) == EVALUATED(*where))]


class Annotated(Assigned):
    """
    An annotated name has the signature which the value gives, if there is
    one, or the annotation does.
    """
    name = 'signature of an annotated name'
    functions = ('signatures._from_statement_node (annotated names)',)
    statement = ast.AnnAssign

    def of_value(self):
        return VIte(self.valued, SVal(self.value), None)

    def covers(self, interp):
        return [('value', self.valued), ('no value', z3.Not(self.valued))]

    def expected(self):
        return z3.If(self.valued, self.value, self.annotation)
