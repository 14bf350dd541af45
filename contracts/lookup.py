"""Contracts of the lookup of callables among the described ones."""
import builtins

import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, StrS, ValS, Gen, ListObj, Lit, Prim, PyExc,
                       SBool, SetObj, SStr, SVal, Unsupported, VIte, VTup,
                       new_iv)

from . import obtaining
from .obtaining import single

IS_EMPTY = z3.Function('is_empty_path', ValS, BOOL)
LED = z3.Function('path_leads_to_value', ValS, ValS, BOOL)
NAME_OF = z3.Function('name_of_module', ValS, StrS)
IMPORTED = z3.Function('is_imported', StrS, BOOL)
RESOLVES = z3.Function('is_resolved', ValS, ValS, BOOL)
RESOLVED_MODULE = z3.Function('resolved_module', ValS, ValS, ValS)
RESOLVED_OBJECT = z3.Function('resolved_object', ValS, ValS, ValS)


def same(interp, a, b):
    return SBool(interp.as_val(a) == interp.as_val(b))


def path(term):
    return SVal(term, {'eq': same, 'truth': lambda interp, v: z3.Not(
            IS_EMPTY(v.t))})


def pair(first, second):
    return VTup([Lit(path(first)), Lit(path(second))])


def parts(interp, value):
    value = interp.force(value)
    if isinstance(value, tuple):
        value = interp.lift(value)
    if not (isinstance(value, VTup) and len(value.pieces) == 2
            and all(isinstance(p, Lit) for p in value.pieces)):
        raise Unsupported(f'not a qualified path: {value!r}'[:200])
    return [interp.as_val(p.value) for p in value.pieces]


def modules(ctx):
    """Contract of the table of imported modules."""
    import sys
    from paradigm._core import catalog

    named = z3.Function('module_named', StrS, ValS)

    def to_string(interp, args, kwargs):
        return SStr(NAME_OF(interp.as_val(single(args, kwargs, interp))))

    def attribute(interp, v, name, default):
        def get(args, kwargs):
            key = interp.force(single(args, kwargs, interp))
            return VIte(IMPORTED(key.t), SVal(named(key.t)), None)
        if name != 'get':
            raise Unsupported('other use of modules')
        return Prim('get', get)

    table = SVal(z3.Const('modules', ValS), {
        'getattr': attribute, 'contains': lambda interp, v, key: SBool(
                IMPORTED(interp.force(key).t))})
    name = z3.Const('$module_name', StrS)
    ctx.axioms.append(z3.ForAll([name], named(name) != ctx.host_const(None),
                                patterns=[named(name)]))
    ctx.contracts[('attr', id(sys), 'modules')] = lambda interp: table
    ctx.contracts[catalog.path_to_string] = to_string


def sorting(ctx):
    def sort(interp, args, kwargs):
        value = interp.force(single(args, {}, interp))
        if interp.plain_kwargs(kwargs) or not isinstance(value, (
                ListObj, SetObj, VTup)):
            raise Unsupported('other sorting')
        return interp.new_list(list(value.pieces))
    ctx.contracts[builtins.sorted] = sort


class Lookup(Proof):
    """
    A callable is described only by objects its candidate paths lead to:
    found paths are resolutions of paths leading to this very object (the
    ones which lead to it themselves, if any); none
    if every path of an imported module leads to another one.
    """
    name = 'resolve_qualified_paths'
    functions = ('signatures.resolve_qualified_paths',
                 'signatures._try_resolve_object_path',
                 'signatures._is_imported')
    assumptions = (
        'sorted gives the same elements; the order of found paths is not '
        'considered',)

    def setup(self, interp):
        from paradigm._core import catalog, scoping, signatures
        ctx = interp.ctx
        self.value = z3.Const('value', ValS)
        self.module = z3.Const('module_path', ValS)
        self.object = z3.Const('object_path', ValS)
        self.n = z3.Int('candidates')
        self.at_module = z3.Function('candidate_module', INT, ValS)
        self.at_object = z3.Function('candidate_object', INT, ValS)
        self.known_module = z3.Bool('module_is_indexed')
        self.known_object = z3.Bool('object_is_indexed')
        self.of_library = z3.Bool('module_of_the_library')
        ctx.axioms += [self.n >= 1,
                       # contract of the paths of objects
                       z3.Or(IS_EMPTY(self.module), z3.Not(IS_EMPTY(
                               self.object)))]
        modules(ctx)
        sorting(ctx)

        def paths(interp, args, kwargs):
            single(args, kwargs, interp)
            return pair(self.module, self.object)

        def located(interp, args, kwargs):
            if len(args) != 2 or interp.plain_kwargs(kwargs):
                raise Unsupported('other call')
            value, where = [a.value for a in args]
            if not interp.as_val(value).eq(self.value):
                raise Unsupported('other value')
            return SBool(LED(*parts(interp, where)))

        def resolved(interp, args, kwargs):
            values = [a.value for a in args]
            module, parent, object_ = values[:3]
            parent = interp.force(parent)
            if parent != () and not (isinstance(parent, VTup)
                                     and not parent.pieces):
                raise Unsupported('resolution in a scope')
            m, o = interp.as_val(module), interp.as_val(object_)
            if ctx.branch(RESOLVES(m, o)):
                return pair(RESOLVED_MODULE(m, o), RESOLVED_OBJECT(m, o))
            raise PyExc(scoping.ObjectNotFound, ())

        def outer(interp, key):
            if not interp.as_val(key).eq(self.module):
                raise Unsupported('other key')
            if not ctx.branch(self.known_module):
                raise PyExc(KeyError, ())
            return SVal(z3.Const('inner', ValS), {'getitem': inner})

        def inner(interp, v, key):
            if not interp.as_val(key).eq(self.object):
                raise Unsupported('other key')
            if not ctx.branch(self.known_object):
                raise PyExc(KeyError, ())
            iv = new_iv()
            return VTup([Gen(self.n, iv, pair(self.at_module(iv),
                                              self.at_object(iv)))])

        def library(interp, value):
            if not interp.as_val(value).eq(self.module):
                raise Unsupported('other module')
            return self.of_library

        ctx.contracts[catalog.qualified_path_from] = paths
        ctx.contracts[signatures._value_has_qualified_path] = located
        ctx.contracts[scoping.resolve_object_path] = resolved
        ctx.contracts[('dict', id(signatures._qualified_paths))] = outer
        ctx.contracts[('contains', id(signatures._stdlib_modules_paths))] = (
            library)
        return lambda: interp.call(signatures.resolve_qualified_paths,
                                   [SVal(self.value)], {})

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return [('indexed', z3.And(self.known_module, self.known_object,
                                   self.n == 2)),
                ('not indexed', z3.Not(self.known_module))]

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        value = interp.force(value)
        if not isinstance(value, (ListObj, VTup)):
            raise Unsupported(f'result {value!r}'[:100])
        indexed = z3.And(self.known_module, self.known_object)
        i, k = z3.Ints('candidate other')

        def taken(i):
            m, o = self.at_module(i), self.at_object(i)
            return z3.And(0 <= i, i < self.n, LED(m, o))

        def imported(i):
            return IMPORTED(NAME_OF(self.at_module(i)))

        rejected = z3.Exists([i], z3.And(0 <= i, i < self.n, z3.Not(LED(
                self.at_module(i), self.at_object(i)))))
        proved = z3.Exists([i], z3.And(taken(i), imported(i)))
        kept = z3.Or(z3.Not(rejected), proved)

        def good(m, o, a, b):
            return z3.And(RESOLVES(m, o), a == RESOLVED_MODULE(m, o),
                          b == RESOLVED_OBJECT(m, o),
                          z3.Not(IS_EMPTY(a)), z3.Not(IS_EMPTY(b)))

        def chosen(i, a, b):
            return z3.And(taken(i), good(self.at_module(i),
                                         self.at_object(i), a, b))

        def justified(here, a, b, witness=None):
            exists = z3.Exists([i], chosen(i, a, b))
            if witness is not None:
                exists = z3.Or(chosen(witness, a, b), exists)
            return [
                ('a path leads to the object', z3.Implies(
                        z3.And(here, indexed), exists)),
                ('a path of an imported module leads to it or none leads '
                 'elsewhere', z3.Implies(
                        z3.And(here, indexed), kept)),
                ('the own path leads to the object', z3.Implies(
                        z3.And(here, z3.Not(indexed)), z3.And(
                                self.of_library,
                                LED(self.module, self.object),
                                good(self.module, self.object, a, b))))]

        def available(k, x, y):
            return z3.Or(z3.And(indexed, kept, chosen(k, x, y)),
                         z3.And(z3.Not(indexed), self.of_library,
                                LED(self.module, self.object),
                                good(self.module, self.object, x, y)))

        goals = []
        x, y, u, w = z3.Consts('any_module any_object own_module own_object',
                               ValS)

        def preferred(here, a, b):
            return [('declarations of the very object are preferred',
                     z3.Implies(z3.And(here, z3.Not(LED(a, b)),
                                       available(k, x, y)),
                                z3.Not(LED(x, y))))]

        for p in interp.clean(value.pieces):
            if isinstance(p, Lit):
                here, found = z3.BoolVal(True), parts(interp, p.value)
                goals += justified(here, *found)
            else:
                here = z3.And(0 <= p.iv, p.iv < p.n, p.guard)
                found = parts(interp, p.tmpl)
                goals += justified(here, *found, p.iv)
            goals += preferred(here, *found)
        inside = interp.contains_formula(VTup(list(value.pieces)),
                                         pair(x, y))
        inside = (z3.BoolVal(inside) if isinstance(inside, bool)
                  else inside)
        none_own = z3.ForAll([k, u, w], z3.Implies(
                available(k, u, w), z3.Not(LED(u, w))))
        goals += [
            ('every path leading to the object through a declaration of it '
             'is found', z3.Implies(z3.And(available(k, x, y), LED(x, y)),
                                    inside)),
            ('every leading path is found if none is of a declaration of '
             'the object', z3.Implies(z3.And(available(k, x, y), none_own),
                                      inside))]
        return goals


LOADS = z3.Function('is_declared', ValS, ValS, BOOL)
COUNT = z3.Function('declarations', ValS, ValS, INT)
NODE = z3.Function('declaration', ValS, ValS, INT, ValS)
CONVERTS = z3.Function('is_convertible', ValS, ValS, ValS, ValS, BOOL)
CONVERTED = z3.Function('signature_of_declaration', ValS, ValS, ValS, ValS,
                        ValS)
PARENT = z3.Function('parent_path', ValS, ValS)
LAST = z3.Function('last_part', ValS, StrS)
KIND = z3.Function('is_class_declaration', ValS, ValS, BOOL)
BUILDER_MODULE = z3.Const('builder_module', ValS)
BUILDER_OBJECT = z3.Const('builder_object', ValS)


def object_path(term):
    result = path(term)

    def cut(interp, v, low, high, step=None):
        if low is None and high == -1:
            return object_path(PARENT(v.t))
        raise Unsupported('other part of a path')

    def item(interp, v, key):
        if key == -1:
            return SStr(LAST(v.t))
        raise Unsupported('other part of a path')
    result.schema['slice'] = cut
    result.schema['getitem'] = item
    return result


def qualified(module, object_):
    return VTup([Lit(path(module)), Lit(object_path(object_))])


class Described(Proof):
    """
    The described signature is made of all declarations of the first path
    all of whose declarations are convertible, one by one.
    """
    name = '_from_callable'
    functions = ('signatures._from_callable',
                 'signatures._to_qualified_paths')
    assumptions = (
        'declarations and their conversion are given by the contracts of '
        '_load_ast_nodes and _from_statement_node',)

    def setup(self, interp):
        from paradigm._core import signatures, stubs
        from paradigm._core.arboreal.kind import NodeKind
        ctx = interp.ctx
        self.error = signatures._SignatureNotFound
        self.value = z3.Const('value', ValS)
        self.n = z3.Int('paths')
        self.at_module = z3.Function('path_module', INT, ValS)
        self.at_object = z3.Function('path_object', INT, ValS)
        self.built = z3.Bool('builder_is_found')
        m, o = z3.Consts('$m $o', ValS)
        ctx.axioms += [self.n >= 0, z3.ForAll(
                [m, o], COUNT(m, o) >= 1, patterns=[COUNT(m, o)])]
        self.log = []

        def lookup(interp, args, kwargs):
            if not interp.as_val(single(args, kwargs, interp)).eq(
                    self.value):
                raise Unsupported('other value')
            iv = new_iv()
            return interp.new_list([Gen(self.n, iv, qualified(
                    self.at_module(iv), self.at_object(iv)))])

        def load(interp, args, kwargs):
            m, o = [interp.as_val(a.value) for a in args]
            if not ctx.branch(LOADS(m, o)):
                raise PyExc(self.error, ())
            iv = new_iv()
            return interp.new_list([Gen(COUNT(m, o), iv, SVal(
                    NODE(m, o, iv)))])

        def convert(interp, args, kwargs):
            if interp.plain_kwargs(kwargs) or len(args) != 4:
                raise Unsupported('other conversion')
            terms = [interp.as_val(a.value) for a in args]
            if ctx.branch(CONVERTS(*terms)):
                return SVal(CONVERTED(*terms))
            raise PyExc(self.error, ())

        def builder(interp, args, kwargs):
            if not ctx.branch(self.built):
                raise PyExc(self.error, ())
            return qualified(BUILDER_MODULE, BUILDER_OBJECT)

        def join(interp, args, kwargs):
            result = SVal(z3.Const(f'joined_{len(self.log)}', ValS))
            self.log.append((result, list(args)))
            return result

        def kinds(interp, key):
            module = interp.as_val(key)

            def inner(interp, v, key):
                return VIte(KIND(module, interp.as_val(key)), NodeKind.CLASS,
                            NodeKind.FUNCTION)
            return SVal(z3.Const('kinds', ValS), {'getitem': inner})

        ctx.contracts[signatures.resolve_qualified_paths] = lookup
        ctx.contracts[signatures._load_ast_nodes] = load
        ctx.contracts[signatures._from_statement_node] = convert
        ctx.contracts[signatures._resolve_builder_qualified_path] = builder
        ctx.contracts[signatures._from_signatures] = join
        ctx.contracts[('dict', id(stubs.nodes_kinds))] = kinds
        return self.start(interp, signatures)

    def start(self, interp, signatures):
        return lambda: interp.call(signatures._from_callable,
                                   [SVal(self.value)], {})

    def expect_kinds(self):
        return 'return', 'raise'

    def covers(self, interp):
        return [('several paths', self.n == 3)]

    def good(self, m, o):
        """Declared and all declarations are convertible."""
        k = z3.Int('declaration')
        return z3.And(LOADS(m, o), z3.ForAll([k], z3.Implies(
                z3.And(0 <= k, k < COUNT(m, o)), CONVERTS(
                        NODE(m, o, k), self.value, m, PARENT(o)))))

    def joined(self, interp, value):
        """Size and elements of what the result is made of."""
        value = interp.force(value)
        if not self.log or self.log[-1][0] is not value:
            raise Unsupported('the result is made otherwise')
        pieces = interp.materialized(interp.clean(self.log[-1][1]))
        k = z3.Int('declaration')
        if not pieces:
            return z3.IntVal(0), None
        return interp.seq_len(pieces), interp.as_val(
                interp.pieces_at(pieces, k))

    def post(self, interp, kind, value):
        i, k = z3.Ints('path declaration')
        is_class = z3.And(self.n > 0, KIND(self.at_module(0),
                                           self.at_object(0)))
        good = self.good

        def at(i):
            return self.at_module(i), self.at_object(i)

        def failed(i):
            """Declared, but not convertible."""
            return z3.And(LOADS(*at(i)), z3.Not(good(*at(i))))

        def first(i):
            j = z3.Int('earlier')
            return z3.And(0 <= i, i < self.n, z3.ForAll([j], z3.Implies(
                    z3.And(0 <= j, j < i), failed(j))))

        if kind == 'raise':
            return [('the error tells there is no signature', z3.BoolVal(
                    value.cls is self.error)),
                    ('no path is the first one convertible', z3.Implies(
                            z3.And(z3.Not(is_class), first(i)),
                            z3.Not(good(*at(i))))),
                    ('the builder is not convertible', z3.Implies(
                            z3.And(is_class, self.built), z3.Not(good(
                                    BUILDER_MODULE, BUILDER_OBJECT))))]
        size, element = self.joined(interp, value)
        if element is None:
            return [('something is joined', z3.BoolVal(False))]

        def made_of(m, o):
            return z3.And(size == COUNT(m, o), z3.ForAll([k], z3.Implies(
                    z3.And(0 <= k, k < size), element == CONVERTED(
                            NODE(m, o, k), self.value, m, PARENT(o)))))

        # the index of the path is the one of the exit of the loop, if any
        indices = exits(interp, element)
        goal = z3.And(z3.Not(is_class), z3.Exists([i], z3.And(
                first(i), good(*at(i)), made_of(*at(i)))))
        for index in indices:
            goal = z3.Or(z3.And(z3.Not(is_class), first(index),
                                good(*at(index)), made_of(*at(index))), goal)
        return [('joined are all declarations of the first good path',
                 z3.Or(z3.And(is_class, self.built, good(
                         BUILDER_MODULE, BUILDER_OBJECT), made_of(
                         BUILDER_MODULE, BUILDER_OBJECT)), goal))]


class OfClass(Described):
    """
    The signature of a class is made of all declarations of its builder, the
    inspected one with the instance returned if there is no such.
    """
    name = 'from_callable for classes'
    functions = ('signatures.from_callable (registered handler)',)

    def start(self, interp, signatures):
        ctx = interp.ctx
        described = ctx.contracts.get(signatures._from_callable)
        obtaining.callees(interp, signatures)
        ctx.contracts.pop(signatures._from_callable)
        if described is not None:
            ctx.contracts[signatures._from_callable] = described
        handler = signatures.from_callable.dispatch(type)
        if handler is signatures.from_callable.dispatch(object):
            raise Unsupported('no handler')
        return lambda: interp.call(handler, [SVal(self.value)], {})

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return [('described', z3.And(self.n == 2, self.built))]

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        from typing_extensions import Self
        k = z3.Int('declaration')
        found = z3.And(self.n > 0, self.built, self.good(
                BUILDER_MODULE, BUILDER_OBJECT))
        inspected = obtaining.CONVERTED(obtaining.RETURNING(
                obtaining.INSPECTED(self.value),
                interp.ctx.host_const(Self)))
        if not self.log or self.log[-1][0] is not interp.force(value):
            return [('the inspected signature', z3.And(
                    z3.Not(found), interp.as_val(value) == inspected))]
        size, element = self.joined(interp, value)
        if element is None:
            return [('something is joined', z3.BoolVal(False))]
        m, o = BUILDER_MODULE, BUILDER_OBJECT
        return [('the builder is found', found), (
            'all its declarations', z3.And(size == COUNT(m, o), z3.ForAll(
                    [k], z3.Implies(
                            z3.And(0 <= k, k < size), element == CONVERTED(
                                    NODE(m, o, k), self.value, m,
                                    PARENT(o))))))]


def exits(interp, term):
    """Integer constants of a term: indices fixed on the path."""
    found = {}

    def visit(t):
        if z3.is_const(t) and t.sort() == INT and (
                t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            found[t.decl().name()] = t
        for child in t.children():
            visit(child)

    visit(term)
    return [t for name, t in found.items() if name.startswith('exit')
            or name == 'at'] + [z3.IntVal(0)]
