"""Contracts of specialization of generic classes of stubs."""
import ast
import copy
import inspect

import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, TRUE, StrS, ValS, DictObj, Gen, Inst, Lit, Prim,
                       SBool, SStr, SVal, Sub, Unsupported, VIte, VTup, new_iv)

from .recording import (IS_FOUND, MODULE_OF, OBJECT_OF, Class, cases, is_empty,
                        name_of, positional, prim)
from .scoping import EMPTY, LENGTH, PART, PATH, UNIT, concatenated, parts, sequence

COPY = z3.Function('copy_of', ValS, ValS)
PATH_OF = z3.Function('path_of', ValS, PATH)
IS_PATH = z3.Function('is_path', ValS, BOOL)
IS_PARAMETER = z3.Function('is_parameter', PATH, BOOL)
ARGUMENT = z3.Function('argument_of', PATH, ValS)
TERM = z3.Function('term_of_path', PATH, ValS)
INSIDE = z3.Function('with_replaced', ValS, ValS)
TABLES = ('classes_bases', 'generics_parameters_paths', 'modules_ast_nodes',
          'modules_definitions', 'modules_nodes_kinds', 'modules_references',
          'modules_submodules', 'modules_superclasses')


def stubs_module(*names):
    from pyvc.extract import host_module
    stubs = host_module('stubs')
    for name in names:
        if not hasattr(stubs, name):
            raise Unsupported(f'no {name}')
    return stubs


def copied(interp, args, kwargs):
    value = interp.force(args[0].value)
    if is_dict(interp, value):
        return value
    return SVal(COPY(interp.as_val(value)))


def is_dict(interp, value):
    return isinstance(value, DictObj)


def optional_path(interp, args, kwargs):
    node = interp.as_val(positional(args, 1)[0])
    return VIte(IS_PATH(node), parts(PATH_OF(node)), None)


def path_of(interp, args, kwargs):
    return parts(PATH_OF(interp.as_val(positional(args, 1)[0])))


class Name(Proof):
    """
    A name used is replaced with the argument when it is the one
    of a parameter, other names are kept.
    """
    name = '_SpecializeGeneric.visit_Name'
    functions = ('stubs._SpecializeGeneric.visit_Name',
                 'stubs._SpecializeGeneric.__init__')
    assumptions = ('copy.deepcopy gives a copy, ast.copy_location the node '
                   'it is called with',)
    node_type = ast.Name

    def setup(self, interp):
        from paradigm._core.arboreal import conversion
        ctx = interp.ctx
        stubs = stubs_module('_SpecializeGeneric')
        self.used = z3.Bool('is_used')
        self.node = Inst(ctx.oid(), self.node_type, {
            'ctx': (TRUE, SVal(z3.Const('context', ValS), {
                'isinstance': lambda interp, v, cls: self.is_kind(cls)}))})
        self.extend(interp)
        x, p = z3.Const('$kx', ValS), z3.Const('$kp', PATH)
        ctx.axioms += [
            z3.ForAll([p], ARGUMENT(p) != ctx.host_const(None),
                      patterns=[ARGUMENT(p)]),
            z3.ForAll([x], LENGTH(PATH_OF(x)) >= 1, patterns=[PATH_OF(x)])]
        table = SVal(z3.Const('table', ValS), {
            'attrs': {'get': prim(self.get)},
            'contains': lambda interp, v, key: SBool(IS_PARAMETER(
                    sequence(interp, key))),
            'getitem': lambda interp, v, key: SVal(ARGUMENT(
                    sequence(interp, key)))})
        ctx.contracts[conversion.to_path] = self.path_of_node
        ctx.contracts[conversion.to_maybe_path] = self.path_of_any
        ctx.contracts[copy.deepcopy] = copied
        ctx.contracts[ast.copy_location] = (
            lambda interp, args, kwargs: positional(args, 2)[0])
        transformer = interp.call(stubs._SpecializeGeneric, [table], {})
        self.setup_visits(interp, transformer)
        method = getattr(stubs._SpecializeGeneric,
                         f'visit_{self.node_type.__name__}', None)
        if method is None:
            raise Unsupported('no method')
        return lambda: interp.call(method, [transformer, self.node], {})

    def extend(self, interp):
        self.path = z3.Const('path_of_node', PATH)

    def setup_visits(self, interp, transformer):
        pass

    def is_kind(self, cls):
        if cls is not ast.Load:
            raise Unsupported(f'other context: {cls!r}')
        return self.used

    def path_of_node(self, interp, args, kwargs):
        node, = positional(args, 1)
        if interp.force(node) is not self.node:
            raise Unsupported('path of other node')
        return parts(self.path)

    path_of_any = path_of_node

    def get(self, interp, v, args, kwargs):
        path = sequence(interp, args[0].value)
        default = (positional(args, 2)[1] if len(args) > 1 else None)
        return VIte(IS_PARAMETER(path), SVal(ARGUMENT(path)), default)

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return [('replaced', z3.And(self.used, IS_PARAMETER(self.path))),
                ('other', z3.And(self.used,
                                 z3.Not(IS_PARAMETER(self.path)))),
                ('assigned', z3.Not(self.used))]

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('visited', False)]
        value = interp.force(value)
        replaced = z3.And(self.used, self.is_replaced())
        if value is self.node:
            return [('parameters are replaced', z3.Not(replaced)),
                    *self.kept(interp)]
        return [('only parameters are replaced', replaced),
                ('with the arguments', z3.Or(
                        interp.as_val(value) == ARGUMENT(self.path),
                        interp.as_val(value) == COPY(ARGUMENT(self.path))))]

    def is_replaced(self):
        return IS_PARAMETER(self.path)

    def kept(self, interp):
        return []


class Attribute(Name):
    """
    A dotted name of a parameter is replaced with the argument,
    otherwise parameters are replaced inside; arguments of a parameters
    specification are kept when there is no name to take them from.
    """
    name = '_SpecializeGeneric.visit_Attribute'
    functions = ('stubs._SpecializeGeneric.visit_Attribute',)
    assumptions = Name.assumptions + (
        'visit of a transformer gives the node with parameters replaced (by '
        'the contracts of its methods)',)
    node_type = ast.Attribute

    def extend(self, interp):
        self.path = z3.Const('path_of_node', PATH)
        self.has_path = z3.Bool('is_dotted_name')
        self.value = z3.Const('value', ValS)
        # the value of a dotted name is a name
        interp.ctx.axioms.append(z3.Implies(self.has_path,
                                            IS_PATH(self.value)))
        self.node.fields.update({
            'value': (TRUE, SVal(self.value)),
            'attr': (TRUE, SStr(z3.Const('attribute', StrS)))})

    def setup_visits(self, interp, transformer):
        def visit(interp, args, kwargs):
            visitor, node = positional(args, 2)
            if interp.force(visitor) is not interp.force(transformer):
                raise Unsupported('other visitor')
            return SVal(INSIDE(interp.as_val(node)))

        interp.ctx.contracts[ast.NodeVisitor.visit] = visit

    def path_of_any(self, interp, args, kwargs):
        node, = positional(args, 1)
        node = interp.force(node)
        if node is self.node:
            return (parts(self.path) if interp.ctx.branch(self.has_path)
                    else None)
        node = interp.as_val(node)
        return parts(PATH_OF(node)) if interp.ctx.branch(
                IS_PATH(node)) else None

    def is_replaced(self):
        return z3.And(self.has_path, IS_PARAMETER(self.path))

    def covers(self, interp):
        return [('replaced', z3.And(self.used, self.is_replaced())),
                ('inside', z3.And(self.used, z3.Not(self.has_path))),
                ('arguments', z3.And(self.used, self.has_path,
                                     z3.Not(self.is_replaced())))]

    def kept(self, interp):
        value = interp.as_val(interp.getattr(self.node, 'value'))
        inside = z3.Or(z3.Not(self.has_path), IS_PATH(INSIDE(self.value)))
        return [('parameters are replaced inside', value == z3.If(
                z3.And(self.used, inside), INSIDE(self.value), self.value))]


class Unpacked(Proof):
    """Arguments are elements of the tuple or the only one."""
    name = '_unpack_ast_node'
    functions = ('stubs._unpack_ast_node',)
    of_tuple = False

    def setup(self, interp):
        stubs = stubs_module('_unpack_ast_node')
        self.n = z3.Int('elements')
        self.element = z3.Function('element', INT, ValS)
        interp.ctx.axioms.append(self.n >= 0)
        iv = new_iv()
        self.node = Inst(interp.ctx.oid(),
                         ast.Tuple if self.of_tuple else ast.expr, {
                             'elts': (TRUE, interp.new_list([Gen(
                                     self.n, iv, SVal(self.element(iv)))])),
                             'ctx': (TRUE, Inst(interp.ctx.oid(), ast.Load,
                                                {}))})
        code = stubs._unpack_ast_node.dispatch(ast.Tuple if self.of_tuple
                                               else ast.expr)
        return lambda: interp.call(code, [self.node], {})

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('unpacked', False)]
        pieces = interp.clean(interp.iter_pieces(value))
        if not self.of_tuple:
            return [('the only one', z3.BoolVal(
                    len(pieces) == 1 and isinstance(pieces[0], Lit)
                    and interp.force(pieces[0].value) is self.node))]
        i = z3.Int('position')
        return [('as many', interp.seq_len(pieces) == self.n),
                *[('elements', z3.Implies(
                        z3.And(0 <= i, i < self.n),
                        interp.as_val(piece.at(interp.ctx, i))
                        == self.element(i))) for piece in pieces]]


class UnpackedTuple(Unpacked):
    name = '_unpack_ast_node (tuple)'
    of_tuple = True


class Specializing(Proof):
    """Tables of modules."""
    assumptions = ('tables are dictionaries with different keys for '
                   'different paths',
                   'resolution of names is represented by the contract of '
                   'resolve_object_path (C16, C17)')

    def prepare(self, interp, *names):
        from paradigm._core import scoping
        from paradigm._core.arboreal import conversion, utils
        self.stubs = stubs_module(*names)
        ctx = interp.ctx
        self.tables = {name: SVal(z3.Const(name, ValS)) for name in TABLES}
        self.RESOLVED = [z3.Function(f'{which}_resolved', PATH, PATH, PATH,
                                     PATH) for which in ('module', 'object')]
        ctx.contracts[scoping.resolve_object_path] = self.resolve
        ctx.contracts[conversion.to_path] = path_of
        ctx.contracts[conversion.to_maybe_path] = optional_path
        self.text = z3.Function('identifier_of', ValS, StrS)
        self.raw = z3.Function('raw_text_of', ValS, StrS)
        self.item = z3.Function('item_of', ValS, ValS)
        for function, result in [(conversion.to_identifier, self.text),
                                 (conversion.to_raw, self.raw),
                                 (utils.subscript_to_item, self.item)]:
            def contract(interp, args, kwargs, result=result):
                term = result(interp.as_val(positional(args, 1)[0]))
                return (SStr(term) if term.sort() == StrS else SVal(term))

            ctx.contracts[function] = contract
        ctx.contracts[copy.deepcopy] = copied
        p = z3.Const('$kp', PATH)
        ctx.axioms.append(z3.ForAll([p], z3.And(
                LENGTH(p) >= 0, z3.Implies(LENGTH(p) == 0, p == EMPTY)),
                patterns=[LENGTH(p)]))
        x = z3.Const('$kn', StrS)
        ctx.axioms += [
            z3.ForAll([x], z3.And(LENGTH(UNIT(x)) == 1, PART(UNIT(x), 0)
                                  == x), patterns=[UNIT(x)]),
            z3.ForAll([p], z3.Implies(LENGTH(p) == 1, p == UNIT(PART(p, 0))),
                      patterns=[LENGTH(p)])]

    def log(self, interp, log, *values):
        interp.ctx.touch(log)
        log.pieces.append(Lit(VTup([Lit(v) for v in values])))

    def given(self, interp, function, args, kwargs):
        if not all(isinstance(a, Lit) for a in args):
            raise Unsupported('other call')
        try:
            given = inspect.signature(function).bind(
                    *[a.value for a in args],
                    **interp.plain_kwargs(kwargs)).arguments
        except TypeError:
            raise Unsupported('other call')
        for name in TABLES:
            if name in given and interp.force(
                    given[name]) is not self.tables[name]:
                raise Unsupported(f'other call: {name}')
        return given

    def resolve(self, interp, args, kwargs):
        from paradigm._core import scoping
        given = self.given(interp, scoping.resolve_object_path, args, kwargs)
        place = [sequence(interp, given[name]) for name in
                 ('module_path', 'parent_path', 'object_path')]
        return VTup([Lit(parts(which(*place))) for which in self.RESOLVED])

    def expect_kinds(self):
        return 'return',


class Base(Specializing):
    """
    A base which is not subscripted is the class its name stands for. The
    one which is subscripted is a class of an own module: unless the module
    is already there its tables are made and the specialization with given
    arguments of the class its name stands for is recorded there, names of
    arguments being the ones of the scope of the child.
    """
    name = '_register_base_ast_node'
    functions = ('stubs._register_base_ast_node',)
    callee = '_register_generic_specialization'

    def setup(self, interp):
        self.prepare(interp, '_register_base_ast_node', '_unpack_ast_node',
                     self.callee)
        ctx = interp.ctx
        self.module, self.parent = z3.Consts('module parent', PATH)
        self.own = z3.Const('name_of_child', StrS)
        self.is_generic, self.is_known = z3.Bools('is_subscripted is_known')
        self.base, self.value = z3.Consts('base subscripted', ValS)
        self.made, self.registered = interp.new_list(), interp.new_list()
        self.n = z3.Int('arguments')
        self.arguments = z3.Function('argument', ValS, INT, ValS)
        ctx.axioms.append(self.n >= 1)
        for name in ('modules_definitions', 'modules_ast_nodes',
                     'modules_nodes_kinds', 'modules_references'):
            self.tables[name] = SVal(z3.Const(name, ValS), {
                'contains': lambda interp, v, key: self.known(),
                'setitem': self.make(name)})
        iv = new_iv()

        def unpack(interp, args, kwargs):
            node = interp.as_val(positional(args, 1)[0])
            return VTup([Gen(self.n, iv, SVal(self.arguments(node, iv)))])

        ctx.contracts[self.stubs._unpack_ast_node] = unpack
        registered = getattr(self.stubs, self.callee)

        def register(interp, args, kwargs):
            given = self.given(interp, registered, args, kwargs)
            self.log(interp, self.registered, *[
                given[name] for name in (
                    'generic_module_path', 'generic_object_path',
                    'specialization_module_path',
                    'specialization_object_path', 'specialization_args',
                    'args_module_path', 'args_parent_path')])

        if not {'args_module_path', 'args_parent_path',
                'specialization_args'} <= set(
                inspect.signature(registered).parameters):
            raise Unsupported('other registration')
        ctx.contracts[registered] = register
        base = SVal(self.base, {
            'isinstance': lambda interp, v, cls: self.kind(cls),
            'attrs': {'value': lambda interp, v: SVal(self.value)}})
        child = VTup([*parts(self.parent).pieces, Lit(SStr(self.own))])
        return lambda: interp.call(self.stubs._register_base_ast_node, [
            base, parts(self.module), child], dict(self.tables))

    def kind(self, cls):
        if cls is not ast.Subscript:
            raise Unsupported(f'other node: {cls!r}')
        return self.is_generic

    def known(self):
        return SBool(self.is_known)

    def make(self, name):
        def made(interp, v, key, value):
            if not is_empty(interp, value, dict):
                raise Unsupported('other table')
            self.log(interp, self.made, parts(sequence(interp, key)), name)
        return made

    def covers(self, interp):
        return [('class', z3.Not(self.is_generic)),
                ('made', z3.And(self.is_generic, z3.Not(self.is_known))),
                ('known', z3.And(self.is_generic, self.is_known))]

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('recorded', False)]
        place = [sequence(interp, p.value)
                 for p in interp.iter_pieces(value)]
        if len(place) != 2:
            raise Unsupported('other result')
        made = [p.value for p in self.made.pieces]
        registered = [p.value.pieces for p in self.registered.pieces]
        goals = [('made when they have to', z3.BoolVal(bool(made)) == z3.And(
                self.is_generic, z3.Not(self.is_known))),
            ('recorded when it has to', z3.BoolVal(bool(registered))
             == z3.And(self.is_generic, z3.Not(self.is_known)))]
        plain = [which(self.module, self.parent, PATH_OF(self.base))
                 for which in self.RESOLVED]
        goals += [('the class itself', z3.Implies(
                z3.Not(self.is_generic), z3.And([
                    p == q for p, q in zip(place, plain)])))]
        if made:
            names = [p.pieces[1].value for p in made]
            goals.append(('all tables', z3.BoolVal(
                    sorted(names) == ['modules_ast_nodes',
                                      'modules_definitions',
                                      'modules_nodes_kinds',
                                      'modules_references'])))
            goals += [('of the module', sequence(interp, p.pieces[0].value)
                       == place[0]) for p in made]
        if registered and not made:
            raise Unsupported('tables are made in other place')
        if len(registered) > 1:
            goals.append(('recorded once', z3.BoolVal(False)))
        for call in registered[:1]:
            values = [p.value for p in call]
            generic = [which(self.module, self.parent, PATH_OF(self.value))
                       for which in self.RESOLVED]
            for label, i, expected in [
                    ('module of the generic', 0, generic[0]),
                    ('the generic', 1, generic[1]),
                    ('module of the specialization', 2, place[0]),
                    ('the specialization', 3, place[1]),
                    ('module of arguments', 5, self.module),
                    ('scope of arguments', 6, self.parent)]:
                goals.append((label, sequence(interp, values[i])
                              == expected))
            pieces = interp.clean(interp.iter_pieces(values[4]))
            i = z3.Int('position')
            goals.append(('as many arguments',
                          interp.seq_len(pieces) == self.n))
            goals += [('arguments', z3.Implies(
                    z3.And(0 <= i, i < self.n), interp.as_val(
                            piece.at(interp.ctx, i)) == self.arguments(
                            self.item(self.base), i))) for piece in pieces]
        return goals


SCOPE, WITHIN = (z3.Function('declarations', PATH, ValS),
                 z3.Function('declarations_inside', ValS, StrS, ValS))
NODES = z3.Function('number_of_nodes', PATH, PATH, INT)
NODE = z3.Function('node', PATH, PATH, INT, ValS)
KIND = z3.Function('kind', PATH, PATH, ValS)
BASES = z3.Function('number_of_bases', PATH, PATH, INT)
BASE = z3.Function('base', PATH, PATH, INT, ValS)
DECLARED = z3.Function('declared_name', ValS, StrS)
NAMES = z3.Function('number_of_names', ValS, INT)
NAMED = z3.Function('name_used', ValS, INT, StrS)
SPECIALIZED = z3.Function('specialized', ValS, ValS)


class Specialization(Specializing):
    """
    Declarations of the class and of every member are those of the generic
    class with parameters replaced in copies of them, the kinds are the
    same. Names used are references to what they stand for in the scope of
    the child (names of the arguments) or in the scope of the generic class.
    Bases of the generic class with parameters replaced are the ones of the
    specialization.
    """
    name = '_register_generic_specialization'
    functions = ('stubs._register_generic_specialization',)
    assumptions = Specializing.assumptions + (
        'visit of a transformer gives the node with parameters replaced (by '
        'the contracts of its methods)',
        'one member with a single declaration of a single name, and one '
        'base of the class: there are as many iterations of the loops',
        'references of submodules (dotted) are cross-checked only',
        'names used in a node are given by _to_dependencies_names, paths of '
        'members by _iterate_scope_paths')
    member = True

    def setup(self, interp):
        from paradigm._core.arboreal import conversion
        self.prepare(interp, '_register_generic_specialization',
                     '_register_base_ast_node', '_to_dependencies_names',
                     '_iterate_scope_paths', '_SpecializeGeneric')
        ctx, stubs = interp.ctx, self.stubs
        self.module, self.target, self.source = z3.Consts(
                'generic_module specialization_module args_module', PATH)
        self.generic, self.name_, self.member_ = z3.Consts(
                'generic specialization member', StrS)
        self.parent = z3.Const('args_parent', PATH)
        self.n = z3.Int('arguments')
        self.argument = z3.Function('argument', INT, ValS)
        self.parameter = z3.Function('parameter', INT, PATH)
        self.in_arguments = z3.Function('is_name_of_arguments', StrS, BOOL)
        self.updated, self.nodes, self.kinds, self.references, self.bases = [
            interp.new_list() for _ in range(5)]
        self.registered, self.transformers = interp.new_list(), []
        self.pairs = {}
        ctx.axioms.append(self.n >= 1)
        self.tables.update({
            'modules_definitions': SVal(z3.Const('definitions', ValS), {
                'getitem': lambda interp, v, key: self.scope(
                        SCOPE(sequence(interp, key)))}),
            'modules_ast_nodes': self.by_module('nodes', self.nodes, get=(
                lambda interp, path: self.declarations(interp, path))),
            'modules_nodes_kinds': self.by_module('kinds', self.kinds, item=(
                lambda interp, path: SVal(KIND(self.module, path)))),
            'modules_references': self.by_module('references',
                                                 self.references),
            'classes_bases': SVal(z3.Const('bases', ValS), {'attrs': {
                'get': prim(self.bases_of)}}),
            'generics_parameters_paths': SVal(z3.Const('parameters', ValS), {
                'attrs': {'get': prim(self.parameters)}}),
            'modules_superclasses': SVal(z3.Const('superclasses', ValS), {
                'attrs': {'setdefault': prim(self.superclasses)}}),
        })
        iv = new_iv()
        ctx.contracts[stubs._iterate_scope_paths] = self.members
        ctx.contracts[stubs._to_dependencies_names] = (
            lambda interp, args, kwargs: VTup([Gen(
                    NAMES(interp.as_val(positional(args, 1)[0])), iv,
                    SStr(NAMED(interp.as_val(args[0].value), iv)))]))
        ctx.contracts[conversion.to_names] = (
            lambda interp, args, kwargs: interp.new_list([Lit(SStr(DECLARED(
                    interp.as_val(positional(args, 1)[0]))))]))
        ctx.contracts[ast.NodeVisitor.visit] = self.specialize
        # parameters are different
        ctx.contracts[dict] = self.table
        ctx.contracts[stubs._register_base_ast_node] = self.register
        arguments = VTup([Gen(self.n, iv, SVal(self.argument(iv)))])
        path = VTup([Lit(SStr(self.generic))])
        name = VTup([Lit(SStr(self.name_))])
        values = {'generic_module_path': parts(self.module),
                  'generic_object_path': path,
                  'specialization_module_path': parts(self.target),
                  'specialization_object_path': name,
                  'specialization_args': arguments,
                  'args_module_path': parts(self.source),
                  'args_parent_path': parts(self.parent), **self.tables}
        known = inspect.signature(
                stubs._register_generic_specialization).parameters
        if {name for name, p in known.items() if p.default is p.empty} != set(
                values):
            raise Unsupported('other registration')
        return lambda: interp.call(stubs._register_generic_specialization,
                                   [], values)

    # tables

    def scope(self, term):
        def child(interp, v, name):
            return self.scope(WITHIN(v.t, name_of(interp, name)))

        def default(interp, v, args, kwargs):
            name, default = positional(args, 2)
            if not is_empty(interp, default, dict):
                raise Unsupported('other scope')
            return child(interp, v, name)

        def update(interp, v, args, kwargs):
            other, = positional(args, 1)
            self.log(interp, self.updated, SVal(v.t), other)

        return SVal(term, {'getitem': child, 'attrs': {
            'setdefault': prim(default), 'update': prim(update)}})

    def by_module(self, name, log, get=None, item=None):
        def taken(interp, v, key):
            module = sequence(interp, key)
            if module.eq(self.target):
                return SVal(z3.Const(f'{name} of specialization', ValS), {
                    'attrs': {'update': prim(self.nothing)},
                    'setitem': lambda interp, v, key, value: self.log(
                            interp, log, parts(sequence(interp, key)),
                            value)})
            schema = {'attrs': {'items': prim(
                    lambda interp, v, args, kwargs: VTup([]))}}
            if not module.eq(self.module):
                return SVal(z3.Const(f'{name} of other', ValS), schema)
            if get is not None:
                def got(interp, v, args, kwargs):
                    path, default = positional(args, 2)
                    if not is_empty(interp, default, list):
                        raise Unsupported('other default')
                    return get(interp, sequence(interp, path))

                schema['attrs']['get'] = prim(got)
            if item is not None:
                schema['getitem'] = lambda interp, v, key: item(
                        interp, sequence(interp, key))
            return SVal(z3.Const(f'{name} of generic', ValS), schema)

        return SVal(z3.Const(name, ValS), {'getitem': taken})

    def nothing(self, interp, v, args, kwargs):
        if not is_empty(interp, positional(args, 1)[0], dict):
            raise Unsupported('other references')

    def declarations(self, interp, path):
        if path.eq(UNIT(self.generic)):
            return interp.new_list([])
        return interp.new_list([Lit(SVal(NODE(self.module, path, 0)))])

    def members(self, interp, args, kwargs):
        scope, = positional(args, 1)
        if not interp.as_val(scope).eq(WITHIN(SCOPE(self.module),
                                              self.generic)):
            raise Unsupported('members of other class')
        return VTup([Lit(VTup([Lit(SStr(self.member_))]))])

    def bases_of(self, interp, v, args, kwargs):
        key, default = positional(args, 2)
        module, path = [sequence(interp, p.value)
                        for p in interp.iter_pieces(key)]
        if not module.eq(self.module):
            raise Unsupported('bases of other class')
        if path.eq(UNIT(self.generic)):
            return interp.new_list([Lit(SVal(BASE(module, path, 0)))])
        return interp.new_list([])

    def parameters(self, interp, v, args, kwargs):
        key = positional(args, 2)[0]
        module, path = [sequence(interp, p.value)
                        for p in interp.iter_pieces(key)]
        if not (module.eq(self.module) and path.eq(UNIT(self.generic))):
            raise Unsupported('parameters of other class')
        iv, at = new_iv(), z3.Int('$at')
        return VTup([Gen(self.n, iv, SVal(z3.Function(
                'parameter_value', INT, ValS)(iv)))])

    def superclasses(self, interp, v, args, kwargs):
        module, default = positional(args, 2)
        if not (is_empty(interp, default, dict)
                and sequence(interp, module).eq(self.target)):
            raise Unsupported('bases of other module')

        def of_class(interp, v, args, kwargs):
            path, default = positional(args, 2)
            if not is_empty(interp, default, list):
                raise Unsupported('other bases')
            path = sequence(interp, path)

            def append(interp, v, args, kwargs):
                value, = positional(args, 1)
                self.log(interp, self.bases, parts(path), value)

            return SVal(z3.Const('bases of class', ValS), {'attrs': {
                'append': prim(append)}})

        return SVal(z3.Const('superclasses of module', ValS), {'attrs': {
            'setdefault': prim(of_class)}})

    # functions called

    def specialize(self, interp, args, kwargs):
        transformer, node = positional(args, 2)
        transformer = interp.force(transformer)
        if interp.host_class_of(transformer) is not (
                self.stubs._SpecializeGeneric):
            raise Unsupported('other visitor')
        self.transformers.append(transformer)
        node = interp.as_val(node)
        return SVal(SPECIALIZED(node))

    def table(self, interp, args, kwargs):
        result = interp.ctx.fresh('table', ValS)
        self.pairs[result.get_id()] = interp.clean(interp.collect(
                positional(args, 1)[0]))
        return SVal(result)

    def register(self, interp, args, kwargs):
        given = self.given(interp, self.stubs._register_base_ast_node, args,
                           kwargs)
        self.log(interp, self.registered, given['base'],
                 given['child_module_path'], given['child_object_path'])
        return VTup([Lit(parts(z3.Const(f'{which}_of_base', PATH)))
                     for which in ('module', 'object')])

    # what is expected

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('recorded', False)]
        generic = UNIT(self.generic)
        own = UNIT(self.name_)
        place = concatenated([self.generic_part(), UNIT(self.member_)])
        member = concatenated([own, UNIT(self.member_)])
        node = SPECIALIZED(COPY(NODE(self.module, place, 0)))
        base = SPECIALIZED(COPY(BASE(self.module, generic, 0)))
        goals = []

        def entries(log, many, label):
            if not all(isinstance(p, Lit) for p in log.pieces):
                raise Unsupported(f'{label}: records of a loop')
            result = [[q.value for q in p.value.pieces] for p in log.pieces]
            if many is not None:
                goals.append((f'{label}: as many',
                              z3.BoolVal(len(result) == many)))
                return result if len(result) == many else []
            return result

        for scope, other in entries(self.updated, 1, 'names'):
            goals.append(('names of the specialization', z3.And(
                    interp.as_val(scope) == WITHIN(SCOPE(self.target),
                                                   self.name_),
                    interp.as_val(other) == COPY(WITHIN(SCOPE(self.module),
                                                        self.generic)))))
        for key, value in entries(self.nodes, 1, 'declarations'):
            pieces = interp.clean(interp.iter_pieces(value))
            goals.append(('a declaration of the member', z3.And(
                    sequence(interp, key) == member,
                    interp.seq_len(pieces) == 1)))
            goals += [('with parameters replaced',
                       interp.as_val(p.value) == node) for p in pieces]
        expected = [(own, KIND(self.module, generic)),
                    (member, KIND(self.module, place))]
        for (key, value), (path, kind_) in zip(
                entries(self.kinds, 2, 'kinds'), expected):
            goals.append(('the same kind', z3.And(
                    sequence(interp, key) == path,
                    interp.as_val(value) == kind_)))
        for given, module, path in entries(self.registered, 1, 'base'):
            goals.append(('base of the generic class', z3.And(
                    interp.as_val(given) == base,
                    sequence(interp, module) == self.target,
                    sequence(interp, path) == own)))
        for path, value in entries(self.bases, 1, 'bases'):
            found = [sequence(interp, p.value)
                     for p in interp.iter_pieces(value)]
            goals.append(('base of the specialization', z3.And(
                    sequence(interp, path) == own, *[
                        f == z3.Const(f'{which}_of_base', PATH)
                        for f, which in zip(found, ('module', 'object'))])))
        goals += self.referred(interp, [(base, EMPTY, None),
                                        (node, generic, DECLARED(node))])
        for transformer in self.transformers:
            goals += self.replaced(interp, transformer)
        return goals

    def referred(self, interp, sources):
        pieces = interp.clean(self.references.pieces)
        if len(pieces) != len(sources) or not all(
                isinstance(p, Gen) for p in pieces):
            raise Unsupported(f'references: {pieces!r}'[:200])
        i, j, k, at = z3.Ints('position part_of_argument argument_index at')
        goals = []

        def place(name, scope):
            inside = z3.Exists([k, j], z3.And(
                    0 <= k, k < self.n, 0 <= j,
                    j < NAMES(self.argument(k)),
                    NAMED(self.argument(k), j) == name))
            return [z3.If(inside, which(self.source, self.parent,
                                        UNIT(name)),
                          which(self.module, scope, UNIT(name)))
                    for which in self.RESOLVED]

        def same_in_builtins(name, scope):
            module, object_ = place(name, scope)
            return z3.And(module == UNIT(interp.ctx.str_const('builtins')),
                          object_ == UNIT(name))

        for piece, (node, scope, declared) in zip(pieces, sources):
            inside = z3.And(0 <= i, i < piece.n, piece.guard_at(i))
            value = piece.at(interp.ctx, i)
            names = []
            for c, v in cases(value):
                key, referent = [p.value for p in v.pieces]
                path = sequence(interp, key)
                if not path.decl().eq(UNIT):
                    raise Unsupported('reference of a dotted name')
                names.append(path.arg(0))
                goals.append(('what a name stands for', z3.Implies(
                        z3.And(inside, c), z3.And([
                            sequence(interp, p.value) == e
                            for p, e in zip(interp.iter_pieces(referent),
                                            place(names[-1], scope))]))))
            if not all(name.eq(names[0]) for name in names):
                raise Unsupported('references of different names')
            used = NAMED(node, at)
            wanted = [0 <= at, at < NAMES(node),
                      z3.Not(same_in_builtins(used, scope))]
            if declared is not None:
                wanted.append(used != declared)
            goals.append(('every name', z3.Implies(
                    z3.And(wanted), z3.Exists([i], z3.And(
                        inside, names[0] == used)))))
        return goals

    def generic_part(self):
        return UNIT(self.generic)

    def replaced(self, interp, transformer):
        table = interp.as_val(interp.getattr(transformer, 'table'))
        pairs = self.pairs.get(table.get_id())
        if pairs is None or len(pairs) != 1 or not isinstance(pairs[0], Gen):
            raise Unsupported(f'other table: {pairs!r}'[:200])
        i = z3.Int('position')
        key, value = [p.value for p in pairs[0].at(interp.ctx, i).pieces]
        return [('arguments of parameters', z3.And(
                pairs[0].n == self.n, z3.Implies(
                    z3.And(0 <= i, i < self.n), z3.And(
                        interp.as_val(key) == z3.Function(
                                'parameter_value', INT, ValS)(i),
                        interp.as_val(value) == self.argument(i)))))]


IS_VARIABLE = z3.Function('is_type_variable', PATH, BOOL)
GIVEN = z3.Function('number_of_arguments', ValS, INT)
GIVEN_AT = z3.Function('argument_of_base', ValS, INT, ValS)


class Parameters(Class):
    """
    Parameters of a generic class are type variables Generic or Protocol is
    subscripted with, in their order; without them - type variables of
    bases. Other bases are kept, in their order.
    """
    name = 'visit_ClassDef (generic)'
    assumptions = Class.assumptions + (
        'arguments of a base are given by _collect_type_args, each type '
        'variable once (dict.fromkeys keeps the first ones)',
        'three bases: of every form',
        '_is_type_var_object_path is represented by its contract')
    ORDER = 'name', 'subscripted', 'Generic'

    def start(self, interp, visitor):
        run = super().start(interp, visitor)
        ctx, stubs = interp.ctx, self.stubs
        for name in ('_collect_type_args',):
            if not hasattr(stubs, name):
                raise Unsupported(f'no {name}')
        if not hasattr(stubs._StateParser, '_is_type_var_object_path'):
            raise Unsupported('no _is_type_var_object_path')
        self.recorded_parameters = interp.new_list()
        self.tables['generics_parameters_paths'].schema = {
            'setitem': lambda interp, v, key, value: self.log(
                    interp, self.recorded_parameters, key, value)}
        from paradigm._core.arboreal import conversion
        ctx.contracts[conversion.to_maybe_path] = optional_path
        ctx.contracts[conversion.to_path] = path_of
        ctx.contracts[stubs._StateParser._is_type_var_object_path] = (
            lambda interp, args, kwargs: SBool(IS_VARIABLE(sequence(
                    interp, positional(args, 2)[1]))))
        ctx.contracts[dict.fromkeys] = (
            lambda interp, args, kwargs: interp.new_list(
                    interp.collect(positional(args, 1)[0])))
        iv = new_iv()
        ctx.contracts[stubs._collect_type_args] = (
            lambda interp, args, kwargs: interp.new_list([Gen(
                    GIVEN(interp.as_val(args[0].value)), iv,
                    SVal(GIVEN_AT(interp.as_val(args[0].value), iv)))]))
        p = z3.Const('$kp', PATH)
        x = z3.Const('$kn', StrS)
        b = z3.Const('$kb', ValS)
        ctx.axioms += [
            z3.ForAll([p], z3.And(
                LENGTH(p) >= 0, z3.Implies(LENGTH(p) == 0, p == EMPTY),
                z3.Implies(LENGTH(p) == 1, p == UNIT(PART(p, 0)))),
                patterns=[LENGTH(p)]),
            z3.ForAll([x], z3.And(LENGTH(UNIT(x)) == 1, PART(UNIT(x), 0)
                                  == x), patterns=[UNIT(x)]),
            z3.ForAll([b], GIVEN(b) >= 1, patterns=[GIVEN(b)])]
        self.nodes = {name: z3.Const(f'base_{name}', ValS)
                      for name in ('name', 'subscripted', 'Generic')}
        values = {name: z3.Const(f'value_of_base_{name}', ValS)
                  for name in self.nodes}
        typing = UNIT(ctx.str_const('typing'))
        special = [UNIT(ctx.str_const(name))
                   for name in ('Generic', 'Protocol')]
        self.protocol = z3.Bool('is_protocol')
        for name, node in self.nodes.items():
            path = PATH_OF(node if name == 'name' else values[name])
            ctx.axioms += [IS_FOUND(path), IS_PATH(node), IS_PATH(
                    values[name])]
            if name == 'Generic':
                ctx.axioms += [MODULE_OF(path) == typing, OBJECT_OF(path)
                               == z3.If(self.protocol, *special[::-1])]
            else:
                ctx.axioms += [MODULE_OF(path) != typing]
        bases = []
        for name in self.ORDER:
            node = self.nodes[name]
            bases.append(Lit(SVal(node, {
                'isinstance': lambda interp, v, cls, name=name: self.is_kind(
                        cls, name),
                'attrs': {'value': lambda interp, v, name=name: SVal(
                        values[name])}})))
        self.statement.schema['attrs']['bases'] = (
            lambda interp, v: interp.new_list(bases))
        return run

    def is_kind(self, cls, name):
        if cls is not ast.Subscript:
            raise Unsupported(f'other base: {cls!r}')
        return z3.BoolVal(name != 'name')

    def set_bases(self, interp, v, key, value):
        super().set_bases(interp, v, key, value)
        self.kept = interp.force(value)

    def recorded(self, interp):
        goals = super().recorded(interp)
        kept = interp.clean(interp.iter_pieces(self.kept))
        expected = [self.nodes[name] for name in self.ORDER
                    if name != 'Generic']
        goals.append(('bases: as many', z3.BoolVal(
                len(kept) == len(expected))))
        goals += [('bases kept', interp.as_val(p.value) == e)
                  for p, e in zip(kept, expected)]
        i = z3.Int('position')

        def variable(node, at):
            path = PATH_OF(GIVEN_AT(node, at))
            return z3.And(0 <= at, at < GIVEN(node),
                          IS_PATH(GIVEN_AT(node, at)), IS_VARIABLE(path))

        def none(node):
            return z3.ForAll([i], z3.Not(variable(node, i)),
                             patterns=[GIVEN_AT(node, i)])

        sources = [self.nodes['subscripted'], self.nodes['Generic']]
        active = [none(sources[1]), z3.BoolVal(True)]
        records = [[q.value for q in p.value.pieces]
                   for p in self.recorded_parameters.pieces]
        if len(records) > 1:
            goals.append(('parameters are recorded once',
                          z3.BoolVal(False)))
        runs = []
        for key, value in records:
            module, path = [sequence(interp, p.value)
                            for p in interp.iter_pieces(key)]
            goals.append(('of the class', z3.And(
                    module == self.module, path == self.key(self.name_))))
            runs = interp.clean(interp.iter_pieces(value))
        given = {}
        for piece in runs:
            source = [k for k, node in enumerate(sources)
                      if isinstance(piece, Gen) and piece.n.eq(GIVEN(node))]
            if len(source) != 1 or source[0] in given:
                raise Unsupported(f'parameters: {piece!r}'[:200])
            given[source[0]] = piece
        for k, node in enumerate(sources):
            if k not in given:
                goals.append(('all parameters', z3.Implies(active[k],
                                                           none(node))))
                continue
            goals.append(('parameters of other bases', z3.Or(active[k],
                                                             none(node))))
            piece = given[k]
            inside = z3.And(0 <= i, i < piece.n)
            goals.append(('parameters are type variables', z3.Implies(
                    inside, piece.guard_at(i) == variable(node, i))))
            for c, value in cases(piece.at(interp.ctx, i)):
                condition = z3.And(inside, piece.guard_at(i), c)
                goals.append(('parameters', z3.Implies(
                        condition, z3.BoolVal(False) if value is None
                        else sequence(interp, value)
                        == PATH_OF(GIVEN_AT(node, i)))))
        return goals

    def covers(self, interp):
        return [('Protocol', self.protocol), ('Generic', z3.And(
                z3.Not(self.protocol), GIVEN(self.nodes['Generic']) == 3))]


class ParametersFirst(Parameters):
    name = 'visit_ClassDef (Generic first)'
    ORDER = 'Generic', 'name', 'subscripted'


class Bases(Proof):
    """
    Superclasses of each class are its bases in the order they are listed,
    each the one given for it, for any number of classes and of bases.
    """
    name = '_process_classes_bases'
    functions = ('stubs._process_classes_bases',)
    assumptions = (
        'a base is given by the contract of _register_base_ast_node, which '
        'leaves the table of bases as it is',)

    def setup(self, interp):
        ctx = interp.ctx
        stubs = stubs_module('_process_classes_bases',
                             '_register_base_ast_node')
        function = stubs._process_classes_bases
        z3f = z3.Function
        self.n = z3.Int('classes')
        self.many = z3f('number_of_bases', INT, INT)
        self.module = z3f('module_of_class', INT, PATH)
        self.path = z3f('path_of_class', INT, PATH)
        self.base = z3f('listed_base', INT, INT, ValS)
        self.given = [z3f(f'{what}_given', ValS, PATH, PATH, PATH)
                      for what in ('module', 'object')]
        self.event = z3f('added', PATH, PATH, PATH, PATH, ValS)
        i, j = z3.Ints('$i $j')
        ctx.axioms += [self.n >= 0, z3.ForAll(
                [i], self.many(i) >= 0, patterns=[self.many(i)])]
        self.log = interp.new_list()
        tables = {name: SVal(z3.Const(name, ValS))
                  for name in inspect.signature(function).parameters}
        if set(tables) != set(TABLES):
            raise Unsupported('other tables')
        k, m = new_iv(), new_iv()
        tables['classes_bases'] = SVal(z3.Const('classes_bases', ValS), {
            'attrs': {'items': prim(lambda interp, v, args, kwargs: VTup([Gen(
                    self.n, k, VTup([
                        Lit(VTup([Lit(parts(self.module(k))),
                                  Lit(parts(self.path(k)))])),
                        Lit(VTup([Gen(self.many(k), m,
                                      SVal(self.base(k, m)))]))]))]))}})
        tables['modules_superclasses'] = SVal(
                z3.Const('modules_superclasses', ValS),
                {'attrs': {'setdefault': prim(self.of_module)}})
        self.tables = tables
        signature = inspect.signature(stubs._register_base_ast_node)

        def registered(interp, args, kwargs):
            values = signature.bind(*positional(args, len(args)),
                                    **interp.plain_kwargs(kwargs)).arguments
            for name, table in tables.items():
                if interp.force(values.pop(name)) is not table:
                    raise Unsupported('other table')
            base = interp.as_val(values.pop('base'))
            module, path = [sequence(interp, values.pop(name)) for name in
                            ('child_module_path', 'child_object_path')]
            if values:
                raise Unsupported('other arguments')
            return VTup([Lit(parts(function_(base, module, path)))
                         for function_ in self.given])

        ctx.contracts[stubs._register_base_ast_node] = registered
        return lambda: interp.call(function, [], tables)

    def of_module(self, interp, v, args, kwargs):
        module, default = positional(args, 2)
        module = sequence(interp, module)
        if not is_empty(interp, default, dict):
            raise Unsupported('other superclasses')

        def of_class(interp, v, args, kwargs):
            path, default = positional(args, 2)
            path = sequence(interp, path)
            if not is_empty(interp, default, list):
                raise Unsupported('other superclasses')

            def append(interp, v, args, kwargs):
                value, = positional(args, 1)
                value = [sequence(interp, p.value)
                         for p in interp.iter_pieces(value)]
                if len(value) != 2:
                    raise Unsupported('other superclass')
                interp.ctx.touch(self.log)
                self.log.pieces.append(Lit(SVal(self.event(
                        module, path, *value))))

            return SVal(z3.Const('of_class', ValS),
                        {'attrs': {'append': prim(append)}})

        return SVal(z3.Const('of_module', ValS),
                    {'attrs': {'setdefault': prim(of_class)}})

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return [('several', z3.And(self.n == 2, self.many(0) == 2,
                                   self.many(1) == 3))]

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('bases are processed', z3.BoolVal(False))]
        i, j = new_iv(), new_iv()
        module, path, base = self.module(i), self.path(i), self.base(i, j)
        expected = [Gen(self.n, i, Sub([Gen(self.many(i), j, SVal(
                self.event(module, path, *[
                    function(base, module, path)
                    for function in self.given])))]))]
        at, total = z3.Int('position'), interp.seq_len(expected)
        return [('as many superclasses as bases',
                 interp.seq_len(self.log.pieces) == total),
                ('superclasses in order of bases', z3.Implies(
                        z3.And(0 <= at, at < total),
                        interp.as_val(interp.pieces_at(self.log.pieces, at))
                        == interp.as_val(interp.pieces_at(expected, at))))]


class ScopePaths(Specializing):
    """
    Paths of a scope are its names, each followed by the paths inside of it,
    for scopes of any size and depth.
    """
    name = '_iterate_scope_paths'
    functions = ('stubs._iterate_scope_paths',)
    assumptions = ('recursive calls are represented by the contract, the '
                   'induction is over the depth of scopes',
                   'items of a dictionary are its keys with their values')

    def setup(self, interp):
        ctx = interp.ctx
        stubs = stubs_module('_iterate_scope_paths')
        function = stubs._iterate_scope_paths
        z3f = z3.Function
        self.n = z3.Int('names')
        self.name_ = z3f('name_of_scope', INT, StrS)
        self.inner = z3f('scope_inside', INT, ValS)
        self.many = z3f('number_of_paths', ValS, INT)
        self.path = z3f('path_inside', ValS, INT, PATH)
        x = z3.Const('$kx', ValS)
        ctx.axioms += [self.n >= 0, z3.ForAll(
                [x], self.many(x) >= 0, patterns=[self.many(x)])]
        k = new_iv()
        scope = SVal(z3.Const('scope', ValS), {'attrs': {
            'items': prim(lambda interp, v, args, kwargs: VTup([Gen(
                    self.n, k, VTup([Lit(SStr(self.name_(k))),
                                     Lit(SVal(self.inner(k)))]))]))}})
        code = interp.func_of_host(function)
        code.host = None

        def recursive(interp, args, kwargs):
            inner = interp.as_val(positional(args, 1)[0])
            j = new_iv()
            return VTup([Gen(self.many(inner), j,
                             parts(self.path(inner, j)))])

        ctx.contracts[function] = recursive
        return lambda: interp.call(tuple, [Lit(interp.call(
                code, [scope], {}))], {})

    def covers(self, interp):
        return [('several', z3.And(self.n == 2,
                                   self.many(self.inner(0)) == 2))]

    def expected(self):
        i, j = new_iv(), new_iv()
        inner = self.inner(i)
        return [Gen(self.n, i, Sub([
            Lit(SVal(TERM(UNIT(self.name_(i))))),
            Gen(self.many(inner), j, SVal(TERM(concatenated(
                    [UNIT(self.name_(i)), self.path(inner, j)]))))]))]

    def term(self, interp, value):
        if isinstance(value, VIte):
            return z3.If(value.c, self.term(interp, value.a),
                         self.term(interp, value.b))
        return TERM(sequence(interp, value))

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('paths are given', z3.BoolVal(False))]
        pieces = interp.clean(interp.iter_pieces(interp.force(value)))
        expected = self.expected()
        at, total = z3.Int('position'), interp.seq_len(expected)
        return [('as many paths', interp.seq_len(pieces) == total),
                ('paths', z3.Implies(
                        z3.And(0 <= at, at < total),
                        self.term(interp, interp.pieces_at(pieces, at))
                        == interp.as_val(interp.pieces_at(expected, at))))]
