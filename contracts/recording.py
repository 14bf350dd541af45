"""Contracts of recording of declarations of stubs (methods of visitor)."""
import ast
import inspect

import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, TRUE, StrS, ValS, DictObj, Gen, Inst,
                       ListObj, Lit,
                       Prim, PyExc, SBool, SStr, SVal, Unsupported, VIte,
                       VTup, new_iv)
from pyvc.interp import term

from .scoping import (JOIN, LENGTH, PATH, UNIT, EMPTY, concatenated, part,
                      PART, parts, sequence)

FIELDS = ('module_path', 'parent_path', 'source_path', 'scope_definitions',
          'module_ast_nodes', 'module_ast_nodes_kinds', 'module_references',
          'modules_ast_nodes', 'modules_ast_nodes_kinds',
          'modules_definitions', 'modules_references', 'modules_submodules',
          'modules_superclasses', 'visited_modules_paths', 'classes_bases',
          'generics_parameters_paths')
ROOT, CHILD = (z3.Const('declarations_of_scope', ValS),
               z3.Function('declarations_inside', ValS, StrS, ValS))
IS_PATH = z3.Function('is_path', ValS, BOOL)
PATH_OF = z3.Function('path_of', ValS, PATH)
IS_FOUND = z3.Function('is_resolved', PATH, BOOL)
MODULE_OF = z3.Function('module_resolved', PATH, PATH)
OBJECT_OF = z3.Function('object_resolved', PATH, PATH)
NAME = z3.Function('name_of_target', ValS, StrS)
KIND = z3.Function('kind_of_node', INT, ValS)


def name_of(interp, value):
    result = interp.as_str(interp.force(value))
    if result is None:
        raise Unsupported(f'not a name: {value!r}'[:100])
    return result


def positional(args, many):
    if len(args) != many or not all(isinstance(a, Lit) for a in args):
        raise Unsupported('other arguments')
    return [a.value for a in args]


def prim(function):
    """Method of an opaque object."""
    return lambda interp, v: Prim(
            'method', lambda args, kwargs: function(interp, v, args, kwargs))


class Recording(Proof):
    """Visitor of the statements of a scope and the tables it fills."""
    assumptions = (
        'tables are dictionaries with different keys for different paths',
        'ast.NodeVisitor.visit calls the method for the class of a node',
        'resolution of names is represented by the contract of '
        '_resolve_object_path')

    def setup(self, interp):
        from paradigm._core.arboreal import conversion
        from pyvc.extract import host_module
        ctx = interp.ctx
        self.stubs = stubs = host_module('stubs')
        for name in ('_StateParser', '_resolve_object_path',
                     '_ObjectNotFound'):
            if not hasattr(stubs, name):
                raise Unsupported(f'no {name}')
        self.module, self.parent = z3.Consts('module parent', PATH)
        self.appended, self.kinds, self.defined, self.referred, self.stars = [
            interp.new_list() for _ in range(5)]
        self.tables = {name: SVal(z3.Const(name, ValS)) for name in FIELDS}
        self.tables.update({
            'module_path': parts(self.module),
            'parent_path': parts(self.parent),
            'scope_definitions': self.scope(ROOT),
            'module_ast_nodes': SVal(z3.Const('nodes', ValS), {'attrs': {
                'setdefault': prim(self.entry)}}),
            'module_ast_nodes_kinds': SVal(z3.Const('kinds', ValS), {
                'setitem': self.set_kind}),
            'module_references': SVal(z3.Const('referents', ValS), {
                'setitem': self.set_reference}),
            'modules_submodules': SVal(z3.Const('stars', ValS), {'attrs': {
                'setdefault': prim(self.stars_of)}}),
        })
        ctx.contracts[stubs._resolve_object_path] = self.resolve
        ctx.contracts[conversion.to_path] = self.to_path
        ctx.contracts[conversion.to_maybe_path] = self.to_maybe_path
        cls = stubs._StateParser
        if set(list(inspect.signature(cls.__init__).parameters)[1:]) != set(
                FIELDS):
            raise Unsupported('other visitor')
        visitor = interp.call(cls, [], dict(self.tables))
        return self.start(interp, visitor)

    def start(self, interp, visitor):
        raise NotImplementedError

    def log(self, interp, log, *values):
        interp.ctx.touch(log)
        log.pieces.append(Lit(VTup([Lit(v) for v in values])))

    # tables

    def scope(self, term):
        def entered(interp, v, args, kwargs):
            name, default = positional(args, 2)
            if not is_empty(interp, default, dict):
                raise Unsupported('other scope')
            name = name_of(interp, name)
            self.log(interp, self.defined, SVal(v.t), SStr(name))
            return SVal(CHILD(v.t, name), v.schema)

        return SVal(term, {'attrs': {'setdefault': prim(entered)}})

    def entry(self, interp, v, args, kwargs):
        key, default = positional(args, 2)
        key = sequence(interp, key)
        if not is_empty(interp, default, list):
            raise Unsupported('other declarations')

        def append(interp, v, args, kwargs):
            node, = positional(args, 1)
            self.log(interp, self.appended, parts(key), node)

        return SVal(z3.Const('entry', ValS), {'attrs': {
            'append': prim(append)}})

    def stars_of(self, interp, v, args, kwargs):
        key, default = positional(args, 2)
        if not sequence(interp, key).eq(self.module):
            raise Unsupported('other module')
        if not is_empty(interp, default, list):
            raise Unsupported('other star imports')

        def append(interp, v, args, kwargs):
            path, = positional(args, 1)
            self.log(interp, self.stars, parts(sequence(interp, path)))

        return SVal(z3.Const('entry', ValS), {'attrs': {
            'append': prim(append)}})

    def set_kind(self, interp, v, key, kind):
        from paradigm._core.arboreal.kind import NodeKind
        kind = interp.force(kind)
        if not isinstance(kind, NodeKind):
            raise Unsupported('other kind')
        self.log(interp, self.kinds, parts(sequence(interp, key)), kind)

    def set_reference(self, interp, v, key, value):
        pieces = interp.iter_pieces(value)
        if len(pieces) != 2 or not all(isinstance(p, Lit) for p in pieces):
            raise Unsupported('other reference')
        self.log(interp, self.referred, parts(sequence(interp, key)),
                 *[parts(sequence(interp, p.value)) for p in pieces])

    # functions called

    def resolve(self, interp, args, kwargs):
        signature = inspect.signature(self.stubs._resolve_object_path)
        if not all(isinstance(a, Lit) for a in args):
            raise Unsupported('other resolution')
        try:
            given = signature.bind(*[a.value for a in args],
                                   **interp.plain_kwargs(kwargs)).arguments
        except TypeError:
            raise Unsupported('other resolution')
        path = sequence(interp, given.pop('object_path'))
        for name, value in given.items():
            if name not in ('module_path', 'parent_path'):
                if interp.force(value) is not self.tables.get(name):
                    raise Unsupported(f'other resolution: {name}')
        if not (sequence(interp, given['module_path']).eq(self.module)
                and sequence(interp, given['parent_path']).eq(self.parent)):
            raise Unsupported('resolution in other scope')
        if interp.ctx.branch(IS_FOUND(path)):
            return VTup([Lit(parts(MODULE_OF(path))),
                         Lit(parts(OBJECT_OF(path)))])
        raise PyExc(self.stubs._ObjectNotFound, ())

    def to_path(self, interp, args, kwargs):
        """Targets are plain names."""
        node, = positional(args, 1)
        node = interp.as_val(node)
        return VTup([Lit(SStr(NAME(node)))])

    def to_maybe_path(self, interp, args, kwargs):
        node, = positional(args, 1)
        node = interp.as_val(node)
        if interp.ctx.branch(IS_PATH(node)):
            return parts(PATH_OF(node))
        return None

    # what is expected

    def node(self, cls, attributes):
        return SVal(z3.Const('statement', ValS), {
            'attrs': {name: (lambda interp, v, x=x: x)
                      for name, x in attributes.items()},
            'isinstance': lambda interp, v, other: SBool(z3.BoolVal(
                    issubclass(cls, other)))})

    def key(self, name):
        return concatenated([self.parent, UNIT(name)])

    def expect_kinds(self):
        return 'return',

    def events(self, interp, log, label, n, *expected):
        """
        ``n`` events, ``expected`` - functions of position giving terms.
        """
        pieces = interp.clean(log.pieces)
        size = interp.seq_len(pieces)
        i = z3.Int('position')
        goals = [(f'{label}: as many', size == n)]
        for index, piece in enumerate(pieces):
            if isinstance(piece, Gen) and (len(pieces) > 1 or piece.filtered):
                raise Unsupported(f'{label}: {pieces!r}'[:200])
            at = index if isinstance(piece, Lit) else i
            value = (piece.value if isinstance(piece, Lit)
                     else piece.at(interp.ctx, i))
            for k, e in enumerate(expected):
                e = e(at)
                goal = z3.And([z3.Implies(c, self.same(
                        interp, v.pieces[k].value, e))
                    for c, v in cases(value)])
                if isinstance(piece, Gen):
                    goal = z3.Implies(z3.And(0 <= i, i < n), goal)
                goals.append((f'{label}: {("what", "of what", "in", "of", "tables")[k]} '
                              f'({index})', goal))
        return goals

    def same(self, interp, p, e):
        if not isinstance(e, z3.ExprRef):
            return z3.BoolVal(interp.force(p) is e)
        if e.sort() == PATH:
            return sequence(interp, p) == e
        if e.sort() == StrS:
            return name_of(interp, p) == e
        return interp.as_val(p) == e

    def none(self, interp, **logs):
        result = []
        for label, log in logs.items():
            result += self.events(interp, log, label, 0)
        return result


def cases(value):
    """Alternatives with their conditions."""
    if isinstance(value, VIte):
        return [*[(z3.And(value.c, c), v) for c, v in cases(value.a)],
                *[(z3.And(z3.Not(value.c), c), v)
                  for c, v in cases(value.b)]]
    return [(z3.BoolVal(True), value)]


def is_empty(interp, value, cls):
    value = interp.force(value)
    return (interp.host_class_of(value) is cls
            and not interp.clean(interp.iter_pieces(value)))


class Function(Recording):
    """
    A function is recorded once more under its name in the scope, it is
    declared in the scope.
    """
    name = 'visit_FunctionDef'
    functions = ('stubs._StateParser.visit_FunctionDef',
                 'stubs._StateParser._add_ast_node',
                 'stubs._StateParser._add_ast_node_kind',
                 'stubs._StateParser._add_name_definition')
    node_type = ast.FunctionDef
    kind = 'FUNCTION'

    def start(self, interp, visitor):
        self.name_ = z3.Const('name', StrS)
        self.statement = self.node(self.node_type, {
            'name': SStr(self.name_)})
        method = getattr(type(self).visited(self.stubs),
                         f'visit_{self.node_type.__name__}', None)
        if method is None:
            raise Unsupported('no method')
        return lambda: interp.call(method, [visitor, self.statement], {})

    @staticmethod
    def visited(stubs):
        return stubs._StateParser

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('recorded', False)]
        return self.recorded(interp)

    def recorded(self, interp):
        from paradigm._core.arboreal.kind import NodeKind
        return [
            *self.events(interp, self.appended, 'declarations', 1,
                         lambda i: self.key(self.name_),
                         lambda i: self.statement.t),
            *self.events(interp, self.kinds, 'kinds', 1,
                         lambda i: self.key(self.name_),
                         lambda i: NodeKind[self.kind]),
            *self.events(interp, self.defined, 'names', 1,
                         lambda i: ROOT, lambda i: self.name_),
            *self.none(interp, references=self.referred, stars=self.stars)]


class AsyncFunction(Function):
    name = 'visit_AsyncFunctionDef'
    functions = ('stubs._StateParser.visit_AsyncFunctionDef',)
    node_type = ast.AsyncFunctionDef
    kind = 'ASYNC_FUNCTION'


class Assignment(Function):
    """
    An assignment of an expression is recorded for every target, the one of
    a name makes every target a reference to what the name stands for.
    """
    name = 'visit_Assign'
    functions = ('stubs._StateParser.visit_Assign',
                 'stubs._StateParser._add_path_definition',
                 'stubs._StateParser._add_reference',
                 'stubs._StateParser._to_qualified_path')
    assumptions = Recording.assumptions + (
        'targets of assignments are plain names',)
    node_type = ast.Assign
    kind = 'ASSIGNMENT'

    def start(self, interp, visitor):
        run = super().start(interp, visitor)
        self.n = z3.Int('targets')
        self.target = z3.Function('target', INT, ValS)
        self.value = z3.Const('value', ValS)
        interp.ctx.axioms += [self.n >= 1, self.value
                              != interp.ctx.host_const(None)]
        iv = new_iv()
        self.statement.schema['attrs'].update(
                targets=lambda interp, v: interp.new_list([Gen(
                        self.n, iv, SVal(self.target(iv)))]),
                value=lambda interp, v: SVal(self.value))
        return run

    def covers(self, interp):
        found = IS_FOUND(PATH_OF(self.value))
        several = self.n == 3
        return [('expression', z3.And(z3.Not(IS_PATH(self.value)), several)),
                ('name', z3.And(IS_PATH(self.value), found, several)),
                ('name declared later', z3.And(IS_PATH(self.value),
                                               z3.Not(found), several))]

    def recorded(self, interp):
        from paradigm._core.arboreal.kind import NodeKind
        is_path = IS_PATH(self.value)
        n, m = z3.If(is_path, 0, self.n), z3.If(is_path, self.n, 0)
        path = PATH_OF(self.value)
        found = IS_FOUND(path)

        def key(i):
            return self.key(NAME(self.target(i)))

        return [
            *self.events(interp, self.appended, 'declarations', n, key,
                         lambda i: self.statement.t),
            *self.events(interp, self.kinds, 'kinds', n, key,
                         lambda i: NodeKind[self.kind]),
            *self.events(interp, self.defined, 'names', n, lambda i: ROOT,
                         lambda i: NAME(self.target(i))),
            *self.events(interp, self.referred, 'references', m,
                         lambda i: UNIT(NAME(self.target(i))),
                         lambda i: z3.If(found, MODULE_OF(path),
                                         self.module),
                         lambda i: z3.If(found, OBJECT_OF(path), path)),
            *self.none(interp, stars=self.stars)]


class Annotated(Assignment):
    """
    A name with an annotation is recorded unless the name of another object
    is assigned to it.
    """
    name = 'visit_AnnAssign'
    functions = ('stubs._StateParser.visit_AnnAssign',)
    node_type = ast.AnnAssign
    kind = 'ANNOTATED_ASSIGNMENT'

    def start(self, interp, visitor):
        run = super().start(interp, visitor)
        self.has_value = z3.Bool('has_value')
        interp.ctx.axioms += [self.n == 1, z3.Implies(
                z3.Not(self.has_value), z3.Not(IS_PATH(self.value)))]
        self.statement.schema['attrs'].update(
                target=lambda interp, v: SVal(self.target(0)),
                value=lambda interp, v: VIte(self.has_value,
                                             SVal(self.value), None))
        return run

    def covers(self, interp):
        found = IS_FOUND(PATH_OF(self.value))
        return [('no value', z3.Not(self.has_value)),
                ('expression', z3.And(self.has_value,
                                      z3.Not(IS_PATH(self.value)))),
                ('name', z3.And(IS_PATH(self.value), found)),
                ('name declared later', z3.And(IS_PATH(self.value),
                                               z3.Not(found)))]


class Imports(Function):
    """
    Imported modules with other names are references, and so are all
    packages of modules imported without them.
    """
    name = 'visit_Import (other names)'
    functions = ('stubs._StateParser.visit_Import',
                 'stubs._StateParser._add_reference')
    node_type = ast.Import

    def start(self, interp, visitor):
        from paradigm._core import catalog
        run = super().start(interp, visitor)
        self.n = z3.Int('imported_names')
        self.imported = z3.Function('imported', INT, StrS)
        self.alias = z3.Function('alias', INT, StrS)
        self.path = z3.Function('path_of_string', StrS, PATH)
        interp.ctx.axioms.append(self.n >= 1)
        interp.ctx.contracts[catalog.path_from_string] = (
            lambda interp, args, kwargs: parts(self.path(name_of(
                    interp, *positional(args, 1)))))
        iv = new_iv()
        alias = SVal(z3.Function('alias_node', INT, ValS)(iv), {'attrs': {
            'name': lambda interp, v: SStr(self.imported(v.t.arg(0))),
            'asname': lambda interp, v: self.asname(v.t.arg(0))}})
        self.statement.schema['attrs'].update(
                names=lambda interp, v: interp.new_list([Gen(self.n, iv,
                                                             alias)]))
        return run

    def asname(self, i):
        return SStr(self.alias(i))

    def covers(self, interp):
        return [('several', self.n == 3)]

    def recorded(self, interp):
        return [
            *self.events(interp, self.referred, 'references', self.n,
                         lambda i: UNIT(self.alias(i)),
                         lambda i: self.path(self.imported(i)),
                         lambda i: EMPTY),
            *self.none(interp, declarations=self.appended,
                       kinds=self.kinds, names=self.defined,
                       stars=self.stars)]


class Packages(Imports):
    """Every package of a module imported by its name is a reference."""
    name = 'visit_Import (names of modules)'

    def start(self, interp, visitor):
        run = super().start(interp, visitor)
        alias = SVal(z3.Const('alias_node', ValS), {'attrs': {
            'name': lambda interp, v: SStr(self.imported(0)),
            'asname': lambda interp, v: None}})
        self.statement.schema['attrs'].update(
                names=lambda interp, v: interp.new_list([Lit(alias)]))
        return run

    def covers(self, interp):
        return [('submodule', LENGTH(self.path(self.imported(0))) == 3)]

    def recorded(self, interp):
        path = self.path(self.imported(0))

        def prefix(i):
            return part(path, 0, i + 1)

        return [
            *self.events(interp, self.referred, 'references', LENGTH(path),
                         prefix, prefix, lambda i: EMPTY),
            *self.none(interp, declarations=self.appended,
                       kinds=self.kinds, names=self.defined,
                       stars=self.stars)]


class ImportsFrom(Function):
    """
    Names imported from a module are references to its objects, the module
    everything is imported from is a star import.
    """
    name = 'visit_ImportFrom'
    functions = ('stubs._StateParser.visit_ImportFrom',
                 'stubs._StateParser._add_submodule')
    node_type = ast.ImportFrom
    is_star = False
    assumptions = Recording.assumptions + (
        'to_parent_module_path is represented by its contract (C18)',)

    def start(self, interp, visitor):
        from paradigm._core import catalog
        from paradigm._core.arboreal import utils
        run = super().start(interp, visitor)
        self.n = z3.Int('imported_names')
        self.imported = z3.Function('imported', INT, StrS)
        self.alias = z3.Function('alias', INT, StrS)
        self.renamed = z3.Function('is_renamed', INT, BOOL)
        self.source = z3.Const('module_imported_from', PATH)
        i = z3.Int('$ki')
        ctx = interp.ctx
        ctx.axioms += [self.n >= 1, z3.ForAll(
                [i], z3.Implies(z3.And(0 <= i, i < self.n), self.imported(i)
                                != ctx.str_const('*')),
                patterns=[self.imported(i)])]
        # names are not dotted
        ctx.contracts[catalog.path_from_string] = (
            lambda interp, args, kwargs: VTup([Lit(SStr(name_of(
                    interp, *positional(args, 1))))]))

        def parent(interp, args, kwargs):
            signature = inspect.signature(utils.to_parent_module_path)
            try:
                given = signature.bind(*positional(args, len(args)),
                                       **interp.plain_kwargs(
                                               kwargs)).arguments
            except TypeError:
                raise Unsupported('other arguments')
            if not (interp.force(given['object_']
                                 if 'object_' in given
                                 else list(given.values())[0])
                    is self.statement
                    and sequence(interp, given['parent_module_path']).eq(
                            self.module)):
                raise Unsupported('other import')
            return parts(self.source)

        ctx.contracts[utils.to_parent_module_path] = parent
        iv = new_iv()
        alias = SVal(z3.Function('alias_node', INT, ValS)(iv), {'attrs': {
            'name': lambda interp, v: SStr(self.imported(v.t.arg(0))),
            'asname': lambda interp, v: VIte(
                    self.renamed(v.t.arg(0)), SStr(self.alias(v.t.arg(0))),
                    None)}})
        names = [Gen(self.n, iv, alias)]
        if self.is_star:
            names = [Lit(SVal(z3.Const('alias_node', ValS), {'attrs': {
                'name': lambda interp, v: '*',
                'asname': lambda interp, v: None}}))]
        self.statement.schema['attrs'].update(
                names=lambda interp, v: interp.new_list(names))
        return run

    def covers(self, interp):
        return [('renamed', z3.And(self.n == 2, self.renamed(0),
                                   z3.Not(self.renamed(1))))]

    def recorded(self, interp):
        return [
            *self.events(interp, self.referred, 'references', self.n,
                         lambda i: UNIT(z3.If(self.renamed(i), self.alias(i),
                                              self.imported(i))),
                         lambda i: self.source,
                         lambda i: UNIT(self.imported(i))),
            *self.none(interp, declarations=self.appended,
                       kinds=self.kinds, names=self.defined,
                       stars=self.stars)]


class StarImport(ImportsFrom):
    name = 'visit_ImportFrom (everything)'
    is_star = True

    def covers(self, interp):
        return []

    def recorded(self, interp):
        return [
            *self.events(interp, self.stars, 'star imports', 1,
                         lambda i: self.source),
            *self.none(interp, declarations=self.appended,
                       kinds=self.kinds, names=self.defined,
                       references=self.referred)]


CHOSEN = z3.Function('condition_holds', ValS, BOOL)
IMPORTED = z3.Function('imported_module', PATH, ValS)
FOUND_AT = z3.Function('object_found', ValS, PATH, ValS)


class Conditional(Function):
    """
    Statements of the branch chosen by the condition are visited in their
    order, and no others; names of the condition are what they stand for.
    """
    name = 'visit_If'
    functions = ('stubs._StateParser.visit_If',)
    node_type = ast.If
    assumptions = Recording.assumptions + (
        'names of conditions are found; recursively_iterate_children gives '
        'all parts of the condition, is_dependency_name - whether they are '
        'names used in it',
        '_evaluate_expression is represented by its contract')

    def start(self, interp, visitor):
        from importlib import import_module
        from paradigm._core import catalog, namespacing
        from paradigm._core.arboreal import utils
        run = super().start(interp, visitor)
        ctx = interp.ctx
        self.k, self.n, self.m = z3.Ints('parts body_size orelse_size')
        self.child = z3.Function('part_of_condition', INT, ValS)
        self.is_name = z3.Function('is_name', ValS, BOOL)
        self.named = z3.Function('name_of_part', ValS, StrS)
        self.body = z3.Function('statement_of_body', INT, ValS)
        self.orelse = z3.Function('statement_of_orelse', INT, ValS)
        self.test = z3.Const('test', ValS)
        self.source = self.tables['source_path']
        i = z3.Int('$ki')
        ctx.axioms += [self.k >= 0, self.n >= 1, self.m >= 0, z3.ForAll(
                [i], z3.Implies(self.is_name(self.child(i)), IS_FOUND(UNIT(
                        self.named(self.child(i))))),
                patterns=[self.child(i)]), z3.Implies(
                    self.is_name(self.test),
                    IS_FOUND(UNIT(self.named(self.test))))]
        self.visited_, self.evaluated = [interp.new_list() for _ in range(2)]
        iv = new_iv()

        def children(interp, args, kwargs):
            node, = positional(args, 1)
            if not interp.as_val(node).eq(self.test):
                raise Unsupported('parts of other node')
            return interp.new_list([Gen(self.k, iv, SVal(
                    self.child(iv), {'attrs': {
                        'id': lambda interp, v: SStr(self.named(v.t))}}))])

        def evaluate(interp, args, kwargs):
            node, = positional(args, 1)
            kwargs = interp.plain_kwargs(kwargs)
            if set(kwargs) != {'source_path', 'namespace'} or (
                    interp.force(kwargs['source_path']) is not self.source):
                raise Unsupported('other evaluation')
            node = interp.as_val(node)
            self.log(interp, self.evaluated, SVal(node),
                     kwargs['namespace'])
            return SVal(z3.Const('condition', ValS), {
                'truth': lambda interp, v: CHOSEN(node)})

        def visit(interp, args, kwargs):
            visitor_, node = positional(args, 2)
            if interp.force(visitor_) is not interp.force(visitor):
                raise Unsupported('other visitor')
            self.log(interp, self.visited_, node)

        def search(interp, args, kwargs):
            module, path = positional(args, 2)
            return SVal(FOUND_AT(interp.as_val(module),
                                 sequence(interp, path)))

        ctx.contracts[utils.recursively_iterate_children] = children
        ctx.contracts[utils.is_dependency_name] = (
            lambda interp, args, kwargs: SBool(self.is_name(interp.as_val(
                    *positional(args, 1)))))
        ctx.contracts[self.stubs._evaluate_expression] = evaluate
        ctx.contracts[ast.NodeVisitor.visit] = visit
        ctx.contracts[catalog.path_to_string] = (
            lambda interp, args, kwargs: SVal(TEXT(sequence(
                    interp, *positional(args, 1)))))
        ctx.contracts[import_module] = (
            lambda interp, args, kwargs: SVal(MODULE(interp.as_val(
                    *positional(args, 1)))))
        ctx.contracts[namespacing.search] = search
        body, orelse = [interp.new_list([Gen(n, iv, SVal(f(iv)))])
                        for n, f in [(self.n, self.body),
                                     (self.m, self.orelse)]]
        self.statement.schema['attrs'].update(
                test=lambda interp, v: SVal(self.test, {'attrs': {
                    'id': lambda interp, v: SStr(self.named(v.t))}}),
                body=lambda interp, v: body,
                orelse=lambda interp, v: orelse)
        return run

    def covers(self, interp):
        holds = CHOSEN(self.test)
        return [('holds', z3.And(holds, self.n == 3, self.k == 3)),
                ('does not hold', z3.And(z3.Not(holds), self.m == 3))]

    def recorded(self, interp):
        holds = CHOSEN(self.test)
        goals = [
            *self.events(interp, self.visited_, 'visited',
                         z3.If(holds, self.n, self.m),
                         lambda i: z3.If(holds, self.body(i),
                                         self.orelse(i))),
            *self.events(interp, self.evaluated, 'evaluated', 1,
                         lambda i: self.test),
            *self.none(interp, declarations=self.appended,
                       kinds=self.kinds, names=self.defined,
                       references=self.referred, stars=self.stars)]
        namespace = self.evaluated.pieces[0].value.pieces[1].value
        goals += self.bindings(interp, namespace)
        return goals

    def bindings(self, interp, namespace):
        if interp.host_class_of(namespace) is not dict:
            raise Unsupported('other namespace')
        i = z3.Int('position')
        goals = [(label, z3.Implies(
                z3.And(0 <= i, i < self.k, self.is_name(part)),
                term(interp.contains_formula(namespace, SStr(
                        self.named(part))))))
            for label, part in [
                ('names of the condition are there', self.child(i)),
                ('the condition may be a name', self.test)]]
        for piece in interp.clean(namespace.pieces):
            entry = (piece.value if isinstance(piece, Lit)
                     else piece.at(interp.ctx, i))
            path = UNIT(name_of(interp, entry.key))
            module = MODULE(TEXT(MODULE_OF(path)))
            object_ = OBJECT_OF(path)
            goal = interp.as_val(entry.value) == z3.If(
                    LENGTH(object_) <= 0, module, FOUND_AT(module, object_))
            if isinstance(piece, Gen):
                goal = z3.Implies(z3.And(0 <= i, i < piece.n,
                                         piece.guard_at(i)), goal)
            goals.append(('they are what they stand for', goal))
        return goals


TEXT = z3.Function('text_of_path', PATH, ValS)
MODULE = z3.Function('imported_by_text', ValS, ValS)


class Condition(Proof):
    """The condition has the value of its expression in the namespace."""
    name = '_evaluate_expression'
    functions = ('stubs._evaluate_expression',
                 'stubs._expression_to_assignment')
    assumptions = (
        'execution of an assignment puts the value of its expression into '
        'the namespace under the name of its target',
        'ast.copy_location gives the node it is called with')

    def setup(self, interp):
        from paradigm._core.arboreal.execution import execute_statement
        from pyvc.extract import host_module
        ctx = interp.ctx
        stubs = host_module('stubs')
        self.test, self.source = z3.Consts('test source_path', ValS)
        self.values = interp.new_list()
        namespace = SVal(z3.Const('namespace', ValS))
        namespace.schema = {
            'attrs': {'pop': prim(self.pop)}, 'getitem': self.taken}

        def made(cls):
            def make(interp, args, kwargs):
                args = positional(args, 2)
                return Inst(ctx.oid(), cls, {
                    name: (TRUE, x) for name, x in zip(cls._fields, args)})
            return make

        ctx.contracts[ast.Store] = (
            lambda interp, args, kwargs: Inst(ctx.oid(), ast.Store, {}))
        ctx.contracts[ast.Name] = made(ast.Name)
        ctx.contracts[ast.Assign] = made(ast.Assign)
        ctx.contracts[ast.copy_location] = (
            lambda interp, args, kwargs: positional(args, 2)[0])
        value = z3.Function('value_of_expression', ValS, ValS, ValS)
        self.value = value

        def execute(interp, args, kwargs):
            node, = positional(args, 1)
            kwargs = interp.plain_kwargs(kwargs)
            if set(kwargs) != {'source_path', 'namespace'} or (
                    interp.force(kwargs['namespace']) is not namespace):
                raise Unsupported('other execution')
            node = interp.force(node)
            if interp.host_class_of(node) is not ast.Assign:
                raise Unsupported('other statement')
            target, = [interp.force(p.value) for p in interp.iter_pieces(
                    interp.getattr(node, 'targets'))]
            if interp.host_class_of(interp.getattr(
                    target, 'ctx')) is not ast.Store:
                raise Unsupported('other target')
            ctx.touch(self.values)
            self.values.pieces.append(Lit(VTup([
                Lit(interp.getattr(target, 'id')),
                Lit(SVal(value(interp.as_val(interp.getattr(node, 'value')),
                               interp.as_val(namespace))))])))

        ctx.contracts[execute_statement] = execute
        return lambda: interp.call(stubs._evaluate_expression, [
            SVal(self.test)], {'source_path': SVal(self.source),
                               'namespace': namespace})

    def taken(self, interp, v, name):
        if not self.values.pieces:
            raise PyExc(KeyError, ())
        key, value = [p.value for p in self.values.pieces[-1].value.pieces]
        if not interp.ctx.branch(name_of(interp, key) == name_of(interp,
                                                                name)):
            raise PyExc(KeyError, ())
        return value

    def pop(self, interp, v, args, kwargs):
        return self.taken(interp, v, *positional(args, 1))

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('evaluated', False)]
        return [('the value of the expression', interp.as_val(value)
                 == self.value(self.test, z3.Const('namespace', ValS)))]


class Class(Function):
    """
    A class without bases is declared, statements of its body are visited
    in their order: in its scope, with all the tables of the module.
    """
    name = 'visit_ClassDef (no bases)'
    functions = ('stubs._StateParser.visit_ClassDef',
                 'stubs._StateParser.__init__')
    node_type = ast.ClassDef
    kind = 'CLASS'

    def setup(self, interp):
        self.bases_set = interp.new_list()
        return super().setup(interp)

    def start(self, interp, visitor):
        self.visitor = visitor
        self.tables['classes_bases'].schema = {'setitem': self.set_bases}
        self.tables['scope_definitions'].schema['getitem'] = self.inside
        run = super().start(interp, visitor)
        self.n = z3.Int('body_size')
        self.body = z3.Function('statement_of_body', INT, ValS)
        interp.ctx.axioms.append(self.n >= 1)
        self.visited_ = interp.new_list()
        iv = new_iv()
        self.statement.schema['attrs'].update(
                bases=lambda interp, v: interp.new_list(),
                keywords=lambda interp, v: interp.new_list(),
                body=lambda interp, v: interp.new_list([Gen(
                        self.n, iv, SVal(self.body(iv)))]))
        interp.ctx.contracts[ast.NodeVisitor.visit] = self.visit
        return run

    def set_bases(self, interp, v, key, value):
        pieces = interp.iter_pieces(key)
        if len(pieces) != 2 or not is_empty(interp, value, list):
            raise Unsupported('other bases')
        self.log(interp, self.bases_set, *[
            parts(sequence(interp, p.value)) for p in pieces])

    def inside(self, interp, v, name):
        name = name_of(interp, name)
        if not any(not isinstance(p, Gen) and name_of(
                interp, p.value.pieces[1].value).eq(name)
                   for p in self.defined.pieces):
            raise PyExc(KeyError, ())
        return SVal(CHILD(v.t, name), v.schema)

    def visit(self, interp, args, kwargs):
        visitor, node = positional(args, 2)
        visitor = interp.force(visitor)
        if (interp.host_class_of(visitor) is not self.stubs._StateParser
                or visitor is interp.force(self.visitor)):
            raise Unsupported('other visitor')
        scope = interp.force(interp.getattr(visitor, 'scope_definitions'))
        own = {name: interp.force(interp.getattr(visitor, name))
               for name in FIELDS
               if name not in ('module_path', 'parent_path',
                               'scope_definitions')}
        same = all(value is interp.force(self.tables[name])
                   for name, value in own.items())
        if not isinstance(scope, SVal):
            raise Unsupported('other scope')
        self.log(interp, self.visited_, node, scope,
                 interp.getattr(visitor, 'parent_path'),
                 interp.getattr(visitor, 'module_path'), same)

    def recorded(self, interp):
        from paradigm._core.arboreal.kind import NodeKind
        path = self.key(self.name_)
        return [
            *self.events(interp, self.kinds, 'kinds', 1,
                         lambda i: path, lambda i: NodeKind[self.kind]),
            *self.events(interp, self.defined, 'names', 1,
                         lambda i: ROOT, lambda i: self.name_),
            *self.events(interp, self.bases_set, 'bases', 1,
                         lambda i: self.module, lambda i: path),
            *self.events(interp, self.visited_, 'visited', self.n,
                         self.body, lambda i: CHILD(ROOT, self.name_),
                         lambda i: path, lambda i: self.module,
                         lambda i: True),
            *self.none(interp, declarations=self.appended,
                       references=self.referred, stars=self.stars)]


class Module(Proof):
    """
    A module is parsed once: into new tables, by the visitor of the scope of
    the module itself, other parsing of it is not started meanwhile.
    """
    name = '_parse_stub_scope'
    functions = ('stubs._parse_stub_scope',)
    assumptions = (
        'from_source_path gives the tree of the file of from_module_path',)
    TABLES = {'modules_definitions': 'scope_definitions',
              'modules_ast_nodes': 'module_ast_nodes',
              'modules_ast_nodes_kinds': 'module_ast_nodes_kinds',
              'modules_references': 'module_references'}

    def setup(self, interp):
        from paradigm._core import sources
        from paradigm._core.arboreal import construction
        from pyvc.extract import host_module
        ctx = interp.ctx
        stubs = host_module('stubs')
        self.visited = z3.Bool('is_visited')
        self.old = SVal(z3.Const('known_declarations', ValS))
        self.log = []
        path = parts(z3.Const('module', PATH))
        if not (list(inspect.signature(stubs._parse_stub_scope).parameters)
                == [name for name in FIELDS_OF_SCOPE]):
            raise Unsupported('other parameters')
        if set(list(inspect.signature(stubs._StateParser.__init__)
                    .parameters)[1:]) != set(FIELDS):
            raise Unsupported('other visitor')

        def own(interp, key):
            if interp.force(key) is not path:
                raise Unsupported('other module')

        def table(name):
            def set_(interp, v, key, value):
                own(interp, key)
                if not is_empty(interp, value, dict):
                    raise Unsupported('other table')
                self.log.append(('set', name, interp.force(value)))

            def get(interp, v, key):
                own(interp, key)
                for action, *rest in reversed(self.log):
                    if action == 'set' and rest[0] == name:
                        return rest[1]
                return (self.old if name == 'modules_definitions'
                        else SVal(z3.Const(f'known_{name}', ValS)))

            return SVal(z3.Const(name, ValS), {'setitem': set_,
                                               'getitem': get})

        def contains(interp, v, key):
            own(interp, key)
            return SBool(self.visited)

        def add(interp, v, args, kwargs):
            own(interp, *positional(args, 1))
            self.log.append(('marked',))

        self.tables = {name: table(name) for name in FIELDS_OF_SCOPE}
        self.tables['module_path'] = self.path = path
        self.tables['visited_modules_paths'] = SVal(
                z3.Const('visited', ValS), {
                    'contains': contains, 'attrs': {'add': prim(add)}})
        source = SVal(z3.Const('file', ValS))
        tree = SVal(z3.Const('tree', ValS))

        def from_module_path(interp, args, kwargs):
            own(interp, *positional(args, 1))
            return source

        def from_source_path(interp, args, kwargs):
            given, = positional(args, 1)
            if interp.force(given) is not source:
                raise Unsupported('other file')
            return tree

        def visit(interp, args, kwargs):
            visitor, node = positional(args, 2)
            if (interp.force(node) is not tree or interp.host_class_of(
                    visitor) is not stubs._StateParser):
                raise Unsupported('other tree')
            self.log.append(('visit', {
                name: interp.force(interp.getattr(interp.force(visitor),
                                                  name))
                for name in FIELDS}))

        self.source = source
        ctx.contracts[sources.from_module_path] = from_module_path
        ctx.contracts[construction.from_source_path] = from_source_path
        ctx.contracts[ast.NodeVisitor.visit] = visit
        return lambda: interp.call(stubs._parse_stub_scope,
                                   list(self.tables.values()), {})

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return [('visited', self.visited),
                ('not visited', z3.Not(self.visited))]

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('parsed', False)]
        actions = [action for action, *_ in self.log]
        visits = [rest[0] for action, *rest in self.log
                  if action == 'visit']
        if not visits:
            return [('parsed modules are not parsed again', self.visited),
                    ('known declarations', interp.force(value) is self.old),
                    ('nothing changes', not self.log)]
        made = {name: table for action, name, table in [
            (*entry, None, None)[:3] for entry in self.log]
            if action == 'set'}
        visitor = visits[0]
        return [
            ('not parsed yet', z3.Not(self.visited)),
            ('parsed once', len(visits) == 1),
            ('marked before parsing', 'marked' in actions
             and actions.index('marked') < actions.index('visit')),
            ('tables are made before parsing',
             actions[-1] == 'visit' and set(made) == set(self.TABLES)),
            ('tables differ', len({id(t) for t in made.values()})
             == len(self.TABLES)),
            ('visitor fills them', all(
                    visitor[field] is made.get(name)
                    for name, field in self.TABLES.items())),
            ('visitor of the module', visitor['module_path'] is self.path
             and visitor['source_path'] is self.source),
            ('visitor of its scope', is_empty_path(interp, visitor[
                'parent_path'])),
            ('visitor has all tables', all(
                    visitor[name] is self.tables[name] for name in FIELDS
                    if name in self.tables)),
            ('declarations are given', interp.force(value) is made.get(
                    'modules_definitions'))]


def is_empty_path(interp, value):
    return is_empty(interp, value, tuple)


FIELDS_OF_SCOPE = (
    'module_path', 'modules_ast_nodes', 'modules_ast_nodes_kinds',
    'modules_definitions', 'modules_references', 'modules_submodules',
    'modules_superclasses', 'visited_modules_paths', 'classes_bases',
    'generics_parameters_paths')


class TupleBuilder(Proof):
    """
    The builder of a named tuple: after the class itself it accepts an
    argument for each annotated name, in their order, ones with values are
    optional; the tuple is returned.
    """
    name = '_named_tuple_to_constructor_ast_node'
    functions = ('stubs._named_tuple_to_constructor_ast_node',
                 'stubs._annotations_to_signature',
                 'stubs._ann_assign_to_arg')
    assumptions = (
        'constructors of the module ast keep what they are given, by the '
        'order of fields of a class',
        'precondition: annotated in the body of a named tuple are names')

    def setup(self, interp):
        from pyvc.extract import host_module
        ctx = interp.ctx
        stubs = host_module('stubs')
        function = getattr(stubs, '_named_tuple_to_constructor_ast_node',
                           None)
        if function is None:
            raise Unsupported('no function')
        self.n = z3.Int('body_size')
        z3f = z3.Function
        self.body = z3f('statement_of_body', INT, ValS)
        self.annotated = z3f('is_annotated', INT, BOOL)
        self.target = z3f('target_name', INT, StrS)
        self.annotation = z3f('annotation', INT, ValS)
        self.value = z3f('value', INT, ValS)
        self.valued = z3f('has_value', INT, BOOL)
        self.name_ = z3.Const('class_name', StrS)
        self.arg = z3f('argument', StrS, ValS, ValS)
        self.name_node = z3f('name_node', StrS, ValS)
        i = z3.Int('$i')
        none = self.none = ctx.host_const(None)
        ctx.axioms += [self.n >= 0] + [
            z3.ForAll([i], function_(i) != none, patterns=[function_(i)])
            for function_ in (self.annotation, self.value)]
        self.made = {}

        def constructor(cls):
            def construct(interp, args, kwargs):
                kwargs = interp.plain_kwargs(kwargs)
                values = positional(args, len(args))
                fields = dict(zip(cls._fields, values), **kwargs)
                if len(fields) != len(values) + len(kwargs):
                    raise Unsupported('arguments of a constructor')
                return self.construct(interp, cls, fields)
            ctx.contracts[cls] = construct
        for cls in (ast.FunctionDef, ast.arguments, ast.arg, ast.Expr,
                    ast.Ellipsis, ast.Name, ast.Load, ast.Constant):
            constructor(cls)

        def statement(term):
            at, = term.children()

            def check(interp, v, cls):
                at, = v.t.children()
                if cls is ast.AnnAssign:
                    return self.annotated(at)
                raise Unsupported(f'check of {cls}')

            def target(interp, v):
                at, = v.t.children()

                def is_name(interp, v, cls):
                    if cls is ast.Name:
                        return TRUE
                    raise Unsupported(f'check of {cls}')
                return SVal(z3.Function('target_node', INT, ValS)(at), {
                    'isinstance': is_name, 'attrs': {
                        'id': lambda interp, v: SStr(self.target(
                                v.t.children()[0]))}})
            return SVal(term, {'isinstance': check, 'attrs': {
                'target': target,
                'annotation': lambda interp, v: SVal(self.annotation(
                        v.t.children()[0])),
                'value': lambda interp, v: VIte(
                        self.valued(v.t.children()[0]), SVal(self.value(
                            v.t.children()[0])), None)}})
        iv = new_iv()
        node = SVal(z3.Const('class_node', ValS), {'attrs': {
            'name': lambda interp, v: SStr(self.name_),
            'body': lambda interp, v: interp.new_list(
                    [Gen(self.n, iv, statement(self.body(iv)))])}})
        return lambda: interp.call(function, [node], {})

    def construct(self, interp, cls, fields):
        if cls is ast.arg:
            annotation = fields.pop('annotation', None)
            name = name_of(interp, fields.pop('arg'))
            if fields:
                raise Unsupported('other fields of an argument')
            return SVal(self.arg(name, interp.as_val(annotation)))
        if cls is ast.Name:
            fields.pop('ctx', None)
            name = name_of(interp, fields.pop('id'))
            if fields:
                raise Unsupported('other fields of a name')
            return SVal(self.name_node(name))
        result = SVal(z3.Const(f'{cls.__name__}_{len(self.made)}', ValS))
        self.made[result.t.decl().name()] = cls, fields
        return result

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return [('names', z3.And(
                self.n == 3, self.annotated(0), z3.Not(self.annotated(1)),
                self.annotated(2), self.valued(2), z3.Not(self.valued(0))))]

    def fields_of(self, interp, value, cls):
        found, fields = self.made.get(interp.as_val(value).decl().name(),
                                      (None, None))
        if found is not cls:
            raise Unsupported(f'no {cls.__name__}')
        return fields

    def same(self, interp, found, expected):
        """Sequences are the same."""
        pieces = interp.iter_pieces(found)
        size = interp.seq_len(expected)
        goals = [('number', interp.seq_len(pieces) == size)]
        at = z3.Int('position')
        if not pieces:
            return goals
        return goals + [('element', z3.Implies(
                z3.And(0 <= at, at < size), interp.as_val(
                        interp.pieces_at(pieces, at)) == interp.as_val(
                        interp.pieces_at(expected, at))))]

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        function = self.fields_of(interp, value, ast.FunctionDef)
        arguments = self.fields_of(interp, function['args'], ast.arguments)
        iv = new_iv()
        expected = {
            'args': [Lit(SVal(self.arg(interp.as_str('cls'), self.none))),
                     Gen(self.n, iv, SVal(self.arg(
                             self.target(iv), self.annotation(iv))),
                         self.annotated(iv))],
            'defaults': [Gen(self.n, iv, SVal(self.value(iv)), z3.And(
                    self.annotated(iv), self.valued(iv),
                    z3.Not(self.value(iv) == self.none)))],
            'posonlyargs': [], 'kwonlyargs': [], 'kw_defaults': []}
        goals = [('the name', name_of(interp, function['name'])
                  == interp.as_str('__new__')),
                 ('the tuple is returned', interp.as_val(
                         function.get('returns')) == self.name_node(
                         self.name_))]
        if interp.iter_pieces(function['decorator_list']):
            raise Unsupported('decorators')
        for field in ('vararg', 'kwarg'):
            if interp.force(arguments.get(field)) is not None:
                raise Unsupported('variadic arguments')
        for field, pieces in expected.items():
            goals += [(f'{field}: {label}', goal) for label, goal
                      in self.same(interp, arguments[field], pieces)]
        return goals


class TypeVariable(Function):
    """
    A name stands for a type variable exactly when the object found by it is
    declared once, by an assignment of a call of one of the type variables of
    typing: it is looked up in its own module, after that is parsed.
    """
    name = '_is_type_var_object_path'
    functions = ('stubs._StateParser._is_type_var_object_path',
                 'stubs._StateParser._to_qualified_path',
                 'stubs._StateParser._resolve_object_path')
    assumptions = Recording.assumptions + (
        'parsing of a module is represented by its effect, module is parsed',)
    VARIABLES = 'TypeVar', 'ParamSpec'
    MODULES = 'typing', 'typing_extensions'

    def start(self, interp, visitor):
        ctx = interp.ctx
        method = getattr(self.stubs._StateParser, '_is_type_var_object_path',
                         None)
        if method is None or not hasattr(self.stubs, '_parse_stub_scope'):
            raise Unsupported('no method')
        self.path = z3.Const('path', PATH)
        z3f = z3.Function
        self.many = z3f('number_of_declarations', PATH, PATH, INT)
        self.declared = z3f('is_declared_path', PATH, PATH, BOOL)
        self.at = z3f('declaration', PATH, PATH, INT, ValS)
        self.assigns, self.calls = [z3f(name, ValS, BOOL) for name in (
            'is_assignment', 'is_call')]
        self.value = z3f('assigned_value', ValS, ValS)
        self.called = z3f('called_node', ValS, ValS)
        self.is_in = z3f('is_resolved_in', PATH, PATH, BOOL)
        self.in_module, self.in_object = [z3f(name, PATH, PATH, PATH) for name
                                          in ('module_found', 'object_found')]
        self.parsed = []
        p, q = z3.Consts('$kp $kq', PATH)
        ctx.axioms += [
            z3.ForAll([p, q], self.many(p, q) >= 0,
                      patterns=[self.many(p, q)]),
            z3.ForAll([p], LENGTH(p) >= 0, patterns=[LENGTH(p)])]
        self.tables['modules_ast_nodes'].schema = {'getitem': self.nodes_of}
        ctx.contracts[self.stubs._parse_stub_scope] = self.parse
        return lambda: interp.call(method, [visitor, parts(self.path)], {})

    def parse(self, interp, args, kwargs):
        signature = inspect.signature(self.stubs._parse_stub_scope)
        given = signature.bind(*positional(args, len(args)),
                               **interp.plain_kwargs(kwargs)).arguments
        self.parsed.append(sequence(interp, given.pop('module_path')))
        for name, value in given.items():
            if interp.force(value) is not self.tables.get(name):
                raise Unsupported(f'other tables: {name}')
        return None

    def nodes_of(self, interp, v, key):
        module = sequence(interp, key)
        if not any(module.eq(p) for p in self.parsed):
            raise Unsupported('module which is not parsed')

        def get(interp, v, args, kwargs):
            path, default = positional(args, 2)
            path = sequence(interp, path)
            if not is_empty(interp, default, list):
                raise Unsupported('other declarations')
            iv = new_iv()
            return interp.new_list([Gen(self.many(module, path), iv,
                                        self.statement_at(module, path, iv))])

        return SVal(z3.Const('nodes_of_module', ValS), {'attrs': {
            'get': prim(get)}})

    def statement_at(self, module, path, at):
        def is_assigned(interp, v, cls):
            classes = cls if isinstance(cls, tuple) else (cls,)
            if set(classes) != {ast.Assign, ast.AnnAssign}:
                raise Unsupported('other kind of declarations')
            return self.assigns(v.t)

        def is_called(interp, v, cls):
            if cls is not ast.Call:
                raise Unsupported('other kind of values')
            return self.calls(v.t)

        def value(interp, v):
            return SVal(self.value(v.t), {
                'isinstance': is_called, 'attrs': {
                    'func': lambda interp, v: SVal(self.called(v.t))}})

        return SVal(self.at(module, path, at), {
            'isinstance': is_assigned, 'attrs': {'value': value}})

    def resolve(self, interp, args, kwargs):
        signature = inspect.signature(self.stubs._resolve_object_path)
        given = signature.bind(*positional(args, len(args)),
                               **interp.plain_kwargs(kwargs)).arguments
        path, module, parent = [sequence(interp, given[name]) for name in (
            'object_path', 'module_path', 'parent_path')]
        if parent.eq(self.parent):
            return super().resolve(interp, args, kwargs)
        if not parent.eq(EMPTY):
            raise Unsupported('resolution in other scope')
        for name, value in given.items():
            if name not in ('module_path', 'parent_path', 'object_path'):
                if interp.force(value) is not self.tables.get(name):
                    raise Unsupported(f'other resolution: {name}')
        if interp.ctx.branch(self.is_in(module, path)):
            return VTup([Lit(parts(self.in_module(module, path))),
                         Lit(parts(self.in_object(module, path)))])
        raise PyExc(self.stubs._ObjectNotFound, ())

    def expect_kinds(self):
        return 'return', 'raise'

    def is_one(self, interp, path, names):
        return z3.And(LENGTH(path) == 1, z3.Or(*[
            PART(path, 0) == interp.as_str(name) for name in names]))

    def post(self, interp, kind, value):
        found = IS_FOUND(self.path)
        module = z3.If(found, MODULE_OF(self.path), self.module)
        path = z3.If(found, OBJECT_OF(self.path), self.path)
        node = self.at(module, path, z3.IntVal(0))
        called = self.called(self.value(node))
        is_call = z3.And(self.many(module, path) == 1, self.assigns(node),
                         self.calls(self.value(node)), IS_PATH(called))
        target = module, PATH_OF(called)
        if kind == 'raise':
            return [('fails only for unknown names', z3.And(
                    z3.BoolVal(value.cls is self.stubs._ObjectNotFound),
                    is_call, z3.Not(self.is_in(*target))))]
        expected = z3.And(
                is_call,
                self.is_one(interp, self.in_module(*target), self.MODULES),
                self.is_one(interp, self.in_object(*target), self.VARIABLES))
        value = interp.force(value)
        return [('whether the name is the one of a type variable',
                 interp.truth_formula(value) == expected)]


class State(Proof):
    """
    The module of builtins is parsed first, then each module given, with the
    same tables which are new; bases of classes are processed after that.
    The tables are given, with each declaration of each object of each module
    as its text in the place of nodes.
    """
    name = '_parse_stubs_state'
    functions = ('stubs._parse_stubs_state',)
    assumptions = (
        'parsing of a module and processing of bases are represented by '
        'their contracts, the tables of nodes after these are any',)
    TABLES = ('modules_definitions', 'modules_ast_nodes_kinds', None,
              'modules_references', 'modules_submodules',
              'modules_superclasses')

    def setup(self, interp):
        from paradigm._core.arboreal import conversion
        from pyvc.extract import host_module
        ctx = interp.ctx
        self.stubs = stubs = host_module('stubs')
        for name in ('_parse_stubs_state', '_parse_stub_scope',
                     '_process_classes_bases'):
            if not hasattr(stubs, name):
                raise Unsupported(f'no {name}')
        serialize = stubs._parse_stubs_state.__globals__.get('_serialization')
        if serialize is None or not hasattr(serialize, 'to_raw'):
            raise Unsupported('no texts of nodes')
        z3f = z3.Function
        self.n, self.modules = z3.Int('given'), z3.Int('modules')
        self.given = z3f('given_module', INT, PATH)
        self.objects = z3f('number_of_objects', INT, INT)
        self.nodes = z3f('number_of_nodes', INT, INT, INT)
        self.module = z3f('parsed_module', INT, ValS)
        self.object = z3f('declared_object', INT, INT, ValS)
        self.node = z3f('declared_node', INT, INT, INT, ValS)
        self.raw = z3f('raw_node', ValS, ValS)
        self.term = z3f('module_parsed', PATH, ValS)
        self.processed = z3.Const('bases_processed', ValS)
        self.tables, self.log = {}, interp.new_list()
        i, j, k = z3.Ints('$i $j $k')
        ctx.axioms += [
            self.n >= 0, self.modules >= 0,
            z3.ForAll([i], self.objects(i) >= 0, patterns=[self.objects(i)]),
            z3.ForAll([i, j], self.nodes(i, j) >= 0,
                      patterns=[self.nodes(i, j)]),
            z3.ForAll([i, j], z3.Implies(self.module(i) == self.module(j),
                                         i == j),
                      patterns=[z3.MultiPattern(self.module(i),
                                                self.module(j))]),
            z3.ForAll([i, j, k], z3.Implies(
                    self.object(i, j) == self.object(i, k), j == k),
                patterns=[z3.MultiPattern(self.object(i, j),
                                          self.object(i, k))])]
        ctx.contracts[stubs._parse_stub_scope] = self.parse
        ctx.contracts[stubs._process_classes_bases] = self.process
        ctx.contracts[serialize.to_raw] = (
            lambda interp, args, kwargs: SVal(self.raw(interp.as_val(
                    positional(args, 1)[0]))))
        iv = new_iv()
        return lambda: interp.call(stubs._parse_stubs_state, [VTup([Gen(
                self.n, iv, parts(self.given(iv)))])], {})

    def checked(self, interp, function, args, kwargs):
        given = inspect.signature(function).bind(
                *positional(args, len(args)),
                **interp.plain_kwargs(kwargs)).arguments
        path = given.pop('module_path', None)
        for name, value in given.items():
            name = {'modules_nodes_kinds': 'modules_ast_nodes_kinds'}.get(
                    name, name)
            value = interp.force(value)
            if name not in self.tables:
                if (not isinstance(value, (DictObj, ListObj))
                        or interp.clean(value.pieces)
                        or any(value is t for t in self.tables.values())):
                    raise Unsupported('tables which are not new')
                self.tables[name] = value
            if self.tables[name] is not value:
                raise Unsupported('other tables')
        return path

    def parse(self, interp, args, kwargs):
        path = self.checked(interp, self.stubs._parse_stub_scope, args,
                            kwargs)
        interp.ctx.touch(self.log)
        self.log.pieces.append(Lit(SVal(self.term(sequence(interp, path)))))
        return SVal(z3.Const('declarations', ValS))

    def process(self, interp, args, kwargs):
        self.checked(interp, self.stubs._process_classes_bases, args, kwargs)
        interp.ctx.touch(self.log)
        self.log.pieces.append(Lit(SVal(self.processed)))
        table = self.tables['modules_ast_nodes']
        i, j, k = new_iv(), new_iv(), new_iv()
        nodes = interp.new_list([Gen(self.nodes(i, j), k,
                                     SVal(self.node(i, j, k)))])
        nodes.frozen = True
        objects = interp.new_dict([Gen(self.objects(i), j, interp.new_entry(
                opaque(self.object(i, j)), nodes))])
        objects.frozen = True
        interp.ctx.touch(table)
        table.pieces = [Gen(self.modules, i, interp.new_entry(
                opaque(self.module(i)), objects))]
        return None

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return [('several', z3.And(self.n == 2, self.modules == 3))]

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('parsed', z3.BoolVal(False))]
        iv, at = new_iv(), z3.Int('position')
        builtins = UNIT(interp.ctx.str_const('builtins'))
        expected = [Lit(SVal(self.term(builtins))),
                    Gen(self.n, iv, SVal(self.term(self.given(iv)))),
                    Lit(SVal(self.processed))]
        total = interp.seq_len(expected)
        goals = [('steps', interp.seq_len(self.log.pieces) == total),
                 ('their order', z3.Implies(
                         z3.And(0 <= at, at < total),
                         interp.as_val(interp.pieces_at(self.log.pieces, at))
                         == interp.as_val(interp.pieces_at(expected, at))))]
        results = [interp.force(p.value)
                   for p in interp.iter_pieces(interp.force(value))]
        if len(results) != len(self.TABLES):
            raise Unsupported('other results')
        for name, result in zip(self.TABLES, results):
            if name is not None:
                goals.append((f'{name} are given', z3.BoolVal(
                        result is self.tables.get(name))))
        return goals + self.texts(interp, results[2])

    def texts(self, interp, result):
        i, j, k = z3.Ints('at_module at_object at_node')

        def run(value, cls, n):
            value = interp.force(value)
            if not isinstance(value, cls):
                raise Unsupported('other texts')
            pieces = interp.clean(interp.dict_pieces(value) if cls is DictObj
                                  else value.pieces)
            if len(pieces) != 1 or not isinstance(
                    pieces[0], Gen) or pieces[0].filtered:
                raise Unsupported(f'other texts: {pieces!r}'[:200])
            return pieces[0], pieces[0].n == n

        outer, modules = run(result, DictObj, self.modules)
        module = outer.at(interp.ctx, i)
        inner, objects = run(module.value, DictObj, self.objects(i))
        object_ = inner.at(interp.ctx, j)
        last, nodes = run(object_.value, ListObj, self.nodes(i, j))
        within = z3.And(0 <= i, i < self.modules)
        deeper = z3.And(within, 0 <= j, j < self.objects(i))
        return [
            ('all modules', modules),
            ('paths of modules', z3.Implies(
                    within, interp.as_val(module.key) == self.module(i))),
            ('all objects', z3.Implies(within, objects)),
            ('paths of objects', z3.Implies(
                    deeper, interp.as_val(object_.key)
                    == self.object(i, j))),
            ('all declarations', z3.Implies(deeper, nodes)),
            ('texts of declarations', z3.Implies(
                    z3.And(deeper, 0 <= k, k < self.nodes(i, j)),
                    interp.as_val(last.at(interp.ctx, k))
                    == self.raw(self.node(i, j, k))))]


def opaque(term):
    return SVal(term, {'eq': lambda interp, a, b: SBool(
            interp.as_val(a) == interp.as_val(b))})
