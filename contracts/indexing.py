"""
Contracts of indexing: what is written to the index is observed as records
(qualified module path, qualified object path, module path, object path).
"""
import builtins

import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, StrS, TRUE, ValS, Gen, Lit, Prim, PyExc,
                       SBool, SStr, SVal, Sub, Unsupported, VTup, new_iv)

IS_CLASS = z3.Function('is_class', ValS, BOOL)
MODULE_OF = z3.Function('qualified_module_path', ValS, ValS)
OBJECT_OF = z3.Function('qualified_object_path', ValS, ValS)
IS_EMPTY = z3.Function('is_empty', ValS, BOOL)


def same(interp, a, b):
    return SBool(interp.as_val(a) == interp.as_val(b))


def path(term):
    return SVal(term, {'eq': same, 'truth': lambda interp, v: z3.Not(
            IS_EMPTY(v.t))})


class Index:
    """
    The nested dictionaries of the index, only extended by ``setdefault`` and
    ``append``; records are kept in their order.
    """

    def __init__(self, interp):
        self.interp = interp
        self.records = interp.new_list()
        self.value = SVal(z3.Const('index', ValS), {'getattr': self.outer})

    def method(self, name, expected, call):
        if name != expected:
            raise Unsupported(f'method {name} of the index')
        return Prim(name, lambda args, kwargs: call(*[
            self.interp.force(a.value) for a in args], **kwargs))

    def empty(self, value, cls):
        from pyvc.core import DictObj, ListObj
        if not (type(value) is cls and not value.pieces):
            raise Unsupported('default of the index')

    def outer(self, interp, v, name, default):
        from pyvc.core import DictObj

        def setdefault(key, value):
            self.empty(value, DictObj)
            return SVal(z3.Const('inner_index', ValS), {
                'getattr': lambda *args: self.inner(key, args[2])})

        return self.method(name, 'setdefault', setdefault)

    def inner(self, module, name):
        from pyvc.core import ListObj

        def setdefault(key, value):
            self.empty(value, ListObj)
            return SVal(z3.Const('paths', ValS), {
                'getattr': lambda *args: self.paths(module, key, args[2])})

        return self.method(name, 'setdefault', setdefault)

    def paths(self, module, object_, name):
        def append(record):
            record = self.interp.force(record)
            if isinstance(record, tuple):
                record = self.interp.lift(record)
            if not (isinstance(record, VTup) and len(record.pieces) == 2):
                raise Unsupported('other record')
            where, at = [p.value for p in record.pieces]
            self.log('record', module, object_, where, at)

        return self.method(name, 'append', append)

    def log(self, kind, *values):
        self.interp.ctx.touch(self.records)
        self.records.pieces.append(Lit(VTup([Lit(kind), *[
            Lit(v) for v in values]])))


def texts(interp, value):
    value = interp.force(value)
    if isinstance(value, tuple):
        value = interp.lift(value)
    if not isinstance(value, VTup):
        raise Unsupported(f'path {value!r}'[:100])
    return value


class Traversal(Proof):
    """
    Every member which is a class (not one of those being traversed) or has
    a qualified path is recorded, classes are traversed in their turn.
    """
    name = '_index_module_or_type'
    functions = ('index._index_module_or_type',)
    assumptions = (
        'vars gives the members of a namespace: any sequence of names and '
        'objects, equality of classes is identity',
        'qualified paths of classes are not empty (shown for the handler '
        'of classes)',
        'termination of the recursion: classes traversed are excluded and '
        'there are finitely many of them')

    def setup(self, interp):
        from paradigm._core import catalog, index
        ctx = interp.ctx
        self.index = Index(interp)
        self.namespace = SVal(z3.Const('namespace', ValS), {})
        self.n = z3.Int('members')
        self.m = z3.Int('visited')
        self.depth = z3.Int('depth')
        self.name_of = z3.Function('member_name', INT, StrS)
        self.member = z3.Function('member', INT, ValS)
        self.visited = z3.Function('visited_class', INT, ValS)
        self.parent = z3.Function('parent_part', INT, StrS)
        ctx.axioms.extend([self.n >= 0, self.m >= 0, self.depth >= 0])
        x = z3.Const('$m', ValS)
        ctx.axioms.append(z3.ForAll(
                [x], z3.Implies(IS_CLASS(x), z3.And(
                        z3.Not(IS_EMPTY(MODULE_OF(x))),
                        z3.Not(IS_EMPTY(OBJECT_OF(x))))),
                patterns=[IS_CLASS(x)]))
        iv, jv, kv = new_iv(), new_iv(), new_iv()
        entry = interp.new_entry(SStr(self.name_of(iv)),
                                 self.value(self.member(iv)))
        entry.frozen = True
        members = interp.new_dict([Gen(self.n, iv, entry)])

        def vars_(interp, args, kwargs):
            if interp.force(args[0].value) is not self.namespace:
                raise Unsupported('members of other object')
            return members

        def qualified(interp, args, kwargs):
            value = interp.as_val(args[0].value)
            return VTup([Lit(path(MODULE_OF(value))),
                         Lit(path(OBJECT_OF(value)))])

        def traversed(interp, args, kwargs):
            kwargs = interp.plain_kwargs(kwargs)
            if len(args) != 1 or set(kwargs) != {
                    'paths', 'module_path', 'parent_path',
                    'visited_classes'}:
                raise Unsupported('other traversal')
            if interp.force(kwargs['paths']) is not self.index.value:
                raise Unsupported('other index')
            self.index.log('traverse', args[0].value, kwargs['module_path'],
                           kwargs['parent_path'],
                           kwargs['visited_classes'])

        ctx.contracts[builtins.vars] = vars_
        ctx.contracts[catalog.qualified_path_from] = qualified
        self.where = path(z3.Const('module_path', ValS))
        parent = VTup([Gen(self.depth, jv, SStr(self.parent(jv)))])
        visited = interp.new_set([Gen(self.m, kv, self.value(
                self.visited(kv)))])
        function = index._index_module_or_type
        outer = interp.func_of_host(function)
        outer.host = None
        ctx.contracts[function] = traversed
        return lambda: interp.call(outer, [self.namespace], {
            'paths': self.index.value, 'module_path': self.where,
            'parent_path': parent, 'visited_classes': visited})

    def value(self, term):
        def check(interp, v, cls):
            if cls is type:
                return IS_CLASS(v.t)
            raise Unsupported(f'check of {cls}')
        return SVal(term, {'isinstance': check, 'eq': same})

    def covers(self, interp):
        i = z3.Int('i')
        return [('nested classes', z3.And(
                self.n > 2, self.depth > 1, self.m > 1,
                IS_CLASS(self.member(0)),
                z3.Not(IS_CLASS(self.member(1)))))]

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        i, k = z3.Ints('i k')
        ctx = interp.ctx

        def expected(kind, i):
            x = self.member(i)
            seen = z3.Exists([k], z3.And(0 <= k, k < self.m,
                                         self.visited(k) == x))
            fresh = z3.And(IS_CLASS(x), z3.Not(seen))
            if kind == 'traverse':
                return z3.And(0 <= i, i < self.n, fresh)
            return z3.And(0 <= i, i < self.n, z3.Or(fresh, z3.And(
                    z3.Not(IS_CLASS(x)), z3.Not(IS_EMPTY(OBJECT_OF(x))))))

        goals = []
        found = {'record': [], 'traverse': []}
        for piece in interp.clean(self.index.records.pieces):
            pieces, guard, number = [piece], z3.BoolVal(True), None
            if not isinstance(piece, Gen):
                raise Unsupported(f'a record of no member: {piece!r}'[:300])
            inner = ([(p, z3.BoolVal(True)) for p in piece.tmpl.pieces]
                     if isinstance(piece.tmpl, Sub)
                     else [(Lit(piece.tmpl), z3.BoolVal(True))])
            here = z3.And(0 <= piece.iv, piece.iv < piece.n, piece.guard)
            for p, _ in inner:
                condition, value = here, None
                if isinstance(p, Lit):
                    value = p.value
                elif isinstance(p, Gen) and not isinstance(p.tmpl, Sub):
                    goals.append(('one record at a time', z3.ForAll(
                            [piece.iv], p.n <= 1)))
                    condition = z3.And(here, p.n >= 1,
                                       p.guard_at(z3.IntVal(0)))
                    value = p.at(ctx, z3.IntVal(0))
                else:
                    raise Unsupported(f'records of a member: {piece!r}'[:1500])
                values = [q.value for q in value.pieces]
                kind = values[0]
                found[kind].append((piece.iv, condition))
                goals += [(f'{kind}: {label}',
                           z3.ForAll([piece.iv], z3.Implies(condition, g)))
                          for label, g in self.exact(
                                  interp, kind, values[1:], piece.iv)]
                goals.append((f'{kind}: only if it is expected',
                              z3.ForAll([piece.iv], z3.Implies(
                                      condition, expected(kind,
                                                          piece.iv)))))
        for kind, conditions in found.items():
            goals.append((f'{kind}: always if it is expected', z3.ForAll(
                    [i], z3.Implies(expected(kind, i), z3.Or([
                        z3.substitute(c, (iv, i))
                        for iv, c in conditions])))))
            for index, (iv, first) in enumerate(conditions):
                for other, second in conditions[index + 1:]:
                    goals.append((f'{kind}: at most once', z3.ForAll(
                            [iv], z3.Not(z3.And(first, z3.substitute(
                                    second, (other, iv)))))))
        return goals

    def exact(self, interp, kind, values, i):
        x = self.member(i)
        if kind == 'record':
            module, object_, where, at = values
            goals = [
                ('under the qualified path', z3.And(
                        interp.as_val(module) == MODULE_OF(x),
                        interp.as_val(object_) == OBJECT_OF(x)))]
        else:
            class_, where, at, visited = values
            y = z3.Const('any_class', ValS)
            k = z3.Int('k')
            inside = interp.contains_formula(interp.force(visited),
                                             self.value(y))
            goals = [('of the class', interp.as_val(class_) == x),
                     ('classes being traversed are told', z3.ForAll(
                             [y], inside == z3.Or(y == x, z3.Exists(
                                     [k], z3.And(0 <= k, k < self.m,
                                                 self.visited(k) == y)))))]
        at = texts(interp, at)
        position = z3.Int('position')
        from .imports import string
        element = string(interp.pieces_at(at.pieces, position), interp.ctx)
        return goals + [
            ('of the module', interp.as_val(where) == self.where.t),
            ('by the path of the parent and the name', z3.And(
                    interp.seq_len(at.pieces) == self.depth + 1,
                    z3.ForAll([position], z3.Implies(
                            z3.And(0 <= position, position <= self.depth),
                            element == z3.If(
                                    position == self.depth, self.name_of(i),
                                    self.parent(position))))))]


class Module(Proof):
    """A module is traversed from its top, or skipped with a warning."""
    name = '_index_module_path'
    functions = ('index._index_module_path',)
    assumptions = (
        'import_module gives a module or raises any Exception; '
        'warnings.warn only warns (warnings are not turned into errors)',)

    def setup(self, interp):
        import warnings
        from paradigm._core import catalog, index, pretty
        ctx = interp.ctx
        self.index = Index(interp)
        self.warned = interp.new_list()
        self.fails = z3.Bool('import_fails')
        self.path = path(z3.Const('module_path', ValS))
        named = z3.Function('path_to_string', ValS, StrS)

        def to_string(interp, args, kwargs):
            return SStr(named(interp.as_val(args[0].value)))

        def import_(interp, args, kwargs):
            if len(args) != 1 or kwargs:
                raise Unsupported('relative import')
            name = interp.force(args[0].value)
            if not (isinstance(name, SStr)
                    and name.t.eq(named(self.path.t))):
                raise Unsupported('import of other module')
            if ctx.branch(self.fails):
                raise PyExc(Exception, ('failed',))
            return SVal(z3.Const('module', ValS))

        def warn(interp, args, kwargs):
            category = interp.plain_kwargs(kwargs).get('category')
            if len(args) > 1:
                category = interp.force(args[1].value)
            interp.ctx.touch(self.warned)
            self.warned.pieces.append(Lit(category))

        def traversed(interp, args, kwargs):
            kwargs = interp.plain_kwargs(kwargs)
            if len(args) != 1 or set(kwargs) != {
                    'paths', 'module_path', 'parent_path',
                    'visited_classes'}:
                raise Unsupported('other traversal')
            if interp.force(kwargs['paths']) is not self.index.value:
                raise Unsupported('other index')
            self.index.log('traverse', args[0].value, kwargs['module_path'],
                           kwargs['parent_path'],
                           kwargs['visited_classes'])

        ctx.contracts[catalog.path_to_string] = to_string
        ctx.contracts[index.import_module] = import_
        ctx.contracts[warnings.warn] = warn
        ctx.contracts[pretty.format_exception] = (
            lambda interp, args, kwargs: SStr(z3.Const('traceback', StrS)))
        ctx.contracts[index._index_module_or_type] = traversed
        return lambda: interp.call(index._index_module_path, [self.path],
                                   {'paths': self.index.value})

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('a module failing to import is skipped',
                     z3.BoolVal(False))]
        records = self.index.records.pieces
        warned = self.warned.pieces
        if not records:
            return [('a module is left out only if it fails to import',
                     self.fails),
                    ('a warning is given', z3.BoolVal(len(warned) == 1)),
                    ('it is a warning about import', z3.BoolVal(
                            len(warned) == 1
                            and isinstance(warned[0].value, type)
                            and issubclass(warned[0].value,
                                           ImportWarning)))]
        if len(records) != 1:
            raise Unsupported('several traversals')
        _, module, where, at, visited = [
            p.value for p in records[0].value.pieces]
        return [('it is traversed if it is imported', z3.Not(self.fails)),
                ('no warning is given', z3.BoolVal(not warned)),
                ('the imported module is traversed',
                 interp.as_val(module) == z3.Const('module', ValS)),
                ('under its path', interp.as_val(where) == self.path.t),
                ('from its top', z3.Not(interp.truth_formula(
                        texts(interp, at)))
                 if texts(interp, at).pieces else z3.BoolVal(True)),
                ('no class is being traversed', z3.BoolVal(
                        not interp.force(visited).pieces))]


class Modules(Proof):
    """All the modules are indexed into the returned dictionary."""
    name = 'from_modules'
    functions = ('index.from_modules',)

    def setup(self, interp):
        from paradigm._core import index
        ctx = interp.ctx
        self.n = z3.Int('modules')
        ctx.axioms.append(self.n >= 0)
        self.path = z3.Function('path_of_module', INT, ValS)
        self.log = interp.new_list()
        iv = new_iv()
        paths = VTup([Gen(self.n, iv, path(self.path(iv)))])

        def indexed(interp, args, kwargs):
            kwargs = interp.plain_kwargs(kwargs)
            if len(args) != 1 or set(kwargs) != {'paths'}:
                raise Unsupported('other call')
            interp.ctx.touch(self.log)
            self.log.pieces.append(Lit(VTup([args[0],
                                             Lit(kwargs['paths'])])))

        ctx.contracts[index._index_module_path] = indexed
        return lambda: interp.call(index.from_modules, [paths], {})

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        value = interp.force(value)
        log = interp.clean(self.log.pieces)
        if len(log) != 1 or not isinstance(log[0], Gen) or isinstance(
                log[0].tmpl, Sub):
            raise Unsupported(f'calls {log!r}'[:200])
        piece, = log
        where, into = [p.value for p in piece.tmpl.pieces]
        return [('as many modules as given', piece.n == self.n),
                ('every module is indexed', z3.ForAll(
                        [piece.iv], z3.Implies(
                                z3.And(0 <= piece.iv, piece.iv < self.n),
                                z3.And(piece.guard,
                                       interp.as_val(where)
                                       == self.path(piece.iv))))),
                ('into what is returned',
                 self.is_same(interp.force(into), value))]

    def is_same(self, into, value):
        if getattr(into, 'oid', None) != getattr(value, 'oid', 0):
            raise Unsupported('other dictionary')
        return z3.BoolVal(True)


PATH = z3.Function('path_from_string', ValS, ValS)
ATTR = {}


def attribute_of(name):
    return z3.Function(f'attribute {name}', ValS, ValS)


class Handler(Proof):
    """Qualified path of an object of the type."""
    type_ = None
    assumptions = ('functools.singledispatch chooses the handler by the '
                   'type of the argument',)

    def setup(self, interp):
        from paradigm._core import catalog
        ctx = interp.ctx
        if not hasattr(catalog.qualified_path_from, 'dispatch'):
            raise Unsupported('paths are not dispatched by types')
        handler = catalog.qualified_path_from.dispatch(self.type_)

        def from_string(interp, args, kwargs):
            return path(PATH(interp.as_val(args[0].value)))

        ctx.contracts[catalog.path_from_string] = from_string
        self.object = z3.Const('object', ValS)
        self.none = ctx.host_const(None)
        return lambda: interp.call(handler, [self.value(self.object)], {})

    def value(self, term):
        def get(interp, v, name, default):
            return self.attribute(interp, v, name)

        def check(interp, v, cls):
            return self.check(interp, v, cls)

        return SVal(term, {'getattr': get, 'isinstance': check})

    def attribute(self, interp, v, name):
        if name not in ('__module__', '__qualname__', '__name__', '__self__',
                        '__spec__', '__objclass__', 'name'):
            raise Unsupported(f'attribute {name}')
        from pyvc.core import VIte
        term = attribute_of(name)(v.t)
        if name in ('__self__', '__module__', '__spec__'):
            if name == '__module__' and not self.may_have_no_module:
                return self.value(term)
            return VIte(term != self.none, self.value(term), None)
        return self.value(term)

    may_have_no_module = False

    def check(self, interp, v, cls):
        raise Unsupported('check of type')

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        value = texts(interp, value)
        if len(value.pieces) != 2:
            raise Unsupported('result')
        module, object_ = [self.shown(interp, p.value)
                           for p in value.pieces]
        module_spec, object_spec = self.specified(interp)
        return [('it is declared by the module', module == module_spec),
                ('it has the qualified name', object_ == object_spec)]

    EMPTY = z3.Const('empty_path', ValS)

    def shown(self, interp, value):
        from pyvc.core import VIte
        if isinstance(value, VIte):
            return z3.If(value.c, self.shown(interp, value.a),
                         self.shown(interp, value.b))
        if isinstance(value, VTup) and not value.pieces or value == ():
            return self.EMPTY
        if isinstance(value, SVal):
            return value.t
        raise Unsupported(f'path {value!r}'[:100])


class OfClass(Handler):
    name = 'qualified_path_from: class'
    functions = ('catalog.qualified_path_from[type]',)
    type_ = type

    def specified(self, interp):
        return (PATH(attribute_of('__module__')(self.object)),
                PATH(attribute_of('__qualname__')(self.object)))


class OfFunction(OfClass):
    name = 'qualified_path_from: function'
    functions = ('catalog.qualified_path_from[FunctionType]',)
    type_ = type(lambda: 0)
    may_have_no_module = True

    def specified(self, interp):
        module, object_ = super().specified(interp)
        return (z3.If(attribute_of('__module__')(self.object) == self.none,
                      self.EMPTY, module), object_)


class OfMethodDescriptor(Handler):
    name = 'qualified_path_from: method descriptor'
    functions = ('catalog.qualified_path_from[MethodDescriptorType]',)
    type_ = type(str.join)

    def specified(self, interp):
        class_ = attribute_of('__objclass__')(self.object)
        return (PATH(attribute_of('__module__')(class_)),
                PATH(attribute_of('__qualname__')(self.object)))


class OfWrapperDescriptor(OfMethodDescriptor):
    name = 'qualified_path_from: wrapper descriptor'
    functions = ('catalog.qualified_path_from[WrapperDescriptorType]',)
    type_ = type(object.__init__)


class OfMethodWrapper(OfMethodDescriptor):
    name = 'qualified_path_from: method wrapper'
    functions = ('catalog.qualified_path_from[MethodWrapperType]',)
    type_ = type(object().__str__)


class OfBuiltin(Handler):
    name = 'qualified_path_from: builtin'
    functions = ('catalog.qualified_path_from[BuiltinFunctionType]',)
    type_ = type(len)

    def check(self, interp, v, cls):
        import types
        if cls is type:
            return IS_CLASS(v.t)
        if cls is types.ModuleType:
            return z3.Function('is_module', ValS, BOOL)(v.t)
        raise Unsupported('check of type')

    def setup(self, interp):
        x = z3.Const('$x', ValS)
        is_module = z3.Function('is_module', ValS, BOOL)
        interp.ctx.axioms.append(z3.ForAll(
                [x], z3.Not(z3.And(IS_CLASS(x), is_module(x))),
                patterns=[z3.MultiPattern(IS_CLASS(x), is_module(x))]))
        return super().setup(interp)

    def specified(self, interp):
        self_ = attribute_of('__self__')(self.object)
        is_module = z3.Function('is_module', ValS, BOOL)(self_)
        spec = attribute_of('__spec__')(self_)
        own = self_ == self.none
        qualified = PATH(attribute_of('__qualname__')(self.object))
        class_ = z3.And(z3.Not(own), IS_CLASS(self_))
        module = z3.And(z3.Not(own), is_module)
        return (z3.If(class_, PATH(attribute_of('__module__')(self_)),
                      z3.If(module, PATH(z3.If(
                              spec == self.none,
                              attribute_of('__name__')(self_),
                              attribute_of('name')(spec))), self.EMPTY)),
                z3.If(z3.Or(class_, module, own), qualified, self.EMPTY))


class OfOther(Handler):
    name = 'qualified_path_from: other objects'
    functions = ('catalog.qualified_path_from',)
    type_ = object

    def specified(self, interp):
        return self.EMPTY, self.EMPTY


HANDLERS = [OfClass, OfFunction, OfMethodDescriptor, OfWrapperDescriptor,
            OfMethodWrapper, OfBuiltin, OfOther]


class Filter(Proof):
    """Exactly the paths known to stubs are kept."""
    name = '_to_supported_qualified_paths'
    functions = ('modules._to_supported_qualified_paths',)
    assumptions = (
        'the function is extracted mechanically from the branch of the '
        'module which rebuilds the cache',)

    def setup(self, interp):
        from paradigm._core import scoping
        from pyvc.extract import nested_function
        ctx = interp.ctx
        function = nested_function('modules', '_to_supported_qualified_paths')
        self.n = z3.Int('modules')
        self.sizes = z3.Function('objects_of_module', INT, INT)
        self.counts = z3.Function('paths_of_object', INT, INT, INT)
        self.module = z3.Function('module', INT, ValS)
        self.object = z3.Function('object', INT, INT, ValS)
        self.where = z3.Function('where', INT, INT, INT, ValS)
        self.at = z3.Function('at', INT, INT, INT, ValS)
        self.known = z3.Function('is_known', ValS, ValS, BOOL)
        others = [SVal(z3.Const(name, ValS)) for name in (
            'definitions', 'references', 'submodules', 'superclasses')]

        def contains(interp, args, kwargs):
            if len(args) != 7 or kwargs:
                raise Unsupported('other call')
            where, parent, at, *rest = [interp.force(a.value) for a in args]
            if [r.t for r in rest] != [o.t for o in others]:
                raise Unsupported('other data of stubs')
            if texts(interp, parent).pieces:
                raise Unsupported('other parent')
            return SBool(self.known(interp.as_val(where),
                                    interp.as_val(at)))

        ctx.contracts[scoping.contains_object_path] = contains
        i, j, k = new_iv(), new_iv(), new_iv()
        x, y = z3.Ints('x y')
        # keys are distinct
        outer_of = z3.Function('position_of_module', ValS, INT)
        inner_of = z3.Function('position_of_object', INT, ValS, INT)
        ctx.axioms += [
            z3.ForAll([x], outer_of(self.module(x)) == x,
                      patterns=[self.module(x)]),
            z3.ForAll([x, y], inner_of(x, self.object(x, y)) == y,
                      patterns=[self.object(x, y)]),
            self.n >= 0,
            z3.ForAll([x], self.sizes(x) >= 0, patterns=[self.sizes(x)]),
            z3.ForAll([x, y], self.counts(x, y) >= 0,
                      patterns=[self.counts(x, y)])]
        paths = interp.new_list([Gen(self.counts(i, j), k, VTup([
            Lit(path(self.where(i, j, k))), Lit(path(self.at(i, j, k)))]))])
        paths.frozen = True
        inner = interp.new_entry(path(self.object(i, j)), paths)
        inner.frozen = True
        objects = interp.new_dict([Gen(self.sizes(i), j, inner)])
        objects.frozen = True
        outer = interp.new_entry(path(self.module(i)), objects)
        outer.frozen = True
        index = interp.new_dict([Gen(self.n, i, outer)])
        return lambda: interp.call(function, [index, *others], {})

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        i, j, k = z3.Ints('i j k')
        known = self.known(self.where(i, j, k), self.at(i, j, k))
        has_path = z3.Exists([k], z3.And(0 <= k, k < self.counts(i, j),
                                         known))
        has_object = z3.Exists([j], z3.And(0 <= j, j < self.sizes(i),
                                           has_path))

        def single(container):
            pieces = interp.clean(interp.force(container).pieces)
            if not (len(pieces) == 1 and isinstance(pieces[0], Gen)):
                raise Unsupported(f'index {pieces!r}'[:200])
            return pieces[0]

        def aligned(piece, index):
            return piece.n, z3.substitute(piece.guard, (piece.iv, index)), \
                piece.at(interp.ctx, index)

        modules = single(value)
        n, outer_kept, outer = aligned(modules, i)
        outer_in = z3.And(0 <= i, i < self.n)
        objects = single(outer.value)
        m, inner_kept, inner = aligned(objects, j)
        inner_in = z3.And(outer_in, 0 <= j, j < self.sizes(i))
        paths = single(inner.value)
        p, path_kept, where = aligned(paths, k)
        path_in = z3.And(inner_in, 0 <= k, k < self.counts(i, j))
        found = [interp.as_val(q.value) for q in where.pieces]
        implies = z3.Implies
        return [
            ('all the modules are looked at', n == self.n),
            ('under the module', implies(z3.And(outer_in, outer_kept),
                                         interp.as_val(outer.key)
                                         == self.module(i))),
            ('a module is kept only if it has known objects',
             implies(z3.And(outer_in, outer_kept), has_object)),
            ('a module with known objects is kept',
             implies(z3.And(outer_in, has_object), outer_kept)),
            ('all the objects are looked at', implies(
                    z3.And(outer_in, outer_kept), m == self.sizes(i))),
            ('under the object', implies(
                    z3.And(inner_in, outer_kept, inner_kept),
                    interp.as_val(inner.key) == self.object(i, j))),
            ('an object is kept only if it has known paths',
             implies(z3.And(inner_in, outer_kept, inner_kept), has_path)),
            ('an object with known paths is kept',
             implies(z3.And(inner_in, has_path),
                     z3.And(outer_kept, inner_kept))),
            ('all the paths are looked at', implies(
                    z3.And(inner_in, outer_kept, inner_kept),
                    p == self.counts(i, j))),
            ('exactly the known paths are kept', implies(
                    z3.And(path_in, outer_kept, inner_kept),
                    path_kept == known)),
            ('the paths are the indexed ones', implies(
                    z3.And(path_in, outer_kept, inner_kept, path_kept),
                    z3.And(found[0] == self.where(i, j, k),
                           found[1] == self.at(i, j, k))))]
