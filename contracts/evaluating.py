"""Contracts of evaluation of expressions and statements of stubs."""
import ast
import typing

import z3

from harness.proof import Proof
from pyvc.core import (BOOL, FALSE, INT, TRUE, StrS, ValS, Gen, Lit, PyExc,
                       SBool, SStr, SVal, Unsupported, VTup, new_iv)

EVAL = z3.Function('value_of_node', ValS, ValS)
NOT_TRUE = 'the result is the one of Python'
UNARY = z3.Function('unary', INT, ValS, ValS)
BINARY = z3.Function('binary', INT, ValS, ValS, ValS)
UNSUPPORTED = z3.Function('is_unsupported', INT, ValS, ValS, BOOL)
UNION = z3.Function('union_of', ValS, ValS, ValS)
ITEM = z3.Function('item_of', ValS, ValS, ValS)
NO_ITEM = z3.Function('is_not_subscriptable', ValS, ValS, BOOL)
ATTRIBUTE = z3.Function('attribute_of', ValS, StrS, ValS)
NO_ATTRIBUTE = z3.Function('has_no_attribute', ValS, StrS, BOOL)
FOUND_MODULE = z3.Function('module_of_found', ValS, ValS)
FOUND_OBJECT = z3.Function('object_of_found', ValS, ValS)
AT_PATH = z3.Function('value_at_path', ValS, ValS, ValS)
NAMED = z3.Function('path_of_name', StrS, ValS)
PATH_OF = z3.Function('path_of_node', ValS, ValS)


def named(interp, args, kwargs, names):
    """Arguments by names of parameters."""
    if not all(isinstance(a, Lit) for a in args) or len(args) > len(names):
        raise Unsupported('other arguments')
    result = dict(zip(names, [a.value for a in args]))
    for name, value in interp.plain_kwargs(kwargs).items():
        if name not in names or name in result:
            raise Unsupported(f'other arguments: {name}')
        result[name] = value
    if set(result) != set(names):
        raise Unsupported('other arguments')
    return [result[name] for name in names]


def string(interp, v):
    result = interp.as_str(interp.force(v))
    if result is None:
        raise Unsupported('not a string')
    return result


def is_same(interp, value, term):
    return isinstance(value, SVal) and value.t.eq(term)


def value(term):
    """Value of an expression: any object of Python."""
    return SVal(term, {'getitem': get_item, 'getattr': get_attribute,
                       'dynattr': get_attribute})


def get_item(interp, v, index):
    key = interp.as_val(index)
    if interp.ctx.branch(NO_ITEM(v.t, key)):
        raise PyExc(TypeError, ())
    return value(ITEM(v.t, key))


def get_attribute(interp, v, name, *default):
    name = string(interp, name)
    if interp.ctx.branch(NO_ATTRIBUTE(v.t, name)):
        raise PyExc(AttributeError, ())
    return value(ATTRIBUTE(v.t, name))


class Evaluating(Proof):
    """Setup common to handlers of nodes."""
    node_type = None
    assumptions = (
        'functools.singledispatch chooses the handler by the class of node',
        'evaluation of parts is represented by the contract of '
        'evaluate_expression_node; nesting of nodes is finite')

    @property
    def functions(self):
        return (f'evaluation.evaluate_expression_node '
                f'({self.node_type.__name__})',)

    def setup(self, interp):
        from paradigm._core import scoping, stubs
        from paradigm._core.arboreal import conversion, evaluation
        ctx = interp.ctx
        evaluate = evaluation.evaluate_expression_node
        if not hasattr(evaluate, 'dispatch'):
            raise Unsupported('nodes are not dispatched by types')
        handler = evaluate.dispatch(self.node_type)
        if handler is evaluate.dispatch(object):
            raise Unsupported('there is no handler')
        self.module, self.parent, self.namespace, self.none = (
            *z3.Consts('module_path parent_path namespace', ValS),
            ctx.host_const(None))

        def evaluated(interp, args, kwargs):
            node, module, parent, namespace = named(
                    interp, args, kwargs, ['ast_node', 'module_path',
                                           'parent_path',
                                           'parent_namespace'])
            if not (is_same(interp, module, self.module)
                    and is_same(interp, parent, self.parent)
                    and is_same(interp, namespace, self.namespace)):
                raise Unsupported('evaluation in other scope')
            return self.part(interp, node)

        def resolve(interp, args, kwargs):
            arguments = named(interp, args, kwargs, [
                'module_path', 'parent_path', 'object_path',
                'modules_definitions', 'modules_references',
                'modules_submodules', 'modules_superclasses'])
            module, parent, path, *tables = arguments
            if not (is_same(interp, module, self.module)
                    and is_same(interp, parent, self.parent)
                    and [id(interp.force(x)) for x in tables]
                    == [id(x) for x in (stubs.definitions, stubs.references,
                                        stubs.submodules,
                                        stubs.superclasses)]):
                raise Unsupported('resolution in other scope')
            path = self.resolved_path(interp, path)
            return VTup([Lit(SVal(FOUND_MODULE(path))),
                         Lit(SVal(FOUND_OBJECT(path)))])

        def at_path(interp, args, kwargs):
            module, path, namespace = named(
                    interp, args, kwargs, ['module_path', 'object_path',
                                           'parent_namespace'])
            if not is_same(interp, namespace, self.namespace):
                raise Unsupported('evaluation in other namespace')
            return value(AT_PATH(interp.as_val(module),
                                 interp.as_val(path)))

        ctx.contracts[evaluate] = evaluated
        ctx.contracts[scoping.resolve_object_path] = resolve
        ctx.contracts[evaluation.evaluate_qualified_path] = at_path
        ctx.contracts[conversion.to_path] = (
            lambda interp, args, kwargs: SVal(PATH_OF(interp.as_val(
                    args[0].value))))
        attributes = {
            name: (lambda interp, v, x=x: x)
            for name, x in self.content(interp, evaluation).items()}
        self.node = SVal(z3.Const('node', ValS), {
            'attrs': {'ctx': lambda interp, v: SVal(
                    z3.Const('context', ValS), {'isinstance': self.loaded}),
                      **attributes}})
        return lambda: interp.call(handler, [
            Lit(self.node), Lit(SVal(self.module)), Lit(SVal(self.parent)),
            Lit(SVal(self.namespace))], {})

    def loaded(self, interp, v, cls):
        if cls is not ast.Load:
            raise Unsupported('other context')
        return TRUE

    def part(self, interp, node):
        return value(EVAL(interp.as_val(node)))

    def content(self, interp, evaluation):
        raise NotImplementedError

    def resolved_path(self, interp, path):
        """Names given are represented by the path."""
        if isinstance(path, SVal):
            return path.t
        pieces = interp.iter_pieces(path)
        if len(pieces) != 1 or not isinstance(pieces[0], Lit):
            raise Unsupported('other path')
        return NAMED(string(interp, pieces[0].value))

    def expected(self, interp):
        raise NotImplementedError

    def post(self, interp, kind, result):
        if kind != 'return':
            return [('evaluated', False)]
        return [(NOT_TRUE, interp.as_val(result) == self.expected(interp))]

    def expect_kinds(self):
        return 'return',


def operators(interp, functions):
    """Opaque results of functions of the module operator."""
    for index, (function, many) in enumerate(functions):
        def apply(interp, args, kwargs, index=index, many=many):
            terms = [interp.as_val(a.value) for a in args]
            if len(terms) != many or interp.plain_kwargs(kwargs):
                raise Unsupported('other operator')
            if many == 1:
                return value(UNARY(index, *terms))
            if interp.ctx.branch(UNSUPPORTED(index, *terms)):
                raise PyExc(TypeError, ())
            return value(BINARY(index, *terms))
        interp.ctx.contracts[function] = apply


def node(name):
    return SVal(z3.Const(name, ValS))


def of_class(name, cls):
    return SVal(z3.Const(name, ValS), {
        'dispatch': lambda interp, f, v: f.dispatch(cls),
        'isinstance': lambda interp, v, other: (
            TRUE if issubclass(cls, other) else FALSE)})


class Unary(Evaluating):
    """An unary operator is applied to the value of its operand."""
    node_type = ast.UnaryOp
    operators = ((ast.USub, 'neg'), (ast.UAdd, 'pos'))
    index = 0

    @property
    def name(self):
        return f'evaluation of UnaryOp ({self.operators[self.index][1]})'

    def content(self, interp, evaluation):
        import operator
        operators(interp, [(getattr(operator, name), 1)
                           for _, name in self.operators])
        return {'op': of_class('operator', self.operators[self.index][0]),
                'operand': node('operand')}

    def expected(self, interp):
        return UNARY(self.index, EVAL(z3.Const('operand', ValS)))


class UnaryPlus(Unary):
    index = 1


class Binary(Evaluating):
    """
    A binary operator is applied to the values of the operands in their
    order, the union is the result of bar for those not supporting it.
    """
    node_type = ast.BinOp
    operators = ((ast.BitOr, 'or_'), (ast.BitAnd, 'and_'),
                 (ast.BitXor, 'xor'))
    index = 0

    @property
    def name(self):
        return f'evaluation of BinOp ({self.operators[self.index][1]})'

    def content(self, interp, evaluation):
        import operator
        operators(interp, [(getattr(operator, name), 2)
                           for _, name in self.operators])
        self.x, self.y = [EVAL(z3.Const(name, ValS))
                          for name in ('left', 'right')]

        def union(interp, index):
            pieces = interp.iter_pieces(index)
            if len(pieces) != 2:
                raise Unsupported('other union')
            return value(UNION(*[interp.as_val(p.value) for p in pieces]))

        interp.ctx.contracts['getitem', id(typing.Union)] = union
        if self.index:
            # others are expected to be supported
            interp.ctx.axioms.append(z3.Not(UNSUPPORTED(self.index, self.x,
                                                        self.y)))
        return {'op': of_class('operator', self.operators[self.index][0]),
                'left': node('left'), 'right': node('right')}

    def expected(self, interp):
        result = BINARY(self.index, self.x, self.y)
        if self.index:
            return result
        return z3.If(UNSUPPORTED(self.index, self.x, self.y),
                     UNION(self.x, self.y), result)

    def covers(self, interp):
        fails = UNSUPPORTED(self.index, self.x, self.y)
        return [('supported', z3.Not(fails))] + (
            [] if self.index else [('not supported', fails)])


class BinaryAnd(Binary):
    index = 1


class BinaryXor(Binary):
    index = 2


class Constant(Evaluating):
    """A constant is its value."""
    node_type = ast.Constant
    name = 'evaluation of Constant'

    def content(self, interp, evaluation):
        return {'value': node('constant')}

    def expected(self, interp):
        return z3.Const('constant', ValS)


class Elements(Evaluating):
    """Elements are evaluated one by one, in their order."""
    node_type = ast.Tuple
    made = tuple

    @property
    def name(self):
        return f'evaluation of {self.node_type.__name__}'

    def content(self, interp, evaluation):
        self.n = z3.Int('elements')
        self.element = z3.Function('element_node', INT, ValS)
        interp.ctx.axioms.append(self.n >= 0)
        return {'elts': nodes(interp, self.n, self.element)}

    def post(self, interp, kind, result):
        if kind != 'return':
            return [('evaluated', False)]
        if interp.host_class_of(result) is not self.made:
            return [(f'the result is a {self.made.__name__}', False)]
        return same_elements(interp, interp.iter_pieces(result), self.n,
                             lambda i: EVAL(self.element(i)))


class ListElements(Elements):
    node_type = ast.List
    made = list


def nodes(interp, n, function):
    iv = new_iv()
    return interp.new_list([Gen(n, iv, SVal(function(iv)))])


def same_elements(interp, pieces, n, term):
    size = interp.seq_len(pieces)
    i = z3.Int('position')
    within = z3.And(i >= 0, i < n)
    goals = [('as many elements', size == n)]
    at = interp.as_val(interp.pieces_at(pieces, i))
    goals.append(('elements are values of elements in their order',
                  z3.Implies(z3.And(size == n, within), at == term(i))))
    return goals


class Called(Evaluating):
    """
    The value called is called with values of positional and keyword
    arguments.
    """
    node_type = ast.Call
    name = 'evaluation of Call'
    assumptions = Evaluating.assumptions + (
        'keyword arguments of a call have different names, none unpacks a '
        'mapping',)

    def content(self, interp, evaluation):
        ctx = interp.ctx
        self.n, self.m = z3.Ints('arguments keywords')
        self.argument = z3.Function('argument_node', INT, ValS)
        self.keyword = z3.Function('keyword_node', INT, ValS)
        self.keyword_name = z3.Function('keyword_name', INT, StrS)
        i, j = z3.Ints('$ki $kj')
        ctx.axioms += [self.n >= 0, self.m >= 0, z3.ForAll(
                [i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.m),
                                   self.keyword_name(i)
                                   != self.keyword_name(j)),
                patterns=[z3.MultiPattern(self.keyword_name(i),
                                          self.keyword_name(j))])]
        self.calls = interp.new_list()
        iv = new_iv()
        keyword = SVal(z3.Function('keyword', INT, ValS)(iv), {'attrs': {
            'arg': lambda interp, v: SStr(self.keyword_name(v.t.arg(0))),
            'value': lambda interp, v: SVal(self.keyword(v.t.arg(0)))}})
        return {'args': nodes(interp, self.n, self.argument),
                'keywords': interp.new_list([Gen(self.m, iv, keyword)]),
                'func': node('function')}

    def part(self, interp, node):
        result = super().part(interp, node)
        if is_same(interp, node, z3.Const('function', ValS)):
            return SVal(result.t, {'call': self.call})
        return result

    def call(self, interp, f, args, kwargs):
        interp.ctx.touch(self.calls)
        self.calls.pieces.append(Lit((args, kwargs)))
        return node('result_of_call')

    def post(self, interp, kind, result):
        if kind != 'return' or len(self.calls.pieces) != 1:
            return [('called once', False)]
        args, kwargs = self.calls.pieces[0].value
        goals = same_elements(interp, args, self.n,
                              lambda i: EVAL(self.argument(i)))
        if isinstance(kwargs, dict):
            entries = [(interp.lift(k), x) for k, x in kwargs.items()]
            return [('keywords', self.m == len(entries))] + goals
        i = z3.Int('keyword_position')
        within = z3.And(i >= 0, i < self.m)
        goals.append(('as many keyword arguments',
                      interp.seq_len(kwargs.pieces) == self.m))
        entry = interp.pieces_at(kwargs.pieces, i)
        goals += [
            ('keyword arguments have their names', z3.Implies(
                    within, string(interp, entry.key)
                    == self.keyword_name(i))),
            ('keyword arguments have their values', z3.Implies(
                    within, interp.as_val(entry.value)
                    == EVAL(self.keyword(i)))),
            ('the result is the one of the call',
             interp.as_val(result) == z3.Const('result_of_call', ValS))]
        return goals


class Dictionary(Evaluating):
    """Values are taken by the values of their keys."""
    node_type = ast.Dict
    name = 'evaluation of Dict'
    assumptions = Evaluating.assumptions + (
        'keys of a display of a dictionary have different values, none '
        'unpacks a mapping',)

    def content(self, interp, evaluation):
        ctx = interp.ctx
        self.n = z3.Int('entries')
        self.key = z3.Function('key_node', INT, ValS)
        self.value = z3.Function('value_node', INT, ValS)
        i, j = z3.Ints('$ki $kj')
        ctx.axioms += [self.n >= 0, z3.ForAll(
                [i], self.key(i) != self.none, patterns=[self.key(i)]),
            z3.ForAll([i, j], z3.Implies(
                    z3.And(0 <= i, i < j, j < self.n),
                    EVAL(self.key(i)) != EVAL(self.key(j))),
                    patterns=[z3.MultiPattern(EVAL(self.key(i)),
                                              EVAL(self.key(j)))])]
        return {'keys': nodes(interp, self.n, self.key),
                'values': nodes(interp, self.n, self.value)}

    def post(self, interp, kind, result):
        if kind != 'return':
            return [('evaluated', False)]
        if interp.host_class_of(result) is not dict:
            return [('the result is a dictionary', False)]
        i = z3.Int('position')
        within = z3.And(i >= 0, i < self.n)
        entry = interp.pieces_at(result.pieces, i)
        return [('as many entries',
                 interp.seq_len(result.pieces) == self.n),
                ('keys', z3.Implies(within, interp.as_val(entry.key)
                                    == EVAL(self.key(i)))),
                ('values', z3.Implies(within, interp.as_val(entry.value)
                                      == EVAL(self.value(i))))]


class Named(Evaluating):
    """A name stands for the object it resolves to."""
    node_type = ast.Name
    name = 'evaluation of Name'

    def content(self, interp, evaluation):
        return {'id': SStr(z3.Const('identifier', StrS))}

    def expected(self, interp):
        path = NAMED(z3.Const('identifier', StrS))
        return AT_PATH(FOUND_MODULE(path), FOUND_OBJECT(path))


class Attribute(Evaluating):
    """
    An attribute is taken from the value, objects without the attribute are
    found by the whole dotted name.
    """
    node_type = ast.Attribute
    name = 'evaluation of Attribute'

    def content(self, interp, evaluation):
        return {'value': node('owner'),
                'attr': SStr(z3.Const('identifier', StrS))}

    def expected(self, interp):
        owner, name = EVAL(z3.Const('owner', ValS)), z3.Const('identifier',
                                                              StrS)
        path = PATH_OF(self.node.t)
        return z3.If(NO_ATTRIBUTE(owner, name),
                     AT_PATH(FOUND_MODULE(path), FOUND_OBJECT(path)),
                     ATTRIBUTE(owner, name))


class Subscript(Evaluating):
    """
    A subscription is made of the value with the value of the index, objects
    which are not subscriptable are given themselves.
    """
    node_type = ast.Subscript
    name = 'evaluation of Subscript'

    def content(self, interp, evaluation):
        return {'value': node('owner'), 'slice': node('index')}

    def expected(self, interp):
        owner, index = [EVAL(z3.Const(name, ValS))
                        for name in ('owner', 'index')]
        return z3.If(NO_ITEM(owner, index), owner, ITEM(owner, index))


HANDLERS = [Unary, UnaryPlus, Binary, BinaryAnd, BinaryXor, Constant,
            Elements, ListElements, Called, Dictionary, Named, Attribute,
            Subscript]


FOUND_IN = z3.Function('found_in_module', ValS, ValS, ValS)
MODULE = z3.Function('imported_module', StrS, ValS)
TEXT = z3.Function('text_of_path', ValS, StrS)
IMPORTABLE = z3.Function('is_importable', StrS, BOOL)
IS_FOUND = z3.Function('is_found_in_module', ValS, ValS, BOOL)
IS_EMPTY = z3.Function('is_empty_path', ValS, BOOL)
FROM_RAW = z3.Function('node_of_raw', ValS, ValS)
STATEMENT = z3.Function('value_of_statement', ValS, ValS, ValS, ValS)
PARENT = z3.Function('parent_of_path', ValS, ValS)


class Search(Proof):
    """
    Searching follows attributes one by one and fails with the first one
    missing.
    """
    name = 'namespacing.search'
    functions = ('namespacing.search',)
    assumptions = (
        'getattr gives an attribute or raises AttributeError',
        'the principle of mathematical induction over attributes is applied '
        'by the harness, base and step are discharged')

    def setup(self, interp):
        from paradigm._core import namespacing
        ctx = interp.ctx
        self.error = namespacing.ObjectNotFound
        self.size = z3.Int('depth')
        self.part = z3.Function('path_part', INT, StrS)
        self.chain = z3.Function('chain', INT, ValS)
        i = z3.Int('$ci')
        ctx.axioms += [self.size >= 0, z3.ForAll([i], z3.Implies(
                i >= 0, self.chain(i + 1) == ATTRIBUTE(
                        self.chain(i), self.part(i))),
            patterns=[self.chain(i + 1)])]
        iv = new_iv()
        path = VTup([Gen(self.size, iv, SStr(self.part(iv)))])
        return lambda: interp.call(namespacing.search,
                                   [value(self.chain(0)), path], {})

    def covers(self, interp):
        return [('deep', self.size == 3)]

    def expect_kinds(self):
        return 'return', 'raise'

    def missing(self, i):
        return NO_ATTRIBUTE(self.chain(i), self.part(i))

    def post(self, interp, kind, result):
        ctx = interp.ctx
        goals = []
        i = z3.Int('position')
        for r in ctx.recurrences:
            base = r(0) == self.chain(0)
            goals += [('induction: base', base), (
                'induction: step', z3.Implies(
                        z3.And(i >= 0, r(i) == self.chain(i)),
                        r(i + 1) == self.chain(i + 1)))]
            for pattern in (r(i), self.chain(i)):
                ctx.assume(z3.Implies(base, z3.ForAll([i], z3.Implies(
                        i >= 0, r(i) == self.chain(i)),
                    patterns=[pattern])))
        if kind == 'raise':
            if result.cls is not self.error:
                return goals + [(f'raises {self.error.__name__}', False)]
            return goals + [('some attribute is missing', z3.Exists(
                    [i], z3.And(0 <= i, i < self.size, self.missing(i))))]
        return goals + [
            ('all attributes are there', z3.ForAll([i], z3.Implies(
                    z3.And(0 <= i, i < self.size),
                    z3.Not(self.missing(i))), patterns=[self.chain(i)])),
            ('the last attribute is found',
             interp.as_val(result) == self.chain(self.size))]


class AtPath(Proof):
    """
    An object of an imported module is the very object, others are taken
    from declarations once: the value of the last one.
    """
    name = 'evaluate_qualified_path (found or not classes)'
    functions = ('evaluation.evaluate_qualified_path',)
    assumptions = (
        'import_module gives a module or raises ImportError',
        'classes which are not found at run time are not covered: they are '
        'made of their stubs')

    def setup(self, interp):
        from importlib import import_module
        from paradigm._core import catalog, namespacing, stubs
        from paradigm._core.arboreal import (construction, evaluation,
                                             kind as kinds)
        ctx = interp.ctx
        self.module, self.path, self.namespace = z3.Consts(
                'module_path object_path namespace', ValS)
        self.n = z3.Int('declarations')
        self.raw = z3.Function('raw_node', INT, ValS)
        self.cached, self.is_cached = z3.Const('cached', ValS), z3.Bool(
                'is_cached')
        self.text = TEXT(self.module)
        self.imported = MODULE(self.text)
        self.found = z3.And(IMPORTABLE(self.text), z3.Or(
                IS_EMPTY(self.path), IS_FOUND(self.imported, self.path)))
        ctx.axioms += [self.n >= 1, z3.Or(
                self.found, z3.Not(IS_EMPTY(self.path)))]
        module = SVal(self.module)
        path = SVal(self.path, {
            'truth': lambda interp, v: z3.Not(IS_EMPTY(v.t)),
            'slice': self.sliced,
            'getitem': lambda interp, v, index: SStr(
                    z3.Const('last_name', StrS))})

        def import_(interp, args, kwargs):
            name, = [string(interp, a.value) for a in args]
            if ctx.branch(IMPORTABLE(name)):
                return value(MODULE(name))
            raise PyExc(ImportError, ())

        def search(interp, args, kwargs):
            terms = [interp.as_val(a.value) for a in args]
            if ctx.branch(IS_FOUND(*terms)):
                return value(FOUND_IN(*terms))
            raise PyExc(namespacing.ObjectNotFound, ())

        def from_raw(interp, args, kwargs):
            raw, = [interp.as_val(a.value) for a in args]
            return SVal(FROM_RAW(raw), {'isinstance': lambda interp, v, cls:
                                        is_statement(cls)})

        def is_statement(cls):
            if cls is not ast.stmt:
                raise Unsupported('other check of a node')
            return TRUE

        def statement(interp, args, kwargs):
            node, module, parent, namespace = named(
                    interp, args, kwargs, ['ast_node', 'module_path',
                                           'parent_path',
                                           'parent_namespace'])
            if not is_same(interp, namespace, self.namespace):
                raise Unsupported('evaluation in other namespace')
            return value(STATEMENT(interp.as_val(node),
                                   interp.as_val(module),
                                   interp.as_val(parent)))

        def cache(interp, index):
            pieces = interp.iter_pieces(index)
            if not (len(pieces) == 2
                    and is_same(interp, pieces[0].value, self.module)
                    and is_same(interp, pieces[1].value, self.path)):
                raise Unsupported('other key of the cache')
            if ctx.branch(self.is_cached):
                return value(self.cached)
            raise PyExc(KeyError, ())

        def table(name, result):
            inner = SVal(z3.Const(f'{name}_of_module', ValS), {
                'getitem': lambda interp, v, key: (
                    self.check(interp, key, self.path), result)[1]})
            outer = SVal(z3.Const(name, ValS), {
                'getitem': lambda interp, v, key: (
                    self.check(interp, key, self.module), inner)[1]})
            ctx.contracts['attr', id(stubs), name] = lambda interp: outer

        ctx.contracts[import_module] = import_
        ctx.contracts[namespacing.search] = search
        ctx.contracts[construction.from_raw] = from_raw
        ctx.contracts[evaluation.evaluate_statement_node] = statement
        ctx.contracts[catalog.path_to_string] = (
            lambda interp, args, kwargs: SStr(TEXT(interp.as_val(
                    args[0].value))))
        defaults = evaluation.evaluate_qualified_path.__kwdefaults__ or {}
        for name in ('objects_cache',):
            if name not in defaults:
                raise Unsupported('other cache')
            ctx.contracts['getitem', id(defaults[name])] = cache
        iv = new_iv()
        table('raw_ast_nodes', interp.new_list([Gen(
                self.n, iv, SVal(self.raw(iv)))]))
        table('nodes_kinds', self.kind(kinds.NodeKind))
        return lambda: interp.call(evaluation.evaluate_qualified_path, [
            module, path, SVal(self.namespace, {
                'setitem': lambda interp, v, key, x: None})], {})

    def kind(self, kinds):
        return kinds.ASSIGNMENT

    def sliced(self, interp, v, low, high, *step):
        if low is not None or high != -1:
            raise Unsupported('other part of path')
        return SVal(PARENT(v.t))

    def check(self, interp, key, term):
        if not is_same(interp, key, term):
            raise Unsupported('other key')

    def covers(self, interp):
        return [('module', z3.And(IMPORTABLE(self.text),
                                  IS_EMPTY(self.path))),
                ('attribute', z3.And(
                        IMPORTABLE(self.text), z3.Not(IS_EMPTY(self.path)),
                        IS_FOUND(self.imported, self.path))),
                ('several declarations', z3.And(
                        z3.Not(IMPORTABLE(self.text)),
                        z3.Not(self.is_cached), self.n == 3))]

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, result):
        if kind != 'return':
            return [('evaluated', False)]
        expected = z3.If(self.found, z3.If(
                IS_EMPTY(self.path), self.imported,
                FOUND_IN(self.imported, self.path)),
            z3.If(self.is_cached, self.cached, STATEMENT(
                    FROM_RAW(self.raw(self.n - 1)), self.module,
                    PARENT(self.path))))
        return [('the object at the path',
                 interp.as_val(result) == expected)]


class Assigned(Proof):
    """
    The value of an assignment is the value of its expression, evaluated at
    most once; names used for their own values give references to them
    while they are evaluated, whether the evaluation finishes or not.
    """
    name = 'evaluate_statement_node (assignments)'
    node_type = ast.Assign
    functions = ('evaluation.evaluate_statement_node (assignments)',)
    assumptions = (
        'targets of an assignment are different names of the scope',
        'evaluation of the expression is represented by the contract of '
        'evaluate_expression_node')

    def setup(self, interp):
        from paradigm._core import catalog, scoping, stubs
        from paradigm._core.arboreal import conversion, evaluation
        ctx = interp.ctx
        evaluate = evaluation.evaluate_statement_node
        if not hasattr(evaluate, 'dispatch'):
            raise Unsupported('nodes are not dispatched by types')
        handler = evaluate.dispatch(self.node_type)
        if handler is evaluate.dispatch(object):
            raise Unsupported('there is no handler')
        cache = (getattr(handler, '__kwdefaults__', None) or {}).get('cache')
        if type(cache) is not dict:
            raise Unsupported('other cache')
        self.module, self.parent, self.namespace = z3.Consts(
                'module_path parent_path namespace', ValS)
        self.n = z3.Int('targets')
        self.target = z3.Function('target_name', INT, StrS)
        self.known = z3.Function('is_known', INT, BOOL)
        self.cached = z3.Function('known_value', INT, ValS)
        path = z3.Function('target_path', INT, ValS)
        self.path = path
        i, j = z3.Ints('$ki $kj')
        ctx.axioms += [self.n >= 1, z3.ForAll([i, j], z3.Implies(z3.And(
                0 <= i, i < j, j < self.n), path(i) != path(j)),
            patterns=[z3.MultiPattern(path(i), path(j))])]
        self.sets = interp.new_list()
        self.fails = z3.Bool('evaluation_is_interrupted')

        def evaluated(interp, args, kwargs):
            node, module, parent, namespace = named(
                    interp, args, kwargs, ['ast_node', 'module_path',
                                           'parent_path',
                                           'parent_namespace'])
            if not (is_same(interp, module, self.module)
                    and is_same(interp, parent, self.parent)
                    and is_same(interp, namespace, self.namespace)):
                raise Unsupported('evaluation in other scope')
            if ctx.branch(self.fails):
                raise PyExc(BaseException, ('interrupted',))
            return value(EVAL(interp.as_val(node)))

        def resolve(interp, args, kwargs):
            module, parent, name, *tables = named(interp, args, kwargs, [
                'module_path', 'parent_path', 'object_path',
                'modules_definitions', 'modules_references',
                'modules_submodules', 'modules_superclasses'])
            pieces = interp.iter_pieces(name)
            if not (is_same(interp, module, self.module)
                    and is_same(interp, parent, self.parent)
                    and len(pieces) == 1 and [id(interp.force(x))
                                              for x in tables]
                    == [id(x) for x in (stubs.definitions, stubs.references,
                                        stubs.submodules,
                                        stubs.superclasses)]):
                raise Unsupported('resolution in other scope')
            name = string(interp, pieces[0].value)
            if name.decl().name() != 'target_name':
                raise Unsupported('other name')
            return SVal(path(name.arg(0)), {
                'unpack': lambda interp, v, n: [
                    SVal(z3.Const('target_module', ValS)),
                    SVal(z3.Const('target_object', ValS))]})

        def known(interp, key):
            t = interp.as_val(key)
            if t.decl().name() != 'target_path':
                raise Unsupported('other key of the cache')
            if ctx.branch(self.known(t.arg(0))):
                return value(self.cached(t.arg(0)))
            raise PyExc(KeyError, ())

        def set_(interp, key, x):
            ctx.touch(self.sets)
            self.sets.pieces.append(Lit(VTup([Lit(key), Lit(x)])))

        ctx.contracts['dictdel', id(cache)] = (
            lambda interp, key: set_(
                    interp, key, SVal(z3.Const('removed', ValS))))
        ctx.contracts[evaluation.evaluate_expression_node] = evaluated
        ctx.contracts[scoping.resolve_object_path] = resolve
        ctx.contracts['dict', id(cache)] = known
        ctx.contracts['dictset', id(cache)] = set_
        ctx.contracts[typing.ForwardRef] = (
            lambda interp, args, kwargs: SVal(z3.Const('reference', ValS)))
        ctx.contracts[catalog.path_to_string] = (
            lambda interp, args, kwargs: SStr(TEXT(interp.as_val(
                    args[0].value))))
        iv = new_iv()
        ctx.contracts[conversion.to_names] = (
            lambda interp, args, kwargs: interp.new_list([Gen(
                    self.n, iv, SStr(self.target(iv)))]))
        node = SVal(z3.Const('statement', ValS), {'attrs': {
            'value': lambda interp, v: SVal(z3.Const('expression', ValS))}})
        return lambda: interp.call(handler, [
            Lit(node), Lit(SVal(self.module)), Lit(SVal(self.parent)),
            Lit(SVal(self.namespace))], {})

    def covers(self, interp):
        return [('several targets', self.n == 3)]

    def expect_kinds(self):
        return 'return', 'raise'

    def post(self, interp, kind, result):
        if kind != 'return':
            return [('other evaluations than interrupted ones finish',
                     self.fails),
                    ('nothing is known after an interrupted evaluation',
                     self.remembered(interp, z3.Const('removed', ValS)))]
        result = interp.as_val(result)
        i, j = z3.Ints('position other')
        goals = [
            ('known values are given', z3.ForAll([i], z3.Implies(z3.And(
                    0 <= i, i < self.n, self.known(i), z3.ForAll(
                            [j], z3.Implies(z3.And(0 <= j, j < i),
                                            z3.Not(self.known(j))))),
                result == self.cached(i)))),
            ('values of expressions are given', z3.Implies(
                    z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n),
                                              z3.Not(self.known(i)))),
                    result == EVAL(z3.Const('expression', ValS))))]
        goals.append(('the value is known from now on', self.remembered(
                interp, result)))
        return goals

    def remembered(self, interp, result):
        last = self.sets.pieces[-1]
        if not isinstance(last, Gen):
            return False
        key, x = [p.value for p in last.tmpl.pieces]
        iv = last.iv
        return z3.And(last.n == self.n,
                      z3.ForAll([iv], z3.Implies(
                              z3.And(0 <= iv, iv < self.n),
                              z3.And(interp.as_val(key) == self.path(iv),
                                     interp.as_val(x) == result))))


class AssignedAnnotated(Assigned):
    node_type = ast.AnnAssign
    name = 'evaluate_statement_node (annotated assignments)'
