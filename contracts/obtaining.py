"""Contracts of obtaining signatures of callables not described by stubs."""
import inspect
import types
import typing

import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, StrS, ValS, Gen, Lit, PyExc, SBool, SEnum,
                       SStr, SVal, Unsupported, VIte, VTup, new_iv)

from . import params, sig_input


def constructed(ctx, cls, log):
    """Contract of a constructor of signatures: what it is called with."""
    def construct(interp, args, kwargs):
        result = SVal(z3.Const(f'signature_{len(log)}', ValS))
        log.append((result, args, interp.plain_kwargs(kwargs)))
        return result
    ctx.contracts[cls] = construct


class Raw(Proof):
    """
    Every parameter of ``inspect.Signature`` is turned into the parameter of
    the same name, kind, annotation and default.
    """
    name = '_from_raw_signature'
    functions = ('signatures._from_raw_signature',
                 'signatures._parameter_from_raw',
                 'models.RequiredParameter.__new__',
                 'models.OptionalParameter.__new__')
    assumptions = (
        'parameters of inspect.Signature form a mapping from names, variadic '
        'ones have no defaults',)

    def setup(self, interp):
        from paradigm._core import models, signatures
        ctx = interp.ctx
        self.layout = sig_input.Layout(models)
        self.n = z3.Int('n')
        self.raw_name = z3.Function('raw_name', INT, StrS)
        self.kind = z3.Function('raw_kind', INT, INT)
        self.annotation = z3.Function('raw_annotation', INT, ValS)
        self.annotated = z3.Function('is_annotated', INT, BOOL)
        self.default = z3.Function('raw_default', INT, ValS)
        self.has = z3.Function('has_default', INT, BOOL)
        self.raw = z3.Function('raw_parameter', INT, ValS)
        self.returns = z3.Const('raw_returns', ValS)
        self.returning = z3.Bool('has_returns')
        empty = inspect.Parameter.empty
        mark = ctx.host_const(empty)
        i = z3.Int('$ri')
        K = inspect._ParameterKind
        self.K = K
        variadic = z3.Or(self.kind(i) == int(K.VAR_POSITIONAL),
                         self.kind(i) == int(K.VAR_KEYWORD))
        ctx.axioms += [
            self.n >= 0, self.returns != mark,
            z3.ForAll([i], z3.And(
                    self.annotation(i) != mark, self.default(i) != mark,
                    z3.Or([self.kind(i) == int(k) for k in K]),
                    z3.Implies(variadic, z3.Not(self.has(i)))),
                patterns=[self.kind(i)]),
            z3.ForAll([i], z3.And(self.annotation(i) != mark,
                                  self.default(i) != mark),
                      patterns=[self.annotation(i)]),
            z3.ForAll([i], self.default(i) != mark,
                      patterns=[self.default(i)])]
        own = sig_input.sentinel(self.layout)
        if own is not None:
            ctx.axioms.append(z3.ForAll(
                    [i], self.default(i) != ctx.host_const(own),
                    patterns=[self.default(i)]))

        def attribute(interp, v, name, default):
            args = list(v.t.children())
            if len(args) != 1:
                raise Unsupported('other parameter')
            at, = args
            if name == 'annotation':
                return VIte(self.annotated(at), SVal(self.annotation(at)),
                            empty)
            if name == 'default':
                return VIte(self.has(at), SVal(self.default(at)), empty)
            if name == 'name':
                return SStr(self.raw_name(at))
            if name == 'kind':
                return SEnum(K, self.kind(at))
            if name == 'empty':
                return empty
            raise Unsupported(f'attribute {name} of a parameter')

        iv = new_iv()
        entry = interp.new_entry(SStr(self.raw_name(iv)), SVal(
                self.raw(iv), {'getattr': attribute}))
        entry.frozen = True
        parameters = interp.new_dict([Gen(self.n, iv, entry)])

        def part(interp, v, name, default):
            if name == 'parameters':
                return parameters
            if name == 'return_annotation':
                return VIte(self.returning, SVal(self.returns), empty)
            if name == 'empty':
                return empty
            raise Unsupported(f'attribute {name} of a signature')

        self.log = []
        constructed(ctx, models.PlainSignature, self.log)
        value = SVal(z3.Const('raw_signature', ValS), {'getattr': part})
        return lambda: interp.call(signatures._from_raw_signature, [value],
                                   {})

    def covers(self, interp):
        return [('annotated optional', z3.And(
                self.n > 1, self.annotated(1), self.has(1))),
                ('variadic', z3.And(self.n > 0, self.kind(0) == int(
                        self.K.VAR_POSITIONAL)))]

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        if len(self.log) != 1 or interp.force(value) is not self.log[0][0]:
            raise Unsupported('the result is made otherwise')
        _, args, kwargs = self.log[0]
        ctx = interp.ctx
        if set(kwargs) != {'returns'}:
            raise Unsupported('arguments of the constructor')
        pieces = interp.materialized(interp.clean(args))
        anything = ctx.host_const(typing.Any)
        goals = [('the returned annotation', interp.as_val(
                kwargs['returns']) == z3.If(self.returning, self.returns,
                                            anything)),
                 ('every parameter', interp.seq_len(pieces) == self.n)]
        at = z3.Int('position')
        if not pieces:
            return goals
        try:
            view = params.view(interp, self.layout,
                               interp.pieces_at(pieces, at))
        except Unsupported:
            raise
        inside = z3.And(0 <= at, at < self.n)
        variadic = z3.Or(self.kind(at) == int(self.K.VAR_POSITIONAL),
                         self.kind(at) == int(self.K.VAR_KEYWORD))
        for label, goal in (
                ('name', view.name == self.raw_name(at)),
                ('kind', view.kind == self.kind(at)),
                ('annotation', view.annotation == z3.If(
                        self.annotated(at), self.annotation(at), anything)),
                ('optionality', view.opt == z3.Or(variadic, self.has(at))),
                ('presence of default', view.has == self.has(at)),
                ('default', z3.Implies(self.has(at),
                                       view.default == self.default(at)))):
            goals.append((label, z3.Implies(inside, goal)))
        return goals


FOUND = z3.Function('is_described', ValS, BOOL)
DESCRIBED = z3.Function('described_signature', ValS, ValS)
INSPECTED = z3.Function('inspected_signature', ValS, ValS)
CONVERTED = z3.Function('converted_signature', ValS, ValS)
BOUND = z3.Function('bound_signature', ValS, ValS, ValS)
BOUND_MANY = z3.Function('bound_with_arguments', ValS, ValS, ValS, ValS)
IS_TYPE = z3.Function('is_type', ValS, BOOL)
IS_MODULE = z3.Function('is_module', ValS, BOOL)
TYPE_OF = z3.Function('type_of', ValS, ValS)
MEMBER = z3.Function('member', ValS, StrS, ValS)


def signature(term):
    def attribute(interp, v, name, default):
        if name != 'bind':
            raise Unsupported(f'attribute {name} of a signature')
        from pyvc.core import Prim

        def bind(args, kwargs):
            if interp.plain_kwargs(kwargs) or len(args) != 1 or not (
                    isinstance(args[0], Lit)):
                raise Unsupported('other binding')
            return signature(BOUND(v.t, interp.as_val(args[0].value)))
        return Prim('bind', bind)
    return SVal(term, {'getattr': attribute})


def single(args, kwargs, interp):
    if len(args) != 1 or not isinstance(args[0], Lit) or (
            interp.plain_kwargs(kwargs)):
        raise Unsupported('other call')
    return args[0].value


def callees(interp, signatures):
    ctx = interp.ctx

    def described(interp, args, kwargs):
        term = interp.as_val(single(args, kwargs, interp))
        if ctx.branch(FOUND(term)):
            return signature(DESCRIBED(term))
        raise PyExc(signatures._SignatureNotFound, ())

    def inspected(interp, args, kwargs):
        term = interp.as_val(single(args, kwargs, interp))
        return raw_signature(INSPECTED(term))

    def converted(interp, args, kwargs):
        term = interp.as_val(single(args, kwargs, interp))
        return signature(CONVERTED(term))

    ctx.contracts[signatures._from_callable] = described
    ctx.contracts[inspect.signature] = inspected
    ctx.contracts[signatures._from_raw_signature] = converted


RETURNING = z3.Function('with_returns', ValS, ValS, ValS)


def raw_signature(term):
    def attribute(interp, v, name, default):
        if name != 'replace':
            raise Unsupported(f'attribute {name} of an inspected signature')
        from pyvc.core import Prim

        def replace(args, kwargs):
            kwargs = interp.plain_kwargs(kwargs)
            if args or set(kwargs) != {'return_annotation'}:
                raise Unsupported('other replacement')
            return raw_signature(RETURNING(v.t, interp.as_val(
                    kwargs['return_annotation'])))
        return Prim('replace', replace)
    return SVal(term, {'getattr': attribute})


def owner(term, order=None):
    def check(interp, v, cls):
        if cls is type:
            return IS_TYPE(v.t)
        if cls is types.ModuleType:
            return IS_MODULE(v.t)
        raise Unsupported(f'check of {cls}')

    def class_of(interp, v):
        def attribute(interp, cls, name):
            if not isinstance(name, SStr):
                raise Unsupported('attribute of other name')
            return SVal(MEMBER(cls.t, name.t))
        return SVal(TYPE_OF(v.t), {
            'dynattr': attribute,
            'attrs': {'__mro__': lambda interp, v: order()}})

    def member(interp, cls, name):
        if not isinstance(name, SStr):
            raise Unsupported('attribute of other name')
        return SVal(MEMBER(cls.t, name.t))
    return SVal(term, {'isinstance': check, 'type': class_of,
                       'dynattr': member})


class Handler(Proof):
    """
    What a handler of callables of a kind gives: the described signature,
    bound if the callable is bound, or the inspected one.
    """
    kind = None
    functions = ('signatures.from_callable (registered handler)',)
    assumptions = (
        'inspect.signature gives a signature; _from_callable gives the '
        'described signature or raises that there is none (contract of its '
        'own)',)

    def setup(self, interp):
        from paradigm._core import signatures
        ctx = interp.ctx
        callees(interp, signatures)
        handler = signatures.from_callable.dispatch(self.kind)
        if handler is signatures.from_callable.dispatch(object):
            raise Unsupported('no handler')
        self.callable = z3.Const('callable', ValS)
        self.self = z3.Const('self', ValS)
        self.function = z3.Const('function', ValS)
        self.short = z3.Const('short_name', StrS)
        self.cls = z3.Const('class', ValS)
        none = self.none = ctx.host_const(None)
        ctx.axioms += [z3.Not(IS_TYPE(none)), z3.Not(IS_MODULE(none)),
                       IS_TYPE(self.cls),
                       z3.Not(z3.And(IS_TYPE(self.self),
                                     IS_MODULE(self.self)))]
        ctx.axioms += self.known()
        value = SVal(self.callable, {'attrs': {
            '__self__': lambda interp, v: owner(self.self, self.order),
            '__func__': lambda interp, v: SVal(self.function),
            '__name__': lambda interp, v: SStr(self.short),
            '__objclass__': lambda interp, v: owner(self.cls)}})
        return lambda: interp.call(handler, [value], {})

    def known(self):
        return []

    def order(self):
        raise Unsupported('order of classes')

    def expect_kinds(self):
        return 'return',

    def source(self):
        """Described callable and whether it is to be bound."""
        raise NotImplementedError

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        goals = []
        found = interp.as_val(value)
        for label, condition, origin, bound in self.source():
            described = DESCRIBED(origin)
            if bound:
                described = BOUND(described, self.self)
            expected = z3.If(FOUND(origin), described, CONVERTED(INSPECTED(
                    self.callable)))
            goals.append((label, z3.Implies(condition, found == expected)))
        return goals


def simple(kind_):
    class Simple(Handler):
        name = f'from_callable for {kind_.__name__}'
        kind = kind_

        def source(self):
            return [('the described or the inspected signature',
                     z3.BoolVal(True), self.callable, False)]
    return Simple


class Method(Handler):
    name = 'from_callable for bound methods'
    kind = types.MethodType

    def source(self):
        return [('methods of classes', IS_TYPE(self.self), self.callable,
                 False),
                ('methods of instances', z3.Not(IS_TYPE(self.self)),
                 self.function, True)]


LOOKED = z3.Function('own_attribute', ValS, StrS, ValS)
IS_METHOD = z3.Function('is_method_descriptor', ValS, BOOL)
TAKEN = z3.Function('method_of_instance', ValS, ValS, ValS)


class Builtin(Handler):
    """
    For a method of an instance the described signature is the one of the
    descriptor it is made of, the attribute of the class if there is none.
    """
    name = 'from_callable for builtin functions and methods'
    kind = types.BuiltinFunctionType
    functions = ('signatures.from_callable (registered handler)',
                 'signatures._to_method_descriptor')
    assumptions = Handler.assumptions + (
        'a descriptor gives the method of an instance; builtin methods are '
        'equal iff they are of the same function and instance',)

    def setup(self, interp):
        from pyvc.core import Prim
        ctx = interp.ctx
        self.size = z3.Int('depth')
        self.base = z3.Function('class_in_order', INT, ValS)
        self.first = z3.Int('first_match')
        i = z3.Int('$bi')
        thunk = super().setup(interp)
        ctx.axioms += [
            self.size >= 0, 0 <= self.first, self.first <= self.size,
            z3.ForAll([i], z3.Implies(
                    z3.And(0 <= i, i < self.first),
                    z3.Not(self.matches(i))), patterns=[self.base(i)]),
            z3.Implies(self.first < self.size, self.matches(self.first)),
            z3.Not(IS_METHOD(self.none))]

        def check(interp, v, cls):
            if cls is types.MethodDescriptorType:
                return IS_METHOD(v.t)
            raise Unsupported(f'check of {cls}')

        def attribute(interp, v, name, default):
            if name != '__get__':
                raise Unsupported(f'attribute {name} of a candidate')

            def get(args, kwargs):
                if not args or not isinstance(args[0], Lit):
                    raise Unsupported('other getting')
                return SVal(TAKEN(v.t, interp.as_val(args[0].value)))
            return Prim('__get__', get)

        def own(interp, args, kwargs):
            cls = interp.force(single(args, kwargs, interp))

            def part(interp, v, name, default):
                if name != 'get':
                    raise Unsupported(f'attribute {name} of a namespace')

                def get(args, kwargs):
                    key = interp.force(single(args, kwargs, interp))
                    return SVal(LOOKED(v.t, key.t),
                                {'isinstance': check, 'getattr': attribute})
                return Prim('get', get)
            return SVal(cls.t, {'getattr': part})

        ctx.contracts[vars] = own
        return thunk

    def matches(self, i):
        candidate = LOOKED(self.base(i), self.short)
        return z3.And(IS_METHOD(candidate),
                      TAKEN(candidate, self.self) == self.callable)

    def order(self):
        iv = new_iv()
        return VTup([Gen(self.size, iv, SVal(self.base(iv)))])

    def source(self):
        instance = z3.And(self.self != self.none,
                          z3.Not(IS_MODULE(self.self)),
                          z3.Not(IS_TYPE(self.self)))
        origin = z3.If(self.first < self.size,
                       LOOKED(self.base(self.first), self.short),
                       MEMBER(TYPE_OF(self.self), self.short))
        return [('functions and methods of classes', z3.Not(instance),
                 self.callable, False),
                ('methods of instances', instance, origin, True)]


class Wrapper(Handler):
    name = 'from_callable for wrappers of slots'
    kind = types.MethodWrapperType

    def source(self):
        return [('methods of instances', z3.BoolVal(True),
                 MEMBER(self.cls, self.short), True)]


class Partial(Proof):
    """
    A partial object: the signature of its function bound with exactly its
    arguments.
    """
    name = 'from_callable for partial objects'
    functions = ('signatures.from_callable (registered handler)',)
    assumptions = ('termination: a partial object is not its own function',)

    def setup(self, interp):
        from functools import partial
        from paradigm._core import signatures
        ctx = interp.ctx
        handler = signatures.from_callable.dispatch(partial)
        if handler is signatures.from_callable.dispatch(object):
            raise Unsupported('no handler')
        self.arguments = sig_input.SymArguments(interp)
        self.log = []
        function = z3.Const('function', ValS)
        self.result = SVal(z3.Const('bound', ValS))

        def of_function(interp, args, kwargs):
            term = interp.as_val(single(args, kwargs, interp))
            if not term.eq(function):
                raise Unsupported('signature of other callable')

            def attribute(interp, v, name, default):
                from pyvc.core import Prim
                if name != 'bind':
                    raise Unsupported(f'attribute {name} of a signature')

                def bind(args, kwargs):
                    self.log.append((args, kwargs))
                    return self.result
                return Prim('bind', bind)
            return SVal(z3.Const('of_function', ValS),
                        {'getattr': attribute})

        ctx.contracts[signatures.from_callable] = of_function
        args = VTup(self.arguments.args)
        value = SVal(z3.Const('partial', ValS), {'attrs': {
            'func': lambda interp, v: SVal(function),
            'args': lambda interp, v: args,
            'keywords': lambda interp, v: self.arguments.kwargs}})
        outer = interp.func_of_host(handler)
        outer.host = None
        return lambda: interp.call(outer, [value], {})

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        if len(self.log) != 1 or interp.force(value) is not self.result:
            raise Unsupported('the result is made otherwise')
        (args, kwargs), = self.log
        a = self.arguments
        i = z3.Int('position')
        s = z3.Const('any_name', StrS)
        args = interp.materialized(interp.clean(args))
        goals = [('as many positional arguments',
                  interp.seq_len(args) == a.nargs)]
        if args:
            goals.append(('the same positional arguments', z3.Implies(
                    z3.And(0 <= i, i < a.nargs), interp.as_val(
                            interp.pieces_at(args, i)) == a.arg(i))))
        kwargs = kwargs if not isinstance(kwargs, dict) else (
            interp.lift(kwargs))
        present = interp.contains_formula(kwargs, SStr(s))
        present = (z3.BoolVal(present) if isinstance(present, bool)
                   else present)
        goals.append(('the same keywords', present == a.has(s)))
        for piece in kwargs.pieces:
            if not isinstance(piece, Gen):
                raise Unsupported('other keywords')
            entry = piece.tmpl
            goals.append(('the same values of keywords', z3.ForAll(
                    [piece.iv], z3.Implies(
                            z3.And(0 <= piece.iv, piece.iv < piece.n,
                                   piece.guard), interp.as_val(
                                    entry.value) == a.kwval(
                                    interp.as_str(entry.key))))))
        return goals


ATTRIBUTE = z3.Function('attribute', ValS, StrS, ValS)
HAS_ATTRIBUTE = z3.Function('has_attribute', ValS, StrS, BOOL)
BUILTIN_METHOD = z3.Function('is_builtin_method', ValS, BOOL)
SAME_METHOD = z3.Function('are_equal_methods', ValS, ValS, BOOL)


def is_builtin_method(interp, value, classes):
    if classes is not types.BuiltinMethodType:
        raise Unsupported('other classes')
    return BUILTIN_METHOD(value.t)


def are_equal_methods(interp, left, right):
    left, right = interp.force(left), interp.force(right)
    if not (isinstance(left, SVal) and isinstance(right, SVal)
            and interp.ctx.proves(z3.And(BUILTIN_METHOD(left.t),
                                         BUILTIN_METHOD(right.t)))):
        raise Unsupported('comparison of other objects')
    return interp.mk_bool(SAME_METHOD(left.t, right.t))


class Located(Proof):
    """
    A callable is located by a path iff following of the path from the
    module leads to this very object (methods of built-in classes are made
    anew each time, so to an equal one), or the module is not imported.
    """
    name = '_value_has_qualified_path'
    functions = ('signatures._value_has_qualified_path',)
    assumptions = (
        'getattr gives an attribute or raises AttributeError; imported '
        'modules are kept in sys.modules; equality of built-in methods is '
        'symmetric',
        'the principle of mathematical induction over attributes is applied '
        'by the harness, base and step are discharged')

    def setup(self, interp):
        import sys
        from paradigm._core import catalog, signatures
        ctx = interp.ctx
        self.ctx = ctx
        self.size = z3.Int('depth')
        self.part = z3.Function('path_part', INT, StrS)
        self.chain = z3.Function('chain', INT, ValS)
        self.imported = z3.Bool('module_is_imported')
        self.module = z3.Const('module', ValS)
        self.value = z3.Const('value', ValS)
        name = z3.Const('module_name', StrS)
        i = z3.Int('$ci')
        ctx.axioms += [
            self.size >= 0, self.chain(0) == self.module,
            self.module != ctx.host_const(None),
            z3.ForAll([i], z3.Implies(i >= 0, self.chain(i + 1) == ATTRIBUTE(
                    self.chain(i), self.part(i))),
                patterns=[self.chain(i + 1)])]
        x, y = z3.Consts('$mx $my', ValS)
        ctx.axioms.append(z3.ForAll([x, y], SAME_METHOD(x, y) == SAME_METHOD(
                y, x), patterns=[SAME_METHOD(x, y)]))
        where = SVal(z3.Const('module_path', ValS))
        compared = {'isinstance': is_builtin_method, 'eq': are_equal_methods}

        def attribute(interp, v, key, *default):
            key = interp.force(key)
            if not isinstance(key, SStr) or default:
                raise Unsupported('other attribute')
            if ctx.branch(HAS_ATTRIBUTE(v.t, key.t)):
                return SVal(ATTRIBUTE(v.t, key.t), v.schema)
            raise PyExc(AttributeError, ())

        def to_string(interp, args, kwargs):
            if interp.force(single(args, kwargs, interp)) is not where:
                raise Unsupported('other path')
            return SStr(name)

        def modules(interp, v, attribute_name, default):
            from pyvc.core import Prim

            def get(args, kwargs):
                key = interp.force(single(args, kwargs, interp))
                if not (isinstance(key, SStr) and key.t.eq(name)):
                    raise Unsupported('other module')
                return (SVal(self.module, {'dynattr': attribute,
                                           **compared})
                        if ctx.branch(self.imported) else None)
            if attribute_name != 'get':
                raise Unsupported('other use of modules')
            return Prim('get', get)

        table = SVal(z3.Const('modules', ValS), {'getattr': modules})
        ctx.contracts[('attr', id(sys), 'modules')] = lambda interp: table
        ctx.contracts[catalog.path_to_string] = to_string
        iv = new_iv()
        path = VTup([Lit(where), Lit(VTup([Gen(
                self.size, iv, SStr(self.part(iv)))]))])
        return lambda: interp.call(
                signatures._value_has_qualified_path,
                [SVal(self.value, compared), path], {})

    def covers(self, interp):
        return [('deep', z3.And(self.size == 3, self.imported))]

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        ctx = interp.ctx
        goals = []
        i = z3.Int('position')
        for r in ctx.recurrences:
            base = r(0) == self.chain(0)
            goals += [
                ('induction: base', base),
                ('induction: step', z3.Implies(
                        z3.And(i >= 0, r(i) == self.chain(i)),
                        r(i + 1) == self.chain(i + 1)))]
            ctx.assume(z3.Implies(base, z3.ForAll([i], z3.Implies(
                    i >= 0, r(i) == self.chain(i)), patterns=[r(i)])))
            ctx.assume(z3.Implies(base, z3.ForAll([i], z3.Implies(
                    i >= 0, r(i) == self.chain(i)),
                    patterns=[self.chain(i)])))
        value = interp.truth_formula(value)
        value = z3.BoolVal(value) if isinstance(value, bool) else value
        led = z3.And(z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < self.size), HAS_ATTRIBUTE(
                        self.chain(i), self.part(i))),
            patterns=[self.chain(i)]),
            z3.Or(self.chain(self.size) == self.value,
                  z3.And(BUILTIN_METHOD(self.chain(self.size)),
                         BUILTIN_METHOD(self.value),
                         SAME_METHOD(self.chain(self.size), self.value))))
        goals.append(('located iff the path leads to the object',
                      value == z3.Or(z3.Not(self.imported), led)))
        return goals


PLAIN = [simple(types.FunctionType), simple(types.MethodDescriptorType),
         simple(types.WrapperDescriptorType), Method]
