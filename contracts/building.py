"""Contracts of the search of builders of classes."""
import ast

import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, StrS, ValS, Gen, Lit, PyExc, SBool, SStr, Sub,
                       SVal, Unsupported, VTup, new_iv)

from .lookup import exits, parts

BASES = z3.Function('number_of_bases', ValS, ValS, INT)
BASE_MODULE = z3.Function('module_of_base', ValS, ValS, INT, ValS)
BASE_OBJECT = z3.Function('object_of_base', ValS, ValS, INT, ValS)
LENGTH = z3.Function('length_of_chain', ValS, ValS, INT)
CHAIN_MODULE = z3.Function('module_in_chain', ValS, ValS, INT, ValS)
CHAIN_OBJECT = z3.Function('object_in_chain', ValS, ValS, INT, ValS)
HAS_BASES = z3.Function('has_bases', ValS, ValS, BOOL)
DECLARES = z3.Function('declares', ValS, ValS, StrS, BOOL)
MEMBER = z3.Function('path_of_member', ValS, StrS, ValS)


def same_path(interp, v, other):
    return SBool(v.t == interp.as_val(other))


def path(term):
    return SVal(term, {'eq': same_path})


def pair(module, object_):
    return VTup([Lit(path(module)), Lit(path(object_))])


def chain(m, o):
    iv = new_iv()
    return Gen(LENGTH(m, o), iv, pair(CHAIN_MODULE(m, o, iv),
                                      CHAIN_OBJECT(m, o, iv)))


SIZE = z3.Function('size_of_path', ValS, INT)
PART = z3.Function('part_of_path', ValS, INT, StrS)


def object_path(term):
    """Path of an object: its parts are seen only as a whole."""
    def pieces(interp, v):
        iv = new_iv()
        return [Gen(SIZE(v.t), iv, SStr(PART(v.t, iv)))]

    def extended(interp, op, left, right):
        if not isinstance(op, ast.Add) or not isinstance(left, SVal):
            raise Unsupported('other operation on paths')
        return VTup([*pieces(interp, left), *interp.collect(right)])

    return SVal(term, {'eq': same_path, 'pieces': pieces,
                       'binop': extended})


def member(interp, value):
    """Path of the object and the name of its member."""
    value = interp.force(value)
    if not isinstance(value, VTup):
        raise Unsupported(f'other path {value!r}'[:200])
    pieces = interp.clean(value.pieces)
    if not (len(pieces) == 2 and isinstance(pieces[0], Gen)
            and isinstance(pieces[1], Lit)
            and isinstance(pieces[1].value, str)):
        raise Unsupported(f'other path {value!r}'[:200])
    first, last = pieces
    owner = first.n.arg(0) if first.n.decl().eq(SIZE) else None
    if owner is None or not isinstance(first.tmpl, SStr) or not (
            first.tmpl.t.eq(PART(owner, first.iv))) or first.filtered:
        raise Unsupported(f'other path {value!r}'[:200])
    return owner, last.value


class Chain(Proof):
    """The chain of a class: itself, then chains of its bases in order."""
    name = '_to_mro'
    functions = ('signatures._to_mro',)
    assumptions = (
        'termination of the recursion: inheritance has no cycles',
        'the table of bases gives a sequence of qualified paths or raises '
        'KeyError')

    def setup(self, interp):
        from paradigm._core import signatures, stubs
        ctx = interp.ctx
        self.module = z3.Const('module_path', ValS)
        self.object = z3.Const('object_path', ValS)
        m, o = z3.Consts('$m $o', ValS)
        ctx.axioms += [
            z3.ForAll([m, o], BASES(m, o) >= 0, patterns=[BASES(m, o)]),
            z3.ForAll([m, o], LENGTH(m, o) >= 1, patterns=[LENGTH(m, o)])]

        def outer(interp, key):
            module = interp.as_val(key)

            def inner(interp, v, key):
                o = interp.as_val(key)
                if not ctx.branch(HAS_BASES(module, o)):
                    raise PyExc(KeyError, ())
                iv = new_iv()
                return interp.new_list([Gen(BASES(module, o), iv, pair(
                        BASE_MODULE(module, o, iv),
                        BASE_OBJECT(module, o, iv)))])
            # modules without derived classes may be missing
            if ctx.branch(z3.Not(HAS_TABLE(module))):
                ctx.assume(z3.Not(HAS_BASES(module, self.object)))
                raise PyExc(KeyError, ())
            return SVal(TABLE(module), {'getitem': inner})

        def recursive(interp, args, kwargs):
            if len(args) != 2 or interp.plain_kwargs(kwargs):
                raise Unsupported('other recursion')
            return interp.new_list([chain(*[interp.as_val(a.value)
                                            for a in args])])

        function = signatures._to_mro
        code = interp.func_of_host(function)
        code.host = None
        ctx.contracts[function] = recursive
        ctx.contracts[('dict', id(stubs.superclasses))] = outer
        return lambda: interp.new_list(interp.collect(interp.call(
                code, [path(self.module), path(self.object)], {})))

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return [('several bases', z3.And(HAS_BASES(self.module, self.object),
                                         BASES(self.module,
                                               self.object) == 3))]

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        ctx = interp.ctx
        m, o = self.module, self.object
        pieces = interp.clean(interp.force(value).pieces)
        if not pieces or not isinstance(pieces[0], Lit):
            raise Unsupported(f'chain {pieces}'[:300])
        first = parts(interp, pieces[0].value)
        goals = [('the class itself is the first', z3.And(first[0] == m,
                                                          first[1] == o))]
        rest = pieces[1:]
        if not rest:
            return [*goals, ('there are no bases', z3.Or(z3.Not(HAS_BASES(
                    m, o)), BASES(m, o) == 0))]
        if len(rest) != 1 or not isinstance(rest[0], Gen) or not isinstance(
                rest[0].tmpl, Sub) or rest[0].filtered:
            raise Unsupported(f'chain {pieces}'[:300])
        outer, = rest
        goals += [('chains of all bases', z3.And(HAS_BASES(m, o),
                                                 outer.n == BASES(m, o)))]
        inner = interp.clean(outer.tmpl.pieces)
        if len(inner) != 1 or not isinstance(inner[0], Gen) or inner[
                0].filtered or isinstance(inner[0].tmpl, Sub):
            raise Unsupported(f'chain {pieces}'[:300])
        run, = inner
        i, k = outer.iv, run.iv
        a, b = parts(interp, run.tmpl)
        base = BASE_MODULE(m, o, i), BASE_OBJECT(m, o, i)
        here = z3.And(0 <= i, i < outer.n)
        return [*goals,
                ('the whole chain of every base', z3.Implies(
                        here, run.n == LENGTH(*base))),
                ('elements of the chain of every base', z3.Implies(
                        z3.And(here, 0 <= k, k < run.n),
                        z3.And(a == CHAIN_MODULE(*base, k),
                               b == CHAIN_OBJECT(*base, k))))]


HAS_TABLE = z3.Function('has_table_of_bases', ValS, BOOL)
TABLE = z3.Function('table_of_bases', ValS, ValS)
INITIALIZER, CONSTRUCTOR = '__init__', '__new__'


class Nearest(Proof):
    """
    The builder is declared by the first class of the chain declaring any,
    the initializer is preferred; the one of object if there is none.
    """
    name = '_to_class_builder_qualified_path'
    functions = ('signatures._to_class_builder_qualified_path',)
    assumptions = (
        'stubs of modules of all the classes of the chain are loaded',)

    def setup(self, interp):
        from paradigm._core import signatures, stubs
        ctx = interp.ctx
        self.n = z3.Int('length_of_chain')
        self.at_module = z3.Function('module_at', INT, ValS)
        self.at_object = z3.Function('object_at', INT, ValS)
        self.module = z3.Const('module_path', ValS)
        self.object = z3.Const('object_path', ValS)
        o = z3.Const('$o', ValS)
        ctx.axioms += [self.n >= 1, z3.ForAll([o], SIZE(o) >= 1,
                                              patterns=[SIZE(o)])]

        def chained(interp, args, kwargs):
            terms = [interp.as_val(a.value) for a in args]
            if len(terms) != 2 or interp.plain_kwargs(kwargs) or not (
                    terms[0].eq(self.module) and terms[1].eq(self.object)):
                raise Unsupported('other chain')
            iv = new_iv()
            return interp.new_list([Gen(self.n, iv, VTup([
                Lit(path(self.at_module(iv))),
                Lit(object_path(self.at_object(iv)))]))])

        def declarations(interp, key):
            module = interp.as_val(key)

            def declares(interp, v, key):
                owner, name = member(interp, key)
                return SBool(DECLARES(module, owner, ctx.str_const(name)))
            return SVal(z3.Function('declarations', ValS, ValS)(module),
                        {'contains': declares})

        ctx.contracts[signatures._to_mro] = chained
        ctx.contracts[('dict', id(stubs.raw_ast_nodes))] = declarations
        return lambda: interp.call(
                signatures._to_class_builder_qualified_path,
                [path(self.module), object_path(self.object)], {})

    def expect_kinds(self):
        return 'return',

    def declares(self, interp, i, name):
        return DECLARES(self.at_module(i), self.at_object(i),
                        interp.ctx.str_const(name))

    def covers(self, interp):
        return [('a base', z3.And(self.n == 3, *[
            z3.Not(self.declares(interp, z3.IntVal(i), name))
            for i in range(2) for name in (INITIALIZER, CONSTRUCTOR)],
            self.declares(interp, z3.IntVal(2), CONSTRUCTOR)))]

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        j = z3.Int('earlier')

        def none(k):
            return z3.Not(z3.Or(self.declares(interp, k, INITIALIZER),
                                self.declares(interp, k, CONSTRUCTOR)))

        value = interp.force(value)
        if isinstance(value, tuple):
            return [('the builder of object', z3.And(
                    z3.BoolVal(value[0] == ('builtins',)
                               and value[1] in (('object', INITIALIZER),
                                                ('object', CONSTRUCTOR))),
                    z3.ForAll([j], z3.Implies(z3.And(
                            0 <= j, j < self.n), none(j)))))]
        module, object_ = [p.value for p in value.pieces]
        owner, name = member(interp, object_)
        module = interp.as_val(module)
        i = z3.Int('nearest')

        def nearest(i):
            return z3.And(
                    0 <= i, i < self.n, self.at_module(i) == module,
                    self.at_object(i) == owner, z3.ForAll(
                            [j], z3.Implies(z3.And(0 <= j, j < i), none(j))),
                    z3.If(self.declares(interp, i, INITIALIZER),
                          z3.BoolVal(name == INITIALIZER),
                          z3.And(z3.BoolVal(name == CONSTRUCTOR),
                                 self.declares(interp, i, CONSTRUCTOR))))

        return [('of the nearest class declaring any', z3.Or(
                z3.Exists([i], nearest(i)),
                *[nearest(at) for at in exits(interp, owner)]))]


OWN_MODULE = z3.Function('module_of_builder', ValS, ValS, ValS)
OWN_OBJECT = z3.Function('object_of_builder', ValS, ValS, ValS)


class Common(Proof):
    """
    The builder of a class known by several names is the only one all the
    names lead to, the one of object aside; otherwise there is none.
    """
    name = '_resolve_builder_qualified_path'
    functions = ('signatures._resolve_builder_qualified_path',)

    def setup(self, interp):
        import inspect
        from paradigm._core import signatures
        ctx = interp.ctx
        self.error = signatures._SignatureNotFound
        self.n = z3.Int('names')
        self.at_module = z3.Function('module_of_name', INT, ValS)
        self.at_object = z3.Function('object_of_name', INT, ValS)
        ctx.axioms.append(self.n >= 1)
        function = signatures._to_class_builder_qualified_path
        self.default = inspect.signature(function).parameters[
            'object_builder_qualified_path'].default

        def builder(interp, args, kwargs):
            if len(args) != 2 or interp.plain_kwargs(kwargs):
                raise Unsupported('other search')
            m, o = [interp.as_val(a.value) for a in args]
            return pair(OWN_MODULE(m, o), OWN_OBJECT(m, o))

        ctx.contracts[function] = builder
        iv = new_iv()
        return lambda: interp.call(
                signatures._resolve_builder_qualified_path,
                [interp.new_list([Gen(self.n, iv, pair(
                        self.at_module(iv), self.at_object(iv)))])], {})

    def expect_kinds(self):
        return 'return', 'raise'

    def covers(self, interp):
        return [('two names', self.n == 2)]

    def post(self, interp, kind, value):
        i, j = z3.Ints('name other')
        ctx = interp.ctx
        of_object = [interp.as_val(interp.lift(part)) for part in self.default]

        def at(i):
            m, o = self.at_module(i), self.at_object(i)
            return OWN_MODULE(m, o), OWN_OBJECT(m, o)

        def inside(i):
            return z3.And(0 <= i, i < self.n)

        def equal(first, second):
            return z3.And(*[a == b for a, b in zip(first, second)])

        def ordinary(i):
            return z3.And(inside(i), z3.Not(equal(at(i), of_object)))

        if kind == 'raise':
            return [('the error tells there is no signature', z3.BoolVal(
                    value.cls is self.error)),
                    ('names lead to different builders', z3.Not(z3.ForAll(
                            [i, j], z3.Implies(
                                    z3.And(ordinary(i), ordinary(j)),
                                    equal(at(i), at(j))))))]
        found = parts(interp, value)
        return [('some name leads to it', z3.Or(*[
            z3.And(inside(k), equal(at(k), found)) for k in exits(
                    interp, z3.And(*[f == f for f in found]))],
                    z3.Exists([i], z3.And(inside(i), equal(at(i), found))))),
                ('all the names lead to it or to the one of object',
                 z3.Implies(inside(j), z3.Or(equal(at(j), found),
                                             equal(at(j), of_object)))),
                ('the one of object only if there is no other', z3.Implies(
                        z3.And(equal(found, of_object), inside(j)),
                        equal(at(j), found)))]
