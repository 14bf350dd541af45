"""Contracts of resolution of import-from statements to modules."""
import ast

import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, StrS, TRUE, ValS, Gen, Inst, Lit, PyExc,
                       SBool, SInt, SStr, SVal, Unsupported, VIte, VTup,
                       new_iv)
from pyvc.pybuiltins import split_functions


def string(value, ctx):
    if isinstance(value, str):
        return ctx.str_const(value)
    if isinstance(value, SStr):
        return value.t
    if isinstance(value, VIte):
        return z3.If(value.c, string(value.a, ctx), string(value.b, ctx))
    if value is None:
        return z3.Const('not a text', StrS)
    raise Unsupported(f'not a text: {value!r}'[:80])


class Resolution(Proof):
    name = 'to_parent_module_path'
    functions = ('utils.to_parent_module_path', 'catalog.path_from_string')
    assumptions = (
        'str.split is represented by a sequence of at least one part',
        'precondition: the statement is one Python accepts - relative imports '
        'do not leave the topmost package, absolute ones name a module')

    def setup(self, interp):
        from paradigm._core import sources
        from paradigm._core.arboreal.utils import to_parent_module_path
        ctx = interp.ctx
        self.size = z3.Int('parent_size')
        self.part = z3.Function('parent_part', INT, StrS)
        self.is_package = z3.Bool('parent_is_package')
        self.level = z3.Int('level')
        self.named = z3.Bool('module_is_named')
        self.module = z3.Const('module', StrS)
        iv = new_iv()
        parent = VTup([Gen(self.size, iv, SStr(self.part(iv)))])
        package = z3.If(self.is_package, 1, 0)
        self.depth = self.size + package - self.level
        ctx.axioms.extend([
            self.size >= 1, self.level >= 0,
            z3.Implies(self.level == 0, self.named),
            z3.Implies(self.level > 0, self.depth >= 1)])

        def is_package(interp, args, kwargs):
            value, = [a.value for a in args]
            value = interp.force(value)
            if value is not parent:
                raise Unsupported('other module path')
            return SBool(self.is_package)

        ctx.contracts[sources.is_package] = is_package
        node = Inst(ctx.oid(), ast.ImportFrom, {
            'level': (TRUE, SInt(self.level)),
            'module': (TRUE, VIte(self.named, SStr(self.module), None))})
        return lambda: interp.call(to_parent_module_path, [node],
                                   {'parent_module_path': parent})

    def covers(self, interp):
        return [('absolute', self.level == 0),
                ('relative named', z3.And(self.level == 2, self.named)),
                ('relative of a package', z3.And(self.level == 1,
                                                 self.is_package)),
                ('bare', z3.And(self.level == 3, z3.Not(self.named)))]

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('a module is found', z3.BoolVal(False))]
        value = interp.force(value)
        if isinstance(value, tuple):
            value = interp.lift(value)
        if not isinstance(value, VTup):
            raise Unsupported(f'result {value!r}'[:100])
        count, part = split_functions('.')
        head = z3.If(self.level == 0, 0, self.depth)
        size = head + z3.If(self.named, count(self.module), 0)
        actual = interp.seq_len(interp.materialized(value.pieces))
        i = z3.Int('position')
        inside = z3.And(0 <= i, i < size)
        goals = [('the path has the proper length', actual == size)]
        if value.pieces:
            element = string(interp.pieces_at(value.pieces, i), interp.ctx)
            goals.extend([
                ('the package of the importing module is gone up',
                 z3.Implies(z3.And(inside, i < head),
                            element == self.part(i))),
                ('the named module follows',
                 z3.Implies(z3.And(inside, i >= head),
                            element == part(self.module, i - head)))])
        return goals


STEM = z3.Function('stem_of', ValS, StrS)
ORIGIN = z3.Function('origin_of', ValS, ValS)
FILE = z3.Function('file_of', ValS, ValS)


class Package(Proof):
    name = 'is_package'
    functions = ('sources.is_package', 'sources.from_module_path')
    assumptions = (
        'importlib.util.find_spec tells the file of a module, '
        'pathlib.Path.stem - the name of a file without the suffix',)

    def setup(self, interp):
        from paradigm._core import sources
        ctx = interp.ctx
        self.known = z3.Bool('stub_is_known')
        self.found = z3.Bool('spec_is_found')
        self.has_origin = z3.Bool('has_origin')
        self.stub = z3.Const('stub', ValS)
        spec = z3.Const('spec', ValS)
        self.origin = ORIGIN(spec)
        none = ctx.host_const(None)
        ctx.axioms.extend([spec != none, self.origin != none])
        module = self.module = VTup([Lit(SStr(z3.Const('top', StrS))),
                                     Lit(SStr(z3.Const('name', StrS)))])

        def path(term):
            return SVal(term, {'getattr': attribute})

        def attribute(interp, v, name, default):
            if name == 'stem':
                return SStr(STEM(v.t))
            raise Unsupported(f'attribute {name} of a path')

        def stub_of(interp, key):
            if interp.force(key) is not module:
                raise Unsupported('other module path')
            if not interp.ctx.branch(self.known):
                raise PyExc(KeyError, ())
            return path(self.stub)

        def find_spec(interp, args, kwargs):
            if len(args) != 1 or kwargs:
                raise Unsupported('other call of find_spec')
            return VIte(self.found, SVal(spec, {'attrs': {
                'origin': lambda interp, v: VIte(self.has_origin, SVal(
                        self.origin), None)}}), None)

        def to_path(interp, args, kwargs):
            return path(FILE(interp.as_val(args[0].value)))

        cache = getattr(sources, '_stubs_cache', None)
        if not isinstance(cache, dict):
            raise Unsupported('stubs are not kept in a dictionary')
        ctx.contracts[('dict', id(cache))] = stub_of
        ctx.contracts[sources.find_spec] = find_spec
        ctx.contracts[sources.Path] = to_path
        return lambda: interp.call(sources.is_package, [module], {})

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('is_package raises nothing', z3.BoolVal(False))]
        value = interp.truth_formula(value)
        value = z3.BoolVal(value) if isinstance(value, bool) else value
        init = interp.ctx.str_const('__init__')
        spec = z3.If(self.known, STEM(self.stub) == init,
                     z3.And(self.found, self.has_origin,
                            STEM(FILE(self.origin)) == init))
        return [('a package is told by the name of its file', value == spec)]
