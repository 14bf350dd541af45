"""Contracts of conversions of nodes to names and operators."""
import ast
import operator

import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, StrS, TRUE, ValS, Gen, Lit, SStr, Sub, SVal,
                       Unsupported, VIte, VTup, new_iv)

from . import scoping
from .scoping import JOIN, UNIT, parts, sequence

PATH_OF = z3.Function('path_of_node', ValS, scoping.PATH)
PATHABLE = z3.Function('is_path', ValS, BOOL)
SPELLED = z3.Function('spelled_name', ValS, StrS)


def only(interp, args, kwargs):
    if len(args) != 1 or interp.plain_kwargs(kwargs) or not isinstance(
            args[0], Lit):
        raise Unsupported('other call')
    return interp.as_val(args[0].value)


class Converted(Proof):
    """Handler of nodes of a class."""
    node = None
    function = 'to_path'
    assumptions = (
        'inner nodes are converted by the same contract (structural '
        'induction: nodes are finite trees)',)

    def dispatcher(self):
        from paradigm._core.arboreal import conversion
        return getattr(conversion, self.function)

    def setup(self, interp):
        function = self.dispatcher()
        handler = function.dispatch(self.node)
        interp.ctx.axioms += scoping.scope_axioms()
        interp.ctx.contracts[function] = self.inner
        self.name_ = z3.Const('name', StrS)
        self.value = z3.Const('value_node', ValS)
        node = SVal(z3.Const('node', ValS), {'attrs': self.fields()})
        return lambda: interp.call(handler, [node], {})

    def fields(self):
        return {'id': lambda interp, v: SStr(self.name_),
                'attr': lambda interp, v: SStr(self.name_),
                'value': lambda interp, v: SVal(self.value),
                'ctx': self.context}

    def context(self, interp, v):
        def check(interp, v, cls):
            if cls is ast.Store:
                return TRUE
            raise Unsupported(f'check of {cls}')
        return SVal(z3.Const('context', ValS), {'isinstance': check})

    def inner(self, interp, args, kwargs):
        return parts(PATH_OF(only(interp, args, kwargs)))

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return []

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        return self.result(interp, value)


class PathOfName(Converted):
    """The path of a name is the name."""
    name = 'path of a name'
    functions = ('conversion.to_path (names)',)
    node = ast.Name

    def expected(self):
        return UNIT(self.name_)

    def result(self, interp, value):
        return [('the path', sequence(interp, value) == self.expected())]


class PathOfAttribute(PathOfName):
    """The path of a dotted name is the one of its beginning extended."""
    name = 'path of a dotted name'
    functions = ('conversion.to_path (attributes)',)
    node = ast.Attribute

    def expected(self):
        return JOIN(PATH_OF(self.value), UNIT(self.name_))


class MaybePathOfName(PathOfName):
    name = 'path of a name, if any'
    functions = ('conversion.to_maybe_path (names)',)
    function = 'to_maybe_path'


class MaybePathOfAttribute(PathOfAttribute):
    """A dotted name has a path if its beginning does."""
    name = 'path of a dotted name, if any'
    functions = ('conversion.to_maybe_path (attributes)',)
    function = 'to_maybe_path'

    def inner(self, interp, args, kwargs):
        node = only(interp, args, kwargs)
        return VIte(PATHABLE(node), parts(PATH_OF(node)), None)

    def covers(self, interp):
        return [('path', PATHABLE(self.value)),
                ('no path', z3.Not(PATHABLE(self.value)))]

    def result(self, interp, value):
        value = interp.force(value)
        if value is None:
            return [('the beginning has no path',
                     z3.Not(PATHABLE(self.value)))]
        return [('the beginning has a path', PATHABLE(self.value)),
                *super().result(interp, value)]


class NoPath(Converted):
    """Other nodes have no path."""
    name = 'path of other node'
    functions = ('conversion.to_maybe_path (other nodes)',)
    function = 'to_maybe_path'
    node = ast.Subscript

    def result(self, interp, value):
        return [('no path', z3.BoolVal(interp.force(value) is None))]


COUNT = z3.Function('number_of_names', ValS, INT)
NTH = z3.Function('name_of_target', ValS, INT, StrS)


class NamesOfName(Converted):
    """A name is the only one of itself."""
    name = 'names of a name'
    functions = ('conversion.to_names (names)',)
    function = 'to_names'
    node = ast.Name

    def inner(self, interp, args, kwargs):
        node = only(interp, args, kwargs)
        iv = new_iv()
        return interp.new_list([Gen(COUNT(node), iv, SStr(NTH(node, iv)))])

    def result(self, interp, value):
        pieces = interp.iter_pieces(value)
        if len(pieces) != 1 or not isinstance(pieces[0], Lit):
            raise Unsupported('other names')
        found = interp.as_str(pieces[0].value)
        return [('the name', found == self.name_)]


class NamesOfDefinition(NamesOfName):
    """A definition has the only name."""
    name = 'names of a definition'
    functions = ('conversion.to_names (definitions)',)
    node = ast.FunctionDef

    def fields(self):
        return {'name': lambda interp, v: SStr(self.name_)}


class NamesOfClass(NamesOfDefinition):
    name = 'names of a class'
    node = ast.ClassDef


class NamesOfAnnotated(NamesOfName):
    """An annotated target has names of the target."""
    name = 'names of an annotated assignment'
    functions = ('conversion.to_names (annotated assignments)',)
    node = ast.AnnAssign

    def fields(self):
        return {'target': lambda interp, v: SVal(self.value)}

    def result(self, interp, value):
        node, at = self.value, z3.Int('position')
        pieces = interp.iter_pieces(value)
        return [('the number of names',
                 interp.seq_len(pieces) == COUNT(node)),
                ('every name', z3.Implies(
                        z3.And(0 <= at, at < COUNT(node)), interp.as_str(
                                interp.pieces_at(pieces, at))
                        == NTH(node, at)))]


class NamesOfAssignment(NamesOfName):
    """An assignment has names of all its targets in their order."""
    name = 'names of an assignment'
    functions = ('conversion.to_names (assignments)',)
    node = ast.Assign

    def fields(self):
        self.n = z3.Int('targets')
        self.target = z3.Function('target', INT, ValS)

        def targets(interp, v):
            interp.ctx.assume(self.n >= 0)
            iv = new_iv()
            return interp.new_list([Gen(self.n, iv, SVal(self.target(iv)))])
        return {'targets': targets}

    def result(self, interp, value):
        pieces = interp.iter_pieces(value)
        if len(pieces) != 1 or not isinstance(pieces[0], Gen) or (
                not isinstance(pieces[0].tmpl, Sub)):
            raise Unsupported('other names')
        run, = pieces
        inner = run.tmpl.pieces
        if len(inner) != 1 or not isinstance(inner[0], Gen) or (
                inner[0].filtered or run.filtered):
            raise Unsupported('other names')
        inner, = inner
        i, j = z3.Ints('target_index position')
        size = z3.substitute(inner.n, (run.iv, i))
        name = z3.substitute(z3.substitute(
                interp.as_str(inner.tmpl), (run.iv, i)), (inner.iv, j))
        inside = z3.And(0 <= i, i < self.n)
        return [('every target', run.n == self.n),
                ('the number of its names', z3.Implies(
                        inside, size == COUNT(self.target(i)))),
                ('its names', z3.Implies(
                        z3.And(inside, 0 <= j, j < size),
                        name == NTH(self.target(i), j)))]


class Operators(Proof):
    """Operators stand for the functions of the module ``operator``."""
    name = 'evaluate_operator_node'
    functions = ('evaluation.evaluate_operator_node (all handlers)',)
    assumptions = ()
    expected = {ast.USub: operator.neg, ast.UAdd: operator.pos,
                ast.BitAnd: operator.and_, ast.BitOr: operator.or_,
                ast.BitXor: operator.xor}

    def setup(self, interp):
        from paradigm._core.arboreal import evaluation
        handlers = [evaluation.evaluate_operator_node.dispatch(cls)
                    for cls in self.expected]
        node = SVal(z3.Const('node', ValS))
        return lambda: VTup([Lit(interp.call(handler, [node], {}))
                             for handler in handlers])

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return []

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        found = [interp.to_host(piece.value) for piece in value.pieces]
        return [(f'meaning of {cls.__name__}', z3.BoolVal(
                function is expected)) for function, (cls, expected)
                in zip(found, self.expected.items())]


PATHS = [PathOfName, PathOfAttribute, MaybePathOfName, MaybePathOfAttribute,
         NoPath]
NAMES = [NamesOfName, NamesOfDefinition, NamesOfClass, NamesOfAnnotated,
         NamesOfAssignment]
