"""Contracts of traversals of syntax trees."""
import ast

import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, ValS, Gen, ListObj, Lit, SVal, StrS, SStr,
                       Unsupported, VTup, new_iv)
from pyvc.whiles import Invariant, lists_of

CHILDREN = z3.Function('number_of_children', ValS, INT)
CHILD = z3.Function('child_of_node', ValS, INT, ValS)
IS_NAME = z3.Function('is_name_node', ValS, BOOL)
IS_USED = z3.Function('is_used_name', ValS, BOOL)
NAME = z3.Function('identifier_of_name', ValS, StrS)


class Fold:
    """
    Sum in a monoid of weights of elements of a sequence: literal pieces are
    added one by one, runs are given by sums of parts of their sources.
    """

    def __init__(self, ctx, unit, add, weight):
        self.ctx, self.unit, self.add, self.weight = ctx, unit, add, weight
        self.runs = []

    def source(self, name, length, element, total=None, *, backward=False):
        """
        Registers the sequence with its elements by indices; a part of it
        from one index to other has the sum with its usual properties.
        """
        sum_ = z3.Function(f'sum_{name}_{"b" if backward else "f"}', INT,
                           INT, self.unit.sort())
        self.runs.append((length, element, sum_, backward))
        if total is not None:
            self.ctx.axioms.append(sum_(0, length) == total)
        return sum_

    def unfold(self, length, element, sum_, backward, low, high):
        """Facts of the part with the first and the last elements apart."""
        first, last = (self.weight(element(low)),
                       self.weight(element(high - 1)))
        if backward:
            steps = [self.add(sum_(low + 1, high), first),
                     self.add(last, sum_(low, high - 1))]
        else:
            steps = [self.add(first, sum_(low + 1, high)),
                     self.add(sum_(low, high - 1), last)]
        return z3.And(
            *[z3.Implies(a >= b, sum_(a, b) == self.unit)
              for a, b in [(low, high), (low + 1, high), (low, high - 1)]],
            z3.Implies(low < high, z3.And(*[sum_(low, high) == s
                                            for s in steps])))

    def of(self, interp, pieces):
        """The sum; facts of parts of sums are made known."""
        result = self.unit
        for piece in pieces:
            if isinstance(piece, Lit):
                value = self.weight(interp.as_val(piece.value))
            else:
                value = self.of_run(interp, piece)
            result = self.add(result, value)
        return result

    def of_run(self, interp, piece):
        if piece.filtered:
            raise Unsupported('filtered run')
        at = interp.as_val(piece.tmpl)
        for length, element, sum_, backward in self.runs:
            sample = element(z3.IntVal(0))
            if not at.decl().eq(sample.decl()) or not all(
                    a.eq(b) for a, b in zip(at.children()[:-1],
                                            sample.children()[:-1])):
                continue
            index = at.children()[-1]
            start = z3.simplify(z3.substitute(index,
                                              (piece.iv, z3.IntVal(0))))
            step = z3.simplify(index - start)
            if z3.simplify(step - piece.iv).eq(z3.IntVal(0)):
                bounds, reverse = (start, z3.simplify(start + piece.n)), False
            elif z3.simplify(step + piece.iv).eq(z3.IntVal(0)):
                bounds = z3.simplify(start - piece.n + 1), z3.simplify(
                        start + 1)
                reverse = True
            else:
                raise Unsupported('other run')
            if reverse != backward:
                continue
            interp.ctx.pc.append(self.unfold(length, element, sum_, backward,
                                             *bounds))
            return sum_(*bounds)
        raise Unsupported(f'unknown run: {piece!r}'[:200])


class Descendants(Proof):
    """
    All the nodes inside of the given one are iterated over, each as many
    times as it is there, for trees of any form: for any node, how many times
    it was given and how many times it is among the candidates and inside of
    them is always the same in total.
    """
    name = 'recursively_iterate_children'
    functions = ('arboreal.utils.recursively_iterate_children',)
    assumptions = ('ast.iter_child_nodes gives direct children',
                   'the number of occurrences inside of a node is the sum '
                   'of the ones of its children and of ones inside of them')

    def setup(self, interp):
        from paradigm._core.arboreal import utils
        ctx = interp.ctx
        function = utils.recursively_iterate_children
        self.sought = z3.Const('sought_node', ValS)
        self.inside = z3.Function('occurrences_inside', ValS, INT)
        self.node = z3.Const('node', ValS)
        self.given = interp.new_list()
        x = z3.Const('$kx', ValS)
        ctx.axioms.append(z3.ForAll([x], CHILDREN(x) >= 0,
                                    patterns=[CHILDREN(x)]))
        self.fold = Fold(ctx, z3.IntVal(0), lambda a, b: a + b, lambda v: (
            z3.If(v == self.sought, 1, 0) + self.inside(v)))
        self.known = set()
        self.queues = []

        def children(interp, args, kwargs):
            node = interp.as_val(args[0].value)
            iv = new_iv()
            if node.sexpr() not in self.known:
                self.known.add(node.sexpr())
                self.fold.source(f'children{len(self.known)}', CHILDREN(node),
                                 lambda k: CHILD(node, k), self.inside(node))
            return VTup([Gen(CHILDREN(node), iv, SVal(CHILD(node, iv)))])

        ctx.contracts[ast.iter_child_nodes] = children
        proof = self

        class Rule(Invariant):
            def holds(self, interp, frame):
                return [('occurrences are neither lost nor repeated',
                         proof.total(interp, frame)
                         == proof.inside(proof.node))]

            def forget(self, interp, frame):
                return proof.forget(interp, frame)

        ctx.invariants[function.__name__] = Rule()
        node = SVal(self.node)

        def run():
            result = interp.call(function, [node], {})

            def given(element):
                ctx.touch(self.given)
                self.given.pieces.append(Lit(element))

            interp.iterate(result, given)
            self.finished = True
        return run

    def total(self, interp, frame):
        queue, = self.queue(interp, frame)
        return self.fold.of(interp, queue.pieces) + self.count(interp)

    def count(self, interp):
        """How many times the node was given."""
        result = z3.IntVal(0)
        for piece in self.given.pieces:
            if isinstance(piece, Lit):
                result = result + z3.If(interp.as_val(piece.value)
                                        == self.sought, 1, 0)
            else:
                result = result + z3.Int('given_before')
        return result

    def queue(self, interp, frame):
        lists = list({id(v): v
                      for v in lists_of(interp, frame).values()}.values())
        if len(lists) != 1:
            raise Unsupported('other lists')
        return lists

    def forget(self, interp, frame):
        queue, = self.queue(interp, frame)
        length = z3.Int('candidates')
        interp.ctx.pc.append(length >= 0)
        item = z3.Function('candidate', INT, ValS)
        self.fold.source('candidates', length, item)
        iv, other = new_iv(), new_iv()
        interp.ctx.touch(queue)
        queue.pieces = [Gen(length, iv, SVal(item(iv)))]
        interp.ctx.touch(self.given)
        self.given.pieces = [Gen(z3.Int('number_given'), other, SVal(
                z3.Function('given', INT, ValS)(other)))]
        return [queue, self.given]

    def expect_kinds(self):
        return 'return', 'loop'

    def covers(self, interp):
        return [('some', CHILDREN(self.node) == 2)]

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('nodes are given', z3.BoolVal(False))]
        return [('every occurrence is given once',
                 self.count(interp) == self.inside(self.node))]


SEQ = z3.SeqSort(ValS)
KINDS = {kind: z3.Function(f'is_{kind.__name__.lower()}_node', ValS, BOOL)
         for kind in (ast.Subscript, ast.List, ast.Tuple, ast.BinOp)}
ITEM, LEFT, RIGHT = [z3.Function(name, ValS, ValS) for name in
                     ('subscripted_item', 'left_operand', 'right_operand')]
ELEMENTS = z3.Function('number_of_elements', ValS, INT)
ELEMENT = z3.Function('element_of_node', ValS, INT, ValS)
LEAVES = z3.Function('leaves_of_node', ValS, SEQ)
LISTED = z3.Function('leaves_of_elements', ValS, SEQ)


class TypeArguments(Proof):
    """
    Arguments of a specialization are parts of the index of any depth which
    are not specializations, displays and alternatives themselves, from left
    to right: the ones found followed by the ones of the candidates from the
    last to the first are always the same sequence.
    """
    name = '_collect_type_args'
    functions = ('stubs._collect_type_args',
                 'stubs._is_generic_specialization')
    assumptions = ('arguments of a node are the ones of its parts in their '
                   'order',)

    def setup(self, interp):
        from paradigm._core.arboreal import utils
        from pyvc.extract import host_module
        ctx = interp.ctx
        stubs = host_module('stubs')
        function = getattr(stubs, '_collect_type_args', None)
        if function is None:
            raise Unsupported('no function')
        x = z3.Const('$kx', ValS)
        kinds = list(KINDS.values())
        ctx.axioms += [
            z3.ForAll([x], ELEMENTS(x) >= 0, patterns=[ELEMENTS(x)]),
            *[z3.ForAll([x], z3.Not(z3.And(a(x), b(x))),
                        patterns=[z3.MultiPattern(a(x), b(x))])
              for i, a in enumerate(kinds) for b in kinds[:i]]]
        self.node = z3.Const('node', ValS)
        self.ctx, self.known, self.roles = ctx, {}, None
        self.waiting = Fold(ctx, z3.Empty(SEQ), lambda a, b: z3.Concat(b, a),
                            self.leaves)
        self.found = Fold(ctx, z3.Empty(SEQ), z3.Concat, z3.Unit)
        ctx.contracts[utils.subscript_to_item] = (
            lambda interp, args, kwargs: self.tree(ITEM(interp.as_val(
                    args[0].value))))
        proof = self

        class Rule(Invariant):
            def holds(self, interp, frame):
                return [('arguments are neither lost nor reordered',
                         proof.total(interp, frame)
                         == proof.leaves(proof.node))]

            def forget(self, interp, frame):
                return proof.forget(interp, frame)

        ctx.invariants[function.__name__] = Rule()
        return lambda: interp.call(function, [self.tree(self.node)], {})

    def leaves(self, node):
        self.ctx.pc.append(LEAVES(node) == z3.If(
                KINDS[ast.Subscript](node), LEAVES(ITEM(node)), z3.If(
                    z3.Or(KINDS[ast.List](node), KINDS[ast.Tuple](node)),
                    LISTED(node), z3.If(
                        KINDS[ast.BinOp](node),
                        z3.Concat(LEAVES(LEFT(node)), LEAVES(RIGHT(node))),
                        z3.Unit(node)))))
        return LEAVES(node)

    def tree(self, term):
        def is_kind(interp, v, cls):
            classes = cls if isinstance(cls, tuple) else (cls,)
            if not set(classes) <= set(KINDS):
                raise Unsupported(f'check of {cls}')
            return z3.Or(*[KINDS[c](v.t) for c in classes])

        return SVal(term, {
            'isinstance': is_kind,
            'attrs': {'slice': lambda interp, v: self.tree(ITEM(v.t)),
                      'left': lambda interp, v: self.tree(LEFT(v.t)),
                      'right': lambda interp, v: self.tree(RIGHT(v.t)),
                      'elts': lambda interp, v: self.elements(interp, v.t)}})

    def elements(self, interp, node):
        if node.sexpr() not in self.known:
            self.known[node.sexpr()] = interp.new_list()
            for backward in (False, True):
                self.waiting.source(
                        f'elements{len(self.known)}', ELEMENTS(node),
                        lambda k: ELEMENT(node, k),
                        LISTED(node) if backward else None,
                        backward=backward)
        iv = new_iv()
        return interp.new_list([Gen(ELEMENTS(node), iv,
                                    self.tree(ELEMENT(node, iv)))])

    def lists(self, interp, frame):
        """Lists of the candidates and of arguments found."""
        lists = list({id(v): v
                      for v in lists_of(interp, frame).values()}.values())
        if self.roles is None:
            if len(lists) != 2:
                raise Unsupported('other lists')
            roles = sorted(lists, key=lambda v: not v.pieces)
            if not roles[0].pieces or roles[1].pieces:
                raise Unsupported('other lists')
            self.roles = roles
        return self.roles

    def total(self, interp, frame):
        waiting, found = self.lists(interp, frame)
        return z3.Concat(self.found.of(interp, found.pieces),
                         self.waiting.of(interp, waiting.pieces))

    def forget(self, interp, frame):
        waiting, found = self.lists(interp, frame)
        for what, list_, fold in [('candidate', waiting, self.waiting),
                                  ('argument', found, self.found)]:
            length = z3.Int(f'{what}s')
            interp.ctx.pc.append(length >= 0)
            item = z3.Function(what, INT, ValS)
            fold.source(f'{what}s', length, item)
            iv = new_iv()
            interp.ctx.touch(list_)
            list_.pieces = [Gen(length, iv, self.tree(item(iv)))]
        return [waiting, found]

    def expect_kinds(self):
        return 'return', 'loop'

    def covers(self, interp):
        return [('specialization', KINDS[ast.Subscript](self.node))]

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('arguments are found', z3.BoolVal(False))]
        value = interp.force(value)
        if not isinstance(value, ListObj):
            raise Unsupported('not a list')
        return [('arguments from left to right', self.found.of(
                interp, interp.clean(value.pieces)) == z3.If(
                    KINDS[ast.Subscript](self.node), self.leaves(self.node),
                    z3.Empty(SEQ)))]


class Dependencies(Proof):
    """
    Names a node depends on are the ones used (not assigned) by it
    or anywhere inside of it.
    """
    name = '_to_dependencies_names'
    functions = ('stubs._to_dependencies_names',
                 'arboreal.utils.is_dependency_name')
    assumptions = ('recursively_iterate_children is represented by its '
                   'contract',)

    def setup(self, interp):
        from paradigm._core.arboreal import utils
        from pyvc.extract import host_module
        ctx = interp.ctx
        stubs = host_module('stubs')
        function = getattr(stubs, '_to_dependencies_names', None)
        if function is None or not hasattr(utils,
                                           'recursively_iterate_children'):
            raise Unsupported('no function')
        self.node, self.n = z3.Const('node', ValS), z3.Int('nodes_inside')
        self.inside = z3.Function('node_inside', INT, ValS)
        ctx.axioms.append(self.n >= 0)

        def nodes(interp, args, kwargs):
            if not interp.as_val(args[0].value).eq(self.node):
                raise Unsupported('other node')
            iv = new_iv()
            return VTup([Gen(self.n, iv, self.tree(self.inside(iv)))])

        ctx.contracts[utils.recursively_iterate_children] = nodes
        return lambda: interp.call(tuple, [Lit(interp.call(
                function, [self.tree(self.node)], {}))], {})

    def tree(self, term):
        def is_kind(interp, v, cls):
            if cls is not ast.Name:
                raise Unsupported(f'check of {cls}')
            return IS_NAME(v.t)

        def is_context(interp, v, cls):
            node, = v.t.children()
            if cls is not ast.Load:
                raise Unsupported(f'check of {cls}')
            return IS_USED(node)

        return SVal(term, {'isinstance': is_kind, 'attrs': {
            'ctx': lambda interp, v: SVal(
                    z3.Function('context_of', ValS, ValS)(v.t),
                    {'isinstance': is_context}),
            'id': lambda interp, v: SStr(NAME(v.t))}})

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return [('used', z3.And(IS_NAME(self.node), IS_USED(self.node)))]

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('names are given', z3.BoolVal(False))]
        goals = []
        i = z3.Int('position')
        own = z3.And(IS_NAME(self.node), IS_USED(self.node))
        inner = z3.And(IS_NAME(self.inside(i)), IS_USED(self.inside(i)))
        given = others = False
        for piece in interp.clean(interp.iter_pieces(interp.force(value))):
            if isinstance(piece, Lit) and not given:
                given = True
                goals += [('the node is used', own),
                          ('its name', interp.as_str(interp.force(
                                  piece.value)) == NAME(self.node))]
            elif (isinstance(piece, Gen) and not others
                  and piece.n.eq(self.n)):
                others = True
                inside = z3.And(0 <= i, i < self.n)
                goals += [('nodes inside are used', z3.Implies(
                        inside, piece.guard_at(i) == inner)),
                    ('their names', z3.Implies(
                            z3.And(inside, inner), interp.as_str(interp.force(
                                piece.at(interp.ctx, i)))
                            == NAME(self.inside(i))))]
            else:
                raise Unsupported(f'other names: {piece!r}'[:200])
        if not given:
            goals.append(('the name of the node', z3.Not(own)))
        if not others:
            goals.append(('names of nodes inside', z3.Not(z3.And(
                    0 <= i, i < self.n, inner))))
        return goals
