"""Contracts of overloaded signatures and joining of signatures."""
import z3

from harness.proof import Proof
from pyvc import loops
from pyvc.core import (BOOL, INT, ValS, DictObj, Gen, Inst, Lit, PyExc, SVal,
                       Sub, TRUE, Unsupported, VIte, VTup, new_iv, subst)

from . import lists, sig_input

ACCEPTS = z3.Function('all_set_of', ValS, BOOL)
EXPECTS = z3.Function('expects_of', ValS, BOOL)
BOUND = z3.Function('bound_of', ValS, ValS)


class PlainContracts:
    """
    Contracts of the methods of plain signatures for the given arguments:
    which call they accept is up to the signature (see C01, C02 and C04),
    ``bind`` raises TypeError exactly when the arguments are not expected.
    """

    def __init__(self, interp, layout, args):
        self.layout, self.args = layout, args
        cls = layout.models.PlainSignature
        self.cls = cls
        contracts = interp.ctx.contracts
        contracts[cls.all_set] = self.query(ACCEPTS)
        contracts[cls.expects] = self.query(EXPECTS)
        contracts[cls.bind] = self.bind

    def split(self, interp, args, kwargs):
        self_ = interp.force(args[0].value)
        if not (isinstance(self_, Inst) and self_.cls is self.cls):
            raise Unsupported('method of something else')
        if self_.ident is None:
            raise Unsupported('unknown signature')
        given = list(args[1:])
        expected = self.args.args
        if not (len(given) == len(expected) and all(
                loops.same(interp.ctx, a, b, [])
                for a, b in zip(given, expected))):
            raise Unsupported('other positional arguments')
        if not isinstance(kwargs, DictObj):
            kwargs = interp.lift(kwargs)
        if not (len(kwargs.pieces) == 1 and loops.same(
                interp.ctx, kwargs.pieces[0],
                self.args.kwargs.pieces[0], [])):
            raise Unsupported('other keyword arguments')
        return self_.ident[1]

    def query(self, function):
        def contract(interp, args, kwargs):
            return interp.mk_bool(function(self.split(interp, args, kwargs)))
        return contract

    def bind(self, interp, args, kwargs):
        ident = self.split(interp, args, kwargs)
        if not interp.ctx.branch(EXPECTS(ident)):
            raise PyExc(TypeError, ('not expected',))
        return Inst(interp.ctx.oid(), self.cls, {}, ('sig', BOUND(ident)))


def identity(interp, value):
    """Term of a plain signature."""
    value = interp.force(value)
    if isinstance(value, Inst) and value.ident is not None \
            and value.ident[0] == 'sig':
        return value.ident[1]
    raise Unsupported(f'not a known signature: {value!r}'[:100])


class Overloads:
    """Overloaded signature of any number of plain ones."""

    def __init__(self, interp, layout):
        ctx = interp.ctx
        self.n = z3.Int('overloads')
        self.id = z3.Function('overload', INT, ValS)
        ctx.axioms.append(self.n >= 2)
        self.gen = signatures(interp, layout, self.n, self.id)
        self.object = Inst(ctx.oid(), layout.models.OverloadedSignature, {
            layout.overloaded['signatures']: (TRUE, VTup([self.gen]))})

    def some(self, function):
        i = z3.Int('$oi')
        return z3.Exists([i], z3.And(0 <= i, i < self.n,
                                     function(self.id(i))))


def signatures(interp, layout, n, id_):
    iv = new_iv()
    template = Inst(interp.ctx.oid(), layout.models.PlainSignature, {},
                    ('sig', id_(iv)))
    template.frozen = True
    return Gen(n, iv, template)


class Query(Proof):
    method = spec = None

    def setup(self, interp):
        from paradigm._core import models
        self.layout = layout = sig_input.Layout(models)
        self.args = sig_input.SymArguments(interp)
        self.overloads = Overloads(interp, layout)
        self.contracts = PlainContracts(interp, layout, self.args)
        return lambda: interp.call(
                interp.getattr(self.overloads.object, self.method),
                self.args.args, self.args.kwargs)

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [(f'{self.method} raises nothing', z3.BoolVal(False))]
        value = interp.truth_formula(value)
        value = z3.BoolVal(value) if isinstance(value, bool) else value
        spec = self.overloads.some(self.spec)
        return [(f'{self.method} is true only if it is for an alternative',
                 z3.Implies(value, spec)),
                (f'{self.method} is true if it is for an alternative',
                 z3.Implies(spec, value))]


class AllSet(Query):
    name = 'OverloadedSignature.all_set'
    functions = ('OverloadedSignature.all_set',)
    method, spec = 'all_set', ACCEPTS


class Expects(Query):
    name = 'OverloadedSignature.expects'
    functions = ('OverloadedSignature.expects',)
    method, spec = 'expects', EXPECTS


class Bind(Query):
    name = 'OverloadedSignature.bind'
    functions = ('OverloadedSignature.bind', 'from_signatures',
                 'flatten_signature', 'OverloadedSignature.__new__')
    method = 'bind'

    def expect_kinds(self):
        return 'return', 'raise'

    def post(self, interp, kind, value):
        overloads = self.overloads
        expected = overloads.some(EXPECTS)
        if kind == 'raise':
            return [('the error of bind is TypeError',
                     z3.BoolVal(value.cls is TypeError)),
                    ('bind fails only if no alternative expects',
                     z3.Not(expected))]
        value = interp.force(value)
        result = [('bind succeeds only if some alternative expects',
                   expected)]
        models = self.layout.models
        i, j = z3.Ints('$oi $oj')
        among = lambda i: z3.And(0 <= i, i < overloads.n,
                                 EXPECTS(overloads.id(i)))
        if isinstance(value, Inst) and value.cls is models.PlainSignature:
            ident = identity(interp, value)
            result += [
                ('the only alternative left is returned', z3.Exists(
                        [i], z3.And(among(i),
                                    ident == BOUND(overloads.id(i))))),
                ('a plain signature is returned only for one alternative',
                 z3.Not(z3.Exists([i, j], z3.And(among(i), among(j),
                                                 i != j)))),
            ]
            return result
        if not (isinstance(value, Inst)
                and value.cls is models.OverloadedSignature):
            return [('bind returns a signature', z3.BoolVal(False))]
        pieces = lists.pieces_of(interp, value.fields[
            self.layout.overloaded['signatures']][1])
        result.append(('an overloaded signature is returned for several '
                       'alternatives', z3.Exists(
                [i, j], z3.And(among(i), among(j), i < j))))
        result += lists.filtered(
                interp, 'alternatives left', pieces, overloads.n,
                lambda i: EXPECTS(overloads.id(i)),
                lambda i: BOUND(overloads.id(i)),
                lambda value: identity(interp, value))
        return result


class Construct(Proof):
    """Elements are plain signatures or anything else."""
    name = 'OverloadedSignature.__new__'
    functions = ('OverloadedSignature.__new__',)

    def setup(self, interp):
        from paradigm._core import models
        self.layout = sig_input.Layout(models)
        ctx = interp.ctx
        self.n = z3.Int('count')
        self.id = z3.Function('given', INT, ValS)
        self.plain = plain = z3.Function('is_plain', ValS, BOOL)
        ctx.axioms.append(self.n >= 0)
        cls = models.PlainSignature
        others = {}

        def is_instance(interp, value, classes):
            classes = classes if isinstance(classes, tuple) else (classes,)
            if classes == (cls,):
                return plain(value.t)
            # of other classes it is known what follows from their order
            function = others.setdefault(classes, z3.Function(
                    f'is_of_{len(others)}', ValS, BOOL))
            if any(issubclass(cls, other) for other in classes):
                return z3.Or(plain(value.t), function(value.t))
            return z3.And(z3.Not(plain(value.t)), function(value.t))

        iv = new_iv()
        schema = {'isinstance': is_instance,
                  'type': lambda interp, value: SVal(z3.Function(
                          'type_of', ValS, ValS)(value.t))}
        self.gen = Gen(self.n, iv, SVal(self.id(iv), schema))
        return lambda: interp.call(models.OverloadedSignature, [self.gen],
                                   {})

    def expect_kinds(self):
        return 'return', 'raise'

    def post(self, interp, kind, value):
        i = z3.Int('$oi')
        plain = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n),
                                          self.plain(self.id(i))),
                          patterns=[self.id(i)])
        if kind == 'raise':
            if value.cls is TypeError:
                return [('TypeError is raised only for something besides '
                         'plain signatures', z3.Not(plain))]
            if value.cls is ValueError:
                return [('ValueError is raised only for less than two',
                         self.n < 2)]
            return [('the error is TypeError or ValueError',
                     z3.BoolVal(False))]
        value = interp.force(value)
        models = self.layout.models
        if not (isinstance(value, Inst)
                and value.cls is models.OverloadedSignature):
            return [('the result is an overloaded signature',
                     z3.BoolVal(False))]
        result = [('at least two are required', self.n >= 2),
                  ('only plain signatures are accepted', plain)]
        for label, found in (
                ('signatures are kept', value.fields[
                    self.layout.overloaded['signatures']][1]),
                ('signatures are reported',
                 interp.getattr(value, 'signatures'))):
            result += lists.equal(interp, label,
                                  lists.pieces_of(interp, found), self.n,
                                  self.id)
        return result


class Join(Proof):
    """Every shape of a joined signature next to any other ones."""
    name = 'from_signatures'
    functions = ('from_signatures', 'flatten_signature')
    assumptions = ('from_signatures is verified for up to three signatures, '
                   'each plain or overloaded of any size',)
    shape = ()

    def setup(self, interp):
        from paradigm._core import models
        self.layout = layout = sig_input.Layout(models)
        ctx = interp.ctx
        given, self.expected = [], []
        self.total = z3.IntVal(0)
        for number, kind in enumerate(self.shape):
            if kind == 'p':
                ident = z3.Const(f'plain{number}', ValS)
                given.append(Lit(Inst(ctx.oid(), models.PlainSignature, {},
                                      ('sig', ident))))
                self.expected.append((z3.IntVal(1), lambda i, t=ident: t))
                self.total = self.total + 1
            else:
                n = z3.Int(f'count{number}')
                id_ = z3.Function(f'overload{number}', INT, ValS)
                ctx.axioms.append(n >= 2)
                gen = signatures(interp, layout, n, id_)
                given.append(Lit(Inst(
                        ctx.oid(), models.OverloadedSignature, {
                            layout.overloaded['signatures']: (
                                TRUE, VTup([gen]))})))
                self.expected.append((n, id_))
                self.total = self.total + n
        return lambda: interp.call(models.from_signatures, given, {})

    def expect_kinds(self):
        return ('return',) if self.shape else ('raise',)

    def at(self, i):
        result = self.expected[-1][1](i - sum(
                [n for n, _ in self.expected[:-1]], z3.IntVal(0)))
        for number in reversed(range(len(self.expected) - 1)):
            start = sum([n for n, _ in self.expected[:number]],
                        z3.IntVal(0))
            n, at = self.expected[number]
            result = z3.If(i < start + n, at(i - start), result)
        return result

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('joining fails only for no signatures',
                     z3.BoolVal(not self.shape
                                and value.cls is ValueError))]
        value = interp.force(value)
        models = self.layout.models
        if isinstance(value, Inst) and value.cls is models.PlainSignature:
            return [('a plain signature is the only one', z3.And(
                    self.total == 1,
                    identity(interp, value) == self.at(z3.IntVal(0))))]
        if not (isinstance(value, Inst)
                and value.cls is models.OverloadedSignature):
            return [('the result is a signature', z3.BoolVal(False))]
        pieces = lists.pieces_of(interp, value.fields[
            self.layout.overloaded['signatures']][1])
        return [('an overloaded signature is for several',
                 self.total >= 2),
                *lists.equal(interp, 'joined signatures', pieces, self.total,
                             self.at,
                             lambda value: identity(interp, value))]


def join(shape):
    return type(f'Join_{shape}', (Join,), {
        'name': f'from_signatures({", ".join(shape)})', 'shape': shape})


JOINS = [join(''.join(shape)) for shape in (
    '', 'p', 'o', 'pp', 'po', 'op', 'oo', 'pop', 'opo', 'ppo')]


class JoinAny(Join):
    """Joined are all plain signatures of any number of given ones."""
    name = 'from_signatures (any number)'
    assumptions = (
        'constructor of overloaded signatures is verified on its own',)

    def setup(self, interp):
        from paradigm._core import models
        self.layout = layout = sig_input.Layout(models)
        ctx = interp.ctx
        self.n = z3.Int('given')
        self.plain = z3.Function('is_plain', INT, BOOL)
        self.id = z3.Function('plain_signature', INT, ValS)
        self.count = z3.Function('number_of_overloads', INT, INT)
        self.inner = z3.Function('overload_of', INT, INT, ValS)
        i = z3.Int('$i')
        ctx.axioms += [self.n >= 0, z3.ForAll(
                [i], self.count(i) >= 2, patterns=[self.count(i)])]
        iv = new_iv()
        single = Inst(ctx.oid(), models.PlainSignature, {},
                      ('sig', self.id(iv)))
        several = Inst(ctx.oid(), models.OverloadedSignature, {
            layout.overloaded['signatures']: (
                TRUE, VTup([self.overloads(interp, iv)]))})
        for template in (single, several):
            template.frozen = True
        return lambda: interp.call(models.from_signatures, [
            Gen(self.n, iv, VIte(self.plain(iv), single, several))], {})

    def overloads(self, interp, i):
        k = new_iv()
        template = Inst(interp.ctx.oid(), self.layout.models.PlainSignature,
                        {}, ('sig', self.inner(i, k)))
        template.frozen = True
        return Gen(self.count(i), k, template)

    def expect_kinds(self):
        return 'return', 'raise'

    def covers(self, interp):
        return [('mixed', z3.And(self.n == 2, self.plain(0),
                                 z3.Not(self.plain(1))))]

    def post(self, interp, kind, value):
        iv = new_iv()
        if kind == 'raise':
            return [('joining fails only for no signatures', z3.And(
                    self.n <= 0, z3.BoolVal(value.cls is ValueError)))]
        value = interp.force(value)
        models = self.layout.models
        iv, k = new_iv(), new_iv()
        own = Gen(z3.If(self.plain(iv), 1, 0), k, SVal(self.id(iv)))
        inner = new_iv()
        others = Gen(z3.If(self.plain(iv), 0, self.count(iv)), inner,
                     SVal(self.inner(iv, inner)))
        expected = [Gen(self.n, iv, Sub([own, others]))]
        total = interp.seq_len(expected)
        if not isinstance(value, Inst):
            raise Unsupported('not a signature')
        if value.cls is models.PlainSignature:
            return [('a plain signature is the only one', total == 1),
                    ('it is the given one', identity(interp, value)
                     == interp.as_val(interp.pieces_at(expected,
                                                       z3.IntVal(0))))]
        if value.cls is not models.OverloadedSignature:
            return [('the result is a signature', z3.BoolVal(False))]
        pieces = lists.pieces_of(interp, value.fields[
            self.layout.overloaded['signatures']][1])
        at = z3.Int('position')
        return [('an overloaded signature is for several', total >= 2),
                ('the number of signatures',
                 interp.seq_len(pieces) == total),
                ('every signature', z3.Implies(
                    z3.And(0 <= at, at < total),
                    self.term(interp, interp.pieces_at(pieces, at))
                    == interp.as_val(interp.pieces_at(expected, at))))]

    def term(self, interp, value):
        if isinstance(value, VIte):
            return z3.If(value.c, self.term(interp, value.a),
                         self.term(interp, value.b))
        if isinstance(value, Inst) and value.ident is None:
            # is not there: positions of plain signatures
            return z3.Const('other', ValS)
        return identity(interp, value)
