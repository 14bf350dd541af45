"""Contracts of ``PlainSignature.bind``."""
import z3

from harness.proof import Proof
from pyvc.core import DictObj, Inst, TRUE, Unsupported, VTup

from . import params, sig_input
from .sig_input import SEGMENTS


class Construction:
    """
    Contract of the constructor of plain signatures: given a well-formed list
    it returns a signature made of it. The precondition is collected to be
    proved along with the other obligations.
    """

    def __init__(self, layout):
        self.layout = layout
        self.obligations = []

    def install(self, interp):
        interp.ctx.contracts[self.layout.models.PlainSignature] = self

    def __call__(self, interp, args, kwargs):
        if isinstance(kwargs, DictObj):
            kwargs = interp.plain_kwargs(kwargs)
        if kwargs.keys() != {'returns'}:
            raise Unsupported('construction of a signature')
        self.obligations.append(list(args))
        layout = self.layout
        return Inst(interp.ctx.oid(), layout.models.PlainSignature, {
            layout.plain['parameters']: (TRUE, VTup(args)),
            layout.plain['returns']: (TRUE, kwargs['returns'])})

    def preconditions(self, interp):
        result = []
        for pieces in self.obligations:
            result += params.well_formed(interp, self.layout, pieces)
        return result


class LeftParameters:
    """What is left of the signature after binding of the arguments."""

    def __init__(self, sig, args):
        self.sig, self.args = sig, args
        i = z3.Int('$bi')
        n, K, nargs = sig.n, args.has, args.nargs
        # keywords consumed by parameters which are not passed by position
        self.start = z3.If(nargs > n['PO'], nargs - n['PO'], 0)
        self.first_pk = z3.Int('first_bound_pk')
        self.first_ko = z3.Int('first_bound_ko')
        self.pk_bound = self.first_pk < n['PK']

    def axioms(self):
        """Definitions of the first bound keywords."""
        sig, K = self.sig, self.args.has
        i = z3.Int('$bi')
        n = sig.n
        result = []
        for first, seg, start in ((self.first_pk, 'PK', self.start),
                                  (self.first_ko, 'KO', z3.IntVal(0))):
            name = sig.name[seg]
            stop = z3.If(start < n[seg], n[seg], start)
            result += [
                start <= first, first <= stop,
                z3.Implies(first < n[seg], K(name(first))),
                z3.ForAll([i], z3.Implies(z3.And(
                        start <= i, i < first, i < n[seg]),
                        z3.Not(K(name(i)))), patterns=[name(i)]),
            ]
        return result

    def any_bound(self):
        return z3.Or(self.pk_bound, self.first_ko < self.sig.n['KO'])

    def kept(self, seg, i):
        nargs = self.args.nargs
        if seg == 'PO':
            return i >= nargs
        if seg == 'PK':
            return i >= self.start
        if seg == 'VP':
            return z3.Not(self.pk_bound)
        return TRUE

    def expected(self, seg, i):
        sig, K = self.sig, self.args.has
        kinds = sig.kinds
        name = sig.name[seg](i)
        kind = z3.IntVal(int(kinds[seg]))
        opt, has = sig.opt[seg](i), sig.has_default[seg](i)
        default = sig.default[seg](i)
        if seg in ('PK', 'KO'):
            passed = K(name)
            opt = z3.Or(opt, passed)
            has = z3.Or(has, passed)
            default = z3.If(passed, self.args.kwval(name), default)
            if seg == 'PK':
                kind = z3.If(i >= self.first_pk,
                             z3.IntVal(int(kinds['KO'])), kind)
        return params.View(name, kind, opt, has, sig.annotation[seg](i),
                           default)


class Bind(Proof):
    name = 'PlainSignature.bind'
    functions = ('PlainSignature.bind', '_bind_positionals',
                 '_bind_keywords', 'to_parameters_by_kind',
                 'OptionalParameter.__new__', 'RequiredParameter.__new__',
                 '_validate_kind')
    assumptions = ('PlainSignature(...) in the verified bodies is '
                   'represented by the contract of the constructor, '
                   'verified for C05',
                   'values of the users are not the private mark '
                   'of the absence of default of the library')
    budget = 300.

    def setup(self, interp):
        from paradigm._core import models
        layout = sig_input.Layout(models)
        self.sig = sig_input.SymSignature(interp, layout)
        self.args = sig_input.SymArguments(interp)
        self.left = LeftParameters(self.sig, self.args)
        sig_input.no_sentinels(interp, layout, self.sig, self.args)
        interp.ctx.axioms += self.left.axioms()
        self.construction = Construction(layout)
        self.construction.install(interp)
        self.spec = sig_input.expects(self.sig, self.args)
        return lambda: interp.call(
                interp.getattr(self.sig.object, 'bind'),
                self.args.args, self.args.kwargs)

    def expect_kinds(self):
        return 'return', 'raise'

    def covers(self, interp):
        n = self.sig.n
        return [('accepted arguments', z3.And(self.spec, n['PK'] > 2,
                                              n['KO'] > 1,
                                              self.args.nargs == 1)),
                ('rejected arguments', z3.Not(self.spec))]

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('the error of bind is TypeError',
                     z3.BoolVal(value.cls is TypeError)),
                    ('bind fails only for arguments which are not expected',
                     z3.Not(self.spec))]
        sig, layout = self.sig, self.sig.layout
        result = [('bind returns only for expected arguments', self.spec)]
        value = interp.force(value)
        if not (isinstance(value, Inst)
                and value.cls is layout.models.PlainSignature):
            return [('bind returns a plain signature', z3.BoolVal(False))]
        pieces = value.fields[layout.plain['parameters']][1].pieces
        returns = value.fields[layout.plain['returns']][1]
        result.append(('the returned annotation is kept',
                       interp.as_val(returns) == sig.returns.t))
        result += params.sublist(interp, sig, pieces, self.left.kept,
                                 self.left.expected)
        if value is not sig.object:
            result += self.construction.preconditions(interp)
        return result


class Composition(Proof):
    """
    Lemma over the contracts: the parameters left after binding accept
    further arguments exactly when the signature accepts both groups.
    """
    name = 'lemma: parameters left accept what completes both groups'
    functions = ()

    def setup(self, interp):
        from paradigm._core import models
        layout = sig_input.Layout(models)
        sig = self.sig = sig_input.SymSignature(interp, layout)
        args = self.args = sig_input.SymArguments(interp)
        more = self.more = sig_input.SymArguments(interp, 'more_')
        left = LeftParameters(sig, args)
        rest = self.rest = sig_input.SymSignature(interp, layout, 'left_')
        n, m = sig.n, rest.n
        pk_left = z3.If(left.start < n['PK'], left.start, n['PK'])
        first = z3.If(left.pk_bound, left.first_pk, n['PK'])
        moved = n['PK'] - first
        sources = {
            'PO': [('PO', z3.If(args.nargs < n['PO'], n['PO'] - args.nargs,
                                0), args.nargs)],
            'PK': [('PK', first - pk_left, pk_left)],
            'VP': [('VP', z3.If(left.pk_bound, 0, n['VP']), z3.IntVal(0))],
            'KO': [('PK', moved, first), ('KO', n['KO'], z3.IntVal(0))],
            'VK': [('VK', n['VK'], z3.IntVal(0))],
        }
        i = z3.Int('$ci')
        axioms = left.axioms()
        for seg, runs in sources.items():
            offset = z3.IntVal(0)
            for source, size, start in runs:
                at = i - offset + start
                expected = left.expected(source, at)
                inside = z3.And(offset <= i, i < offset + size)
                axioms.append(z3.ForAll([i], z3.Implies(
                        inside, rest.name[seg](i) == sig.name[source](at)),
                        patterns=[rest.name[seg](i)]))
                if seg not in ('VP', 'VK'):
                    axioms.append(z3.ForAll([i], z3.Implies(
                            inside, rest.opt[seg](i) == expected.opt),
                            patterns=[rest.opt[seg](i)]))
                # the same from the side of the source
                back = i - start + offset
                axioms.append(z3.ForAll([i], z3.Implies(
                        z3.And(start <= i, i < start + size),
                        z3.And(rest.name[seg](back) == sig.name[source](i),
                               rest.segment_of(sig.name[source](i))
                               == SEGMENTS.index(seg),
                               rest.index_of(sig.name[source](i))
                               == back)),
                        patterns=[sig.name[source](i)]))
                if seg not in ('VP', 'VK'):
                    axioms.append(z3.ForAll([i], z3.Implies(
                            z3.And(start <= i, i < start + size),
                            rest.opt[seg](back)
                            == left.expected(source, i).opt),
                            patterns=[sig.opt[source](i)]))
                offset = offset + size
            axioms.append(m[seg] == offset)
        interp.ctx.axioms += axioms
        # both groups at once

        class Both:
            pass

        self.both = Both()
        self.both.nargs = args.nargs + more.nargs
        self.both.has = lambda s: z3.Or(args.has(s), more.has(s))
        interp.ctx.axioms.append(sig_input.expects(sig, args))
        interp.ctx.axioms.append(z3.Or(n['VK'] == 0, z3.ForAll(
                [i], z3.Implies(
                        z3.And(0 <= i, i < n['PK'],
                               i < args.nargs - n['PO']),
                        z3.Not(more.has(sig.name['PK'](i)))),
                patterns=[sig.name['PK'](i)])))
        return lambda: None

    def covers(self, interp):
        n = self.sig.n
        return [('two groups of arguments', z3.And(
                n['PK'] > 2, self.args.nargs == 1, self.more.nargs == 1,
                n['PO'] == 1, n['KO'] == 1))]

    def post(self, interp, kind, value):
        sig, rest, more, both = self.sig, self.rest, self.more, self.both
        result = []
        whole, part = (sig_input.accepts(sig, both),
                       sig_input.accepts(rest, more))
        labels = 'positional arguments', 'repeated arguments', 'keywords'
        for label, goal in zip(labels, part):
            result.append((f'accepted at once, so accepted in steps: {label}',
                           z3.Implies(z3.And(*whole), goal)))
        for label, goal in zip(labels, whole):
            result.append((f'accepted in steps, so accepted at once: {label}',
                           z3.Implies(z3.And(*part), goal)))
        whole, part = (sig_input.complete(sig, both),
                       sig_input.complete(rest, more))
        hyp = sig_input.expects(sig, both)
        labels = ('positional-only parameters',
                  'positional or keyword parameters',
                  'keyword-only parameters')
        for label, goal in zip(labels, part):
            result.append((f'complete at once, so complete in steps: {label}',
                           z3.Implies(z3.And(hyp, *whole), goal)))
        for label, goal in zip(labels, whole):
            result.append((f'complete in steps, so complete at once: {label}',
                           z3.Implies(z3.And(hyp, *part), goal)))
        return result
