"""Contracts of ``PlainSignature.all_set`` and ``PlainSignature.expects``."""
import z3

from harness.proof import Proof

from . import sig_input


class Accepting(Proof):
    method = None

    def setup(self, interp):
        from paradigm._core import models
        layout = sig_input.Layout(models)
        self.sig = sig_input.SymSignature(interp, layout)
        self.args = sig_input.SymArguments(interp)
        self.spec = self.make_spec()
        return lambda: interp.call(
                interp.getattr(self.sig.object, self.method),
                self.args.args, self.args.kwargs)

    def covers(self, interp):
        n = self.sig.n
        return [('a call which is accepted', z3.And(self.spec, n['PK'] > 0,
                                                    n['KO'] > 0,
                                                    self.args.nargs > 1)),
                ('a call which is rejected', z3.Not(self.spec))]

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [(f'{self.method} raises nothing', z3.BoolVal(False))]
        value = interp.truth_formula(value)
        value = value if z3.is_expr(value) else z3.BoolVal(value)
        result = [(f'{self.method} is true only if {label}',
                   z3.Implies(value, part)) for label, part in self.parts()]
        result.append((f'{self.method} is true if all conditions hold',
                       z3.Implies(self.spec, value)))
        return result


ACCEPTS = ('positional arguments fit', 'nothing is passed twice',
           'all keywords are known')
COMPLETE = ('positional-only parameters are set',
            'positional-or-keyword parameters are set',
            'keyword-only parameters are set')


class AllSet(Accepting):
    name = 'PlainSignature.all_set'
    functions = ('PlainSignature.all_set', 'to_parameters_by_kind',
                 'to_parameters_by_name', 'all_parameters_are_optional')
    method = 'all_set'

    def make_spec(self):
        return sig_input.binds(self.sig, self.args)

    def parts(self):
        return [*zip(ACCEPTS, sig_input.accepts(self.sig, self.args)),
                *zip(COMPLETE, sig_input.complete(self.sig, self.args))]


class Expects(Accepting):
    name = 'PlainSignature.expects'
    functions = ('PlainSignature.expects', 'to_parameters_by_kind',
                 'to_parameters_by_name')
    method = 'expects'

    def make_spec(self):
        return sig_input.expects(self.sig, self.args)

    def parts(self):
        return zip(ACCEPTS, sig_input.accepts(self.sig, self.args))


class Extension(Proof):
    """
    Lemma: the condition of ``expects`` holds exactly if some further
    arguments complete the call: the given positional arguments go first,
    the given keywords are kept.
    """
    name = 'lemma: expects is extendability to a complete call'
    functions = ()

    def setup(self, interp):
        from paradigm._core import models
        layout = sig_input.Layout(models)
        self.sig = sig_input.SymSignature(interp, layout)
        self.args = sig_input.SymArguments(interp)
        self.more = sig_input.SymArguments(interp, 'more_')
        return lambda: None

    def post(self, interp, kind, value):
        sig, args, more = self.sig, self.args, self.more
        s = z3.Const('$es', sig_input.StrS)
        extends = z3.And(args.nargs <= more.nargs, z3.ForAll(
                [s], z3.Implies(args.has(s), more.has(s)),
                patterns=[args.has(s)]))
        n = sig.n
        po = n['PO']
        # the witness: the rest of positional-only parameters are passed
        # by position, everything else by keyword
        nargs = z3.If(args.nargs < po, po, args.nargs)
        has = lambda x: z3.Or(
                args.has(x), sig.member['KO'](x),
                z3.And(sig.member['PK'](x),
                       po + sig.index_of(x) >= nargs))

        class Witness:
            pass

        witness = Witness()
        witness.nargs, witness.has = nargs, has
        return [
            ('an extension which binds implies the condition', z3.Implies(
                    z3.And(extends, sig_input.binds(sig, more)),
                    sig_input.expects(sig, args))),
            ('the condition gives an extension which binds', z3.Implies(
                    sig_input.expects(sig, args),
                    sig_input.binds(sig, witness))),
        ]
