"""Contracts of texts of parameters and signatures."""
import z3

from harness.proof import Proof
from pyvc.core import (TRUE, Gen, Inst, Join, Lit, Part, SStr, SVal,
                       Unsupported, VStr, VTup)
from pyvc.loops import same

from . import sig_input
from .model_equality import CLASSES, SymParameter


def to_repr(interp, args, kwargs):
    """Text of an annotation or a default (see C10)."""
    return VStr([Part('to_repr', args[0].value)])


def parts_of(interp, v):
    v = interp.force(v)
    if isinstance(v, VStr):
        result = []
        for p in v.parts:
            if isinstance(p, Join):
                pieces = prune(interp, p.pieces)
                if all(isinstance(x, Lit) for x in pieces):
                    for index, x in enumerate(pieces):
                        if index:
                            result.append(p.sep)
                        result.extend(parts_of(interp, x.value))
                else:
                    result.append(Join(p.sep, pieces))
            else:
                result.append(p)
        made = interp.make_text(result)
        return list(made.parts) if isinstance(made, VStr) else [made]
    if isinstance(v, (str, SStr)):
        return [v]
    raise Unsupported(f'no text: {v}')


def prune(interp, pieces):
    """Without runs which are certainly empty."""
    return [p for p in interp.clean(pieces)
            if isinstance(p, Lit) or interp.ctx.check(
                    (p.n > 0,), 1500, mbqi=False)[0] != z3.unsat]


def matches(interp, actual, expected):
    """Texts made of the same parts in the same order."""
    actual = parts_of(interp, actual)
    expected = parts_of(interp, expected)
    if len(actual) != len(expected) or not all(
            match_part(interp, a, b) for a, b in zip(actual, expected)):
        raise Unsupported(f'text {actual} instead of {expected}'[:800])
    return z3.BoolVal(True)


def match_part(interp, a, b):
    ctx = interp.ctx
    if isinstance(a, Join) and isinstance(b, Join):
        return (a.sep == b.sep and len(a.pieces) == len(b.pieces)
                and all(match_piece(interp, x, y)
                        for x, y in zip(a.pieces, b.pieces)))
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, Part) and isinstance(b, Part):
        return a.op == b.op and same(ctx, a.value, b.value, [])
    return same(ctx, a, b, [])


def match_piece(interp, a, b):
    if isinstance(a, Lit) and isinstance(b, Lit):
        x, y = parts_of(interp, a.value), parts_of(interp, b.value)
        return len(x) == len(y) and all(match_part(interp, p, q)
                                        for p, q in zip(x, y))
    return same(interp.ctx, a, b, [])


class ParameterText(Proof):
    """str of a parameter."""
    cls_name = None
    method = '__str__'

    def setup(self, interp):
        from paradigm._core import annotated, models
        layout = sig_input.Layout(models)
        interp.ctx.contracts[annotated.to_repr] = to_repr
        cls = getattr(models, self.cls_name)
        self.p = SymParameter(interp, layout, cls, 'p_')
        self.models = models

        def call():
            f = str if self.method == '__str__' else repr
            actual = interp.call(f, [self.p.object], {})
            return VTup([Lit(actual), Lit(self.expected(interp))])
        return call

    def expected(self, interp):
        p, branch = self.p, interp.ctx.branch
        K = self.models.ParameterKind
        annotation = Part('to_repr', SVal(p.annotation))
        optional = self.cls_name == 'OptionalParameter'
        if self.method == '__repr__':
            parts = [f'{self.cls_name}(annotation=', annotation, ', ']
            if optional and branch(p.has):
                parts += ['default=', Part('to_repr', SVal(p.default)), ', ']
            kind = next(k for k in K if k is list(K)[-1]
                        or branch(p.kind == int(k)))
            parts += [f'kind={kind!r}, name=', Part('repr', SStr(p.name)),
                      ')']
            return VStr(parts)
        stars = ''
        if optional:
            if branch(p.kind == int(K.VARIADIC_POSITIONAL)):
                stars = '*'
            elif branch(p.kind == int(K.VARIADIC_KEYWORD)):
                stars = '**'
        parts = [stars, SStr(p.name), ': ', annotation]
        if optional and branch(p.has):
            parts += [' = ', Part('to_repr', SVal(p.default))]
        return VStr(parts)

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('it raises nothing', z3.BoolVal(False))]
        actual, expected = (p.value for p in value.pieces)
        return [('the text has the parts in the order',
                 matches(interp, actual, expected))]


def member_text(op):
    def contract(interp, args, kwargs):
        v = interp.force(args[0].value)
        if not isinstance(v, Inst) or v.ident is None:
            raise Unsupported('text of an unknown object')
        return VStr([Part(op, SVal(v.ident[1]))])
    return contract


def texts_of(piece, op):
    """Texts of the members of a run."""
    return Gen(piece.n, piece.iv, VStr([Part(op, SVal(
            piece.tmpl.ident[1]))]))


class SignatureText(ParameterText):
    cls_name = 'PlainSignature'

    def setup(self, interp):
        from paradigm._core import annotated, models
        layout = sig_input.Layout(models)
        contracts = interp.ctx.contracts
        contracts[annotated.to_repr] = to_repr
        self.op = f'{self.method} of a parameter'
        for cls in (models.RequiredParameter, models.OptionalParameter):
            contracts[getattr(cls, self.method)] = member_text(self.op)
        self.sig = sig_input.SymSignature(interp, layout)

        def call():
            f = str if self.method == '__str__' else repr
            actual = interp.call(f, [self.sig.object], {})
            return VTup([Lit(actual), Lit(self.expected(interp))])
        return call

    def expected(self, interp):
        sig, branch = self.sig, interp.ctx.branch
        runs = dict(zip(sig_input.SEGMENTS, (texts_of(p, self.op)
                                             for p in sig.pieces)))
        returns = Part('to_repr', sig.returns)
        pieces = []
        if self.method == '__repr__':
            pieces = interp.clean(list(runs.values()))
            start = f'{self.cls_name}('
            if any(branch(sig.n[seg] > 0) for seg in sig_input.SEGMENTS):
                return VStr([start, Join(', ', pieces), ', returns=',
                             returns, ')'])
            return VStr([start, 'returns=', returns, ')'])
        pieces.append(runs['PO'])
        if branch(sig.n['PO'] > 0):
            pieces.append(Lit('/'))
        pieces += [runs['PK'], runs['VP']]
        if branch(z3.And(sig.n['KO'] > 0, sig.n['VP'] == 0)):
            pieces.append(Lit('*'))
        pieces += [runs['KO'], runs['VK']]
        return VStr(['(', Join(', ', interp.clean(pieces)), ') -> ',
                     returns])


class OverloadedText(ParameterText):
    cls_name = 'OverloadedSignature'

    def setup(self, interp):
        from paradigm._core import models
        from .model_equality import SymOverloaded
        layout = sig_input.Layout(models)
        self.op = f'{self.method} of a signature'
        interp.ctx.contracts[getattr(models.PlainSignature, self.method)] = (
            member_text(self.op))
        self.sig = SymOverloaded(interp, layout, 'o_')
        (_, members), = self.sig.object.fields.values()
        self.run, = members.pieces

        def call():
            f = str if self.method == '__str__' else repr
            actual = interp.call(f, [self.sig.object], {})
            return VTup([Lit(actual), Lit(self.expected(interp))])
        return call

    def expected(self, interp):
        run = texts_of(self.run, self.op)
        if self.method == '__repr__':
            return VStr([f'{self.cls_name}(', Join(', ', [run]), ')'])
        return VStr([Join(' | ', [run])])


def proofs(method):
    f = {'__str__': 'str', '__repr__': 'repr'}[method]
    return [type(f'{base.__name__}_{name}_{f}', (base,), {
        'name': f'{f} of {name}', 'cls_name': name, 'method': method,
        'functions': (f'{name}.{method}',)})
        for base, name in ((ParameterText, 'RequiredParameter'),
                           (ParameterText, 'OptionalParameter'),
                           (SignatureText, 'PlainSignature'),
                           (OverloadedText, 'OverloadedSignature'))]
