"""Contracts of hashes: equal objects have equal hashes, none fails."""
import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, ValS, Gen, Inst, Lit, Part, SBool, SEnum,
                       SInt, SStr, SVal, Unsupported, VStr, VTup, subst)

from . import equality, model_equality, sig_input
from .model_equality import CLASSES, MAKERS, SAME

HASH = z3.Function('hash_of', ValS, INT)
HASHABLE = z3.Function('is_hashable', ValS, BOOL)
VALUE_HASH = z3.Function('hash_of_value', ValS, INT)


def term(v):
    """Term standing for a leaf."""
    if isinstance(v, (SBool, SInt, SStr, SEnum, SVal)):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(int(v))
    return None


def equal_hashes(interp, a, b):
    """Formula of equality of hashes made the same way."""
    a, b = interp.force(a), interp.force(b)
    if isinstance(a, Part) and isinstance(b, Part):
        if a.op != b.op:
            raise Unsupported('hashes of different forms')
        return equal_hashes(interp, a.value, b.value)
    if isinstance(a, VTup) and isinstance(b, VTup):
        if len(a.pieces) != len(b.pieces):
            raise Unsupported('hashes of different forms')
        return z3.And(*[equal_pieces(interp, p, q)
                        for p, q in zip(a.pieces, b.pieces)])
    x, y = term(a), term(b)
    if x is not None and y is not None and x.sort() == y.sort():
        return x == y
    if (interp.is_host(a) and interp.is_host(b)):
        if a is b:
            return z3.BoolVal(True)
        if type(a) is type(b) and isinstance(a, (str, int)):
            return z3.BoolVal(a == b)
    raise Unsupported(f'hashes of unknown form: {a}, {b}')


def equal_pieces(interp, p, q):
    if isinstance(p, Lit) and isinstance(q, Lit):
        return equal_hashes(interp, p.value, q.value)
    if (isinstance(p, Gen) and isinstance(q, Gen) and not p.filtered
            and not q.filtered):
        i = z3.FreshConst(INT, 'hi')
        return z3.And(p.n == q.n, z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < p.n),
                equal_hashes(interp, subst(p.tmpl, [(p.iv, i)]),
                             subst(q.tmpl, [(q.iv, i)])))))
    raise Unsupported('hashes of different forms')


def hash_of_value(interp, v):
    """Nothing is known of hashes of annotations and defaults."""
    if not interp.ctx.branch(HASHABLE(v.t)):
        interp.raise_(TypeError, 'unhashable')
    return SInt(VALUE_HASH(v.t))


def hash_contract(interp, args, kwargs):
    v = interp.force(args[0].value)
    if not isinstance(v, Inst) or v.ident is None:
        raise Unsupported('hash of an unknown object')
    return SInt(HASH(v.ident[1]))


class Hash(Proof):
    kind = None
    assumptions = ('hash of a tuple, a string, a number and a member of an '
                   'enumeration depends on its value only',)

    def setup(self, interp):
        from paradigm._core import annotated, models
        layout = sig_input.Layout(models)
        equality.install(interp, annotated)
        x, y = z3.Const('$hx', ValS), z3.Const('$hy', ValS)
        interp.ctx.axioms += [
            *equality.equivalence(SAME),
            z3.ForAll([x, y], z3.Implies(SAME(x, y), HASH(x) == HASH(y)),
                      patterns=[SAME(x, y)])]
        a, b = (MAKERS[self.kind](interp, layout, tag)
                for tag in ('a_', 'b_'))
        for made in (a, b):
            for _, v in made.object.fields.values():
                if isinstance(v, SVal):
                    v.schema['hash'] = hash_of_value
        interp.ctx.axioms.append(a.same(b))
        contracts = interp.ctx.contracts
        classes = {'plain': (models.RequiredParameter,
                             models.OptionalParameter),
                   'overloaded': (models.PlainSignature,)}
        for cls in classes.get(self.kind, ()):
            if not hasattr(cls.__hash__, '__code__'):
                raise Unsupported(f'hash of {cls.__name__}')
            contracts[cls.__hash__] = hash_contract
        return lambda: VTup([Lit(interp.call(hash, [made.object], {}))
                             for made in (a, b)])

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('hashing raises nothing', z3.BoolVal(False))]
        first, second = (p.value for p in value.pieces)
        return [('equal objects have equal hashes',
                 equal_hashes(interp, first, second))]


def proofs():
    return [type(f'Hash_{kind}', (Hash,), {
        'name': f'hash of {CLASSES[kind]}', 'kind': kind,
        'functions': (f'{CLASSES[kind]}.__hash__',)}) for kind in MAKERS]
