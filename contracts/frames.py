"""
Frame conditions: nothing that existed before the call is changed by it.

The obligations are generated from the bodies of the methods on the same
symbolic inputs which their contracts are proved for.
"""
import z3

from harness.proof import Proof
from pyvc.core import (TRUE, DictObj, Env, Inst, ListObj, SBool, SEnum, SInt,
                       SStr, SVal, Unsupported)
from pyvc.loops import same

from . import (accepting, binding, hashing, model_equality, overloading,
               pickling, texts)


class Frame:
    """Mixed into a proof: replaces its obligations."""
    query_timeout = 4000

    def setup(self, interp):
        call = super().setup(interp)
        ctx = interp.ctx

        def watched():
            ctx.frame = ctx.oids + 1
            ctx.frame_log = {}
            try:
                return call()
            finally:
                ctx.frame = None
        return watched

    def covers(self, interp):
        return []

    def expect_kinds(self):
        return ()

    def post(self, interp, kind, value):
        goals = []
        for obj, before in interp.ctx.frame_log.values():
            goals += self.unchanged(interp, obj, before)
        return goals or [('nothing given to the call is written to', TRUE)]

    def unchanged(self, interp, obj, before):
        ctx = interp.ctx
        if isinstance(obj, Env):
            raise Unsupported('variables of a function are shared')
        if isinstance(obj, Inst):
            result = []
            name = getattr(obj.cls, '__name__', 'object')
            for slot in sorted({*before, *obj.fields}):
                if slot not in before or slot not in obj.fields:
                    if slot not in before:
                        raise Unsupported(f'{name} gets {slot}')
                    result.append((f'{slot} of {name} is kept',
                                   z3.BoolVal(False)))
                    continue
                (g, v), (h, w) = before[slot], obj.fields[slot]
                result.append((f'{slot} of {name} is kept', z3.And(
                        g == h, z3.Implies(g, self.equal(interp, v, w)))))
            return result
        if isinstance(obj, (ListObj, DictObj)):
            if len(before) != len(obj.pieces) or not all(
                    same(ctx, a, b, []) for a, b in zip(before, obj.pieces)):
                raise Unsupported('a container which is given is changed')
            return []
        value, present = before
        return [('an entry which is given is kept', z3.And(
                present == obj.present,
                self.equal(interp, value, obj.value)))]

    def equal(self, interp, v, w):
        if v is w or same(interp.ctx, v, w, []):
            return TRUE
        leaves = SBool, SInt, SStr, SVal, SEnum
        if isinstance(v, leaves) and isinstance(w, leaves):
            return interp.as_val(v) == interp.as_val(w)
        raise Unsupported('another value is written')


def framed(base, name=None):
    return type(f'Framed_{base.__name__}', (Frame, base), {
        'name': f'frame of {name or base.name}',
        'functions': base.functions})


def proofs():
    compare = [p for p in model_equality.proofs()
               if issubclass(p, model_equality.Compare)
               and getattr(p, 'left', None) == getattr(p, 'right', None)
               and not issubclass(p, model_equality.Foreign)]
    return [framed(p) for p in (
            accepting.AllSet, accepting.Expects, binding.Bind,
            overloading.AllSet, overloading.Expects, overloading.Bind,
            *compare, *hashing.proofs(), *texts.proofs('__str__'),
            *texts.proofs('__repr__'), *pickling.proofs())]
