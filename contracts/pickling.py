"""
Contracts of reconstruction: what pickle and copy make of an object out of
what its class tells them.
"""
import z3

from harness.proof import Proof
from pyvc.core import DictObj, Inst, Lit, SBool, TRUE, Unsupported, VTup
from pyvc.loops import same

from . import binding, lists, params, sig_input
from .model_equality import CLASSES, MAKERS

HOOKS = ('__reduce__', '__reduce_ex__', '__getstate__', '__setstate__',
         '__copy__', '__deepcopy__', '__init__', '__getattribute__',
         '__getattr__', '__setattr__', '__getnewargs__',
         '__getnewargs_ex__')


class Reconstruction(Proof):
    """
    The object made by the protocol of ``copyreg.__newobj_ex__``: the class
    called with the arguments that the object gives, then every slot which is
    set in the original is set to its value.
    """
    kind = None
    assumptions = (
        'protocol of pickle and copy: copyreg.__newobj_ex__ with what '
        '__getnewargs_ex__ or __getnewargs__ give, followed by setting of '
        'the slots',
        'copies of names, annotations, defaults and kinds made by pickle '
        'and copy are equal to the originals')

    def setup(self, interp):
        from paradigm._core import models
        self.layout = layout = sig_input.Layout(models)
        self.cls = cls = getattr(models, CLASSES[self.kind])
        own = {name for base in cls.__mro__[:-1] for name in vars(base)}
        given = own.intersection(HOOKS)
        if given - {'__getnewargs__', '__getnewargs_ex__'}:
            raise Unsupported(f'reconstruction with {sorted(given)}')
        self.construction = binding.Construction(layout)
        if self.kind == 'plain':
            self.construction.install(interp)
            self.made = sig_input.SymSignature(interp, layout)
        else:
            self.made = MAKERS[self.kind](interp, layout, 'x_')
        original = self.made.object
        self.original = original
        fields = dict(original.fields)

        def call():
            args, kwargs = [], {}
            if '__getnewargs_ex__' in given:
                pair = self.answer(interp, '__getnewargs_ex__')
                if len(pair.pieces) != 2 or not all(
                        isinstance(p, Lit) for p in pair.pieces):
                    raise Unsupported('form of arguments')
                args, kwargs = (interp.force(p.value) for p in pair.pieces)
                if not isinstance(args, VTup):
                    raise Unsupported('form of arguments')
                args = list(args.pieces)
                kwargs = (interp.plain_kwargs(kwargs)
                          if isinstance(kwargs, DictObj) else kwargs)
            elif '__getnewargs__' in given:
                args = list(self.answer(interp, '__getnewargs__').pieces)
            result = interp.force(interp.call(cls, args, kwargs))
            if not isinstance(result, Inst) or result.cls is not cls:
                return result
            for slot, (guard, v) in fields.items():
                if z3.is_true(z3.simplify(guard)):
                    result.fields[slot] = (TRUE, v)
                elif interp.ctx.branch(guard):
                    result.fields[slot] = (TRUE, v)
            return result
        return call

    def answer(self, interp, name):
        v = interp.force(interp.call(interp.getattr(self.original, name),
                                     [], {}))
        if not isinstance(v, VTup):
            raise Unsupported(f'{name} gives no tuple')
        return v

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        value = interp.force(value)
        if not isinstance(value, Inst) or value.cls is not self.cls:
            return [('the class is the same', z3.BoolVal(False))]
        result = self.construction.preconditions(interp)
        keys = {'required': ('annotation', 'kind', 'name'),
                'optional': ('annotation', 'kind', 'name', 'has_default'),
                'plain': ('parameters', 'returns'),
                'overloaded': ('signatures',)}[self.kind]
        if self.kind == 'optional':
            flag = interp.truth_formula(interp.getattr(value, 'has_default'))
            flag = z3.BoolVal(flag) if isinstance(flag, bool) else flag
            result.append(('absence of default is kept',
                           flag == self.made.has))
            if interp.ctx.branch(self.made.has):
                keys = 'default', *keys
        elif self.kind == 'required':
            if not isinstance(value.fields, dict):
                raise Unsupported('fields')
        for key in keys:
            found = interp.force(interp.getattr(value, key))
            expected = interp.force(interp.getattr(self.original, key))
            label = f'{key} is the same'
            if key == 'kind':
                goal = (params.int_term(interp, found)
                        == params.int_term(interp, expected))
            elif key == 'name':
                goal = (params.str_term(interp, found)
                        == params.str_term(interp, expected))
            elif key == 'has_default':
                continue
            elif key in ('parameters', 'signatures'):
                if not isinstance(found, VTup) or not same(
                        interp.ctx, found, expected, []):
                    raise Unsupported(f'{key}: {found}')
                goal = TRUE
            else:
                goal = interp.as_val(found) == interp.as_val(expected)
            result.append((label, goal))
        return result


def proofs():
    names = {'required': 'RequiredParameter.__getnewargs_ex__',
             'optional': 'OptionalParameter.__getnewargs_ex__',
             'plain': 'PlainSignature.__getnewargs_ex__',
             'overloaded': 'OverloadedSignature.__getnewargs__'}
    return [type(f'Reconstruct_{kind}', (Reconstruction,), {
        'name': f'reconstruction of {CLASSES[kind]}', 'kind': kind,
        'functions': (names[kind], f'{CLASSES[kind]}.__new__')})
        for kind in MAKERS]
