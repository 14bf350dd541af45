"""Contracts of the constructors of parameters and signatures."""
import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, StrS, ValS, Cases, Gen, Inst, SBool, SEnum,
                       SInt, SStr, SVal, TRUE, Unsupported, VTup, new_iv)

from . import lists, params, sig_input


class SymParameters:
    """List of any parameters: kinds are arbitrary."""

    def __init__(self, interp, layout, tag=''):
        ctx = interp.ctx
        self.layout = layout
        models = layout.models
        self.n = z3.Int(f'{tag}n')
        self.name = z3.Function(f'{tag}name', INT, StrS)
        self.kind = z3.Function(f'{tag}kind', INT, INT)
        self.opt = z3.Function(f'{tag}opt', INT, BOOL)
        self.has = z3.Function(f'{tag}has', INT, BOOL)
        self.ann = z3.Function(f'{tag}ann', INT, ValS)
        self.default = z3.Function(f'{tag}default', INT, ValS)
        self.id = z3.Function(f'{tag}param', INT, ValS)
        i = z3.Int('$pi')
        K = models.ParameterKind
        self.K = K
        kinds = sorted(int(k) for k in K)
        ctx.axioms += [
            self.n >= 0,
            z3.ForAll([i], z3.And(
                    z3.Or(*[self.kind(i) == k for k in kinds]),
                    # the contract of the constructors of parameters
                    z3.Implies(self.variadic(i), z3.And(
                            self.opt(i), z3.Not(self.has(i))))),
                      patterns=[self.kind(i)])]
        iv = new_iv()
        opt = self.opt(iv)
        fields = {}
        required, optional = layout.required, layout.optional
        for key, value in (('annotation', SVal(self.ann(iv))),
                           ('kind', SEnum(K, self.kind(iv))),
                           ('name', SStr(self.name(iv)))):
            if required[key] == optional[key]:
                fields[required[key]] = (TRUE, value)
            else:
                fields[required[key]] = (z3.Not(opt), value)
                fields[optional[key]] = (opt, value)
        if 'has_default' in optional:
            fields[optional['has_default']] = (opt, SBool(self.has(iv)))
        if layout.bare_default:
            raise Unsupported('representation of defaults')
        fields[optional['default']] = (z3.And(opt, self.has(iv)),
                                       SVal(self.default(iv)))
        template = Inst(ctx.oid(), Cases([
            (opt, models.OptionalParameter),
            (z3.Not(opt), models.RequiredParameter)]),
            fields, ('param', self.id(iv)))
        template.frozen = True
        self.gen = Gen(self.n, iv, template)

    def variadic(self, i):
        return z3.Or(self.kind(i) == int(self.K.VARIADIC_POSITIONAL),
                     self.kind(i) == int(self.K.VARIADIC_KEYWORD))

    def positional(self, i):
        return z3.Or(self.kind(i) == int(self.K.POSITIONAL_ONLY),
                     self.kind(i) == int(self.K.POSITIONAL_OR_KEYWORD))

    # well-formedness: every pair of positions

    def pair(self, i, j):
        return {
            'names are unique': self.name(i) != self.name(j),
            'kinds are ordered': self.kind(i) <= self.kind(j),
            'variadic parameters are unique': z3.Not(z3.And(
                    self.kind(i) == self.kind(j), self.variadic(j))),
            'required positional do not follow optional ones': z3.Not(
                    z3.And(self.positional(i), self.positional(j),
                           self.opt(i), z3.Not(self.opt(j)))),
        }

    def well_formed(self):
        i, j = z3.Ints('$pi $pj')
        return {label: z3.ForAll([i, j], z3.Implies(
                z3.And(0 <= i, i < j, j < self.n), goal))
            for label, goal in self.pair(i, j).items()}

    # facts for the induction over the distance of positions

    def adjacent(self, i):
        """What is known of neighbours."""
        kinds = self.kind(i) <= self.kind(i + 1)
        opts = z3.Not(z3.And(self.positional(i), self.positional(i + 1),
                             self.opt(i), z3.Not(self.opt(i + 1))))
        return kinds, opts

    def induction(self):
        """
        Lemma: ordered neighbours mean ordered pairs. The step is discharged
        as an obligation of its own (``InductionStep``).
        """
        i, j = z3.Ints('$pi $pj')
        inside = z3.And(0 <= i, i + 1 < self.n)
        kinds = z3.ForAll([i], z3.Implies(inside, self.adjacent(i)[0]),
                          patterns=[self.kind(i)])
        opts = z3.ForAll([i], z3.Implies(inside, self.adjacent(i)[1]),
                         patterns=[self.opt(i)])
        far = z3.And(0 <= i, i < j, j < self.n)
        pair = self.pair(i, j)
        return [
            z3.Implies(kinds, z3.ForAll([i, j], z3.Implies(
                    far, pair['kinds are ordered']),
                patterns=[z3.MultiPattern(self.kind(i), self.kind(j))])),
            z3.Implies(z3.And(kinds, opts), z3.ForAll([i, j], z3.Implies(
                    far, pair['required positional do not follow '
                              'optional ones']),
                patterns=[z3.MultiPattern(self.opt(i), self.opt(j))])),
        ]


class InductionStep(Proof):
    """From the pair (i, j) and neighbours to the pair (i, j + 1)."""
    name = 'lemma: ordered neighbours mean ordered pairs (induction step)'
    assumptions = ('the principle of mathematical induction over positions '
                   'is applied by the harness, its step is discharged',)

    def setup(self, interp):
        from paradigm._core import models
        self.p = SymParameters(interp, sig_input.Layout(models))
        return lambda: None

    def post(self, interp, kind, value):
        p = self.p
        i, j = z3.Ints('$pi $pj')
        kinds, opts = p.adjacent(j)
        ordered = 'kinds are ordered'
        required = 'required positional do not follow optional ones'
        # the distance of one is the assumption itself
        return [
            ('base: kinds', z3.Implies(p.adjacent(i)[0],
                                       p.pair(i, i + 1)[ordered])),
            ('base: optional', z3.Implies(p.adjacent(i)[1],
                                          p.pair(i, i + 1)[required])),
            ('step: kinds', z3.Implies(
                    z3.And(i < j, p.pair(i, j)[ordered], kinds),
                    p.pair(i, j + 1)[ordered])),
            ('step: optional', z3.Implies(
                    z3.And(i < j, p.pair(i, j)[required], kinds, opts,
                           p.pair(i, j)[ordered]),
                    p.pair(i, j + 1)[required])),
        ]


class Construct(Proof):
    name = 'PlainSignature.__new__'
    functions = ('PlainSignature.__new__',)
    assumptions = ('the given parameters are made by the constructors '
                   'of parameters: variadic ones are optional without '
                   'default',)

    def setup(self, interp):
        from paradigm._core import models
        self.layout = layout = sig_input.Layout(models)
        self.p = p = SymParameters(interp, layout)
        self.returns = SVal(z3.Const('returns', ValS))
        interp.ctx.axioms += p.induction()
        return lambda: interp.call(models.PlainSignature, [p.gen],
                                   {'returns': self.returns})

    def expect_kinds(self):
        return 'return', 'raise'

    def covers(self, interp):
        p = self.p
        good = z3.And(*p.well_formed().values())
        return [('a well-formed list', z3.And(p.n == 3, good)),
                ('an ill-formed list', z3.And(p.n == 3, z3.Not(good)))]

    def post(self, interp, kind, value):
        p = self.p
        good = p.well_formed()
        if kind == 'raise':
            return [('the error is ValueError',
                     z3.BoolVal(value.cls is ValueError)),
                    ('only ill-formed lists are rejected',
                     z3.Not(z3.And(*good.values())))]
        value = interp.force(value)
        models = self.layout.models
        if not (isinstance(value, Inst)
                and value.cls is models.PlainSignature):
            return [('the result is a plain signature', z3.BoolVal(False))]
        result = [(f'accepted lists are well-formed: {label}', goal)
                  for label, goal in good.items()]
        parameters = value.fields.get(self.layout.plain['parameters'])
        returns = value.fields.get(self.layout.plain['returns'])
        if parameters is None or returns is None:
            return [('the result is complete', z3.BoolVal(False))]
        expected = z3.Function('val_of_param', ValS, ValS)
        for label, found in (
                ('parameters are kept as given', parameters[1]),
                ('parameters are reported as given',
                 interp.getattr(value, 'parameters'))):
            result += lists.equal(interp, label,
                                  lists.pieces_of(interp, found), p.n,
                                  lambda i: expected(p.id(i)))
        for label, found in (('the returned annotation is kept', returns[1]),
                             ('the returned annotation is reported',
                              interp.getattr(value, 'returns'))):
            result.append((label, interp.as_val(found) == self.returns.t))
        return result


class Parameter(Proof):
    """Contract of a constructor of parameters."""
    cls = None
    default = False
    valid = True

    def setup(self, interp):
        from paradigm._core import models
        self.layout = sig_input.Layout(models)
        K = models.ParameterKind
        self.K = K
        self.kind = z3.Int('kind')
        interp.ctx.axioms.append(z3.Or(*[self.kind == int(k) for k in K]))
        self.given = {'annotation': SVal(z3.Const('annotation', ValS)),
                      'kind': (SEnum(K, self.kind) if self.valid
                               else self.foreign(interp)),
                      'name': SStr(z3.Const('name', StrS))}
        if self.default:
            self.given['default'] = SVal(z3.Const('default', ValS))
            sig_input.no_sentinel(interp, self.layout,
                                  self.given['default'].t)
        cls = getattr(models, self.cls)
        return lambda: interp.call(cls, [], dict(self.given))

    def foreign(self, interp):
        K = self.K
        known = {}

        def is_instance(interp, value, classes):
            classes = classes if isinstance(classes, tuple) else (classes,)
            if all(issubclass(cls, K) for cls in classes):
                return False
            key = tuple(classes)
            if key not in known:
                known[key] = z3.Bool(f'foreign_isinstance_{len(known)}')
            return known[key]

        return SVal(z3.Const('not_a_kind', ValS), {
            'isinstance': is_instance,
            'type': lambda interp, value: SVal(z3.Const('its_type', ValS))})

    def expect_kinds(self):
        if not self.valid:
            return 'raise',
        if self.cls == 'OptionalParameter' and not self.default:
            return 'return',
        return 'return', 'raise'

    def rejected(self):
        variadic = z3.Or(self.kind == int(self.K.VARIADIC_POSITIONAL),
                         self.kind == int(self.K.VARIADIC_KEYWORD))
        return (variadic if self.cls == 'RequiredParameter' or self.default
                else z3.BoolVal(False))

    def post(self, interp, kind, value):
        expected = ValueError if self.valid else TypeError
        if kind == 'raise':
            return [(f'the error is {expected.__name__}',
                     z3.BoolVal(value.cls is expected)),
                    ('only invalid arguments are rejected',
                     self.rejected() if self.valid else TRUE)]
        if not self.valid:
            return [('values which are no kinds are rejected',
                     z3.BoolVal(False))]
        value = interp.force(value)
        cls = getattr(self.layout.models, self.cls)
        if not isinstance(value, Inst) or value.cls is not cls:
            return [('the result is a parameter of the class',
                     z3.BoolVal(False))]
        result = [('invalid arguments are not accepted',
                   z3.Not(self.rejected()))]
        for key, given in self.given.items():
            found = interp.getattr(value, key)
            if key == 'kind':
                goal = params.int_term(interp, found) == self.kind
            elif key == 'name':
                goal = params.str_term(interp, found) == given.t
            else:
                goal = interp.as_val(found) == given.t
            result.append((f'{key} is reported as given', goal))
        if self.cls == 'OptionalParameter':
            flag = interp.truth_formula(interp.getattr(value, 'has_default'))
            flag = z3.BoolVal(flag) if isinstance(flag, bool) else flag
            result.append(('presence of default is reported',
                           flag == z3.BoolVal(self.default)))
        return result


class Required(Parameter):
    name = 'RequiredParameter.__new__'
    functions = ('RequiredParameter.__new__', '_validate_kind')
    cls = 'RequiredParameter'


class Optional(Parameter):
    name = 'OptionalParameter.__new__ without default'
    functions = ('OptionalParameter.__new__', '_validate_kind')
    cls = 'OptionalParameter'


class Defaulted(Optional):
    name = 'OptionalParameter.__new__ with default'
    default = True
    assumptions = ('the default is not the private mark of its absence',)


class RequiredForeign(Required):
    name = 'RequiredParameter.__new__ given no kind'
    valid = False


class OptionalForeign(Optional):
    name = 'OptionalParameter.__new__ given no kind'
    valid = False
