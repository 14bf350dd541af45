"""
Symbolic well-formed signatures and arguments of symbolic sizes.

The invariant of ``PlainSignature`` (established by its constructor, see C05)
is the precondition here: five runs of parameters ordered by kind, at most one
parameter of each variadic kind, unique names, no required positional after
an optional one, variadic parameters being optional without default.
"""
import inspect

import z3

from pyvc.core import (INT, BOOL, StrS, ValS, Cases, Entry, Gen, Inst, Lit,
                       SBool, SEnum, SStr, SVal, TRUE, Unsupported, VTup, gen,
                       new_iv)

SEGMENTS = 'PO', 'PK', 'VP', 'KO', 'VK'


class Layout:
    """Where instances keep what they are constructed from."""

    def __init__(self, models):
        K = models.ParameterKind
        self.models = models
        annotation, default = object(), object()
        required = models.RequiredParameter(annotation=annotation,
                                            kind=K.KEYWORD_ONLY, name='name')
        self.required = self.match(required, {
            'annotation': annotation, 'kind': K.KEYWORD_ONLY,
            'name': 'name'})
        optional = models.OptionalParameter(annotation=annotation,
                                            default=default,
                                            kind=K.KEYWORD_ONLY, name='name')
        bare = models.OptionalParameter(annotation=annotation,
                                        kind=K.KEYWORD_ONLY, name='name')
        self.optional = self.match(optional, {
            'annotation': annotation, 'kind': K.KEYWORD_ONLY, 'name': 'name',
            'default': default, 'has_default': True})
        self.bare_default = {}
        for key, slot in self.optional.items():
            if key == 'default':
                if hasattr(bare, slot):
                    self.bare_default['value'] = getattr(bare, slot)
        returns = object()
        signature = models.PlainSignature(required, returns=returns)
        self.plain = self.match(signature, {'parameters': (required,),
                                            'returns': returns})
        other = models.PlainSignature(returns=returns)
        overloaded = models.OverloadedSignature(signature, other)
        self.overloaded = self.match(overloaded,
                                     {'signatures': (signature, other)})

    def match(self, instance, known):
        slots = []
        for cls in type(instance).__mro__:
            declared = vars(cls).get('__slots__', ())
            if isinstance(declared, str):
                declared = declared,
            slots.extend(declared)
        if hasattr(instance, '__dict__'):
            slots.extend(vars(instance))
        result = {}
        for slot in slots:
            value = getattr(instance, slot)
            for key, expected in known.items():
                if key in result:
                    continue
                same = (value is expected if not isinstance(
                        expected, (tuple, str)) else (
                        type(value) is type(expected) and value == expected))
                if same:
                    result[key] = slot
                    break
            else:
                raise Unsupported(f'{type(instance).__name__} keeps data '
                                  f'in unknown form: {slot}')
        missing = known.keys() - result.keys() - {'has_default'}
        if missing:
            raise Unsupported(f'{type(instance).__name__} does not keep '
                              f'{missing}')
        return result


class SymSignature:
    """Signature of symbolic size along with its logical view."""

    def __init__(self, interp, layout, tag='', kinds_of_ko=True):
        ctx = interp.ctx
        self.layout, self.tag = layout, tag
        models = layout.models
        K = models.ParameterKind
        self.kinds = {'PO': K.POSITIONAL_ONLY,
                      'PK': K.POSITIONAL_OR_KEYWORD,
                      'VP': K.VARIADIC_POSITIONAL, 'KO': K.KEYWORD_ONLY,
                      'VK': K.VARIADIC_KEYWORD}
        self.n, self.name, self.opt, self.has_default = {}, {}, {}, {}
        self.annotation, self.default = {}, {}
        self.member, self.index = {}, {}
        i, j = z3.Ints('$si $sj')
        s = z3.Const('$ss', StrS)
        pieces = []
        self.segment_of = z3.Function(f'{tag}seg', StrS, INT)
        self.index_of = z3.Function(f'{tag}idx', StrS, INT)
        for number, seg in enumerate(SEGMENTS):
            n = z3.Int(f'{tag}n_{seg}')
            self.n[seg] = n
            ctx.axioms.append(n >= 0)
            if seg in ('VP', 'VK'):
                ctx.axioms.append(n <= 1)
            name = z3.Function(f'{tag}name_{seg}', INT, StrS)
            opt = z3.Function(f'{tag}opt_{seg}', INT, BOOL)
            has = z3.Function(f'{tag}hasdef_{seg}', INT, BOOL)
            ann = z3.Function(f'{tag}ann_{seg}', INT, ValS)
            default = z3.Function(f'{tag}default_{seg}', INT, ValS)
            self.name[seg], self.annotation[seg] = name, ann
            self.default[seg] = default
            if seg in ('VP', 'VK'):
                self.opt[seg] = lambda x: TRUE
                self.has_default[seg] = lambda x: z3.BoolVal(False)
            else:
                self.opt[seg] = lambda x, opt=opt: opt(x)
                self.has_default[seg] = lambda x, has=has: has(x)
            ctx.axioms.append(z3.ForAll([i], z3.Implies(
                    z3.And(0 <= i, i < n),
                    z3.And(self.segment_of(name(i)) == number,
                           self.index_of(name(i)) == i)),
                    patterns=[name(i)]))
            member = z3.Function(f'{tag}in_{seg}', StrS, BOOL)
            self.member[seg] = member
            ctx.axioms.append(z3.ForAll([s], member(s) == z3.And(
                    self.segment_of(s) == number, 0 <= self.index_of(s),
                    self.index_of(s) < n, name(self.index_of(s)) == s),
                    patterns=[member(s)]))
            ctx.axioms.append(z3.ForAll([i], z3.Implies(
                    z3.And(0 <= i, i < n), member(name(i))),
                    patterns=[name(i)]))
            ctx.injections[name.name()] = (
                lambda v, member=member, n=n: (member(v),
                                               self.index_of(v), n))
            pieces.append(self.segment(interp, seg))
        # a required positional never follows an optional one
        po, pk = self.opt['PO'], self.opt['PK']
        n_po, n_pk = self.n['PO'], self.n['PK']
        ctx.axioms += [
            z3.ForAll([i, j], z3.Implies(
                    z3.And(0 <= i, i < j, j < n_po, po(i)), po(j)),
                    patterns=[z3.MultiPattern(po(i), po(j))]),
            z3.ForAll([i, j], z3.Implies(
                    z3.And(0 <= i, i < j, j < n_pk, pk(i)), pk(j)),
                    patterns=[z3.MultiPattern(pk(i), pk(j))]),
            z3.ForAll([i, j], z3.Implies(
                    z3.And(0 <= i, i < n_po, 0 <= j, j < n_pk, po(i)),
                    pk(j)), patterns=[z3.MultiPattern(po(i), pk(j))]),
        ]
        self.pieces = pieces
        self.returns = SVal(z3.Const(f'{tag}returns', ValS))
        self.object = Inst(ctx.oid(), models.PlainSignature, {
            layout.plain['parameters']: (TRUE, VTup(pieces)),
            layout.plain['returns']: (TRUE, self.returns)})

    def segment(self, interp, seg):
        layout = self.layout
        models = layout.models
        kind = self.kinds[seg]

        def make(iv):
            opt = self.opt[seg](iv)
            has = self.has_default[seg](iv)
            annotation = SVal(self.annotation[seg](iv))
            name = SStr(self.name[seg](iv))
            fields = {}
            required, optional = layout.required, layout.optional
            for key, value in (('annotation', annotation), ('kind', kind),
                               ('name', name)):
                if required[key] == optional[key]:
                    fields[required[key]] = (TRUE, value)
                else:
                    fields[required[key]] = (z3.Not(opt), value)
                    fields[optional[key]] = (opt, value)
            if 'has_default' in optional:
                fields[optional['has_default']] = (opt, SBool(has))
            if layout.bare_default:
                raise Unsupported('representation of defaults')
            fields[optional['default']] = (z3.simplify(z3.And(opt, has)),
                                           SVal(self.default[seg](iv)))
            cls = (models.OptionalParameter if seg in ('VP', 'VK')
                   else Cases([(opt, models.OptionalParameter),
                               (z3.Not(opt), models.RequiredParameter)]))
            ident = z3.Function(f'{self.tag}param_{seg}', INT, ValS)
            return Inst(0, cls, fields, ('param', ident(iv)))

        iv = new_iv()
        template = make(iv)
        template.oid = interp.ctx.oid()
        template.frozen = True
        return Gen(self.n[seg], iv, template)


class SymArguments:
    def __init__(self, interp, tag=''):
        ctx = interp.ctx
        self.nargs = z3.Int(f'{tag}nargs')
        self.nkw = z3.Int(f'{tag}nkw')
        self.arg = z3.Function(f'{tag}arg', INT, ValS)
        self.kwname = z3.Function(f'{tag}kwname', INT, StrS)
        self.kwindex = z3.Function(f'{tag}kwindex', StrS, INT)
        self.kwval = z3.Function(f'{tag}kwval', StrS, ValS)
        self.has = z3.Function(f'{tag}K', StrS, BOOL)
        i = z3.Int('$ki')
        s = z3.Const('$ks', StrS)
        ctx.axioms += [
            self.nargs >= 0, self.nkw >= 0,
            z3.ForAll([i], z3.Implies(
                    z3.And(0 <= i, i < self.nkw),
                    z3.And(self.has(self.kwname(i)),
                           self.kwindex(self.kwname(i)) == i)),
                    patterns=[self.kwname(i)]),
            z3.ForAll([s], z3.Implies(
                    self.has(s),
                    z3.And(0 <= self.kwindex(s), self.kwindex(s) < self.nkw,
                           self.kwname(self.kwindex(s)) == s)),
                    patterns=[self.has(s)]),
        ]
        ctx.injections[self.kwname.name()] = (
            lambda v: (self.has(v), self.kwindex(v), self.nkw))
        self.args = [gen(self.nargs, lambda iv: SVal(self.arg(iv)))]
        iv = new_iv()
        key = SStr(self.kwname(iv))
        entry = Entry(ctx.oid(), key, SVal(self.kwval(key.t)))
        entry.frozen = True
        self.kwargs = interp.new_dict([Gen(self.nkw, iv, entry)])


def no_sentinel(interp, layout, *terms):
    """
    Values of users are not the private mark of the absence of default.
    """
    mark = sentinel(layout)
    if mark is not None:
        c = interp.ctx.host_const(mark)
        interp.ctx.axioms += [t != c for t in terms]


def sentinel(layout):
    try:
        mark = inspect.signature(
                layout.models.OptionalParameter).parameters['default'].default
    except (KeyError, TypeError, ValueError):
        return None
    return None if mark is inspect.Parameter.empty else mark


def no_sentinels(interp, layout, sig=None, args=None):
    mark = sentinel(layout)
    if mark is None:
        return
    ctx = interp.ctx
    c = ctx.host_const(mark)
    i = z3.Int('$ki')
    s = z3.Const('$ks', StrS)
    if sig is not None:
        ctx.axioms += [z3.ForAll([i], sig.default[seg](i) != c,
                                 patterns=[sig.default[seg](i)])
                       for seg in SEGMENTS]
    if args is not None:
        ctx.axioms.append(z3.ForAll([s], args.kwval(s) != c,
                                    patterns=[args.kwval(s)]))


def accepts(sig, args):
    """The arguments can be passed, maybe along with others."""
    n, K, nargs = sig.n, args.has, args.nargs
    i = z3.Int('$ai')
    s = z3.Const('$as', StrS)
    po, pk = n['PO'], n['PK']
    return [
        z3.Or(nargs <= po + pk, n['VP'] > 0),
        z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < pk, po + i < nargs),
                z3.Not(K(sig.name['PK'](i))))),
        z3.Or(n['VK'] > 0, z3.ForAll([s], z3.Implies(
                K(s), z3.Or(sig.member['PK'](s), sig.member['KO'](s))))),
    ]


def complete(sig, args):
    """No parameter without default is left without an argument."""
    n, K, nargs = sig.n, args.has, args.nargs
    i = z3.Int('$ai')
    po, pk, ko = n['PO'], n['PK'], n['KO']
    return [
        z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < po), z3.Or(i < nargs,
                                              sig.opt['PO'](i)))),
        z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < pk),
                z3.Or(po + i < nargs, K(sig.name['PK'](i)),
                      sig.opt['PK'](i)))),
        z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < ko),
                z3.Or(K(sig.name['KO'](i)), sig.opt['KO'](i)))),
    ]


def binds(sig, args):
    return z3.And(*accepts(sig, args), *complete(sig, args))


def expects(sig, args):
    return z3.And(*accepts(sig, args))
