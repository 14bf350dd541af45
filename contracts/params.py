"""Logical view of lists of parameters made by the verified functions."""
import z3

from pyvc.core import (BOOL, INT, StrS, ValS, Cases, Gen, Inst, Lit, Part,
                       SInt, SStr, Sub, TRUE, Unsupported, VIte, VStr, VTup,
                       new_iv, subst)

from .sig_input import SEGMENTS


# text of a prefix and a number
NUMBERED = z3.Function('numbered', StrS, INT, StrS)


class View:
    """Terms describing one parameter."""

    def __init__(self, name, kind, opt, has, annotation, default):
        self.name, self.kind, self.opt, self.has = name, kind, opt, has
        self.annotation, self.default = annotation, default


def if_(c, a, b):
    return a if a.eq(b) else z3.If(c, a, b)


def view(interp, layout, value):
    if isinstance(value, VIte):
        a, b = (view(interp, layout, value.a), view(interp, layout, value.b))
        return View(*[if_(value.c, getattr(a, k), getattr(b, k))
                      for k in ('name', 'kind', 'opt', 'has', 'annotation',
                                'default')])
    models = layout.models
    if not isinstance(value, Inst):
        if isinstance(value, (models.RequiredParameter,
                              models.OptionalParameter)):
            raise Unsupported('concrete parameter')
        raise Unsupported(f'not a parameter: {value!r}'[:120])
    options = (value.cls.options if isinstance(value.cls, Cases)
               else [(TRUE, value.cls)])
    opt = z3.simplify(z3.Or(*[c for c, k in options
                              if k is models.OptionalParameter]))
    if any(k not in (models.OptionalParameter, models.RequiredParameter)
           for _, k in options):
        raise Unsupported('not a parameter')
    required, optional = layout.required, layout.optional

    def get(key, convert):
        result = get_any(key, convert)
        if result is None:
            raise Unsupported(f'{key} of a parameter is not set: {value!r}'
                              [:300])
        return result

    def get_any(key, convert):
        a = value.fields.get(required.get(key)) if key in required else None
        b = value.fields.get(optional[key])
        if a is None and b is None:
            return None
        if a is None or a is b or required.get(key) == optional[key]:
            return convert((b or a)[1])
        if b is None:
            return convert(a[1])
        return if_(opt, convert(b[1]), convert(a[1]))

    name = get('name', lambda v: str_term(interp, v))
    kind = get('kind', lambda v: int_term(interp, v))
    annotation = get('annotation', interp.as_val)
    default = value.fields.get(optional['default'])
    if 'has_default' in optional:
        flag = value.fields.get(optional['has_default'])
        has = (z3.BoolVal(False) if flag is None
               else bool_term(interp, flag[1]))
    else:
        has = z3.BoolVal(False) if default is None else default[0]
    has = z3.simplify(z3.And(opt, has))
    default = (z3.Const('$nodefault', ValS) if default is None
               else interp.as_val(default[1]))
    return View(name, kind, opt, has, annotation, default)


def str_term(interp, v):
    if isinstance(v, VIte):
        return z3.If(v.c, str_term(interp, v.a), str_term(interp, v.b))
    if (isinstance(v, VStr) and len(v.parts) == 2
            and isinstance(v.parts[0], str)
            and isinstance(v.parts[1], Part) and v.parts[1].op == 'str'
            and isinstance(v.parts[1].value, SInt)):
        return NUMBERED(interp.as_str(v.parts[0]), v.parts[1].value.t)
    result = interp.as_str(v)
    if result is None:
        raise Unsupported(f'not a text: {v!r}'[:100])
    return result


def int_term(interp, v):
    if isinstance(v, VIte):
        return z3.If(v.c, int_term(interp, v.a), int_term(interp, v.b))
    result = interp.as_int(v)
    if result is None:
        raise Unsupported(f'not a number: {v!r}'[:100])
    return result


def bool_term(interp, v):
    result = interp.truth_formula(v)
    return z3.BoolVal(result) if isinstance(result, bool) else result


def flat(pieces):
    """Runs of runs are not flattened: they have no closed form here."""
    for p in pieces:
        if isinstance(p, Gen) and isinstance(p.tmpl, Sub):
            raise Unsupported('nested runs in a list of parameters')
    return list(pieces)


class Run:
    """Generic element of a piece of a list."""

    def __init__(self, interp, layout, piece):
        if isinstance(piece, Lit):
            self.iv = None
            self.range = TRUE
            value = piece.value
        else:
            self.iv = new_iv()
            self.range = z3.And(0 <= self.iv, self.iv < piece.n,
                                piece.guard_at(self.iv))
            value = subst(piece.tmpl, [(piece.iv, self.iv)])
        self.view = view(interp, layout, value)


def position(sig, name):
    """Place of the named parameter in the signature."""
    return sig.segment_of(name), sig.index_of(name)


def before(a, b):
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], a[1] < b[1]))


def known(sig, name):
    return z3.Or(*[sig.member[seg](name) for seg in SEGMENTS])


def names_of(interp, layout, pieces):
    result = []
    for p in pieces:
        if isinstance(p, Lit):
            result.append(Lit(SStr(view(interp, layout, p.value).name)))
        else:
            result.append(Gen(p.n, p.iv, SStr(view(interp, layout,
                                                   p.tmpl).name), p.guard))
    return VTup(result)


def sublist(interp, sig, pieces, kept, expected):
    """
    Obligations of the list being made of exactly the kept parameters of the
    signature in their order, with the expected attributes.

    ``kept(seg, i)`` - formula, ``expected(seg, i)`` - ``View``.
    """
    layout = sig.layout
    pieces = flat(pieces)
    result = []
    runs, again = ([Run(interp, layout, p) for p in pieces]
                   for _ in range(2))
    for number, run in enumerate(runs):
        v = run.view
        place = f'element of the result (run {number})'
        hyp = run.range
        result.append((f'{place} comes from the signature',
                       z3.Implies(hyp, known(sig, v.name))))
        for seg in SEGMENTS:
            i = sig.index_of(v.name)
            here = z3.And(hyp, sig.member[seg](v.name))
            e = expected(seg, i)
            result += [
                (f'{place} is among the parameters left',
                 z3.Implies(here, kept(seg, i))),
                (f'{place} has the proper kind',
                 z3.Implies(here, v.kind == e.kind)),
                (f'{place} is optional properly',
                 z3.Implies(here, v.opt == e.opt)),
                (f'{place} has default properly',
                 z3.Implies(z3.And(here, e.opt), v.has == e.has)),
                (f'{place} has the proper default',
                 z3.Implies(z3.And(here, e.opt, e.has),
                            v.default == e.default)),
                (f'{place} keeps the annotation',
                 z3.Implies(here, v.annotation == e.annotation)),
            ]
    for a, run in enumerate(runs):
        if run.iv is not None:
            other = again[a]
            result.append((f'run {a} of the result is ordered', z3.Implies(
                    z3.And(run.range, other.range, run.iv < other.iv),
                    before(position(sig, run.view.name),
                           position(sig, other.view.name)))))
        for b in range(a + 1, len(runs)):
            other = runs[b]
            result.append((
                f'runs {a} and {b} of the result are ordered', z3.Implies(
                        z3.And(run.range, other.range),
                        before(position(sig, run.view.name),
                               position(sig, other.view.name)))))
    names = names_of(interp, layout, pieces)
    for seg in SEGMENTS:
        i = new_iv()
        inside = interp.contains_formula(names, SStr(sig.name[seg](i)))
        if isinstance(inside, bool):
            inside = z3.BoolVal(inside)
        result.append((f'every parameter left is in the result: {seg}',
                       z3.Implies(z3.And(0 <= i, i < sig.n[seg],
                                         kept(seg, i)), inside)))
    return result


def well_formed(interp, layout, pieces):
    """Obligations of the precondition of the constructor of signatures."""
    K = layout.models.ParameterKind
    pieces = flat(pieces)
    runs, again = ([Run(interp, layout, p) for p in pieces]
                   for _ in range(2))
    result = []

    def pair(a, b, hyp, label):
        x, y = a.view, b.view
        hyp = z3.And(a.range, b.range, hyp)
        positional = z3.Or(y.kind == int(K.POSITIONAL_ONLY),
                           y.kind == int(K.POSITIONAL_OR_KEYWORD))
        result.append((f'{label}: names are unique',
                       z3.Implies(hyp, x.name != y.name)))
        result.append((f'{label}: kinds are ordered',
                       z3.Implies(hyp, x.kind <= y.kind)))
        result.append((f'{label}: required do not follow optional', z3.Implies(
                z3.And(hyp, positional, x.opt), y.opt)))
        result.append((f'{label}: variadic are unique', z3.Implies(
                z3.And(hyp, x.kind == y.kind), z3.And(
                        y.kind != int(K.VARIADIC_POSITIONAL),
                        y.kind != int(K.VARIADIC_KEYWORD)))))

    for a in range(len(runs)):
        if runs[a].iv is not None:
            pair(runs[a], again[a], runs[a].iv < again[a].iv,
                 f'constructor precondition (run {a})')
        for b in range(a + 1, len(runs)):
            pair(runs[a], runs[b], TRUE,
                 f'constructor precondition (runs {a} and {b})')
    return result
