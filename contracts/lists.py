"""Comparison of lists made by the verified functions with expected ones."""
import z3

from pyvc.core import (Gen, Lit, ListObj, Sub, TRUE, Unsupported, VTup,
                       new_iv, subst)


def pieces_of(interp, value):
    value = interp.force(value)
    if isinstance(value, tuple):
        value = interp.lift(value)
    if not isinstance(value, (VTup, ListObj)):
        raise Unsupported(f'not a list: {value!r}'[:200])
    return list(value.pieces)


def runs(pieces):
    """Size, generic index and element of every run of the list."""
    result = []
    for p in pieces:
        if isinstance(p, Lit):
            result.append((z3.IntVal(1), None, p.value))
        else:
            if isinstance(p.tmpl, Sub):
                raise Unsupported('runs of runs')
            iv = new_iv()
            if not z3.is_true(z3.simplify(p.guard_at(iv))):
                raise Unsupported('positions in a filtered list')
            result.append((p.n, iv, subst(p.tmpl, [(p.iv, iv)])))
    return result


def equal(interp, label, pieces, n, at, term=None):
    """
    The list has ``n`` elements, ``at(i)`` being the i-th one (as a term).
    """
    term = interp.as_val if term is None else term
    offset = z3.IntVal(0)
    result = []
    for number, (size, iv, value) in enumerate(runs(pieces)):
        if iv is None:
            result.append((f'{label}: element (run {number})', z3.Implies(
                    offset < n, term(value) == at(offset))))
        else:
            result.append((f'{label}: element (run {number})', z3.Implies(
                    z3.And(0 <= iv, iv < size, offset + iv < n),
                    term(value) == at(z3.simplify(offset + iv)))))
        offset = offset + z3.If(size < 0, 0, size)
    return [*result, (f'{label}: size', offset == n)]


def filtered(interp, label, pieces, n, keeps, at, term):
    """
    The list consists of ``at(i)`` for those ``i`` in turn which are kept.

    One filtered run is compared pointwise; runs are supposed to be made from
    the positions in order, a list of another structure is not decided.
    """
    pieces = [p for p in pieces]
    if len(pieces) != 1 or not isinstance(pieces[0], Gen):
        raise Unsupported('list is not made by one filter')
    p = pieces[0]
    if isinstance(p.tmpl, Sub):
        raise Unsupported('runs of runs')
    iv = new_iv()
    value = subst(p.tmpl, [(p.iv, iv)])
    inside = z3.And(0 <= iv, iv < p.n)
    return [
        (f'{label}: range', p.n == n),
        (f'{label}: what is kept', z3.Implies(inside,
                                              p.guard_at(iv) == keeps(iv))),
        (f'{label}: element', z3.Implies(z3.And(inside, keeps(iv)),
                                         term(value) == at(iv))),
    ]
