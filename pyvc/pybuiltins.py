"""
Meaning of the functions and methods of the standard library
used by the functions under verification.

This file is a part of the trusted base: it is compared with CPython
by ``selfcheck.py`` on concrete inputs.
"""
import builtins
import collections
import enum
import functools
import itertools
import operator
import types

import z3

from .core import (FALSE, INT, TRUE, Bound, Cases, DequeObj, DictObj,
                   DictView, Endless, Entry, ExcVal, Func, Gen, GenObj, Inst, Join, ListObj, Lit, Part,
                   Prim, PyExc, SBool, SEnum, SInt, SStr, SVal, SetObj, Sub,
                   Sym, Unsupported, VIte, VStr, VTup, new_iv, subst)

METHODS = {}


def method(cls, *names):
    def decorator(f):
        for name in names:
            METHODS[(cls, name)] = f
        return f
    return decorator


def values_of(args, kwargs=None, low=0, high=None):
    if kwargs and (not isinstance(kwargs, DictObj) or kwargs.pieces):
        raise Unsupported('keyword arguments of a builtin')
    for a in args:
        if not isinstance(a, Lit):
            raise Unsupported('symbolic count of arguments of a builtin')
    if len(args) < low or (high is not None and len(args) > high):
        raise PyExc(TypeError, ('wrong count of arguments',))
    return [a.value for a in args]


def instance_of(interp, value, classes):
    """``isinstance`` as a formula or bool."""
    if isinstance(classes, VTup):
        classes = tuple(p.value for p in classes.pieces)
    if isinstance(classes, types.UnionType):
        classes = classes.__args__
    if isinstance(value, VIte):
        x = instance_of(interp, value.a, classes)
        y = instance_of(interp, value.b, classes)
        return z3.If(value.c, x if z3.is_expr(x) else z3.BoolVal(x),
                     y if z3.is_expr(y) else z3.BoolVal(y))
    if isinstance(value, SVal):
        hook = (value.schema or {}).get('isinstance')
        if hook is not None:
            return hook(interp, value, classes)
        if (value.schema or {}).get('class') is None:
            raise Unsupported('isinstance of an opaque object')
    if isinstance(value, Inst) and isinstance(value.cls, Cases):
        options = value.cls.options
        result = z3.BoolVal(issubclass(options[-1][1], classes))
        for c, cls in reversed(options[:-1]):
            result = z3.If(c, z3.BoolVal(issubclass(cls, classes)), result)
        return z3.simplify(result)
    if interp.is_host(value):
        return isinstance(value, classes)
    try:
        return issubclass(interp.host_class_of(value), classes)
    except TypeError as error:
        raise PyExc(TypeError, error.args)


def distinct_length(interp, v):
    pieces = v.pieces
    if all(isinstance(p, Lit) and interp.is_host(p.value) for p in pieces):
        return len({p.value for p in pieces})
    ctx = interp.ctx
    n = ctx.fresh('card', INT)
    empty = interp.nonempty(pieces)
    ctx.assume(n >= 0)
    ctx.assume((n > 0) == (empty if z3.is_expr(empty)
                           else z3.BoolVal(empty)))
    return SInt(n)


def length(interp, v):
    v = interp.force(v)
    if isinstance(v, SetObj):
        return distinct_length(interp, v)
    if isinstance(v, (VTup, ListObj)):
        return interp.mk_int(interp.seq_len(v.pieces))
    if isinstance(v, DictObj):
        return interp.mk_int(interp.seq_len(interp.materialized(
                interp.dict_pieces(v))))
    if isinstance(v, DictView):
        return length(interp, v.dict)
    if isinstance(v, Inst):
        return interp.call_method(v, '__len__')
    if isinstance(v, SVal):
        hook = (v.schema or {}).get('len')
        if hook is not None:
            return hook(interp, v)
    if interp.is_host(v):
        try:
            return len(v)
        except TypeError as error:
            raise PyExc(TypeError, error.args)
    raise Unsupported(f'len of {type(v).__name__}')


def representation(interp, v):
    v = interp.force(v)
    if isinstance(v, Inst):
        cls = interp.host_class_of(v)
        if cls.__repr__ is object.__repr__:
            raise Unsupported('default representation')
        return interp.call_class_attr(cls, '__repr__', v, [])
    if isinstance(v, SEnum):
        return enum_text(interp, v, '__repr__')
    if isinstance(v, SVal):
        hook = (v.schema or {}).get('repr')
        if hook is not None:
            return hook(interp, v)
    if interp.is_host(v):
        return repr(v)
    if isinstance(v, (VTup, ListObj, DictObj)):
        try:
            return repr(interp.to_host(v))
        except Unsupported:
            pass
    return VStr([Part('repr', v)])


def enum_text(interp, v, name):
    owner, attr = interp.class_attr(v.cls, name)
    members = list(v.cls)
    index = interp.ctx.choose([v.t == m.value for m in members],
                              exhaustive=False)
    return getattr(members[index], name)()


def text(interp, v):
    v = interp.force(v)
    if isinstance(v, (str, SStr, VStr)):
        return v
    if isinstance(v, Inst):
        cls = interp.host_class_of(v)
        if cls.__str__ is object.__str__:
            return representation(interp, v)
        return interp.call_class_attr(cls, '__str__', v, [])
    if isinstance(v, SEnum):
        return enum_text(interp, v, '__str__')
    if isinstance(v, SVal):
        hook = (v.schema or {}).get('str')
        if hook is not None:
            return hook(interp, v)
    if interp.is_host(v):
        return str(v)
    return VStr([Part('str', v)])


def hashed(interp, v):
    """Hash as a structure: equal structures have equal hashes."""
    v = interp.force(v)
    if isinstance(v, Inst):
        cls = interp.host_class_of(v)
        if cls.__hash__ is None:
            interp.raise_(TypeError, 'unhashable')
        if cls.__hash__ is object.__hash__:
            return Part('hash', v)
        return interp.call_class_attr(cls, '__hash__', v, [])
    if isinstance(v, tuple):
        v = interp.lift(v)
    if isinstance(v, VTup):
        pieces = []
        for p in v.pieces:
            if isinstance(p, Lit):
                pieces.append(Lit(hashed(interp, p.value)))
            else:
                pieces.append(p)
        if all(isinstance(p, Lit) for p in pieces):
            return Part('hash', VTup(pieces))
        results = interp.new_list()

        def body(element):
            h = hashed(interp, element)
            interp.ctx.touch(results)
            results.pieces.append(Lit(h))

        interp.iterate_pieces(v.pieces, body)
        return Part('hash', VTup(results.pieces))
    if isinstance(v, (ListObj, DictObj)):
        interp.raise_(TypeError, 'unhashable')
    if isinstance(v, SVal):
        hook = (v.schema or {}).get('hash')
        if hook is not None:
            return hook(interp, v)
    return Part('hash', v)


def as_dict(interp, v):
    v = interp.force(v)
    if isinstance(v, (dict, types.MappingProxyType)):
        v = interp.lift(v)
    return v if isinstance(v, DictObj) else None


def copy_dict(interp, d):
    result = interp.new_dict([
        Lit(Entry(interp.ctx.oid(), p.value.key, p.value.value,
                  p.value.present))
        if isinstance(p, Lit) else p for p in d.pieces])
    result.extra = d.extra
    return result


def update_dict(interp, d, args, kwargs):
    for source in values_of(args):
        other = as_dict(interp, source)
        if other is not None:
            pieces = interp.dict_view(other, 'items')
        else:
            pieces = interp.collect(source)
        if not d.pieces and other is not None and not d.factory:
            interp.ctx.touch(d)
            d.pieces = copy_dict(interp, other).pieces
            d.extra = other.extra
            continue

        def add(pair):
            x, y = pair_of(interp, pair)
            interp.dict_set(d, x, y)

        interp.iterate_pieces(pieces, add)
    if isinstance(kwargs, DictObj):
        interp.iterate_pieces(
                interp.dict_view(kwargs, 'items'),
                lambda pair: interp.dict_set(d, *pair_of(interp, pair)))
    else:
        for k, v in kwargs.items():
            interp.dict_set(d, k, v)


def pair_of(interp, pair):
    pieces = interp.collect(pair)
    if len(pieces) != 2 or not all(isinstance(p, Lit) for p in pieces):
        raise Unsupported('dictionary item')
    return pieces[0].value, pieces[1].value


def text_like(v):
    if isinstance(v, VIte):
        return text_like(v.a) and text_like(v.b)
    return isinstance(v, (str, SStr, VStr))


PERMUTATION = 'permutation'


def permuted(interp, pieces):
    """
    Elements in an order which is not known: the index is given by
    a permutation - a function used for nothing else.
    """
    pieces = [p for p in interp.clean(pieces)]
    if not pieces or len(pieces) == 1 and isinstance(pieces[0], Lit):
        return pieces
    if len(pieces) != 1 or isinstance(pieces[0].tmpl, Sub) \
            or pieces[0].filtered or interp.ctx.generics:
        raise Unsupported('order of a sequence of several parts')
    p, = pieces
    order = z3.Function(interp.ctx.fresh_name(PERMUTATION), INT, INT)
    iv = new_iv()
    interp.ctx.assume(z3.ForAll([iv], z3.Implies(
            z3.And(0 <= iv, iv < p.n),
            z3.And(0 <= order(iv), order(iv) < p.n)), patterns=[order(iv)]))
    return [Gen(p.n, iv, p.at(interp.ctx, order(iv)))]


def stream(interp, pieces):
    return GenObj(lambda consume: interp.iterate_pieces(
            interp.clean(pieces), consume))


def table(interp):
    ctx = interp.ctx
    prelude = interp.prelude_funcs

    def handler(f, low=0, high=None):
        def handle(args, kwargs):
            return f(*values_of(args, kwargs, low, high))
        return handle

    def prelude_call(name):
        return lambda args, kwargs: interp.call(prelude[name], args, kwargs)

    def to_list(*xs):
        return interp.new_list(interp.collect(xs[0]) if xs else ())

    def to_deque(*xs):
        return DequeObj(interp.ctx.oid(), interp.materialized(
                interp.collect(xs[0])) if xs else ())

    def to_tuple(*xs):
        if xs:
            v = interp.force(xs[0])
            if isinstance(v, VTup):
                return v
        return VTup(interp.collect(xs[0]) if xs else ())

    def to_set(*xs):
        return interp.new_set(interp.collect(xs[0], False) if xs else ())

    def to_dict(args, kwargs):
        result = interp.new_dict()
        update_dict(interp, result, args, kwargs)
        return result

    def to_defaultdict(args, kwargs):
        if kwargs and (not isinstance(kwargs, DictObj) or kwargs.pieces):
            raise Unsupported('keyword arguments of defaultdict')
        values = values_of(args)
        result = interp.new_dict(factory=values[0] if values else None)
        if len(values) > 1:
            update_dict(interp, result, [Lit(values[1])], {})
        return result

    def to_bool(*xs):
        if not xs:
            return False
        v = interp.force(xs[0])
        return interp.mk_bool(interp.truth_formula(v))

    def to_int(*xs):
        if not xs:
            return 0
        v = interp.force(xs[0])
        t = interp.as_int(v)
        if t is not None:
            return interp.mk_int(t)
        if interp.is_host(v):
            try:
                return int(v)
            except (TypeError, ValueError) as error:
                raise PyExc(type(error), error.args)
        raise Unsupported('int of a symbolic value')

    def to_str(*xs):
        return text(interp, xs[0]) if xs else ''

    def is_instance(v, classes):
        return interp.mk_bool(instance_of(interp, v, interp.force(classes)))

    def is_subclass(c, classes):
        c, classes = interp.force(c), interp.force(classes)
        if isinstance(classes, VTup):
            classes = interp.to_host(classes)
        if isinstance(c, SVal):
            hook = (c.schema or {}).get('issubclass')
            if hook is not None:
                return hook(interp, c, classes)
        if not interp.is_host(c):
            interp.raise_(TypeError, 'issubclass')
        try:
            return issubclass(c, classes)
        except TypeError as error:
            raise PyExc(TypeError, error.args)

    def type_of(*xs):
        if len(xs) != 1:
            raise Unsupported('creation of a class')
        v = interp.force(xs[0])
        if isinstance(v, SVal):
            hook = (v.schema or {}).get('type')
            if hook is not None:
                return hook(interp, v)
        return interp.host_class_of(v)

    def next_of(iterator, *default):
        iterator = interp.force(iterator)
        if not isinstance(iterator, (GenObj, SVal)):
            if isinstance(iterator, (VTup, ListObj)) or interp.is_host(
                    iterator) and not hasattr(type(iterator), '__next__'):
                interp.raise_(TypeError, 'not an iterator')
            raise Unsupported('next')
        if isinstance(iterator, SVal):
            hook = (iterator.schema or {}).get('next')
            if hook is None:
                raise Unsupported('next of an opaque object')
            return hook(interp, iterator, *default)
        if default:
            return interp.call(prelude['next_default'],
                               [iterator, default[0]], {})
        return interp.call(prelude['next_'], [iterator], {})

    def iter_of(v):
        v = interp.force(v)
        if isinstance(v, GenObj):
            return v
        pieces = interp.iter_pieces(v)
        if pieces is None:
            raise Unsupported('iter')
        return stream(interp, pieces)

    def column(iterable):
        iterable = interp.force(iterable)
        return (iterable if isinstance(iterable, Endless)
                else interp.collect(iterable))

    def map_of(f, *iterables):
        if len(iterables) == 1:
            return interp.call(prelude['map_'], [f, iterables[0]], {})
        pieces = interp.zip_pieces([column(x) for x in iterables], 'short')
        return interp.call(prelude['starmap'],
                           [f, stream(interp, pieces)], {})

    def filter_of(f, iterable):
        f = interp.force(f)
        if f is None:
            return interp.call(prelude['filter_none'], [iterable], {})
        return interp.call(prelude['filter_'], [f, iterable], {})

    def zip_of(args, kwargs):
        kwargs = interp.plain_kwargs(kwargs)
        strict = interp.force(kwargs.pop('strict', False))
        if kwargs or strict is not False:
            raise Unsupported('zip with arguments')
        sequences = [column(x) for x in values_of(args)]
        if not sequences:
            return stream(interp, [])
        return stream(interp, interp.zip_pieces(sequences, 'short'))

    def zip_longest_of(args, kwargs):
        kwargs = interp.plain_kwargs(kwargs)
        if kwargs.get('fillvalue') is not None:
            raise Unsupported('zip_longest with a fill value')
        sequences = [interp.collect(x) for x in values_of(args)]
        return stream(interp, interp.zip_pieces(sequences, 'longest'))

    def enumerate_of(args, kwargs):
        kwargs = dict(interp.plain_kwargs(kwargs))
        values = values_of(args)
        start = values[1] if len(values) > 1 else kwargs.pop('start', 0)
        if kwargs:
            raise Unsupported('enumerate')
        source = interp.force(values[0])
        pieces = interp.iter_pieces(source)
        if pieces is None:
            return interp.call(prelude['enumerate_'], [source, start], {})
        offset = interp.as_int(interp.force(start))
        result = []
        for p in interp.materialized(pieces):
            if isinstance(p, Lit):
                result.append(Lit(VTup([Lit(interp.mk_int(offset)),
                                        Lit(p.value)])))
                offset = offset + 1
            else:
                iv = new_iv()
                result.append(Gen(p.n, iv, VTup([
                    Lit(SInt(z3.simplify(offset + iv))),
                    Lit(p.at(ctx, iv))])))
                offset = offset + p.n
        return stream(interp, result)

    def reversed_of(v):
        v = interp.force(v)
        pieces = interp.iter_pieces(v)
        if pieces is None or isinstance(v, (SetObj, GenObj)):
            raise Unsupported('reversed')
        return stream(interp, interp.reverse(interp.clean(pieces)))

    def range_of(*xs):
        terms = [interp.as_int(interp.force(x)) for x in xs]
        if any(t is None for t in terms):
            raise Unsupported('range')
        terms = [z3.simplify(t) for t in terms]
        if all(z3.is_int_value(t) for t in terms):
            return VTup([Lit(i) for i in range(*[t.as_long()
                                                 for t in terms])])
        if len(terms) == 1:
            low, high = z3.IntVal(0), terms[0]
        elif len(terms) == 2:
            low, high = terms
        else:
            raise Unsupported('range with a step')
        iv = new_iv()
        n = z3.simplify(z3.If(high > low, high - low, 0))
        return VTup([Gen(n, iv, SInt(z3.simplify(low + iv)))])

    def getattr_of(obj, name, *default):
        name = interp.force(name)
        if not isinstance(name, str):
            hook = None
            obj = interp.force(obj)
            if isinstance(obj, SVal):
                hook = (obj.schema or {}).get('dynattr')
            hook = hook or ctx.contracts.get('getattr')
            if hook is None:
                raise Unsupported(f'getattr by a symbolic name of {obj!r}'[:300])
            return hook(interp, obj, name, *default)
        if default:
            try:
                return interp.getattr(obj, name, default[0])
            except PyExc as error:
                if issubclass(error.cls, AttributeError):
                    return default[0]
                raise
        return interp.getattr(obj, name)

    def hasattr_of(obj, name):
        name = interp.force(name)
        if not isinstance(name, str):
            raise Unsupported('hasattr by a symbolic name')
        if isinstance(obj, SVal):
            hook = (obj.schema or {}).get('hasattr')
            if hook is not None:
                return hook(interp, obj, name)
        try:
            interp.getattr(obj, name)
        except PyExc as error:
            if issubclass(error.cls, AttributeError):
                return False
            raise
        return True

    def setattr_of(obj, name, value):
        interp.setattr(obj, interp.force(name), value)

    def reduce_of(f, iterable, *initial):
        if not initial:
            pieces = interp.collect(iterable)
            if not interp.truth(VTup(pieces)):
                interp.raise_(TypeError, 'reduce of empty')
            first = interp.get_index(pieces, 0)
            rest = interp.drop(pieces, z3.IntVal(1))
            return interp.call(prelude['reduce'], [f, VTup(rest), first],
                               {})
        return interp.call(prelude['reduce'], [f, iterable, initial[0]], {})

    def sum_of(iterable, start=0):
        return interp.call(prelude['sum_'], [iterable, start], {})

    def sorted_of(args, kwargs):
        pieces = interp.collect(args[0].value)
        if all(isinstance(p, Lit) and interp.is_host(p.value)
               for p in pieces) and not kwargs:
            return interp.new_list([Lit(x) for x in sorted(
                    p.value for p in pieces)])
        if not kwargs and all(text_like(interp.force(p.value))
                              if isinstance(p, Lit)
                              else text_like(p.tmpl) for p in pieces):
            return interp.new_list(permuted(interp, pieces))
        raise Unsupported('sorted')

    def extremum(f):
        def handle(args, kwargs):
            if kwargs:
                raise Unsupported('min or max with a key')
            values = values_of(args)
            if len(values) == 1:
                pieces = interp.collect(values[0])
                if not all(isinstance(p, Lit) for p in pieces):
                    raise Unsupported('min or max of a symbolic sequence')
                values = [p.value for p in pieces]
                if not values:
                    interp.raise_(ValueError, 'empty')
            values = [interp.force(v) for v in values]
            if all(interp.is_host(v) for v in values):
                return f(values)
            terms = [interp.as_int(v) for v in values]
            if any(t is None for t in terms):
                raise Unsupported('min or max')
            result = terms[0]
            for t in terms[1:]:
                result = z3.If(t > result if f is max else t < result, t,
                               result)
            return interp.mk_int(result)
        return handle

    def partial_of(args, kwargs):
        f, *rest = args
        kwargs = interp.plain_kwargs(kwargs)
        if isinstance(f, Lit):
            rest = list(rest)

            def call(more, more_kwargs):
                merged = dict(kwargs)
                merged.update(interp.plain_kwargs(more_kwargs))
                return interp.call(f.value, [*rest, *more], merged)
            return Prim('partial', call)
        raise Unsupported('partial')

    def callable_of(v):
        v = interp.force(v)
        if isinstance(v, (Func, Bound, Prim)):
            return True
        if isinstance(v, SVal):
            hook = (v.schema or {}).get('callable')
            if hook is None:
                raise Unsupported('callable of an opaque object')
            return hook(interp, v)
        if isinstance(v, Inst):
            return hasattr(interp.host_class_of(v), '__call__')
        return interp.is_host(v) and callable(v)

    def fromkeys(keys, value=None):
        result = interp.new_dict()

        def add(key):
            interp.dict_set(result, key, value)

        interp.iterate(keys, add)
        return result

    def islice_of(*xs):
        source = interp.collect(xs[0])
        if len(xs) == 2:
            lower, upper = None, xs[1]
        elif len(xs) == 3:
            lower, upper = xs[1], xs[2]
        else:
            raise Unsupported('islice')
        return stream(interp, interp.slice(source, lower, upper, None))

    def cast(type_, value):
        return value

    def operator_of(op):
        def call(x, y):
            import ast
            node = {'eq': ast.Eq, 'ne': ast.NotEq, 'lt': ast.Lt,
                    'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE,
                    'is_': ast.Is, 'is_not': ast.IsNot}[op]()
            return interp.compare(node, x, y)
        return call

    def binary_of(op):
        def call(x, y):
            import ast
            node = {'add': ast.Add, 'truediv': ast.Div, 'sub': ast.Sub,
                    'or_': ast.BitOr, 'and_': ast.BitAnd,
                    'concat': ast.Add}[op]()
            return interp.binop(node, x, y)
        return call

    def not_of(x):
        return interp.negate(x)

    import typing
    import typing_extensions
    result = {
        len: handler(lambda v: length(interp, v), 1, 1),
        isinstance: handler(is_instance, 2, 2),
        issubclass: handler(is_subclass, 2, 2),
        type: handler(type_of, 1),
        bool: handler(to_bool, 0, 1),
        int: handler(to_int, 0, 1),
        str: handler(to_str, 0, 1),
        repr: handler(lambda v: representation(interp, v), 1, 1),
        hash: handler(lambda v: hashed(interp, v), 1, 1),
        tuple: handler(to_tuple, 0, 1),
        list: handler(to_list, 0, 1),
        set: handler(to_set, 0, 1),
        frozenset: handler(to_set, 0, 1),
        dict: to_dict,
        collections.deque: handler(to_deque, 0, 1),
        collections.OrderedDict: to_dict,
        collections.defaultdict: to_defaultdict,
        any: prelude_call('any'),
        all: prelude_call('all'),
        next: handler(next_of, 1, 2),
        iter: handler(iter_of, 1, 1),
        map: handler(map_of, 2),
        filter: handler(filter_of, 2, 2),
        zip: zip_of,
        itertools.zip_longest: zip_longest_of,
        enumerate: enumerate_of,
        reversed: handler(reversed_of, 1, 1),
        range: handler(range_of, 1, 3),
        sum: handler(sum_of, 1, 2),
        sorted: sorted_of,
        min: extremum(min),
        max: extremum(max),
        getattr: handler(getattr_of, 2, 3),
        hasattr: handler(hasattr_of, 2, 2),
        setattr: handler(setattr_of, 3, 3),
        callable: handler(callable_of, 1, 1),
        itertools.takewhile: prelude_call('takewhile'),
        itertools.dropwhile: prelude_call('dropwhile'),
        itertools.filterfalse: prelude_call('filterfalse'),
        itertools.starmap: prelude_call('starmap'),
        itertools.chain: prelude_call('chain'),
        itertools.chain.from_iterable: prelude_call('from_iterable'),
        itertools.islice: handler(islice_of, 2),
        itertools.repeat: handler(Endless, 1, 1),
        functools.reduce: handler(reduce_of, 2, 3),
        functools.partial: partial_of,
        dict.fromkeys: handler(fromkeys, 1, 2),
        typing.cast: handler(cast, 2, 2),
        operator.not_: handler(not_of, 1, 1),
    }
    for name in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'is_', 'is_not'):
        result[getattr(operator, name)] = handler(operator_of(name), 2, 2)
    for name in ('add', 'sub', 'or_', 'and_', 'concat', 'truediv'):
        result[getattr(operator, name)] = handler(binary_of(name), 2, 2)
    result[operator.contains] = handler(
            lambda x, y: interp.contains(x, y), 2, 2)
    result[operator.getitem] = handler(
            lambda x, y: interp.getitem(x, y), 2, 2)
    return result


# --- lists -------------------------------------------------------------------


@method(ListObj, 'append')
def list_append(interp, self, args, kwargs):
    value, = values_of(args, kwargs, 1, 1)
    interp.ctx.touch(self)
    self.pieces.append(Lit(value))


@method(ListObj, 'extend')
def list_extend(interp, self, args, kwargs):
    value, = values_of(args, kwargs, 1, 1)
    source = interp.force(value)
    if isinstance(self, SetObj) and isinstance(source, SetObj):
        pieces = list(source.pieces)
    else:
        pieces = interp.iter_pieces(source)
    if pieces is None:
        def body(element):
            interp.ctx.touch(self)
            self.pieces.append(Lit(element))
        interp.iterate(source, body)
    else:
        interp.ctx.touch(self)
        self.pieces.extend(pieces)


@method(ListObj, 'insert')
def list_insert(interp, self, args, kwargs):
    index, value = values_of(args, kwargs, 2, 2)
    index = interp.force(index)
    if isinstance(index, int) and (
            index == 0 or all(isinstance(p, Lit) for p in self.pieces)):
        interp.ctx.touch(self)
        self.pieces.insert(index, Lit(value))
        return
    t = interp.as_int(index)
    if t is None:
        raise Unsupported('insertion to a list')
    pieces = list(self.pieces)
    head, tail = interp.take(pieces, t), interp.drop(pieces, t)
    interp.ctx.touch(self)
    self.pieces = [*head, Lit(value), *tail]


@method(ListObj, 'pop')
def list_pop(interp, self, args, kwargs):
    values = values_of(args, kwargs, 0, 1)
    index = interp.force(values[0]) if values else -1
    pieces = list(self.pieces)
    if index == 0:
        value = interp.get_index(pieces, 0)
        rest = interp.drop(pieces, z3.IntVal(1))
    elif index == -1:
        value = interp.get_index(pieces, -1)
        if isinstance(pieces[-1], Lit):
            rest = pieces[:-1]
        else:
            pieces = interp.materialized(pieces)
            rest = interp.take(pieces,
                               z3.simplify(interp.seq_len(pieces) - 1))
    else:
        raise Unsupported('pop from the middle')
    interp.ctx.touch(self)
    self.pieces = list(rest)
    return value


@method(DequeObj, 'popleft')
def deque_popleft(interp, self, args, kwargs):
    values_of(args, kwargs, 0, 0)
    return list_pop(interp, self, [Lit(0)], {})


@method(DequeObj, 'appendleft')
def deque_appendleft(interp, self, args, kwargs):
    value, = values_of(args, kwargs, 1, 1)
    return list_insert(interp, self, [Lit(0), Lit(value)], {})


@method(DequeObj, 'extendleft')
def deque_extendleft(interp, self, args, kwargs):
    value, = values_of(args, kwargs, 1, 1)
    pieces = interp.materialized(interp.collect(value))
    interp.ctx.touch(self)
    self.pieces = [*interp.reverse(pieces), *self.pieces]


@method(ListObj, 'copy')
def list_copy(interp, self, args, kwargs):
    return interp.new_list(self.pieces)


@method(ListObj, 'clear')
def list_clear(interp, self, args, kwargs):
    interp.ctx.touch(self)
    self.pieces = []


@method(ListObj, 'reverse')
def list_reverse(interp, self, args, kwargs):
    interp.ctx.touch(self)
    self.pieces = interp.reverse(self.pieces)


for name in ('append', 'extend', 'pop', 'clear', 'reverse'):
    METHODS[(DequeObj, name)] = METHODS[(ListObj, name)]


# --- sets --------------------------------------------------------------------


@method(SetObj, 'add')
def set_add(interp, self, args, kwargs):
    value, = values_of(args, kwargs, 1, 1)
    interp.ctx.touch(self)
    self.pieces.append(Lit(value))


@method(SetObj, 'update')
def set_update(interp, self, args, kwargs):
    for value in values_of(args, kwargs):
        list_extend(interp, self, [Lit(value)], {})


def _set_of(interp, value):
    value = interp.force(value)
    if isinstance(value, (SetObj, DictView, set, frozenset)):
        return value
    if isinstance(value, DictObj):
        return DictView(value, 'keys')
    return interp.new_set(interp.collect(value, False))


def _operation(name):
    import ast
    op = {'difference': ast.Sub, 'union': ast.BitOr,
          'intersection': ast.BitAnd,
          'symmetric_difference': ast.BitXor}[name]()

    def pure(interp, self, args, kwargs):
        result = self
        for value in values_of(args, kwargs):
            result = interp.set_op(op, result, _set_of(interp, value))
        return interp.new_set(result.pieces)

    def update(interp, self, args, kwargs):
        result = pure(interp, self, args, kwargs)
        interp.ctx.touch(self)
        self.pieces = list(result.pieces)

    METHODS[(SetObj, name)] = pure
    if name != 'union':
        METHODS[(SetObj, name + '_update')] = update


for _name in ('difference', 'union', 'intersection', 'symmetric_difference'):
    _operation(_name)


@method(SetObj, 'issubset')
def set_issubset(interp, self, args, kwargs):
    import ast
    other, = values_of(args, kwargs, 1, 1)
    return interp.set_compare(ast.LtE(), self, _set_of(interp, other))


@method(SetObj, 'issuperset')
def set_issuperset(interp, self, args, kwargs):
    import ast
    other, = values_of(args, kwargs, 1, 1)
    return interp.set_compare(ast.LtE(), _set_of(interp, other), self)


@method(SetObj, 'isdisjoint')
def set_isdisjoint(interp, self, args, kwargs):
    import ast
    other, = values_of(args, kwargs, 1, 1)
    common = interp.set_op(ast.BitAnd(), self, _set_of(interp, other))
    return interp.negate(common)


METHODS[(DictView, 'isdisjoint')] = set_isdisjoint


@method(SetObj, 'remove')
def set_remove(interp, self, args, kwargs):
    value, = values_of(args, kwargs, 1, 1)
    if not interp.truth(interp.contains(self, value)):
        interp.raise_(KeyError, 'no such element')
    set_discard(interp, self, args, kwargs)


@method(SetObj, 'discard')
def set_discard(interp, self, args, kwargs):
    import ast
    value, = values_of(args, kwargs, 1, 1)
    result = interp.set_op(ast.Sub(), self, interp.new_set([Lit(value)]))
    interp.ctx.touch(self)
    self.pieces = list(result.pieces)


@method(SetObj, 'copy')
def set_copy(interp, self, args, kwargs):
    return interp.new_set(self.pieces)


@method(SetObj, 'pop', 'clear', 'append', 'extend', 'insert', 'reverse')
def set_unsupported(interp, self, args, kwargs):
    raise Unsupported('method of a set')


# --- dictionaries ------------------------------------------------------------


@method(DictObj, 'get')
def dict_get(interp, self, args, kwargs):
    key, *default = values_of(args, kwargs, 1, 2)
    default = default[0] if default else None
    entry = interp.dict_find(self, key)
    if entry is None or not interp.ctx.branch(entry.present):
        return default
    return entry.value


@method(DictObj, 'keys')
def dict_keys(interp, self, args, kwargs):
    values_of(args, kwargs, 0, 0)
    return DictView(self, 'keys')


@method(DictObj, 'values')
def dict_values(interp, self, args, kwargs):
    values_of(args, kwargs, 0, 0)
    return DictView(self, 'values')


@method(DictObj, 'items')
def dict_items(interp, self, args, kwargs):
    values_of(args, kwargs, 0, 0)
    return DictView(self, 'items')


@method(DictObj, 'setdefault')
def dict_setdefault(interp, self, args, kwargs):
    key, *default = values_of(args, kwargs, 1, 2)
    default = default[0] if default else None
    entry = interp.dict_find(self, key)
    if entry is None:
        return interp.dict_add(self, key, default).value
    if entry.virtual:
        interp.ctx.touch(entry)
        entry.present = TRUE
        return entry.value
    if interp.ctx.branch(entry.present):
        return entry.value
    interp.ctx.touch(entry)
    entry.present = TRUE
    entry.value = default
    return default


@method(DictObj, 'update')
def dict_update(interp, self, args, kwargs):
    update_dict(interp, self, args, kwargs)


@method(DictObj, 'copy')
def dict_copy(interp, self, args, kwargs):
    return copy_dict(interp, self)


@method(DictObj, 'pop')
def dict_pop(interp, self, args, kwargs):
    key, *default = values_of(args, kwargs, 1, 2)
    key = interp.force(key)
    for index, p in enumerate(self.pieces):
        if isinstance(p, Lit):
            if interp.ctx.branch(interp.equal_formula(p.value.key, key)):
                if not interp.ctx.branch(p.value.present):
                    continue
                interp.ctx.touch(self)
                del self.pieces[index]
                return p.value.value
        else:
            present = interp.exists_equal(
                    Gen(p.n, p.iv, p.tmpl.key, p.guard), key)
            if interp.ctx.branch(present):
                raise Unsupported('removal from a symbolic dictionary')
    if default:
        return default[0]
    interp.raise_(KeyError, key)


# --- tuples ------------------------------------------------------------------


@method(VTup, 'index')
def tuple_index(interp, self, args, kwargs):
    value, = values_of(args, kwargs, 1, 1)
    for index, p in enumerate(self.pieces):
        if not isinstance(p, Lit):
            raise Unsupported('index in a symbolic tuple')
        if interp.truth(interp.eq(p.value, value)):
            return index
    interp.raise_(ValueError, 'not in tuple')


METHODS[(ListObj, 'index')] = tuple_index


# --- texts -------------------------------------------------------------------


@method(VStr, 'join')
def str_join(interp, self, args, kwargs):
    value, = values_of(args, kwargs, 1, 1)
    if not isinstance(self, str):
        raise Unsupported('symbolic separator')
    source = interp.force(value)
    if isinstance(source, SetObj) and not source.distinct:
        # a text of unknown contents
        if all(isinstance(interp.force(p.value if isinstance(p, Lit)
                                       else p.tmpl), (str, SStr, VStr))
               for p in interp.clean(source.pieces)):
            from .core import StrS
            return SStr(interp.ctx.fresh('joined', StrS))
        raise Unsupported('join of a set')
    pieces = interp.clean(interp.collect(value))
    if all(isinstance(p, Lit) for p in pieces):
        parts = []
        for index, p in enumerate(pieces):
            v = interp.force(p.value)
            if index and self:
                parts.append(self)
            if isinstance(v, VStr):
                parts.extend(v.parts)
            elif isinstance(v, (str, SStr)):
                parts.append(v)
            else:
                raise Unsupported('join of opaque values')
        return interp.make_text(parts)
    return VStr([Join(self, pieces)])


@method(SStr, 'join')
def sstr_join(interp, self, args, kwargs):
    raise Unsupported('symbolic separator')


@method(SStr, 'split')
def sstr_split(interp, self, args, kwargs):
    """Parts of a text by a separator: at least one."""
    separator, = values_of(args, kwargs, 1, 1)
    if not isinstance(separator, str):
        raise Unsupported('symbolic separator')
    count, part = split_functions(separator)
    interp.ctx.assume(count(self.t) >= 1)
    iv = new_iv()
    return interp.new_list([Gen(count(self.t), iv, SStr(part(self.t, iv)))])


def split_functions(separator):
    from .core import StrS
    return (z3.Function(f'parts_count({separator})', StrS, INT),
            z3.Function(f'part({separator})', StrS, INT, StrS))


def _text_predicate(name):
    @method(SStr, name)
    def predicate(interp, self, args, kwargs):
        values = values_of(args, kwargs)
        if not values:
            return SBool(interp.ctx.str_predicate(
                    name, lambda text: getattr(text, name)())(self.t))
        value, = values
        options = []
        value = interp.force(value)
        if isinstance(value, str):
            options = [value]
        elif isinstance(value, (tuple, VTup)):
            for p in interp.iter_pieces(value):
                if not (isinstance(p, Lit) and isinstance(p.value, str)):
                    raise Unsupported(f'{name} of symbolic texts')
                options.append(p.value)
        else:
            raise Unsupported(f'{name} of a symbolic text')
        return SBool(z3.simplify(z3.Or([
            interp.ctx.str_predicate(
                    f'{name}({option!r})',
                    lambda text, option=option: getattr(text, name)(option))(
                    self.t) for option in options])))


for _name in ('startswith', 'endswith', 'isidentifier', 'isdigit', 'isalpha',
              'islower', 'isupper', 'isspace', 'isdecimal', 'isalnum'):
    _text_predicate(_name)
