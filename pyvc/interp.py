"""
Symbolic interpreter of the source of the functions under verification.

Every function is interpreted from the AST of its file, with the globals of
the real module; functions of the program called by it are interpreted as
well unless they have a contract in ``ctx.contracts``.
"""
import ast
import builtins
import collections
import enum
import functools
import inspect
import itertools
import operator
import types

import z3

from .core import (BOOL, FALSE, INT, TRUE, Bound, BreakEx, Cases, ContinueEx,
                   DequeObj, DictObj, DictView, Endless, Entry, Env, ExcVal,
                   Explorer, Func, Gen, GenObj, Infeasible, Inst, Join,
                   ListObj, Lit, Part, Prim,
                   PyExc, ReturnEx, SBool, SEnum, SInt, SStr, SVal, SetObj,
                   Poison, StopConsume, StrS, Sub, SuperProxy, Sym, UNBOUND,
                   Unsupported, VIte, VStr, VTup, ValS, forall, gen, new_iv,
                   subst, subst_piece, subst_term)
from .core import exists as exists_
from .extract import Extracted
from . import loops, whiles

_MISSING = object()

PRELUDE = '''
def any(iterable):
    for element in iterable:
        if element:
            return True
    return False

def all(iterable):
    for element in iterable:
        if not element:
            return False
    return True

def takewhile(predicate, iterable):
    for element in iterable:
        if predicate(element):
            yield element
        else:
            break

def dropwhile(predicate, iterable):
    started = False
    for element in iterable:
        if started or not predicate(element):
            started = True
            yield element

def filter_(predicate, iterable):
    for element in iterable:
        if predicate(element):
            yield element

def filter_none(iterable):
    for element in iterable:
        if element:
            yield element

def filterfalse(predicate, iterable):
    for element in iterable:
        if not predicate(element):
            yield element

def map_(function, iterable):
    for element in iterable:
        yield function(element)

def starmap(function, iterable):
    for element in iterable:
        yield function(*element)

def from_iterable(iterables):
    for iterable in iterables:
        yield from iterable

def chain(*iterables):
    for iterable in iterables:
        yield from iterable

def next_default(iterator, default):
    for element in iterator:
        return element
    return default

def next_(iterator):
    for element in iterator:
        return element
    raise StopIteration

def enumerate_(iterable, start):
    index = start
    for element in iterable:
        yield (index, element)
        index += 1

def reduce(function, iterable, initial):
    result = initial
    for element in iterable:
        result = function(result, element)
    return result

def sum_(iterable, start):
    result = start
    for element in iterable:
        result = result + element
    return result

def equal_pairs(pairs):
    for left, right in pairs:
        # the same texts are equal
        if not (not texts(left, right) and left is right or left == right):
            return False
    return True
'''


class Sources:
    """Finds AST of functions by their code objects."""

    def __init__(self):
        self.trees = {}

    def tree(self, filename):
        try:
            return self.trees[filename]
        except KeyError:
            with open(filename) as file:
                tree = ast.parse(file.read())
            index = {}
            for node in ast.walk(tree):
                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = min([node.lineno]
                               + [d.lineno for d in node.decorator_list])
                    index[(line, node.name)] = node
                elif isinstance(node, ast.Lambda):
                    index.setdefault((node.lineno, '<lambda>'), node)
            self.trees[filename] = tree, index
            return tree, index

    def function(self, host):
        code = host.__code__
        _, index = self.tree(code.co_filename)
        try:
            return index[(code.co_firstlineno, code.co_name)]
        except KeyError:
            raise Unsupported(f'no source of {host.__qualname__}')


SOURCES = Sources()


def local_names(node):
    """Names assigned in the body of a function."""
    names, free = set(), set()

    def visit(n, top):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)) and not top:
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    names.add(c.target.id)
            return
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            free.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, ast.alias):
            names.add((n.asname or n.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c, False)

    if isinstance(node, ast.Lambda):
        visit(node.body, False)
    else:
        for statement in node.body:
            visit(statement, False)
    args = node.args
    for a in [*args.posonlyargs, *args.args, *args.kwonlyargs, args.vararg,
              args.kwarg]:
        if a is not None:
            names.add(a.arg)
    return frozenset(names - free)


_generator_cache = {}


def is_generator(node):
    try:
        return _generator_cache[id(node)][0]
    except KeyError:
        pass
    result = False
    if not isinstance(node, ast.Lambda):
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                result = True
                break
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                continue
            stack.extend(ast.iter_child_nodes(n))
    _generator_cache[id(node)] = result, node
    return result


class Frame:
    __slots__ = 'func', 'env', 'token', 'on_yield', 'handling'

    def __init__(self, func, env):
        self.func, self.env = func, env
        self.token = object()
        self.on_yield = None
        self.handling = []


def conj(*formulas):
    formulas = [f if z3.is_expr(f) else z3.BoolVal(f) for f in formulas]
    formulas = [f for f in formulas if not z3.is_true(f)]
    if not formulas:
        return TRUE
    if any(z3.is_false(f) for f in formulas):
        return FALSE
    return formulas[0] if len(formulas) == 1 else z3.And(*formulas)


def disj(*formulas):
    formulas = [f if z3.is_expr(f) else z3.BoolVal(f) for f in formulas]
    formulas = [f for f in formulas if not z3.is_false(f)]
    if not formulas:
        return FALSE
    if any(z3.is_true(f) for f in formulas):
        return TRUE
    return formulas[0] if len(formulas) == 1 else z3.Or(*formulas)


def term(value):
    return z3.BoolVal(value) if isinstance(value, bool) else value


_MAX_DEPTH = 60


class Interp:
    def __init__(self, ctx):
        self.ctx = ctx
        self.depth = 0
        self.lenient = 0
        self.prelude = {'__builtins__': builtins}
        self.env_class = Env
        tree = ast.parse(PRELUDE)
        self.prelude_funcs = {}
        prelude_globals = {
            'StopIteration': StopIteration,
            'texts': Prim('texts', lambda args, kwargs: all(isinstance(
                    self.force(a.value), (str, SStr, VStr)) for a in args))}
        for node in tree.body:
            self.prelude_funcs[node.name] = Func(node, None, prelude_globals,
                                                 (), {}, node.name)
        self.setup_builtins()

    # ------------------------------------------------------------ helpers

    def new_list(self, pieces=()):
        return ListObj(self.ctx.oid(), pieces)

    def new_set(self, pieces=()):
        return SetObj(self.ctx.oid(), pieces)

    def new_dict(self, pieces=(), factory=None):
        return DictObj(self.ctx.oid(), pieces, factory)

    def new_entry(self, key, value):
        return Entry(self.ctx.oid(), key, value)

    def raise_(self, cls, *args):
        raise PyExc(cls, args)

    def force(self, v):
        while isinstance(v, VIte):
            v = v.a if self.ctx.branch(v.c) else v.b
        return v

    def lift(self, v):
        """Host containers as containers of the verifier."""
        if isinstance(v, tuple):
            return VTup([Lit(x) for x in v])
        if isinstance(v, list):
            result = self.new_list([Lit(x) for x in v])
            result.frozen = True
            return result
        if isinstance(v, (set, frozenset)):
            result = self.new_set([Lit(x) for x in v])
            result.frozen = True
            return result
        if isinstance(v, (dict, types.MappingProxyType)):
            self.without_contract(v)
            result = self.new_dict([Lit(self.new_entry(k, x))
                                    for k, x in v.items()])
            result.frozen = True
            return result
        return v

    def without_contract(self, v):
        """Contents of containers given by contracts are not the real."""
        if any((kind, id(v)) in self.ctx.contracts
               for kind in ('dict', 'contains')):
            raise Unsupported('contents of a table of a contract')

    def table_get(self, table, override):
        def get(args, kwargs):
            from .pybuiltins import values_of
            key, *default = values_of(args, kwargs, 1, 2)
            try:
                return override(self, key)
            except PyExc as error:
                if error.cls is not KeyError:
                    raise
            return default[0] if default else None
        return Prim('get', get)

    def table_pop(self, table, override, remove):
        def pop(args, kwargs):
            from .pybuiltins import values_of
            key, *default = values_of(args, kwargs, 1, 2)
            if override is None or len(default) != 1:
                raise Unsupported('removal from a table')
            remove(self, key)
            return SVal(z3.FreshConst(ValS, 'removed'))
        return Prim('pop', pop)

    def host_class_of(self, v):
        """Exact class of the value, branching if it is symbolic."""
        v = self.force(v)
        if isinstance(v, Inst):
            if isinstance(v.cls, Cases):
                for c, cls in v.cls.options[:-1]:
                    if self.ctx.branch(c):
                        return cls
                return v.cls.options[-1][1]
            return v.cls
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SInt):
            return int
        if isinstance(v, (SStr, VStr)):
            return str
        if isinstance(v, SEnum):
            return v.cls
        if isinstance(v, VTup):
            return tuple
        if isinstance(v, SetObj):
            return set
        if isinstance(v, DequeObj):
            return collections.deque
        if isinstance(v, ListObj):
            return list
        if isinstance(v, DictObj):
            return (collections.defaultdict if v.factory is not None
                    else dict)
        if isinstance(v, Func):
            return types.FunctionType
        if isinstance(v, Bound):
            return types.MethodType
        if isinstance(v, ExcVal):
            return v.cls
        if isinstance(v, GenObj):
            return types.GeneratorType
        if isinstance(v, SVal):
            if v.schema is not None and v.schema.get('class') is not None:
                return v.schema['class']
            raise Unsupported(f'class of an opaque object {v}')
        if isinstance(v, Sym):
            raise Unsupported(f'class of {type(v).__name__}')
        return type(v)

    # terms

    def as_val(self, v):
        """Term of the opaque sort for the value."""
        if isinstance(v, SVal):
            return v.t
        if isinstance(v, VIte):
            return z3.If(v.c, self.as_val(v.a), self.as_val(v.b))
        if isinstance(v, SStr):
            return z3.Function('val_of_str', StrS, ValS)(v.t)
        if isinstance(v, SInt):
            return z3.Function('val_of_int', INT, ValS)(v.t)
        if isinstance(v, SBool):
            return z3.Function('val_of_bool', BOOL, ValS)(v.t)
        if isinstance(v, bool):
            return z3.Function('val_of_bool', BOOL, ValS)(z3.BoolVal(v))
        if isinstance(v, str):
            return z3.Function('val_of_str', StrS, ValS)(
                    self.ctx.str_const(v))
        if isinstance(v, Inst) and v.ident is not None:
            return z3.Function('val_of_' + v.ident[0], v.ident[1].sort(),
                               ValS)(v.ident[1])
        if isinstance(v, Inst):
            return z3.Const(f'inst{v.oid}', ValS)
        if isinstance(v, VTup):
            result = z3.Const('tuple()', ValS)
            snoc = z3.Function('tuple+', ValS, ValS, ValS)
            for p in v.pieces:
                if not isinstance(p, Lit):
                    raise Unsupported('tuple of symbolic length as a term')
                result = snoc(result, self.as_val(p.value))
            return result
        if isinstance(v, (Sym, ListObj, DictObj)):
            raise Unsupported(f'{type(v).__name__} as an opaque value')
        if isinstance(v, tuple):
            return self.as_val(self.lift(v))
        return self.ctx.host_const(v)

    def as_str(self, v):
        if isinstance(v, SStr):
            return v.t
        if isinstance(v, str):
            return self.ctx.str_const(v)
        return None

    def as_int(self, v):
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, SEnum):
            return v.t
        if isinstance(v, SBool):
            return z3.If(v.t, 1, 0)
        if isinstance(v, (int, enum.IntEnum)):
            return z3.IntVal(int(v))
        return None

    def mk_int(self, t):
        t = z3.simplify(t)
        return t.as_long() if z3.is_int_value(t) else SInt(t)

    def mk_bool(self, t):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)

    # ---------------------------------------------------------- truthiness

    def truth_formula(self, v):
        """Truth of the value as a formula or bool, without branching."""
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SEnum):
            return v.t != 0
        if isinstance(v, SStr):
            return v.t != self.ctx.str_const('')
        if isinstance(v, VIte):
            return z3.If(v.c, term(self.truth_formula(v.a)),
                         term(self.truth_formula(v.b)))
        if isinstance(v, (VTup, ListObj)):
            return self.nonempty(v.pieces)
        if isinstance(v, DictObj):
            return self.nonempty(self.dict_pieces(v))
        if isinstance(v, DictView):
            return self.nonempty(self.dict_pieces(v.dict))
        if isinstance(v, SVal):
            hook = (v.schema or {}).get('truth')
            if hook is not None:
                return hook(self, v)
            return z3.Function('truthy', ValS, BOOL)(v.t)
        if isinstance(v, VStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            if any(self.shown(p) for p in v.parts):
                return True
            if len(v.parts) == 1 and isinstance(v.parts[0], Join):
                pieces = v.parts[0].pieces
                if all(self.shown(p.value if isinstance(p, Lit) else p.tmpl)
                       for p in pieces):
                    return self.nonempty(pieces)
            raise Unsupported('truth of a symbolic text')
        if isinstance(v, Inst):
            classes = ([k for _, k in v.cls.options]
                       if isinstance(v.cls, Cases) else [v.cls])
            for cls in classes:
                for name in ('__bool__', '__len__'):
                    if hasattr(cls, name):
                        return self.truth_formula(self.call_method(v, name))
            return True
        if isinstance(v, (Func, Bound, Prim, ExcVal, GenObj)):
            return True
        if isinstance(v, Sym):
            raise Unsupported(f'truth of {type(v).__name__}')
        return bool(v)

    def shown(self, p):
        """Whether the text is certainly not empty."""
        if isinstance(p, str):
            return bool(p)
        if isinstance(p, Part):
            return p.op in ('repr', 'to_repr')
        return isinstance(p, VStr) and any(map(self.shown, p.parts))

    def truth(self, v):
        v = self.force(v)
        return self.ctx.branch(self.truth_formula(v))

    # ------------------------------------------------------------- pieces

    def piece_len(self, p):
        if isinstance(p, Lit):
            return z3.IntVal(1)
        if isinstance(p.tmpl, Sub):
            return self.materialize(p).n
        if p.filtered:
            count = self.materialize(p).n
            i = new_iv()
            self.ctx.assume((count < p.n) == exists_(i, z3.And(
                    0 <= i, i < p.n, z3.Not(p.guard_at(i)))))
            return count
        return p.n

    def seq_len(self, pieces):
        total = z3.IntVal(0)
        for p in pieces:
            total = total + self.piece_len(p)
        return z3.simplify(total)

    def nonempty(self, pieces):
        options = []
        for p in pieces:
            if isinstance(p, Lit):
                return True
            if isinstance(p.tmpl, Sub):
                iv = new_iv()
                sub = subst(p.tmpl, [(p.iv, iv)])
                inner = term(self.nonempty(sub.pieces))
                options.append(self.exists(
                        iv, conj(0 <= iv, iv < p.n,
                                 z3.substitute(p.guard, (p.iv, iv)), inner)))
            elif p.filtered:
                n = z3.simplify(p.n)
                if z3.is_int_value(n) and n.as_long() == 1:
                    options.append(z3.simplify(p.guard_at(z3.IntVal(0))))
                    continue
                options.append(self.exists(
                        p.iv, conj(0 <= p.iv, p.iv < p.n, p.guard)))
            else:
                options.append(z3.simplify(p.n > 0))
        return disj(*options)

    def exists(self, iv, formula):
        formula = z3.simplify(formula)
        if z3.is_true(formula) or z3.is_false(formula):
            return formula
        return exists_(iv, formula)

    def materialize(self, p):
        """Filtered run as a run without filter."""
        if not isinstance(p, Gen):
            return p
        if not p.filtered:
            return self.flattened(p) if isinstance(p.tmpl, Sub) else p
        ctx = self.ctx
        generics = list(ctx.generics)
        canonical = z3.Int('$canon')
        key = ('mat', z3.substitute(p.guard, (p.iv, canonical)).sexpr(),
               p.n.sexpr())
        number = ctx.names.setdefault(key, len(ctx.names))
        sorts = [INT] * len(generics)
        count = z3.Function(f'count!{number}', *sorts, INT)(*generics) \
            if generics else z3.Int(f'count!{number}')
        sel = z3.Function(f'sel!{number}', *sorts, INT, INT)
        rank = z3.Function(f'rank!{number}', *sorts, INT, INT)
        i, j = z3.Ints('$mi $mj')
        at = lambda x: z3.substitute(p.guard, (p.iv, x))
        s = lambda x: sel(*generics, x)
        r = lambda x: rank(*generics, x)
        axioms = [
            count >= 0, count <= p.n,
            z3.ForAll([i], z3.Implies(
                    z3.And(0 <= i, i < count),
                    z3.And(0 <= s(i), s(i) < p.n, at(s(i)), r(s(i)) == i)),
                      patterns=[s(i)]),
            z3.ForAll([i], z3.Implies(
                    z3.And(0 <= i, i < p.n, at(i)),
                    z3.And(0 <= r(i), r(i) < count, s(r(i)) == i)),
                      patterns=[r(i)]),
            z3.ForAll([i, j], z3.Implies(
                    z3.And(0 <= i, i < j, j < count), s(i) < s(j)),
                      patterns=[z3.MultiPattern(s(i), s(j))]),
            (count > 0) == exists_(i, z3.And(0 <= i, i < p.n, at(i))),
        ]
        for a in axioms:
            ctx.assume(a)
        iv = new_iv()
        return self.materialize(Gen(count, iv, subst(p.tmpl,
                                                     [(p.iv, s(iv))])))

    def flattened(self, p):
        """Run of several elements per index as a run of single ones."""
        ctx = self.ctx
        generics = list(ctx.generics)
        if any(isinstance(inner, Gen) and (inner.filtered or isinstance(
                inner.tmpl, Sub)) for inner in p.tmpl.pieces):
            raise Unsupported('length of a nested sequence')
        sizes = [z3.IntVal(1) if isinstance(inner, Lit)
                 else z3.If(inner.n < 0, z3.IntVal(0), inner.n)
                 for inner in p.tmpl.pieces]
        size_ = z3.simplify(z3.IntVal(0) + z3.Sum(sizes))
        size = lambda x: z3.substitute(size_, (p.iv, x))
        key = ('flat', z3.simplify(size(z3.Int('$canon'))).sexpr(),
               p.n.sexpr())
        number = ctx.names.get(key)
        if number is None:
            number = self.same_flat(key, p.n, size, generics)
            if number is None:
                number = len(ctx.names)
                ctx.flats.append((number, p.n, size, list(generics)))
            ctx.names[key] = number
        sorts = [INT] * len(generics)
        start_ = z3.Function(f'start!{number}', *sorts, INT, INT)
        place_ = z3.Function(f'index!{number}', *sorts, INT, INT)
        element_ = z3.Function(f'position!{number}', *sorts, INT, INT, INT)
        start = lambda x: start_(*generics, x)
        place = lambda x: place_(*generics, x)
        element = lambda x, y: element_(*generics, x, y)
        i, j = z3.Ints('$fi $fj')
        n = z3.If(p.n < 0, z3.IntVal(0), p.n)
        for axiom in (
                start(z3.IntVal(0)) == 0, start(n) >= 0,
                z3.ForAll([i], z3.Implies(
                        z3.And(0 <= i, i < start(n)),
                        z3.And(0 <= place(i), place(i) < n,
                               0 <= start(place(i)), start(place(i)) <= i,
                               i < start(place(i)) + size(place(i)))),
                          patterns=[place(i)]),
                z3.ForAll([i, j], z3.Implies(
                        z3.And(0 <= i, i < n, 0 <= j, j < size(i)),
                        z3.And(element(i, j) == start(i) + j,
                               place(element(i, j)) == i,
                               0 <= start(i), start(i) + j < start(n))),
                          patterns=[element(i, j)]),
                (start(n) > 0) == exists_(i, z3.And(
                        0 <= i, i < n, size(i) > 0))):
            ctx.assume(axiom)
        iv = new_iv()
        sub = subst(p.tmpl, [(p.iv, place(iv))])
        return Gen(z3.simplify(start(n)), iv, self.pieces_at(
                sub.pieces, z3.simplify(iv - start(place(iv)))))

    def same_flat(self, key, n, size, generics):
        """Number of a known run with the same sizes for every index."""
        i = z3.Int('$canon')
        if self.ctx.scopes:
            # what is known may be known for this path of a loop only
            return None
        for number, other_n, other, other_generics in self.ctx.flats:
            if len(generics) == len(other_generics) and all(
                    a.eq(b) for a, b in zip(generics, other_generics)) and (
                    other_n.eq(n)) and self.ctx.proves(
                        z3.Implies(z3.And(0 <= i, i < n),
                                   size(i) == other(i))) is True:
                return number
        return None

    def materialized(self, pieces):
        result = []
        for p in pieces:
            result.append(self.materialize(p))
        return result

    def pieces_at(self, pieces, index):
        """Element by a term of index known to be in range, as VIte chain."""
        pieces = self.materialized(pieces)
        offset = z3.IntVal(0)
        options = []
        for p in pieces:
            n = self.piece_len(p)
            value = (p.value if isinstance(p, Lit)
                     else p.at(self.ctx, z3.simplify(index - offset)))
            offset = z3.simplify(offset + n)
            options.append((z3.simplify(index < offset), value))
        if not options:
            raise Unsupported('element of an empty sequence')
        result = options[-1][1]
        for c, value in reversed(options[:-1]):
            if z3.is_true(c):
                result = value
            elif not z3.is_false(c):
                result = VIte(c, value, result)
        return result

    def get_index(self, pieces, index):
        if isinstance(index, int) and not isinstance(index, bool):
            if index >= 0 and all(isinstance(p, Lit)
                                  for p in pieces[:index + 1]):
                if index < len(pieces):
                    return pieces[index].value
            if index < 0 and all(isinstance(p, Lit)
                                 for p in pieces[index:]):
                if -index <= len(pieces):
                    return pieces[index].value
        t = self.as_int(index)
        if t is None:
            raise Unsupported('index of unsupported type')
        pieces = self.materialized(pieces)
        total = self.seq_len(pieces)
        if not self.ctx.branch(t >= 0):
            t = z3.simplify(t + total)
            if not self.ctx.branch(t >= 0):
                self.raise_(IndexError, 'index out of range')
        if not self.ctx.branch(t < total):
            self.raise_(IndexError, 'index out of range')
        rest = t
        for p in pieces:
            n = self.piece_len(p)
            if self.ctx.branch(rest < n):
                return (p.value if isinstance(p, Lit)
                        else p.at(self.ctx, z3.simplify(rest)))
            rest = z3.simplify(rest - n)
        raise Infeasible

    def clean(self, pieces):
        """Drops the pieces known to be empty."""
        result = []
        for p in pieces:
            if isinstance(p, Gen):
                n = z3.simplify(p.n)
                if z3.is_int_value(n):
                    if n.as_long() <= 0:
                        continue
                    if n.as_long() == 1:
                        guard = z3.simplify(p.guard_at(z3.IntVal(0)))
                        if z3.is_true(guard):
                            tmpl = p.at(self.ctx, z3.IntVal(0))
                            if isinstance(tmpl, Sub):
                                result.extend(tmpl.pieces)
                            else:
                                result.append(Lit(tmpl))
                            continue
                if z3.is_false(z3.simplify(p.guard)):
                    continue
            result.append(p)
        return result

    def drop(self, pieces, count):
        rest = count
        result = []
        for p in self.materialized(pieces):
            rest = z3.simplify(rest)
            if z3.is_int_value(rest) and rest.as_long() <= 0:
                result.append(p)
                continue
            n = self.piece_len(p)
            if isinstance(p, Lit):
                if self.ctx.branch(rest > 0):
                    rest = rest - 1
                else:
                    result.append(p)
                continue
            if self.ctx.proves(rest >= n, 300):
                rest = rest - n
                continue
            if self.ctx.proves(rest <= 0, 300):
                result.append(p)
                rest = z3.IntVal(0)
                continue
            # decided by branching, to keep the terms simple
            which = self.ctx.choose([rest <= 0, z3.And(rest > 0, rest < n),
                                     z3.And(rest > 0, rest >= n)],
                                    exhaustive=True)
            if which == 0:
                result.append(p)
                rest = z3.IntVal(0)
            elif which == 1:
                d = rest
                iv = new_iv()
                result.append(Gen(z3.simplify(n - d), iv,
                                  p.at(self.ctx, iv + d)))
                rest = z3.IntVal(0)
            else:
                rest = rest - n
        return self.clean(result)

    def take(self, pieces, count):
        rest = count
        result = []
        for p in self.materialized(pieces):
            rest = z3.simplify(rest)
            if z3.is_int_value(rest) and rest.as_long() <= 0:
                break
            n = self.piece_len(p)
            if isinstance(p, Lit):
                if self.ctx.branch(rest > 0):
                    result.append(p)
                    rest = rest - 1
                    continue
                break
            if self.ctx.proves(rest >= n, 300):
                result.append(p)
                rest = rest - n
                continue
            which = self.ctx.choose([rest <= 0, z3.And(rest > 0, rest < n),
                                     z3.And(rest > 0, rest >= n)],
                                    exhaustive=True)
            if which == 0:
                break
            if which == 1:
                result.append(Gen(rest, p.iv, p.tmpl))
                break
            result.append(p)
            rest = rest - n
        return self.clean(result)

    def reverse(self, pieces):
        result = []
        for p in reversed(list(pieces)):
            if isinstance(p, Lit):
                result.append(p)
            else:
                if isinstance(p.tmpl, Sub):
                    raise Unsupported('reversed nested sequence')
                iv = new_iv()
                index = z3.simplify(p.n - 1 - iv)
                result.append(Gen(p.n, iv, p.at(self.ctx, index),
                                  p.guard_at(index)))
        return result

    def slice(self, pieces, lower, upper, step):
        pieces = list(pieces)
        if step is not None:
            step = self.force(step)
        if step is not None and step != 1:
            if step == -1 and lower is None and upper is None:
                return self.reverse(pieces)
            raise Unsupported('slice with a step')

        def bound(b):
            t = self.as_int(b)
            if t is None:
                raise Unsupported('slice bound of unsupported type')
            t = z3.simplify(t)
            if z3.is_int_value(t) and t.as_long() >= 0:
                return t
            if self.ctx.branch(t >= 0):
                return t
            total = self.seq_len(self.materialized(pieces))
            t = z3.simplify(t + total)
            return t if self.ctx.branch(t >= 0) else z3.IntVal(0)

        lower, upper = (None if lower is None else self.force(lower),
                        None if upper is None else self.force(upper))
        if all(isinstance(p, Lit) for p in pieces) and all(
                b is None or isinstance(b, int) for b in (lower, upper)):
            return pieces[lower:upper]
        lower_t = z3.IntVal(0) if lower is None else bound(lower)
        if upper is not None:
            upper_t = bound(upper)
            pieces = self.take(pieces, upper_t)
        if lower is None:
            return pieces
        return self.drop(pieces, lower_t)

    # ------------------------------------------------------------ iterate

    def iter_pieces(self, v):
        """Pieces of an iterable with elements known in advance, or None."""
        if isinstance(v, (tuple, list, set, frozenset, dict,
                          types.MappingProxyType)):
            self.without_contract(v)
            if isinstance(v, (dict, types.MappingProxyType)):
                return [Lit(k) for k in v]
            if isinstance(v, (set, frozenset)):
                return self.set_elements(self.new_set([Lit(x) for x in v]))
            return [Lit(x) for x in v]
        if isinstance(v, SetObj) and not v.distinct:
            return self.set_elements(v)
        if isinstance(v, (VTup, ListObj)):
            return list(v.pieces)
        if isinstance(v, DictObj):
            return self.dict_view(v, 'keys')
        if isinstance(v, DictView):
            return self.dict_view(v.dict, v.kind)
        if isinstance(v, str):
            return [Lit(c) for c in v]
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return [Lit(m) for m in v]
        if isinstance(v, (range, type({}.keys()), type({}.items()),
                          type({}.values()))):
            return [Lit(x) for x in v]
        if isinstance(v, SVal):
            hook = (v.schema or {}).get('pieces')
            if hook is not None:
                return hook(self, v)
        return None

    def set_elements(self, v):
        """
        Elements of a set in unknown order: indices of what it is made of
        are given by a function used for nothing else.
        """
        pieces = self.clean(v.pieces)
        if len(pieces) < 2 and all(isinstance(p, Lit) for p in pieces):
            return pieces
        if self.ctx.generics:
            raise Unsupported('order of a set made in a loop')
        if all(isinstance(p, Lit) for p in pieces) and len(pieces) < 4:
            distinct = []
            for p in pieces:
                if not any(self.ctx.branch(term(self.equal_formula(
                        p.value, q.value))) for q in distinct):
                    distinct.append(p)
            result = []
            while distinct:
                index = 0
                while index < len(distinct) - 1 and not self.ctx.branch(
                        self.ctx.fresh('next', z3.BoolSort())):
                    index += 1
                result.append(distinct.pop(index))
            return result
        p = self.united(pieces)
        ctx = self.ctx
        order = z3.Function(ctx.fresh_name('order'), INT, INT)
        n = ctx.fresh('card', INT)
        iv = new_iv()
        some = term(self.nonempty(pieces))
        ctx.assume(n >= 0)
        ctx.assume((n > 0) == some)
        ctx.assume(z3.ForAll([iv], z3.Implies(
                z3.And(0 <= iv, iv < n),
                z3.And(0 <= order(iv), order(iv) < p.n,
                       p.guard_at(order(iv)))), patterns=[order(iv)]))
        try:
            place = z3.Function(ctx.fresh_name('place'), INT, INT)
            same = term(self.equal_formula(p.at(ctx, order(place(iv))),
                                           p.at(ctx, iv)))
        except Unsupported:
            pass
        else:
            ctx.assume(z3.ForAll([iv], z3.Implies(
                    z3.And(0 <= iv, iv < p.n, p.guard_at(iv)),
                    z3.And(0 <= place(iv), place(iv) < n, same))))
        later = new_iv()
        try:
            same = term(self.equal_formula(p.at(ctx, order(iv)),
                                           p.at(ctx, order(later))))
        except Unsupported:
            pass
        else:
            ctx.assume(z3.ForAll([iv, later], z3.Implies(
                    z3.And(0 <= iv, iv < later, later < n),
                    z3.Not(same)), patterns=[z3.MultiPattern(
                            order(iv), order(later))]))
        return [Gen(n, iv, p.at(ctx, order(iv)))]

    def united(self, pieces):
        """A single run of all elements of the pieces."""
        if any(isinstance(p, Gen) and isinstance(p.tmpl, Sub)
               for p in pieces):
            raise Unsupported('order of a set of nested sequences')
        if len(pieces) == 1 and isinstance(pieces[0], Gen):
            return pieces[0]
        iv = new_iv()
        options, start = [], z3.IntVal(0)
        for p in pieces:
            if isinstance(p, Lit):
                n, value, guard = z3.IntVal(1), p.value, TRUE
            else:
                at = z3.simplify(iv - start)
                n, value, guard = p.n, p.at(self.ctx, at), p.guard_at(at)
            start = z3.simplify(start + n)
            options.append((iv < start, value, guard))
        _, value, guard = options.pop()
        for c, v, g in reversed(options):
            guard = z3.If(c, g, guard)
            a, b = self.as_str(v), self.as_str(value)
            value = (VIte(c, v, value) if a is None or b is None
                     else SStr(z3.If(c, a, b)))
        return Gen(start, iv, value, z3.simplify(guard))

    def only_element(self, v):
        """The element of a set of one element or an error."""
        pieces = self.clean(v.pieces)
        if not self.ctx.branch(term(self.nonempty(pieces))):
            self.raise_(ValueError, 'unpack')
        if len(pieces) == 1 and isinstance(pieces[0], Lit):
            return pieces[0].value
        result = None
        for p in pieces:
            if isinstance(p, Lit):
                result = p.value
                break
        else:
            for p in pieces:
                if isinstance(p.tmpl, Sub):
                    raise Unsupported('set of a nested sequence')
                # an element of these, if there is any
                index = self.ctx.fresh('some', INT)
                iv = new_iv()
                inside = lambda i: conj(0 <= i, i < p.n, p.guard_at(i))
                some = inside(index)
                self.ctx.assume(z3.Or(some, z3.ForAll([iv], z3.Not(
                        inside(iv)))))
                if self.ctx.branch(some):
                    result = p.at(self.ctx, index)
                    break
            else:
                raise Infeasible
        same = []
        for p in pieces:
            if isinstance(p, Lit):
                same.append(term(self.equal_formula(p.value, result)))
            else:
                iv = new_iv()
                same.append(z3.ForAll([iv], z3.Implies(
                        conj(0 <= iv, iv < p.n, p.guard_at(iv)),
                        term(self.equal_formula(p.at(self.ctx, iv),
                                                result)))))
        if not self.ctx.branch(conj(*same)):
            self.raise_(ValueError, 'unpack')
        return result

    def dict_pieces(self, d):
        result = []
        virtual = [p for p in d.pieces
                   if isinstance(p, Lit) and p.value.virtual]
        if len(virtual) > 1:
            raise Unsupported('order of the entries created in a loop')
        for p in d.pieces:
            if isinstance(p, Lit):
                present = z3.simplify(p.value.present)
                if z3.is_true(present):
                    result.append(p)
                elif not z3.is_false(present):
                    iv = new_iv()
                    result.append(Gen(z3.If(present, z3.IntVal(1),
                                            z3.IntVal(0)), iv, p.value))
            else:
                result.append(p)
        return result

    def dict_view(self, d, kind):
        if d.extra == 'unordered':
            raise Unsupported('order of dictionary keys')
        get = {'keys': lambda e: e.key, 'values': lambda e: e.value,
               'items': lambda e: VTup([Lit(e.key), Lit(e.value)])}[kind]
        return [Lit(get(p.value)) if isinstance(p, Lit)
                else Gen(p.n, p.iv, get(p.tmpl), p.guard)
                for p in self.dict_pieces(d)]

    def iterate(self, v, body):
        """Runs the body on every element."""
        v = self.force(v)
        pieces = self.iter_pieces(v)
        if pieces is None:
            if isinstance(v, GenObj):
                if v.spent:
                    raise Unsupported('iterator used twice')
                v.spent = True
                v.run(body)
                return
            if isinstance(v, Inst) and not isinstance(v.cls, Cases) \
                    and hasattr(v.cls, '__iter__'):
                self.iterate(self.call_method(v, '__iter__'), body)
                return
            if v is None or isinstance(v, (bool, int, SInt, SBool, type)):
                self.raise_(TypeError, 'not iterable')
            raise Unsupported(f'iteration over {v!r}'[:100])
        self.iterate_pieces(self.clean(pieces), body)

    def iterate_pieces(self, pieces, body):
        for p in pieces:
            if isinstance(p, Lit):
                body(p.value)
            elif isinstance(p.tmpl, Sub):
                loops.run(self, p,
                          lambda sub: self.iterate_pieces(sub.pieces, body))
            else:
                loops.run(self, p, body)

    def collect(self, v, ordered=True):
        """
        Pieces of all the elements of the iterable,
        with repetitions and in any order if that does not matter.
        """
        v = self.force(v)
        if not ordered and isinstance(v, (SetObj, set, frozenset)):
            return self.set_pieces(v)
        if isinstance(v, Endless):
            raise Unsupported('all elements of an endless iterator')
        pieces = self.iter_pieces(v)
        if pieces is not None:
            return pieces
        result = self.new_list()

        def body(element):
            self.ctx.touch(result)
            result.pieces.append(Lit(element))

        self.iterate(v, body)
        return list(result.pieces)

    # --------------------------------------------------------- membership

    def exists_equal(self, p, value):
        """
        Formula of a generic run having an element equal to the value,
        with the index eliminated if the element is given
        by an injective function.
        """
        iv = new_iv()
        key = subst(p.tmpl, [(p.iv, iv)])
        guard = conj(0 <= iv, iv < p.n,
                     z3.substitute(p.guard, (p.iv, iv)))
        equal = self.equal_formula(key, value)
        if isinstance(equal, bool):
            return self.exists(iv, conj(guard, equal))
        kt = key.t if isinstance(key, (SStr, SVal, SEnum, SInt)) else None
        if kt is not None:
            witness = self.invert(kt, iv, value)
            if witness is not None:
                domain, index, whole = witness
                if (whole is not None and not p.filtered
                        and z3.simplify(p.n).eq(z3.simplify(whole))):
                    return domain
                return conj(domain, z3.substitute(guard, (iv, index)))
        return self.exists(iv, conj(guard, equal))

    def invert(self, t, iv, value):
        if not z3.is_app(t):
            return None
        if t.eq(iv):
            v = self.as_int(value)
            return None if v is None else (TRUE, v, None)
        name = t.decl().name()
        injection = self.ctx.injections.get(name)
        if injection is None or t.num_args() == 0:
            return None
        last = t.arg(t.num_args() - 1)
        shift = z3.simplify(last - iv)
        if loops.occurs(shift, iv):
            return None
        for k in range(t.num_args() - 1):
            if loops.occurs(t.arg(k), iv):
                return None
        v = (self.as_str(value) if t.sort() == StrS
             else (self.as_int(value) if t.sort() == INT
                   else self.as_val(value)))
        if v is None:
            return None
        prefix = [t.arg(k) for k in range(t.num_args() - 1)]
        domain, index, count = injection(*prefix, v)
        shift = z3.simplify(shift)
        whole = z3.is_int_value(shift) and shift.as_long() == 0
        return domain, z3.simplify(index - shift), count if whole else None

    def equal_formula(self, a, b):
        """Equality of simple values as a formula, without branching."""
        if isinstance(a, VIte):
            x, y = self.equal_formula(a.a, b), self.equal_formula(a.b, b)
            return z3.If(a.c, term(x), term(y))
        if isinstance(b, VIte):
            return self.equal_formula(b, a)
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return self.as_str(a) == self.as_str(b)
        if isinstance(a, (SEnum, SInt, SBool)) or isinstance(b, (SEnum, SInt,
                                                                 SBool)):
            x, y = self.as_int(a), self.as_int(b)
            if x is not None and y is not None:
                return z3.simplify(x == y)
            other = b if isinstance(a, (SEnum, SInt, SBool)) else a
            if not isinstance(other, SVal):
                return False
        if isinstance(a, SVal) or isinstance(b, SVal):
            for v, other in ((a, b), (b, a)):
                if isinstance(v, SVal) and (v.schema or {}).get('eq'):
                    result = v.schema['eq'](self, v, other)
                    if isinstance(result, SBool):
                        return result.t
            return self.as_val(a) == self.as_val(b)
        if isinstance(a, tuple):
            a = self.lift(a)
        if isinstance(b, tuple):
            b = self.lift(b)
        if isinstance(a, VTup) and isinstance(b, VTup):
            if (all(isinstance(p, Lit) for p in a.pieces)
                    and all(isinstance(p, Lit) for p in b.pieces)):
                if len(a.pieces) != len(b.pieces):
                    return False
                return conj(*[term(self.equal_formula(x.value, y.value))
                              for x, y in zip(a.pieces, b.pieces)])
            formula = self.nested_equality(a, b)
            if formula is not None:
                return formula
            raise Unsupported('equality of sequences of symbolic length')
        simple = (str, SStr, VStr, VTup, int, float, bytes, type,
                  type(None), types.FunctionType, enum.Enum)
        if isinstance(a, Inst) or isinstance(b, Inst):
            if a is b:
                return True
            if (isinstance(a, Inst) and isinstance(b, Inst)
                    and a.ident is not None and b.ident is not None
                    and not a.frozen is None):
                if a.ident[0] == b.ident[0]:
                    return a.ident[1] == b.ident[1]
            other = b if isinstance(a, Inst) else a
            inst = a if isinstance(a, Inst) else b
            if not isinstance(other, (Inst, SVal)) and isinstance(
                    inst.cls, type) and not hasattr(inst.cls, '__eq__'):
                return False
            raise Unsupported('equality of objects inside of a formula')
        if isinstance(a, VStr) or isinstance(b, VStr):
            raise Unsupported('equality of symbolic texts')
        if isinstance(a, (Sym, ListObj, DictObj)) or isinstance(
                b, (Sym, ListObj, DictObj)):
            if isinstance(a, simple) != isinstance(b, simple):
                return False
            if a is b:
                return True
            raise Unsupported(f'equality of {type(a).__name__} '
                              f'and {type(b).__name__}')
        return bool(a == b)

    def contains_formula(self, container, value):
        if isinstance(value, VIte):
            return z3.If(value.c,
                         term(self.contains_formula(container, value.a)),
                         term(self.contains_formula(container, value.b)))
        if isinstance(container, DictObj):
            options = []
            for p in container.pieces:
                if isinstance(p, Lit):
                    options.append(conj(p.value.present, self.equal_formula(
                            p.value.key, value)))
                else:
                    options.append(self.exists_equal(
                            Gen(p.n, p.iv, p.tmpl.key, p.guard), value))
            return disj(*options)
        override = self.ctx.contracts.get(('contains', id(container)))
        if override is not None:
            return override(self, value)
        override = self.ctx.contracts.get(('dict', id(container)))
        if override is not None:
            if self.ctx.generics:
                raise Unsupported('keys of a table of a contract')
            try:
                override(self, value)
            except PyExc as error:
                if error.cls is not KeyError:
                    raise
                return False
            return True
        if isinstance(container, DictView):
            if container.kind == 'keys':
                return self.contains_formula(container.dict, value)
            pieces = self.iter_pieces(container)
        elif isinstance(container, (dict, set, frozenset,
                                    types.MappingProxyType)):
            if isinstance(value, (Sym, Inst)):
                return disj(*[self.equal_formula(x, value)
                              for x in container])
            return value in container
        elif isinstance(container, (tuple, list)):
            return disj(*[self.equal_formula(x, value) for x in container])
        elif isinstance(container, (VTup, ListObj)):
            pieces = list(container.pieces)
        elif isinstance(container, type({}.keys())):
            return disj(*[self.equal_formula(x, value) for x in container])
        else:
            raise Unsupported(f'membership in {container!r}'[:80])
        options = []
        for p in pieces:
            if isinstance(p, Lit):
                options.append(self.equal_formula(p.value, value))
            elif isinstance(p.tmpl, Sub):
                iv = new_iv()
                sub = subst(p.tmpl, [(p.iv, iv)])
                inner = term(self.contains_formula(VTup(sub.pieces), value))
                options.append(self.exists(
                        iv, conj(0 <= iv, iv < p.n,
                                 z3.substitute(p.guard, (p.iv, iv)), inner)))
            else:
                options.append(self.exists_equal(p, value))
        return disj(*options)

    def contains(self, container, value):
        container, value = self.force(container), self.force(value)
        if isinstance(container, GenObj):
            pieces = self.collect(container)
            container = VTup(pieces)
        if isinstance(container, Inst):
            if not isinstance(container.cls, Cases) and hasattr(
                    container.cls, '__contains__'):
                return self.call_method(container, '__contains__', value)
            raise Unsupported('membership in an object')
        if isinstance(container, str):
            if isinstance(value, str):
                return value in container
            raise Unsupported('symbolic text search')
        if isinstance(container, SVal):
            hook = (container.schema or {}).get('contains')
            if hook is not None:
                return hook(self, container, value)
        if isinstance(container, (VTup, ListObj, tuple, list)) and isinstance(
                value, Inst):
            func = self.prelude_funcs['any']
            return self.call(func, [GenObj(
                    lambda consume: self.iterate(container, lambda x: consume(
                            self.mk_or_identity(x, value))))], {})
        return self.mk_bool(self.contains_formula(container, value))

    def mk_or_identity(self, x, y):
        if x is y:
            return True
        return self.eq(x, y)

    # ------------------------------------------------------------ equality

    def eq(self, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, SVal) and a.schema and a.schema.get('eq'):
            return a.schema['eq'](self, a, b)
        if isinstance(b, SVal) and b.schema and b.schema.get('eq'):
            return b.schema['eq'](self, a, b)
        a_inst, b_inst = isinstance(a, Inst), isinstance(b, Inst)
        if a_inst or b_inst:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Inst):
                    cls = self.host_class_of(x)
                    if cls.__eq__ is not object.__eq__:
                        result = self.call_class_attr(cls, '__eq__', x, [y])
                        if result is not NotImplemented:
                            return result
                elif not isinstance(y, Inst):
                    break
            return self.identical(a, b)
        if isinstance(a, tuple):
            a = self.lift(a)
        if isinstance(b, tuple):
            b = self.lift(b)
        if (isinstance(a, VTup) and isinstance(b, VTup)
                or type(a) is ListObj and type(b) is ListObj):
            if self.pieces_same(a.pieces, b.pieces):
                return True
            if type(a) is VTup:
                formula = self.nested_equality(a, b)
                if formula is not None:
                    return self.mk_bool(formula)
            a_pieces = self.materialized(a.pieces)
            b_pieces = self.materialized(b.pieces)
            n, m = self.seq_len(a_pieces), self.seq_len(b_pieces)
            if not self.ctx.branch(z3.simplify(n == m)):
                return False
            pairs = self.zip_pieces([a_pieces, b_pieces], 'equal')
            return self.call(self.prelude_funcs['equal_pairs'],
                             [VTup(pairs)], {})
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            sort, wrap = self.element_sort(a, b)
            x = z3.Const(f'$eq{self.ctx.oid()}', sort)
            return self.mk_bool(z3.ForAll([x], term(
                    self.contains_formula(a, wrap(x)))
                    == term(self.contains_formula(b, wrap(x)))))
        return self.mk_bool(self.equal_formula(a, b))

    def nested_equality(self, a, b):
        """
        Formula of equality of strings and of tuples of them, nested in any
        way, one of tuples of known length and the other not; all of them
        are equal to themselves.
        """
        a, b = self.force(a), self.force(b)
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            return term(self.equal_formula(a, b))
        a, b = [self.lift(x) if isinstance(x, tuple) else x for x in (a, b)]
        if not (isinstance(a, VTup) and isinstance(b, VTup)):
            return None
        plain = [all(isinstance(p, Lit) for p in x.pieces) for x in (a, b)]
        if not any(plain):
            return None
        if plain[0]:
            a, b = b, a
        for p in a.pieces:
            if isinstance(p, Gen) and (p.filtered or not isinstance(
                    p.tmpl, (SStr, VTup))):
                return None
        if all(plain) and len(a.pieces) != len(b.pieces):
            return FALSE
        formulas = ([] if all(plain)
                    else [self.seq_len(a.pieces) == len(b.pieces)])
        for index, p in enumerate(b.pieces):
            element = (a.pieces[index].value if all(plain)
                       else self.pieces_at(a.pieces, z3.IntVal(index)))
            formula = (self.nested_options(element, p.value))
            if formula is None:
                return None
            formulas.append(formula)
        return z3.simplify(z3.And(*formulas))

    def nested_options(self, a, b):
        if isinstance(a, VIte):
            x, y = [self.nested_options(v, b) for v in (a.a, a.b)]
            return None if x is None or y is None else z3.If(a.c, x, y)
        return self.nested_equality(a, b)

    def not_eq(self, a, b):
        a, b = self.force(a), self.force(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst):
                cls = self.host_class_of(x)
                if cls.__ne__ is not object.__ne__:
                    result = self.call_class_attr(cls, '__ne__', x, [y])
                    if result is not NotImplemented:
                        return result
                elif cls.__eq__ is not object.__eq__:
                    result = self.call_class_attr(cls, '__eq__', x, [y])
                    if result is not NotImplemented:
                        return self.negate(result)
        if isinstance(a, Inst) or isinstance(b, Inst):
            return self.negate(self.identical(a, b))
        return self.negate(self.eq(a, b))

    def element_sort(self, *sets):
        for s in sets:
            for p in s.pieces:
                v = p.value if isinstance(p, Lit) else p.tmpl
                if isinstance(v, (SStr, str)):
                    return StrS, SStr
                if isinstance(v, (SInt, int)):
                    return INT, SInt
                if isinstance(v, SVal):
                    return ValS, SVal
        raise Unsupported('elements of a set')

    def pieces_same(self, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x is y:
                continue
            if type(x) is not type(y):
                return False
            if isinstance(x, Lit):
                if x.value is not y.value:
                    return False
            else:
                return False
        return True

    def identical(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is b:
            return True
        if isinstance(a, SEnum) or isinstance(b, SEnum):
            x, y = (a, b) if isinstance(a, SEnum) else (b, a)
            if isinstance(y, (SEnum, x.cls)):
                return self.mk_bool(x.t == self.as_int(y))
            return False
        if isinstance(a, SBool) or isinstance(b, SBool):
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                x = a.t if isinstance(a, SBool) else z3.BoolVal(a)
                y = b.t if isinstance(b, SBool) else z3.BoolVal(b)
                return self.mk_bool(x == y)
            return False
        if isinstance(a, SVal) or isinstance(b, SVal):
            other = b if isinstance(a, SVal) else a
            opaque = a if isinstance(a, SVal) else b
            if isinstance(other, (SStr, VStr, SInt, VTup, ListObj, DictObj,
                                  str, int)) and other is not True and (
                    other is not False):
                raise Unsupported('identity of values')
            if opaque.schema is not None and opaque.schema.get('fresh'):
                return False
            return self.mk_bool(self.as_val(a) == self.as_val(b))
        if isinstance(a, Inst) and isinstance(b, Inst):
            if a.ident is not None and b.ident is not None:
                if a.ident[0] != b.ident[0]:
                    return False
                return self.mk_bool(a.ident[1] == b.ident[1])
            if a.ident is not None or b.ident is not None:
                return False
            if a.frozen or b.frozen:
                raise Unsupported('identity of generic objects')
            return a.oid == b.oid
        if isinstance(a, (ListObj, DictObj)) and isinstance(b, (ListObj,
                                                                DictObj)):
            if a.frozen or b.frozen:
                raise Unsupported('identity of generic objects')
            return False
        if isinstance(a, (Sym, Inst, ListObj, DictObj)) or isinstance(
                b, (Sym, Inst, ListObj, DictObj)):
            for x in (a, b):
                if not isinstance(x, (Sym, Inst, ListObj, DictObj)):
                    if x is None or x is Ellipsis or x is NotImplemented \
                            or isinstance(x, (bool, type, enum.Enum)):
                        return False
            if isinstance(a, (Inst, ListObj, DictObj)) or isinstance(
                    b, (Inst, ListObj, DictObj)):
                return False
            raise Unsupported('identity of values')
        return a is b

    # -------------------------------------------------------------- calls

    def setup_builtins(self):
        from . import pybuiltins
        self.builtins = pybuiltins.table(self)
        self.methods = pybuiltins.METHODS

    def func_of_host(self, host, owner=None):
        node = SOURCES.function(host)
        env = None
        if host.__closure__:
            env = Env(self.ctx.oid())
            for name, cell in zip(host.__code__.co_freevars,
                                  host.__closure__):
                try:
                    env.vars[name] = cell.cell_contents
                except ValueError:
                    pass
        return Func(node, env, host.__globals__, host.__defaults__ or (),
                    host.__kwdefaults__ or {}, host.__qualname__, host,
                    owner)

    def in_program(self, host):
        module = getattr(host, '__module__', None) or ''
        return (module == 'paradigm' or module.startswith('paradigm.')
                or module.startswith('pyvc_extracted'))

    def call(self, f, args, kwargs):
        """``args`` - list of pieces; ``kwargs`` - dict or DictObj."""
        ctx = self.ctx
        f = self.force(f)
        args = [a if isinstance(a, (Lit, Gen)) else Lit(a) for a in args]
        ctx.steps += 1
        if ctx.steps > 400000:
            raise Unsupported('too many steps')
        if isinstance(f, Prim):
            return f.call(args, kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [Lit(f.self), *args], kwargs)
        if isinstance(f, Inst):
            cls = self.host_class_of(f)
            return self.call_class_attr(cls, '__call__', f, args, kwargs)
        if isinstance(f, SVal):
            hook = (f.schema or {}).get('call')
            if hook is not None:
                return hook(self, f, args, kwargs)
            raise Unsupported(f'call of an opaque object {f}')
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [Lit(f.__self__), *args], kwargs)
        try:
            contract = ctx.contracts.get(f)
        except TypeError:
            contract = None
        if contract is not None:
            ctx.used.add(getattr(f, '__qualname__', repr(f)))
            return contract(self, args, kwargs)
        if isinstance(f, types.FunctionType):
            if hasattr(f, 'dispatch') and hasattr(f, 'registry'):
                first = args[0].value
                hook = None
                forced = self.force(first)
                if isinstance(forced, SVal):
                    hook = (forced.schema or {}).get('dispatch')
                if hook is not None:
                    impl = hook(self, f, forced)
                else:
                    impl = f.dispatch(self.host_class_of(forced))
                return self.call(impl, [Lit(forced), *args[1:]], kwargs)
            if f in self.builtins:
                return self.builtins[f](args, kwargs)
            if self.in_program(f):
                return self.call_func(self.func_of_host(f), args, kwargs)
        try:
            handler = self.builtins.get(f)
        except TypeError:
            handler = None
        if handler is not None:
            return handler(args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, functools.partial):
            merged = dict(f.keywords)
            merged.update(self.plain_kwargs(kwargs))
            return self.call(f.func, [*[Lit(a) for a in f.args], *args],
                             merged)
        if isinstance(f, (operator.itemgetter, operator.attrgetter)):
            given = [a.value for a in args if isinstance(a, Lit)]
            if len(given) != 1 or len(args) != 1:
                raise Unsupported('arguments of a getter')
            found = [self.getitem(given[0], key)
                     if isinstance(f, operator.itemgetter)
                     else functools.reduce(self.getattr, key.split('.'),
                                           given[0])
                     for key in f.__reduce__()[1]]
            return (VTup([Lit(v) for v in found]) if len(found) > 1
                    else found[0])
        bound_self = getattr(f, '__self__', None)
        if (isinstance(f, types.BuiltinFunctionType)
                and bound_self is not None
                and not isinstance(bound_self, types.ModuleType)):
            return self.call_host(f, args, kwargs)
        return self.call_host(f, args, kwargs)

    def plain_kwargs(self, kwargs):
        if isinstance(kwargs, DictObj):
            result = {}
            for p in kwargs.pieces:
                if not isinstance(p, Lit) or not isinstance(p.value.key,
                                                            str):
                    raise Unsupported('symbolic keyword arguments')
                result[p.value.key] = p.value.value
            return result
        return kwargs

    def is_host(self, v):
        return not isinstance(v, (Sym, Inst, ListObj, DictObj, Entry))

    def to_host(self, v):
        """Host value of a fully known value or Unsupported."""
        if isinstance(v, VTup):
            if all(isinstance(p, Lit) for p in v.pieces):
                return tuple(self.to_host(p.value) for p in v.pieces)
        elif isinstance(v, SetObj):
            if all(isinstance(p, Lit) for p in v.pieces):
                return {self.to_host(p.value) for p in v.pieces}
        elif isinstance(v, ListObj):
            if all(isinstance(p, Lit) for p in v.pieces):
                return [self.to_host(p.value) for p in v.pieces]
        elif isinstance(v, DictObj):
            if all(isinstance(p, Lit) for p in v.pieces):
                return {self.to_host(p.value.key): self.to_host(
                        p.value.value) for p in v.pieces}
        elif isinstance(v, VStr):
            if all(isinstance(p, str) for p in v.parts):
                return ''.join(v.parts)
        elif self.is_host(v):
            return v
        raise Unsupported(f'symbolic value passed to the library: {v!r}'
                          [:160])

    _PURE_HOST = {str.split, str.join}

    def call_host(self, f, args, kwargs):
        kwargs = self.plain_kwargs(kwargs)
        name = getattr(f, '__qualname__', repr(f))
        if not all(isinstance(a, Lit) for a in args):
            raise Unsupported(f'symbolic arguments of library {name}')
        host_args = [self.to_host(a.value) for a in args]
        host_kwargs = {k: self.to_host(v) for k, v in kwargs.items()}
        if not self.host_call_allowed(f):
            raise Unsupported(f'call of library function {name}')
        try:
            return f(*host_args, **host_kwargs)
        except Exception as error:
            raise PyExc(type(error), error.args)

    def host_call_allowed(self, f):
        module = getattr(f, '__module__', None)
        owner = getattr(f, '__self__', None)
        if isinstance(owner, (str, int, tuple, bytes, frozenset)):
            return True
        if isinstance(owner, type) and owner in (str, int, dict, bytes,
                                                 tuple):
            return True
        if module in ('operator', '_operator', 'typing', 'math'):
            return True
        if f in (type(None), type(NotImplemented), type(Ellipsis)):
            return True
        objclass = getattr(f, '__objclass__', None)
        return objclass in (str, int, bytes, tuple)

    def bind_args(self, f, args, kwargs, env):
        spec = f.node.args
        names = [a.arg for a in [*spec.posonlyargs, *spec.args]]
        posonly = len(spec.posonlyargs)
        queue = list(args)
        values = {}
        error = functools.partial(self.raise_, TypeError)
        star = []
        for index, name in enumerate(names):
            while queue and isinstance(queue[0], Gen):
                p = self.materialize(queue[0])
                if isinstance(p.tmpl, Sub):
                    raise Unsupported('nested star argument')
                if self.ctx.branch(p.n > 0):
                    first = p.at(self.ctx, z3.IntVal(0))
                    iv = new_iv()
                    rest = Gen(z3.simplify(p.n - 1), iv,
                               p.at(self.ctx, iv + 1))
                    queue[0:1] = [Lit(first), rest]
                else:
                    queue.pop(0)
            if queue:
                values[name] = queue.pop(0).value
            else:
                break
        queue = self.clean(queue)
        if spec.vararg is not None:
            star = queue
        elif queue:
            for p in queue:
                if isinstance(p, Lit):
                    error('too many positional arguments')
                elif self.truth(self.mk_bool(term(self.nonempty([p])))):
                    error('too many positional arguments')
        by_keyword = names[posonly:] + [a.arg for a in spec.kwonlyargs]
        extra = []
        extra_kind = None
        if isinstance(kwargs, DictObj):
            items = kwargs.pieces
            extra_kind = kwargs.extra
        else:
            items = [Lit(self.new_entry(k, v)) for k, v in kwargs.items()]
        for p in items:
            if isinstance(p, Lit) and isinstance(p.value.key, str):
                if not z3.is_true(z3.simplify(p.value.present)):
                    raise Unsupported('conditional keyword argument')
                key = p.value.key
                if key in by_keyword:
                    if key in values:
                        error(f'multiple values for argument {key}')
                    values[key] = p.value.value
                elif spec.kwarg is None:
                    error(f'unexpected keyword argument {key}')
                else:
                    extra.append(Lit(self.new_entry(key, p.value.value)))
            else:
                key = p.value.key if isinstance(p, Lit) else p.tmpl.key
                for name in by_keyword:
                    present = (self.contains_formula(
                            DictObj(None, [p]), name))
                    if self.ctx.branch(present):
                        if name in values:
                            error(f'multiple values for argument {name}')
                        raise Unsupported('symbolic keyword argument '
                                          'for a named parameter')
                if spec.kwarg is None:
                    if self.truth(self.mk_bool(term(self.nonempty([p])))):
                        error('unexpected keyword argument')
                else:
                    extra.append(p)
        defaults = dict(zip(names[len(names) - len(f.defaults):],
                            f.defaults))
        for name in names:
            if name not in values:
                if name in defaults:
                    values[name] = defaults[name]
                else:
                    error(f'missing argument {name}')
        for a in spec.kwonlyargs:
            if a.arg not in values:
                if a.arg in f.kwdefaults:
                    values[a.arg] = f.kwdefaults[a.arg]
                else:
                    error(f'missing keyword argument {a.arg}')
        if spec.vararg is not None:
            values[spec.vararg.arg] = VTup(star)
        if spec.kwarg is not None:
            d = self.new_dict(extra)
            d.extra = extra_kind
            values[spec.kwarg.arg] = d
        env.vars.update(values)

    _locals_cache = {}

    def call_func(self, f, args, kwargs):
        if f.host is not None:
            contract = self.ctx.contracts.get(f.host)
            if contract is not None:
                self.ctx.used.add(f.host.__qualname__)
                return contract(self, args, kwargs)
        key = id(f.node)
        cached = self._locals_cache.get(key)
        if cached is None:
            cached = self._locals_cache[key] = (local_names(f.node), f.node)
        env = Env(self.ctx.oid(), f.env, cached[0])
        self.bind_args(f, args, kwargs, env)
        frame = Frame(f, env)
        if self.depth > _MAX_DEPTH:
            raise Unsupported('recursion too deep: a contract is needed')
        if isinstance(f.node, ast.AsyncFunctionDef):
            raise Unsupported('asynchronous function')
        if is_generator(f.node):
            def run(consumer):
                frame.on_yield = consumer
                self.run_body(frame)
            return GenObj(run)
        return self.run_body(frame)

    def run_body(self, frame):
        self.depth += 1
        try:
            node = frame.func.node
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, frame)
            try:
                self.exec_block(node.body, frame)
            except ReturnEx as result:
                if result.token is not frame.token:
                    raise
                return result.value
            return None
        finally:
            self.depth -= 1

    def instantiate(self, cls, args, kwargs):
        if cls in self.builtins:
            return self.builtins[cls](args, kwargs)
        if isinstance(cls, type) and issubclass(cls, BaseException):
            if not self.in_program(cls) or (cls.__init__ is
                                            Exception.__init__):
                return ExcVal(cls, args)
        if not self.in_program(cls):
            if issubclass(cls, enum.Enum):
                return self.enum_member(cls, args[0].value)
            return self.call_host(cls, args, kwargs)
        if issubclass(cls, enum.Enum):
            return self.enum_member(cls, args[0].value)
        hook = self.ctx.contracts.get(('new', cls))
        if hook is not None:
            return hook(self, args, kwargs)
        new = inspect.getattr_static(cls, '__new__', None)
        for k in cls.__mro__:
            if '__new__' in vars(k):
                new = vars(k)['__new__']
                break
        if isinstance(new, staticmethod):
            new = new.__func__
        if isinstance(new, types.FunctionType) and self.in_program(new):
            result = self.call_func(self.func_of_host(new, cls),
                                    [Lit(cls), *args], kwargs)
        else:
            result = Inst(self.ctx.oid(), cls)
        if isinstance(result, Inst) and result.cls is cls:
            init = cls.__init__
            if isinstance(init, types.FunctionType) and self.in_program(
                    init):
                self.call_func(self.func_of_host(init, cls),
                               [Lit(result), *args], kwargs)
        return result

    def enum_member(self, cls, value):
        value = self.force(value)
        if isinstance(value, SEnum) and value.cls is cls:
            return value
        t = self.as_int(value)
        if isinstance(value, (SInt, SEnum)):
            valid = disj(*[t == m.value for m in cls])
            if not self.ctx.branch(valid):
                self.raise_(ValueError, value)
            return SEnum(cls, t)
        try:
            return cls(value)
        except ValueError as error:
            raise PyExc(ValueError, error.args)

    # ---------------------------------------------------------- attributes

    def class_attr(self, cls, name):
        for k in cls.__mro__:
            if name in vars(k):
                return k, vars(k)[name]
        return None, _MISSING

    def call_class_attr(self, cls, name, self_, args, kwargs=None):
        owner, attr = self.class_attr(cls, name)
        if attr is _MISSING:
            self.raise_(AttributeError, name)
        attr = self.unwrap(attr)
        return self.call(self.wrap_function(attr, owner), [Lit(self_), *[
            a if isinstance(a, (Lit, Gen)) else Lit(a) for a in args]],
            kwargs or {})

    def unwrap(self, attr):
        if isinstance(attr, staticmethod):
            return attr.__func__
        return attr

    def wrap_function(self, attr, owner):
        if isinstance(attr, types.FunctionType) and self.in_program(attr) \
                and attr not in self.ctx.contracts:
            return self.func_of_host(attr, owner)
        return attr

    def call_method(self, obj, name, *args, **kwargs):
        return self.call(self.getattr(obj, name), [Lit(a) for a in args],
                         kwargs)

    def getattr(self, obj, name, default=_MISSING):
        obj = self.force(obj)
        if isinstance(obj, Inst):
            return self.inst_getattr(obj, name, default)
        if isinstance(obj, SVal):
            schema = obj.schema or {}
            attrs = schema.get('attrs')
            if attrs is not None and name in attrs:
                return attrs[name](self, obj)
            hook = schema.get('getattr')
            if hook is not None:
                return hook(self, obj, name, default)
            raise Unsupported(f'attribute {name} of an opaque object')
        if isinstance(obj, (dict, types.MappingProxyType)):
            override = self.ctx.contracts.get(('dict', id(obj)))
            if override is not None and name == 'get':
                return self.table_get(obj, override)
            remove = self.ctx.contracts.get(('dictdel', id(obj)))
            if remove is not None and name == 'pop':
                return self.table_pop(obj, override, remove)
            self.without_contract(obj)
        if isinstance(obj, SEnum):
            if name == 'value':
                return SInt(obj.t)
            for k in obj.cls.__mro__:
                attr = vars(k).get(name)
                if isinstance(attr, types.FunctionType):
                    return Bound(self.wrap_function(attr, k), obj)
            raise Unsupported(f'attribute {name} of an enumeration member')
        if isinstance(obj, SuperProxy):
            cls = (obj.self if isinstance(obj.self, type)
                   else self.host_class_of(obj.self))
            mro = cls.__mro__
            for k in mro[mro.index(obj.owner) + 1:]:
                if name in vars(k):
                    attr = vars(k)[name]
                    if name == '__new__':
                        if k is object:
                            return Prim('object.__new__', self.object_new)
                        return self.wrap_function(self.unwrap(attr), k)
                    if k is object:
                        if name == '__init__':
                            return Prim('object.__init__',
                                        lambda a, kw: None)
                        if name in ('__eq__', '__hash__', '__repr__'):
                            raise Unsupported(f'object.{name}')
                    return Bound(self.wrap_function(attr, k), obj.self)
            self.raise_(AttributeError, name)
        if isinstance(obj, ExcVal):
            if name == 'args':
                return VTup(obj.args)
            raise Unsupported(f'attribute {name} of an exception')
        if isinstance(obj, (VTup, VStr, ListObj, DictObj, DictView, SStr,
                            SInt, SBool, GenObj)):
            method = self.methods.get((type(obj), name))
            if method is None and isinstance(obj, SetObj):
                method = self.methods.get((SetObj, name))
            if method is None:
                if name == '__class__':
                    return self.host_class_of(obj)
                raise Unsupported(f'method {name} of {type(obj).__name__}')
            return Prim(name, lambda args, kwargs: method(self, obj, args,
                                                          kwargs))
        if isinstance(obj, Func):
            if name in ('__qualname__', '__name__'):
                return obj.name.rsplit('.')[-1]
            raise Unsupported(f'attribute {name} of a function')
        if isinstance(obj, Bound):
            if name == '__func__':
                return obj.func
            if name == '__self__':
                return obj.self
            raise Unsupported(f'attribute {name} of a method')
        # host object
        if isinstance(obj, (tuple, list, set, frozenset, dict)) and not (
                isinstance(obj, type)):
            method = self.methods.get((type(self.lift(obj)), name))
            if method is not None and type(obj) in (tuple, list, set, dict,
                                                    frozenset):
                lifted = self.lift(obj)
                return Prim(name, lambda args, kwargs: method(
                        self, lifted, args, kwargs))
        if isinstance(obj, str):
            method = self.methods.get((VStr, name))
            if method is not None:
                return Prim(name, lambda args, kwargs: method(
                        self, obj, args, kwargs))
        if isinstance(obj, type) and self.in_program(obj):
            owner, attr = self.class_attr(obj, name)
            if attr is not _MISSING:
                if isinstance(attr, classmethod):
                    return Bound(self.wrap_function(attr.__func__, owner),
                                 obj)
                if isinstance(attr, (staticmethod, types.FunctionType)):
                    return self.wrap_function(self.unwrap(attr), owner)
        override = self.ctx.contracts.get(('attr', id(obj), name))
        if override is not None:
            return override(self)
        try:
            return getattr(obj, name)
        except AttributeError as error:
            if default is not _MISSING:
                return default
            raise PyExc(AttributeError, error.args)

    def inst_getattr(self, obj, name, default=_MISSING):
        cls = obj.cls
        if isinstance(cls, Cases):
            # shared definition of a plain accessor needs no branching
            field = self.accessor(cls.options[0][1], name)
            if field is None or any(self.accessor(k, name) != field
                                    for _, k in cls.options[1:]):
                cls = self.host_class_of(obj)
            else:
                return self.field(obj, field, default)
        if name == '__class__':
            return cls
        owner, attr = self.class_attr(cls, name)
        if attr is not _MISSING:
            if isinstance(attr, property):
                field = self.accessor(cls, name)
                if field is not None:
                    return self.field(obj, field, default)
                return self.call(self.wrap_function(attr.fget, owner),
                                 [Lit(obj)], {})
            if isinstance(attr, types.FunctionType):
                return Bound(self.wrap_function(attr, owner), obj)
            if isinstance(attr, classmethod):
                return Bound(self.wrap_function(attr.__func__, owner), cls)
            if isinstance(attr, staticmethod):
                return self.wrap_function(attr.__func__, owner)
            if isinstance(attr, functools.cached_property):
                raise Unsupported('cached property')
            if not isinstance(attr, (types.MemberDescriptorType,
                                     types.GetSetDescriptorType)):
                if name in obj.fields:
                    return self.field(obj, name, default)
                if not self.in_program(cls):
                    raise Unsupported(f'attribute {name} of {cls.__name__}')
                return attr
        return self.field(obj, name, default)

    _accessors = {}

    def accessor(self, cls, name):
        """Field returned by a property, or the name of a slot itself."""
        key = (cls, name)
        if key in self._accessors:
            return self._accessors[key]
        result = None
        owner, attr = self.class_attr(cls, name)
        if attr is _MISSING or isinstance(attr, types.MemberDescriptorType):
            result = name
        elif isinstance(attr, property) and self.in_program(attr.fget):
            node = SOURCES.function(attr.fget)
            body = [s for s in node.body
                    if not (isinstance(s, ast.Expr)
                            and isinstance(s.value, ast.Constant))]
            if (len(body) == 1 and isinstance(body[0], ast.Return)
                    and isinstance(body[0].value, ast.Attribute)
                    and isinstance(body[0].value.value, ast.Name)
                    and body[0].value.value.id == 'self'
                    and isinstance(self.class_attr(
                            cls, body[0].value.attr)[1],
                            (types.MemberDescriptorType, type(_MISSING)))):
                result = body[0].value.attr
        self._accessors[key] = result
        return result

    def field(self, obj, name, default=_MISSING):
        try:
            present, value = obj.fields[name]
        except KeyError:
            if (obj.ident is not None and isinstance(obj.cls, type)
                    and isinstance(self.class_attr(obj.cls, name)[1],
                                   types.MemberDescriptorType)):
                # the contract tells nothing of this part of the object
                raise Unsupported(f'{name} of {obj.cls.__name__} given by '
                                  'a contract')
            if default is not _MISSING:
                return default
            hook = self.ctx.contracts.get(('field', obj.cls))
            if hook is not None:
                return hook(self, obj, name)
            cls = obj.cls
            if isinstance(cls, type) and not self.in_program(cls):
                raise Unsupported(f'attribute {name} of {cls.__name__}')
            self.raise_(AttributeError, name)
        if not self.ctx.branch(present):
            if default is not _MISSING:
                return default
            self.raise_(AttributeError, name)
        return value

    def object_new(self, args, kwargs):
        cls = self.force(args[0].value)
        return Inst(self.ctx.oid(), cls)

    def setattr(self, obj, name, value):
        obj = self.force(obj)
        if isinstance(obj, Inst):
            if isinstance(obj.cls, Cases):
                raise Unsupported('assignment to a symbolic object')
            owner, attr = self.class_attr(obj.cls, name)
            if isinstance(attr, property):
                if attr.fset is None:
                    self.raise_(AttributeError, name)
                raise Unsupported('property assignment')
            if attr is _MISSING and not self.has_dict(obj.cls):
                self.raise_(AttributeError, name)
            self.ctx.touch(obj)
            obj.fields[name] = (TRUE, value)
            return
        hook = self.ctx.contracts.get(('setattr', type(obj)))
        if hook is not None:
            hook(self, obj, name, value)
            return
        raise Unsupported(f'attribute assignment to {type(obj).__name__}')

    def has_dict(self, cls):
        return any('__dict__' in vars(k) for k in cls.__mro__)

    # ---------------------------------------------------------- subscripts

    def getitem(self, obj, index):
        obj = self.force(obj)
        if isinstance(obj, (VTup, tuple, list)) or type(obj) is ListObj:
            pieces = self.iter_pieces(obj)
            return self.get_index(pieces, self.force(index))
        if isinstance(obj, DictObj):
            return self.dict_get(obj, index)
        if isinstance(obj, (dict, types.MappingProxyType)):
            override = self.ctx.contracts.get(('dict', id(obj)))
            if override is not None:
                return override(self, index)
            index = self.force(index)
            if isinstance(index, (SStr, SInt, SVal, SEnum)):
                return self.dict_get(self.lift(obj), index)
            index = self.to_host(index)
            try:
                return obj[index]
            except KeyError as error:
                raise PyExc(KeyError, error.args)
        if isinstance(obj, SVal):
            hook = (obj.schema or {}).get('getitem')
            if hook is not None:
                return hook(self, obj, index)
            raise Unsupported('subscript of an opaque object')
        if isinstance(obj, Inst):
            return self.call_method(obj, '__getitem__', index)
        if isinstance(obj, str):
            index = self.force(index)
            if isinstance(index, int):
                try:
                    return obj[index]
                except IndexError as error:
                    raise PyExc(IndexError, error.args)
        if self.is_host(obj):
            hook = self.ctx.contracts.get(('getitem', id(obj)))
            if hook is not None:
                return hook(self, index)
            index = self.to_host(self.force(index))
            try:
                return obj[index]
            except Exception as error:
                raise PyExc(type(error), error.args)
        raise Unsupported(f'subscript of {obj!r}'[:80])

    def dict_find(self, d, key):
        """Entry by the key, or None if there is no such."""
        key = self.force(key)
        for p in d.pieces:
            if isinstance(p, Lit):
                same = self.equal_formula(p.value.key, key)
                if self.ctx.branch(same):
                    return p.value
            else:
                present = self.exists_equal(
                        Gen(p.n, p.iv, p.tmpl.key, p.guard), key)
                if self.ctx.branch(present):
                    iv = new_iv()
                    k = subst(p.tmpl.key, [(p.iv, iv)])
                    kt = getattr(k, 't', None)
                    witness = (None if kt is None
                               else self.invert(kt, iv, key))
                    if witness is None:
                        index = self.ctx.fresh('at', INT)
                        self.ctx.assume(conj(0 <= index, index < p.n,
                                             p.guard_at(index)))
                        found = p.at(self.ctx, index)
                        self.ctx.assume(term(self.equal_formula(found.key,
                                                                key)))
                        return found
                    return p.at(self.ctx, witness[1])
        return None

    def dict_get(self, d, key):
        entry = self.dict_find(d, key)
        if d.factory is not None:
            if entry is None:
                value = self.call(d.factory, [], {})
                return self.dict_add(d, key, value).value
            if entry.virtual:
                self.ctx.touch(entry)
                entry.present = TRUE
                return entry.value
        if entry is not None and self.ctx.branch(entry.present):
            return entry.value
        self.raise_(KeyError, key)

    def dict_add(self, d, key, value):
        entry = self.new_entry(key, value)
        self.ctx.touch(d)
        d.pieces.append(Lit(entry))
        return entry

    def dict_set(self, d, key, value):
        key = self.force(key)
        entry = self.dict_find(d, key)
        if entry is None:
            self.dict_add(d, key, value)
            return
        self.ctx.touch(entry)
        if not z3.is_true(entry.present):
            raise Unsupported('assignment to a conditional entry')
        entry.value = value

    def setitem(self, obj, index, value):
        obj = self.force(obj)
        if isinstance(obj, DictObj):
            self.dict_set(obj, index, value)
            return
        if type(obj) is ListObj:
            index = self.force(index)
            if (isinstance(index, int)
                    and all(isinstance(p, Lit) for p in obj.pieces)
                    and -len(obj.pieces) <= index < len(obj.pieces)):
                self.ctx.touch(obj)
                obj.pieces[index] = Lit(value)
                return
            if isinstance(index, int) and index >= 0 and all(
                    isinstance(p, Lit) for p in obj.pieces[:index + 1]) and (
                    index < len(obj.pieces)):
                self.ctx.touch(obj)
                obj.pieces[index] = Lit(value)
                return
            if index == 0:
                pieces = self.materialized(obj.pieces)
                head = self.get_index(pieces, 0)
                rest = self.drop(pieces, z3.IntVal(1))
                self.ctx.touch(obj)
                obj.pieces = [Lit(value), *rest]
                return
            raise Unsupported('assignment to an element of a list')
        if isinstance(obj, dict):
            hook = self.ctx.contracts.get(('dictset', id(obj)))
            if hook is not None:
                hook(self, index, value)
                return
        if isinstance(obj, SVal):
            hook = (obj.schema or {}).get('setitem')
            if hook is not None:
                hook(self, obj, index, value)
                return
        raise Unsupported(f'item assignment to {type(obj).__name__}')

    def delitem(self, obj, index):
        obj = self.force(obj)
        if type(obj) is ListObj:
            index = self.force(index)
            if index == 0:
                if not self.ctx.branch(term(self.nonempty(obj.pieces))):
                    self.raise_(IndexError, 'out of range')
                rest = self.drop(list(obj.pieces), z3.IntVal(1))
                self.ctx.touch(obj)
                obj.pieces = list(rest)
                return
        if isinstance(obj, dict):
            hook = self.ctx.contracts.get(('dictdel', id(obj)))
            if hook is not None:
                hook(self, index)
                return
        if isinstance(obj, SVal):
            hook = (obj.schema or {}).get('delitem')
            if hook is not None:
                hook(self, obj, index)
                return
        raise Unsupported('deletion of an item')

    # ---------------------------------------------------------- statements

    def exec_block(self, body, frame):
        for statement in body:
            self.exec(statement, frame)

    def exec(self, s, frame):
        method = getattr(self, 'exec_' + type(s).__name__, None)
        if method is None:
            raise Unsupported(f'statement {type(s).__name__}')
        method(s, frame)

    def exec_Expr(self, s, frame):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, frame)

    def exec_Pass(self, s, frame):
        pass

    def exec_Return(self, s, frame):
        value = None if s.value is None else self.eval(s.value, frame)
        raise ReturnEx(frame.token, value)

    def exec_If(self, s, frame):
        if self.truth(self.eval(s.test, frame)):
            self.exec_block(s.body, frame)
        else:
            self.exec_block(s.orelse, frame)

    def exec_Assign(self, s, frame):
        value = self.eval(s.value, frame)
        for target in s.targets:
            self.assign(target, value, frame)

    def exec_AnnAssign(self, s, frame):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, frame), frame)

    def exec_AugAssign(self, s, frame):
        if isinstance(s.target, ast.Name):
            old = self.load_name(s.target.id, frame)
            value = self.eval(s.value, frame)
            self.assign(s.target, self.inplace(s.op, old, value), frame)
        elif isinstance(s.target, ast.Attribute):
            obj = self.eval(s.target.value, frame)
            old = self.getattr(obj, s.target.attr)
            value = self.eval(s.value, frame)
            self.setattr(obj, s.target.attr, self.inplace(s.op, old, value))
        else:
            obj = self.eval(s.target.value, frame)
            index = self.eval(s.target.slice, frame)
            old = self.getitem(obj, index)
            value = self.eval(s.value, frame)
            self.setitem(obj, index, self.inplace(s.op, old, value))

    def inplace(self, op, old, value):
        old = self.force(old)
        if type(old) is ListObj and isinstance(op, ast.Add):
            pieces = self.collect(value)
            self.ctx.touch(old)
            old.pieces.extend(pieces)
            return old
        if isinstance(old, SetObj):
            result = self.binop(op, old, value)
            self.ctx.touch(old)
            old.pieces = list(result.pieces)
            return old
        return self.binop(op, old, value)

    def exec_For(self, s, frame):
        iterable = self.eval(s.iter, frame)
        token = object()

        def body(element):
            self.assign(s.target, element, frame)
            try:
                self.loop_tokens.append(token)
                try:
                    self.exec_block(s.body, frame)
                finally:
                    self.loop_tokens.pop()
            except ContinueEx as error:
                if error.token is not token:
                    raise

        try:
            self.iterate(iterable, body)
        except BreakEx as error:
            if error.token is not token:
                raise
        else:
            self.exec_block(s.orelse, frame)

    loop_tokens = []

    def exec_While(self, s, frame):
        rule = self.ctx.invariants.get(getattr(frame.func.node, 'name', None))
        if rule is not None:
            whiles.run(self, rule, s, frame)
            return
        token = object()
        for _ in range(64):
            if not self.truth(self.eval(s.test, frame)):
                self.exec_block(s.orelse, frame)
                return
            self.loop_tokens.append(token)
            try:
                self.exec_block(s.body, frame)
            except ContinueEx as error:
                if error.token is not token:
                    raise
            except BreakEx as error:
                if error.token is not token:
                    raise
                return
            finally:
                self.loop_tokens.pop()
            if self.ctx.explorers and len(
                    self.ctx.explorers[-1].trace) > 40:
                raise Unsupported('while loop of symbolic length')
        raise Unsupported('while loop of symbolic length')

    def exec_Break(self, s, frame):
        raise BreakEx(self.loop_tokens[-1])

    def exec_Continue(self, s, frame):
        raise ContinueEx(self.loop_tokens[-1])

    def exec_Assert(self, s, frame):
        if not self.truth(self.eval(s.test, frame)):
            self.raise_(AssertionError)

    def exec_Raise(self, s, frame):
        if s.exc is None:
            if not frame.handling:
                raise Unsupported('bare raise')
            raise frame.handling[-1]
        value = self.eval_exception(s.exc, frame)
        if isinstance(value, PyExc):
            raise value
        if isinstance(value, ExcVal):
            raise PyExc(value.cls, value.args)
        if isinstance(value, type) and issubclass(value, BaseException):
            raise PyExc(value)
        if isinstance(value, BaseException):
            raise PyExc(type(value), value.args)
        if isinstance(value, SVal):
            cls = (value.schema or {}).get('class')
            if cls is not None:
                error = PyExc(cls, (value,))
                raise error
        value = self.force(value)
        if (value is None or type(value) is ListObj
                or isinstance(value, (VTup, DictObj, SStr, SInt, type, tuple,
                                      list, str, int))):
            raise PyExc(TypeError, ('exceptions must derive from '
                                    'BaseException',))
        raise Unsupported('raise of an unknown object')

    def eval_exception(self, node, frame):
        """Exceptions are told apart by class: messages are not evaluated."""
        if isinstance(node, ast.Call):
            f = self.eval(node.func, frame)
            if isinstance(f, type) and issubclass(f, BaseException):
                simple = []
                for a in node.args:
                    if isinstance(a, (ast.JoinedStr, ast.BinOp)):
                        return ExcVal(f, ())
                    if isinstance(a, ast.Starred):
                        return ExcVal(f, ())
                    try:
                        simple.append(Lit(self.eval(a, frame)))
                    except Unsupported:
                        return ExcVal(f, ())
                return ExcVal(f, tuple(simple))
        return self.eval(node, frame)

    def exc_matches(self, error, handler, frame):
        if handler.type is None:
            return True
        types_ = self.force(self.eval(handler.type, frame))
        if isinstance(types_, VTup):
            types_ = tuple(p.value for p in types_.pieces)
        if not isinstance(types_, tuple):
            types_ = (types_,)
        return any(issubclass(error.cls, t) for t in types_)

    def exec_Try(self, s, frame):
        try:
            try:
                self.exec_block(s.body, frame)
            except PyExc as error:
                for handler in s.handlers:
                    if self.exc_matches(error, handler, frame):
                        if handler.name:
                            self.store_name(handler.name,
                                            self.exc_value(error), frame)
                        frame.handling.append(error)
                        try:
                            self.exec_block(handler.body, frame)
                        finally:
                            frame.handling.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, frame)
        except (PyExc, ReturnEx, BreakEx, ContinueEx, StopConsume):
            self.exec_block(s.finalbody, frame)
            raise
        else:
            self.exec_block(s.finalbody, frame)

    def exc_value(self, error):
        if (len(error.exc_args) == 1 and isinstance(error.exc_args[0], SVal)
                and (error.exc_args[0].schema or {}).get('class')
                is error.cls):
            return error.exc_args[0]
        return ExcVal(error.cls, tuple(
                a if isinstance(a, (Lit, Gen)) else Lit(a)
                for a in error.exc_args))

    def exec_With(self, s, frame):
        def enter(items):
            if not items:
                self.exec_block(s.body, frame)
                return
            item, *rest = items
            manager = self.eval(item.context_expr, frame)
            value = self.enter_context(manager)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, value, frame)
            try:
                enter(rest)
            except (PyExc, ReturnEx, BreakEx, ContinueEx, StopConsume):
                self.exit_context(manager)
                raise
            self.exit_context(manager)

        enter(s.items)

    def enter_context(self, manager):
        if isinstance(manager, SVal):
            hook = (manager.schema or {}).get('enter')
            if hook is not None:
                return hook(self, manager)
        hook = self.ctx.contracts.get(('with', type(manager)))
        if hook is not None:
            return hook(self, manager, True)
        raise Unsupported('context manager')

    def exit_context(self, manager):
        if not isinstance(manager, SVal):
            self.ctx.contracts[('with', type(manager))](self, manager, False)
            return
        hook = (manager.schema or {}).get('exit')
        if hook is not None:
            hook(self, manager)

    def exec_FunctionDef(self, s, frame):
        if s.decorator_list:
            raise Unsupported('decorated nested function')
        defaults = tuple(self.eval(d, frame) for d in s.args.defaults)
        kwdefaults = {a.arg: self.eval(d, frame)
                      for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults)
                      if d is not None}
        f = Func(s, frame.env, frame.func.globals, defaults, kwdefaults,
                 s.name, None, frame.func.owner)
        self.store_name(s.name, f, frame)

    def exec_Delete(self, s, frame):
        for target in s.targets:
            if isinstance(target, ast.Subscript):
                obj = self.eval(target.value, frame)
                if isinstance(target.slice, ast.Slice):
                    raise Unsupported('deletion of a slice')
                self.delitem(obj, self.eval(target.slice, frame))
            elif isinstance(target, ast.Name):
                self.ctx.touch(frame.env)
                frame.env.vars[target.id] = UNBOUND
            else:
                raise Unsupported('deletion')

    def exec_Nonlocal(self, s, frame):
        pass

    def exec_Global(self, s, frame):
        raise Unsupported('global statement')

    def assign(self, target, value, frame):
        if isinstance(target, ast.Name):
            self.store_name(target.id, value, frame)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target.elts, value, frame)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.eval(target.value, frame), target.attr, value)
        elif isinstance(target, ast.Subscript):
            obj = self.eval(target.value, frame)
            if isinstance(target.slice, ast.Slice):
                raise Unsupported('assignment to a slice')
            self.setitem(obj, self.eval(target.slice, frame), value)
        else:
            raise Unsupported('assignment target')

    def unpack(self, targets, value, frame):
        value = self.force(value)
        hook = (value.schema or {}).get('unpack') if isinstance(
                value, SVal) else None
        if hook is not None:
            value = hook(self, value, len(targets))
        if isinstance(value, SetObj) and not value.distinct and len(
                targets) == 1 and not isinstance(targets[0], ast.Starred):
            self.assign(targets[0], self.only_element(value), frame)
            return
        pieces = self.clean(self.collect(value))
        stars = [i for i, x in enumerate(targets)
                 if isinstance(x, ast.Starred)]
        if all(isinstance(p, Lit) for p in pieces):
            values = [p.value for p in pieces]
            if not stars:
                if len(values) != len(targets):
                    self.raise_(ValueError, 'unpack')
                for x, v in zip(targets, values):
                    self.assign(x, v, frame)
                return
        pieces = self.materialized(pieces)
        total = self.seq_len(pieces)
        if not stars:
            if not self.ctx.branch(total == len(targets)):
                self.raise_(ValueError, 'unpack')
            for index, x in enumerate(targets):
                self.assign(x, self.get_index(pieces, index), frame)
            return
        star, = stars
        after = len(targets) - star - 1
        if not self.ctx.branch(total >= len(targets) - 1):
            self.raise_(ValueError, 'unpack')
        for index in range(star):
            self.assign(targets[index], self.get_index(pieces, index), frame)
        middle = self.drop(pieces, z3.IntVal(star)) if star else pieces
        if after:
            middle = self.take(middle, z3.simplify(
                    total - (len(targets) - 1)))
        self.assign(targets[star].value, self.new_list(middle), frame)
        for index in range(after):
            self.assign(targets[star + 1 + index],
                        self.get_index(pieces, index - after), frame)

    # --------------------------------------------------------------- names

    def find_env(self, name, env):
        while env is not None:
            if name in env.vars or name in env.locals:
                return env
            env = env.parent
        return None

    def load_name(self, name, frame):
        env = self.find_env(name, frame.env)
        if env is not None:
            value = env.vars.get(name, UNBOUND)
            if isinstance(value, VIte):
                value = self.force_unbound(value)
            if value is UNBOUND:
                self.raise_(UnboundLocalError, name)
            if isinstance(value, Poison):
                raise Unsupported(f'variable {name}: {value.reason}')
            return value
        globals_ = frame.func.globals
        override = self.ctx.contracts.get(('global', name))
        if override is not None:
            return override(self)
        if name in globals_:
            return globals_[name]
        if name == '__class__' and frame.func.owner is not None:
            return frame.func.owner
        try:
            return getattr(builtins, name)
        except AttributeError:
            if isinstance(globals_, Extracted):
                raise Unsupported(f'name {name} is not extracted')
            self.raise_(NameError, name)

    def force_unbound(self, value):
        def has_unbound(v):
            return v is UNBOUND or (isinstance(v, VIte)
                                    and (has_unbound(v.a)
                                         or has_unbound(v.b)))
        while isinstance(value, VIte) and has_unbound(value):
            value = value.a if self.ctx.branch(value.c) else value.b
        return value

    def force_absent(self, value, absent):
        """Value which may be absent, decided by branching."""
        while isinstance(value, VIte):
            value = value.a if self.ctx.branch(value.c) else value.b
        return value

    def store_name(self, name, value, frame):
        env = frame.env
        if name not in env.locals:
            found = self.find_env(name, env)
            env = found if found is not None else env
        self.ctx.touch(env)
        env.vars[name] = value

    # --------------------------------------------------------- expressions

    def eval(self, e, frame):
        method = getattr(self, 'eval_' + type(e).__name__, None)
        if method is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return method(e, frame)

    def eval_Constant(self, e, frame):
        return e.value

    def eval_Name(self, e, frame):
        return self.load_name(e.id, frame)

    def eval_NamedExpr(self, e, frame):
        value = self.eval(e.value, frame)
        env = frame.env
        while getattr(env, 'comprehension', False):
            env = env.parent
        self.ctx.touch(env)
        env.vars[e.target.id] = value
        return value

    def eval_Attribute(self, e, frame):
        return self.getattr(self.eval(e.value, frame), e.attr)

    def eval_Subscript(self, e, frame):
        obj = self.force(self.eval(e.value, frame))
        if isinstance(e.slice, ast.Slice):
            lower, upper, step = [
                None if x is None else self.eval(x, frame)
                for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            lower, upper, step = [None if x is None else self.force(x)
                                  for x in (lower, upper, step)]
            if isinstance(obj, str):
                return obj[lower:upper:step]
            if isinstance(obj, SVal):
                hook = (obj.schema or {}).get('slice')
                if hook is not None:
                    return hook(self, obj, lower, upper, step)
            if isinstance(obj, (VTup, tuple)):
                pieces = self.slice(self.iter_pieces(obj), lower, upper,
                                    step)
                return VTup(pieces)
            if isinstance(obj, list) or type(obj) is ListObj:
                return self.new_list(self.slice(self.iter_pieces(obj), lower,
                                                upper, step))
            raise Unsupported('slice')
        return self.getitem(obj, self.eval(e.slice, frame))

    def eval_args(self, nodes, frame, ordered=True):
        args = []
        for a in nodes:
            if isinstance(a, ast.Starred):
                args.extend(self.collect(self.eval(a.value, frame),
                                         ordered))
            else:
                args.append(Lit(self.eval(a, frame)))
        return args

    def eval_Call(self, e, frame):
        if (isinstance(e.func, ast.Name) and e.func.id == 'super'
                and not e.args):
            owner = frame.func.owner
            env = frame.env
            first = [*frame.func.node.args.posonlyargs,
                     *frame.func.node.args.args][0].arg
            if owner is None:
                raise Unsupported('super() outside of a method')
            return SuperProxy(owner, env.vars[first])
        f = self.eval(e.func, frame)
        args = self.eval_args(e.args, frame)
        if any(k.arg is None for k in e.keywords):
            kwargs = self.new_dict()
            for k in e.keywords:
                value = self.eval(k.value, frame)
                if k.arg is None:
                    value = self.force(value)
                    if isinstance(value, dict):
                        value = self.lift(value)
                    if not isinstance(value, DictObj):
                        raise Unsupported('double-starred argument')
                    kwargs.pieces.extend(
                            Lit(self.new_entry(p.value.key, p.value.value))
                            if isinstance(p, Lit) and z3.is_true(
                                    p.value.present)
                            else p for p in value.pieces)
                    kwargs.extra = value.extra or kwargs.extra
                else:
                    kwargs.pieces.append(Lit(self.new_entry(k.arg, value)))
        else:
            kwargs = {k.arg: self.eval(k.value, frame) for k in e.keywords}
        return self.call(f, args, kwargs)

    def eval_BoolOp(self, e, frame):
        for index, node in enumerate(e.values):
            value = self.eval(node, frame)
            if index == len(e.values) - 1:
                return value
            truth = self.truth(value)
            if isinstance(e.op, ast.And):
                if not truth:
                    return False if isinstance(value, SBool) else value
            elif truth:
                return True if isinstance(value, SBool) else value

    def eval_UnaryOp(self, e, frame):
        value = self.force(self.eval(e.operand, frame))
        if isinstance(e.op, ast.Not):
            formula = self.truth_formula(value)
            return self.mk_bool(not formula if isinstance(formula, bool)
                                else z3.Not(formula))
        if isinstance(e.op, ast.USub):
            t = self.as_int(value)
            if t is None:
                raise Unsupported('negation')
            return self.mk_int(-t)
        raise Unsupported('unary operator')

    def eval_IfExp(self, e, frame):
        if self.truth(self.eval(e.test, frame)):
            return self.eval(e.body, frame)
        return self.eval(e.orelse, frame)

    def eval_Compare(self, e, frame):
        left = self.eval(e.left, frame)
        for index, (op, node) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(node, frame)
            result = self.compare(op, left, right)
            if index == len(e.ops) - 1:
                return result
            if not self.truth(result):
                return False
            left = right

    def negate(self, v):
        v = self.force(v)
        formula = self.truth_formula(v)
        return (not formula if isinstance(formula, bool)
                else self.mk_bool(z3.Not(formula)))

    def plain_tuple(self, v):
        if isinstance(v, VTup) and all(
                isinstance(p, Lit) and self.is_host(p.value)
                for p in v.pieces):
            return tuple(p.value for p in v.pieces)
        return v

    def compare(self, op, left, right):
        if isinstance(op, ast.Is):
            return self.identical(left, right)
        if isinstance(op, ast.IsNot):
            return self.negate(self.identical(left, right))
        if isinstance(op, ast.In):
            return self.contains(right, left)
        if isinstance(op, ast.NotIn):
            return self.negate(self.contains(right, left))
        if isinstance(op, ast.Eq):
            return self.eq(left, right)
        if isinstance(op, ast.NotEq):
            return self.not_eq(left, right)
        left, right = self.force(left), self.force(right)
        x, y = self.as_int(left), self.as_int(right)
        if x is None or y is None:
            if isinstance(left, SetObj) and isinstance(right, (SetObj,
                                                               DictView)):
                return self.set_compare(op, left, right)
            left, right = self.plain_tuple(left), self.plain_tuple(right)
            if self.is_host(left) and self.is_host(right):
                ops = {ast.Lt: operator.lt, ast.LtE: operator.le,
                       ast.Gt: operator.gt, ast.GtE: operator.ge}
                try:
                    return ops[type(op)](left, right)
                except TypeError as error:
                    raise PyExc(TypeError, error.args)
            raise Unsupported('comparison')
        t = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
             ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
        return self.mk_bool(t)

    def set_compare(self, op, left, right):
        if not isinstance(op, (ast.LtE, ast.GtE)):
            raise Unsupported('comparison of sets')
        if isinstance(op, ast.GtE):
            left, right = right, left
        result = []
        for p in self.set_pieces(left):
            if isinstance(p, Lit):
                result.append(term(self.contains_formula(right, p.value)))
            else:
                inner = term(self.contains_formula(right, p.tmpl))
                result.append(forall(p.iv, z3.Implies(
                        conj(0 <= p.iv, p.iv < p.n, p.guard), inner)))
        return self.mk_bool(conj(*result))

    def eval_BinOp(self, e, frame):
        return self.binop(e.op, self.eval(e.left, frame),
                          self.eval(e.right, frame))

    def binop(self, op, left, right):
        left, right = self.force(left), self.force(right)
        if isinstance(op, ast.BitOr) and (isinstance(left, type)
                                          and isinstance(right, type)):
            return left | right
        for value in (left, right):
            if isinstance(value, SVal) and value.schema is not None:
                hook = value.schema.get('binop')
                if hook is not None:
                    return hook(self, op, left, right)
        if isinstance(op, ast.Add):
            if isinstance(left, tuple):
                left = self.lift(left)
            if isinstance(right, tuple):
                right = self.lift(right)
            if isinstance(left, VTup) and isinstance(right, VTup):
                return VTup([*left.pieces, *right.pieces])
            if (type(left) is ListObj or isinstance(left, list)) and (
                    type(right) is ListObj or isinstance(right, list)):
                return self.new_list([*self.iter_pieces(left),
                                      *self.iter_pieces(right)])
            text = self.concat(left, right)
            if text is not None:
                return text
        set_like = (SetObj, DictView, set, frozenset)
        if isinstance(left, set_like) and isinstance(right, set_like):
            return self.set_op(op, left, right)
        x, y = self.as_int(left), self.as_int(right)
        if x is not None and y is not None:
            if isinstance(op, ast.Add):
                return self.mk_int(x + y)
            if isinstance(op, ast.Sub):
                return self.mk_int(x - y)
            if isinstance(op, ast.Mult):
                if z3.is_int_value(z3.simplify(x)) or z3.is_int_value(
                        z3.simplify(y)):
                    return self.mk_int(x * y)
        if isinstance(op, ast.Mult):
            for a, b in ((left, right), (right, left)):
                if isinstance(a, str) and isinstance(b, int):
                    return a * b
                if isinstance(a, (str, VStr)) and isinstance(
                        b, (SBool, SInt) + (
                            () if isinstance(a, str) else (int,))):
                    from .text import repeated
                    return repeated(self, a, b)
        if self.is_host(left) and self.is_host(right):
            ops = {ast.Add: operator.add, ast.Sub: operator.sub,
                   ast.Mult: operator.mul, ast.BitOr: operator.or_,
                   ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
                   ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod}
            if type(op) in ops:
                try:
                    return ops[type(op)](left, right)
                except Exception as error:
                    raise PyExc(type(error), error.args)
        if isinstance(op, ast.Add):
            incompatible = (VTup, ListObj, str, VStr, SStr, int, type(None))
            if isinstance(left, incompatible) and isinstance(
                    right, incompatible):
                self.raise_(TypeError, 'unsupported operand types')
        raise Unsupported(f'operator {type(op).__name__} on {left!r} '
                          f'and {right!r}'[:150])

    def concat(self, left, right):
        def parts(v):
            if isinstance(v, str):
                return [v] if v else []
            if isinstance(v, VStr):
                return list(v.parts)
            if isinstance(v, SStr):
                return [v]
            return None

        x, y = parts(left), parts(right)
        if x is None or y is None:
            return None
        return self.make_text(x + y)

    def make_text(self, parts):
        merged = []
        for p in parts:
            if isinstance(p, str) and merged and isinstance(merged[-1], str):
                merged[-1] += p
            elif p != '' or not isinstance(p, str):
                merged.append(p)
        if not merged:
            return ''
        if len(merged) == 1 and isinstance(merged[0], (str, SStr)):
            return merged[0]
        return VStr(merged)

    def set_pieces(self, v):
        if isinstance(v, SetObj):
            return list(v.pieces)
        if isinstance(v, (set, frozenset)):
            return [Lit(x) for x in v]
        return self.iter_pieces(v)

    def set_op(self, op, left, right):
        def filtered(pieces, keep):
            result = []
            for p in pieces:
                if isinstance(p, Lit):
                    c = keep(p.value)
                    if c is True or z3.is_expr(c) and z3.is_true(c):
                        result.append(p)
                    elif c is not False and not z3.is_false(c):
                        iv = new_iv()
                        result.append(Gen(z3.IntVal(1), iv, p.value, c))
                else:
                    if isinstance(p.tmpl, Sub):
                        raise Unsupported('set of a nested sequence')
                    result.append(Gen(p.n, p.iv, p.tmpl,
                                      z3.simplify(conj(p.guard,
                                                       keep(p.tmpl)))))
            return result

        a, b = self.set_pieces(left), self.set_pieces(right)
        inside = lambda other: lambda x: self.contains_formula(other, x)

        def outside(other):
            def check(x):
                c = self.contains_formula(other, x)
                return (not c) if isinstance(c, bool) else z3.Not(c)
            return check

        if isinstance(op, ast.Sub):
            return self.new_set(filtered(a, outside(right)))
        if isinstance(op, ast.BitAnd):
            return self.new_set(filtered(a, inside(right)))
        if isinstance(op, ast.BitOr):
            return self.new_set([*a, *filtered(b, outside(left))])
        if isinstance(op, ast.BitXor):
            return self.new_set([*filtered(a, outside(right)),
                                 *filtered(b, outside(left))])
        raise Unsupported('set operator')

    def eval_Tuple(self, e, frame):
        return VTup(self.eval_args(e.elts, frame))

    def eval_List(self, e, frame):
        return self.new_list(self.eval_args(e.elts, frame))

    def eval_Set(self, e, frame):
        return self.new_set(self.eval_args(e.elts, frame, False))

    def eval_Dict(self, e, frame):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                other = self.force(self.eval(v, frame))
                if isinstance(other, dict):
                    other = self.lift(other)
                if not isinstance(other, DictObj):
                    raise Unsupported('dictionary unpacking')
                if not d.pieces and not any(
                        isinstance(p, Lit) and not z3.is_true(
                                p.value.present) for p in other.pieces):
                    d.pieces = [Lit(self.new_entry(p.value.key,
                                                   p.value.value))
                                if isinstance(p, Lit) else p
                                for p in other.pieces]
                    d.extra = other.extra
                else:
                    def add(pair):
                        self.dict_set(d, pair.pieces[0].value,
                                      pair.pieces[1].value)
                    self.iterate_pieces(self.dict_view(other, 'items'), add)
            else:
                self.dict_set(d, self.eval(k, frame), self.eval(v, frame))
        return d

    def eval_Lambda(self, e, frame):
        defaults = tuple(self.eval(d, frame) for d in e.args.defaults)
        kwdefaults = {a.arg: self.eval(d, frame)
                      for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults)
                      if d is not None}
        return Func(e, frame.env, frame.func.globals, defaults, kwdefaults,
                    '<lambda>', None, frame.func.owner)

    def eval_Starred(self, e, frame):
        raise Unsupported('starred expression')

    def eval_Yield(self, e, frame):
        value = None if e.value is None else self.eval(e.value, frame)
        consumer = frame.on_yield
        consumer(value)
        return None

    def eval_YieldFrom(self, e, frame):
        consumer = frame.on_yield
        self.iterate(self.eval(e.value, frame), consumer)
        return None

    def eval_JoinedStr(self, e, frame):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            value = self.eval(v.value, frame)
            if v.format_spec is not None:
                raise Unsupported('format specification')
            if v.conversion == ord('r'):
                text = self.call(repr, [value], {})
            elif v.conversion in (-1, ord('s')):
                text = self.call(str, [value], {})
            else:
                raise Unsupported('conversion in a formatted text')
            joined = self.concat('', text)
            if joined is None:
                raise Unsupported('formatted text')
            if isinstance(joined, VStr):
                parts.extend(joined.parts)
            else:
                parts.append(joined)
        return self.make_text(parts)

    # comprehensions

    def comp_frame(self, e, frame):
        names = frozenset(n.id for g in e.generators
                          for n in ast.walk(g.target)
                          if isinstance(n, ast.Name))
        env = Env(self.ctx.oid(), frame.env, names)
        env.comprehension = True
        inner = Frame(frame.func, env)
        inner.token = frame.token
        return inner

    def run_comp(self, e, frame, emit, first=None):
        inner = self.comp_frame(e, frame)

        def level(index):
            if index == len(e.generators):
                emit(inner)
                return
            g = e.generators[index]
            if g.is_async:
                raise Unsupported('asynchronous comprehension')
            iterable = (first if index == 0 and first is not None
                        else self.eval(g.iter, frame if index == 0
                                       else inner))

            def body(element):
                self.assign(g.target, element, inner)
                for c in g.ifs:
                    if not self.truth(self.eval(c, inner)):
                        return
                level(index + 1)

            self.iterate(iterable, body)

        level(0)

    def eval_ListComp(self, e, frame):
        result = self.new_list()

        def emit(inner):
            value = self.eval(e.elt, inner)
            self.ctx.touch(result)
            result.pieces.append(Lit(value))

        self.run_comp(e, frame, emit)
        return result

    def eval_SetComp(self, e, frame):
        result = self.new_set()

        def emit(inner):
            value = self.eval(e.elt, inner)
            self.ctx.touch(result)
            result.pieces.append(Lit(value))

        self.run_comp(e, frame, emit)
        return result

    def eval_DictComp(self, e, frame):
        result = self.new_dict()

        def emit(inner):
            key = self.eval(e.key, inner)
            value = self.eval(e.value, inner)
            self.dict_set(result, key, value)

        self.run_comp(e, frame, emit)
        return result

    def eval_GeneratorExp(self, e, frame):
        first = self.eval(e.generators[0].iter, frame)

        def run(consumer):
            self.run_comp(e, frame,
                          lambda inner: consumer(self.eval(e.elt, inner)),
                          first)

        return GenObj(run)

    # zip

    def with_constants(self, sequences):
        """Rows of sequences some of which repeat the same value."""
        others = iter(self.clean(self.zip_pieces(
                [s for s in sequences if not isinstance(s, Endless)],
                'short')))
        result = []
        for piece in others:
            row = (piece.value if isinstance(piece, Lit)
                   else piece.tmpl)
            rest = iter(row.pieces)
            row = VTup([Lit(s.value) if isinstance(s, Endless)
                        else next(rest) for s in sequences])
            result.append(Lit(row) if isinstance(piece, Lit)
                          else Gen(piece.n, piece.iv, row, piece.guard))
        return result

    def zip_pieces(self, sequences, mode):
        """Pieces of tuples of elements with the same positions."""
        endless = [isinstance(s, Endless) for s in sequences]
        if any(endless) and not all(endless) and mode == 'short':
            return self.with_constants(sequences)
        sequences = [self.clean(self.materialized(s)) for s in sequences]
        if all(all(isinstance(p, Lit) for p in s) for s in sequences):
            lists = [[p.value for p in s] for s in sequences]
            rows = (itertools.zip_longest(*lists) if mode == 'longest'
                    else zip(*lists))
            return [Lit(VTup([Lit(x) for x in row])) for row in rows]
        # the same shape: piece by piece
        if mode != 'longest' and len({len(s) for s in sequences}) == 1:
            rows = []
            for group in zip(*sequences):
                if all(isinstance(p, Lit) for p in group):
                    rows.append(Lit(VTup([Lit(p.value) for p in group])))
                elif all(isinstance(p, Gen) for p in group) and all(
                        self.ctx.proves(p.n == group[0].n, 500)
                        for p in group[1:]):
                    iv = new_iv()
                    rows.append(Gen(group[0].n, iv, VTup([
                        Lit(p.at(self.ctx, iv)) for p in group])))
                else:
                    break
            else:
                return rows
        lengths = [self.seq_len(s) for s in sequences]
        total = lengths[0]
        if mode == 'longest':
            for n in lengths[1:]:
                total = z3.If(n > total, n, total)
        else:
            for n in lengths[1:]:
                total = z3.If(n < total, n, total)
        total = z3.simplify(total)
        iv = new_iv()
        columns = []
        for s, n in zip(sequences, lengths):
            if not s:
                columns.append(Lit(None))
                continue
            value = self.pieces_at(s, iv)
            if mode == 'longest':
                c = z3.simplify(iv < n)
                value = value if z3.is_true(c) else VIte(c, value, None)
            columns.append(Lit(value))
        return self.clean([Gen(total, iv, VTup(columns))])
