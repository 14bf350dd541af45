"""
Values, heap, path conditions and path exploration of the verifier.

Sequences are kept in a symbolic normal form: a list of *pieces*, each either
a literal element (``Lit``) or a generic run of elements (``Gen``)
``[tmpl(i) for i in range(n) if guard(i)]`` with symbolic ``n``.
"""
import json
import os
import sys
import time

import z3

z3.set_param('smt.random_seed', 1)

StrS = z3.DeclareSort('Str')
ValS = z3.DeclareSort('Val')
INT, BOOL = z3.IntSort(), z3.BoolSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    """Construct outside of the verified subset."""


class Infeasible(Exception):
    """Current path can not happen."""


class PathEnd(Exception):
    """End of the path with obligations of its own."""

    def __init__(self, kind, obligations):
        super().__init__(kind)
        self.kind, self.obligations = kind, obligations


class PyExc(Exception):
    """Exception raised by the interpreted program."""

    def __init__(self, cls, args=()):
        super().__init__(cls)
        self.cls, self.exc_args = cls, args
        self.notes = None


class ReturnEx(Exception):
    def __init__(self, token, value):
        self.token, self.value = token, value


class BreakEx(Exception):
    def __init__(self, token):
        self.token = token


class ContinueEx(Exception):
    def __init__(self, token):
        self.token = token


class StopConsume(Exception):
    def __init__(self, token, value=None):
        self.token, self.value = token, value


# --- values ---------------------------------------------------------------


class Sym:
    __slots__ = ()


class SBool(Sym):
    __slots__ = 't',

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SBool({self.t})'


class SInt(Sym):
    __slots__ = 't',

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SInt({self.t})'


class SStr(Sym):
    __slots__ = 't',

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SStr({self.t})'


class SVal(Sym):
    """Opaque object; ``schema`` tells what attributes it has."""
    __slots__ = 't', 'schema'

    def __init__(self, t, schema=None):
        self.t, self.schema = t, schema

    def __repr__(self):
        return f'SVal({self.t})'


class SEnum(Sym):
    __slots__ = 'cls', 't'

    def __init__(self, cls, t):
        self.cls, self.t = cls, t

    def __repr__(self):
        return f'SEnum({self.t})'


class VIte(Sym):
    __slots__ = 'c', 'a', 'b'

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f'VIte({self.c}, {self.a}, {self.b})'


class _Unbound:
    def __repr__(self):
        return 'UNBOUND'


UNBOUND = _Unbound()


class Lit:
    __slots__ = 'value',

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return f'Lit({self.value})'


class Gen:
    __slots__ = 'n', 'iv', 'guard', 'tmpl'

    def __init__(self, n, iv, tmpl, guard=TRUE):
        self.n, self.iv, self.tmpl, self.guard = n, iv, tmpl, guard

    def at(self, ctx, index):
        return subst(self.tmpl, [(self.iv, index)])

    def guard_at(self, index):
        return z3.substitute(self.guard, (self.iv, index))

    @property
    def filtered(self):
        return not z3.is_true(self.guard)

    def __repr__(self):
        return (f'Gen({self.n}, {self.iv}: {self.tmpl}'
                + (f' if {self.guard}' if self.filtered else '') + ')')


class Sub:
    """Template of a generic run of several pieces per index."""
    __slots__ = 'pieces',

    def __init__(self, pieces):
        self.pieces = pieces

    def __repr__(self):
        return f'Sub({self.pieces})'


class VTup(Sym):
    __slots__ = 'pieces',

    def __init__(self, pieces):
        self.pieces = tuple(pieces)

    def __repr__(self):
        return f'VTup({list(self.pieces)})'


class Part:
    """Text made of a value by a function kept opaque: repr, str etc."""
    __slots__ = 'op', 'value'

    def __init__(self, op, value):
        self.op, self.value = op, value

    def __repr__(self):
        return f'<{self.op} {self.value}>'


class Join:
    """Text of pieces of text joined by a separator."""
    __slots__ = 'sep', 'pieces'

    def __init__(self, sep, pieces):
        self.sep, self.pieces = sep, pieces

    def __repr__(self):
        return f'<join {self.sep!r} {self.pieces}>'


class VStr(Sym):
    __slots__ = 'parts',

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return f'VStr{self.parts}'


class Cases:
    """Class of an object known only up to a symbolic choice."""
    __slots__ = 'options',

    def __init__(self, options):
        self.options = options


class Heap:
    oid = None
    frozen = False


class Inst(Heap):
    """Object of a class of the program."""

    def __init__(self, oid, cls, fields=None, ident=None):
        self.oid, self.cls, self.fields = oid, cls, fields or {}
        self.ident = ident

    def snapshot(self):
        return dict(self.fields)

    def restore(self, snap):
        self.fields = dict(snap)

    def __repr__(self):
        name = (self.cls.__name__ if isinstance(self.cls, type) else 'Cases')
        return f'{name}#{self.oid}({self.fields})'


class ListObj(Heap):
    def __init__(self, oid, pieces=()):
        self.oid, self.pieces = oid, list(pieces)

    def snapshot(self):
        return list(self.pieces)

    def restore(self, snap):
        self.pieces = list(snap)

    def __repr__(self):
        return f'List#{self.oid}{self.pieces}'


class DequeObj(ListObj):
    def __repr__(self):
        return f'Deque#{self.oid}{self.pieces}'


class SetObj(ListObj):
    # whether no two elements of pieces are equal
    distinct = False

    def __repr__(self):
        return f'Set#{self.oid}{self.pieces}'


class Entry(Heap):
    virtual = False

    def __init__(self, oid, key, value, present=TRUE):
        self.oid, self.key, self.value, self.present = oid, key, value, present

    def snapshot(self):
        return self.value, self.present

    def restore(self, snap):
        self.value, self.present = snap

    def __repr__(self):
        return (f'{self.key}: {self.value}'
                + ('' if z3.is_true(self.present) else f' if {self.present}'))


class DictObj(Heap):
    def __init__(self, oid, pieces=(), factory=None, extra=None):
        self.oid, self.pieces, self.factory = oid, list(pieces), factory
        self.extra = extra

    def snapshot(self):
        return list(self.pieces)

    def restore(self, snap):
        self.pieces = list(snap)

    def __repr__(self):
        return f'Dict#{self.oid}{self.pieces}'


class Env(Heap):
    def __init__(self, oid, parent=None, locals_=frozenset()):
        self.oid, self.vars, self.parent = oid, {}, parent
        self.locals = locals_

    def snapshot(self):
        return dict(self.vars)

    def restore(self, snap):
        self.vars = dict(snap)


class DictView(Sym):
    __slots__ = 'dict', 'kind'

    def __init__(self, dict_, kind):
        self.dict, self.kind = dict_, kind


class Func(Sym):
    __slots__ = ('node', 'env', 'globals', 'defaults', 'kwdefaults', 'name',
                 'host', 'owner')

    def __init__(self, node, env, globals_, defaults, kwdefaults, name,
                 host=None, owner=None):
        self.node, self.env, self.globals = node, env, globals_
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.host, self.owner = name, host, owner


class Bound(Sym):
    __slots__ = 'func', 'self'

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class Poison(Sym):
    """Value of a variable which can not be told: it must not be read."""
    __slots__ = 'reason',

    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return f'Poison({self.reason})'


class Endless(Sym):
    """Iterator giving the same value again and again."""
    __slots__ = 'value',

    def __init__(self, value):
        self.value = value


class GenObj(Sym):
    """Iterator: ``run(consumer)`` feeds the elements to the consumer."""
    __slots__ = 'run', 'spent'

    def __init__(self, run):
        self.run, self.spent = run, False


class Prim(Sym):
    """Function implemented by the verifier."""
    __slots__ = 'name', 'call'

    def __init__(self, name, call):
        self.name, self.call = name, call


class SuperProxy(Sym):
    __slots__ = 'owner', 'self'

    def __init__(self, owner, self_):
        self.owner, self.self = owner, self_


class ExcVal(Sym):
    """Exception object of the interpreted program."""
    __slots__ = 'cls', 'args'

    def __init__(self, cls, args):
        self.cls, self.args = cls, args


def subst_term(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t


def subst(v, pairs):
    """Replaces constants in all the terms of the value."""
    if isinstance(v, SBool):
        return SBool(subst_term(v.t, pairs))
    if isinstance(v, SInt):
        return SInt(subst_term(v.t, pairs))
    if isinstance(v, SStr):
        return SStr(subst_term(v.t, pairs))
    if isinstance(v, SVal):
        return SVal(subst_term(v.t, pairs), v.schema)
    if isinstance(v, SEnum):
        return SEnum(v.cls, subst_term(v.t, pairs))
    if isinstance(v, VIte):
        c = z3.simplify(subst_term(v.c, pairs))
        if z3.is_true(c):
            return subst(v.a, pairs)
        if z3.is_false(c):
            return subst(v.b, pairs)
        return VIte(c, subst(v.a, pairs), subst(v.b, pairs))
    if isinstance(v, VTup):
        return VTup([subst_piece(p, pairs) for p in v.pieces])
    if isinstance(v, Sub):
        return Sub([subst_piece(p, pairs) for p in v.pieces])
    if isinstance(v, VStr):
        return VStr([subst(p, pairs) for p in v.parts])
    if isinstance(v, Part):
        return Part(v.op, subst(v.value, pairs))
    if isinstance(v, Join):
        return Join(v.sep, [subst_piece(p, pairs) for p in v.pieces])
    if isinstance(v, Inst):
        cls = (Cases([(subst_term(c, pairs), k) for c, k in v.cls.options])
               if isinstance(v.cls, Cases)
               else v.cls)
        result = Inst(v.oid, cls,
                      {k: (subst_term(c, pairs), subst(x, pairs))
                       for k, (c, x) in v.fields.items()},
                      None if v.ident is None else (v.ident[0], subst_term(
                              v.ident[1], pairs)))
        result.frozen = True
        return result
    if isinstance(v, SetObj):
        result = SetObj(v.oid, [subst_piece(p, pairs) for p in v.pieces])
        result.frozen = True
        return result
    if isinstance(v, ListObj):
        result = ListObj(v.oid, [subst_piece(p, pairs) for p in v.pieces])
        result.frozen = True
        return result
    if isinstance(v, DictObj):
        result = DictObj(v.oid, [subst_piece(p, pairs) for p in v.pieces],
                         v.factory, v.extra)
        result.frozen = True
        return result
    if isinstance(v, Entry):
        result = Entry(v.oid, subst(v.key, pairs), subst(v.value, pairs),
                       subst_term(v.present, pairs))
        result.frozen = True
        return result
    if isinstance(v, Bound):
        return Bound(v.func, subst(v.self, pairs))
    if isinstance(v, ExcVal):
        return ExcVal(v.cls, v.args)
    if isinstance(v, (GenObj, DictView, SuperProxy)):
        raise Unsupported(f'{type(v).__name__} in a generic element')
    if isinstance(v, Func):
        if v.env is not None and v.host is None:
            raise Unsupported('closure in a generic element')
        return v
    return v


def subst_piece(p, pairs):
    if isinstance(p, Lit):
        return Lit(subst(p.value, pairs))
    pairs = [(a, b) for a, b in pairs if not a.eq(p.iv)]
    return Gen(subst_term(p.n, pairs), p.iv, subst(p.tmpl, pairs),
               subst_term(p.guard, pairs))


_iv_count = 0


def new_iv():
    global _iv_count
    _iv_count += 1
    return z3.Int(f'$i{_iv_count}')


def gen(n, make, guard=None):
    iv = new_iv()
    return Gen(n, iv, make(iv), TRUE if guard is None else guard(iv))


# --- quantifiers ------------------------------------------------------------


def occurs(t, const):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(const):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def applications(t, const):
    """Applications of uninterpreted functions to terms with the constant."""
    stack, seen, result = [t], set(), []
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if (z3.is_app(x) and x.num_args()
                and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            for k in range(x.num_args()):
                a = x.arg(k)
                if a.sort() == INT and occurs(a, const) and not (
                        z3.is_app(a) and a.num_args()
                        and a.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                    result.append((x, a))
        stack.extend(x.children())
    return result


def rebased(iv, body):
    """
    Body with the variable changed so that the functions are applied
    to the variable itself, and the patterns.
    """
    body = z3.simplify(body)
    apps = applications(body, iv)
    if apps and not any(a.eq(iv) for _, a in apps):
        for _, a in apps:
            shift = z3.simplify(a - iv)
            if not occurs(shift, iv):
                body = z3.simplify(z3.substitute(body, (iv, iv - shift)))
                break
            total = z3.simplify(a + iv)
            if not occurs(total, iv):
                body = z3.simplify(z3.substitute(body, (iv, total - iv)))
                break
        apps = applications(body, iv)
    patterns, seen = [], set()
    for x, a in apps:
        if a.eq(iv) and x.get_id() not in seen and all(
                x.arg(k).eq(iv) or not occurs(x.arg(k), iv)
                for k in range(x.num_args())):
            seen.add(x.get_id())
            patterns.append(x)
    return body, patterns


def forall(iv, body):
    if iv.sort() != INT:
        return z3.ForAll([iv], body)
    body, patterns = rebased(iv, body)
    if not occurs(body, iv):
        return body
    return shared(z3.ForAll, iv, body, patterns)


def exists(iv, body):
    if iv.sort() != INT:
        return z3.Exists([iv], body)
    body, patterns = rebased(iv, body)
    if not occurs(body, iv):
        return body
    return shared(z3.Exists, iv, body, patterns)


_shared = {}


def shared(quantifier, iv, body, patterns):
    """
    Quantified formula; formulas different only in the name of the variable
    are the same term.
    """
    named = z3.substitute(body, (iv, z3.Int('$bound')))
    key = (quantifier, named.get_id())
    if key not in _shared:
        _shared[key] = (quantifier([iv], body, patterns=patterns), named)
    return _shared[key][0]


# --- exploration ----------------------------------------------------------


class Explorer:
    def __init__(self, id_, prefix, stack):
        self.id, self.prefix, self.stack = id_, prefix, stack
        self.memo, self.start = None, 0
        self.trace = []
        self.events = 0

    def key(self):
        return f'{self.id}[{",".join(map(str, self.trace))}]'


class PathResult:
    __slots__ = 'cond', 'conds', 'kind', 'value', 'touched'

    def __init__(self, conds, kind, value, touched):
        self.conds, self.kind, self.value = conds, kind, value
        self.touched = touched
        self.cond = z3.And(*conds) if conds else TRUE


class Stats:
    def __init__(self):
        self.queries = 0
        self.seconds = 0.
        self.unknown = 0


_feasibility = {}
_proved = {}


class Ctx:
    def __init__(self, *, fork=False, deadline=None):
        self.pc = []
        self.axioms = []
        self.axioms_names = set()
        self.explorers = []
        self.scopes = []
        self.frame = None    # objects numbered before are watched
        self.frame_log = {}
        self.oids = 0
        self.generics = []
        self.names = {}
        self.flats = []
        # invariants of while loops by names of functions
        self.invariants, self.invariant_used = {}, False
        self.host_consts = {}
        self.str_consts = {}
        self.defined = {}
        self.str_predicates = {}
        self.injections = {}
        self.recurrences = []
        self.contracts = {}
        self.used = set()
        self.stats = Stats()
        self.deadline = deadline
        self.steps = 0
        self.havocs = []
        self.feasibility_timeout = 400

    # naming

    def oid(self):
        self.oids += 1
        return self.oids

    def fresh_name(self, base):
        explorer = self.explorers[-1] if self.explorers else None
        if explorer is None:
            key = ('', base, len(self.names))
        else:
            explorer.events += 1
            key = (explorer.key(), base, explorer.events)
        number = self.names.setdefault(key, len(self.names))
        return f'{base}!{number}'

    def fresh(self, base, sort):
        name = self.fresh_name(base)
        if self.generics:
            f = z3.Function(name, *([INT] * len(self.generics)), sort)
            return f(*self.generics)
        return z3.Const(name, sort)

    def define(self, term, formula):
        """Formula which tells the fresh term of the enclosing loops."""
        try:
            axiom = z3.ForAll(self.generics, formula, patterns=[term])
        except z3.Z3Exception:
            axiom = z3.ForAll(self.generics, formula)
        if axiom.get_id() not in self.defined:
            self.defined[axiom.get_id()] = axiom
            self.axioms.append(axiom)

    def str_const(self, value):
        try:
            return self.str_consts[value]
        except KeyError:
            result = self.str_consts[value] = z3.Const('str:' + repr(value),
                                                       StrS)
            others = [c for v, c in self.str_consts.items() if v != value]
            self.axioms.extend(result != o for o in others)
            for function, decide in self.str_predicates.values():
                self.axioms.append(function(result) == decide(value))
            return result

    def str_predicate(self, name, decide):
        """Uninterpreted predicate of texts, known for constants."""
        try:
            return self.str_predicates[name][0]
        except KeyError:
            function = z3.Function('text:' + name, StrS, BOOL)
            self.str_predicates[name] = function, decide
            for value, constant in self.str_consts.items():
                self.axioms.append(function(constant) == decide(value))
            return function

    def host_const(self, value):
        key = ((type(value), value)
               if isinstance(value, (str, int, float, bytes))
               else ('id', id(value)))
        try:
            return self.host_consts[key][0]
        except KeyError:
            label = getattr(value, '__qualname__', None) or repr(value)
            result = z3.Const(f'host{len(self.host_consts)}:{label}'[:60],
                              ValS)
            self.axioms.extend(result != o
                               for o, _ in self.host_consts.values())
            self.host_consts[key] = (result, value)
            return result

    # heap

    def touch(self, obj):
        if obj.frozen:
            raise Unsupported('mutation of a generic element')
        if self.frame is not None and obj.oid < self.frame:
            self.frame_log.setdefault(id(obj), (obj, obj.snapshot()))
        for scope in self.scopes:
            if id(obj) not in scope:
                scope[id(obj)] = (obj, obj.snapshot())

    # solving

    def check(self, extra, timeout, mbqi=True):
        self.stats.queries += 1
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Unsupported('time budget of the proof is over')
        started = time.monotonic()
        z3.set_param('auto_config', mbqi)
        solver = z3.SimpleSolver() if not mbqi else z3.Solver()
        solver.set('timeout', timeout)
        if not mbqi:
            solver.set('mbqi', False)
        solver.add(*self.axioms)
        solver.add(*self.pc)
        solver.add(*extra)
        result = solver.check()
        self.stats.seconds += time.monotonic() - started
        return result, solver

    def feasible(self, *extra):
        key = (frozenset(f.get_id() for f in self.pc),
               tuple(f.get_id() for f in extra))
        cached = _feasibility.get(key)
        if cached is not None:
            return cached[0]
        result, _ = self.check(extra, self.feasibility_timeout,
                               mbqi=False)
        verdict = result != z3.unsat
        if result == z3.unknown:
            self.stats.unknown += 1
        _feasibility[key] = (verdict, list(self.pc), extra)
        return verdict

    def proves(self, formula, timeout=1000):
        formula = z3.simplify(formula)
        if z3.is_true(formula):
            return True
        if z3.is_false(formula) and not self.pc:
            return False
        key = (frozenset(f.get_id() for f in self.pc), formula.get_id(),
               timeout)
        cached = _proved.get(key)
        if cached is not None:
            return cached[0]
        result, _ = self.check((z3.Not(formula),), timeout, mbqi=False)
        _proved[key] = (result == z3.unsat, list(self.pc), formula)
        return result == z3.unsat

    def assume(self, formula):
        if not z3.is_true(formula):
            self.pc.append(formula)

    # branching

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.choose([cond, z3.Not(cond)], exhaustive=True) == 0

    def choose(self, options, exhaustive=False):
        """
        Picks one of the options (a formula or a list of formulas each),
        leaving the others to the other paths.
        """
        explorer = self.explorers[-1]
        options = [o if isinstance(o, list) else [o] for o in options]
        position = len(explorer.trace)
        if position < len(explorer.prefix):
            chosen = explorer.prefix[position]
        else:
            feasible = []
            for index, option in enumerate(options):
                if (exhaustive and index == len(options) - 1
                        and not feasible):
                    feasible.append(index)
                elif self.feasible(*option):
                    feasible.append(index)
            if not feasible:
                raise Infeasible
            if len(feasible) == 1 and exhaustive:
                # implied by the path condition
                chosen = feasible[0]
            else:
                chosen = feasible[0]
            if explorer.stack is None:
                chosen = self.fork_choose(feasible)
            else:
                for other in reversed(feasible[1:]):
                    explorer.stack.append(explorer.trace + [other])
        explorer.trace.append(chosen)
        for formula in options[chosen]:
            self.assume(formula)
        return chosen

    # forked exploration of the outermost paths

    def fork_choose(self, feasible):
        for other in feasible[1:]:
            self.out.flush()
            token = self.tokens_acquire()
            pid = os.fork()
            if pid == 0:
                self.children = []
                self.token = token
                self.is_child = True
                return other
            if token:
                self.children.append(pid)
            else:
                self.wait_child(pid)
        return feasible[0]

    def tokens_acquire(self):
        try:
            return bool(os.read(self.tokens[0], 1))
        except BlockingIOError:
            return False

    def wait_child(self, pid):
        _, status = os.waitpid(pid, 0)
        if status != 0:
            self.record({'kind': 'unsupported',
                         'reason': f'path process failed: {status}'})

    def record(self, record):
        self.out.write(json.dumps(record) + '\n')
        self.out.flush()

    def explore_forked(self, thunk, at_end, path, jobs=8):
        """
        Runs the thunk on every path, each in own process;
        ``at_end(kind, value)`` gives the record of the path.
        """
        self.out = open(path, 'a')
        reader, writer = os.pipe()
        os.set_blocking(reader, False)
        os.write(writer, b't' * (jobs - 1))
        self.tokens = reader, writer
        self.children = []
        self.token = False
        self.is_child = False
        self.explorers.append(Explorer('root', [], None))
        stats = None
        try:
            try:
                value = thunk()
            except PyExc as error:
                record = at_end('raise', error)
            except PathEnd as error:
                record = at_end(error.kind, error)
            except Infeasible:
                record = {'kind': 'infeasible'}
            else:
                record = at_end('return', value)
        except Unsupported as error:
            record = {'kind': 'unsupported', 'reason': str(error)}
        except Infeasible:
            record = {'kind': 'infeasible'}
        except RecursionError:
            record = {'kind': 'unsupported', 'reason': 'recursion limit'}
        except Exception as error:
            import traceback
            record = {'kind': 'unsupported',
                      'reason': 'verifier error: '
                                + ''.join(traceback.format_exception(error))}
        record['queries'] = self.stats.queries
        record['seconds'] = self.stats.seconds
        record['unknown'] = self.stats.unknown
        record['used'] = sorted(self.used)
        record['havocs'] = self.havocs
        self.record(record)
        if self.token:
            os.write(writer, b't')
        for pid in self.children:
            self.wait_child(pid)
        if self.is_child:
            self.out.close()
            sys.stdout.flush()
            os._exit(0)
        self.out.close()
        self.explorers.pop()
        os.close(reader)
        os.close(writer)

    # nested exploration

    def explore(self, id_, thunk, assumptions=(), generic=None):
        """All the paths of the thunk, with effects undone afterwards."""
        stack = [[]]
        results = []
        runs = 0
        memo, first = {}, self.oids
        while stack:
            prefix = stack.pop()
            runs += 1
            if runs > 600:
                raise Unsupported('too many paths in a loop body')
            mark = len(self.pc)
            start = self.oids
            explorer = Explorer(id_, prefix, stack)
            explorer.memo, explorer.start = memo, first
            self.explorers.append(explorer)
            scope = {}
            self.scopes.append(scope)
            if generic is not None:
                self.generics.append(generic)
            self.pc.extend(assumptions)
            inner = len(self.pc)
            kind = value = None
            try:
                try:
                    value = thunk()
                    kind = 'normal'
                except PyExc as error:
                    kind, value = 'exit', error
                except (ReturnEx, BreakEx, StopConsume) as error:
                    kind, value = 'exit', error
                except Infeasible:
                    kind = None
                conds = self.pc[inner:]
                touched = [(obj, old, obj.snapshot())
                           for obj, old in scope.values()]
            finally:
                for obj, old in scope.values():
                    # objects made by the path belong to its result
                    if obj.oid <= start:
                        obj.restore(old)
                del self.pc[mark:]
                self.explorers.pop()
                self.scopes.pop()
                if generic is not None:
                    self.generics.pop()
            if kind is not None:
                results.append(PathResult(conds, kind, value, touched))
        return results
