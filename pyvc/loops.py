"""
Rule for loops over runs of symbolic length.

The body is run once at a generic index; the state carried between iterations
is guessed in a closed form from what one iteration changes (elements appended
or added, entries created, last value assigned, counters, flags,
recurrences) and the guess is verified to be inductive: started from the
guessed state at index ``j`` an iteration makes exactly the change that gives
the guessed state at ``j + 1``.  After that the path either goes on with the
state after the last iteration (every iteration ends normally) or leaves the
loop at the first index for which an iteration does not end normally.
"""
import z3

from .core import (BOOL, FALSE, INT, TRUE, Bound, BreakEx, Cases, DictObj,
                   Entry, Env, ExcVal, Func, Gen, Infeasible, Inst, Join,
                   GenObj, ListObj, Lit, Part, Poison, PyExc, SBool, SEnum, SInt,
                   SStr, SVal, SetObj, StrS, Sub, Sym, UNBOUND, Unsupported,
                   VIte, VStr, VTup, ValS, exists, forall, new_iv, occurs,
                   subst, subst_piece)



def value_occurs(v, const):
    if isinstance(v, (SBool, SInt, SStr, SVal, SEnum)):
        return occurs(v.t, const)
    if isinstance(v, VIte):
        return (occurs(v.c, const) or value_occurs(v.a, const)
                or value_occurs(v.b, const))
    if isinstance(v, (VTup, ListObj, DictObj)):
        return any(piece_occurs(p, const) for p in v.pieces)
    if isinstance(v, Inst):
        return (any(occurs(c, const) or value_occurs(x, const)
                    for c, x in v.fields.values())
                or (v.ident is not None and occurs(v.ident[1], const))
                or (isinstance(v.cls, Cases)
                    and any(occurs(c, const) for c, _ in v.cls.options)))
    if isinstance(v, Entry):
        return value_occurs(v.key, const) or value_occurs(v.value, const)
    if isinstance(v, VStr):
        return any(value_occurs(p, const) for p in v.parts)
    if isinstance(v, Part):
        return value_occurs(v.value, const)
    if isinstance(v, Join):
        return any(piece_occurs(p, const) for p in v.pieces)
    return False


def piece_occurs(p, const):
    if isinstance(p, Lit):
        return value_occurs(p.value, const)
    return (occurs(p.n, const) or occurs(p.guard, const)
            or value_occurs(p.tmpl, const))


# --- comparison of guesses --------------------------------------------------


_compared = {}


def same_term(ctx, a, b, assumptions):
    if a.eq(b):
        return True
    if a.sort() != b.sort():
        return False
    if z3.simplify(a).eq(z3.simplify(b)):
        return True
    key = (frozenset(f.get_id() for f in ctx.pc), a.get_id(), b.get_id(),
           tuple(f.get_id() for f in assumptions))
    cached = _compared.get(key)
    if cached is None:
        result, _ = ctx.check((*assumptions, a != b), 1500)
        cached = _compared[key] = (result == z3.unsat, list(ctx.pc), a, b,
                                   list(assumptions))
    return cached[0]


def same(ctx, a, b, assumptions):
    if a is b:
        return True
    if isinstance(a, (Lit, Gen)) != isinstance(b, (Lit, Gen)):
        return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, VIte) and not isinstance(y, VIte):
            return (same(ctx, x.a, y, [*assumptions, x.c])
                    and same(ctx, x.b, y, [*assumptions, z3.Not(x.c)]))
    if type(a) is not type(b):
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
            x = a.t if isinstance(a, SInt) else z3.IntVal(a)
            y = b.t if isinstance(b, SInt) else z3.IntVal(b)
            return same_term(ctx, x, y, assumptions)
        return False
    if isinstance(a, (SBool, SInt, SStr, SVal)):
        return same_term(ctx, a.t, b.t, assumptions)
    if isinstance(a, SEnum):
        return a.cls is b.cls and same_term(ctx, a.t, b.t, assumptions)
    if isinstance(a, VIte):
        return (same_term(ctx, a.c, b.c, assumptions)
                and same(ctx, a.a, b.a, assumptions)
                and same(ctx, a.b, b.b, assumptions))
    if isinstance(a, Lit):
        return same(ctx, a.value, b.value, assumptions)
    if isinstance(a, Gen):
        iv = z3.Int('$same')
        if not same_term(ctx, a.n, b.n, assumptions):
            return False
        inner = [*assumptions, 0 <= iv, iv < a.n]
        return (same_term(ctx, a.guard_at(iv), b.guard_at(iv), inner)
                and same(ctx, subst(a.tmpl, [(a.iv, iv)]),
                         subst(b.tmpl, [(b.iv, iv)]), inner))
    if isinstance(a, (VTup, Sub)):
        return (len(a.pieces) == len(b.pieces)
                and all(same(ctx, x, y, assumptions)
                        for x, y in zip(a.pieces, b.pieces)))
    if isinstance(a, (ListObj, DictObj)):
        return (len(a.pieces) == len(b.pieces)
                and all(same(ctx, x, y, assumptions)
                        for x, y in zip(a.pieces, b.pieces)))
    if isinstance(a, Entry):
        return (same(ctx, a.key, b.key, assumptions)
                and same(ctx, a.value, b.value, assumptions)
                and same_term(ctx, a.present, b.present, assumptions))
    if isinstance(a, Inst):
        if isinstance(a.cls, Cases) or isinstance(b.cls, Cases):
            if not (isinstance(a.cls, Cases) and isinstance(b.cls, Cases)
                    and len(a.cls.options) == len(b.cls.options)
                    and all(k is m and same_term(ctx, c, d, assumptions)
                            for (c, k), (d, m) in zip(a.cls.options,
                                                      b.cls.options))):
                return False
        elif a.cls is not b.cls:
            return False
        if (a.ident is None) is not (b.ident is None) or (
                a.ident is not None
                and (a.ident[0] != b.ident[0]
                     or not same_term(ctx, a.ident[1], b.ident[1],
                                      assumptions))):
            return False
        return (a.fields.keys() == b.fields.keys()
                and all(same_term(ctx, a.fields[k][0], b.fields[k][0],
                                  assumptions)
                        and same(ctx, a.fields[k][1], b.fields[k][1],
                                 assumptions)
                        for k in a.fields))
    if isinstance(a, VStr):
        return (len(a.parts) == len(b.parts)
                and all(same(ctx, x, y, assumptions)
                        for x, y in zip(a.parts, b.parts)))
    if isinstance(a, Part):
        return a.op == b.op and same(ctx, a.value, b.value, assumptions)
    if isinstance(a, Join):
        return (a.sep == b.sep and len(a.pieces) == len(b.pieces)
                and all(same(ctx, x, y, assumptions)
                        for x, y in zip(a.pieces, b.pieces)))
    if isinstance(a, Bound):
        return a.func is b.func and same(ctx, a.self, b.self, assumptions)
    if isinstance(a, GenObj):
        # never readable after the iteration
        return isinstance(b, GenObj)
    if isinstance(a, (Sym, Func, ExcVal)):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


# --- changes ---------------------------------------------------------------


class Last:
    """Variable assigned on every iteration."""

    def __init__(self, value):
        self.value = value

    def at(self, init, iv, j, guard, state):
        try:
            value = subst(self.value, [(iv, z3.simplify(j - 1))])
        except Unsupported as error:
            return Poison(str(error))
        c = z3.simplify(j == 0)
        if z3.is_true(c):
            return init
        if z3.is_false(c):
            return value
        return VIte(c, init, value)

    def same(self, ctx, other, assumptions):
        return isinstance(other, Last) and same(ctx, self.value, other.value,
                                                assumptions)


class Dead:
    """Variable with a value which can not be told."""

    def __init__(self, reason):
        self.reason = reason

    def at(self, init, iv, j, guard, state):
        return init if init is not UNBOUND and z3.is_true(
                z3.simplify(j == 0)) else Poison(self.reason)

    def same(self, ctx, other, assumptions):
        return isinstance(other, Dead)


class Latch:
    """Variable assigned the same constant on some iterations."""

    def __init__(self, value, cond):
        self.value, self.cond = value, cond

    def at(self, init, iv, j, guard, state):
        i = new_iv()
        body = z3.And(0 <= i, i < j, z3.substitute(guard, (iv, i)),
                      z3.substitute(self.cond, (iv, i)))
        return VIte(exists(i, body), self.value, init)

    def same(self, ctx, other, assumptions):
        return (isinstance(other, Latch) and self.value == other.value
                and type(self.value) is type(other.value)
                and same_term(ctx, self.cond, other.cond, assumptions))


class Counter:
    def __init__(self, step):
        self.step = step

    def at(self, init, iv, j, guard, state):
        t = init.t if isinstance(init, SInt) else z3.IntVal(init)
        t = z3.simplify(t + self.step * j)
        return t.as_long() if z3.is_int_value(t) else SInt(t)

    def same(self, ctx, other, assumptions):
        return isinstance(other, Counter) and self.step == other.step


def either(c, a, b):
    if not (isinstance(a, Entry) and isinstance(b, Entry)):
        return VIte(c, a, b)
    same_key = (a.key is b.key or isinstance(a.key, SStr)
                and isinstance(b.key, SStr) and a.key.t.eq(b.key.t))
    return Entry(a.oid, a.key if same_key else VIte(c, a.key, b.key),
                 VIte(c, a.value, b.value))


class Grow:
    """Sequence extended on iterations: pieces by condition."""

    def __init__(self, options, always):
        # options: pairs of condition and pieces
        self.options, self.always = options, always

    def pieces(self, iv, j, guard):
        options = [(c, ps) for c, ps in self.options if ps]
        if not options:
            return []
        if all(len(ps) == 1 and isinstance(ps[0], Lit)
               for _, ps in options):
            value = options[-1][1][0].value
            for c, ps in reversed(options[:-1]):
                value = either(c, ps[0].value, value)
            if self.always and len(options) == len(self.options):
                cond = guard
            else:
                cond = z3.simplify(z3.And(guard, z3.Or(
                        *[c for c, _ in options])))
            i = new_iv()
            return [Gen(j, i, subst(value, [(iv, i)]),
                        z3.substitute(cond, (iv, i)))]
        i = new_iv()
        if len(self.options) == 1 and self.always:
            return [Gen(j, i, subst(Sub(options[0][1]), [(iv, i)]),
                        z3.substitute(guard, (iv, i)))]
        subs = []
        for c, ps in options:
            for p in ps:
                if isinstance(p, Lit):
                    k = new_iv()
                    subs.append(Gen(z3.If(c, z3.IntVal(1), z3.IntVal(0)), k,
                                    p.value))
                else:
                    subs.append(Gen(z3.If(c, p.n, z3.IntVal(0)), p.iv,
                                    p.tmpl, p.guard))
        return [Gen(j, i, subst(Sub(subs), [(iv, i)]),
                    z3.substitute(guard, (iv, i)))]

    def same(self, ctx, other, assumptions):
        return (isinstance(other, Grow) and self.always == other.always
                and len(self.options) == len(other.options)
                and all(same_term(ctx, c, d, assumptions)
                        and len(p) == len(q)
                        and all(same(ctx, x, y, assumptions)
                                for x, y in zip(p, q))
                        for (c, p), (d, q) in zip(self.options,
                                                  other.options)))


class GrowVar(Grow):
    """Variable with an immutable sequence extended on iterations."""

    def at(self, init, iv, j, guard, state):
        return VTup([*init.pieces, *self.pieces(iv, j, guard)])

    def same(self, ctx, other, assumptions):
        return isinstance(other, GrowVar) and super().same(ctx, other,
                                                           assumptions)


class Recurrence:
    """Opaque variable computed from its previous value."""

    def __init__(self, function, kind, schema):
        self.function, self.kind, self.schema = function, kind, schema

    def at(self, init, iv, j, guard, state):
        t = self.function(z3.simplify(j))
        return SVal(t, self.schema) if self.kind is SVal else self.kind(t)

    def same(self, ctx, other, assumptions):
        return isinstance(other, Recurrence) and self.function.eq(
                other.function)


class Presence:
    """Entry of a dictionary becoming present."""

    def __init__(self, always, cond):
        self.always, self.cond = always, cond

    def at(self, init, iv, j, guard):
        if self.always and z3.is_true(guard):
            happened = j > 0
        else:
            i = new_iv()
            cond = z3.And(0 <= i, i < j, z3.substitute(guard, (iv, i)))
            if not self.always:
                cond = z3.And(cond, z3.substitute(self.cond, (iv, i)))
            happened = exists(i, cond)
        return z3.simplify(z3.Or(init, happened))

    def same(self, ctx, other, assumptions):
        return (isinstance(other, Presence) and self.always == other.always
                and (self.always or same_term(ctx, self.cond, other.cond,
                                              assumptions)))


class NeedVirtual(Exception):
    def __init__(self, dict_, key, value):
        self.dict, self.key, self.value = dict_, key, value


def merge(options):
    """Value of the taken path as a choice between values of the paths."""
    value = options[-1][1]
    for c, v in reversed(options[:-1]):
        value = v if v is value else VIte(c, v, value)
    return value


def as_int_term(v):
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, int) and not isinstance(v, bool):
        return z3.IntVal(v)
    return None


def suffix(old, new):
    if len(new) < len(old):
        return None
    for x, y in zip(old, new):
        if x is not y:
            return None
    return list(new[len(old):])


def summarize(ctx, results, j, start, force_rec):
    normals = [r for r in results if r.kind == 'normal']
    objects = {}
    for r in normals:
        for obj, old, new in r.touched:
            if obj.oid <= start:
                objects.setdefault(id(obj), (obj, old, {}))[2][id(r)] = new
    deltas = {}
    recurrences = []
    for key, (obj, old, news) in objects.items():
        paths = [(r, news.get(id(r), old)) for r in normals]
        if isinstance(obj, Env):
            names = {}
            for r, new in paths:
                for name, value in new.items():
                    if old.get(name, UNBOUND) is not value:
                        names[name] = None
            changes = {}
            for name in names:
                init = old.get(name, UNBOUND)
                values = [(r.cond, new.get(name, UNBOUND))
                          for r, new in paths]
                changes[name] = var_delta(ctx, init, values, name,
                                          (key, name) in force_rec, j,
                                          recurrences)
            if changes:
                deltas[key] = (obj, changes)
        elif isinstance(obj, (ListObj, DictObj)):
            options = []
            for r, new in paths:
                tail = suffix(old, new)
                if tail is None:
                    raise Unsupported('loop changes the existing elements '
                                      'of a container')
                options.append((r.cond, tail))
            if any(tail for _, tail in options):
                if isinstance(obj, DictObj):
                    for _, tail in options:
                        for p in tail:
                            if (isinstance(p, Lit)
                                    and not value_occurs(p.value.key, j)
                                    and isinstance(p.value.value,
                                                   (ListObj, DictObj))
                                    and p.value.value.oid > start):
                                raise NeedVirtual(obj, p.value.key,
                                                  p.value.value)
                    if any(len(tail) > 1 for _, tail in options):
                        raise Unsupported('several entries per iteration')
                deltas[key] = (obj, Grow(simplify_options(options),
                                         True))
        elif isinstance(obj, Entry):
            changed = []
            for r, new in paths:
                if new[0] is not old[0]:
                    raise Unsupported('loop replaces a value of an entry')
                if not new[1].eq(old[1]):
                    changed.append(r.cond)
            if changed:
                deltas[key] = (obj, Presence(len(changed) == len(paths),
                                             z3.Or(*changed)))
        else:
            raise Unsupported(f'loop mutates {type(obj).__name__}')
    return deltas, recurrences


def simplify_options(options):
    """The same pieces on all the paths need no conditions."""
    return options


def var_delta(ctx, init, values, name, rec, j, recurrences):
    if rec:
        carried = init
        if isinstance(carried, (SVal, SInt, SStr)) or isinstance(carried,
                                                                int):
            terms = []
            for c, v in values:
                if isinstance(carried, SVal) and isinstance(v, SVal):
                    terms.append((c, v.t))
                elif isinstance(v, (SInt, int)) and isinstance(
                        carried, (SInt, int)):
                    terms.append((c, as_int_term(v)))
                elif isinstance(v, SStr) and isinstance(carried, SStr):
                    terms.append((c, v.t))
                else:
                    raise Unsupported(f'recurrence of variable {name}')
            result = terms[-1][1]
            for c, t in reversed(terms[:-1]):
                result = z3.If(c, t, result)
            recurrences.append((name, result))
            return 'recurrence', result
        raise Unsupported(f'variable {name} carried between iterations')
    unchanged = [c for c, v in values if v is init]
    changed = [(c, v) for c, v in values if v is not init]
    if isinstance(init, VTup):
        options = []
        for c, v in values:
            tail = (suffix(init.pieces, v.pieces) if isinstance(v, VTup)
                    else None)
            options.append((c, tail))
        if all(tail is not None for _, tail in options) and init.pieces:
            return GrowVar(options, True)
        if (not init.pieces and all(isinstance(v, VTup) for _, v in values)):
            # an empty start: either replaced or extended,
            # to be told by the verification
            return GrowVar([(c, list(v.pieces)) for c, v in values], True)
    x = as_int_term(init)
    if x is not None:
        steps = set()
        for _, v in values:
            y = as_int_term(v)
            step = None if y is None else z3.simplify(y - x)
            steps.add(step.as_long() if step is not None
                      and z3.is_int_value(step) else None)
        if len(steps) == 1 and None not in steps and isinstance(
                init, (SInt, int)):
            return Counter(steps.pop())
    if not unchanged:
        return Last(merge(values))
    first = changed[0][1]
    if (isinstance(first, (bool, int, str, type(None)))
            and all(type(v) is type(first) and v == first
                    for _, v in changed)):
        return Latch(first, z3.Or(*[c for c, _ in changed]))
    return Dead('assigned on some iterations')


def same_deltas(ctx, a, b, assumptions):
    if a.keys() != b.keys():
        return None
    bad = []
    for key, (obj, x) in a.items():
        y = b[key][1]
        if isinstance(x, dict):
            if not isinstance(y, dict):
                return None
            for name in x.keys() | y.keys():
                if name not in x or name not in y:
                    return None
                u, v = x[name], y[name]
                if type(u) is not type(v) or not u.same(ctx, v,
                                                        assumptions):
                    bad.append((key, name))
        elif type(x) is not type(y) or not x.same(ctx, y, assumptions):
            bad.append((key, None))
    return bad


def install(ctx, deltas, j_term, iv, guard, *, silent):
    """State after ``j_term`` iterations; returns undo data."""
    undo = []
    for obj, delta in deltas.values():
        if silent:
            undo.append((obj, obj.snapshot()))
        else:
            ctx.touch(obj)
        if isinstance(obj, Env):
            for name, d in delta.items():
                init = obj.vars.get(name, UNBOUND)
                obj.vars[name] = d.at(init, iv, j_term, guard, None)
        elif isinstance(obj, Entry):
            obj.present = delta.at(obj.present, iv, j_term, guard)
        else:
            obj.pieces = [*obj.pieces, *delta.pieces(iv, j_term, guard)]
    return undo


def run(interp, piece, body):
    ctx = interp.ctx
    n = z3.simplify(piece.n)
    guard_always = z3.is_true(z3.simplify(piece.guard))
    if z3.is_int_value(n) and n.as_long() <= 4:
        for index in range(max(0, n.as_long())):
            at = z3.IntVal(index)
            if guard_always or ctx.branch(piece.guard_at(at)):
                body(piece.at(ctx, at))
        return
    if not guard_always and n.eq(z3.IntVal(1)):
        if ctx.branch(piece.guard_at(z3.IntVal(0))):
            body(piece.at(ctx, z3.IntVal(0)))
        return
    explorer = ctx.explorers[-1]
    explorer.events += 1
    loop_id = f'{explorer.key()}L{explorer.events}'
    number = ctx.names.setdefault(('loop', loop_id), len(ctx.names))
    j = z3.Int(f'$j{number}')
    range_ = [j >= 0, j < piece.n]
    if not guard_always:
        range_.append(piece.guard_at(j))
    if not ctx.feasible(*range_):
        return
    element = piece.at(ctx, j)
    guard = piece.guard_at(j)
    memo = explorer.memo
    if memo is not None and loop_id in memo:
        # the same path up to here was run before
        deltas, normal, leaving = memo[loop_id]
    else:
        deltas, normal, leaving = explored(ctx, interp, loop_id, body,
                                           element, range_, j, guard)
        if memo is not None and repeatable(deltas, explorer.start):
            memo[loop_id] = deltas, normal, leaving
    if leaving is None:
        install(ctx, deltas, piece.n, j, guard, silent=False)
        return

    def all_normal(bound):
        i = new_iv()
        body_ = z3.Implies(z3.And(0 <= i, i < bound, z3.substitute(
                guard, (j, i))), z3.substitute(normal, (j, i)))
        return forall(i, body_)

    e = ctx.fresh('exit', INT)
    exit_cond = z3.substitute(leaving, (j, e))
    exit_option = [e >= 0, e < piece.n, piece.guard_at(e), exit_cond]
    if normal is not None:
        exit_option.append(all_normal(e))
    else:
        i = new_iv()
        exit_option.append(forall(i, z3.Implies(
                z3.And(0 <= i, i < e), z3.Not(piece.guard_at(i))))
            if not guard_always else e == 0)
    if normal is not None:
        normal_option = [all_normal(piece.n)]
    elif guard_always:
        normal_option = [piece.n <= 0]
    else:
        normal_option = [all_normal(piece.n)]
    if ctx.generics:
        # inside of other loops the index is a function of their indices
        ctx.define(e, z3.Implies(
                z3.And(*ctx.pc), z3.Or(z3.And(*normal_option),
                                       z3.And(*exit_option))))
    if ctx.choose([normal_option, exit_option]) == 0:
        install(ctx, deltas, piece.n, j, guard, silent=False)
        return
    install(ctx, deltas, e, j, guard, silent=False)
    body(piece.at(ctx, e))
    raise Infeasible


def explored(ctx, interp, loop_id, body, element, range_, j, guard):
    """
    What iterations change, when they end normally and when they leave the
    loop, None if never.
    """
    deltas = {}
    force_rec = set()
    functions = {}
    for attempt in range(8):
        start = ctx.oid()
        # recurrences need a placeholder first
        placeholders = {}
        undo = install(ctx, {k: (o, {n: d for n, d in c.items()}
                                 if isinstance(c, dict) else c)
                             for k, (o, c) in deltas.items()},
                       j, j, guard, silent=True)
        try:
            results = ctx.explore(loop_id, lambda: body(element), range_, j)
        finally:
            for obj, snap in reversed(undo):
                obj.restore(snap)
        try:
            new_deltas, _ = summarize(ctx, results, j, start, set())
        except NeedVirtual as need:
            add_virtual(interp, need)
            continue
        # variables given by recurrences are kept as such
        for key, name in force_rec:
            if key in new_deltas and isinstance(new_deltas[key][1], dict) \
                    and name in new_deltas[key][1] and key in deltas:
                new_deltas[key][1][name] = deltas[key][1][name]
        if not new_deltas and not deltas:
            break
        bad = same_deltas(ctx, deltas, new_deltas, range_)
        if bad == []:
            if verify_recurrences(ctx, force_rec, functions, results, j,
                                  deltas, start):
                break
            raise Unsupported('recurrence of a loop')
        if attempt >= 2 and bad:
            for key, name in bad:
                if name is None:
                    continue
                obj = deltas[key][0]
                init = obj.vars.get(name, UNBOUND)
                if (key, name) not in force_rec:
                    force_rec.add((key, name))
                    try:
                        r = make_recurrence(ctx, loop_id, name, init)
                    except Unsupported as error:
                        # must not be read
                        r = Dead(str(error))
                    else:
                        functions[(key, name)] = (r, init)
                    new_deltas[key][1][name] = r
        deltas = new_deltas
    else:
        raise Unsupported('state of a loop is not found')
    normals = [r for r in results if r.kind == 'normal']
    exits = [r for r in results if r.kind != 'normal']
    for (key, name), (r, init) in functions.items():
        define_recurrence(ctx, r, init, results, j, key, name)
        ctx.recurrences.append(r.function)
    normal = z3.Or(*[r.cond for r in normals]) if normals else None
    leaving = z3.Or(*[r.cond for r in exits]) if exits else None
    return deltas, normal, leaving


def repeatable(deltas, start):
    """Changes do not depend on objects made by the path."""
    return all(obj.oid <= start and isinstance(obj, Env)
               and all(isinstance(d, (Dead, Counter))
                       or isinstance(d, (Last, Latch)) and plain(d.value)
                       for d in changes.values())
               for obj, changes in deltas.values())


def plain(v):
    if isinstance(v, VIte):
        return plain(v.a) and plain(v.b)
    if isinstance(v, VTup):
        return all(plain(p.value if isinstance(p, Lit) else p.tmpl)
                   for p in v.pieces)
    return v is None or isinstance(v, (SVal, SStr, SInt, SBool, SEnum, str,
                                       int))


def add_virtual(interp, need):
    ctx = interp.ctx
    value = need.value
    if isinstance(value, SetObj):
        empty = interp.new_set()
    elif isinstance(value, ListObj):
        empty = interp.new_list()
    else:
        empty = interp.new_dict((), value.factory)
    entry = Entry(ctx.oid(), need.key, empty, FALSE)
    entry.virtual = True
    ctx.touch(need.dict)
    need.dict.pieces.append(Lit(entry))


def make_recurrence(ctx, loop_id, name, init):
    if isinstance(init, SVal):
        sort, kind, schema = ValS, SVal, init.schema
    elif isinstance(init, (SInt, int)) and not isinstance(init, bool):
        sort, kind, schema = INT, SInt, None
    elif isinstance(init, (SStr, str)):
        sort, kind, schema = StrS, SStr, None
    else:
        raise Unsupported(f'variable {name} carried between iterations')
    if ctx.generics:
        raise Unsupported('recurrence inside of a generic iteration')
    function = z3.Function(ctx.fresh_name(f'rec_{name}'), INT, sort)
    return Recurrence(function, kind, schema)


def recurrence_values(results, obj_key, name):
    values = []
    for r in results:
        if r.kind != 'normal':
            continue
        for obj, old, new in r.touched:
            if id(obj) == obj_key:
                values.append((r.cond, new.get(name, UNBOUND)))
                break
        else:
            values.append((r.cond, None))
    return values


def verify_recurrences(ctx, force_rec, functions, results, j, deltas, start):
    for key, name in force_rec:
        if (key, name) not in functions:
            continue
        r, init = functions[(key, name)]
        for c, v in recurrence_values(results, key, name):
            if v is None:
                continue
            if r.kind is SVal and not isinstance(v, SVal):
                return False
            if r.kind is SInt and as_int_term(v) is None:
                return False
            if r.kind is SStr and not isinstance(v, (SStr, str)):
                return False
    return True


def define_recurrence(ctx, r, init, results, j, key, name):
    def to_term(v):
        if r.kind is SInt:
            return as_int_term(v)
        if isinstance(v, str):
            return ctx.str_const(v)
        return v.t

    values = recurrence_values(results, key, name)
    result = r.function(j)
    for c, v in reversed(values):
        t = r.function(j) if v is None else to_term(v)
        result = z3.If(c, t, result)
    i = new_iv()
    ctx.assume(r.function(z3.IntVal(0)) == to_term(init))
    ctx.assume(z3.ForAll([i], z3.Implies(
            i >= 0, r.function(i + 1) == z3.substitute(result, (j, i)))))
