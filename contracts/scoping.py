"""Contracts of resolution of names of stubs."""
import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, StrS, ValS, Gen, Lit, Prim, PyExc, SBool,
                       SStr, Sub, SVal, Unsupported, VStr, VTup,
                       new_iv)

PATH = z3.DeclareSort('Path')
LENGTH = z3.Function('length_of_path', PATH, INT)
RUN = z3.Function('run_of_path', PATH, INT, INT, PATH)
JOIN = z3.Function('joined_paths', PATH, PATH, PATH)
UNIT = z3.Function('path_of_name', StrS, PATH)
EMPTY = z3.Const('empty_path', PATH)
CONCATENATED = z3.Function('concatenated', StrS, StrS, StrS)
PART = z3.Function('part_of_path', PATH, INT, StrS)
PAIR = z3.Function('qualified', PATH, PATH, ValS)
IS_MODULE = z3.Function('is_module', PATH, BOOL)
ROOT = z3.Function('declarations', PATH, ValS)
HAS = z3.Function('declares', ValS, StrS, BOOL)
CHILD = z3.Function('scope_of', ValS, StrS, ValS)
WALK = z3.Function('scope_along', PATH, PATH, INT, ValS)
CONTAINS = z3.Function('contains_path', ValS, PATH, BOOL)
DERIVED = z3.Function('has_bases', PATH, PATH, BOOL)
BASES = z3.Function('number_of_bases', PATH, PATH, INT)
BASE_MODULE = z3.Function('module_of_base', PATH, PATH, INT, PATH)
BASE_OBJECT = z3.Function('object_of_base', PATH, PATH, INT, PATH)
STARS = z3.Function('number_of_star_imports', PATH, INT)
STAR = z3.Function('star_imported', PATH, INT, PATH)
REFERS = z3.Function('is_imported', PATH, PATH, BOOL)
REFERENT_MODULE = z3.Function('module_of_import', PATH, PATH, PATH)
REFERENT_OBJECT = z3.Function('object_of_import', PATH, PATH, PATH)
FOUND = z3.Function('is_found', PATH, PATH, BOOL, BOOL)
FOUND_MODULE = z3.Function('found_module', PATH, PATH, BOOL, PATH)
FOUND_OBJECT = z3.Function('found_object', PATH, PATH, BOOL, PATH)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def parts(term):
    iv = new_iv()
    return VTup([Gen(LENGTH(term), iv, SStr(PART(term, iv)))])


def pair(module, object_):
    return VTup([Lit(parts(module)), Lit(parts(object_))])


def sequence(interp, value):
    """Term of the sequence of names."""
    value = interp.force(value)
    if isinstance(value, tuple):
        value = interp.lift(value)
    if not isinstance(value, VTup):
        raise Unsupported(f'not a path: {value!r}'[:200])
    return joined(interp, interp.clean(value.pieces))


def joined(interp, pieces):
    """
    Term of the sequence, the same for the same sequences: adjacent runs of
    the same path are merged.
    """
    runs = []
    for piece in pieces:
        if isinstance(piece, Lit):
            name = interp.as_str(interp.force(piece.value))
            if name is None:
                name = text(interp, interp.force(piece.value))
            if name is None:
                raise Unsupported(f'not a name: {piece.value!r}'[:200])
            if name.decl().eq(PART):
                run(runs, *name.children(), z3.IntVal(1))
            else:
                runs.append(name)
            continue
        if piece.filtered or not isinstance(piece.tmpl, SStr):
            raise Unsupported(f'not a run of names: {piece!r}'[:200])
        term = piece.tmpl.t
        if not term.decl().eq(PART):
            raise Unsupported(f'not a run of names: {piece!r}'[:200])
        path, at = term.children()
        low = z3.simplify(z3.substitute(at, (piece.iv, z3.IntVal(0))))
        step = z3.simplify(at - low - piece.iv)
        if not (z3.is_int_value(step) and step.as_long() == 0):
            raise Unsupported(f'not a run of names: {piece!r}'[:200])
        run(runs, path, low, piece.n)
    return concatenated([part(*r) if isinstance(r, list) else UNIT(r)
                         for r in runs])


def text(interp, value):
    """Term of a concatenation."""
    if not isinstance(value, VStr):
        return None
    result = None
    for part_ in value.parts:
        term = interp.as_str(part_)
        if term is None:
            return None
        result = term if result is None else CONCATENATED(result, term)
    return result


def run(runs, path, low, n):
    if runs and isinstance(runs[-1], list):
        last = runs[-1]
        if last[0].eq(path) and z3.is_true(z3.simplify(
                last[1] + last[2] == low)):
            last[2] = last[2] + n
            return
    runs.append([path, low, n])


def part(path, low, n):
    low, n = z3.simplify(z3.IntVal(0) + low), z3.simplify(z3.IntVal(0) + n)
    if z3.is_int_value(low) and low.as_long() == 0 and n.eq(
            z3.simplify(LENGTH(path))):
        return path
    return RUN(path, low, n)


def concatenated(terms):
    if not terms:
        return EMPTY
    result = terms[-1]
    for term in reversed(terms[:-1]):
        result = JOIN(term, result)
    return result


def qualified(interp, value):
    value = interp.force(value)
    if isinstance(value, tuple):
        value = interp.lift(value)
    if not (isinstance(value, VTup) and len(value.pieces) == 2
            and all(isinstance(p, Lit) for p in value.pieces)):
        raise Unsupported(f'not a qualified path: {value!r}'[:200])
    return [sequence(interp, p.value) for p in value.pieces]


def scope(term):
    def name(interp, key):
        result = interp.as_str(interp.force(key))
        if result is None:
            raise Unsupported(f'not a name: {key!r}'[:200])
        return result

    def contains(interp, v, key):
        return SBool(HAS(v.t, name(interp, key)))

    def getitem(interp, v, key):
        key = name(interp, key)
        if not interp.ctx.branch(HAS(v.t, key)):
            raise PyExc(KeyError, ())
        return scope(CHILD(v.t, key))

    return SVal(term, {'contains': contains, 'getitem': getitem})


def scope_axioms():
    m, p = z3.Consts('$m $p', PATH)
    i, j = z3.Ints('$i $j')
    x = z3.Const('$x', StrS)
    return [
        z3.ForAll([x], z3.And(LENGTH(UNIT(x)) == 1, PART(UNIT(x), 0) == x),
                  patterns=[UNIT(x)]),
        z3.ForAll([p], LENGTH(p) >= 0, patterns=[LENGTH(p)]),
        z3.ForAll([p], (LENGTH(p) == 0) == (p == EMPTY),
                  patterns=[LENGTH(p)]),
        z3.ForAll([p], RUN(p, 0, LENGTH(p)) == p, patterns=[LENGTH(p)]),
        z3.ForAll([p, i, j], z3.Implies(j <= 0, RUN(p, i, j) == EMPTY),
                  patterns=[RUN(p, i, j)]),
        z3.ForAll([p, i, j], z3.Implies(j >= 0, LENGTH(RUN(p, i, j)) == j),
                  patterns=[LENGTH(RUN(p, i, j))]),
        z3.ForAll([p], JOIN(p, EMPTY) == p, patterns=[JOIN(p, EMPTY)]),
        z3.ForAll([p], JOIN(EMPTY, p) == p, patterns=[JOIN(EMPTY, p)]),
        z3.ForAll([m, p], LENGTH(JOIN(m, p)) == LENGTH(m) + LENGTH(p),
                  patterns=[LENGTH(JOIN(m, p))]),
        z3.ForAll([p], z3.Implies(LENGTH(p) == 1, p == UNIT(PART(p, 0))),
                  patterns=[LENGTH(p)]),
        z3.ForAll([m, p], WALK(m, p, 0) == ROOT(m), patterns=[WALK(m, p, 0)]),
        z3.ForAll([m, p], WALK(m, p, 1) == CHILD(ROOT(m), PART(p, 0)),
                  patterns=[WALK(m, p, 1)]),
        z3.ForAll([m, p, i], z3.Implies(i >= 0, WALK(m, p, i + 1) == CHILD(
                WALK(m, p, i), PART(p, i))), patterns=[WALK(m, p, i + 1)])]


def table(name, getitem, get=None, contains=None):
    def attribute(interp, v, attribute_name, default):
        if attribute_name != 'get' or get is None:
            raise Unsupported(f'other use of {name}')

        def call(args, kwargs):
            if not args or interp.plain_kwargs(kwargs) or not isinstance(
                    args[0], Lit):
                raise Unsupported(f'other use of {name}')
            return get(interp, args[0].value)
        return Prim('get', call)

    schema = {'getattr': attribute}
    if getitem is not None:
        schema['getitem'] = lambda interp, v, key: getitem(interp, key)
    if contains is not None:
        schema['contains'] = lambda interp, v, key: SBool(contains(interp,
                                                                   key))
    return SVal(z3.Const(name, ValS), schema)


def tables():
    """Declarations, imports, star imports and bases of modules."""
    def definitions(interp, key):
        module = sequence(interp, key)
        if not interp.ctx.branch(IS_MODULE(module)):
            raise PyExc(KeyError, ())
        return scope(ROOT(module))

    def references(interp, key):
        module = sequence(interp, key)

        def referent(interp, key):
            path = sequence(interp, key)
            if not interp.ctx.branch(REFERS(module, path)):
                raise PyExc(KeyError, ())
            return pair(REFERENT_MODULE(module, path),
                        REFERENT_OBJECT(module, path))
        return table('references', referent, contains=lambda interp, key:
                     REFERS(module, sequence(interp, key)))

    def submodules(interp, key):
        module = sequence(interp, key)
        iv = new_iv()
        return interp.new_list([Gen(STARS(module), iv,
                                    parts(STAR(module, iv)))])

    def superclasses(interp, key):
        module = sequence(interp, key)

        def bases(interp, key):
            path = sequence(interp, key)
            if not interp.ctx.branch(DERIVED(module, path)):
                raise PyExc(KeyError, ())
            iv = new_iv()
            return interp.new_list([Gen(BASES(module, path), iv, pair(
                    BASE_MODULE(module, path, iv),
                    BASE_OBJECT(module, path, iv)))])
        return table('superclasses', bases, contains=lambda interp, key:
                     DERIVED(module, sequence(interp, key)))

    return [table('modules_definitions', definitions,
                  contains=lambda interp, key: IS_MODULE(sequence(interp,
                                                                  key))),
            table('modules_references', references, references),
            table('modules_submodules', None, submodules),
            table('modules_superclasses', None, superclasses)]


def exit_indices(ctx):
    """Where loops are left on the path."""
    found = {}

    def visit(t, seen):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return
        if z3.is_const(t) and t.decl().name().startswith('exit!'):
            found[t.get_id()] = t
        for child in t.children():
            visit(child, seen)

    seen = set()
    for formula in ctx.pc:
        visit(formula, seen)
    return list(found.values())


class Resolution(Proof):
    """
    One step of resolution: the scope of the class, declarations of the
    module and attributes of its classes, star imports, imported names with
    the longest known prefix, builtins.
    """
    name = 'resolve_object_path'
    functions = ('scoping.resolve_object_path',)
    assumptions = (
        'contract of the recursive calls: they give a declared object or '
        'tell that nothing is found, and depend on names visited before only '
        'to stop; termination of the recursion is not discharged (names '
        'visited are passed on, their number is finite)',
        'tables of star imports and of bases give sequences for known '
        'modules, every known module has a table of imported names')

    def setup(self, interp):
        import inspect
        from paradigm._core import scoping
        ctx = interp.ctx
        self.error = scoping.ObjectNotFound
        function = scoping.resolve_object_path
        self.m = m = z3.Const('module_path', PATH)
        self.q = z3.Const('parent_path', PATH)
        self.p = p = z3.Const('object_path', PATH)
        self.n = n = LENGTH(p)
        self.visits = z3.Int('number_of_visited')
        visit = z3.Function('visited', INT, ValS)
        i = z3.Int('$vi')
        self.searching = z3.Bool('search_builtins')
        self.seen = z3.Bool('is_visited')
        self.str_const = ctx.str_const
        self.object_ = UNIT(ctx.str_const('object'))
        self.builtins = UNIT(ctx.str_const('builtins'))
        self.missing = z3.Int('first_missing')
        self.base = z3.Int('first_base')
        self.star = z3.Int('first_star')
        self.prefix = z3.Int('longest_prefix')
        self.sub = part(p, 0, self.missing)
        a, b = z3.Consts('$a $b', PATH)
        ctx.axioms += scope_axioms() + [
            z3.ForAll([a, b], BASES(a, b) >= 0, patterns=[BASES(a, b)]),
            z3.ForAll([a], STARS(a) >= 0, patterns=[STARS(a)]),
            IS_MODULE(self.builtins), self.visits >= 0,
            self.seen == z3.Exists([i], z3.And(
                    0 <= i, i < self.visits, visit(i) == PAIR(m, p))),
            # the class is declared
            z3.Implies(IS_MODULE(m), CONTAINS(ROOT(m), self.q)),
            *self.firsts()]

        def contains(interp, args, kwargs):
            if len(args) != 2 or interp.plain_kwargs(kwargs):
                raise Unsupported('other use of scope_contains_path')
            return SBool(CONTAINS(interp.as_val(args[0].value),
                                  sequence(interp, args[1].value)))

        def same(interp, v, other):
            return SBool(v.t == PAIR(*qualified(interp, other)))

        arguments = tables()

        def recursive(interp, args, kwargs):
            kwargs = interp.plain_kwargs(kwargs)
            flag = kwargs.pop('_search_builtins', True)
            if kwargs or len(args) < 7 or not all(isinstance(a, Lit)
                                                  for a in args[:7]):
                raise Unsupported('other recursion')
            if [interp.force(a.value) for a in args[3:7]] != arguments:
                raise Unsupported('recursion with other tables')
            module, parent, path = [sequence(interp, a.value)
                                    for a in args[:3]]
            if ctx.proves(LENGTH(parent) == 0, 1000) is not True:
                raise Unsupported('recursion with a scope')
            self.guarded(interp, module, interp.clean(args[7:]))
            flag = interp.truth_formula(flag)
            if isinstance(flag, bool):
                flag = z3.BoolVal(flag)
            if not ctx.branch(FOUND(module, path, flag)):
                raise PyExc(self.error, ())
            return pair(FOUND_MODULE(module, path, flag),
                        FOUND_OBJECT(module, path, flag))

        code = self.verified(interp, function)
        ctx.contracts[function] = recursive
        ctx.contracts[scoping.scope_contains_path] = contains
        iv = new_iv()
        self.visited = Gen(self.visits, iv, SVal(visit(iv), {'eq': same}))
        return lambda: interp.call(code, [
            Lit(parts(m)), Lit(parts(self.q)), Lit(parts(p)),
            *[Lit(a) for a in arguments], self.visited], {
                '_search_builtins': SBool(self.searching)})

    budget = 150

    def verified(self, interp, function):
        code = interp.func_of_host(function)
        code.host = None
        return code

    def guarded(self, interp, module, visited):
        """What is resolved now is visited, or builtins end the search."""
        if not visited or visited[0] is not self.visited:
            raise Unsupported('names visited before are lost')
        if len(visited) == 1:
            return
        if len(visited) > 2 or not isinstance(visited[1], Lit):
            raise Unsupported('other names are visited')
        current = qualified(interp, visited[1].value)
        if not (current[0].eq(self.m) and current[1].eq(self.p)):
            raise Unsupported('other names are visited')

    # ------------------------------------------------------------- meaning

    def named(self, path, n, name):
        return z3.And(n == 1, PART(path, 0) == self.str_const(name))

    def walk(self, i):
        return WALK(self.m, self.p, i)

    def known(self, i):
        return HAS(self.walk(i), PART(self.p, i))

    def of_base(self, j):
        name = RUN(self.p, self.missing, 1)
        return (BASE_MODULE(self.m, self.sub, j),
                JOIN(BASE_OBJECT(self.m, self.sub, j), name), TRUE)

    def inherited(self, j):
        where = self.of_base(j)
        path = FOUND_OBJECT(*where)
        module = FOUND_MODULE(*where)
        return z3.And(FOUND(*where), z3.Not(z3.And(
                self.named(module, LENGTH(module), 'builtins'),
                self.named(path, LENGTH(path) - 1, 'object'))))

    def of_star(self, j):
        return STAR(self.m, j), self.p, FALSE

    def refers(self, k):
        return REFERS(self.m, part(self.p, 0, k))

    def bases(self):
        return z3.If(DERIVED(self.m, self.sub), BASES(self.m, self.sub), 0)

    def firsts(self):
        """What is found first, unless nothing is."""
        i = z3.Int('$fi')
        stars = STARS(self.m)
        return [
            1 <= self.missing, self.missing <= z3.If(self.n < 1, 1, self.n),
            z3.ForAll([i], z3.Implies(z3.And(1 <= i, i < self.missing),
                                      self.known(i)),
                      patterns=[self.walk(i)]),
            z3.Implies(self.missing < self.n, z3.Not(self.known(
                    self.missing))),
            0 <= self.base, self.base <= self.bases(),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.base),
                                      z3.Not(self.inherited(i))),
                      patterns=[BASE_MODULE(self.m, self.sub, i)]),
            z3.Implies(self.base < self.bases(), self.inherited(self.base)),
            0 <= self.star, self.star <= stars,
            z3.ForAll([i], z3.Implies(
                    z3.And(0 <= i, i < self.star),
                    z3.Not(FOUND(*self.of_star(i)))),
                patterns=[STAR(self.m, i)]),
            z3.Implies(self.star < stars, FOUND(*self.of_star(self.star))),
            0 <= self.prefix, self.prefix <= self.n,
            z3.ForAll([i], z3.Implies(
                    z3.And(self.prefix < i, i <= self.n),
                    z3.Not(self.refers(i))),
                patterns=[REFERS(self.m, part(self.p, 0, i))]),
            z3.Implies(self.prefix > 0, self.refers(self.prefix))]

    def cases(self):
        """
        Condition and outcome of every case: whether an object is found, its
        module and path.
        """
        m, p, n, q = self.m, self.p, self.n, self.q

        def call(module, path, flag=TRUE):
            where = module, path, flag
            return (FOUND(*where), FOUND_MODULE(*where),
                    FOUND_OBJECT(*where))

        def rest(k):
            return part(p, k, n - k)

        nothing = FALSE, None, None
        known = IS_MODULE(m)
        ordinary = z3.And(known, n > 0)
        nested = z3.And(ordinary, LENGTH(q) > 0)
        fresh = z3.And(ordinary, z3.Not(z3.And(LENGTH(q) == 0,
                                               self.seen)))
        own = CONTAINS(ROOT(m), JOIN(q, RUN(p, 0, 1)))
        in_module = z3.And(fresh, z3.Not(z3.And(LENGTH(q) > 0, own)))
        first = HAS(ROOT(m), PART(p, 0))
        declared = z3.And(in_module, first)
        whole = self.missing >= n
        attribute = z3.And(declared, z3.Not(whole))
        where = self.of_base(self.base)
        in_base = self.base < self.bases()
        of_object = z3.And(self.named(m, LENGTH(m), 'builtins'),
                           self.named(p, self.missing, 'object'))
        other = z3.And(in_module, z3.Not(first))
        starred = self.star < STARS(m)
        imported = z3.And(other, z3.Not(starred), self.prefix > 0)
        reference = part(p, 0, self.prefix)
        referent = (REFERENT_MODULE(m, reference),
                    REFERENT_OBJECT(m, reference), TRUE)
        submodule = concatenated(referent[:2])
        builtin = HAS(ROOT(self.builtins), PART(p, 0))
        last = z3.And(other, z3.Not(starred), self.prefix == 0)
        return [
            ('an unknown module', z3.Not(known), nothing),
            ('the module itself', z3.And(known, n == 0),
             (TRUE, m, EMPTY)),
            ('a name leading to itself', z3.And(
                    ordinary, LENGTH(q) == 0, self.seen), nothing),
            ('the scope of the class', z3.And(nested, own),
             call(m, JOIN(q, p))),
            ('declared in the module', z3.And(declared, whole),
             (TRUE, m, p)),
            ('inherited from the first base having it', z3.And(
                    attribute, in_base), call(
                        FOUND_MODULE(*where),
                        JOIN(FOUND_OBJECT(*where),
                                  rest(self.missing + 1)))),
            ('inherited from object', z3.And(
                    attribute, z3.Not(in_base), z3.Not(of_object)), call(
                        self.builtins, JOIN(self.object_,
                                                 rest(self.missing)))),
            ('not an attribute of object', z3.And(
                    attribute, z3.Not(in_base), of_object), nothing),
            ('star imported', z3.And(other, starred),
             call(*self.of_star(self.star))),
            ('imported with the longest prefix', z3.And(
                    imported, FOUND(*referent)), call(
                        FOUND_MODULE(*referent), JOIN(
                                FOUND_OBJECT(*referent),
                                rest(self.prefix)))),
            ('imported module', z3.And(
                    imported, z3.Not(FOUND(*referent)),
                    IS_MODULE(submodule)), call(submodule,
                                                rest(self.prefix))),
            ('imported from nowhere', z3.And(
                    imported, z3.Not(FOUND(*referent)),
                    z3.Not(IS_MODULE(submodule))), nothing),
            ('a builtin', z3.And(last, self.searching, builtin),
             call(self.builtins, p)),
            ('nothing', z3.And(last, z3.Not(z3.And(self.searching,
                                                   builtin))), nothing)]

    def walked(self, ctx):
        """Induction along the path, its conclusion is assumed."""
        goals = []
        i = z3.Int('position')
        for r in ctx.recurrences:
            if r(0).sort() != ValS:
                raise Unsupported('other recurrence')
            start = next((k for k in (0, 1) if ctx.proves(
                    r(0) == self.walk(z3.IntVal(k)), 1000) is True), None)
            if start is None:
                raise Unsupported('other walk along the path')
            at = z3.simplify(i + start)
            ctx.assume(z3.Implies(at >= 0, self.walk(
                    z3.simplify(at + 1)) == CHILD(self.walk(at), PART(
                            self.p, at))))
            goals.append(('induction: step', z3.Implies(
                    z3.And(i >= 0, at < self.missing,
                           r(i) == self.walk(at)),
                    r(i + 1) == self.walk(z3.simplify(at + 1)))))
            ctx.assume(z3.ForAll([i], z3.Implies(
                    z3.And(i >= 0, at <= self.missing),
                    r(i) == self.walk(at)), patterns=[r(i)]))
            last = z3.simplify(self.missing - start)
            ctx.assume(z3.Implies(last >= 0, r(last) == self.walk(
                    self.missing)))
        return goals

    def cut(self, ctx):
        """Lemmas: where the searches of the code end."""
        lemmas = [self.missing >= self.n, self.base == self.bases(),
                  self.star == STARS(self.m), self.prefix == 0]
        for at in exit_indices(ctx):
            lemmas += [at + 1 == self.missing, at == self.missing,
                       at == self.base, at == self.star,
                       self.n - at == self.prefix]
        for lemma in lemmas:
            if ctx.proves(lemma, 1500):
                ctx.assume(lemma)

    def expect_kinds(self):
        return 'return', 'raise'

    def covers(self, interp):
        return [(label, condition)
                for label, condition, outcome in self.cases()]

    def post(self, interp, kind, value):
        ctx = interp.ctx
        goals = self.walked(ctx)
        self.cut(ctx)
        if kind == 'raise':
            goals.append(('the error tells that nothing is found',
                          z3.BoolVal(value.cls is self.error)))
        else:
            module, path = qualified(interp, value)
        for label, condition, (found, its_module, its_path) in self.cases():
            if kind == 'raise':
                outcome = z3.Not(found)
            elif its_module is None:
                outcome = FALSE
            else:
                outcome = z3.And(found, module == its_module,
                                 path == its_path)
            goals.append((label, z3.Implies(condition, outcome)))
        return goals


DECLARED = z3.Function('is_declared', PATH, PATH, BOOL)


class Declared(Resolution):
    """
    What is found is an object its module declares, or a module; otherwise
    only ObjectNotFound is raised.
    """
    name = 'resolve_object_path gives declared objects'

    def setup(self, interp):
        thunk = super().setup(interp)
        m, p = z3.Consts('$dm $dp', PATH)
        f = z3.Bool('$df')
        interp.ctx.axioms += [
            z3.ForAll([m, p, f], z3.Implies(FOUND(m, p, f), DECLARED(
                    FOUND_MODULE(m, p, f), FOUND_OBJECT(m, p, f))),
                patterns=[FOUND_MODULE(m, p, f)]),
            DECLARED(self.m, self.p) == z3.And(IS_MODULE(self.m), z3.Or(
                    self.n == 0, z3.And(HAS(ROOT(self.m), PART(self.p, 0)),
                                        self.missing >= self.n)))]
        return thunk

    def post(self, interp, kind, value):
        ctx = interp.ctx
        goals = self.walked(ctx)
        self.cut(ctx)
        if kind == 'raise':
            return [*goals, ('the error tells that nothing is found',
                             z3.BoolVal(value.cls is self.error))]
        return [*goals, ('the result is declared', DECLARED(*qualified(
                interp, value)))]


class ScopeContains(Proof):
    """A scope contains a path iff every name is in the scope before it."""
    name = 'scope_contains_path'
    functions = ('scoping.scope_contains_path',)
    assumptions = (
        'the principle of mathematical induction over names of a path is '
        'applied by the harness, the step is discharged',)
    walked = Resolution.walked

    def setup(self, interp):
        from paradigm._core import scoping
        ctx = interp.ctx
        self.m = z3.Const('module_path', PATH)
        self.p = z3.Const('path', PATH)
        self.n = LENGTH(self.p)
        self.missing = z3.Int('first_missing')
        i = z3.Int('$fi')
        ctx.axioms += scope_axioms() + [
            0 <= self.missing, self.missing <= self.n,
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.missing),
                                      self.known(i)),
                      patterns=[self.walk(i)]),
            z3.Implies(self.missing < self.n, z3.Not(self.known(
                    self.missing)))]
        return lambda: interp.call(scoping.scope_contains_path, [
            scope(ROOT(self.m)), parts(self.p)], {})

    walk, known = Resolution.walk, Resolution.known

    def covers(self, interp):
        return [('long', z3.And(self.n == 3, self.missing == 2))]

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        ctx = interp.ctx
        goals = self.walked(ctx)
        for lemma in [self.missing >= self.n, *[
                at == self.missing for at in exit_indices(ctx)]]:
            if ctx.proves(lemma, 1500):
                ctx.assume(lemma)
        value = interp.truth_formula(value)
        return [*goals, ('contains iff all the names are known',
                         (self.missing >= self.n) == value)]


class ObjectContained(Proof):
    """A module contains an object iff the name of it is resolved."""
    name = 'contains_object_path'
    functions = ('scoping.contains_object_path',)

    def setup(self, interp):
        from paradigm._core import scoping
        ctx = interp.ctx
        self.found = z3.Function('resolves', ValS, ValS, ValS, BOOL)
        arguments = [SVal(z3.Const(f'argument_{i}', ValS)) for i in range(7)]
        self.arguments = [a.t for a in arguments]

        def resolve(interp, args, kwargs):
            args = [interp.as_val(a.value) for a in args]
            if interp.plain_kwargs(kwargs) or [*map(str, args[3:])] != [
                    *map(str, self.arguments[3:])]:
                raise Unsupported('other resolution')
            if not ctx.branch(self.found(*args[:3])):
                raise PyExc(scoping.ObjectNotFound, ())
            return SVal(z3.Const('resolved', ValS))

        ctx.contracts[scoping.resolve_object_path] = resolve
        return lambda: interp.call(scoping.contains_object_path, arguments,
                                   {})

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return []

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        return [('iff it is resolved', self.found(*self.arguments[:3])
                 == interp.truth_formula(value))]


class Parsing(Proof):
    """
    Resolution while stubs are being parsed: the scope of the class, the
    module, star imports, imported names with the longest known prefix,
    builtins.
    """
    name = 'stubs._resolve_object_path'
    functions = ('stubs._resolve_object_path',)
    assumptions = (
        'the function is extracted mechanically from the branch of the '
        'module which rebuilds the cache',
        'contract of the recursive calls and of _parse_stub_scope: it gives '
        'the declarations of the module; every parsed module has a table of '
        'imported names')
    budget = 150

    def setup(self, interp):
        from paradigm._core import scoping
        from pyvc.extract import nested_function
        ctx = interp.ctx
        code = nested_function('stubs', '_resolve_object_path')
        self.error = code.globals.get('_ObjectNotFound')
        if self.error is None:
            raise Unsupported('no error')
        self.m = m = z3.Const('module_path', PATH)
        self.q = z3.Const('parent_path', PATH)
        self.p = p = z3.Const('object_path', PATH)
        self.n = n = LENGTH(p)
        self.importing = z3.Int('number_of_importing')
        importing = z3.Function('importing', INT, ValS)
        is_importing = z3.Function('is_importing', PATH, BOOL)
        i = z3.Int('$fi')
        a = z3.Const('$a', PATH)
        self.builtins = UNIT(ctx.str_const('builtins'))
        self.star, self.prefix = z3.Ints('first_star longest_prefix')
        stars = STARS(m)

        def good(j):
            return z3.And(z3.Not(is_importing(STAR(m, j))),
                          FOUND(STAR(m, j), p, FALSE))

        def refers(k):
            return REFERS(m, part(p, 0, k))

        ctx.axioms += scope_axioms() + [
            n > 0, self.importing >= 0, IS_MODULE(self.builtins),
            z3.ForAll([a], STARS(a) >= 0, patterns=[STARS(a)]),
            z3.ForAll([a], is_importing(a) == z3.Exists([i], z3.And(
                    0 <= i, i < self.importing,
                    importing(i) == PAIR(a, EMPTY))),
                patterns=[is_importing(a)]),
            0 <= self.star, self.star <= stars,
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.star),
                                      z3.Not(good(i))),
                      patterns=[STAR(m, i)]),
            z3.Implies(self.star < stars, good(self.star)),
            0 <= self.prefix, self.prefix <= n,
            z3.ForAll([i], z3.Implies(
                    z3.And(self.prefix < i, i <= n), z3.Not(refers(i))),
                patterns=[REFERS(m, part(p, 0, i))]),
            z3.Implies(self.prefix > 0, refers(self.prefix))]

        def contains(interp, args, kwargs):
            if len(args) != 2 or interp.plain_kwargs(kwargs):
                raise Unsupported('other use of scope_contains_path')
            return SBool(CONTAINS(interp.as_val(args[0].value),
                                  sequence(interp, args[1].value)))

        def is_this(interp, v, other):
            return SBool(v.t == PAIR(sequence(interp, other), EMPTY))

        definitions, references, submodules, superclasses = tables()
        others = [SVal(z3.Const(f'table_{i}', ValS)) for i in range(5)]
        arguments = [others[0], others[1], definitions, references,
                     submodules, superclasses, *others[2:]]

        def checked(interp, args):
            if not all(isinstance(a, Lit) for a in args) or [
                    interp.force(a.value) for a in args] != arguments:
                raise Unsupported('other tables')

        def recursive(interp, args, kwargs):
            if interp.plain_kwargs(kwargs) or not all(
                    isinstance(a, Lit) for a in args[:12]):
                raise Unsupported('other recursion')
            module, parent, path = [sequence(interp, a.value)
                                    for a in args[:3]]
            checked(interp, args[3:12])
            if ctx.proves(LENGTH(parent) == 0, 1000) is not True:
                raise Unsupported('recursion with a scope')
            visited = interp.clean(args[12:])
            if len(visited) != 2 or visited[0] is not self.visited or not (
                    isinstance(visited[1], Lit) and sequence(
                            interp, visited[1].value).eq(self.m)):
                raise Unsupported('cycles are stopped otherwise')
            if not ctx.branch(FOUND(module, path, FALSE)):
                raise PyExc(self.error, ())
            return pair(FOUND_MODULE(module, path, FALSE),
                        FOUND_OBJECT(module, path, FALSE))

        def parsed(interp, args, kwargs):
            if interp.plain_kwargs(kwargs):
                raise Unsupported('other parsing')
            checked(interp, args[1:])
            module = sequence(interp, args[0].value)
            ctx.assume(IS_MODULE(module))
            return scope(ROOT(module))

        for name, contract in [('_resolve_object_path', recursive),
                               ('_parse_stub_scope', parsed)]:
            def callee():
                """Stands for the extracted function."""
            callee.__qualname__ = name
            code.globals[name] = callee
            ctx.contracts[callee] = contract
        ctx.contracts[scoping.scope_contains_path] = contains
        iv = new_iv()
        self.visited = Gen(self.importing, iv, SVal(importing(iv),
                                                    {'eq': is_this}))
        return lambda: interp.call(code, [
            Lit(parts(m)), Lit(parts(self.q)), Lit(parts(p)),
            *[Lit(a) for a in arguments], self.visited], {})

    def cases(self):
        m, p, n, q = self.m, self.p, self.n, self.q
        own = CONTAINS(ROOT(m), JOIN(q, RUN(p, 0, 1)))
        first = z3.And(z3.Not(own), HAS(ROOT(m), PART(p, 0)))
        other = z3.Not(z3.Or(own, first))
        starred = self.star < STARS(m)
        where = STAR(m, self.star), p, FALSE
        reference = part(p, 0, self.prefix)
        last = z3.And(other, z3.Not(starred), self.prefix == 0)
        builtin = z3.And(self.importing == 0,
                         CONTAINS(ROOT(self.builtins), p))
        return [
            ('the scope of the class', own, (m, JOIN(q, p))),
            ('declared in the module', first, (m, p)),
            ('star imported', z3.And(other, starred),
             (FOUND_MODULE(*where), FOUND_OBJECT(*where))),
            ('imported with the longest prefix', z3.And(
                    other, z3.Not(starred), self.prefix > 0),
             (REFERENT_MODULE(m, reference), JOIN(
                     REFERENT_OBJECT(m, reference),
                     part(p, self.prefix, n - self.prefix)))),
            ('a builtin', z3.And(last, builtin), (self.builtins, p)),
            ('nothing', z3.And(last, z3.Not(builtin)), None)]

    def expect_kinds(self):
        return 'return', 'raise'

    def covers(self, interp):
        return [(label, condition)
                for label, condition, outcome in self.cases()]

    def post(self, interp, kind, value):
        ctx = interp.ctx
        lemmas = [self.star == STARS(self.m), self.prefix == 0]
        for at in exit_indices(ctx):
            lemmas += [at == self.star, self.n - at == self.prefix]
        for lemma in lemmas:
            if ctx.proves(lemma, 1500):
                ctx.assume(lemma)
        goals = []
        if kind == 'raise':
            goals.append(('the error tells that nothing is found',
                          z3.BoolVal(value.cls is self.error)))
        else:
            module, path = qualified(interp, value)
        for label, condition, outcome in self.cases():
            if kind == 'raise' or outcome is None:
                as_told = z3.BoolVal(kind == 'raise' and outcome is None)
            else:
                as_told = z3.And(module == outcome[0], path == outcome[1])
            goals.append((label, z3.Implies(condition, as_told)))
        return goals
