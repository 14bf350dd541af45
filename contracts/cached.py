"""
Contracts of the top levels of the modules having caches: whatever is found
in place of a cache the data is the one made without any cache, what a run
saves the next one loads.
"""
import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, StrS, ValS, DictObj, Func, Gen, Lit, Prim,
                       PyExc, SBool, SStr, SVal, Unsupported, VTup, new_iv)
from pyvc.extract import (REBUILT, Excluded, host_module, load,
                          top_level)

FAILURES = (Exception, ImportError, AttributeError, NameError, SyntaxError,
            ValueError, TypeError, OSError, MemoryError, RecursionError,
            EOFError, KeyError, LookupError, ArithmeticError)
FOUND = z3.Function('found', StrS, ValS)
RAW = z3.Function('raw_kind', ValS, ValS)
KIND = z3.Function('kind', ValS, ValS)


class Cached(Proof):
    """Runs of the top level one after another."""
    module = None
    results = ()
    budget = 100.
    assumptions = (
        'the top level of the module is extracted mechanically '
        '(pyvc/extract.py): imports, definitions, annotations and '
        'assignments of names which it does not use are dropped',
        'caching.load and caching.save are represented by their contracts: '
        'loading gives the fields or raises an exception, saving raises '
        'nothing (contracts/caches.py)',
        'execution.call_in_process gives the result (C23), computing is '
        'a function of the installed stubs')

    def setup(self, interp):
        import importlib
        import pathlib
        from paradigm._core import caching, execution
        self.interp = interp
        ctx = interp.ctx
        host = importlib.import_module(f'paradigm._core.{self.module}')
        extracted = host_module(self.module)
        imported = load(self.module, REBUILT, True)[1]
        for name, value in imported.items():
            if isinstance(value, Excluded):
                imported[name] = SVal(z3.Const(value.name, ValS), {
                    'getattr': lambda interp, v, name, default: SVal(
                            z3.Const(f'{v.t}.{name}', ValS))})
        values = {name: value
                  for name, value in {**imported, **vars(extracted)}.items()
                  if not name.startswith('__')}
        function = top_level(host, self.results, values, sliced=True)
        self.saved, self.paths = [], []
        self.content = None
        ctx.contracts[caching.load] = self.load
        ctx.contracts[caching.save] = self.save
        ctx.contracts[execution.call_in_process] = self.compute
        ctx.contracts[pathlib.Path] = self.path
        for name, value in vars(execution).items():
            if (callable(value) and value is not execution.call_in_process
                    and getattr(value, '__module__', None)
                    == execution.__name__ and not name.startswith('_')):
                ctx.contracts[value] = self.allowed
        self.prepare(interp, extracted)
        self.runs = []

        def run():
            self.script(lambda: self.run(function))
            return None

        return run

    def run(self, function):
        saved, paths = len(self.saved), len(self.paths)
        value = self.interp.force(self.interp.call(function, [], {}))
        self.runs.append((
            [self.interp.force(p.value) for p in value.pieces],
            self.saved[saved:], self.paths[paths:]))

    def prepare(self, interp, extracted):
        pass

    def allowed(self, interp, args, kwargs):
        if args or kwargs:
            raise Unsupported('other function of execution')
        return True

    def path(self, interp, args, kwargs):
        def attribute(interp, v, name, default):
            if name == 'name':
                return SStr(interp.ctx.fresh('file_name', StrS))
            if name in ('with_name', 'with_suffix'):
                return Prim(name, lambda args, kwargs: SVal(
                        v.t, {'getattr': attribute}))
            raise Unsupported(f'attribute {name} of a path')

        return SVal(z3.Const('path', ValS), {'getattr': attribute})

    def load(self, interp, args, kwargs):
        kwargs = dict(interp.plain_kwargs(kwargs))
        self.paths.append(kwargs.pop('path', None))
        names = [interp.force(a.value) for a in args]
        if kwargs or not all(isinstance(n, str) for n in names):
            raise Unsupported('other loading')
        return self.content(names)

    def save(self, interp, args, kwargs):
        if args:
            raise Unsupported('other saving')
        fields = dict(interp.plain_kwargs(kwargs))
        self.paths.append(fields.pop('path', None))
        self.saved.append(fields)
        return None

    def fail(self):
        ctx = self.interp.ctx
        for class_ in FAILURES[1:]:
            if ctx.branch(ctx.fresh('fails', BOOL)):
                raise PyExc(class_, ('failed',))
        raise PyExc(FAILURES[0], ('failed',))

    def absent(self, names):
        raise PyExc(ModuleNotFoundError, ('no cache',))

    def any(self, names):
        """Anything but a complete cache of this version."""
        from paradigm import __version__
        ctx = self.interp.ctx
        if ctx.branch(ctx.fresh('not_loaded', BOOL)):
            self.fail()
        if not any(['version' in name for name in names]):
            raise Unsupported('no version among the fields')
        version = self.interp.ctx.fresh('other_version', ValS)
        ctx.assume(version != self.interp.as_val(__version__))
        return VTup([Lit(SVal(version) if 'version' in name
                         else SVal(FOUND(ctx.str_const(name))))
                     for name in names])

    def previous(self, names):
        """What has been saved."""
        fields, = self.saved
        result = []
        for name in names:
            if name not in fields:
                raise PyExc(AttributeError, ('no field',))
            result.append(Lit(self.stored(fields[name])))
        return VTup(result)

    def stored(self, value):
        return value

    def expect_kinds(self):
        return 'return',

    def same(self, a, b):
        if a is b:
            return z3.BoolVal(True)
        if isinstance(a, DictObj) and isinstance(b, DictObj):
            return self.same_tables(a, b)
        if isinstance(a, DictObj) or isinstance(b, DictObj):
            if isinstance(a, SVal) or isinstance(b, SVal):
                return z3.BoolVal(False)
            raise Unsupported('data')
        return self.interp.as_val(a) == self.interp.as_val(b)

    def same_tables(self, a, b):
        raise Unsupported('data')

    def same_paths(self):
        first = self.interp.as_val(self.paths[0])
        return z3.And([self.interp.as_val(p) == first for p in self.paths])

    def same_data(self, a, b):
        return z3.And([self.same(x, y) for x, y in zip(a[0], b[0])])


class Unusable(Cached):
    def script(self, run):
        self.content = self.absent
        run()
        self.content = self.any
        run()

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('the package works without a cache',
                     z3.BoolVal(False))]
        made, other = self.runs
        goals = [('the data is computed anew', self.same_data(made, other)),
                 ('in place of the cache which was looked for',
                  self.same_paths())]
        if len(made[1]) != 1 or len(other[1]) != 1:
            raise Unsupported('saved data')
        first, second = made[1][0], other[1][0]
        if set(first) != set(second):
            raise Unsupported('saved fields')
        return [*goals, ('the same cache is saved', z3.And([
            self.same(value, second[name])
            for name, value in first.items()]))]


class Kept(Cached):
    def script(self, run):
        self.content = self.absent
        run()
        self.content = self.previous
        run()

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('the saved cache is loaded', z3.BoolVal(False))]
        made, loaded = self.runs
        return [('what has been saved is what is loaded',
                 self.same_data(made, loaded))]


class Stubs:
    module = 'stubs'
    results = ('definitions', 'nodes_kinds', 'raw_ast_nodes', 'references',
               'submodules', 'superclasses')
    functions = ('stubs (top level)',)

    def prepare(self, interp, extracted):
        from paradigm._core.arboreal.kind import NodeKind
        ctx = interp.ctx
        k = z3.Const('$k', ValS)
        ctx.axioms.append(z3.ForAll([k], KIND(RAW(k)) == k,
                                    patterns=[RAW(k)]))
        self.sizes = z3.Int('modules'), z3.Function('objects', INT, INT)
        ctx.axioms.append(self.sizes[0] >= 0)
        x, y = z3.Ints('$x $y')
        self.module_at = z3.Function('module', INT, ValS)
        self.object_at = z3.Function('object', INT, INT, ValS)
        self.kind_at = z3.Function('kind_at', INT, INT, ValS)
        position = z3.Function('position_of_module', ValS, INT)
        inner_position = z3.Function('position_of_object', INT, ValS, INT)
        ctx.axioms += [
            z3.ForAll([x], self.sizes[1](x) >= 0,
                      patterns=[self.sizes[1](x)]),
            z3.ForAll([x], position(self.module_at(x)) == x,
                      patterns=[self.module_at(x)]),
            z3.ForAll([x, y], inner_position(x, self.object_at(x, y)) == y,
                      patterns=[self.object_at(x, y)])]
        self.kinds = self.table(interp, lambda k: k)
        self.raw_kinds = self.table(interp, RAW)
        ctx.contracts[NodeKind] = (
            lambda interp, args, kwargs: SVal(KIND(interp.as_val(
                    args[0].value))))
        self.parse = extracted._parse_stubs_state

    def table(self, interp, change):
        count, size = self.sizes
        iv, jv = new_iv(), new_iv()
        inner_entry = interp.new_entry(
                SVal(self.object_at(iv, jv)),
                SVal(change(self.kind_at(iv, jv))))
        inner_entry.frozen = True
        inner = interp.new_dict([Gen(size(iv), jv, inner_entry)])
        inner.frozen = True
        entry = interp.new_entry(SVal(self.module_at(iv)), inner)
        entry.frozen = True
        return interp.new_dict([Gen(count, iv, entry)])

    def compute(self, interp, args, kwargs):
        function = args[0].value
        if function is not self.parse or kwargs:
            raise Unsupported('other function in a process')
        return VTup([Lit(self.kinds if name == 'nodes_kinds'
                         else SVal(z3.Const(f'made_{name}', ValS)))
                     for name in self.results])

    def stored(self, value):
        return self.raw_kinds if value is self.kinds else value

    def same_tables(self, a, b):
        """Both are tables of kinds of the same keys in the same order."""
        return z3.And([self.is_kinds(table) for table in (a, b)])

    def is_kinds(self, table):
        interp = self.interp
        i, j = z3.Ints('i j')
        count, size = self.sizes

        def single(container):
            pieces = interp.clean(container.pieces)
            if not (len(pieces) == 1 and isinstance(pieces[0], Gen)
                    and not pieces[0].filtered):
                raise Unsupported(f'table {pieces!r}'[:200])
            return pieces[0]

        outer = single(table)
        entry = outer.at(interp.ctx, i)
        inner = single(interp.force(entry.value))
        item = inner.at(interp.ctx, j)
        inside = z3.And(0 <= i, i < count)
        return z3.And(outer.n == count, z3.ForAll([i, j], z3.Implies(
                inside, z3.And(
                    interp.as_val(entry.key) == self.module_at(i),
                    inner.n == size(i),
                    z3.Implies(z3.And(0 <= j, j < size(i)), z3.And(
                        interp.as_val(item.key) == self.object_at(i, j),
                        interp.as_val(item.value) == self.kind_at(i, j)))))))


class StubsUnusable(Stubs, Unusable):
    name = 'stubs (top level): unusable cache'


class StubsKept(Stubs, Kept):
    name = 'stubs (top level): saved cache'


class Modules:
    module = 'modules'
    results = 'supported_stdlib_qualified_paths',
    functions = ('modules (top level)',)

    def prepare(self, interp, extracted):
        ctx = interp.ctx
        made = SVal(z3.Const('index', ValS))
        self.indexed = made

        def supported(interp, args, kwargs):
            if (not args or interp.force(args[0].value) is not made):
                raise Unsupported('other index')
            return SVal(z3.Const('supported', ValS))

        ctx.contracts[extracted._to_supported_qualified_paths] = supported

    def compute(self, interp, args, kwargs):
        return self.indexed


class ModulesUnusable(Modules, Unusable):
    name = 'modules (top level): unusable cache'


class ModulesKept(Modules, Kept):
    name = 'modules (top level): saved cache'
