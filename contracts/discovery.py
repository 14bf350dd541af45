"""Contracts of selection of the modules which are imported for indexing."""
import z3

from harness.proof import Proof
from pyvc.core import (BOOL, INT, StrS, TRUE, ValS, DictObj, DictView, Gen,
                       Lit, Prim, SBool, SInt, SStr, SVal, SetObj, Sub,
                       Unsupported, VIte, VTup, new_iv)
from pyvc.extract import top_level

# a path of a module is opaque but for its prefixes
PREFIX = z3.Function('prefix', ValS, INT, ValS)
LENGTH = z3.Function('length', ValS, INT)
PATH = z3.Function('path_from_string', StrS, ValS)


def path(term):
    return SVal(term, {'slice': prefix, 'len': length,
                       'eq': same, 'getattr': None})


def prefix(interp, v, lower, upper, step=None):
    if lower not in (None, 0) or step is not None:
        raise Unsupported('other slice of a path')
    bound = interp.as_int(upper)
    if bound is None:
        raise Unsupported('other slice of a path')
    return path(PREFIX(v.t, bound))


def length(interp, v):
    return SInt(LENGTH(v.t))


def same(interp, a, b):
    return SBool(interp.as_val(a) == interp.as_val(b))


def modules(name='module'):
    """Any collection of paths."""
    size = z3.Int(f'{name}s')
    function = z3.Function(name, INT, ValS)
    iv = new_iv()
    return size, function, VTup([Gen(size, iv, path(function(iv)))])


class Paths:
    """Paths given as texts."""

    def __init__(self, interp):
        from paradigm._core import catalog
        interp.ctx.contracts[catalog.path_from_string] = self.from_string
        i = z3.Const('$p', ValS)
        interp.ctx.axioms.append(z3.ForAll(
                [i], PREFIX(i, LENGTH(i)) == i, patterns=[LENGTH(i)]))
        self.constants = {}

    def from_string(self, interp, args, kwargs):
        text, = [a.value for a in args]
        text = interp.force(text)
        if isinstance(text, str):
            return path(self.constant(interp.ctx, text))
        if not isinstance(text, SStr):
            raise Unsupported('other text of a path')
        return path(PATH(text.t))

    def constant(self, ctx, text):
        result = PATH(ctx.str_const(text))
        if text not in self.constants:
            self.constants[text] = result
            ctx.axioms.append(LENGTH(result) == len(text.split('.')))
        return result

    def within(self, module, package):
        return PREFIX(module, LENGTH(package)) == package


class Excluded(Proof):
    """A module is added exactly if it is named or inside of the named."""
    name = '_recursively_update_modules_paths'
    functions = ('discovery._recursively_update_modules_paths',)
    assumptions = (
        'paths of modules are opaque: their slices [:n], lengths and '
        'equality are the only operations, with path[:len(path)] == path',)

    def setup(self, interp):
        from paradigm._core import discovery
        ctx = interp.ctx
        paths = Paths(interp)
        self.paths = paths
        self.n, self.module, known = modules()
        self.m = z3.Int('names')
        self.name_of = z3.Function('name', INT, StrS)
        self.before = z3.Function('was_there', INT, ValS)
        self.count = z3.Int('before')
        ctx.axioms.extend([self.n >= 0, self.m >= 0, self.count >= 0])
        iv, jv = new_iv(), new_iv()
        self.set = interp.new_set([Gen(self.count, jv,
                                       path(self.before(jv)))])
        ctx.contracts[('global', 'stdlib_modules_paths')] = (
            lambda interp: known)
        return lambda: interp.call(
                discovery._recursively_update_modules_paths, [
                    self.set, Gen(self.m, iv, SStr(self.name_of(iv)))], {})

    def covers(self, interp):
        return [('modules and names', z3.And(self.n > 1, self.m > 1)),
                ('no names', self.m == 0)]

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        x = z3.Const('any_path', ValS)
        i, j = z3.Ints('i j')
        named = z3.Exists([j], z3.And(
                0 <= j, j < self.m, x == PATH(self.name_of(j))))
        inside = z3.Exists([i, j], z3.And(
                0 <= i, i < self.n, x == self.module(i),
                0 <= j, j < self.m,
                self.paths.within(x, PATH(self.name_of(j)))))
        was = z3.Exists([i], z3.And(0 <= i, i < self.count,
                                    x == self.before(i)))
        there = interp.contains_formula(self.set, path(x))
        there = z3.BoolVal(there) if isinstance(there, bool) else there
        return [('what was excluded stays so', z3.Implies(was, there)),
                ('the named are excluded', z3.Implies(named, there)),
                ('what the named packages contain is excluded',
                 z3.Implies(inside, there)),
                ('nothing else is excluded',
                 z3.Implies(there, z3.Or(was, named, inside)))]


# what has to be never imported by this implementation and platform
UNSAFE = ('antigravity', 'crypt', 'idlelib', 'lib2to3.pgen2.conv', 'this',
          'tkinter', 'turtle', 'turtledemo', 'distutils._msvccompiler',
          'distutils.command.bdist_msi', 'asyncio.windows_events',
          'asyncio.windows_utils', 'ctypes.wintypes',
          'distutils.msvc9compiler', 'encodings.mbcs', 'encodings.oem',
          'multiprocessing.popen_spawn_win32')


class Supported(Proof):
    """The top level of the module for any list of modules."""
    name = 'supported_stdlib_modules_paths'
    functions = ('discovery (top level)',
                 'discovery._recursively_update_modules_paths')
    assumptions = (
        'the top level of the module is extracted mechanically '
        '(pyvc/extract.py); modules excluded on CPython 3.12 for Linux are '
        'given by the specification',)

    def setup(self, interp):
        from paradigm._core import discovery
        ctx = interp.ctx
        self.paths = Paths(interp)
        self.n, self.module, known = modules()
        ctx.axioms.append(self.n >= 0)
        ctx.contracts[('global', 'stdlib_modules_paths')] = (
            lambda interp: known)
        for name in UNSAFE:
            self.paths.constant(ctx, name)
        function = top_level(discovery, ['supported_stdlib_modules_paths'])
        return lambda: interp.call(function, [], {})

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        result, = [p.value for p in interp.force(value).pieces]
        result = interp.force(result)
        x = z3.Const('any_path', ValS)
        i = z3.Int('i')
        known = z3.Exists([i], z3.And(0 <= i, i < self.n,
                                      x == self.module(i)))
        unsafe = z3.Or([z3.Or(self.paths.within(x, p), x == p)
                        for p in (self.paths.constant(interp.ctx, name)
                                  for name in UNSAFE)])
        there = interp.contains_formula(result, path(x))
        there = z3.BoolVal(there) if isinstance(there, bool) else there
        return [('only modules of the library are imported',
                 z3.Implies(there, known)),
                ('no unsafe module is imported',
                 z3.Implies(there, z3.Not(unsafe))),
                ('all the other modules are kept',
                 z3.Implies(z3.And(known, z3.Not(unsafe)), there))]


class Valid(Proof):
    name = '_is_valid_module_path'
    functions = ('sources._is_valid_module_path',)

    def setup(self, interp):
        from paradigm._core import sources
        self.n = z3.Int('parts')
        self.part = z3.Function('part', INT, StrS)
        interp.ctx.axioms.append(self.n >= 0)
        iv = new_iv()
        value = VTup([Gen(self.n, iv, SStr(self.part(iv)))])
        return lambda: interp.call(sources._is_valid_module_path, [value],
                                   {})

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return [('a long path', self.n > 3), ('an empty path', self.n == 0)]

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        value = interp.truth_formula(value)
        value = z3.BoolVal(value) if isinstance(value, bool) else value
        ctx = interp.ctx

        def predicate(name, *args):
            text = f'{name}({args[0]!r})' if args else name
            return ctx.str_predicate(
                    text, lambda text: getattr(text, name)(*args))

        def is_test(part):
            return z3.Or(part == ctx.str_const('test'),
                         part == ctx.str_const('tests'),
                         predicate('startswith', 'test_')(part),
                         predicate('startswith', '_test')(part),
                         predicate('endswith', '_test')(part))

        i = z3.Int('i')
        inside = z3.And(0 <= i, i < self.n)
        proper = z3.And(
                self.n > 0,
                self.part(self.n - 1) != ctx.str_const('__main__'),
                z3.ForAll([i], z3.Implies(inside, z3.And(
                        predicate('isidentifier')(self.part(i)),
                        z3.Not(is_test(self.part(i)))))))
        return [('tests, scripts and what can not be named are left out',
                 z3.Implies(value, proper)),
                ('all the other modules are kept',
                 z3.Implies(proper, value))]


MODULE_NAME = z3.Function('module_name_of_file', StrS, StrS)
IS_MODULE = z3.Function('is_file_of_module', StrS, BOOL)


class ModulePath(Proof):
    """Path of the module kept in a file."""
    name = '_relative_file_path_to_module_path'
    functions = ('sources._relative_file_path_to_module_path',)
    assumptions = (
        'inspect.getmodulename tells the name of the module of a file or '
        'nothing; pathlib.Path.parts - components of a path',)

    def setup(self, interp):
        import inspect
        from paradigm._core import sources
        ctx = interp.ctx
        self.n = z3.Int('folders')
        self.folder = z3.Function('folder', INT, StrS)
        self.file = z3.Const('file_name', StrS)
        ctx.axioms.append(self.n >= 0)
        iv = new_iv()
        parts = VTup([Gen(self.n, iv, SStr(self.folder(iv))),
                      Lit(SStr(self.file))])

        def attribute(interp, v, name, default):
            if name == 'parts':
                return parts
            if name == 'is_absolute':
                return Prim(name, lambda args, kwargs: False)
            raise Unsupported(f'attribute {name} of a path')

        def name_of(interp, args, kwargs):
            value = interp.force(args[0].value)
            if not (isinstance(value, SStr) and value.t.eq(self.file)):
                raise Unsupported('other file name')
            return VIte(IS_MODULE(value.t), SStr(MODULE_NAME(value.t)), None)

        ctx.contracts[inspect.getmodulename] = name_of
        file = SVal(z3.Const('file', ValS), {'getattr': attribute})
        return lambda: interp.call(
                sources._relative_file_path_to_module_path, [file], {})

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return [('nested', self.n > 2), ('top', self.n == 0)]

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        value = interp.force(value)
        if isinstance(value, tuple):
            value = interp.lift(value)
        if not isinstance(value, VTup):
            raise Unsupported(f'result {value!r}'[:100])
        name = MODULE_NAME(self.file)
        named = z3.And(IS_MODULE(self.file),
                       name != interp.ctx.str_const('__init__'))
        size = self.n + z3.If(named, 1, 0)
        goals = [('the path has the proper length',
                  interp.seq_len(interp.materialized(value.pieces)) == size)]
        if value.pieces:
            from .imports import string
            i = z3.Int('position')
            element = string(interp.pieces_at(value.pieces, i), interp.ctx)
            goals += [
                ('folders are packages', z3.Implies(
                        z3.And(0 <= i, i < self.n),
                        element == self.folder(i))),
                ('the module is named by its file', z3.Implies(
                        z3.And(named, i == self.n), element == name))]
        return goals


FOUND = z3.Function('file_found', ValS, INT, ValS)
FOUND_COUNT = z3.Function('files_found', ValS, INT)
RELATIVE = z3.Function('relative_to', ValS, ValS, ValS)
SUFFIX = z3.Function('suffixes', ValS, StrS)
MODULE = z3.Function('module_path_of_file', ValS, ValS)


class Files:
    """Files of folders and paths of their modules, all opaque."""

    def __init__(self, interp):
        from paradigm._core import file_system, sources
        ctx = interp.ctx
        ctx.contracts[file_system.find_files_paths] = self.find
        ctx.contracts[sources._relative_file_path_to_module_path] = (
            self.module_path)
        d = z3.Const('$d', ValS)
        ctx.axioms.append(z3.ForAll([d], FOUND_COUNT(d) >= 0,
                                    patterns=[FOUND_COUNT(d)]))

    def path(self, term):
        return SVal(term, {'getattr': self.attribute, 'eq': same})

    def attribute(self, interp, v, name, default):
        if name == 'suffixes':
            # as one text: files are told by all their suffixes together
            return VTup([Lit(SStr(SUFFIX(v.t)))])
        if name == 'exists':
            return Prim(name, lambda args, kwargs: True)
        if name == 'relative_to':
            return Prim(name, lambda args, kwargs: self.path(RELATIVE(
                    v.t, interp.as_val(args[0].value))))
        raise Unsupported(f'attribute {name} of a path')

    def find(self, interp, args, kwargs):
        folder = interp.as_val(args[0].value)
        iv = new_iv()
        return interp.new_list([Gen(FOUND_COUNT(folder), iv,
                                    self.path(FOUND(folder, iv)))])

    def module_path(self, interp, args, kwargs):
        return path(MODULE(interp.as_val(args[0].value)))


VALID = z3.Function('is_valid_module_path', ValS, BOOL)
FOLDER = z3.Function('folder_of_library', StrS, ValS)


class Library(Proof):
    """Modules of the library: built in ones and valid ones of folders."""
    name = 'stdlib_modules_paths'
    functions = ('sources (top level)', 'sources._to_modules_paths')
    assumptions = (
        'the top level of the module is extracted mechanically '
        '(pyvc/extract.py)',
        'files of a folder are any sequence of opaque paths, whose suffixes '
        'are seen as one text; stubs are not looked at',
        'dict.fromkeys keeps exactly the given keys')

    def setup(self, interp):
        import sys
        import sysconfig
        from importlib.machinery import EXTENSION_SUFFIXES, SOURCE_SUFFIXES
        from paradigm._core import sources
        ctx = interp.ctx
        self.paths = Paths(interp)
        files = self.files = Files(interp)
        self.n = z3.Int('builtin_modules')
        self.name_of = z3.Function('builtin_name', INT, StrS)
        ctx.axioms.append(self.n >= 0)
        iv = new_iv()
        names = VTup([Gen(self.n, iv, SStr(self.name_of(iv)))])
        self.suffixes = sorted({*SOURCE_SUFFIXES, *EXTENSION_SUFFIXES})

        def valid(interp, args, kwargs):
            return SBool(VALID(interp.as_val(args[0].value)))

        def folder(interp, args, kwargs):
            text, = [interp.force(a.value) for a in args]
            if not isinstance(text, SStr):
                raise Unsupported('other folder')
            return files.path(FOLDER(text.t))

        def fromkeys(interp, args, kwargs):
            keys = interp.new_set(interp.collect(args[0].value))
            return SVal(z3.Const('keys', ValS), {'getattr': (
                lambda interp, v, name, default: Prim(
                        name, lambda args, kwargs: keys)
                if name == 'keys' else unknown(name))})

        def unknown(name):
            raise Unsupported(f'attribute {name}')

        def library_folder(interp, args, kwargs):
            kind = interp.force(args[0].value)
            if kind not in ('stdlib', 'platstdlib'):
                raise Unsupported(f'folder {kind}')
            return SStr(z3.Const(kind, StrS))

        ctx.contracts[sources._is_valid_module_path] = valid
        ctx.contracts[sources.Path] = folder
        ctx.contracts[dict.fromkeys] = fromkeys
        ctx.contracts[sysconfig.get_path] = library_folder
        ctx.contracts[sources._to_stubs_cache] = (
            lambda interp, args, kwargs: interp.new_dict())
        ctx.contracts[('attr', id(sys), 'builtin_module_names')] = (
            lambda interp: names)
        function = top_level(sources, ['stdlib_modules_paths'])
        return lambda: interp.call(function, [], {})

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('nothing is raised', z3.BoolVal(False))]
        ctx = interp.ctx
        result, = [p.value for p in interp.force(value).pieces]
        result = interp.force(result)
        x = z3.Const('any_path', ValS)
        i = z3.Int('i')
        builtin = z3.Exists([i], z3.And(0 <= i, i < self.n,
                                        x == PATH(self.name_of(i))))

        def found(kind):
            folder = FOLDER(z3.Const(kind, StrS))
            file = FOUND(folder, i)
            return z3.Exists([i], z3.And(
                    0 <= i, i < FOUND_COUNT(folder),
                    z3.Or([SUFFIX(file) == ctx.str_const(suffix)
                           for suffix in self.suffixes]),
                    x == MODULE(RELATIVE(file, folder)), VALID(x)))

        there = interp.contains_formula(result, path(x))
        there = z3.BoolVal(there) if isinstance(there, bool) else there
        return [('a built in module is of the library',
                 z3.Implies(builtin, there)),
                ('a valid module of the folder of the library is kept',
                 z3.Implies(found('stdlib'), there)),
                ('a valid module of the other folder is kept',
                 z3.Implies(found('platstdlib'), there)),
                ('nothing else is of the library', z3.Implies(
                        there, z3.Or(builtin, found('stdlib'),
                                     found('platstdlib'))))]


class Found(Proof):
    """
    Files of a folder are all the ones ``os.walk`` gives, each in the folder
    it is given for, for any number of folders and files.
    """
    name = 'find_files_paths'
    functions = ('file_system.find_files_paths',)
    assumptions = ('os.walk gives folders with names of the files in each',)

    def setup(self, interp):
        import os
        import pathlib
        from paradigm._core import file_system
        ctx = interp.ctx
        z3f = z3.Function
        self.n = z3.Int('folders')
        self.many = z3f('number_of_files', INT, INT)
        self.folder = z3f('name_of_folder', INT, StrS)
        self.file = z3f('name_of_file', INT, INT, StrS)
        self.within = z3f('path_within', StrS, StrS, ValS)
        of_text = z3f('path_of_text', StrS, ValS)
        i = z3.Int('$i')
        ctx.axioms += [self.n >= 0, z3.ForAll(
                [i], self.many(i) >= 0, patterns=[self.many(i)])]
        text = z3.Const('text_of_folder', StrS)
        directory = SVal(z3.Const('folder', ValS), {
            'str': lambda interp, v: SStr(text)})

        def walk(interp, args, kwargs):
            if kwargs or len(args) != 1 or interp.as_val(
                    interp.force(args[0].value)) is None:
                raise Unsupported('other walk')
            given = interp.force(args[0].value)
            if not (isinstance(given, SStr) and given.t.eq(text)
                    or given is directory):
                raise Unsupported('other folder')
            iv, k, d = new_iv(), new_iv(), new_iv()
            inner = z3.Int('inner_folders')
            return VTup([Gen(self.n, iv, VTup([
                Lit(SStr(self.folder(iv))),
                Lit(VTup([Gen(z3f('number_of_inner', INT, INT)(iv), d, SStr(
                        z3f('inner_folder', INT, INT, StrS)(iv, d)))])),
                Lit(VTup([Gen(self.many(iv), k,
                              SStr(self.file(iv, k)))]))]))])

        def to_path(interp, args, kwargs):
            value = interp.force(args[0].value)
            if len(args) != 1 or not isinstance(value, SStr):
                raise Unsupported('other path')

            def join(interp, op, left, right):
                import ast
                right = interp.force(right)
                if not (isinstance(op, ast.Div) and isinstance(left, SVal)
                        and isinstance(right, SStr)):
                    raise Unsupported('other path')
                return SVal(self.within(*left.t.children(), right.t))

            return SVal(of_text(value.t), {'binop': join})

        ctx.contracts[os.walk] = walk
        ctx.contracts[pathlib.Path] = to_path
        return lambda: interp.call(tuple, [Lit(interp.call(
                file_system.find_files_paths, [directory], {}))], {})

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return [('several', z3.And(self.n == 2, self.many(0) == 2))]

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('files are found', z3.BoolVal(False))]
        pieces = interp.clean(interp.iter_pieces(interp.force(value)))
        i, k = new_iv(), new_iv()
        expected = [Gen(self.n, i, Sub([Gen(self.many(i), k, SVal(
                self.within(self.folder(i), self.file(i, k))))]))]
        at, total = z3.Int('position'), interp.seq_len(expected)
        return [('as many files', interp.seq_len(pieces) == total),
                ('files', z3.Implies(
                        z3.And(0 <= at, at < total),
                        interp.as_val(interp.pieces_at(pieces, at))
                        == interp.as_val(interp.pieces_at(expected, at))))]


class Stubs(Proof):
    """
    Stubs are the files of the folder with the only suffix ``.pyi``, each is
    known by the path of the module it is for: the one of the file with the
    suffix of a module relative to the folder.
    """
    name = '_to_stubs_cache'
    functions = ('sources._to_stubs_cache', 'sources._is_stub')
    assumptions = (
        'files of a folder are given by the contract of find_files_paths, '
        'paths of modules by the one of _relative_file_path_to_module_path',
        'different stubs of a folder are for different modules')

    def setup(self, interp):
        from paradigm._core import file_system, sources
        ctx = interp.ctx
        z3f = z3.Function
        self.n = z3.Int('files')
        self.file = z3f('file_of_folder', INT, ValS)
        self.suffixes = z3f('number_of_suffixes', ValS, INT)
        self.suffix = z3f('suffix_of_path', ValS, INT, StrS)
        self.relative = z3f('relative_path', ValS, ValS)
        self.renamed = z3f('with_suffix', ValS, StrS, ValS)
        self.module = z3f('module_of_file', ValS, ValS)
        folder = self.path(z3.Const('folder', ValS))
        i, j, x = z3.Int('$i'), z3.Int('$j'), z3.Const('$kx', ValS)
        ctx.axioms += [
            self.n >= 0,
            z3.ForAll([x], self.suffixes(x) >= 0,
                      patterns=[self.suffixes(x)]),
            # different keys
            z3.ForAll([i, j], z3.Implies(
                    self.module(self.key(interp, i))
                    == self.module(self.key(interp, j)), i == j),
                patterns=[z3.MultiPattern(self.module(self.key(interp, i)),
                                          self.module(self.key(interp, j)))])]

        def find(interp, args, kwargs):
            if not interp.as_val(args[0].value).eq(folder.t):
                raise Unsupported('other folder')
            iv = new_iv()
            return VTup([Gen(self.n, iv, self.path(self.file(iv)))])

        ctx.contracts[file_system.find_files_paths] = find
        ctx.contracts[sources._relative_file_path_to_module_path] = (
            lambda interp, args, kwargs: path(self.module(interp.as_val(
                    args[0].value))))
        self.folder = folder
        return lambda: interp.call(sources._to_stubs_cache, [folder], {})

    def key(self, interp, i):
        return self.renamed(self.relative(self.file(i)),
                            interp.as_str('.py'))

    def path(self, term):
        return SVal(term, {'getattr': self.attribute, 'eq': same})

    def attribute(self, interp, v, name, default):
        if name == 'suffixes':
            iv = new_iv()
            return interp.new_list([Gen(self.suffixes(v.t), iv, SStr(
                    self.suffix(v.t, iv)))])
        if name == 'exists':
            return Prim(name, lambda args, kwargs: True)
        if name == 'relative_to':
            def relative(args, kwargs):
                if not interp.as_val(args[0].value).eq(self.folder.t):
                    raise Unsupported('other folder')
                return self.path(self.relative(v.t))
            return Prim(name, relative)
        if name == 'with_suffix':
            return Prim(name, lambda args, kwargs: self.path(self.renamed(
                    v.t, interp.as_str(interp.force(args[0].value)))))
        raise Unsupported(f'attribute {name} of a path')

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return [('several', self.n == 2)]

    def post(self, interp, kind, value):
        if kind != 'return':
            return [('stubs are found', z3.BoolVal(False))]
        value = interp.force(value)
        if not isinstance(value, DictObj):
            raise Unsupported('not a dictionary')
        pieces = interp.clean(interp.dict_pieces(value))
        if not pieces:
            i = z3.Int('position')
            return [('no stubs', z3.Implies(z3.And(0 <= i, i < self.n),
                                            z3.Not(self.is_stub(interp, i))))]
        piece, = pieces
        if not isinstance(piece, Gen) or not piece.n.eq(self.n):
            raise Unsupported(f'other stubs: {pieces!r}'[:200])
        i = z3.Int('position')
        inside = z3.And(0 <= i, i < self.n)
        entry = piece.at(interp.ctx, i)
        return [('which files are stubs', z3.Implies(
                    inside, piece.guard_at(i) == self.is_stub(interp, i))),
                ('modules of stubs', z3.Implies(
                        z3.And(inside, self.is_stub(interp, i)),
                        interp.as_val(entry.key)
                        == self.module(self.key(interp, i)))),
                ('files of stubs', z3.Implies(
                        z3.And(inside, self.is_stub(interp, i)),
                        interp.as_val(entry.value) == self.file(i)))]

    def is_stub(self, interp, i):
        file = self.file(i)
        return z3.And(self.suffixes(file) == 1,
                      self.suffix(file, 0) == interp.as_str('.pyi'))
