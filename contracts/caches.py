"""
Contracts of writing of caches: the text of every container is a display of
Python made of the texts of its parts, the text of a file is a sequence of
assignments.
"""
import z3

from harness.proof import Proof
from pyvc.core import (INT, StrS, Sub, ValS, DictObj, Gen, Join, ListObj, Lit, Part,
                       PyExc, SInt, SStr, SVal, SetObj, TRUE, Unsupported,
                       VIte, VStr, VTup, new_iv, subst)
from pyvc.pybuiltins import PERMUTATION

TEXT = 'repr_from'


def values(name, size):
    function = z3.Function(name, INT, ValS)
    iv = new_iv()
    return function, Gen(size, iv, SVal(function(iv)))


def represented(interp, args, kwargs):
    """Contract of repr_from: text of the data."""
    value = interp.force(args[0].value)
    return VStr([Part(TEXT, value)])


class Wrong(Exception):
    """The text is not the one specified."""


def tokens(parts, top):
    """
    Text without the space between tokens; outside of brackets only spaces
    are allowed.
    """
    result = []
    depth = 0 if top else 1
    for part in parts:
        if isinstance(part, str):
            for character in part:
                if character == ' ' or character == '\n' and depth:
                    continue
                if character in '{[(':
                    depth += 1
                elif character in '}])':
                    depth -= 1
                elif character not in ',:':
                    raise Unsupported(f'text with {character!r}')
                result.append(character)
        elif isinstance(part, Part) and part.op == 'repeat':
            text = part.value.pieces[0].value
            if isinstance(text, VStr):
                inner = tokens([text], top)
                if inner:
                    raise Unsupported('repeated text')
            elif text.strip(' '):
                raise Unsupported('repeated text')
        elif isinstance(part, VStr):
            result.extend(tokens(part.parts, top and not depth))
        elif isinstance(part, Part) and part.op in (TEXT, 'repr'):
            result.append(part)
        elif isinstance(part, Join):
            separator = tokens([part.sep], False)
            result.append(Join(separator, part.pieces))
        else:
            raise Unsupported(f'text with {part!r}'[:100])
    return result


def content(parts, opening, closing):
    """Tokens inside of the brackets."""
    if (len(parts) < 2 or parts[0] != opening or parts[-1] != closing):
        raise Unsupported(f'text {parts!r}'[:200])
    return parts[1:-1]


def elements(inner):
    """Generic element of the display: count, index, its tokens."""
    if inner[-1:] == [',']:
        inner = inner[:-1]
    if len(inner) != 1 or not isinstance(inner[0], Join):
        raise Unsupported(f'elements {inner!r}'[:200])
    join, = inner
    if join.sep != [',']:
        raise Unsupported(f'separator {join.sep}')
    if len(join.pieces) != 1 or not isinstance(join.pieces[0], Gen):
        raise Unsupported('pieces of text')
    piece, = join.pieces
    if piece.filtered:
        raise Unsupported('filtered elements')
    element = piece.tmpl
    parts = element.parts if isinstance(element, VStr) else [element]
    return piece.n, piece.iv, tokens(parts, False)


def index_of(term, function, iv):
    """
    Index of the element shown at the given position and whether the order
    is kept; the index has to be the position or its permutation.
    """
    if not (z3.is_app(term) and term.decl().eq(function)):
        raise Unsupported(f'element {term}')
    index = z3.simplify(term.arg(0))
    if index.eq(iv):
        return True
    if (z3.is_app(index) and index.decl().name().startswith(PERMUTATION)
            and index.arg(0).eq(iv)):
        return False
    raise Unsupported(f'order of elements: {index}')


class Display(Proof):
    type_ = None
    assumptions = (
        'repr of a scalar and of an empty container is Python source '
        'evaluating to an equal value of the same type',
        'Python evaluates displays of containers as its reference tells; '
        'nesting of the data is finite: texts of the parts are represented '
        'by the contract of repr_from')

    def setup(self, interp):
        from paradigm._core import pretty
        ctx = interp.ctx
        if not hasattr(pretty.repr_from, 'dispatch'):
            raise Unsupported('texts are not dispatched by types')
        self.handler = pretty.repr_from.dispatch(self.type_)
        ctx.contracts[pretty.repr_from] = represented
        self.n = z3.Int('size')
        indent, depth = z3.Int('indent'), z3.Int('depth')
        ctx.axioms.extend([self.n >= 0, indent >= 0, depth >= 0])
        self.data = self.make(interp)
        return lambda: interp.call(self.handler, [
            self.data, SInt(indent), SInt(depth)], {})

    def make(self, interp):
        self.element, piece = values('element', self.n)
        return self.container(interp, piece)

    def expect_kinds(self):
        return 'return',

    def covers(self, interp):
        return [('empty', self.n == 0), ('of one element', self.n == 1),
                ('of several elements', self.n > 2)]

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('a text is made', z3.BoolVal(False))]
        value = interp.force(value)
        if isinstance(value, str):
            if value == repr(self.type_()):
                return [('it is the text of an empty container',
                         self.n == 0)]
            raise Unsupported(f'text {value!r}')
        if not isinstance(value, VStr):
            raise Unsupported(f'text {value!r}'[:100])
        parts = tokens(value.parts, True)
        if len(parts) == 1 and isinstance(parts[0], Part):
            if parts[0].op != 'repr' or parts[0].value is not self.data:
                raise Unsupported('text of something else')
            return [('the text by Python itself is of the same data',
                     z3.BoolVal(True))]
        return self.display(interp, parts)

    def sequence(self, interp, parts, opening, closing, ordered):
        inner = content(parts, opening, closing)
        goals = []
        if inner and isinstance(inner[0], Part):
            return self.single(interp, inner)
        n, iv, element = elements(inner)
        goals = [('all the elements are shown', n == self.n)]
        if not (len(element) == 1 and isinstance(element[0], Part)):
            raise Unsupported(f'element {element!r}'[:200])
        kept = index_of(interp.as_val(element[0].value), self.element, iv)
        if ordered:
            goals.append(('order of the elements is kept',
                          z3.BoolVal(kept)))
        return goals

    def single(self, interp, inner):
        if not (len(inner) <= 2 and inner[1:] in ([], [','])):
            raise Unsupported(f'elements {inner!r}'[:200])
        shown = interp.as_val(inner[0].value)
        return [('there is one element', self.n == 1),
                ('the element is shown', shown == self.element(0))]


class List(Display):
    name = 'repr_from: list'
    functions = ('pretty.repr_from[list]',)
    type_ = list

    def container(self, interp, piece):
        return interp.new_list([piece])

    def display(self, interp, parts):
        return self.sequence(interp, parts, '[', ']', True)


class Set(Display):
    name = 'repr_from: set'
    functions = ('pretty.repr_from[set]',)
    type_ = set

    def container(self, interp, piece):
        result = interp.new_set([piece])
        result.distinct = True
        return result

    def display(self, interp, parts):
        goals = self.sequence(interp, parts, '{', '}', False)
        return [*goals, ('an empty set is not shown as a dictionary',
                         self.n > 0)]


class Tuple(Display):
    name = 'repr_from: tuple'
    functions = ('pretty.repr_from[tuple]',)
    type_ = tuple

    def container(self, interp, piece):
        return VTup([piece])

    def display(self, interp, parts):
        goals = self.sequence(interp, parts, '(', ')', True)
        comma = content(parts, '(', ')')[-1:] == [',']
        goals.append(('comma is there for one element and not for none',
                      self.n > 0 if comma else self.n != 1))
        return goals


class Dict(Display):
    name = 'repr_from: dict'
    functions = ('pretty.repr_from[dict]',)
    type_ = dict

    def make(self, interp):
        key, value = (z3.Function(name, INT, ValS)
                      for name in ('key', 'value'))
        self.key, self.value = key, value
        iv = new_iv()
        template = interp.new_entry(SVal(key(iv)), SVal(value(iv)))
        template.frozen = True
        return interp.new_dict([Gen(self.n, iv, template)])

    def display(self, interp, parts):
        inner = content(parts, '{', '}')
        if not inner:
            return [('an empty display is of an empty dictionary',
                     self.n == 0)]
        n, iv, element = elements(inner)
        if not (len(element) == 3 and element[1] == ':'
                and isinstance(element[0], Part)
                and isinstance(element[2], Part)):
            raise Unsupported(f'element {element!r}'[:200])
        key, value = (interp.as_val(element[k].value) for k in (0, 2))
        index_of(key, self.key, iv)
        if not (z3.is_app(value) and value.decl().eq(self.value)):
            return [('values follow keys', z3.BoolVal(False))]
        return [('all the items are shown', n == self.n),
                ('the value is of the key', z3.ForAll([iv], z3.Implies(
                        z3.And(0 <= iv, iv < self.n),
                        key.arg(0) == value.arg(0))))]


class Scalar(Proof):
    name = 'repr_from: scalar'
    functions = ('pretty.repr_from',)

    def setup(self, interp):
        from paradigm._core import pretty
        self.handlers = {type_: pretty.repr_from.dispatch(type_)
                         for type_ in (str, int, bool, float, bytes,
                                       type(None), type(Ellipsis))}
        if len(set(self.handlers.values())) != 1:
            raise Unsupported('several handlers of scalars')
        handler, = set(self.handlers.values())
        self.v = z3.Const('scalar', ValS)
        return lambda: interp.call(handler, [
            SVal(self.v), SInt(z3.Int('indent')), SInt(z3.Int('depth'))], {})

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('a text is made', z3.BoolVal(False))]
        value = interp.force(value)
        if not (isinstance(value, VStr) and len(value.parts) == 1
                and isinstance(value.parts[0], Part)
                and value.parts[0].op == 'repr'):
            raise Unsupported(f'text {value!r}'[:200])
        return [('the text is the one by Python',
                 interp.as_val(value.parts[0].value) == self.v)]


DISPLAYS = [List, Set, Tuple, Dict, Scalar]


class Files:
    """
    Contracts of the library functions writing of a cache goes by; with
    ``failing`` any of them fails with any exception.
    """

    def __init__(self, interp, failing):
        from paradigm._core import caching, pretty
        import warnings
        ctx = interp.ctx
        self.failing = failing
        self.opened = interp.new_list()
        self.written = interp.new_list()
        self.compiled = interp.new_list()
        self.warned = interp.new_list()
        self.path = SVal(z3.Const('path', ValS),
                         {'getattr': self.path_attribute})
        self.file = SVal(z3.Const('file', ValS),
                         {'getattr': self.file_attribute,
                          'enter': lambda interp, v: self.file,
                          'exit': lambda interp, v: self.closed(interp)})
        ctx.contracts[pretty.repr_from] = represented
        ctx.contracts[pretty.format_exception] = (
            lambda interp, args, kwargs: SStr(z3.Const('traceback', StrS)))
        ctx.contracts[warnings.warn] = self.warn
        if hasattr(caching, 'compile_file'):
            ctx.contracts[caching.compile_file] = self.compile

    def may_fail(self, interp):
        from pyvc.core import BOOL
        if self.failing and interp.ctx.branch(interp.ctx.fresh('fails',
                                                               BOOL)):
            raise PyExc(Exception, ('failed',))

    def closed(self, interp):
        self.may_fail(interp)

    def path_attribute(self, interp, v, name, default):
        from pyvc.core import Prim
        if name == 'open':
            def open_(args, kwargs):
                kwargs = interp.plain_kwargs(kwargs)
                values = [a.value for a in args]
                mode = values[0] if values else kwargs.get('mode')
                encoding = kwargs.get('encoding')
                if mode != 'w' or encoding not in ('utf-8', 'utf8', 'UTF-8'):
                    raise Unsupported('file opened otherwise')
                self.may_fail(interp)
                interp.ctx.touch(self.opened)
                self.opened.pieces.append(Lit(None))
                return self.file
            return Prim('open', open_)
        raise Unsupported(f'attribute {name} of a path')

    def file_attribute(self, interp, v, name, default):
        from pyvc.core import Prim
        if name == 'write':
            def write(args, kwargs):
                self.may_fail(interp)
                text, = [a.value for a in args]
                interp.ctx.touch(self.written)
                self.written.pieces.append(Lit(text))
            return Prim('write', write)
        raise Unsupported(f'attribute {name} of a file')

    def compile(self, interp, args, kwargs):
        self.may_fail(interp)
        interp.ctx.touch(self.compiled)
        self.compiled.pieces.append(Lit(None))
        return True

    def warn(self, interp, args, kwargs):
        interp.ctx.touch(self.warned)
        self.warned.pieces.append(Lit(None))


class Save(Proof):
    name = 'save'
    functions = ('caching.save',)
    failing = False
    assumptions = (
        'pathlib.Path.open, write, close, compileall.compile_file and '
        'warnings.warn are represented by contracts',)

    def setup(self, interp):
        from paradigm._core import caching
        self.files = Files(interp, self.failing)
        self.n = z3.Int('fields')
        interp.ctx.axioms.append(self.n >= 0)
        self.name_of = z3.Function('field', INT, StrS)
        self.value_of = z3.Function('data', INT, ValS)
        iv = new_iv()
        template = interp.new_entry(SStr(self.name_of(iv)),
                                    SVal(self.value_of(iv)))
        template.frozen = True
        values = interp.new_dict([
            Lit(interp.new_entry('path', self.files.path)),
            Gen(self.n, iv, template)])
        i = z3.Int('$f')
        interp.ctx.axioms.append(z3.ForAll(
                [i], self.name_of(i) != interp.ctx.str_const('path'),
                patterns=[self.name_of(i)]))
        return lambda: interp.call(caching.save, [], values)

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('a failure does not leave the function',
                     z3.BoolVal(False))]
        goals = [('nothing fails: no exception', z3.BoolVal(True))]
        if self.failing:
            return goals
        if len(self.files.opened.pieces) != 1:
            raise Unsupported('opened files')
        return goals + self.assignments(interp)

    def assignments(self, interp):
        """The text of the file is one assignment per line."""
        pieces = interp.clean(self.files.written.pieces)
        if not pieces:
            return [('every field is written', self.n == 0)]
        if len(pieces) != 1 or not isinstance(pieces[0], Gen):
            raise Unsupported('text of the file')
        piece, = pieces
        tmpl = piece.tmpl
        texts = ([p.value for p in tmpl.pieces if isinstance(p, Lit)]
                 if isinstance(tmpl, Sub) else [tmpl])
        if isinstance(tmpl, Sub) and len(texts) != len(tmpl.pieces):
            raise Unsupported('text of the file')
        parts = []
        for text in texts:
            parts.extend(text.parts if isinstance(text, VStr) else [text])
        merged = interp.make_text(parts)
        if piece.filtered or not isinstance(merged, VStr):
            raise Unsupported('text of the file')
        parts = merged.parts
        if not (len(parts) == 4 and isinstance(parts[0], SStr)
                and isinstance(parts[1], str) and isinstance(parts[2], Part)
                and parts[2].op in (TEXT, 'repr')
                and isinstance(parts[3], str)
                and parts[1].strip(' ') == '='
                and parts[3].strip(' \n') == '' and '\n' in parts[3]
                and not parts[3].rpartition('\n')[2]):
            raise Unsupported(f'text of the file {merged!r}'[:200])
        iv = piece.iv
        inside = z3.And(0 <= iv, iv < self.n)
        return [('every field is written', piece.n == self.n),
                ('under its name', z3.ForAll([iv], z3.Implies(
                        inside, parts[0].t == self.name_of(iv)))),
                ('with its data', z3.ForAll([iv], z3.Implies(
                        inside, interp.as_val(parts[2].value)
                        == self.value_of(iv))))]


class SaveFailing(Save):
    name = 'save: failures'
    failing = True

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('a failure does not leave the function',
                     z3.BoolVal(False))]
        return [('nothing is raised', z3.BoolVal(True))]


class Load(Proof):
    name = 'load'
    functions = ('caching.load',)
    assumptions = (
        'importlib.import_module executes the text of the file, '
        'operator.attrgetter of several names gives the tuple of attributes',)

    def setup(self, interp):
        import operator
        from importlib import import_module
        from paradigm._core import caching
        from pyvc.core import Prim
        ctx = interp.ctx
        self.n = z3.Int('names')
        ctx.axioms.append(self.n >= 2)
        self.name_of = z3.Function('name', INT, StrS)
        self.module = SVal(z3.Const('module', ValS))
        self.fails = z3.Bool('import_fails')
        self.stem = z3.Const('stem', StrS)
        self.attribute = z3.Function('attribute', ValS, StrS, ValS)
        path = SVal(z3.Const('path', ValS), {'attrs': {
            'stem': lambda interp, v: SStr(self.stem)}})
        self.imported = interp.new_list()

        def import_(interp, args, kwargs):
            ctx.touch(self.imported)
            self.imported.pieces.append(Lit(args[0].value))
            if ctx.branch(self.fails):
                raise PyExc(Exception, ())
            return self.module

        def attributes(interp, names, kwargs):
            def get(args, kwargs):
                target, = [interp.as_val(a.value) for a in args]
                result = []
                for p in interp.clean(names):
                    if isinstance(p, Lit):
                        result.append(Lit(SVal(self.attribute(
                                target, interp.as_str(p.value)))))
                    else:
                        iv = new_iv()
                        result.append(Gen(p.n, iv, SVal(self.attribute(
                                target, interp.as_str(p.at(ctx, iv))))))
                return VTup(result)
            return Prim('attrgetter', get)

        ctx.contracts[import_module] = import_
        ctx.contracts[operator.attrgetter] = attributes
        iv = new_iv()
        return lambda: interp.call(caching.load, [
            Gen(self.n, iv, SStr(self.name_of(iv)))], {'path': path})

    def expect_kinds(self):
        return 'return', 'raise'

    def post(self, interp, kind, value):
        texts = [p.value for p in self.imported.pieces]
        if not (len(texts) == 1 and isinstance(texts[0], VStr)
                and len(texts[0].parts) == 2
                and isinstance(texts[0].parts[0], str)
                and isinstance(texts[0].parts[1], SStr)):
            raise Unsupported('imported modules')
        prefix, stem = texts[0].parts
        goals = [('the file is imported as a module of the package',
                  z3.And(z3.BoolVal(prefix == 'paradigm._core.'),
                         stem.t == self.stem))]
        if kind == 'raise':
            return [*goals, ('only a failed import is reported',
                             self.fails)]
        value = interp.force(value)
        if not (isinstance(value, VTup) and len(value.pieces) == 1
                and isinstance(value.pieces[0], Gen)):
            raise Unsupported('loaded data')
        piece, = value.pieces
        i = z3.Int('field')
        return [*goals,
                ('as many fields as asked for', piece.n == self.n),
                ('every field in its place', z3.Implies(
                        z3.And(0 <= i, i < self.n),
                        interp.as_val(piece.at(interp.ctx, i))
                        == self.attribute(self.module.t,
                                          self.name_of(i))))]


class Trees(Proof):
    """to_raw and from_raw applied one after another."""
    name = 'from_raw(to_raw(tree))'
    functions = ('conversion.to_raw', 'construction.from_raw')
    assumptions = (
        'ast.dump gives an expression that evaluates to an equal tree in a '
        'namespace with the classes of nodes, where Ellipsis is the builtin '
        'constant (infinite numbers aside)',)

    def setup(self, interp):
        import ast
        from paradigm._core.arboreal import construction, conversion
        ctx = interp.ctx
        self.tree = z3.Const('tree', ValS)
        dump = z3.Function('dump', ValS, StrS)
        evaluated = z3.Function('evaluated', StrS, ValS)
        t = z3.Const('$t', ValS)
        ctx.axioms.append(z3.ForAll([t], evaluated(dump(t)) == t,
                                    patterns=[dump(t)]))

        def dumped(interp, args, kwargs):
            kwargs = dict(interp.plain_kwargs(kwargs))
            kwargs.pop('annotate_fields', None)
            kwargs.pop('include_attributes', None)
            if kwargs or not 1 <= len(args) <= 3:
                raise Unsupported('dump with other arguments')
            return SStr(dump(interp.as_val(args[0].value)))

        def evaluate(interp, args, kwargs):
            values = [interp.force(a.value) for a in args]
            if len(values) != 2 or not isinstance(values[0], SStr):
                raise Unsupported('other evaluation')
            namespace = interp.to_host(values[1])
            if not (isinstance(namespace, dict)
                    and namespace.get('Ellipsis', Ellipsis) is Ellipsis
                    and all(namespace.get(name) is value
                            for name, value in vars(ast).items()
                            if isinstance(value, type)
                            and issubclass(value, ast.AST)
                            and name != 'Ellipsis')):
                raise Unsupported('other namespace')
            return SVal(evaluated(values[0].t), {
                'isinstance': lambda interp, v, classes: True})

        ctx.contracts[ast.dump] = dumped
        ctx.contracts[eval] = evaluate
        ctx.contracts[conversion.RawAstNode] = (
            lambda interp, args, kwargs: args[0].value)
        return lambda: interp.call(construction.from_raw, [interp.call(
                conversion.to_raw, [SVal(self.tree)], {})], {})

    def expect_kinds(self):
        return 'return',

    def post(self, interp, kind, value):
        if kind == 'raise':
            return [('the tree is rebuilt', z3.BoolVal(False))]
        return [('the tree is the same', interp.as_val(interp.force(value))
                 == self.tree)]
