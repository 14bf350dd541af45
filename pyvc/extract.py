"""
Mechanical extraction of the top level of a module as a function.

The statements are kept in their order. Dropped are: imports, definitions of
functions and classes (the names stand for the objects which the module has
after its import, or for those given by the caller) and annotations.
Selected variables are returned in a tuple.
"""
import ast
import importlib.util
import os
import types

from .core import Func, Unsupported

DEFINITIONS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)
IMPORTS = (ast.Import, ast.ImportFrom)


class Cleaner(ast.NodeTransformer):
    def drop(self, node):
        return ast.copy_location(ast.Pass(), node)

    visit_Import = visit_ImportFrom = drop
    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = drop

    def visit_AnnAssign(self, node):
        if node.value is None:
            return self.drop(node)
        return ast.copy_location(ast.Assign([node.target], node.value), node)


def names_of(node, context):
    return {child.id for child in ast.walk(node)
            if isinstance(child, ast.Name)
            and isinstance(child.ctx, context)}


class Slicer(ast.NodeTransformer):
    """Drops assignments of names which are not in use."""

    def __init__(self, tree, result):
        assignments = [node for node in ast.walk(tree)
                       if isinstance(node, ast.Assign)
                       and all(isinstance(t, (ast.Name, ast.Tuple))
                               for t in node.targets)]
        inside = {id(child) for node in assignments
                  for child in ast.walk(node)}
        self.used = set(result) | {
            node.id for node in ast.walk(tree)
            if isinstance(node, ast.Name) and id(node) not in inside}
        size = None
        while size != len(self.used):
            size = len(self.used)
            for node in assignments:
                if self.used & names_of(node, ast.Store):
                    self.used |= names_of(node, ast.Load)

    def visit_Assign(self, node):
        if (all(isinstance(t, (ast.Name, ast.Tuple)) for t in node.targets)
                and not self.used & names_of(node, ast.Store)):
            return ast.copy_location(ast.Pass(), node)
        return node


def top_level(module, result, values=(), sliced=False):
    """
    Function of no parameters whose body is the top level of the module;
    ``result`` - names of the variables returned, ``values`` - what names
    not assigned there stand for; ``sliced`` - assignments of names which
    nothing else there uses are dropped too.
    """
    with open(module.__file__) as file:
        tree = ast.parse(file.read())
    body = [Cleaner().visit(statement) for statement in tree.body]
    if sliced:
        slicer = Slicer(ast.Module(body, []), result)
        body = [slicer.visit(statement) for statement in body]
    body.append(ast.Return(ast.Tuple([ast.Name(name, ast.Load())
                                      for name in result], ast.Load())))
    node = ast.FunctionDef(
            'top_level', ast.arguments([], [], None, [], [], None, []), body,
            [], None)
    ast.fix_missing_locations(node)
    globals_ = {**vars(module), **dict(values)}
    return Func(node, None, globals_, (), {}, f'{module.__name__} (top)',
                None, None)


class Excluded:
    """Stands for a module of the package which is not imported."""

    def __init__(self, name):
        self.name = name


def load(name, exclude, placeholders=False):
    """Objects which imports of a module of the package give."""
    import importlib
    import paradigm._core
    folder = os.path.dirname(paradigm._core.__file__)
    path = os.path.join(folder, *name.split('.')) + '.py'
    with open(path) as file:
        tree = ast.parse(file.read())
    package = '.'.join(['paradigm', '_core', *name.split('.')[:-1]])
    result = {'__name__': f'pyvc_extracted.{name}'}
    for node in ast.walk(tree):
        if isinstance(node, ast.Import):
            for alias in node.names:
                module = importlib.import_module(alias.name)
                if alias.asname is None:
                    module = importlib.import_module(
                            alias.name.partition('.')[0])
                result[alias.asname or alias.name.partition('.')[0]] = module
        elif isinstance(node, ast.ImportFrom):
            origin = importlib.util.resolve_name(
                    '.' * node.level + (node.module or ''), package)
            if origin in exclude:
                continue
            module = importlib.import_module(origin)
            for alias in node.names:
                full = f'{origin}.{alias.name}'
                if full in exclude:
                    if placeholders:
                        result[alias.asname or alias.name] = Excluded(full)
                    continue
                try:
                    value = getattr(module, alias.name)
                except AttributeError:
                    value = importlib.import_module(full)
                result[alias.asname or alias.name] = value
    return tree, result


REBUILT = ('paradigm._core.stubs', 'paradigm._core.modules')


class Extracted(dict):
    """Names of a module as far as they are extracted."""


def branches(body):
    """Statements of the top level with the ones of its branches."""
    for node in body:
        if isinstance(node, ast.If):
            yield from branches(node.body)
            yield from branches(node.orelse)
        elif isinstance(node, ast.Try):
            for part in (node.body, node.orelse, node.finalbody,
                         *[h.body for h in node.handlers]):
                yield from branches(part)
        else:
            yield node


def definitions(module):
    """
    Functions and exceptions defined in branches of the top level of a
    module, the functions refer to each other and to what is imported.
    """
    tree, imported = load(module, REBUILT)
    result = Extracted(imported)
    for node in branches(tree.body):
        if isinstance(node, ast.ClassDef) and not node.keywords and all(
                isinstance(s, ast.Pass) or isinstance(s, ast.Expr)
                and isinstance(s.value, ast.Constant)
                for s in node.body) and not node.decorator_list:
            exec(compile(ast.Module([node], []), tree_name(module), 'exec'),
                 result)
        elif isinstance(node, ast.FunctionDef) and not node.decorator_list:
            result[node.name] = function(module, node, result)
    return result


def tree_name(module):
    return f'<extracted {module}>'


def function(module, node, globals_):
    def value(default):
        if default is None:
            return None
        try:
            return eval(compile(ast.Expression(default), tree_name(module),
                                'eval'), globals_)
        except Exception as error:
            raise Unsupported(f'default of {node.name}: {error}')

    return Func(node, None, globals_,
                tuple(map(value, node.args.defaults)),
                {a.arg: value(d) for a, d in zip(node.args.kwonlyargs,
                                                 node.args.kw_defaults)
                 if d is not None},
                f'{module}.{node.name}', None, None)


def nested_function(module, name):
    """Function defined in a branch of the top level of a module."""
    result = definitions(module).get(name)
    if not isinstance(result, Func):
        raise Unsupported(f'no function {name}')
    return result


class Unannotated(ast.NodeTransformer):
    """Annotations are dropped, they are not evaluated when it runs."""

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.returns = None
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return ast.copy_location(ast.Assign([node.target], node.value), node)


def host_module(name):
    """
    Functions and classes defined in branches of the top level of a module,
    executed in their order (with imports of the module, but without its
    other statements and without annotations).
    """
    import paradigm._core
    tree, namespace = load(name, REBUILT)
    path = os.path.join(os.path.dirname(paradigm._core.__file__),
                        *name.split('.')) + '.py'
    body = [Unannotated().visit(node) for node in branches(tree.body)
            if isinstance(node, DEFINITIONS)]
    module = types.ModuleType(f'pyvc_extracted.{name}')
    vars(module).update(namespace)
    try:
        exec(compile(ast.Module(body, []), path, 'exec'), vars(module))
    except Exception as error:
        raise Unsupported(f'not extracted: {error!r}')
    return module
