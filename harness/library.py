"""Callables of the standard library along with their plain declarations."""
import ast
import importlib
import inspect
import pathlib
import types

# importing these has no effects
MODULES = ['builtins', 'math', 'cmath', 'itertools', 'functools', 'operator',
           '_operator', 'collections', 're', 'json', 'json.encoder',
           'json.decoder', 'datetime', 'decimal', 'fractions', 'io', 'string',
           'textwrap', 'random', 'statistics', 'struct', 'zlib', 'time',
           'array', 'bisect', '_bisect', '_heapq', 'copy', 'pathlib',
           'threading', 'queue', 'hashlib', 'types', 'typing', 'inspect',
           'contextlib', 'dataclasses', 'enum', 'abc', 'weakref', 'os',
           'posix', 'sys', 'gc', 'shutil', 'tempfile', 'logging', 'calendar',
           'difflib', 'pprint', 'reprlib', 'shlex', 'csv', 'configparser',
           'argparse', 'ast', 'dis', 'tokenize', 'traceback', 'linecache',
           'urllib.parse', 'html', 'html.parser', 'base64', 'binascii',
           'codecs', 'unicodedata', 'locale', 'gettext', 'select',
           'selectors', 'signal', 'errno', 'stat', 'glob', 'fnmatch',
           'zipfile', 'tarfile', 'gzip', 'bz2', 'lzma', 'pickle', 'copyreg',
           'marshal', 'numbers', 'uuid', 'secrets', 'hmac', 'ipaddress',
           'email.message', 'concurrent.futures._base', 'asyncio.queues',
           'asyncio.locks', 'xml.etree.ElementTree', 'sqlite3.dbapi2']
KNOWN_DECORATORS = {'overload', 'staticmethod', 'classmethod',
                    'abstractmethod', 'final', 'type_check_only'}


def definitions(body):
    """Functions and classes with a single unconditional meaning."""
    result, others = {}, set()
    for node in body:
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef,
                             ast.ClassDef)):
            result.setdefault(node.name, []).append(node)
        else:
            for child in ast.walk(node):
                if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef,
                                      ast.ClassDef)):
                    others.add(child.name)
                elif isinstance(child, ast.alias):
                    others.add(child.asname or child.name.split('.')[0])
                elif isinstance(child, ast.Name):
                    if isinstance(child.ctx, ast.Store):
                        others.add(child.id)
    return {name: nodes for name, nodes in result.items()
            if name not in others}


def decorators(node):
    result = set()
    for decorator in node.decorator_list:
        if isinstance(decorator, ast.Attribute):
            result.add(decorator.attr)
        elif isinstance(decorator, ast.Name):
            result.add(decorator.id)
        else:
            result.add(None)
    return result


def parameters(node, dropped):
    """Names, kinds and whether there are defaults."""
    arguments = node.args
    positional = arguments.posonlyargs + arguments.args
    optional = len(positional) - len(arguments.defaults)
    result = [(a.arg, 'positional', index >= optional)
              for index, a in enumerate(positional)][dropped:]
    if arguments.vararg is not None:
        result.append((arguments.vararg.arg, 'variadic', None))
    result += [(a.arg, 'keyword', default is not None)
               for a, default in zip(arguments.kwonlyargs,
                                     arguments.kw_defaults)]
    if arguments.kwarg is not None:
        result.append((arguments.kwarg.arg, 'variadic keyword', None))
    return result


def declared(nodes, dropped=0):
    return [parameters(node, dropped) for node in nodes]


def plain(nodes):
    return all(not isinstance(node, ast.ClassDef)
               and decorators(node) <= KNOWN_DECORATORS for node in nodes)


def is_at(value, module, path):
    return (getattr(value, '__module__', None) == module
            and getattr(value, '__qualname__', None) == path)


def callables():
    """Spelling, object, declarations."""
    import mypy
    root = pathlib.Path(mypy.__file__).parent / 'typeshed' / 'stdlib'
    for name in MODULES:
        path = root.joinpath(*name.split('.'))
        path = (path / '__init__.pyi' if path.is_dir()
                else path.with_suffix('.pyi'))
        try:
            module = importlib.import_module(name)
            tree = ast.parse(path.read_text())
        except (ImportError, OSError):
            continue
        for own, nodes in definitions(tree.body).items():
            value = vars(module).get(own)
            if not is_at(value, name, own):
                continue
            if plain(nodes) and isinstance(value, (
                    types.BuiltinFunctionType, types.FunctionType)):
                yield f'{name}.{own}', value, declared(nodes)
            elif (isinstance(nodes[0], ast.ClassDef) and len(nodes) == 1
                    and isinstance(value, type)):
                yield from members(f'{name}.{own}', value, nodes[0], name)


def members(spelled, cls, node, module):
    for name, nodes in definitions(node.body).items():
        value = vars(cls).get(name)
        if value is None or not plain(nodes):
            continue
        path = f'{cls.__qualname__}.{name}'
        known = set.union(*map(decorators, nodes))
        obtained = getattr(cls, name)
        if known & {'staticmethod', 'classmethod'}:
            dropped = 'classmethod' in known
            if (isinstance(value, (staticmethod, classmethod,
                                   types.ClassMethodDescriptorType))
                    and isinstance(value, staticmethod) is not dropped
                    and isinstance(obtained, (types.FunctionType,
                                              types.MethodType,
                                              types.BuiltinFunctionType))):
                yield f'{spelled}.{name}', obtained, declared(nodes), dropped
            continue
        if (isinstance(value, (types.MethodDescriptorType,
                               types.WrapperDescriptorType))
                and value.__objclass__ is cls
                and value.__qualname__ == path
                or (isinstance(value, types.FunctionType)
                    and is_at(value, module, path)
                    and inspect.unwrap(value) is value)):
            yield f'{spelled}.{name}', value, declared(nodes)
