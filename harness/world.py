"""Stubs of given text parsed by the package instead of the shipped ones."""
import contextlib
import sys
import types
from pathlib import Path

from .fresh import Fake, load, replaced, stubs_replaced

BUILTINS = '''
from typing import Generic, TypeVar, overload
_T = TypeVar('_T')
_KT = TypeVar('_KT')
_VT = TypeVar('_VT')
class object:
    __doc__: str | None
    def __init__(self) -> None: ...
    def __new__(cls): ...
    def __eq__(self, other: object, /) -> bool: ...
class type(object):
    def __init__(self, o: object) -> None: ...
class int(object):
    def __new__(cls, x: str = ...): ...
    def bit_length(self) -> int: ...
class bool(int): ...
class float(object): ...
class complex(object): ...
class str(object): ...
class bytes(object): ...
class tuple(Generic[_T]): ...
class list(Generic[_T]):
    def append(self, value: _T) -> None: ...
class set(Generic[_T]): ...
class dict(Generic[_KT, _VT]): ...
class classmethod(object): ...
class staticmethod(object): ...
class property(object): ...
class Exception(object): ...
class ValueError(Exception): ...
def len(x: object) -> int: ...
def isinstance(x: object, y: type) -> bool: ...
'''
TYPING = '''
class TypeVar: ...
class _SpecialForm: ...
class NamedTuple(tuple): ...
def overload(x): ...
TYPE_CHECKING: bool
Any = object()
Generic: _SpecialForm
Protocol: _SpecialForm
Union: _SpecialForm
Optional: _SpecialForm
Callable: _SpecialForm
ClassVar: _SpecialForm
'''
SYS = '''
platform: str
maxsize: int
version_info: tuple[int, int, int, str, int]
'''
MINIATURE = {'builtins': BUILTINS, 'typing': TYPING, 'sys': SYS}


def path(name):
    return tuple(name.split('.'))


class World:
    """
    Modules of stubs: texts by names, names of packages end with a dot;
    ``others`` - names of shipped stubs parsed too. Stubs of builtins and
    typing are replaced with miniature ones.
    """

    def __init__(self, texts, folder, others=()):
        texts = {**MINIATURE, **texts}
        self.folder = Path(folder)
        self.files = {}
        for name, text in texts.items():
            is_package = name.endswith('.')
            name = name.rstrip('.')
            place = self.folder.joinpath(*name.split('.'))
            file = (place / '__init__.pyi' if is_package
                    else place.with_suffix('.pyi'))
            file.parent.mkdir(parents=True, exist_ok=True)
            file.write_text(text)
            self.files[path(name)] = file
        self.paths = [*self.files, *map(path, others)]

    @contextlib.contextmanager
    def installed(self):
        from paradigm._core import caching, execution, sources
        original = sources.from_module_path

        def from_module_path(module_path):
            try:
                return self.files[module_path]
            except KeyError:
                return original(module_path)

        original_is_package = sources.is_package

        def is_package(module_path):
            try:
                return self.files[module_path].stem == '__init__'
            except KeyError:
                return original_is_package(module_path)

        def fail(*args, **kwargs):
            raise OSError('no cache')

        with replaced(sources, from_module_path=from_module_path,
                      is_package=is_package,
                      stubs_stdlib_modules_paths=self.paths), replaced(
                caching, load=fail, save=lambda *args, **kwargs: None
        ), replaced(execution, call_in_process=lambda f, *args, **kwargs:
                    f(*args, **kwargs)):
            yield

    def stubs(self):
        with self.installed():
            return load('stubs')


@contextlib.contextmanager
def registered(name, module):
    """Module of the package replaced in its registry."""
    full = f'paradigm._core.{name}'
    parent, _, attribute = full.rpartition('.')
    missing = object()
    saved = sys.modules.get(full, missing)
    sys.modules[full] = module
    __import__(parent)
    with replaced(sys.modules[parent], **{attribute: module}):
        try:
            yield
        finally:
            if saved is missing:
                del sys.modules[full]
            else:
                sys.modules[full] = saved


def program(stubs, qualified_paths=None):
    """Modules depending on stubs, executed anew with the given ones."""
    modules = Fake('paradigm._core.modules')
    modules.supported_stdlib_qualified_paths = (
        {} if qualified_paths is None else qualified_paths)
    with stubs_replaced(stubs), registered('modules', modules):
        evaluation = load('arboreal.evaluation')
        with registered('arboreal.evaluation', evaluation):
            signatures = load('signatures')
    return types.SimpleNamespace(stubs=stubs, evaluation=evaluation,
                                 signatures=signatures)


@contextlib.contextmanager
def imported(**modules):
    """Modules of given names (dots written as two underscores)."""
    modules = {name.replace('__', '.'): module
               for name, module in modules.items()}
    saved = {name: sys.modules.get(name) for name in modules}
    sys.modules.update(modules)
    try:
        yield
    finally:
        for name, module in saved.items():
            if module is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = module
