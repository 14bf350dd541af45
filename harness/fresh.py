"""Modules of the package loaded anew with parts replaced."""
import contextlib
import importlib.util
import sys
import types
from pathlib import Path


class Fake(types.ModuleType):
    """Module of given variables, empty dictionaries for the others."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return {}


@contextlib.contextmanager
def replaced(owner, **values):
    missing = object()
    saved = {name: vars(owner).get(name, missing) for name in values}
    for name, value in values.items():
        setattr(owner, name, value)
    try:
        yield
    finally:
        for name, value in saved.items():
            if value is missing:
                delattr(owner, name)
            else:
                setattr(owner, name, value)


@contextlib.contextmanager
def stubs_replaced(module):
    import paradigm._core as core
    missing = object()
    name = 'paradigm._core.stubs'
    saved = sys.modules.get(name, missing)
    sys.modules[name] = module
    with replaced(core, stubs=module):
        try:
            yield
        finally:
            if saved is missing:
                del sys.modules[name]
            else:
                sys.modules[name] = saved


def load(name):
    """The module executed anew, not registered."""
    import paradigm._core as core
    full = f'paradigm._core.{name}'
    path = Path(core.__file__).parent.joinpath(*name.split('.'))
    spec = importlib.util.spec_from_file_location(full,
                                                  path.with_suffix('.py'))
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def rebuilt_modules(stubs, qualified_paths):
    """
    Module ``modules`` executed without a cache: given stubs and the index
    made by the separate process.
    """
    from paradigm._core import caching, execution

    def fail(*args, **kwargs):
        raise OSError('no cache')

    with stubs_replaced(stubs), replaced(
            caching, load=fail, save=lambda *args, **kwargs: None), replaced(
            execution, call_in_process=lambda *args, **kwargs:
            qualified_paths):
        return load('modules')
