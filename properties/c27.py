import ast

from contracts.recording import (Annotated, Assignment, AsyncFunction, Class,
                                 Condition, Conditional, Function, Imports,
                                 ImportsFrom, Module, Packages, StarImport,
                                 State, TupleBuilder)
from contracts.traversing import Descendants
from harness import recording, world

from .common import TERMINATION

PROOFS = [Function, AsyncFunction, Assignment, Annotated, Imports, Packages,
          ImportsFrom, StarImport, Class, TupleBuilder, Conditional,
          Condition, Descendants, Module, State]
SOURCES = ('paradigm/_core/stubs.py',)
ASSUMPTIONS = (TERMINATION,)
NOT_FOUND = 'not found'
SCOPED = '''
def f(x: int) -> int: ...
g = f
class A:
    def m(self) -> str: ...
    g = m
'''


def declared(report):
    from paradigm._core import scoping
    from paradigm._core.arboreal import construction
    for index in range(1000 if report.thorough else 250):
        source = recording.Text(report.random)
        report.count('stubs', source.text)
        try:
            stubs = source.world(report.scratch / f'declared{index}').stubs()
        except (Exception, RecursionError) as error:
            report.violation('parsed', source.text, 'the stub is parsed',
                             error)
            continue
        here = source.module
        scope = without_constructors(stubs.definitions.get(here),
                                     source.tuples)
        if scope != source.definitions:
            report.violation('definitions', source.text, source.definitions,
                             scope)
        found = stubs.raw_ast_nodes.get(here, {})
        for path in {*found, *source.nodes}:
            if path in source.classes or path[:-1] in source.tuples and (
                    path[-1] == '__new__'):
                continue
            expected = [ast.dump(node) for node in source.nodes.get(path,
                                                                    ())]
            actual = [ast.dump(construction.from_raw(raw))
                      for raw in found.get(path, ())]
            report.count('declarations', (path, source.text))
            if actual != expected:
                report.violation('declarations',
                                 f'{".".join(path)} of\n{source.text}',
                                 expected, actual)
        tables = (stubs.definitions, stubs.references, stubs.submodules,
                  stubs.superclasses)
        names = {path: (here, path) for path in [*source.nodes,
                                                 *source.classes]}
        names.update({(name,): NOT_FOUND for name in source.spelled
                      if (name,) not in names})
        names.update(source.references)
        for path, expected in names.items():
            try:
                actual = scoping.resolve_object_path(here, (), path, *tables)
            except scoping.ObjectNotFound:
                actual = NOT_FOUND
            except (Exception, RecursionError) as error:
                actual = error
            report.count('names', (path, source.text))
            if actual != expected:
                report.violation('names',
                                 f'{".".join(path)} of\n{source.text}',
                                 expected, actual)
        if report.full:
            return


def without_constructors(scope, tuples):
    return scope and {
        name: ({key: value for key, value in inner.items()
                if key != '__new__'} if (name,) in tuples else inner)
        for name, inner in scope.items()}


def scoped(report):
    """Assignments in the scope of a class."""
    from paradigm._core import scoping
    stubs = world.World({'verif_h': SCOPED},
                        report.scratch / 'scoped').stubs()
    tables = (stubs.definitions, stubs.references, stubs.submodules,
              stubs.superclasses)
    report.count('scoped', SCOPED)
    try:
        actual = scoping.resolve_object_path(('verif_h',), (), ('g',),
                                             *tables)
    except scoping.ObjectNotFound:
        actual = NOT_FOUND
    if actual != (('verif_h',), ('f',)):
        report.violation('assignment in a class replaces a name of the '
                         'module', SCOPED, (('verif_h',), ('f',)), actual)


PROBES = [declared, scoped]
