import ast

from contracts.recording import TypeVariable
from contracts.specializing import (Attribute, Base, Bases, Name, Parameters,
                                    ParametersFirst, ScopePaths,
                                    Specialization, Unpacked, UnpackedTuple)
from contracts.traversing import Dependencies, Descendants, TypeArguments
from harness import specialization, world

from .common import TERMINATION

PROOFS = [Name, Attribute, Unpacked, UnpackedTuple, TypeArguments,
          TypeVariable, Descendants, Dependencies, ScopePaths, Bases, Base,
          Specialization, Parameters, ParametersFirst]
SOURCES = ('paradigm/_core/stubs.py',)
ASSUMPTIONS = (TERMINATION,)
MIXED = {'verif_b': '''
from typing import Generic, TypeVar
T = TypeVar('T')
class A: ...
class G(Generic[T]):
    def m(self, x: T) -> A: ...
''', 'verif_c': '''
from verif_b import G
class A: ...
class C(G[A]): ...
'''}


def substituted(report):
    from paradigm._core import scoping
    from paradigm._core.arboreal import construction
    from paradigm._core.arboreal.kind import NodeKind
    for index in range(600 if report.thorough else 110):
        program = specialization.Program(report.random)
        report.count('stubs', program.text)
        try:
            stubs = program.world(report.scratch / f'generic{index}').stubs()
        except (Exception, RecursionError) as error:
            report.violation('parsed', program.text, 'stubs are parsed',
                             error)
            continue
        tables = (stubs.definitions, stubs.references, stubs.submodules,
                  stubs.superclasses)

        def resolve(*place):
            try:
                return scoping.resolve_object_path(*place, *tables)
            except (Exception, RecursionError) as error:
                return error

        def compare(kind, spelled, expected, actual):
            report.count(kind, (spelled, program.text))
            if actual != expected:
                report.violation(kind, f'{spelled} of\n{program.text}',
                                 expected, actual)

        def dumped(nodes):
            return [ast.dump(construction.from_raw(raw)) for raw in nodes]

        for child in program.children:
            for path, nodes in child.expected().items():
                spelled = '.'.join((*child.module.path, *child.path, *path))
                place = resolve(child.module.path, (), child.path + path)
                if isinstance(place, Exception):
                    compare('members', spelled, 'a member', place)
                    continue
                module, found = place
                if not nodes:
                    compare('classes', spelled, NodeKind.CLASS,
                            stubs.nodes_kinds[module].get(found))
                    continue
                compare('members', spelled,
                        [ast.dump(node) for node in nodes],
                        dumped(stubs.raw_ast_nodes[module].get(found, ())))
                for node in nodes:
                    for name in specialization.names(node):
                        written = '.'.join(specialization.chain(name))
                        compare('names', f'{written} in {spelled}',
                                name.meaning,
                                resolve(module, found[:-1],
                                        specialization.chain(name)))
        for module in program.modules.values():
            for generic in module.classes:
                for path, nodes in generic.members.items():
                    compare('generic', '.'.join((*module.path, *generic.path,
                                                 *path)),
                            [ast.dump(node) for node in nodes],
                            dumped(stubs.raw_ast_nodes[module.path].get(
                                    generic.path + path, ())))
        if report.full:
            return


def mixed(report):
    from paradigm._core import scoping
    from paradigm._core.arboreal import construction
    stubs = world.World(MIXED, report.scratch / 'mixed').stubs()
    tables = (stubs.definitions, stubs.references, stubs.submodules,
              stubs.superclasses)
    module, path = scoping.resolve_object_path(('verif_c',), (), ('C', 'm'),
                                               *tables)
    raw, = stubs.raw_ast_nodes[module][path]
    node = construction.from_raw(raw)
    actual = [scoping.resolve_object_path(module, path[:-1],
                                          specialization.chain(name), *tables)
              for name in (node.args.args[1].annotation, node.returns)]
    report.count('mixed', MIXED)
    expected = [(('verif_c',), ('A',)), (('verif_b',), ('A',))]
    if actual != expected:
        report.violation('argument named as other object of the module of '
                         'the generic class', MIXED, expected, actual)


PROBES = [substituted, mixed]
