from contracts.scoping import Parsing, Resolution, ScopeContains
from harness import scopes, world

from .common import TERMINATION

PROOFS = [ScopeContains, Parsing, Resolution]
SOURCES = ('paradigm/_core/scoping.py', 'paradigm/_core/stubs.py')
ASSUMPTIONS = (TERMINATION,)


def resolved(stubs, module, scope, name):
    from paradigm._core import scoping
    try:
        return scoping.resolve_object_path(
                module, scope, name, stubs.definitions, stubs.references,
                stubs.submodules, stubs.superclasses)
    except scoping.ObjectNotFound:
        return None
    except (Exception, RecursionError) as error:
        return error


def names(report):
    for index in range(250 if report.thorough else 60):
        source = scopes.Modules(report.random, tangled=index % 3 > 0,
                                deep=index % 2 > 0)
        shown = source.shown()
        try:
            stubs = source.stubs(report.scratch / f'names{index}')
        except (Exception, RecursionError) as error:
            report.count('names', shown)
            report.violation('names', shown, 'the stubs are parsed', error)
            continue
        for _ in range(150):
            module = report.random.choice(scopes.MODULES)
            scope = report.random.choice(source.scopes(module))
            name = (source.name() if report.random.random() < .5
                    else source.known_name(module, scope))
            what = ('.'.join(name) + f' in {".".join((*module, *scope))} of\n'
                    + shown)
            report.count('names', what)
            expected = source.resolve(module, scope, name)
            actual = resolved(stubs, module, scope, name)
            if expected != scopes.UNSPECIFIED and actual != expected:
                report.violation('names', what, expected, actual)
            if report.full:
                return


def inherited_bases(report):
    """Bases which are members other classes inherit."""
    texts = {
        'verif_a': 'from verif_b import Q\n'
                   'class P:\n    class A: ...\nclass R(Q.A): ...\n',
        'verif_b': 'from verif_a import P\n'
                   'class Q(P): ...\nclass S(Q.A): ...\n'}
    shown = '\n'.join(f'# {name}\n{text}' for name, text in texts.items())
    report.count('inherited bases', shown)
    expected = [(('verif_a',), ('P', 'A'))]
    try:
        superclasses = world.World(texts, report.scratch
                                   / 'inherited').stubs().superclasses
        actual = [superclasses['verif_a',]['R',],
                  superclasses['verif_b',]['S',]]
    except (Exception, RecursionError) as error:
        actual = error
    if actual != [expected, expected]:
        report.violation('base inherited by a class of modules importing each '
                         'other', shown, [expected, expected], actual)


PROBES = [names, inherited_bases]
