from contracts.conversions import PATHS
from contracts.scoping import Declared, ObjectContained, ScopeContains
from harness import scopes

from .common import TERMINATION

PROOFS = [*PATHS, ScopeContains, ObjectContained, Declared]
SOURCES = ('paradigm/_core/scoping.py', 'paradigm/_core/stubs.py')
ASSUMPTIONS = (TERMINATION,)
PARSING = 'the stubs are parsed'


def with_aliases(random, tangled):
    """Modules with names assigned to each other in any order."""
    source = scopes.Modules(random, tangled)
    for path in scopes.MODULES:
        lines = source.modules[path].lines
        for _ in range(random.choice((0, 0, 1, 2))):
            target = random.choice(scopes.NAMES)
            value = source.name()
            if random.random() < .3:
                value = target, random.choice(scopes.MEMBERS)
            if target in source.modules[path].scope:
                continue
            form = random.choice(('{} = {}', '{}: object = {}'))
            lines.insert(random.choice((0, len(lines))),
                         form.format(target, '.'.join(value)))
    return source


def is_declared(source, found):
    module, path = found
    if module not in source.modules:
        return False
    if module == scopes.BUILTINS:
        return source.declares(module, path)
    return not path or source.declares(module, path)


def declared(report):
    from paradigm._core import scoping
    for index in range(200 if report.thorough else 50):
        source = with_aliases(report.random, index % 4 > 0)
        shown = source.shown()
        try:
            stubs = source.stubs(report.scratch / f'declared{index}')
        except scoping.ObjectNotFound:
            # bases may become aliases of nothing
            continue
        except (Exception, RecursionError) as error:
            report.count('declared', shown)
            report.violation('declared', shown, PARSING, error)
            continue
        tables = (stubs.definitions, stubs.references, stubs.submodules,
                  stubs.superclasses)
        for _ in range(150):
            module = report.random.choice(scopes.MODULES)
            scope = report.random.choice(source.scopes(module))
            name = (source.name() if report.random.random() < .5
                    else source.known_name(module, scope))
            what = ('.'.join(name) + f' in {".".join((*module, *scope))} of'
                    '\n' + shown)
            report.count('declared', what)
            try:
                found = scoping.resolve_object_path(module, scope, name,
                                                    *tables)
            except scoping.ObjectNotFound:
                found = None
            except (Exception, RecursionError) as error:
                report.violation('declared', what, 'a declared object or '
                                 'ObjectNotFound', error)
                if report.full:
                    return
                continue
            if found is not None and not is_declared(source, found):
                report.violation('declared', what, 'a declared object',
                                 found)
            contained = scoping.contains_object_path(module, scope, name,
                                                     *tables)
            if contained is not (found is not None):
                report.violation('contained', what, found is not None,
                                 contained)
            if report.full:
                return
        unknown(report, scoping, stubs, shown)


def unknown(report, scoping, stubs, shown):
    """Names leading to modules which are not there."""
    missing, lost = ('verif_missing',), 'verif_lost'
    for module in scopes.MODULES:
        references = {**stubs.references, module: {
            **stubs.references[module], (lost,): (missing, ('x',)),
            (lost + '_module',): (missing, ())}}
        tables = (stubs.definitions, references, stubs.submodules,
                  stubs.superclasses)
        for place, name in [(module, (lost,)), (module, (lost, 'y')),
                            (module, (lost + '_module',)),
                            (module, (lost + '_module', 'y')),
                            (missing, ('x',)), (missing, ('int',)),
                            (module + ('verif_sub',), ('x',))]:
            what = (f'{".".join(name)} in {".".join(place)}, {lost} is '
                    f'imported from a missing module to\n{shown}')
            report.count('unknown', what)
            try:
                found = scoping.resolve_object_path(place, (), name, *tables)
            except scoping.ObjectNotFound:
                continue
            except (Exception, RecursionError) as error:
                found = error
            report.violation('unknown', what, 'ObjectNotFound', found)


def shipped(report):
    """Names declared or imported by modules of the shipped stubs."""
    from paradigm._core import scoping, stubs
    tables = (stubs.definitions, stubs.references, stubs.submodules,
              stubs.superclasses)
    modules = sorted(stubs.definitions)
    if not report.thorough:
        modules = report.random.sample(modules, min(len(modules), 150))
    for module in modules:
        names = [*[(name,) for name in stubs.definitions[module]],
                 *stubs.references.get(module, ())]
        for name in names:
            report.count('shipped', (module, name))
            try:
                where, path = scoping.resolve_object_path(module, (), name,
                                                          *tables)
            except scoping.ObjectNotFound:
                if name[0] in stubs.definitions[module]:
                    report.violation('shipped', (module, name),
                                     'a declared object is found', None)
                continue
            except (Exception, RecursionError) as error:
                report.violation('shipped', (module, name), 'a declared '
                                 'object or ObjectNotFound', error)
                continue
            scope = stubs.definitions.get(where)
            for part in path:
                scope = None if scope is None else scope.get(part)
            if scope is None:
                report.violation('shipped', (module, name),
                                 'a declared object', (where, path))
        if report.full:
            return


PROBES = [declared, shipped]
