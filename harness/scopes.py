"""Random modules of stubs with meaning of their names given by the scopes."""
from . import world

BUILTINS = ('builtins',)
OBJECT = 'object'
# what miniature builtins declare
BUILTIN_MODULE = {
    'object': {'__doc__': {}, '__init__': {}, '__new__': {}, '__eq__': {}},
    'type': {'__init__': {}}, 'int': {'__new__': {}, 'bit_length': {}},
    'bool': {}, 'ValueError': {}, 'Exception': {}, 'len': {}}
BUILTIN_BASES = {('type',): 'object', ('int',): 'object', ('bool',): 'int',
                 ('Exception',): 'object', ('ValueError',): 'Exception'}
MODULES = [('verif_a',), ('verif_b',), ('verif_c',), ('verif_p',),
           ('verif_p', 'q'), ('verif_p', 'r')]
PACKAGES = [('verif_p',)]
CLASSES = 'A', 'B', 'C', 'int', 'ValueError', 'object'
NAMES = [*CLASSES, 'x', 'y', 'len', 'q']
MEMBERS = ['x', 'y', 'm', 'A', '__init__', '__eq__', 'bit_length']


UNSPECIFIED = 'unspecified'


class Unbound(Exception):
    """There is no such name."""


class Unspecified(Exception):
    """No valid program uses the name."""


class Module:
    def __init__(self):
        self.lines = []
        self.scope = {}
        self.stars = []
        self.references = {}
        self.classes = {}


class Modules:
    """
    Declarations, imports and bases of modules; ``tangled`` ones import each
    other in any order, otherwise only the previous ones. ``deep`` ones have
    more classes with nested ones and bases.
    """

    def __init__(self, random, tangled=True, deep=False):
        self.random, self.tangled, self.deep = random, tangled, deep
        self.modules = {path: Module() for path in MODULES}
        builtins = self.modules[BUILTINS] = Module()
        builtins.scope = BUILTIN_MODULE
        self.bases = {(BUILTINS, path): [(BUILTINS, (base,))]
                      for path, base in BUILTIN_BASES.items()}
        order = list(MODULES)
        random.shuffle(order)
        self.order = order
        for path in order:
            self.declare(path)
        for path in order:
            for _ in range(random.randint(0, 4)):
                self.add_import(path)
        for path in order:
            self.write(path)

    def declare(self, path):
        random, module = self.random, self.modules[path]
        names = random.sample(NAMES, random.randint(1, 4))
        if self.deep:
            names = list(dict.fromkeys([*random.sample(CLASSES[:3], 2),
                                        *names]))
        for name in names:
            if name in CLASSES:
                module.scope[name] = self.class_(module, (name,), 0)
            else:
                module.scope[name] = {}

    def class_(self, module, path, depth):
        module.classes[path] = None
        result = {}
        names = self.random.sample(MEMBERS, self.random.randint(0, 3))
        if self.deep and 'A' not in names and self.random.random() < .7:
            names.append('A')
        for name in names:
            result[name] = (self.class_(module, (*path, name), depth + 1)
                            if name == 'A' and depth < 2 else {})
        return result

    def add_import(self, path):
        random, module = self.random, self.modules[path]
        others = [p for p in self.order if p != path]
        if not self.tangled:
            others = self.order[:self.order.index(path)]
            if not others:
                return
        other = random.choice(others)
        name = '.'.join(other)
        form = random.choice(['import', 'as', 'from', 'from', 'from', 'star',
                              'star', 'module'])
        if form == 'import':
            module.lines.append(f'import {name}')
            for size in range(len(other)):
                part = other[:size + 1]
                module.references[part] = part, ()
        elif form == 'as':
            alias = random.choice(NAMES)
            module.lines.append(f'import {name} as {alias}')
            module.references[alias,] = other, ()
        elif form == 'star':
            module.lines.append(f'from {name} import *')
            module.stars.append(other)
        elif form == 'module':
            if len(other) < 2:
                return
            self.from_import(path, other[:-1], other[-1])
        else:
            known = list(self.modules[other].scope)
            # names of names imported there
            known += [name for name, in self.modules[other].references
                      if self.tangled is False] if all(
                    len(k) == 1 for k in self.modules[other].references
            ) else []
            if known:
                self.from_import(path, other, random.choice(known))

    def from_import(self, path, other, name):
        random, module = self.random, self.modules[path]
        alias = random.choice([name, name, random.choice(NAMES)])
        spelled = '.'.join(other)
        if other[0] == path[0] and random.random() < .5:
            package = path if path in PACKAGES else path[:-1]
            if package and other[:len(package)] == package:
                spelled = '.' + '.'.join(other[len(package):])
        module.lines.append(f'from {spelled} import {name}' + (
            '' if alias == name else f' as {alias}'))
        module.references[alias,] = other, (name,)

    def write(self, path):
        module = self.modules[path]
        lines = module.lines
        if self.random.random() < .3:
            # declarations may precede imports
            lines, imports = [], lines
        else:
            imports = []
        for name, scope in module.scope.items():
            lines += self.declaration(path, (name,), scope, '')
        module.lines = [*lines, *imports]

    def declaration(self, module, path, scope, indent):
        name = path[-1]
        if path not in self.modules[module].classes:
            if self.random.random() < .5:
                return [f'{indent}def {name}(*args, **kwargs): ...']
            return [f'{indent}{name}: str']
        # bases are looked up where the class is
        bases = []
        for _ in range(self.random.choice((0, 1, 1, 2, 2)) + 2 * self.deep):
            spelled = self.name()
            if self.deep and self.random.random() < .7:
                spelled = (self.random.choice(CLASSES[:3]),
                           *spelled[1:2][:self.random.choice((0, 0, 1))])
            found = self.resolve(module, path[:-1], spelled)
            if found in (None, UNSPECIFIED) or not self.is_class(found) or (
                    found == (module, path)
                    or (module, path) in self.ancestors(found)
                    # classes inherited by others need order of resolution
                    or (self.deep and self.is_inherited(module, path[:-1],
                                                        spelled, found))
                    or any(found == base for base, _ in bases)
                    or found in [(module, path[:k + 1])
                                 for k in range(len(path))]):
                continue
            bases.append((found, '.'.join(spelled)))
        self.bases[module, path] = [found for found, _ in bases]
        header = (f'{indent}class {name}('
                  + ', '.join(text for _, text in bases) + '):'
                  if bases else f'{indent}class {name}:')
        result = [header]
        for member, inner in scope.items():
            result += self.declaration(module, (*path, member), inner,
                                       indent + '    ')
        return [*result, f'{indent}    ...'] if not scope else result

    def is_class(self, found):
        module, path = found
        return path and (path in self.modules[module].classes or (
                module == BUILTINS and path in BUILTIN_BASES))

    def is_inherited(self, module, scope, spelled, found):
        return any(
                self.resolve(module, scope, spelled[:size]) != (
                    found[0], found[1][:len(found[1]) - len(spelled) + size])
                for size in range(1, len(spelled))
                if found[1][:len(found[1]) - len(spelled) + size])

    def ancestors(self, key):
        for base in self.bases.get(key, ()):
            yield base
            yield from self.ancestors(base)

    def name(self):
        random = self.random
        first = random.choice([*NAMES, *NAMES, *map('.'.join, MODULES),
                               'bool', 'type', 'nowhere', 'object'])
        rest = random.sample([*MEMBERS, *NAMES], random.choice((0, 0, 1, 1,
                                                                2)))
        return tuple([*first.split('.'), *rest])

    def known_name(self, module, scope):
        """Name most parts of which are declared, where they are known."""
        random, name = self.random, self.name()[:1]
        for _ in range(random.randint(0, 5)):
            found = self.resolve(module, scope, name)
            if found in (None, UNSPECIFIED):
                break
            name = *name, self.member(found)
        return name

    def member(self, found, depth=0):
        random, (module, path) = self.random, found
        scope = self.modules[module].scope
        for part in path:
            scope = scope[part]
        bases = self.bases.get(found, ())
        if self.deep and depth == 0 and random.random() < .7:
            inherited = self.inherited(found, scope)
            if inherited:
                return random.choice(inherited)
        if bases and depth < 5 and random.random() < .4 + .4 * self.deep:
            return self.member(random.choice(bases), depth + 1)
        return random.choice([*scope, *scope, *scope,
                              random.choice([*MEMBERS, *NAMES])])

    def inherited(self, found, scope):
        """Names of members only ancestors declare, classes if any."""
        result, classes = [], []
        for module, path in self.ancestors(found):
            inner = self.modules[module].scope
            for part in path:
                inner = inner[part]
            if path == (OBJECT,):
                continue
            for name in inner:
                if name not in scope:
                    (classes if self.is_class((module, (*path, name)))
                     else result).append(name)
        return classes or result

    # ------------------------------------------------------------- meaning

    def resolve(self, module, scope, path):
        """Where the name is declared, None or UNSPECIFIED."""
        try:
            if scope and self.declares(module, (*scope, path[0])):
                return self.follow((module, (*scope, path[0])), path[1:])
            return self.in_module(module, path, ())
        except Unbound:
            if path[0] in self.modules[BUILTINS].scope:
                return self.follow((BUILTINS, path[:1]), path[1:])
            return None
        except Unspecified:
            return UNSPECIFIED

    def declares(self, module, path):
        scope = self.modules[module].scope
        for part in path:
            if part not in scope:
                return False
            scope = scope[part]
        return True

    def in_module(self, module, path, active):
        """The meaning of the name for those who import from the module."""
        if not path:
            return module, ()
        if (module, path) in active:
            raise Unbound
        active = *active, (module, path)
        content = self.modules[module]
        if path[0] in content.scope:
            return self.follow((module, path[:1]), path[1:])
        for other in content.stars:
            try:
                found = self.in_module(other, path, active)
            except Unbound:
                continue
            if found is None:
                # the first name is there, but not the rest
                raise Unspecified
            return found
        for size in range(len(path), 0, -1):
            if path[:size] in content.references:
                other, name = content.references[path[:size]]
                found = self.imported(other, name, active)
                return self.follow(found, path[size:], active)
        raise Unbound

    def imported(self, module, path, active):
        try:
            found = self.in_module(module, path, active)
        except Unbound:
            found = None
        if found is not None:
            return found
        if path and (*module, *path) in self.modules:
            return (*module, *path), ()
        # programs importing nothing
        raise Unspecified

    def follow(self, found, names, active=()):
        """Attributes of what is found, one by one."""
        for index, name in enumerate(names):
            module, path = found
            if not path:
                try:
                    return self.in_module(module, names[index:], active)
                except Unbound:
                    if name in self.modules[BUILTINS].scope:
                        raise Unspecified
                    return None
            inherited = self.own(found, name)
            if inherited is None and found != (BUILTINS, (OBJECT,)):
                inherited = self.own((BUILTINS, (OBJECT,)), name)
            if inherited is None:
                return None
            found = inherited
        return found

    def own(self, found, name):
        module, path = found
        if self.declares(module, (*path, name)):
            return module, (*path, name)
        for base in self.bases.get(found, ()):
            if base == (BUILTINS, (OBJECT,)):
                continue
            result = self.own(base, name)
            if result is not None:
                return result
        return None

    # -------------------------------------------------------------- stubs

    def texts(self):
        return {'.'.join(path) + '.' * (path in PACKAGES):
                '\n'.join(module.lines) + '\n'
                for path, module in self.modules.items()
                if path != BUILTINS}

    def shown(self):
        return '\n'.join(f'# {name}\n{text}'
                         for name, text in self.texts().items())

    def stubs(self, folder):
        return world.World(self.texts(), folder).stubs()

    def scopes(self, module):
        return [(), *self.modules[module].classes]
