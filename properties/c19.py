import ast
import importlib
import sys
from pathlib import Path

from contracts.caches import DISPLAYS, Load, Save, Trees
from harness import sigs
from paradigm._core import caching, pretty
from paradigm._core.arboreal import construction, conversion

from .common import TERMINATION

PROOFS = [*DISPLAYS, Save, Load, Trees]
SOURCES = ('paradigm/_core/pretty.py', 'paradigm/_core/caching.py',
           'paradigm/_core/arboreal/conversion.py',
           'paradigm/_core/arboreal/construction.py')
ASSUMPTIONS = (TERMINATION,)

SCALARS = [None, True, False, 0, 1, -1, 255, 2 ** 80, -2 ** 70, .5, -1.25,
           1e300, 1e-300, '', 'a', "it's", '"', '\'"', '\\', '\n', 'a\nb',
           ' ', '\t', '\u20ac', '\U0001f600', '\ud800', '\x00', '{', '},',
           ')', '#', "'''", '\\n', b'', b'\xff\n', Ellipsis, 2j, 'x' * 300]


def strictly(a, b):
    """Equal data of the same types."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return (len(a) == len(b) and all(
                any(strictly(k, m) and strictly(v, b[m]) for m in b
                    if m == k) for k, v in a.items()))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(strictly, a, b))
    if isinstance(a, set):
        return (len(a) == len(b)
                and all(any(strictly(x, y) for y in b) for x in a))
    return a == b


def drawn(random, depth, hashable=False):
    kind = random.random()
    if depth <= 0 or kind < .25:
        return random.choice(SCALARS)
    size = random.choice((0, 0, 1, 1, 1, 2, 2, 3, 5))
    kinds = (tuple,) if hashable else (dict, dict, list, tuple, set)
    kind = random.choice(kinds)
    if kind is dict:
        return {drawn(random, depth - 1, True): drawn(random, depth - 1)
                for _ in range(size)}
    if kind is set:
        return {drawn(random, depth - 1, True) for _ in range(size)}
    return kind(drawn(random, depth - 1, hashable) for _ in range(size))


def containers():
    for x in ('a', (), ('a',), ('a', 'b'), (('a',),), 0):
        for kind in (list, tuple, set):
            yield kind(())
            yield kind((x,))
            yield kind((x, 'other'))
            yield {'key': kind((x,)), x: kind((x, 'b', 'c'))}
            yield [kind((x,)), kind((x, 1, 2)), kind(())]
            yield (kind((x,)),)
        yield {x: {}}
        yield {x: {x: {x: []}}}
        yield ({x: ({},)},)


def texts(report):
    """Evaluation of the text of data."""
    for data in containers():
        evaluate(report, data)
    for _ in range(20000 if report.thorough else 2500):
        evaluate(report, drawn(report.random, report.random.randint(0, 5)))
        if report.full:
            return


def evaluate(report, data):
    for indent, depth in ((4, 0), (0, 0), (2, 3)):
        report.count('texts of data', data)
        text = sigs.outcome(pretty.repr_from, data, indent, depth)
        try:
            namespace = {}
            exec(f'value = {text}\n', namespace)
            actual = namespace['value']
        except Exception as error:
            actual = error
        if not strictly(actual, data):
            report.violation('text', f'repr_from({data!r}, {indent}, '
                                     f'{depth})', repr(data),
                             f'{text!r} evaluated to {actual!r}')


def files(report):
    """Saved and loaded back as the package does."""
    folder = Path(caching.__file__).parent
    for number in range(60 if report.thorough else 15):
        size = report.random.randint(2, 6)
        values = {f'field_{i}': drawn(report.random, 4)
                  for i in range(size)}
        path = folder / f'verif_cache_{number}.py'
        report.count('files written and loaded', values)
        try:
            importlib.invalidate_caches()
            error = sigs.outcome(caching.save, path=path, **values)
            importlib.invalidate_caches()
            names = sorted(values, reverse=number % 2 == 0)
            actual = sigs.outcome(caching.load, *names, path=path)
            expected = tuple(values[name] for name in names)
            if error is not None or not strictly(actual, expected):
                report.violation('file', f'save and load of {values!r}',
                                 repr(expected), f'{error!r}, {actual!r}')
        finally:
            sys.modules.pop(f'paradigm._core.{path.stem}', None)
            path.unlink(missing_ok=True)


SNIPPETS = '''
@overload
async def f(self, a: int, /, b: "str" = ..., *args: int, c: int | None = None,
            **kwargs: Any) -> list[Callable[[int], Any]]: ...
class C(Generic[T], metaclass=ABCMeta):
    x: int
    y: ClassVar[Literal[1, "a", b"b", True, None, -1]] = ...
    z = w = 1.5
    def __new__(cls: type[Self], *, k: float = -1.0) -> Self: ...
    if sys.version_info >= (3, 10) and not sys.platform == "win32":
        def g(self): pass
    elif x[1:2, ::3]:
        pass
    else:
        from . import y as z
x = {**a, 1: 2, "b": {3, 4}}
[a for b in c if d for e in f]
lambda x=1, *a, k, **b: (yield)
f"{x!r:>{width}} text {y}"
while not x:
    try:
        raise A from b
    except (A, B) as e:
        del x.y, z[0]
    finally:
        continue
with a as b, c:
    assert x, "m"
match x:
    case {"a": 1, **rest}:
        pass
    case [A(b=1), *_] | None:
        pass
type X[T: int, *Ts, **P] = list[T]
def g[T](x: T) -> T:
    global q
    return x @ 1 << 2j // ...
'text with "quotes" and \\'others\\' \\n \\\\ \u20ac'
b'\\x00\\xff'
u'kind'
import a.b.c as d, e
'''


def nodes():
    for node in ast.walk(ast.parse(SNIPPETS)):
        if isinstance(node, (ast.stmt, ast.expr)):
            yield node
    import mypy
    root = Path(mypy.__file__).parent / 'typeshed' / 'stdlib'
    for name in ('builtins', 'typing', 'functools', 'enum', 'asyncio/tasks',
                 'collections/__init__', 'ctypes/__init__', 'sys'):
        path = root / f'{name}.pyi'
        if path.exists():
            for node in ast.parse(path.read_text(encoding='utf-8')).body:
                yield node


def trees(report):
    for node in nodes():
        expected = ast.dump(node)
        report.count('trees', expected[:200])
        raw = sigs.outcome(conversion.to_raw, node)
        actual = sigs.outcome(construction.from_raw, raw)
        if (not isinstance(actual, ast.AST) or not isinstance(raw, str)
                or type(actual) is not type(node)
                or ast.dump(actual) != expected
                or ast.dump(node) != expected):
            report.violation('tree', ast.unparse(node), expected,
                             f'{raw!r} rebuilt to ' + (
                                 ast.dump(actual)
                                 if isinstance(actual, ast.AST)
                                 else repr(actual)))
            if report.full:
                return


PROBES = [texts, files, trees]
