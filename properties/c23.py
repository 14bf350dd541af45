import json
import subprocess
import sys

from contracts.processes import Failing, Process

from .common import TERMINATION

PROOFS = [Process, Failing]
SOURCES = ('paradigm/_core/execution.py',)
ASSUMPTIONS = (TERMINATION,)

MODULE = '''
import multiprocessing, os, signal, sys, time
from paradigm._core.execution import call_in_process


class Falsy(Exception):
    def __bool__(self):
        return False

    def __eq__(self, other):
        return type(self) is type(other)

    __hash__ = None


class Base(BaseException):
    pass


class Odd(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


class Unpicklable(Exception):
    def __reduce__(self):
        raise TypeError('not picklable')


def give(*args, **kwargs):
    return args, kwargs


def same(value):
    return value


def throw(error):
    raise error


def big(size):
    return b'x' * size


def pid():
    return os.getpid()


def in_main():
    return multiprocessing.current_process().name == 'MainProcess'


def leave(code):
    os._exit(code)


def kill():
    os.kill(os.getpid(), signal.SIGKILL)


def leave_softly(code):
    sys.exit(code)


def opaque():
    return lambda: 0


def throw_opaque():
    raise Unpicklable('a')


def nested(depth):
    return (call_in_process(nested, depth - 1) if depth else
            os.getpid())


def nap(seconds):
    time.sleep(seconds)
    return seconds


def call(function, *args, **kwargs):
    return call_in_process(function, *args, **kwargs)
'''

SCRIPT = '''
import json, multiprocessing, os, signal, sys, threading, traceback, types
sys.path[:0] = json.loads(sys.argv[1])
thorough = sys.argv[2] == 'thorough'
import verif_caller as c
from paradigm._core import execution

own = sys.modules['__main__']
results, count = [], 0


class Hang(BaseException):
    pass


def stop(*args):
    raise Hang


signal.signal(signal.SIGALRM, stop)


def report(case, expected, actual):
    results.append([case, expected, actual])


def outcome(function, *args, **kwargs):
    signal.alarm(20)
    try:
        return 'returned', function(*args, **kwargs)
    except Hang:
        return 'hang', 'the call waits forever'
    except BaseException as error:
        return 'raised', error
    finally:
        signal.alarm(0)


def main_module(case, expected):
    actual = sys.modules.get('__main__')
    if actual is not expected:
        report(case + ', the main module afterwards', repr(expected),
               repr(actual))
        if expected is None:
            sys.modules.pop('__main__', None)
        else:
            sys.modules['__main__'] = expected


def equal(a, b):
    return type(a) is type(b) and (
            a.args == b.args if isinstance(a, BaseException)
            else a == b or repr(a) == repr(b))


def check(case, kind, value, function, *args, **kwargs):
    global count
    count += 1
    before = sys.modules.get('__main__')
    actual_kind, actual = outcome(c.call, function, *args, **kwargs)
    main_module(case, before)
    if kind == 'failure':
        # the process can not tell, still the caller must go on
        if actual_kind != 'raised':
            report(case, 'an exception', f'{actual_kind} {actual!r}'[:300])
    elif actual_kind != kind or not equal(actual, value):
        report(case, f'{kind} {value!r}'[:300],
               f'{actual_kind} {actual!r}'[:300])


def returns(value):
    check(f'result {value!r}'[:100], 'returned', value, c.same, value)


VALUES = [None, False, 0, 0., '', (), [], {}, True, 1, 'text', (None,),
          (None, None), [1, 'a'], {'a': 1}, (1, ValueError('a')),
          ((), {}), (None, KeyError('b')), ValueError('a'), c.Falsy('a'),
          c.Base('b'), Ellipsis, int, ValueError, b'bytes', 2 ** 200,
          float('inf'), {'result': 1, 'error': 2}, KeyboardInterrupt()]
ERRORS = [ValueError(), ValueError('a'), ValueError('a', 1), KeyError('k'),
          c.Falsy('f'), c.Falsy(), c.Odd(1, 2), StopIteration(3),
          AssertionError(), OSError(2, 'x'), EOFError(), EOFError('a'),
          BrokenPipeError(), TypeError('t'), RuntimeError('r'),
          MemoryError(), RecursionError('deep'), Exception(),
          ImportError('i'), NotImplementedError(), c.Base('b'),
          KeyboardInterrupt(), GeneratorExit('g'), SystemExit(0),
          SystemExit(None), SystemExit(1), SystemExit('text'),
          ConnectionError('c'), UnicodeError('u'), Warning('w')]


def basics():
    for value in VALUES:
        returns(value)
    for error in ERRORS:
        check(f'exception {error!r}', 'raised', error, c.throw, error)


def arguments():
    names = ['queue', 'sender', 'receiver', 'target', 'name', 'args',
             'kwargs', 'self', 'daemon', 'group', 'error', 'result',
             'context', 'process', 'a']
    check('no arguments', 'returned', ((), {}), c.give)
    for args in [(1,), (1, 2), (None,), ((1, 2), {'a': 1}), ([],)]:
        check(f'arguments {args}', 'returned', (args, {}), c.give, *args)
        check(f'arguments {args} and keywords', 'returned',
              (args, {'a': 1, 'b': None}), c.give, *args, a=1, b=None)
    for name in names:
        check(f'keyword {name}', 'returned', ((), {name: 1}), c.give,
              **{name: 1})
        check(f'keyword {name} with argument', 'returned',
              ((0,), {name: None}), c.give, 0, **{name: None})
    check('many arguments', 'returned', (tuple(range(300)), {}), c.give,
          *range(300))


def kinds():
    check('class', 'returned', 5, int, '5')
    check('builtin', 'returned', [1, 2], sorted, [2, 1])
    check('method', 'returned', 'ab', 'A'.__class__.lower, 'AB')
    for size in (10 ** 5, 10 ** 7) + ((10 ** 8,) if thorough else ()):
        check(f'result of {size} bytes', 'returned', b'x' * size, c.big,
              size)
    check('process of the function is not the main one', 'returned', False,
          c.in_main)
    kind, value = outcome(c.call, c.pid)
    if kind == 'returned' and value == os.getpid():
        report('process of the function', 'another one', 'the same one')
    check('arguments of 10 MB', 'returned', ((b'x' * 10 ** 7,), {}), c.give,
          b'x' * 10 ** 7)


def failures():
    for code in (0, 1, 7):
        check(f'process ended with {code}', 'failure', None, c.leave, code)
    check('process killed', 'failure', None, c.kill)
    check('result which can not be pickled', 'failure', None, c.opaque)
    check('exception which can not be pickled', 'failure', None,
          c.throw_opaque)
    check('wrong arguments', 'failure', None, c.same)
    check('function which can not be called', 'failure', None, None)
    for code in (0, 3, 'bye'):
        check(f'exit with {code!r}', 'raised', SystemExit(code),
              c.leave_softly, code)
    check('call after failures', 'returned', 1, c.same, 1)


def steps():
    import multiprocessing.context
    import multiprocessing.process

    def fail(*args, **kwargs):
        raise OSError('can not')

    places = [(multiprocessing.process.BaseProcess, 'start'),
              (multiprocessing.context.BaseContext, 'Pipe'),
              (multiprocessing.context.BaseContext, 'SimpleQueue'),
              (multiprocessing.context.BaseContext, 'Queue'),
              (os, 'fork'), (os, 'pipe')]
    for owner, name in places:
        saved = vars(owner)[name]
        setattr(owner, name, fail)
        try:
            before = sys.modules.get('__main__')
            kind, value = outcome(c.call, c.same, 1)
        finally:
            setattr(owner, name, saved)
        case = f'failure of {name}'
        main_module(case, before)
        if kind == 'hang' or kind == 'returned' and value != 1:
            report(case, 'the exception', f'{kind} {value!r}')
        check(f'call after {case}', 'returned', 2, c.same, 2)


def mains():
    for module in (types.ModuleType('other'), None, types.ModuleType('x')):
        if module is None:
            del sys.modules['__main__']
        else:
            sys.modules['__main__'] = module
        try:
            check(f'result, main module {module}', 'returned', 3, c.same, 3)
            check(f'exception, main module {module}', 'raised',
                  ValueError(1), c.throw, ValueError(1))
            check(f'killed, main module {module}', 'failure', None, c.kill)
        finally:
            sys.modules['__main__'] = own


def nestings():
    for depth in (1, 2):
        before = sys.modules.get('__main__')
        kind, value = outcome(c.call, c.nested, depth)
        main_module('nested calls', before)
        if kind != 'returned' or value == os.getpid():
            report(f'{depth} nested calls', 'the process',
                   f'{kind} {value!r}')


def threads():
    for naps in ((.3, .8), (.5, .1, .3), (.1, .1, .1, .1)):
        collected = {}

        def run(index, seconds):
            try:
                collected[index] = c.call(c.nap, seconds)
            except BaseException as error:
                collected[index] = error

        before = sys.modules.get('__main__')
        started = [threading.Thread(target=run, args=pair, daemon=True)
                   for pair in enumerate(naps)]
        for thread in started:
            thread.start()
            thread.join(.03)
        for thread in started:
            thread.join(20)
        case = f'threads calling for {naps} seconds'
        main_module(case, before)
        if collected != dict(enumerate(naps)):
            report(case, dict(enumerate(naps)), repr(collected))


def spawned():
    multiprocessing.set_start_method('spawn', force=True)
    check('result with spawning', 'returned', ((1,), {'a': 2}), c.give, 1,
          a=2)
    check('exception with spawning', 'raised', ValueError('a'), c.throw,
          ValueError('a'))
    check('argument which can not be pickled, with spawning', 'failure',
          None, c.same, lambda: 0)
    check('killed with spawning', 'failure', None, c.kill)


for part in (basics, arguments, kinds, failures, steps, mains, nestings,
             threads, spawned):
    part()
    main_module(part.__name__, own)
print('RESULT ' + json.dumps({'results': results, 'count': count}))
'''


def calls(report):
    """Calls of all kinds in a script of its own."""
    folder = report.scratch / 'calls'
    folder.mkdir()
    (folder / 'verif_caller.py').write_text(MODULE)
    (folder / 'run.py').write_text(SCRIPT)
    process = subprocess.Popen(
            [sys.executable, str(folder / 'run.py'),
             json.dumps([str(report.scratch), str(folder)]), report.tier],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
            cwd=str(folder), start_new_session=True)
    try:
        output, error = process.communicate(timeout=130)
    except subprocess.TimeoutExpired:
        import os
        import signal
        os.killpg(process.pid, signal.SIGKILL)
        process.communicate()
        report.violation('time', 'calls of functions in separate processes',
                         'an answer', 'none in 130 seconds')
        return
    lines = [line for line in output.splitlines()
             if line.startswith('RESULT ')]
    if not lines:
        if 'call_in_process' in error and 'cannot import' in error:
            report.notes.append(error[-500:])
        else:
            report.violation('calls', 'script of calls', 'finished',
                             error[-800:])
        return
    result = json.loads(lines[-1][len('RESULT '):])
    for case, expected, actual in result['results']:
        report.violation('separate process', case, expected, actual)
    report.count('calls', 'result None', by=result['count'])


PROBES = [calls]
